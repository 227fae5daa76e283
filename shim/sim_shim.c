/* LD_PRELOAD shim: the seam between a real program and the simulated operating system.
 *
 * Process mode (environment SIM_WORLD_FD=<fd of a sim_world>): file descriptors 0, 1 and 2 and every
 * path below /sim/ live in the shared world; the fault plan in the world decides which calls fail,
 * are cut short, interrupted, or are the instant at which the process is killed. Writes to any
 * path outside the world are refused and recorded. Randomness and clocks come from the world.
 *
 * Library mode (harness calls sim_lib_config): only randomness, clocks and futex waits are taken over.
 */
#define _GNU_SOURCE
#include "sim_world.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#define VFD 1000
static struct sim_world *W;
static int lib_on;
static uint64_t env_seed;
static uint64_t lib_seed, lib_rand_calls;
static int64_t lib_sec, lib_nsec, lib_step;
static uint64_t host_seed;
static long (*futex_hook)(void);
static void (*idle_hook)(void);

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long rawe(long n, long a, long b, long c, long d, long e, long f) {
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
#define RAW3(n, a, b, c) rawe(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define RAW4(n, a, b, c, d) rawe(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)

__attribute__((constructor)) static void sim_init(void) {
    const char *s = getenv("SIM_WORLD_FD");
    if (!s) return;
    int fd = atoi(s);
    void *p = mmap(NULL, sizeof(struct sim_world), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) _exit(98);
    W = p;
    if (W->magic != SIM_MAGIC) _exit(98);
    RAW3(SYS_close, fd, 0, 0);
    unsetenv("SIM_WORLD_FD");
    s = getenv("SIM_ENV_SEED");
    if (s) { env_seed = strtoull(s, NULL, 10); unsetenv("SIM_ENV_SEED"); }
    s = getenv("SIM_HOST_SEED");
    if (s) { host_seed = strtoull(s, NULL, 10); unsetenv("SIM_HOST_SEED"); }
    unsetenv("LD_PRELOAD");
    struct itimerval it = {{0, 0}, {10, 0}}; /* a simulated process that burns 10 s of CPU is hung */
    setitimer(ITIMER_PROF, &it, NULL);
    alarm(120);
    struct rlimit rl = {4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
}

/* ---- library mode ---- */
void sim_lib_config(int on, uint64_t seed, int64_t sec, int64_t step) {
    lib_on = on; lib_seed = seed; lib_rand_calls = 0; lib_sec = sec; lib_nsec = 0; lib_step = step;
}
uint64_t sim_lib_rand_calls(void) { return lib_rand_calls; }
void sim_lib_hooks(long (*fh)(void), void (*ih)(void)) { futex_hook = fh; if (ih) idle_hook = ih; }
int64_t sim_real_ns(void) {
    struct timespec ts;
    raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
    return (int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
long sim_raw_syscall(long n, long a, long b, long c, long d, long e, long f) { return raw6(n, a, b, c, d, e, f); }

static uint64_t env_asked;
void sim_env_seed(uint64_t s) { env_seed = s; }
uint64_t sim_env_asked(void) { return env_asked; }
static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
/* Variables that are not set: with an environment seed they exist or not, with a value that depends on the seed. */
extern char **environ;
char *getenv(const char *name) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    if (!env_seed || !strncmp(name, "RUST", 4) || !strncmp(name, "SIM_", 4) || !strncmp(name, "LD_", 3)) return NULL;
    static char *values[] = {"1", "0", "true", "false", "always", "never", "", "80", "/nonexistent", "debug", "json", "2"};
    uint64_t h = env_seed;
    for (size_t i = 0; i < n; i++) h = mix(h ^ (unsigned char)name[i]);
    env_asked++;
    return h & 1 ? NULL : values[(h >> 8) % (sizeof values / sizeof *values)];
}
static void fill_random(uint8_t *p, size_t n) {
    uint64_t seed = W ? W->rand_seed : lib_seed;
    uint64_t c = W ? W->rand_calls++ : __atomic_fetch_add(&lib_rand_calls, 1, __ATOMIC_SEQ_CST);
    uint64_t x = mix(seed ^ mix(c));
    for (size_t i = 0; i < n; i++) {
        if ((i & 7) == 0) x = mix(x + i);
        p[i] = (uint8_t)(x >> ((i & 7) * 8));
    }
}

static void logev(int op, int role, long arg, long ret, int err) {
    W->op_count[op & 15]++;
    uint32_t i = W->nevents++;
    if (i < MAXEV) { struct sim_event *e = &W->ev[i]; e->op = (uint16_t)op; e->role = (uint16_t)role; e->arg = (int32_t)arg; e->ret = (int32_t)ret; e->err = err; }
}
static void die(void) {
    W->crashed = 1;
    raw6(SYS_kill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0);
    for (;;) raw6(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}
static struct sim_fault *hit(int op, int role) {
    struct sim_fault *r = NULL;
    W->calls++;
    if (W->calls > W->budget) { W->hang = 1; raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0); }
    for (uint32_t i = 0; i < W->nfaults && i < MAXFAULT; i++) {
        struct sim_fault *f = &W->fault[i];
        if (f->op != OP_ANY && f->op != (uint32_t)op) continue;
        if (f->role != ROLE_ANY && f->role != (uint32_t)role) continue;
        f->seen++;
        if (f->seen >= f->nth && f->seen < f->nth + f->repeat && !r) { r = f; }
    }
    if (r) {
        if (r->action == ACT_CRASH_BEFORE) { r->fired++; logev(op, role, r->action, -1, 0); die(); }
    }
    return r;
}
/* Generic (non-data) call: returns nonzero when an errno was injected. */
static int gate(int op, int role, struct sim_fault **out) {
    struct sim_fault *f = hit(op, role);
    *out = f;
    if (f && f->action == ACT_ERRNO) {
        f->fired++;
        errno = (int)f->arg;
        logev(op, role, 0, -1, errno);
        return 1;
    }
    return 0;
}
static void after(struct sim_fault *f) {
    if (f && (f->action == ACT_CRASH_AFTER || f->action == ACT_CRASH_PARTIAL)) { f->fired++; die(); }
}

static int vpath(const char *p) { return W && p && strncmp(p, "/sim/", 5) == 0; }
static int isdirpath(const char *p) { return W && p && (strcmp(p, "/sim") == 0 || strcmp(p, "/sim/") == 0); }
static struct sim_entry *lookup(const char *p) {
    for (int i = 0; i < MAXENT; i++) if (W->entry[i].used && strcmp(W->entry[i].path, p) == 0) return &W->entry[i];
    return NULL;
}
static int role_of_path(const char *p) {
    struct sim_entry *e = lookup(p);
    if (e) return (int)W->inode[e->inode].role;
    if (strncmp(p, "/sim/out", 8) == 0 && !strchr(p + 5, '/') && !strstr(p, ".tmp") && !strchr(p, '~')) return ROLE_OUT;
    return ROLE_OTHER;
}
static struct sim_fd *vfd(int fd) {
    if (!W) return NULL;
    int i = fd >= 0 && fd < 3 ? fd : fd >= VFD && fd < VFD + MAXFD ? fd - VFD : -1;
    if (i < 0 || !W->fd[i].used) return NULL;
    if (fd >= 3 && i < 3) return NULL;
    return &W->fd[i];
}
static int is_v(int fd) { return W && ((fd >= 0 && fd < 3) || (fd >= VFD && fd < VFD + MAXFD)); }
static struct sim_inode *ino(struct sim_fd *f) { return &W->inode[f->inode]; }

static int newfd(uint32_t inode, uint32_t flags) {
    for (int i = 3; i < MAXFD; i++) if (!W->fd[i].used) {
        W->fd[i].used = 1; W->fd[i].inode = inode; W->fd[i].flags = flags; W->fd[i].pos = 0;
        return VFD + i;
    }
    errno = EMFILE;
    return -1;
}

static int v_open(const char *path, int flags) {
    int acc = flags & O_ACCMODE;
    struct sim_fault *f;
    if (isdirpath(path)) { if (acc != O_RDONLY) { errno = EISDIR; return -1; } errno = EACCES; return -1; }
    int role = role_of_path(path);
    if (gate(OP_OPEN, role, &f)) return -1;
    struct sim_entry *e = lookup(path);
    if (!e && !(flags & O_CREAT)) { errno = ENOENT; logev(OP_OPEN, role, flags, -1, ENOENT); after(f); return -1; }
    if (e && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; logev(OP_OPEN, role, flags, -1, EEXIST); return -1; }
    if (!e) {
        if (strlen(path) >= PATHLEN) { errno = ENAMETOOLONG; return -1; }
        if (strchr(path + 5, '/')) { errno = ENOENT; logev(OP_OPEN, role, flags, -1, ENOENT); return -1; }
        int n = -1, k = -1;
        for (int i = 3; i < MAXINO; i++) if (!W->inode[i].used) { n = i; break; }
        for (int i = 0; i < MAXENT; i++) if (!W->entry[i].used) { k = i; break; }
        if (n < 0 || k < 0) { errno = ENOSPC; return -1; }
        memset(&W->inode[n], 0, sizeof W->inode[n]);
        W->inode[n].used = 1; W->inode[n].role = (uint32_t)role;
        W->entry[k].used = 1; W->entry[k].inode = (uint32_t)n; strcpy(W->entry[k].path, path);
        e = &W->entry[k];
    }
    struct sim_inode *in = &W->inode[e->inode];
    if (acc != O_RDONLY || (flags & O_TRUNC)) in->wopens++;
    if (flags & O_TRUNC) { in->size = 0; in->truncs++; }
    int fd = newfd(e->inode, (uint32_t)flags);
    logev(OP_OPEN, role, flags & (O_ACCMODE | O_TRUNC | O_CREAT | O_EXCL | O_APPEND), fd >= 0 ? 0 : -1, fd >= 0 ? 0 : errno);
    after(f);
    return fd;
}
static int outside(const char *p, int writing) {
    if (!W || !writing || !p) return 0;
    if (strncmp(p, "/dev/", 5) == 0) return 0;
    W->outside++;
    strncpy(W->outside_path, p, PATHLEN - 1);
    logev(OP_OUTSIDE, ROLE_OTHER, 0, -1, EACCES);
    errno = EACCES;
    return 1;
}
static int do_openat(int dfd, const char *path, int flags, int mode) {
    if (vpath(path) || isdirpath(path)) return v_open(path, flags);
    if (W && path && strcmp(path, "/dev/urandom") == 0) { /* real device: content would be nondeterministic */ errno = ENOENT; return -1; }
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) || (flags & O_TMPFILE) == O_TMPFILE;
    if (outside(path, wr)) return -1;
    return (int)RAW4(SYS_openat, dfd, path, flags, mode);
}
#define GETMODE(flags) int mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { GETMODE(flags) return do_openat(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { GETMODE(flags) return do_openat(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { GETMODE(flags) return do_openat(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { GETMODE(flags) return do_openat(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int creat64(const char *p, mode_t m) { return do_openat(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }

static int interrupted(int op, int role) {
    if (W->nint) {
        uint32_t v = W->intr[W->int_i % W->nint];
        W->int_i++;
        if (v) { W->intr_fired++; errno = EINTR; logev(op, role, 0, -1, EINTR); return 1; }
    }
    return 0;
}
static ssize_t v_read(int fd, void *buf, size_t n, int64_t off) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    struct sim_inode *in = ino(f);
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    struct sim_fault *x;
    int role = (int)in->role;
    if (gate(OP_READ, role, &x)) return -1;
    if (interrupted(OP_READ, role)) return -1;
    uint32_t pos = off >= 0 ? (uint32_t)off : f->pos;
    size_t avail = pos < in->size ? in->size - pos : 0, want = n < avail ? n : avail, k = want;
    if (W->nread_chunk) { uint32_t c = W->read_chunk[W->read_i % W->nread_chunk]; W->read_i++; if (c && c < k) k = c; }
    if (x && x->action == ACT_SHORT) { x->fired++; uint32_t c = x->arg ? x->arg : 1; if (c < k) k = c; }
    if (k < want) W->short_reads++;
    memcpy(buf, W->data[f->inode] + pos, k);
    if (off < 0) f->pos += (uint32_t)k;
    in->reads++;
    logev(OP_READ, role, (long)(n > 0x7fffffff ? 0x7fffffff : n), (long)k, 0);
    after(x);
    return (ssize_t)k;
}
static ssize_t v_write(int fd, const void *buf, size_t n, int64_t off) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    struct sim_inode *in = ino(f);
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    struct sim_fault *x;
    int role = (int)in->role;
    if (gate(OP_WRITE, role, &x)) return -1;
    if (interrupted(OP_WRITE, role)) return -1;
    if (x && x->action == ACT_ZERO) { x->fired++; logev(OP_WRITE, role, (long)n, 0, 0); return 0; }
    size_t k = n;
    if (W->nwrite_chunk) { uint32_t c = W->write_chunk[W->write_i % W->nwrite_chunk]; W->write_i++; if (c && c < k) k = c; }
    if (x && (x->action == ACT_SHORT || x->action == ACT_CRASH_PARTIAL)) { if (x->action == ACT_SHORT) x->fired++; size_t c = x->arg ? x->arg : 1; if (x->action == ACT_CRASH_PARTIAL) c = x->arg; if (c < k) k = c; }
    if (k < n) W->short_writes++;
    uint32_t pos = off >= 0 ? (uint32_t)off : (in->kind == 1 || (f->flags & O_APPEND)) ? in->size : f->pos;
    if ((uint64_t)pos + k > INOCAP) { if (pos >= INOCAP) { errno = ENOSPC; logev(OP_WRITE, role, (long)n, -1, ENOSPC); return -1; } k = INOCAP - pos; }
    if (pos > in->size) memset(W->data[f->inode] + in->size, 0, pos - in->size);
    memcpy(W->data[f->inode] + pos, buf, k);
    if (pos + k > in->size) in->size = (uint32_t)(pos + k);
    if (off < 0) f->pos = (uint32_t)(pos + k);
    in->writes++;
    logev(OP_WRITE, role, (long)n, (long)k, 0);
    after(x);
    return (ssize_t)k;
}
ssize_t read(int fd, void *b, size_t n) { return is_v(fd) ? v_read(fd, b, n, -1) : RAW3(SYS_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return is_v(fd) ? v_read(fd, b, n, o) : RAW4(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return is_v(fd) ? v_read(fd, b, n, o) : RAW4(SYS_pread64, fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { return is_v(fd) ? v_write(fd, b, n, -1) : RAW3(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return is_v(fd) ? v_write(fd, b, n, o) : RAW4(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return is_v(fd) ? v_write(fd, b, n, o) : RAW4(SYS_pwrite64, fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!is_v(fd)) return RAW3(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return v_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return v_read(fd, NULL, 0, -1);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!is_v(fd)) return RAW3(SYS_writev, fd, v, c);
    size_t total = 0;
    for (int i = 0; i < c; i++) total += v[i].iov_len;
    uint8_t *tmp = malloc(total ? total : 1);
    if (!tmp) { errno = ENOMEM; return -1; }
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = v_write(fd, tmp, total, -1);
    int e = errno; free(tmp); errno = e;
    return r;
}
int close(int fd) {
    if (!is_v(fd)) return (int)RAW3(SYS_close, fd, 0, 0);
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    int role = (int)ino(f)->role;
    struct sim_fault *x;
    int inj = gate(OP_CLOSE, role, &x);
    f->used = 0;
    if (inj) return -1;
    logev(OP_CLOSE, role, 0, 0, 0);
    after(x);
    return 0;
}
static off_t v_lseek(int fd, off_t o, int wh) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    struct sim_inode *in = ino(f);
    struct sim_fault *x;
    if (gate(OP_SEEK, (int)in->role, &x)) return -1;
    if (in->kind == 1) { errno = ESPIPE; logev(OP_SEEK, (int)in->role, 0, -1, ESPIPE); return -1; }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : in->size;
    if (base + o < 0) { errno = EINVAL; return -1; }
    f->pos = (uint32_t)(base + o);
    logev(OP_SEEK, (int)in->role, o, f->pos, 0);
    after(x);
    return f->pos;
}
off_t lseek(int fd, off_t o, int wh) { return is_v(fd) ? v_lseek(fd, o, wh) : RAW3(SYS_lseek, fd, o, wh); }
off_t lseek64(int fd, off_t o, int wh) { return is_v(fd) ? v_lseek(fd, o, wh) : RAW3(SYS_lseek, fd, o, wh); }
static int v_trunc(uint32_t i, off_t n) {
    struct sim_inode *in = &W->inode[i];
    struct sim_fault *x;
    if (gate(OP_TRUNC, (int)in->role, &x)) return -1;
    if (n < 0 || n > INOCAP) { errno = EINVAL; return -1; }
    if ((uint32_t)n > in->size) memset(W->data[i] + in->size, 0, (size_t)n - in->size);
    in->size = (uint32_t)n; in->truncs++;
    logev(OP_TRUNC, (int)in->role, n, 0, 0);
    after(x);
    return 0;
}
int ftruncate(int fd, off_t n) { if (!is_v(fd)) return (int)RAW3(SYS_ftruncate, fd, n, 0); struct sim_fd *f = vfd(fd); if (!f) { errno = EBADF; return -1; } return v_trunc(f->inode, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
    if (!vpath(p)) { if (outside(p, 1)) return -1; return (int)RAW3(SYS_truncate, p, n, 0); }
    struct sim_entry *e = lookup(p);
    if (!e) { errno = ENOENT; return -1; }
    return v_trunc(e->inode, n);
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }

static int v_sync(int fd) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    struct sim_fault *x;
    int role = (int)ino(f)->role;
    if (gate(OP_FSYNC, role, &x)) return -1;
    if (ino(f)->kind == 1) { errno = EINVAL; logev(OP_FSYNC, role, 0, -1, EINVAL); return -1; }
    logev(OP_FSYNC, role, 0, 0, 0);
    after(x);
    return 0;
}
int fsync(int fd) { return is_v(fd) ? v_sync(fd) : (int)RAW3(SYS_fsync, fd, 0, 0); }
int fdatasync(int fd) { return is_v(fd) ? v_sync(fd) : (int)RAW3(SYS_fdatasync, fd, 0, 0); }

static void fillstat(uint32_t i, struct stat *s) {
    struct sim_inode *in = &W->inode[i];
    memset(s, 0, sizeof *s);
    s->st_dev = 77; s->st_ino = i + 1; s->st_nlink = 1;
    s->st_mode = in->kind == 1 ? (S_IFIFO | 0600) : (S_IFREG | 0644);
    s->st_size = in->kind == 1 ? 0 : in->size; s->st_blksize = 4096; s->st_blocks = (in->size + 511) / 512;
}
static int v_fstat(int fd, struct stat *s) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    struct sim_fault *x;
    int role = (int)ino(f)->role;
    if (gate(OP_STAT, role, &x)) return -1;
    fillstat(f->inode, s);
    logev(OP_STAT, role, 0, 0, 0);
    after(x);
    return 0;
}
static int v_stat(const char *p, struct stat *s) {
    struct sim_fault *x;
    if (isdirpath(p)) { memset(s, 0, sizeof *s); s->st_mode = S_IFDIR | 0755; s->st_dev = 77; s->st_ino = 999; s->st_nlink = 2; return 0; }
    int role = role_of_path(p);
    if (gate(OP_STAT, role, &x)) return -1;
    struct sim_entry *e = lookup(p);
    if (!e) { errno = ENOENT; logev(OP_STAT, role, 0, -1, ENOENT); return -1; }
    fillstat(e->inode, s);
    logev(OP_STAT, role, 0, 0, 0);
    after(x);
    return 0;
}
int fstat(int fd, struct stat *s) { return is_v(fd) ? v_fstat(fd, s) : (int)RAW3(SYS_fstat, fd, s, 0); }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
int stat(const char *p, struct stat *s) { return vpath(p) || isdirpath(p) ? v_stat(p, s) : (int)RAW3(SYS_stat, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
int lstat(const char *p, struct stat *s) { return vpath(p) || isdirpath(p) ? v_stat(p, s) : (int)RAW3(SYS_lstat, p, s, 0); }
int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
int fstatat(int d, const char *p, struct stat *s, int fl) {
    if (p && p[0] == 0 && is_v(d)) return v_fstat(d, s);
    if (vpath(p) || isdirpath(p)) return v_stat(p, s);
    return (int)RAW4(SYS_newfstatat, d, p, s, fl);
}
int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *o) {
    struct stat s;
    int r;
    // std asks this way whether statx is there at all
    struct statx *volatile asked = o;
    if (!asked) { errno = EFAULT; return -1; }
    if ((!p || p[0] == 0) && is_v(d)) r = v_fstat(d, &s);
    else if (vpath(p) || isdirpath(p)) r = v_stat(p, &s);
    else return (int)rawe(SYS_statx, d, (long)p, fl, mask, (long)o, 0);
    if (r) return r;
    memset(o, 0, sizeof *o);
    o->stx_mask = STATX_BASIC_STATS; o->stx_mode = (uint16_t)s.st_mode; o->stx_size = (uint64_t)s.st_size;
    o->stx_ino = s.st_ino; o->stx_dev_minor = 77; o->stx_nlink = (uint32_t)s.st_nlink; o->stx_blksize = 4096; o->stx_blocks = (uint64_t)s.st_blocks;
    return 0;
}
static int v_access(const char *p) { struct stat s; return v_stat(p, &s); }
int access(const char *p, int m) { return vpath(p) || isdirpath(p) ? v_access(p) : (int)RAW3(SYS_access, p, m, 0); }
int faccessat(int d, const char *p, int m, int fl) { (void)fl; return vpath(p) || isdirpath(p) ? v_access(p) : (int)RAW3(SYS_faccessat, d, p, m); }
char *realpath(const char *p, char *out) {
    if (vpath(p) || isdirpath(p)) {
        struct stat s;
        if (v_stat(p, &s)) return NULL;
        if (!out) out = malloc(PATH_MAX);
        if (out) strcpy(out, p);
        return out;
    }
    errno = ENOENT;
    if (!p) return NULL;
    /* outside the world: no symlink resolution needed by anything under test */
    if (!out) out = malloc(PATH_MAX);
    if (out) { strncpy(out, p, PATH_MAX - 1); out[PATH_MAX - 1] = 0; }
    return out;
}
static int v_rename(const char *a, const char *b) {
    if (!vpath(a) || !vpath(b)) { outside(vpath(a) ? b : a, 1); errno = EXDEV; return -1; }
    struct sim_fault *x;
    int role = role_of_path(b);
    if (gate(OP_RENAME, role, &x)) return -1;
    struct sim_entry *e = lookup(a), *t = lookup(b);
    if (!e) { errno = ENOENT; logev(OP_RENAME, role, 0, -1, ENOENT); return -1; }
    if (t && t != e) { uint32_t old = t->inode; t->used = 0; W->inode[old].truncs++; }
    strncpy(e->path, b, PATHLEN - 1);
    W->inode[e->inode].role = (uint32_t)role;
    logev(OP_RENAME, role, 0, 0, 0);
    after(x);
    return 0;
}
int rename(const char *a, const char *b) { if (W) return v_rename(a, b); return (int)RAW3(SYS_rename, a, b, 0); }
int renameat(int d, const char *a, int e, const char *b) { if (W) return v_rename(a, b); return (int)RAW4(SYS_renameat, d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned fl) { if (W) return v_rename(a, b); return (int)rawe(SYS_renameat2, d, (long)a, e, (long)b, fl, 0); }
static int v_unlink(const char *p) {
    if (!vpath(p)) { outside(p, 1); errno = EACCES; return -1; }
    struct sim_fault *x;
    int role = role_of_path(p);
    if (gate(OP_UNLINK, role, &x)) return -1;
    struct sim_entry *e = lookup(p);
    if (!e) { errno = ENOENT; logev(OP_UNLINK, role, 0, -1, ENOENT); return -1; }
    e->used = 0;
    logev(OP_UNLINK, role, 0, 0, 0);
    after(x);
    return 0;
}
int unlink(const char *p) { return W ? v_unlink(p) : (int)RAW3(SYS_unlink, p, 0, 0); }
int unlinkat(int d, const char *p, int fl) { return W ? v_unlink(p) : (int)RAW3(SYS_unlinkat, d, p, fl); }
int remove(const char *p) { return W ? v_unlink(p) : (int)RAW3(SYS_unlink, p, 0, 0); }
int link(const char *a, const char *b) {
    if (!W) return (int)RAW3(SYS_link, a, b, 0);
    if (!vpath(a) || !vpath(b)) { outside(b, 1); errno = EACCES; return -1; }
    struct sim_entry *e = lookup(a);
    if (!e) { errno = ENOENT; return -1; }
    if (lookup(b)) { errno = EEXIST; return -1; }
    for (int i = 0; i < MAXENT; i++) if (!W->entry[i].used) { W->entry[i].used = 1; W->entry[i].inode = e->inode; strncpy(W->entry[i].path, b, PATHLEN - 1); return 0; }
    errno = ENOSPC; return -1;
}
int linkat(int d, const char *a, int e, const char *b, int fl) { if (W) return link(a, b); return (int)rawe(SYS_linkat, d, (long)a, e, (long)b, fl, 0); }
int symlink(const char *a, const char *b) { if (W) { outside(b, 1); errno = EACCES; return -1; } return (int)RAW3(SYS_symlink, a, b, 0); }
int mkdir(const char *p, mode_t m) { if (W && isdirpath(p)) { errno = EEXIST; return -1; } if (W) { outside(p, 1); errno = EACCES; return -1; } return (int)RAW3(SYS_mkdir, p, m, 0); }
int mkdirat(int d, const char *p, mode_t m) { if (W && isdirpath(p)) { errno = EEXIST; return -1; } if (W) { outside(p, 1); errno = EACCES; return -1; } return (int)RAW3(SYS_mkdirat, d, p, m); }
int rmdir(const char *p) { if (W) { outside(p, 1); errno = EACCES; return -1; } return (int)RAW3(SYS_rmdir, p, 0, 0); }
int chmod(const char *p, mode_t m) { if (W) { if (vpath(p)) return lookup(p) ? 0 : (errno = ENOENT, -1); outside(p, 1); return -1; } return (int)RAW3(SYS_chmod, p, m, 0); }
int fchmod(int fd, mode_t m) { return is_v(fd) ? 0 : (int)RAW3(SYS_fchmod, fd, m, 0); }

int dup(int fd) {
    if (!is_v(fd)) return (int)RAW3(SYS_dup, fd, 0, 0);
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    return newfd(f->inode, f->flags);
}
static int v_fcntl(int fd, int cmd, long arg) {
    struct sim_fd *f = vfd(fd);
    if (!f) { errno = EBADF; return -1; }
    (void)arg;
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return newfd(f->inode, f->flags);
    if (cmd == F_GETFD) return 0;
    if (cmd == F_GETFL) return (int)f->flags;
    return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return is_v(fd) ? v_fcntl(fd, cmd, a) : (int)RAW3(SYS_fcntl, fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return is_v(fd) ? v_fcntl(fd, cmd, a) : (int)RAW3(SYS_fcntl, fd, cmd, a); }
/* With a host seed: terminals or not, another number of processors, another working directory, host and user. */
void sim_host_seed(uint64_t s) { host_seed = s; }
static uint64_t host(uint64_t what) { return mix(host_seed ^ mix(what)); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (!host_seed) { long r = raw6(SYS_sched_getaffinity, p, (long)n, (long)m, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    memset(m, 0, n);
    static const unsigned counts[] = {1, 1, 2, 3, 7, 64};
    unsigned k = counts[host(10) % 6];
    for (unsigned i = 0; i < k && i < n * 8; i++) ((uint8_t *)m)[i / 8] |= (uint8_t)(1u << (i % 8));
    return 0;
}
char *getcwd(char *b, size_t n) {
    if (!host_seed) {
        if (!b) { n = n ? n : 4096; b = malloc(n); }
        long r = raw6(SYS_getcwd, (long)b, (long)n, 0, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return NULL; }
        return b;
    }
    static const char *dirs[] = {"/", "/home/user", "/sim", "/tmp/x y", NULL};
    const char *d = dirs[host(11) % 5];
    if (!d) { errno = ENOENT; return NULL; }
    if (!b) { n = n ? n : 4096; b = malloc(n); }
    if (strlen(d) >= n) { errno = ERANGE; return NULL; }
    return strcpy(b, d);
}
int gethostname(char *b, size_t n) {
    struct utsname u;
    if (host_seed) snprintf(b, n, "host%u", (unsigned)(host(12) % 3));
    else { raw6(SYS_uname, (long)&u, 0, 0, 0, 0, 0); snprintf(b, n, "%s", u.nodename); }
    return 0;
}
uid_t getuid(void) { return host_seed ? (host(13) & 1 ? 0 : 1000) : (uid_t)raw6(SYS_getuid, 0, 0, 0, 0, 0, 0); }
uid_t geteuid(void) { return host_seed ? (host(13) & 1 ? 0 : 1000) : (uid_t)raw6(SYS_geteuid, 0, 0, 0, 0, 0, 0); }
int isatty(int fd) { if (host_seed && fd >= 0 && fd < 3) { if (host(20 + (uint64_t)fd) & 1) return 1; errno = ENOTTY; return 0; } if (is_v(fd)) { errno = ENOTTY; return 0; } char t[64]; return RAW3(SYS_ioctl, fd, 0x5401, t) == 0; }
int futimens(int fd, const struct timespec *t) { if (is_v(fd)) return 0; return (int)raw6(SYS_utimensat, fd, 0, (long)t, 0, 0, 0); }
int flock(int fd, int op) { return is_v(fd) ? 0 : (int)RAW3(SYS_flock, fd, op, 0); }
int posix_fadvise(int fd, off_t a, off_t b, int c) { return is_v(fd) ? 0 : (int)-raw6(SYS_fadvise64, fd, a, b, c, 0, 0); }
int fallocate(int fd, int m, off_t a, off_t b) { if (is_v(fd)) { errno = EOPNOTSUPP; return -1; } return (int)RAW4(SYS_fallocate, fd, m, a, b); }
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned fl) { if (is_v(a) || is_v(b)) { errno = ENOSYS; return -1; } return rawe(SYS_copy_file_range, a, (long)x, b, (long)y, (long)n, fl); }
ssize_t sendfile(int a, int b, off_t *o, size_t n) { if (is_v(a) || is_v(b)) { errno = EINVAL; return -1; } return RAW4(SYS_sendfile, a, b, o, n); }
ssize_t sendfile64(int a, int b, off_t *o, size_t n) { return sendfile(a, b, o, n); }
ssize_t splice(int a, off_t *x, int b, off_t *y, size_t n, unsigned fl) { if (is_v(a) || is_v(b)) { errno = EINVAL; return -1; } return rawe(SYS_splice, a, (long)x, b, (long)y, (long)n, fl); }

static ssize_t do_getrandom(void *b, size_t n) { if (W) W->op_count[OP_RANDOM]++; fill_random(b, n); return (ssize_t)n; }
ssize_t getrandom(void *b, size_t n, unsigned fl) { if (W || lib_on) return do_getrandom(b, n); return RAW3(SYS_getrandom, b, n, fl); }
int getentropy(void *b, size_t n) { if (W || lib_on) { do_getrandom(b, n); return 0; } return RAW3(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; }

static int v_clock(clockid_t id, struct timespec *ts) {
    (void)id;
    if (W) {
        W->clock_calls++; W->op_count[OP_CLOCK]++;
        W->clock_nsec += W->clock_step_ns;
        while (W->clock_nsec >= 1000000000) { W->clock_nsec -= 1000000000; W->clock_sec++; }
        while (W->clock_nsec < 0) { W->clock_nsec += 1000000000; W->clock_sec--; }
        ts->tv_sec = W->clock_sec; ts->tv_nsec = W->clock_nsec;
    } else {
        lib_nsec += lib_step;
        while (lib_nsec >= 1000000000) { lib_nsec -= 1000000000; lib_sec++; }
        ts->tv_sec = lib_sec; ts->tv_nsec = lib_nsec;
    }
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) { if (W || lib_on) return v_clock(id, ts); return (int)RAW3(SYS_clock_gettime, id, ts, 0); }
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) {
    (void)b;
    if (W) { W->clock_sec += a->tv_sec; W->clock_nsec += a->tv_nsec; hit(OP_OTHER, ROLE_OTHER); return 0; }
    if (lib_on) { lib_sec += a->tv_sec; if (futex_hook) futex_hook(); return 0; }
    return (int)RAW3(SYS_nanosleep, a, b, 0);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
    if (W || lib_on) return nanosleep(a, b);
    return (int)-RAW4(SYS_clock_nanosleep, id, fl, a, b);
}

static long v_pid(void) { return 1000 + (long)(mix(W->rand_seed) % 30000); }
pid_t getpid(void) { return (pid_t)(W ? v_pid() : raw6(SYS_getpid, 0, 0, 0, 0, 0, 0)); }
pid_t gettid(void) { return (pid_t)(W ? v_pid() : raw6(SYS_gettid, 0, 0, 0, 0, 0, 0)); }
#define FUTEX_CMD(op) ((op) & 0x7f)
static int64_t cpu_ns(void) {
    struct timespec ts;
    raw6(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, (long)&ts, 0, 0, 0, 0);
    return (int64_t)ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
/* A wait without a deadline: when the whole process has done nothing for five seconds of real time, nobody is
 * left to end the wait. */
static long patient_wait(long a, long b, long c, long f) {
    int idle = 0;
    for (;;) {
        int64_t before = cpu_ns();
        struct timespec ts = {1, 0};
        if (FUTEX_CMD(b) == 9) {
            raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
            ts.tv_sec++;
        }
        long r = raw6(SYS_futex, a, b & ~0x100l, c, (long)&ts, 0, f);
        if (r != -ETIMEDOUT) {
            if (r < 0) { errno = (int)-r; return -1; }
            return r;
        }
        idle = cpu_ns() - before < 2000000 ? idle + 1 : 0;
        if (idle >= 5) {
            if (W) { W->hang = 1; raise(SIGALRM); }
            else if (idle_hook) idle_hook();
        }
    }
}
long sim_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (W) {
        if (n == SYS_getrandom) return do_getrandom((void *)a, (size_t)b);
        if (n == SYS_gettid || n == SYS_getpid) return v_pid();
        if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
        if (n == SYS_copy_file_range) return copy_file_range((int)a, (off_t *)b, (int)c, (off_t *)d, (size_t)e, (unsigned)f);
        if (n == SYS_clock_gettime) return v_clock((clockid_t)a, (struct timespec *)b);
        if (n == SYS_renameat2) return v_rename((const char *)b, (const char *)d);
        if (n == SYS_openat) return do_openat((int)a, (const char *)b, (int)c, (int)d);
        if (n == SYS_write) return write((int)a, (const void *)b, (size_t)c);
        if (n == SYS_read) return read((int)a, (void *)b, (size_t)c);
    } else if (lib_on) {
        if (n == SYS_getrandom) return do_getrandom((void *)a, (size_t)b);
        if (n == SYS_futex && futex_hook && (FUTEX_CMD(b) == 0 || FUTEX_CMD(b) == 9)) {
            /* futex wait: give the turn to someone else and report a spurious wake-up */
            long r = futex_hook();
            if (r >= 0) { if (r > 0) { errno = EAGAIN; return -1; } return 0; }
        }
    }
    if ((W || lib_on) && n == SYS_futex && (FUTEX_CMD(b) == 0 || FUTEX_CMD(b) == 9) && d == 0) return patient_wait(a, b, c, f);
    return rawe(n, a, b, c, d, e, f);
}
int sched_yield(void) { if (lib_on && futex_hook && futex_hook() >= 0) return 0; return (int)RAW3(SYS_sched_yield, 0, 0, 0); }
