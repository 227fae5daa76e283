/* Shared-memory world of the process simulator. Mirrored in harness/src/world.rs. */
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include <stdint.h>

#define SIM_MAGIC 0x53494d31u
#define MAXINO 24
#define INOCAP (1u << 20)
#define MAXENT 24
#define MAXFD 48
#define MAXFAULT 16
#define MAXEV 2048
#define PATHLEN 96
#define NCHUNK 16

enum { OP_ANY, OP_READ, OP_WRITE, OP_OPEN, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_STAT,
       OP_SEEK, OP_TRUNC, OP_OTHER, OP_OUTSIDE, OP_RANDOM, OP_CLOCK, NOPS };
enum { ROLE_STDIN, ROLE_STDOUT, ROLE_STDERR, ROLE_IN, ROLE_OUT, ROLE_OTHER, ROLE_ANY = 255 };
enum { ACT_NONE, ACT_ERRNO, ACT_SHORT, ACT_CRASH_BEFORE, ACT_CRASH_AFTER, ACT_CRASH_PARTIAL, ACT_ZERO };

struct sim_fault {
    uint32_t op, role, nth, repeat; /* fires on matching calls nth .. nth+repeat-1 (1-based) */
    uint32_t action, arg;
    uint32_t seen, fired;
};
struct sim_inode {
    uint32_t used, role, kind /*0 regular,1 pipe*/, size;
    uint32_t writes, reads, truncs, wopens; /* how often touched */
};
struct sim_entry { uint32_t used, inode; char path[PATHLEN]; };
struct sim_fd { uint32_t used, inode, flags, pos; };
struct sim_event { uint16_t op, role; int32_t arg, ret, err; };

struct sim_world {
    uint32_t magic, crashed, hang, budget;
    uint32_t calls, nevents, outside, ninodes;
    uint32_t nfaults, nread_chunk, nwrite_chunk, nint;
    uint64_t rand_seed, rand_calls;
    int64_t clock_sec, clock_nsec;
    int64_t clock_step_ns; uint64_t clock_calls;
    uint32_t read_chunk[NCHUNK], write_chunk[NCHUNK], intr[NCHUNK]; /* intr: 1 = EINTR before that data call */
    uint32_t read_i, write_i, int_i, intr_fired;
    uint32_t short_reads, short_writes, real_sync_lost, pad0;
    uint32_t op_count[16];
    struct sim_fault fault[MAXFAULT];
    struct sim_inode inode[MAXINO];
    struct sim_entry entry[MAXENT];
    struct sim_fd fd[MAXFD];
    struct sim_event ev[MAXEV];
    char outside_path[PATHLEN];
    uint8_t data[MAXINO][INOCAP];
};
#endif
