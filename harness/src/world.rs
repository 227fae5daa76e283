//! The simulated operating system shared with the shim (mirror of shim/sim_world.h).
#![allow(clippy::all)]
use crate::src::{Fnv, Src};
use std::ffi::CStr;

pub const MAGIC: u32 = 0x53494d31;
pub const MAXINO: usize = 24;
pub const INOCAP: usize = 1 << 20;
pub const MAXENT: usize = 24;
pub const MAXFD: usize = 48;
pub const MAXFAULT: usize = 16;
pub const MAXEV: usize = 2048;
pub const PATHLEN: usize = 96;
pub const NCHUNK: usize = 16;

pub const OP_ANY: u32 = 0;
pub const OP_READ: u32 = 1;
pub const OP_WRITE: u32 = 2;
pub const OP_OPEN: u32 = 3;
pub const OP_CLOSE: u32 = 4;
pub const OP_NAMES: [&str; 16] = [
    "any", "read", "write", "open", "close", "fsync", "rename", "unlink", "stat", "seek", "truncate", "other",
    "outside", "random", "clock", "?",
];
pub const ROLE_STDIN: u32 = 0;
pub const ROLE_STDOUT: u32 = 1;
pub const ROLE_STDERR: u32 = 2;
pub const ROLE_IN: u32 = 3;
pub const ROLE_OUT: u32 = 4;
pub const ROLE_OTHER: u32 = 5;
pub const ROLE_ANY: u32 = 255;
pub fn role_name(r: u32) -> &'static str {
    match r {
        0 => "stdin",
        1 => "stdout",
        2 => "stderr",
        3 => "input",
        4 => "output",
        5 => "other-file",
        _ => "any",
    }
}
pub const ACT_ERRNO: u32 = 1;
pub const ACT_SHORT: u32 = 2;
pub const ACT_CRASH_BEFORE: u32 = 3;
pub const ACT_CRASH_AFTER: u32 = 4;
pub const ACT_CRASH_PARTIAL: u32 = 5;
pub const ACT_ZERO: u32 = 6;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Fault {
    pub op: u32,
    pub role: u32,
    pub nth: u32,
    pub repeat: u32,
    pub action: u32,
    pub arg: u32,
    pub seen: u32,
    pub fired: u32,
}
impl Fault {
    pub fn errno(op: u32, role: u32, nth: u32, e: i32) -> Self {
        Fault { op, role, nth, repeat: 1, action: ACT_ERRNO, arg: e as u32, ..Default::default() }
    }
    pub fn sticky(op: u32, role: u32, nth: u32, e: i32) -> Self {
        Fault { op, role, nth, repeat: 1 << 30, action: ACT_ERRNO, arg: e as u32, ..Default::default() }
    }
    pub fn is_crash(&self) -> bool {
        matches!(self.action, ACT_CRASH_BEFORE | ACT_CRASH_AFTER | ACT_CRASH_PARTIAL)
    }
    pub fn describe(&self) -> String {
        let what = match self.action {
            ACT_ERRNO => format!("errno {}", errno_name(self.arg as i32)),
            ACT_SHORT => format!("short({})", self.arg),
            ACT_CRASH_BEFORE => "killed-before".into(),
            ACT_CRASH_AFTER => "killed-after".into(),
            ACT_CRASH_PARTIAL => format!("killed-after-{}-bytes", self.arg),
            ACT_ZERO => "zero-write".into(),
            _ => "none".into(),
        };
        format!(
            "{} on {} of {} call #{}{}",
            what,
            OP_NAMES[self.op as usize & 15],
            role_name(self.role),
            self.nth,
            if self.repeat > 1 { " and after" } else { "" }
        )
    }
    pub fn kind(&self) -> String {
        match self.action {
            ACT_ERRNO => format!("{}-{}-{}", role_name(self.role), OP_NAMES[self.op as usize & 15], errno_name(self.arg as i32)),
            ACT_SHORT => format!("{}-short", OP_NAMES[self.op as usize & 15]),
            ACT_ZERO => "zero-write".into(),
            _ => "process-kill".into(),
        }
    }
}
pub fn errno_name(e: i32) -> String {
    match e {
        libc::EINTR => "EINTR".into(),
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EPIPE => "EPIPE".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::EACCES => "EACCES".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EISDIR => "EISDIR".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::EROFS => "EROFS".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::ESTALE => "ESTALE".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EBADF => "EBADF".into(),
        _ => format!("errno{e}"),
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Inode {
    pub used: u32,
    pub role: u32,
    pub kind: u32,
    pub size: u32,
    pub writes: u32,
    pub reads: u32,
    pub truncs: u32,
    pub wopens: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Entry {
    pub used: u32,
    pub inode: u32,
    pub path: [u8; PATHLEN],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fd {
    pub used: u32,
    pub inode: u32,
    pub flags: u32,
    pub pos: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event {
    pub op: u16,
    pub role: u16,
    pub arg: i32,
    pub ret: i32,
    pub err: i32,
}
#[repr(C)]
pub struct Raw {
    pub magic: u32,
    pub crashed: u32,
    pub hang: u32,
    pub budget: u32,
    pub calls: u32,
    pub nevents: u32,
    pub outside: u32,
    pub ninodes: u32,
    pub nfaults: u32,
    pub nread_chunk: u32,
    pub nwrite_chunk: u32,
    pub nint: u32,
    pub rand_seed: u64,
    pub rand_calls: u64,
    pub clock_sec: i64,
    pub clock_nsec: i64,
    pub clock_step_ns: i64,
    pub clock_calls: u64,
    pub read_chunk: [u32; NCHUNK],
    pub write_chunk: [u32; NCHUNK],
    pub intr: [u32; NCHUNK],
    pub read_i: u32,
    pub write_i: u32,
    pub int_i: u32,
    pub intr_fired: u32,
    pub short_reads: u32,
    pub short_writes: u32,
    pub real_sync_lost: u32,
    pub pad0: u32,
    pub op_count: [u32; 16],
    pub fault: [Fault; MAXFAULT],
    pub inode: [Inode; MAXINO],
    pub entry: [Entry; MAXENT],
    pub fd: [Fd; MAXFD],
    pub ev: [Event; MAXEV],
    pub outside_path: [u8; PATHLEN],
    pub data: [[u8; INOCAP]; MAXINO],
}

pub struct World {
    pub fd: i32,
    raw: *mut Raw,
}

/// Delivery pattern of one process run: chunk sizes and interruptions, cyclic.
#[derive(Clone, Default, Debug)]
pub struct Delivery {
    pub read: Vec<u32>,
    pub write: Vec<u32>,
    pub intr: Vec<u32>,
}
impl Delivery {
    pub fn draw(s: &mut Src) -> Self {
        let mut d = Delivery::default();
        let sizes = [0u32, 1, 2, 3, 5, 7, 16, 31, 64, 255, 1023, 1024, 1025, 4096, 8191, 8192];
        if s.chance(2, 3) {
            for _ in 0..1 + s.idx(5) {
                d.read.push(*s.pick(&sizes));
            }
        }
        if s.chance(2, 3) {
            for _ in 0..1 + s.idx(5) {
                d.write.push(*s.pick(&sizes));
            }
        }
        if s.chance(1, 2) {
            let n = 2 + s.idx(6);
            for _ in 0..n {
                d.intr.push(s.below(2) as u32);
            }
            d.intr[n - 1] = 0;
        }
        d
    }
    pub fn reads_only(mut self) -> Self {
        self.write.clear();
        self
    }
    pub fn describe(&self) -> String {
        format!("read chunks {:?}, write chunks {:?}, EINTR pattern {:?}", self.read, self.write, self.intr)
    }
}

impl World {
    pub fn new() -> Self {
        unsafe {
            let fd = libc::memfd_create(c"simworld".as_ptr(), 0);
            assert!(fd >= 0);
            let len = std::mem::size_of::<Raw>();
            assert_eq!(libc::ftruncate(fd, len as i64), 0);
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            World { fd, raw: p as *mut Raw }
        }
    }
    pub fn raw(&self) -> &mut Raw {
        unsafe { &mut *self.raw }
    }
    /// A fresh, empty world.
    pub fn reset(&self) {
        unsafe {
            let head = std::mem::offset_of!(Raw, data);
            std::ptr::write_bytes(self.raw as *mut u8, 0, head);
        }
        let r = self.raw();
        r.magic = MAGIC;
        for i in 0..3 {
            r.inode[i].used = 1;
            r.inode[i].role = i as u32;
            r.inode[i].kind = 1;
        }
        self.prepare(&[], &Delivery::default());
    }
    /// Prepare the next process run: the files stay as they are, standard streams are fresh.
    pub fn prepare(&self, faults: &[Fault], d: &Delivery) {
        let r = self.raw();
        r.crashed = 0;
        r.hang = 0;
        r.budget = 6_000_000;
        r.calls = 0;
        r.nevents = 0;
        r.outside = 0;
        r.rand_calls = 0;
        r.clock_sec = 1_700_000_000;
        r.clock_nsec = 0;
        r.clock_step_ns = 1_000_000;
        r.clock_calls = 0;
        r.read_i = 0;
        r.write_i = 0;
        r.int_i = 0;
        r.intr_fired = 0;
        r.short_reads = 0;
        r.short_writes = 0;
        r.op_count = [0; 16];
        r.nfaults = faults.len().min(MAXFAULT) as u32;
        for (i, f) in faults.iter().take(MAXFAULT).enumerate() {
            r.fault[i] = Fault { seen: 0, fired: 0, ..*f };
        }
        let put = |dst: &mut [u32; NCHUNK], v: &Vec<u32>| {
            for (i, x) in v.iter().take(NCHUNK).enumerate() {
                dst[i] = *x;
            }
            v.len().min(NCHUNK) as u32
        };
        r.nread_chunk = put(&mut r.read_chunk, &d.read);
        r.nwrite_chunk = put(&mut r.write_chunk, &d.write);
        r.nint = put(&mut r.intr, &d.intr);
        for i in 0..MAXFD {
            r.fd[i] = Fd { used: 0, inode: 0, flags: 0, pos: 0 };
        }
        for i in 0..3 {
            r.inode[i].size = 0;
            r.inode[i].kind = 1;
            r.inode[i].writes = 0;
            r.inode[i].reads = 0;
            r.fd[i] = Fd { used: 1, inode: i as u32, flags: if i == 0 { libc::O_RDONLY } else { libc::O_WRONLY } as u32, pos: 0 };
        }
        for i in 3..MAXINO {
            let n = &mut r.inode[i];
            n.writes = 0;
            n.reads = 0;
            n.truncs = 0;
            n.wopens = 0;
        }
    }
    pub fn set_stdin(&self, data: &[u8], pipe: bool) {
        let r = self.raw();
        r.inode[0].kind = pipe as u32;
        self.fill(0, data);
    }
    fn fill(&self, i: usize, data: &[u8]) {
        assert!(data.len() <= INOCAP, "simulated file too large");
        let r = self.raw();
        r.data[i][..data.len()].copy_from_slice(data);
        r.inode[i].size = data.len() as u32;
    }
    fn entry(&self, path: &str) -> Option<usize> {
        let r = self.raw();
        (0..MAXENT).find(|i| r.entry[*i].used != 0 && cstr(&r.entry[*i].path) == path)
    }
    pub fn put_file(&self, path: &str, role: u32, data: &[u8]) {
        let r = self.raw();
        let ino = match self.entry(path) {
            Some(e) => r.entry[e].inode as usize,
            None => {
                let live: Vec<u32> = (0..MAXENT).filter(|i| r.entry[*i].used != 0).map(|i| r.entry[i].inode).collect();
                let n = (3..MAXINO).find(|i| r.inode[*i].used == 0 || !live.contains(&(*i as u32))).expect("inode");
                let k = (0..MAXENT).find(|i| r.entry[*i].used == 0).expect("entry");
                r.inode[n] = Inode { used: 1, role, kind: 0, size: 0, writes: 0, reads: 0, truncs: 0, wopens: 0 };
                r.entry[k].used = 1;
                r.entry[k].inode = n as u32;
                r.entry[k].path = [0; PATHLEN];
                r.entry[k].path[..path.len()].copy_from_slice(path.as_bytes());
                n
            }
        };
        r.inode[ino].role = role;
        self.fill(ino, data);
    }
    /// A second name for the same file.
    pub fn link(&self, path: &str, to: &str) {
        let r = self.raw();
        let ino = r.entry[self.entry(to).unwrap()].inode;
        let k = (0..MAXENT).find(|i| r.entry[*i].used == 0).expect("entry");
        r.entry[k].used = 1;
        r.entry[k].inode = ino;
        r.entry[k].path = [0; PATHLEN];
        r.entry[k].path[..path.len()].copy_from_slice(path.as_bytes());
    }
    pub fn read_file(&self, path: &str) -> Option<Vec<u8>> {
        let r = self.raw();
        self.entry(path).map(|e| {
            let i = r.entry[e].inode as usize;
            r.data[i][..r.inode[i].size as usize].to_vec()
        })
    }
    /// Size of the largest file.
    pub fn largest(&self) -> usize {
        let r = self.raw();
        (0..MAXENT).filter(|i| r.entry[*i].used != 0).map(|i| r.inode[r.entry[i].inode as usize].size as usize).max().unwrap_or(0)
    }
    pub fn inode_of(&self, path: &str) -> Option<&Inode> {
        let r = self.raw();
        self.entry(path).map(|e| &r.inode[r.entry[e].inode as usize])
    }
    pub fn remove(&self, path: &str) {
        if let Some(e) = self.entry(path) {
            self.raw().entry[e].used = 0;
        }
    }
    pub fn paths(&self) -> Vec<String> {
        let r = self.raw();
        let mut v: Vec<String> = (0..MAXENT).filter(|i| r.entry[*i].used != 0).map(|i| cstr(&r.entry[i].path).to_string()).collect();
        v.sort();
        v
    }
    pub fn stream(&self, i: usize) -> Vec<u8> {
        let r = self.raw();
        r.data[i][..r.inode[i].size as usize].to_vec()
    }
    pub fn events(&self) -> &[Event] {
        let r = self.raw();
        &r.ev[..(r.nevents as usize).min(MAXEV)]
    }
    pub fn trace_hash(&self, f: &mut Fnv) {
        for e in self.events() {
            f.u64(e.op as u64 | (e.role as u64) << 8 | (e.err as u64) << 16);
            f.u64(e.ret as u64);
        }
        f.u64(self.raw().nevents as u64);
    }
    pub fn event_lines(&self, max: usize) -> Vec<String> {
        self.events()
            .iter()
            .take(max)
            .map(|e| {
                format!(
                    "{} {} arg={} -> {}{}",
                    OP_NAMES[e.op as usize & 15],
                    role_name(e.role as u32),
                    e.arg,
                    e.ret,
                    if e.err != 0 { format!(" {}", errno_name(e.err)) } else { String::new() }
                )
            })
            .collect()
    }
    pub fn outside_path(&self) -> String {
        cstr(&self.raw().outside_path).to_string()
    }
}

fn cstr(b: &[u8]) -> &str {
    CStr::from_bytes_until_nul(b).ok().and_then(|c| c.to_str().ok()).unwrap_or("?")
}
