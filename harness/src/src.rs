//! Choice source: every decision of a simulated run is drawn here and recorded, so a run is exactly
//! the sequence of its choices. Zero is always the simplest alternative, which is what the
//! minimiser pushes towards.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub const MAX_CHOICES: usize = 60_000;

/// Where choices are recorded: shared memory, so they survive the death of the simulated run.
pub struct Recorder {
    len: *mut u64,
    buf: *mut u64,
    cap: usize,
}
unsafe impl Send for Recorder {}

impl Recorder {
    /// # Safety: `p` points at `1 + cap` u64 cells that outlive the recorder.
    pub unsafe fn new(p: *mut u64, cap: usize) -> Self {
        unsafe {
            *p = 0;
            Recorder { len: p, buf: p.add(1), cap }
        }
    }
    fn push(&mut self, v: u64) {
        unsafe {
            let n = *self.len as usize;
            if n < self.cap {
                *self.buf.add(n) = v;
                *self.len = n as u64 + 1;
            }
        }
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    rec: Recorder,
    pub drawn: usize,
}

impl Src {
    pub fn random(seed: u64, rec: Recorder) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec, drawn: 0 }
    }
    pub fn replay(choices: Vec<u64>, rec: Recorder) -> Self {
        Src { rng: None, replay: choices, pos: 0, rec, drawn: 0 }
    }
    /// Stand-in while the real source is lent out.
    pub fn empty() -> Self {
        static mut NOWHERE: [u64; 2] = [0; 2];
        Src { rng: None, replay: vec![], pos: 0, rec: unsafe { Recorder::new(&raw mut NOWHERE as *mut u64, 0) }, drawn: 0 }
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.drawn += 1;
        let v = if self.drawn > MAX_CHOICES {
            0
        } else {
            match &mut self.rng {
                Some(r) => r.next() % n,
                None => {
                    let v = self.replay.get(self.pos).copied().unwrap_or(0);
                    self.pos += 1;
                    v % n
                }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; the zero choice means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Index drawn by weights; the first alternative is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    /// A size, skewed towards small values, at most `max`.
    pub fn small(&mut self, max: usize) -> usize {
        let b = self.idx(max + 1);
        if b <= 1 { b } else { self.idx(b + 1) }
    }
    pub fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x9e3779b97f4a7c15));
    r.next();
    r.next()
}

/// FNV-1a, used for trace hashes (stable across processes).
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut f = Fnv::default();
    f.bytes(b);
    f.0
}
