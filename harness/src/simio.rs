//! Simulated readers and writers handed to the library's I/O entry points.
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::rc::Rc;

use crate::src::Src;

pub const ERR_KINDS: [io::ErrorKind; 11] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::StorageFull,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidInput,
];

#[derive(Clone, Default, Debug)]
pub struct ReadPlan {
    pub chunks: Vec<usize>,
    pub intr: Vec<bool>,
    /// Fail when this many bytes were delivered.
    pub fail_at: Option<(usize, io::ErrorKind)>,
    /// The failure happens once, later calls go on delivering.
    pub transient: bool,
}
impl ReadPlan {
    pub fn draw(s: &mut Src) -> Self {
        let mut p = ReadPlan::default();
        if s.chance(4, 5) {
            for _ in 0..1 + s.idx(5) {
                p.chunks.push(*s.pick(&[1, 2, 3, 4, 7, 13, 32, 33, 64, 100, 512, 1024, 4096, 8192, 65536]));
            }
        }
        if s.chance(1, 2) {
            let n = 2 + s.idx(5);
            for _ in 0..n {
                p.intr.push(s.below(2) == 1);
            }
            p.intr[n - 1] = false;
        }
        p
    }
}

#[derive(Default)]
pub struct ReadStats {
    pub calls: usize,
    pub after_eof: usize,
    pub intr: usize,
    pub short: usize,
    pub failed: usize,
    pub delivered: usize,
}
pub struct SimReader<'a> {
    data: &'a [u8],
    plan: ReadPlan,
    pos: usize,
    pub st: Rc<RefCell<ReadStats>>,
    ci: usize,
    ii: usize,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: ReadPlan) -> (Self, Rc<RefCell<ReadStats>>) {
        let st = Rc::new(RefCell::new(ReadStats::default()));
        (SimReader { data, plan, pos: 0, st: st.clone(), ci: 0, ii: 0 }, st)
    }
}
/// Calls after which a reader or writer gives up on its caller.
pub const CALL_BUDGET: usize = 3_000_000;

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::sched::yield_point("read");
        let mut st = self.st.borrow_mut();
        st.calls += 1;
        if st.calls > CALL_BUDGET || st.after_eof > 1000 {
            panic!("reader called without end: {} calls, {} after the end of input", st.calls, st.after_eof);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if !self.plan.intr.is_empty() {
            let v = self.plan.intr[self.ii % self.plan.intr.len()];
            self.ii += 1;
            if v {
                st.intr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut end = self.data.len();
        if let Some((at, kind)) = self.plan.fail_at {
            if self.pos >= at {
                if self.plan.transient {
                    self.plan.fail_at = None;
                }
                st.failed += 1;
                return Err(io::Error::new(kind, "simulated read failure"));
            }
            end = end.min(at);
        }
        let want = buf.len().min(end - self.pos);
        let mut k = want;
        if !self.plan.chunks.is_empty() {
            k = k.min(self.plan.chunks[self.ci % self.plan.chunks.len()]);
            self.ci += 1;
        }
        if k < want {
            st.short += 1;
        }
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        st.delivered = self.pos;
        if k == 0 {
            st.after_eof += 1;
        }
        Ok(k)
    }
}

#[derive(Clone, Default, Debug)]
pub struct WritePlan {
    pub chunks: Vec<usize>,
    pub intr: Vec<bool>,
    /// Reject everything once this many bytes reached the destination; none as kind means write returns 0.
    pub fail_at: Option<(usize, Option<io::ErrorKind>)>,
    /// The rejection happens once only.
    pub transient: bool,
    /// The writer buffers this many bytes before passing them on (0: none); what is left goes on flush or drop.
    pub buffer: usize,
    /// Flush itself fails (after passing on the buffered bytes).
    pub flush_fails: Option<io::ErrorKind>,
    /// So many calls of flush are interrupted first, and pass nothing on.
    pub flush_intr: usize,
}
impl WritePlan {
    pub fn draw(s: &mut Src) -> Self {
        let mut p = WritePlan::default();
        if s.chance(2, 3) {
            for _ in 0..1 + s.idx(5) {
                p.chunks.push(*s.pick(&[1, 2, 3, 7, 13, 32, 64, 100, 512, 1024, 4096, 8192]));
            }
        }
        if s.chance(1, 2) {
            let n = 2 + s.idx(5);
            for _ in 0..n {
                p.intr.push(s.below(2) == 1);
            }
            p.intr[n - 1] = false;
        }
        if s.chance(1, 2) {
            p.buffer = *s.pick(&[1, 16, 64, 1024, 8192, 1 << 20]);
        }
        p
    }
}
#[derive(Default)]
pub struct Sink {
    pub bytes: Vec<u8>,
    pub calls: usize,
    pub intr: usize,
    pub short: usize,
    pub rejected: usize,
    pub flush_failed: usize,
    pub flush_intr: usize,
}
pub struct SimWriter {
    plan: WritePlan,
    pub sink: Rc<RefCell<Sink>>,
    buf: Vec<u8>,
    ci: usize,
    ii: usize,
}
impl SimWriter {
    pub fn new(plan: WritePlan) -> (Self, Rc<RefCell<Sink>>) {
        let sink = Rc::new(RefCell::new(Sink::default()));
        (SimWriter { plan, sink: sink.clone(), buf: vec![], ci: 0, ii: 0 }, sink)
    }
    fn raw_write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut st = self.sink.borrow_mut();
        st.calls += 1;
        if st.calls > CALL_BUDGET {
            panic!("writer called without end");
        }
        if !self.plan.intr.is_empty() {
            let v = self.plan.intr[self.ii % self.plan.intr.len()];
            self.ii += 1;
            if v {
                st.intr += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
        }
        let mut k = b.len();
        if !self.plan.chunks.is_empty() {
            k = k.min(self.plan.chunks[self.ci % self.plan.chunks.len()]);
            self.ci += 1;
        }
        if let Some((at, kind)) = self.plan.fail_at {
            if st.bytes.len() >= at && !b.is_empty() {
                if self.plan.transient {
                    self.plan.fail_at = None;
                }
                st.rejected += 1;
                return match kind {
                    Some(kind) => Err(io::Error::new(kind, "simulated write failure")),
                    None => Ok(0),
                };
            }
            k = k.min(at.saturating_sub(st.bytes.len()).max(if b.is_empty() { 0 } else { 1 }));
        }
        if k < b.len() {
            st.short += 1;
        }
        st.bytes.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn drain(&mut self) -> io::Result<()> {
        while !self.buf.is_empty() {
            let b = std::mem::take(&mut self.buf);
            let r = self.raw_write(&b);
            match r {
                Ok(0) => {
                    self.buf = b;
                    return Err(io::ErrorKind::WriteZero.into());
                }
                Ok(n) => self.buf = b[n..].to_vec(),
                Err(e) if e.kind() == io::ErrorKind::Interrupted => self.buf = b,
                Err(e) => {
                    self.buf = b;
                    return Err(e);
                }
            }
        }
        Ok(())
    }
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::sched::yield_point("write");
        if self.plan.buffer == 0 {
            return self.raw_write(b);
        }
        if self.buf.len() >= self.plan.buffer {
            self.drain()?;
        }
        let k = b.len().min(self.plan.buffer - self.buf.len());
        self.buf.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        crate::sched::yield_point("flush");
        if self.plan.flush_intr > 0 {
            self.plan.flush_intr -= 1;
            self.sink.borrow_mut().flush_intr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.drain()?;
        if let Some(kind) = self.plan.flush_fails {
            self.sink.borrow_mut().flush_failed += 1;
            return Err(io::Error::new(kind, "simulated flush failure"));
        }
        Ok(())
    }
}
impl Drop for SimWriter {
    /// Like std's BufWriter: errors at this point reach nobody.
    fn drop(&mut self) {
        let _ = self.drain();
    }
}
