//! Simulated streams and sinks.

use std::io::{self, BufRead, BufReader, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

use crate::ctx::Ctx;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Whole,
    Byte,
    Fixed(usize),
    Random(usize),
    /// Never beyond the next line end.
    Line,
}

pub fn draw_chunk(ctx: &Ctx) -> Chunk {
    match ctx.weighted(&[4, 3, 3, 5, 3]) {
        0 => Chunk::Whole,
        1 => Chunk::Byte,
        2 => Chunk::Fixed(*ctx.pick(&[2, 3, 5, 16, 64, 1000])),
        3 => Chunk::Random(*ctx.pick(&[4, 9, 40, 300])),
        _ => Chunk::Line,
    }
}

pub const HARD: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
];

#[derive(Clone, Debug)]
pub struct ReadErr {
    pub at: usize,
    pub kind: ErrorKind,
    /// How often it is returned; `u32::MAX` for ever.
    pub times: u32,
}

#[derive(Clone, Debug)]
pub struct ReadPlan {
    pub chunk: Chunk,
    /// Interrupted reads: probability in 1/8.
    pub eintr: u64,
    pub errors: Vec<ReadErr>,
    /// Capacity of the `BufReader`; `None`: the stream itself is buffered.
    pub cap: Option<usize>,
}

impl ReadPlan {
    pub fn plain() -> ReadPlan {
        ReadPlan {
            chunk: Chunk::Whole,
            eintr: 0,
            errors: Vec::new(),
            cap: Some(8192),
        }
    }

    pub fn draw(ctx: &Ctx) -> ReadPlan {
        ReadPlan {
            chunk: draw_chunk(ctx),
            eintr: *ctx.pick(&[0, 0, 1, 3]),
            errors: Vec::new(),
            cap: *ctx.pick(&[Some(8192), None, Some(1), Some(2), Some(7), Some(64), Some(1000)]),
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct ReadStat {
    pub calls: u64,
    /// Largest number of bytes already delivered when a read was issued.
    pub max_start: usize,
    pub delivered: usize,
    /// Hard errors returned.
    pub fired: u64,
    pub eof_reads: u64,
}

pub type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;

pub struct SimReader {
    ctx: Ctx,
    data: Arc<Vec<u8>>,
    pos: usize,
    plan: ReadPlan,
    stat: Arc<Mutex<ReadStat>>,
    hook: Option<Hook>,
    row: u32,
    /// Bytes made available by `fill_buf` and not yet consumed.
    avail: usize,
}

impl SimReader {
    fn next_chunk(&mut self, room: usize) -> io::Result<usize> {
        if let Some(h) = &self.hook {
            h("read");
        }
        {
            let mut s = self.stat.lock().unwrap();
            s.calls += 1;
            s.max_start = s.max_start.max(self.pos);
        }
        let idle = {
            let s = self.stat.lock().unwrap();
            s.eof_reads + s.fired
        };
        if idle > crate::ctx::IDLE_CAP {
            panic!("the reader does not stop reading");
        }
        if self.plan.eintr > 0 && self.row < 4 && self.ctx.chance(self.plan.eintr, 8) {
            self.row += 1;
            self.ctx.fault("read_eintr");
            self.ctx.event("read-eintr", self.pos as u64, 0);
            return Err(ErrorKind::Interrupted.into());
        }
        self.row = 0;
        if let Some(e) = self.plan.errors.first_mut() {
            if e.at <= self.pos {
                let kind = e.kind;
                if e.times != u32::MAX {
                    e.times -= 1;
                    if e.times == 0 {
                        self.plan.errors.remove(0);
                    }
                }
                self.stat.lock().unwrap().fired += 1;
                self.ctx.fault("read_error");
                self.ctx.event("read-error", self.pos as u64, kind as u64);
                return Err(io::Error::new(kind, "simulated read error"));
            }
        }
        let left = self.data.len() - self.pos;
        let mut n = left.min(room);
        if let Some(e) = self.plan.errors.first() {
            n = n.min(e.at - self.pos);
        }
        if n > 0 {
            let k = match self.plan.chunk {
                Chunk::Whole => n,
                Chunk::Byte => 1,
                Chunk::Fixed(k) => k,
                Chunk::Random(k) => 1 + self.ctx.below(k),
                Chunk::Line => self.data[self.pos..self.pos + n]
                    .iter()
                    .position(|b| *b == b'\n')
                    .map(|i| i + 1)
                    .unwrap_or(n),
            };
            if k < n {
                self.ctx.fault("short_read");
                n = k;
            }
        } else {
            self.stat.lock().unwrap().eof_reads += 1;
        }
        self.ctx.event("read", self.pos as u64, n as u64);
        self.stat.lock().unwrap().delivered = self.pos + n;
        Ok(n)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.next_chunk(buf.len())?;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            self.avail = self.next_chunk(usize::MAX)?;
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, amt: usize) {
        assert!(amt <= self.avail, "consumed more than was available");
        self.avail -= amt;
        self.pos += amt;
    }
}

pub type Source = Box<dyn BufRead + Send>;

pub fn source(
    ctx: &Ctx,
    data: &Arc<Vec<u8>>,
    plan: &ReadPlan,
    hook: Option<Hook>,
) -> (Source, Arc<Mutex<ReadStat>>) {
    let stat = Arc::new(Mutex::new(ReadStat::default()));
    let mut plan = plan.clone();
    plan.errors.sort_by_key(|e| e.at);
    let cap = plan.cap;
    let r = SimReader {
        ctx: ctx.clone(),
        data: data.clone(),
        pos: 0,
        plan,
        stat: stat.clone(),
        hook,
        row: 0,
        avail: 0,
    };
    ctx.note(|| format!("source {:?} {:?}", r.plan.chunk, r.plan.cap));
    match cap {
        None => (Box::new(r), stat),
        Some(c) => (Box::new(BufReader::with_capacity(c, r)), stat),
    }
}

// ---- sinks -----------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SinkFault {
    Error(ErrorKind),
    /// The sink accepts no more bytes (`Ok(0)`).
    Zero,
}

#[derive(Clone, Debug)]
pub struct WritePlan {
    pub chunk: Chunk,
    pub eintr: u64,
    /// (byte offset, fault, number of times)
    pub faults: Vec<(usize, SinkFault, u32)>,
}

impl WritePlan {
    pub fn plain() -> WritePlan {
        WritePlan {
            chunk: Chunk::Whole,
            eintr: 0,
            faults: Vec::new(),
        }
    }
    pub fn draw(ctx: &Ctx) -> WritePlan {
        WritePlan {
            chunk: draw_chunk(ctx),
            eintr: *ctx.pick(&[0, 0, 1, 3]),
            faults: Vec::new(),
        }
    }
}

#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub fired: u64,
    pub calls: u64,
}

pub struct SimWriter {
    ctx: Ctx,
    state: Arc<Mutex<SinkState>>,
    plan: WritePlan,
    row: u32,
    hook: Option<Hook>,
}

pub fn sink(ctx: &Ctx, plan: &WritePlan, hook: Option<Hook>) -> (SimWriter, Arc<Mutex<SinkState>>) {
    let state = Arc::new(Mutex::new(SinkState::default()));
    let mut plan = plan.clone();
    plan.faults.sort_by_key(|e| e.0);
    (
        SimWriter {
            ctx: ctx.clone(),
            state: state.clone(),
            plan,
            row: 0,
            hook,
        },
        state,
    )
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(h) = &self.hook {
            h("write");
        }
        let mut s = self.state.lock().unwrap();
        s.calls += 1;
        if s.calls > 6 * s.bytes.len() as u64 + crate::ctx::IDLE_CAP {
            panic!("the writer does not stop writing");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.eintr > 0 && self.row < 4 && self.ctx.chance(self.plan.eintr, 8) {
            self.row += 1;
            self.ctx.fault("write_eintr");
            self.ctx.event("write-eintr", s.bytes.len() as u64, 0);
            return Err(ErrorKind::Interrupted.into());
        }
        self.row = 0;
        if let Some(f) = self.plan.faults.first_mut() {
            if f.0 <= s.bytes.len() {
                let what = f.1;
                if f.2 != u32::MAX {
                    f.2 -= 1;
                    if f.2 == 0 {
                        self.plan.faults.remove(0);
                    }
                }
                s.fired += 1;
                return match what {
                    SinkFault::Error(k) => {
                        self.ctx.fault("write_error");
                        self.ctx.event("write-error", s.bytes.len() as u64, k as u64);
                        Err(io::Error::new(k, "simulated write error"))
                    }
                    SinkFault::Zero => {
                        self.ctx.fault("write_zero");
                        self.ctx.event("write-zero", s.bytes.len() as u64, 0);
                        Ok(0)
                    }
                };
            }
        }
        let mut n = buf.len();
        if let Some(f) = self.plan.faults.first() {
            n = n.min(f.0 - s.bytes.len());
        }
        let k = match self.plan.chunk {
            Chunk::Whole => n,
            Chunk::Byte => 1,
            Chunk::Fixed(k) => k,
            Chunk::Random(k) => 1 + self.ctx.below(k),
            Chunk::Line => buf.iter().position(|b| *b == b'\n').map(|i| i + 1).unwrap_or(n),
        };
        if k < n {
            self.ctx.fault("short_write");
            n = k;
        }
        s.bytes.extend_from_slice(&buf[..n]);
        self.ctx.event("write", s.bytes.len() as u64, n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
