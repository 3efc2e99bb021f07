//! Simulated byte source and packet source.

use std::{cell::RefCell, fmt, io::{self, Read}, rc::Rc};

use mpegts::reader::TsRead;

use crate::ctx::Ctx;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// at most n bytes
    Give(usize),
    /// error by kind index
    Err(u8),
    /// 0 bytes although there is more
    End,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Bytes(usize, usize),
    Err(u8, u64),
    End,
    /// the real end
    Eof,
}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
];

/// Errors of the system: EINTR, EIO, EAGAIN, EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, EOVERFLOW
pub const SYSTEM: &[i32] = &[4, 5, 11, 32, 104, 110, 113, 75];

pub fn draw_err(ctx: &mut Ctx) -> Step { Step::Err(ctx.draw((KINDS.len() + SYSTEM.len()) as u32) as u8) }

pub fn make_err(kind: u8, id: u64) -> io::Error {
    match KINDS.get(usize::from(kind)) {
        Some(k) => io::Error::new(*k, format!("sim-{}", id)),
        None => io::Error::from_raw_os_error(SYSTEM[usize::from(kind) - KINDS.len()]),
    }
}

pub fn same_err(e: &io::Error, kind: u8, id: u64) -> bool {
    match KINDS.get(usize::from(kind)) {
        Some(k) => e.kind() == *k && e.to_string() == format!("sim-{}", id),
        None => e.raw_os_error() == Some(SYSTEM[usize::from(kind) - KINDS.len()]),
    }
}

#[derive(Default)]
pub struct Log {
    pub seen: Vec<Seen>,
    pub calls: u64,
    pub pos: usize,
    pub errors: u64,
}

/// Byte source following a plan of steps, repeated cyclically
pub struct SimSource {
    pub data: Vec<u8>,
    plan: Vec<Step>,
    step: usize,
    budget: u64,
    pub log: Rc<RefCell<Log>>,
}

impl fmt::Debug for SimSource {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("SimSource") }
}

impl SimSource {
    pub fn new(data: Vec<u8>, plan: Vec<Step>) -> SimSource {
        // far above what any correct reader needs
        let budget = (data.len() as u64 + 1000) * (plan.len() as u64 + 4) * 2 + 100_000;
        SimSource { data, plan, step: 0, budget, log: Rc::new(RefCell::new(Log::default())) }
    }
}

impl Read for SimSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        assert!(l.calls <= self.budget, "source read without end");
        let step = if self.plan.is_empty() { Step::Give(usize::MAX) } else { self.plan[self.step % self.plan.len()] };
        self.step += 1;
        match step {
            Step::Give(n) => {
                let n = n.max(1).min(buf.len()).min(self.data.len() - l.pos);
                buf[.. n].copy_from_slice(&self.data[l.pos .. l.pos + n]);
                l.pos += n;
                let asked = buf.len();
                l.seen.push(if n == 0 { Seen::Eof } else { Seen::Bytes(asked, n) });
                Ok(n)
            }
            Step::Err(k) => {
                l.errors += 1;
                let id = l.errors;
                l.seen.push(Seen::Err(k, id));
                Err(make_err(k, id))
            }
            Step::End => {
                l.seen.push(Seen::End);
                Ok(0)
            }
        }
    }
}

/// Read sizes; with `faults` also errors and temporary ends
pub fn draw_plan(ctx: &mut Ctx, faults: bool) -> Vec<Step> {
    let mut v = Vec::new();
    let n = match ctx.draw(4) {
        0 => return if faults { vec![Step::Give(188), draw_err(ctx), Step::Give(ctx.range(1, 188))] } else { v },
        1 => 1,
        2 => ctx.range(2, 8),
        _ => ctx.range(8, 80),
    };
    let style = ctx.draw(4);
    let rate = ctx.pick(&[6, 3, 20, 2]);
    for _ in 0 .. n {
        if faults && ctx.chance(1, rate) {
            let burst = if ctx.draw(4) == 3 { ctx.range(2, 5) } else { 1 };
            for _ in 0 .. burst {
                if ctx.draw(3) == 2 {
                    v.push(Step::End);
                } else {
                    v.push(draw_err(ctx));
                }
            }
        }
        v.push(Step::Give(match style {
            0 => 1,
            1 => ctx.range(1, 188),
            2 => ctx.pick(&[1, 2, 93, 94, 186, 187, 188]),
            _ => ctx.range(1, 400),
        }));
    }
    if faults && !v.iter().any(|s| !matches!(s, Step::Give(_))) {
        let at = ctx.idx(v.len());
        v.insert(at, draw_err(ctx));
    }
    v
}

/// Packet source with a script: packets, errors, ends
pub struct SimPackets {
    pub packets: Vec<[u8; 188]>,
    plan: Vec<Step>,
    step: usize,
    next: usize,
    pub log: Rc<RefCell<Log>>,
    budget: u64,
}

impl fmt::Debug for SimPackets {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("SimPackets") }
}

impl SimPackets {
    pub fn new(packets: Vec<[u8; 188]>, plan: Vec<Step>) -> SimPackets {
        let budget = (packets.len() as u64 + 10) * (plan.len() as u64 + 4) * 400 + 100_000;
        SimPackets { packets, plan, step: 0, next: 0, log: Rc::new(RefCell::new(Log::default())), budget }
    }
}

impl TsRead for SimPackets {
    fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        assert!(l.calls <= self.budget, "packet source read without end");
        assert!(packet.len() >= 188, "buffer shorter than a packet given to a packet source");
        let step = if self.plan.is_empty() { Step::Give(1) } else { self.plan[self.step % self.plan.len()] };
        self.step += 1;
        match step {
            Step::Give(_) => {
                if self.next == self.packets.len() {
                    l.seen.push(Seen::Eof);
                    return Ok(0);
                }
                packet[.. 188].copy_from_slice(&self.packets[self.next]);
                self.next += 1;
                l.seen.push(Seen::Bytes(packet.len(), 188));
                Ok(188)
            }
            Step::Err(k) => {
                l.errors += 1;
                let id = l.errors;
                l.seen.push(Seen::Err(k, id));
                Err(make_err(k, id))
            }
            Step::End => {
                l.seen.push(Seen::End);
                Ok(0)
            }
        }
    }
}
