//! Interleaving of streams and the faulty link, in virtual time.

use crate::{ctx::Ctx, pack::{gen_junk, Packet, Pkt}};

pub const NONE: usize = usize::MAX;

/// A packet as it arrives
#[derive(Clone)]
pub struct Del {
    pub t: u64,
    pub b: Packet,
    /// index of the packet sent, NONE for garbage
    pub src: usize,
    /// the bytes differ from those sent
    pub damaged: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub drop: bool,
    pub burst: bool,
    pub drop16: bool,
    pub dup: bool,
    pub replay: bool,
    pub delay: bool,
    pub flip: bool,
    pub header: bool,
    pub garbage: bool,
    /// one fault in this many packets
    pub rate: u32,
    /// prefer packets where sections begin or end
    pub target: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Allow { All, NoDamage, Loss }

impl Faults {
    pub fn none() -> Faults { Faults { rate: 1, ..Faults::default() } }

    pub fn any(&self) -> bool {
        self.drop || self.burst || self.drop16 || self.dup || self.replay || self.delay || self.flip || self.header || self.garbage
    }

    /// Fault configuration of a run; about a third of the runs has none
    pub fn draw(ctx: &mut Ctx, allow: Allow) -> Faults {
        if ctx.draw(3) == 0 {
            return Faults::none();
        }
        Faults::some(ctx, allow)
    }

    pub fn some(ctx: &mut Ctx, allow: Allow) -> Faults {
        let mut f = Faults::none();
        let on = |c: &mut Ctx| c.draw(3) == 2;
        f.drop = ctx.draw(2) == 0;
        f.burst = on(ctx);
        f.drop16 = on(ctx);
        f.dup = on(ctx);
        f.replay = on(ctx);
        f.delay = on(ctx);
        f.flip = on(ctx);
        f.header = on(ctx);
        f.garbage = on(ctx);
        if allow != Allow::All {
            f.flip = false;
            f.header = false;
            f.garbage = false;
        }
        if allow == Allow::Loss {
            f.replay = false;
            f.delay = false;
        }
        if !f.any() {
            f.drop = true;
        }
        f.rate = ctx.pick(&[20, 8, 4, 60, 200, 3]);
        f.target = ctx.draw(2) == 1;
        ctx.faulty = true;
        f
    }
}

/// Merges streams into one in a drawn order; keeps the order inside a stream
pub fn interleave(ctx: &mut Ctx, mut streams: Vec<Vec<Pkt>>) -> Vec<Pkt> {
    let mut out = Vec::new();
    for s in &mut streams {
        s.reverse();
    }
    streams.retain(|s| !s.is_empty());
    if streams.len() == 1 {
        let mut s = streams.pop().unwrap();
        s.reverse();
        return s;
    }
    while !streams.is_empty() {
        let i = ctx.idx(streams.len());
        let run = if ctx.draw(4) == 3 { ctx.range(1, 6) } else { 1 };
        for _ in 0 .. run {
            if let Some(p) = streams[i].pop() {
                out.push(p);
            }
        }
        if streams[i].is_empty() {
            streams.remove(i);
        }
    }
    out
}

fn damage_header(ctx: &mut Ctx, b: &mut Packet) {
    match ctx.draw(8) {
        0 => b[3] = (b[3] & 0xF0) | ctx.draw(16) as u8,
        1 => b[1] ^= 0x40,
        2 => b[3] ^= 0x20,
        3 => b[3] ^= 0x10,
        4 => {
            b[3] |= 0x20;
            b[4] = ctx.pick(&[0, 1, 181, 182, 183, 184, 255, 120]);
        }
        5 => b[4] = ctx.edge(8) as u8,
        6 => b[3] ^= 0x40 << ctx.draw(2),
        _ => b[1] ^= 0x80,
    }
}

/// Sends packets over the link. Faults hit only packets with an index in `from .. until`.
/// Everything sent before `until` arrives before packet `until`.
pub fn transmit(ctx: &mut Ctx, pkts: &[Pkt], f: &Faults, from: usize, until: usize) -> Vec<Del> {
    let gap = ctx.pick(&[100u64, 400, 1504, 9]);
    let start = ctx.now;
    let mut early: Vec<Del> = Vec::new();
    let mut out: Vec<Del> = Vec::new();
    let mut skip = 0usize;
    for (i, p) in pkts.iter().enumerate() {
        let t = start + gap * (i as u64 + 1);
        ctx.now = t;
        if i >= until {
            if i == until {
                early.sort_by_key(|d| d.t);
                out.append(&mut early);
            }
            out.push(Del { t, b: p.b, src: i, damaged: false });
            continue;
        }
        if skip > 0 {
            skip -= 1;
            ctx.fault("drop", i as u64, u64::from(p.pid));
            continue;
        }
        let mut d = Del { t, b: p.b, src: i, damaged: false };
        let edge = p.ends.is_some() || !p.starts.is_empty();
        let rate = if f.target && edge { (f.rate / 4).max(2) } else { f.rate };
        if i < from || !f.any() || !ctx.chance(1, rate) {
            early.push(d);
            continue;
        }
        // only enabled kinds
        let mut kinds: [u8; 9] = [0; 9];
        let mut n = 0;
        for (k, on) in [f.drop, f.dup, f.burst, f.delay, f.replay, f.flip, f.header, f.garbage, f.drop16].iter().enumerate() {
            if *on {
                kinds[n] = k as u8;
                n += 1;
            }
        }
        match kinds[ctx.idx(n)] {
            0 => ctx.fault("drop", i as u64, u64::from(p.pid)),
            1 => {
                ctx.fault("duplicate", i as u64, u64::from(p.pid));
                early.push(d.clone());
                early.push(d);
            }
            2 => {
                skip = ctx.range(1, 8);
                ctx.fault("burst_loss", i as u64, skip as u64);
            }
            3 => {
                let by = gap * ctx.range(1, 20) as u64 + 1;
                ctx.fault("delay", i as u64, by);
                d.t += by;
                early.push(d);
            }
            4 => {
                // the packet arrives, and once more much later
                let by = gap * ctx.range(2, 64) as u64 + 1;
                ctx.fault("late_copy", i as u64, by);
                early.push(d.clone());
                d.t += by;
                early.push(d);
            }
            5 => {
                let n = ctx.range(1, 3);
                for _ in 0 .. n {
                    let bit = ctx.range(32, 188 * 8 - 1);
                    d.b[bit / 8] ^= 0x80 >> (bit % 8);
                }
                d.damaged = d.b != p.b;
                ctx.fault("bit_errors", i as u64, n as u64);
                early.push(d);
            }
            6 => {
                damage_header(ctx, &mut d.b);
                d.damaged = d.b != p.b;
                ctx.fault("header_damage", i as u64, u64::from(d.b[3]));
                early.push(d);
            }
            7 => {
                let mut r = ctx.sub();
                let n = ctx.range(1, 3);
                for _ in 0 .. n {
                    let mut g = gen_junk(&mut r);
                    g[1] = (g[1] & 0xE0) | (p.pid >> 8) as u8;
                    g[2] = p.pid as u8;
                    if ctx.draw(2) == 0 {
                        g[3] = (p.b[3] & 0x0F) | 0x10;
                        g[1] &= 0x7F;
                    }
                    early.push(Del { t, b: g, src: NONE, damaged: true });
                }
                ctx.fault("garbage_packets", i as u64, n as u64);
                early.push(d);
            }
            _ => {
                // the counter shows nothing
                skip = 16 * ctx.range(1, 2) - 1;
                ctx.fault("loss_of_16_packets", i as u64, skip as u64 + 1);
            }
        }
    }
    early.sort_by_key(|d| d.t);
    if until >= pkts.len() {
        out.append(&mut early);
    }
    if let Some(d) = out.last() {
        ctx.now = ctx.now.max(d.t);
    }
    out
}
