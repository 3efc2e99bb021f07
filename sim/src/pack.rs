//! Reference packetiser with the legal layouts of ISO 13818-1 2.4.4, a reference section
//! receiver and a strict parser of emitted packets.

use crate::{
    ctx::{fail, Ctx, Rng, Violation},
    wire::*,
};

pub type Packet = [u8; 188];

#[derive(Clone, Debug)]
pub struct Pkt {
    pub b: Packet,
    pub pid: u16,
    /// section that has its last byte in the packet
    pub ends: Option<usize>,
    /// sections that have their first byte in the packet
    pub starts: Vec<usize>,
    pub payload: bool,
    /// first packet after a splice
    pub cut: bool,
}

/// Layout choices of one stream
#[derive(Clone, Debug)]
pub struct Layout {
    /// sections may begin in the packet where the previous one ends
    pub share: bool,
    /// probability in 1/16 of an adaptation field in a packet
    pub af: u32,
    /// probability in 1/16 of a packet without payload before a packet
    pub af_only: u32,
    /// probability in 1/16 of a packet with stuffing only between sections
    pub stuff: u32,
    /// the stream begins with the tail of a section nobody has seen
    pub tail: bool,
    pub priority: bool,
}

impl Layout {
    pub fn plain() -> Layout { Layout { share: false, af: 0, af_only: 0, stuff: 0, tail: false, priority: false } }

    pub fn draw(ctx: &mut Ctx) -> Layout {
        if ctx.draw(4) == 0 {
            return Layout::plain();
        }
        Layout {
            share: ctx.draw(3) != 0,
            af: ctx.pick(&[0, 0, 1, 6, 14]),
            af_only: ctx.pick(&[0, 0, 1, 4]),
            stuff: ctx.pick(&[0, 0, 0, 2]),
            tail: ctx.draw(4) == 3,
            priority: ctx.draw(2) == 1,
        }
    }
}

/// Adaptation field of `total` bytes (with its length byte) into the packet
pub fn put_af(b: &mut Packet, total: usize, ctx: &mut Ctx) {
    b[3] |= 0x20;
    let len = total - 1;
    b[4] = len as u8;
    if len == 0 {
        return;
    }
    for v in &mut b[5 .. 5 + len] {
        *v = 0xFF;
    }
    b[5] = 0x00;
    match ctx.draw(4) {
        1 if len >= 7 => {
            b[5] = 0x10;
            ctx.sub().fill(&mut b[6 .. 12]);
        }
        2 if len >= 2 => {
            b[5] = 0x02;
            b[6] = (len - 2) as u8;
            ctx.sub().fill(&mut b[7 .. 5 + len]);
        }
        3 => ctx.sub().fill(&mut b[5 .. 5 + len]),
        _ => {}
    }
}

pub fn header(pid: u16, cc: u8, pusi: bool) -> Packet {
    let mut b = [0xFF; 188];
    b[0] = 0x47;
    b[1] = (pid >> 8) as u8 | if pusi { 0x40 } else { 0 };
    b[2] = pid as u8;
    b[3] = 0x10 | cc;
    b
}

pub fn packetise(ctx: &mut Ctx, sections: &[Vec<u8>], pid: u16, cc: &mut u8, l: &Layout) -> Vec<Pkt> {
    let mut out: Vec<Pkt> = Vec::new();
    let mut open: Option<(usize, usize)> = None;
    let mut next = 0;
    let mut first = true;
    let prio = |b: &mut Packet, ctx: &mut Ctx| if l.priority && ctx.draw(2) == 1 { b[1] |= 0x20; };

    while open.is_some() || next < sections.len() {
        if l.af_only > 0 && ctx.chance(l.af_only, 16) {
            // the counter is not incremented
            let mut b = header(pid, cc.wrapping_sub(1) & 0x0F, false);
            put_af(&mut b, 184, ctx);
            b[3] = (b[3] & !0x10) | 0x20;
            prio(&mut b, ctx);
            out.push(Pkt { b, pid, ends: None, starts: vec![], payload: false, cut: false });
            ctx.probe("packet_without_payload");
        }
        if open.is_none() && l.stuff > 0 && ctx.chance(l.stuff, 16) {
            let b = header(pid, *cc, false);
            *cc = (*cc + 1) & 0x0F;
            out.push(Pkt { b, pid, ends: None, starts: vec![], payload: true, cut: false });
        }

        let mut b = header(pid, *cc, false);
        *cc = (*cc + 1) & 0x0F;
        prio(&mut b, ctx);
        let mut off = 4;
        if l.af > 0 && ctx.chance(l.af, 16) {
            let total = match ctx.draw(6) {
                0 => 1,
                1 => 2,
                2 => ctx.range(1, 182),
                3 => 8,
                // room for one byte, or for the pointer field and one byte
                4 => if open.is_some() { 183 } else { 182 },
                _ => ctx.range(1, 60),
            };
            put_af(&mut b, total, ctx);
            off += total;
            ctx.probe("packet_with_adaptation_field");
        }
        let cap = 188 - off;
        let mut p = Pkt { b, pid, ends: None, starts: vec![], payload: true, cut: false };

        match open {
            Some((s, done)) => {
                let left = sections[s].len() - done;
                if left >= cap {
                    p.b[off ..].copy_from_slice(&sections[s][done .. done + cap]);
                    if left == cap {
                        p.ends = Some(s);
                        open = None;
                    } else {
                        open = Some((s, done + cap));
                    }
                } else {
                    p.ends = Some(s);
                    let room = cap - 1 - left;
                    let share = l.share && next < sections.len() && room >= 1 && sections[next].len() > room && ctx.draw(4) != 0;
                    if share {
                        p.b[1] |= 0x40;
                        p.b[off] = left as u8;
                        p.b[off + 1 .. off + 1 + left].copy_from_slice(&sections[s][done ..]);
                        p.b[off + 1 + left ..].copy_from_slice(&sections[next][.. room]);
                        p.starts.push(next);
                        open = Some((next, room));
                        next += 1;
                        ctx.probe("section_begins_behind_the_tail_of_another");
                        if room < 3 {
                            ctx.probe("section_header_split_over_packets");
                        }
                    } else {
                        p.b[off .. off + left].copy_from_slice(&sections[s][done ..]);
                        open = None;
                    }
                }
            }
            None => {
                if cap < 2 {
                    // no room for a section: adaptation field took it; give it stuffing
                    out.push(p);
                    continue;
                }
                p.b[1] |= 0x40;
                let mut ptr = 0;
                if first && l.tail && cap > 3 {
                    ptr = ctx.range(1, cap - 2);
                    let o = off + 1;
                    ctx.sub().fill(&mut p.b[o .. o + ptr]);
                    ctx.probe("stream_begins_with_a_tail");
                }
                p.b[off] = ptr as u8;
                let o = off + 1 + ptr;
                let room = 188 - o;
                let s = next;
                next += 1;
                p.starts.push(s);
                let n = sections[s].len();
                if n >= room {
                    p.b[o ..].copy_from_slice(&sections[s][.. room]);
                    if n == room {
                        p.ends = Some(s);
                    } else {
                        open = Some((s, room));
                        if room < 3 {
                            ctx.probe("section_header_split_over_packets");
                        }
                    }
                } else {
                    p.b[o .. o + n].copy_from_slice(&sections[s]);
                    p.ends = Some(s);
                    let left = room - n;
                    if l.share && next < sections.len() && sections[next].len() > left && ctx.draw(4) != 0 {
                        p.b[o + n ..].copy_from_slice(&sections[next][.. left]);
                        p.starts.push(next);
                        open = Some((next, left));
                        next += 1;
                        ctx.probe("section_begins_behind_a_whole_one");
                    }
                }
                first = false;
            }
        }
        out.push(p);
    }
    out
}

/// Payload position by the reference rules, None - no (valid) payload
pub fn payload_of(b: &[u8]) -> Option<usize> {
    if b[3] & 0x10 == 0 {
        return None;
    }
    if b[3] & 0x20 == 0 {
        return Some(4);
    }
    let o = 5 + usize::from(b[4]);
    if o < 188 { Some(o) } else { None }
}

/// Reference section receiver: strict counters, nothing assumed about content
#[derive(Default, Clone)]
pub struct RefRx {
    buf: Vec<u8>,
    open: bool,
    cc: Option<u8>,
}

impl RefRx {
    fn take(&mut self) -> Option<Vec<u8>> {
        if self.buf.len() < 3 {
            return None;
        }
        let n = 3 + (usize::from(be16(&self.buf[1 ..])) & 0x0FFF);
        if self.buf.len() < n {
            return None;
        }
        let s = self.buf[.. n].to_vec();
        self.buf.drain(.. n);
        Some(s)
    }

    /// Sections complete with this packet
    pub fn feed(&mut self, b: &[u8]) -> Vec<Vec<u8>> {
        let mut out = Vec::new();
        if b[3] & 0x10 == 0 {
            return out;
        }
        let off = match payload_of(b) {
            Some(o) => o,
            None => {
                self.open = false;
                self.cc = None;
                return out;
            }
        };
        let cc = b[3] & 0x0F;
        let cont = self.cc.map_or(false, |c| (c + 1) & 0x0F == cc);
        self.cc = Some(cc);
        if !cont {
            self.open = false;
        }
        if b[1] & 0x40 != 0 {
            let p = off + 1 + usize::from(b[off]);
            if p >= 188 {
                self.open = false;
                return out;
            }
            if self.open {
                self.buf.extend_from_slice(&b[off + 1 .. p]);
                if let Some(s) = self.take() {
                    out.push(s);
                }
            }
            self.buf = b[p ..].to_vec();
            self.open = true;
        } else if self.open {
            self.buf.extend_from_slice(&b[off ..]);
        }
        // stuffing only behind a section: where the pointer points to one begins, whatever its table id
        let mut taken = false;
        while self.open {
            if self.buf.first() == Some(&0xFF) && taken {
                self.open = false;
                break;
            }
            match self.take() {
                Some(s) => {
                    out.push(s);
                    taken = true;
                    if self.buf.is_empty() || b[1] & 0x40 == 0 {
                        self.open = false;
                    }
                }
                None => break,
            }
        }
        out
    }
}

pub type V<T> = Result<T, Violation>;

/// Strict parser of packets emitted for one PID. Returns the sections.
pub fn parse_emitted(out: &[u8], pid: u16, cc: &mut u8) -> V<Vec<Vec<u8>>> {
    if out.len() % 188 != 0 {
        return fail("emitted-size", format!("{} bytes emitted, not whole packets", out.len()));
    }
    let mut sections = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    let mut need = 0;
    for (n, b) in out.chunks(188).enumerate() {
        if b[0] != 0x47 {
            return fail("emitted-sync", format!("packet {}: sync byte {:02x}", n, b[0]));
        }
        if b[1] & 0x80 != 0 || b[3] & 0xC0 != 0 {
            return fail("emitted-flags", format!("packet {}: header {:02x?}", n, &b[.. 4]));
        }
        let p = be16(&b[1 ..]) & 0x1FFF;
        if p != pid {
            return fail("emitted-pid", format!("packet {}: pid {} instead of {}", n, p, pid));
        }
        if b[3] & 0x0F != *cc {
            return fail("emitted-counter", format!("packet {}: counter {} instead of {}", n, b[3] & 0x0F, *cc));
        }
        *cc = (*cc + 1) & 0x0F;
        let mut off = match payload_of(b) {
            Some(o) => o,
            None => return fail("emitted-payload", format!("packet {} has no payload: {:02x?}", n, &b[.. 6])),
        };
        let begins = cur.is_empty();
        if (b[1] & 0x40 != 0) != begins {
            return fail("emitted-pusi", format!("packet {}: payload start flag {} but section begins: {}", n, b[1] & 0x40 != 0, begins));
        }
        if begins {
            if b[off] != 0 {
                return fail("emitted-pointer", format!("packet {}: pointer field {}", n, b[off]));
            }
            off += 1;
            if 188 - off < 3 {
                return fail("emitted-payload", "no room for a section header".into());
            }
            need = 3 + (usize::from(be16(&b[off + 1 ..])) & 0x0FFF);
        }
        let take = (need - cur.len()).min(188 - off);
        cur.extend_from_slice(&b[off .. off + take]);
        if cur.len() == need {
            if let Some(i) = b[off + take ..].iter().position(|&x| x != 0xFF) {
                return fail("emitted-stuffing", format!("packet {}: byte {} after the section is {:02x}", n, off + take + i, b[off + take + i]));
            }
            sections.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        return fail("emitted-incomplete", format!("last section has {} of {} bytes", cur.len(), need));
    }
    Ok(sections)
}

/// Packets emitted by the library with the section ends marked
pub fn mark(out: &[u8], first: usize) -> Vec<Pkt> {
    let mut v: Vec<Pkt> = Vec::new();
    let mut s = first;
    for b in out.chunks(188) {
        let mut p = Pkt { b: b.try_into().unwrap(), pid: be16(&b[1 ..]) & 0x1FFF, ends: None, starts: vec![], payload: true, cut: false };
        if b[1] & 0x40 != 0 {
            if let Some(l) = v.last_mut() {
                l.ends = Some(s);
                s += 1;
            }
            p.starts.push(s);
        }
        v.push(p);
    }
    if let Some(l) = v.last_mut() {
        l.ends = Some(s);
    }
    v
}

// ---------------------------------------------------------------- sections

/// Size of a section with a bias to packet boundaries
pub fn gen_size(ctx: &mut Ctx) -> usize {
    let s = match ctx.draw(10) {
        0 => 8,
        1 => ctx.range(8, 24),
        2 | 3 => ctx.range(8, 180),
        4 | 5 => {
            let k = ctx.range(0, 4);
            (183 + 184 * k + 3).saturating_sub(ctx.range(0, 6))
        }
        6 => ctx.range(180, 1024),
        7 => ctx.pick(&[1024, 1023, 1022, 4096, 4097, 4098, 4095]),
        8 => 183 + 184 * ctx.range(0, 21),
        _ => ctx.range(8, 4098),
    };
    s.min(4098).max(8)
}

/// Section with arbitrary content and a valid CRC
pub fn gen_section(ctx: &mut Ctx, size: usize) -> Vec<u8> {
    let mut r = ctx.sub();
    let table = match ctx.draw(4) {
        0 => 0x80,
        1 => ctx.pick(&[0x00, 0x02, 0x40, 0x42, 0x4E, 0x50, 0x73]),
        _ => ctx.draw(255) as u8,
    };
    let mut body = vec![0; size - 7];
    match ctx.draw(5) {
        0 | 1 => r.fill(&mut body),
        2 => for v in &mut body { *v = 0xFF },
        3 => for v in &mut body { *v = 0x47 },
        _ => {}
    }
    let nibble = match ctx.draw(3) { 0 => 0x0B, 1 => 0x07, _ => ctx.draw(16) as u8 };
    section(table, nibble, &body, true)
}

/// Two different sections of `packets` packets (plain layout) whose CRC states agree behind the
/// first `k` packets: only the continuity counter tells a mixture of them from a sent section.
pub fn gen_twins(ctx: &mut Ctx) -> Vec<Vec<u8>> {
    let packets = ctx.range(2, 4);
    let k = ctx.range(1, packets - 1);
    let size = 183 + 184 * (packets - 1) - ctx.range(0, 100);
    let head = 183 + 184 * (k - 1);
    let count = ctx.range(2, 3);
    let a = gen_section(ctx, size);
    let mut out = vec![a.clone()];
    let last = be32(&a[head - 4 .. head]);
    let state = crc32_fast(&a[.. head - 4]) ^ last;
    for _ in 1 .. count {
        let mut b = a.clone();
        let mut r = ctx.sub();
        b[0] = ctx.draw(255) as u8;
        for v in &mut b[3 .. head - 4] {
            *v = r.byte();
        }
        let x = crc32_fast(&b[.. head - 4]) ^ state;
        b[head - 4 .. head].copy_from_slice(&x.to_be_bytes());
        assert!(valid(&b), "twin construction");
        out.push(b);
    }
    out
}

pub fn be32(b: &[u8]) -> u32 { u32::from_be_bytes(b[.. 4].try_into().unwrap()) }

pub fn gen_junk(r: &mut Rng) -> Packet {
    let mut b = [0; 188];
    r.fill(&mut b);
    b[0] = 0x47;
    b
}
