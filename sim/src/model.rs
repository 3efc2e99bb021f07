//! Model of tables and descriptors with a reference encoder and decoder.
//! Written from ISO 13818-1 and EN 300 468; shares nothing with the library.

use crate::{
    chars,
    ctx::{Ctx, Rng},
    wire::*,
};

// ---------------------------------------------------------------- text

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Text {
    /// 0 - default table, 1 ..= 15 - ISO 8859 part, 21 - UTF-8
    pub cp: u8,
    pub bytes: Vec<u8>,
}

pub const CODEPAGES: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

/// Added to the code page of an empty text whose selector is sent all the same
pub const BARE: u8 = 128;

impl Text {
    pub fn wire(&self) -> Vec<u8> {
        let mut v = Vec::new();
        if self.bytes.is_empty() && self.cp < BARE {
            return v;
        }
        match self.cp % BARE {
            0 => {}
            x @ 1 ..= 4 => v.extend_from_slice(&[0x10, 0x00, x]),
            x @ 5 ..= 15 => v.push(x - 4),
            _ => v.push(0x15),
        }
        v.extend_from_slice(&self.bytes);
        v
    }

    pub fn size(&self) -> usize { self.wire().len() }

    pub fn from_wire(b: &[u8]) -> Text {
        if b.is_empty() {
            return Text::default();
        }
        let (cp, skip) = match b[0] {
            0x20 ..= 0xFF => (0, 0),
            0x15 => (21, 1),
            // any other second byte is reserved
            0x10 if b.len() >= 3 => (if b[1] == 0 { b[2] } else { 99 }, 3),
            x if x < 0x10 => (x + 4, 1),
            _ => return Text { cp: 0, bytes: vec![b'?'] },
        };
        let bytes = b[skip ..].to_vec();
        if bytes.is_empty() { Text::default() } else { Text { cp, bytes } }
    }

    /// Text made of characters of the code page; UTF-8 if there is no such page
    pub fn of(s: &str, cp: u8) -> Text {
        match chars::page(cp) {
            None => Text { cp: 21, bytes: s.as_bytes().to_vec() },
            Some(p) => Text {
                cp,
                bytes: s.chars().map(|c| match c as u32 {
                    u @ 0 ..= 0x7F => u as u8,
                    u => 0xA0 + p.iter().position(|&x| x != 0 && u32::from(x) == u).expect("character of the page") as u8,
                }).collect(),
            },
        }
    }

    /// Characters. Control codes are not shown and codes without a character are `?` if `any`,
    /// otherwise None if there is one of them
    pub fn chars(&self, any: bool) -> Option<String> {
        if self.cp == 21 {
            return std::str::from_utf8(&self.bytes).ok().map(|s| s.to_string());
        }
        let p = chars::page(self.cp)?;
        let mut s = String::new();
        for &b in &self.bytes {
            match b {
                0 ..= 0x7F => s.push(b as char),
                0x80 ..= 0x9F if any => {}
                0x80 ..= 0x9F => return None,
                _ => match p[usize::from(b) - 0xA0] {
                    0 if any => s.push('?'),
                    0 => return None,
                    u => s.push(char::from_u32(u32::from(u))?),
                },
            }
        }
        Some(s)
    }
}

pub fn gen_text(ctx: &mut Ctx, max: usize) -> Text {
    let cp = ctx.pick(CODEPAGES);
    let prefix = match cp { 0 => 0, 1 ..= 4 => 3, _ => 1 };
    if max <= prefix {
        return Text::default();
    }
    let max = max - prefix;
    let len = match ctx.draw(6) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => ctx.range(1, max),
        _ => ctx.range(1, max.min(24)),
    };
    if len == 0 {
        return Text::default();
    }
    let any = ctx.draw(3) == 2;
    let mut r = ctx.sub();
    let mut bytes = vec![0; len];
    r.fill(&mut bytes);
    if !any {
        for b in &mut bytes {
            *b = 0x20 + *b % 95;
        }
    } else if cp == 0 && bytes[0] < 0x20 {
        bytes[0] |= 0x40;
    }
    Text { cp, bytes }
}

fn gen_lang(ctx: &mut Ctx) -> [u8; 3] {
    let mut r = ctx.sub();
    let any = ctx.draw(3) == 2;
    let mut l = [0; 3];
    for b in &mut l {
        *b = if any { 0x20 + (r.below(0xE0) as u8) } else { b'a' + r.below(26) as u8 };
    }
    l
}

// ---------------------------------------------------------------- descriptors

#[derive(Clone, PartialEq, Debug)]
pub struct Offset { pub country: [u8; 3], pub region: u8, pub polarity: u8, pub offset: u16, pub change: u64, pub next: u16 }

#[derive(Clone, PartialEq, Debug)]
pub enum MDesc {
    Ca { caid: u16, pid: u16, data: Vec<u8> },
    Lang(Vec<([u8; 3], u8)>),
    Bitrate(u32),
    NetName(Text),
    Services(Vec<(u16, u8)>),
    Sat { freq: u32, orbital: u16, we: u8, pol: u8, rof: u8, s2: u8, modulation: u8, rate: u32, fec: u8 },
    Cable { freq: u32, outer: u8, modulation: u8, rate: u32, fec: u8 },
    Service { stype: u8, provider: Text, name: Text },
    Short { lang: [u8; 3], name: Text, text: Text },
    Extended { number: u8, last: u8, lang: [u8; 3], items: Vec<(Text, Text)>, text: Text },
    StreamId(u8),
    TimeOffset(Vec<Offset>),
    Terrestrial { freq: u32, f: [u8; 11] },
    Lcn(Vec<(u16, u8, u16)>),
    Raw { tag: u8, data: Vec<u8> },
}

pub const KNOWN_TAGS: &[u8] = &[0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];

/// widths of the terrestrial fields after the frequency:
/// bandwidth, priority, time slicing, mpe fec, [2 reserved], constellation, hierarchy, hp, lp, guard, mode, other
const TER_BITS: [u32; 11] = [3, 1, 1, 1, 2, 3, 3, 3, 2, 2, 1];

/// The body has the format the tag requires
pub fn well_formed(tag: u8, b: &[u8]) -> bool {
    let n = b.len();
    match tag {
        0x09 => n >= 4,
        0x0A | 0x83 => n % 4 == 0,
        0x0E => n == 3,
        0x40 => true,
        0x41 => n % 3 == 0,
        0x43 | 0x44 | 0x5A => n == 11,
        0x48 => {
            if n < 3 { return false; }
            let p = b[1] as usize;
            n > 2 + p && n == 3 + p + b[2 + p] as usize
        }
        0x4D => {
            if n < 5 { return false; }
            let p = b[3] as usize;
            n > 4 + p && n == 5 + p + b[4 + p] as usize
        }
        0x4E => {
            if n < 6 { return false; }
            let l = b[4] as usize;
            if n <= 5 + l { return false; }
            let mut i = 5;
            let e = 5 + l;
            while i < e {
                i += 1 + b[i] as usize;
                if i >= e { return false; }
                i += 1 + b[i] as usize;
            }
            i == e && n == 6 + l + b[e] as usize
        }
        0x52 => n == 1,
        0x58 => n % 13 == 0,
        _ => false,
    }
}

fn sized(v: &mut Vec<u8>, t: &Text) {
    let w = t.wire();
    v.push(w.len() as u8);
    v.extend_from_slice(&w);
}

impl MDesc {
    pub fn tag(&self) -> u8 {
        match self {
            MDesc::Ca { .. } => 0x09,
            MDesc::Lang(_) => 0x0A,
            MDesc::Bitrate(_) => 0x0E,
            MDesc::NetName(_) => 0x40,
            MDesc::Services(_) => 0x41,
            MDesc::Sat { .. } => 0x43,
            MDesc::Cable { .. } => 0x44,
            MDesc::Service { .. } => 0x48,
            MDesc::Short { .. } => 0x4D,
            MDesc::Extended { .. } => 0x4E,
            MDesc::StreamId(_) => 0x52,
            MDesc::TimeOffset(_) => 0x58,
            MDesc::Terrestrial { .. } => 0x5A,
            MDesc::Lcn(_) => 0x83,
            MDesc::Raw { tag, .. } => *tag,
        }
    }

    pub fn encode(&self, out: &mut Vec<u8>, r: &mut Rng) {
        let mut v = Vec::new();
        match self {
            MDesc::Ca { caid, pid, data } => {
                put16(&mut v, *caid);
                put16(&mut v, (r.next() as u16 & 0xE000) | pid);
                v.extend_from_slice(data);
            }
            MDesc::Lang(l) => for (c, t) in l {
                v.extend_from_slice(c);
                v.push(*t);
            },
            MDesc::Bitrate(b) => v.extend_from_slice(&(((r.next() as u32 & 3) << 22) | b).to_be_bytes()[1 ..]),
            MDesc::NetName(t) => v.extend_from_slice(&t.wire()),
            MDesc::Services(l) => for (id, t) in l {
                put16(&mut v, *id);
                v.push(*t);
            },
            MDesc::Sat { freq, orbital, we, pol, rof, s2, modulation, rate, fec } => {
                v.extend_from_slice(&(bcd(u64::from(*freq / 10), 8) as u32).to_be_bytes());
                put16(&mut v, bcd(u64::from(*orbital / 6), 4) as u16);
                v.push((we << 7) | (pol << 5) | (rof << 3) | (s2 << 2) | modulation);
                let digit = r.below(10) as u64;
                let x = (bcd(u64::from(*rate), 6) << 8) | (digit << 4) | u64::from(*fec);
                v.extend_from_slice(&(x as u32).to_be_bytes());
            }
            MDesc::Cable { freq, outer, modulation, rate, fec } => {
                v.extend_from_slice(&(bcd(u64::from(*freq / 100), 8) as u32).to_be_bytes());
                put16(&mut v, (r.next() as u16 & 0xFFF0) | u16::from(*outer));
                v.push(*modulation);
                let digit = r.below(10) as u64;
                let x = (bcd(u64::from(*rate), 6) << 8) | (digit << 4) | u64::from(*fec);
                v.extend_from_slice(&(x as u32).to_be_bytes());
            }
            MDesc::Service { stype, provider, name } => {
                v.push(*stype);
                sized(&mut v, provider);
                sized(&mut v, name);
            }
            MDesc::Short { lang, name, text } => {
                v.extend_from_slice(lang);
                sized(&mut v, name);
                sized(&mut v, text);
            }
            MDesc::Extended { number, last, lang, items, text } => {
                v.push((number << 4) | last);
                v.extend_from_slice(lang);
                let mut b = Vec::new();
                for (d, t) in items {
                    sized(&mut b, d);
                    sized(&mut b, t);
                }
                v.push(b.len() as u8);
                v.extend_from_slice(&b);
                sized(&mut v, text);
            }
            MDesc::StreamId(t) => v.push(*t),
            MDesc::TimeOffset(l) => for o in l {
                v.extend_from_slice(&o.country);
                v.push((o.region << 2) | (r.byte() & 2) | o.polarity);
                put16(&mut v, ((bcd(u64::from(o.offset / 60), 2) << 8) | bcd(u64::from(o.offset % 60), 2)) as u16);
                put_time(&mut v, o.change);
                put16(&mut v, ((bcd(u64::from(o.next / 60), 2) << 8) | bcd(u64::from(o.next % 60), 2)) as u16);
            },
            MDesc::Terrestrial { freq, f } => {
                v.extend_from_slice(&(freq / 10).to_be_bytes());
                let mut x = 0u32;
                for (i, w) in TER_BITS.iter().enumerate() {
                    x = (x << w) | u32::from(f[i]);
                    if i == 3 {
                        x = (x << 2) | (r.next() as u32 & 3);
                    }
                }
                v.extend_from_slice(&x.to_be_bytes()[1 ..]);
                v.extend_from_slice(&(r.next() as u32).to_be_bytes());
            }
            MDesc::Lcn(l) => for (id, vis, lcn) in l {
                put16(&mut v, *id);
                put16(&mut v, (u16::from(*vis) << 15) | (r.next() as u16 & 0x7C00) | lcn);
            },
            MDesc::Raw { data, .. } => v.extend_from_slice(data),
        }
        assert!(v.len() <= 255, "descriptor model too long");
        out.push(self.tag());
        out.push(v.len() as u8);
        out.extend_from_slice(&v);
    }

    pub fn size(&self) -> usize {
        let mut v = Vec::new();
        self.encode(&mut v, &mut Rng::new(1));
        v.len()
    }

    pub fn decode(tag: u8, b: &[u8]) -> MDesc {
        if !well_formed(tag, b) {
            return MDesc::Raw { tag, data: b.to_vec() };
        }
        let be32 = |i: usize| u32::from_be_bytes(b[i .. i + 4].try_into().unwrap());
        let l3 = |i: usize| -> [u8; 3] { b[i .. i + 3].try_into().unwrap() };
        let text = |i: &mut usize| -> Text {
            let n = b[*i] as usize;
            let t = Text::from_wire(&b[*i + 1 .. *i + 1 + n]);
            *i += 1 + n;
            t
        };
        match tag {
            0x09 => MDesc::Ca { caid: be16(b), pid: be16(&b[2 ..]) & 0x1FFF, data: b[4 ..].to_vec() },
            0x0A => MDesc::Lang(b.chunks(4).map(|c| (c[.. 3].try_into().unwrap(), c[3])).collect()),
            0x0E => MDesc::Bitrate((u32::from(b[0] & 0x3F) << 16) | (u32::from(b[1]) << 8) | u32::from(b[2])),
            0x40 => MDesc::NetName(Text::from_wire(b)),
            0x41 => MDesc::Services(b.chunks(3).map(|c| (be16(c), c[2])).collect()),
            0x43 => MDesc::Sat {
                freq: unbcd(u64::from(be32(0)), 8) as u32 * 10,
                orbital: unbcd(u64::from(be16(&b[4 ..])), 4) as u16 * 6,
                we: b[6] >> 7, pol: b[6] >> 5 & 3, rof: b[6] >> 3 & 3, s2: b[6] >> 2 & 1, modulation: b[6] & 3,
                rate: unbcd(u64::from(be32(7) >> 8), 6) as u32,
                fec: b[10] & 0x0F,
            },
            0x44 => MDesc::Cable {
                freq: (unbcd(u64::from(be32(0)), 8) * 100).min(u64::from(u32::MAX)) as u32,
                outer: b[5] & 0x0F, modulation: b[6],
                rate: unbcd(u64::from(be32(7) >> 8), 6) as u32,
                fec: b[10] & 0x0F,
            },
            0x48 => { let mut i = 1; MDesc::Service { stype: b[0], provider: text(&mut i), name: text(&mut i) } }
            0x4D => { let mut i = 3; MDesc::Short { lang: l3(0), name: text(&mut i), text: text(&mut i) } }
            0x4E => {
                let mut i = 5;
                let e = 5 + b[4] as usize;
                let mut items = Vec::new();
                while i < e {
                    let d = text(&mut i);
                    let t = text(&mut i);
                    items.push((d, t));
                }
                MDesc::Extended { number: b[0] >> 4, last: b[0] & 0x0F, lang: l3(1), items, text: text(&mut i) }
            }
            0x52 => MDesc::StreamId(b[0]),
            0x58 => MDesc::TimeOffset(b.chunks(13).map(|c| Offset {
                country: c[.. 3].try_into().unwrap(),
                region: c[3] >> 2, polarity: c[3] & 1,
                offset: (unbcd(u64::from(c[4]), 2) * 60 + unbcd(u64::from(c[5]), 2)) as u16,
                change: get_time(&c[6 ..]),
                next: (unbcd(u64::from(c[11]), 2) * 60 + unbcd(u64::from(c[12]), 2)) as u16,
            }).collect()),
            0x5A => {
                let x = u32::from_be_bytes([0, b[4], b[5], b[6]]);
                let mut f = [0; 11];
                let mut pos = 24;
                for (i, w) in TER_BITS.iter().enumerate() {
                    pos -= w;
                    f[i] = ((x >> pos) & ((1 << w) - 1)) as u8;
                    if i == 3 {
                        pos -= 2;
                    }
                }
                MDesc::Terrestrial { freq: (u64::from(be32(0)) * 10).min(u64::from(u32::MAX)) as u32, f }
            }
            0x83 => MDesc::Lcn(b.chunks(4).map(|c| (be16(c), c[2] >> 7, be16(&c[2 ..]) & 0x3FF)).collect()),
            _ => MDesc::Raw { tag, data: b.to_vec() },
        }
    }
}

pub fn encode_descs(l: &[MDesc], r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for d in l {
        d.encode(&mut v, r);
    }
    v
}

pub fn decode_descs(b: &[u8]) -> Option<Vec<MDesc>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let n = *b.get(i + 1)? as usize;
        out.push(MDesc::decode(b[i], b.get(i + 2 .. i + 2 + n)?));
        i += 2 + n;
    }
    Some(out)
}

pub fn descs_size(l: &[MDesc]) -> usize { l.iter().map(|d| d.size()).sum() }

fn gen_data(ctx: &mut Ctx, max: usize) -> Vec<u8> {
    let len = match ctx.draw(5) {
        0 => 0,
        1 => max,
        2 => ctx.range(0, max),
        _ => ctx.range(0, max.min(12)),
    };
    let mut v = vec![0; len];
    ctx.sub().fill(&mut v);
    if ctx.draw(6) == 5 {
        let x = ctx.pick(&[0x00, 0xFF, 0x47]);
        for b in &mut v {
            *b = x;
        }
    }
    v
}

const DAY_MIN: u64 = 0;
const DAY_MAX: u64 = 65535 - 40587;

/// time from 1970 to the end of the MJD field
pub fn gen_time(ctx: &mut Ctx) -> u64 {
    let day = match ctx.draw(5) {
        0 => 17000,
        1 => DAY_MIN + ctx.wide(3),
        2 => DAY_MAX - ctx.wide(3),
        _ => ctx.wide(DAY_MAX + 1),
    };
    let sec = match ctx.draw(5) {
        0 => 0,
        1 => 86399,
        2 => ctx.wide(24) * 3600 + ctx.pick(&[0, 3599]),
        _ => ctx.wide(86400),
    };
    day * 86400 + sec
}

fn gen_minutes(ctx: &mut Ctx) -> u16 {
    match ctx.draw(5) {
        0 => 60,
        1 => 1439,
        2 => ctx.draw(24) as u16 * 60,
        _ => ctx.draw(1440) as u16,
    }
}

fn gen_list(ctx: &mut Ctx, room: usize, each: usize) -> usize {
    let max = room / each;
    match ctx.draw(6) {
        0 => 0.min(max),
        1 => 1.min(max),
        2 => max,
        3 => ctx.range(0, max),
        _ => ctx.range(0, max.min(4)),
    }
}

/// A descriptor of at most `max` bytes, max >= 2
pub fn gen_desc(ctx: &mut Ctx, max: usize) -> MDesc {
    let max = max.min(257);
    let kind = ctx.draw(17);
    let body = max - 2;
    let e8 = |c: &mut Ctx| c.edge(8) as u8;
    match kind {
        1 if body >= 4 => MDesc::Ca { caid: ctx.edge(16) as u16, pid: ctx.edge(13) as u16, data: gen_data(ctx, body - 4) },
        2 => {
            let n = gen_list(ctx, body, 4);
            MDesc::Lang((0 .. n).map(|_| (gen_lang(ctx), e8(ctx))).collect())
        }
        3 if body >= 3 => MDesc::Bitrate(ctx.edge(22) as u32),
        4 => MDesc::NetName(gen_text(ctx, body)),
        5 => {
            let n = gen_list(ctx, body, 3);
            MDesc::Services((0 .. n).map(|_| (ctx.edge(16) as u16, e8(ctx))).collect())
        }
        6 if body >= 11 => MDesc::Sat {
            freq: ctx.edge_below(100_000_000) as u32 * 10,
            orbital: ctx.edge_below(10_000) as u16 * 6,
            we: ctx.draw(2) as u8, pol: ctx.draw(4) as u8, rof: ctx.draw(4) as u8, s2: ctx.draw(2) as u8,
            modulation: ctx.draw(4) as u8, rate: ctx.edge_below(1_000_000) as u32, fec: ctx.edge(4) as u8,
        },
        7 if body >= 11 => MDesc::Cable {
            freq: ctx.edge_below(42_949_673) as u32 * 100,
            outer: ctx.edge(4) as u8, modulation: e8(ctx), rate: ctx.edge_below(1_000_000) as u32, fec: ctx.edge(4) as u8,
        },
        8 if body >= 3 => {
            let half = ctx.range(1, 2);
            let provider = gen_text(ctx, (body - 3) / (3 - half));
            let name = gen_text(ctx, body - 3 - provider.size());
            MDesc::Service { stype: e8(ctx), provider, name }
        }
        9 if body >= 5 => {
            let half = ctx.range(1, 2);
            let name = gen_text(ctx, (body - 5) / (3 - half));
            let text = gen_text(ctx, body - 5 - name.size());
            MDesc::Short { lang: gen_lang(ctx), name, text }
        }
        10 if body >= 6 => {
            let mut room = body - 6;
            let mut items = Vec::new();
            // or as many short ones as fit
            let many = ctx.rare(16);
            let n = if many { 124 } else { ctx.draw(4) };
            for _ in 0 .. n {
                if room < 2 {
                    break;
                }
                let (d, t) = if many {
                    let most = ctx.pick(&[0, 2, 5]);
                    (gen_text(ctx, (room - 2).min(most)), Text::default())
                } else {
                    let most = ctx.pick(&[20, 255]);
                    let d = gen_text(ctx, (room - 2).min(most));
                    let t = gen_text(ctx, room - 2 - d.size());
                    (d, t)
                };
                room -= 2 + d.size() + t.size();
                items.push((d, t));
            }
            let text = gen_text(ctx, room);
            MDesc::Extended { number: ctx.edge(4) as u8, last: ctx.edge(4) as u8, lang: gen_lang(ctx), items, text }
        }
        11 if body >= 1 => MDesc::StreamId(e8(ctx)),
        12 => {
            let n = gen_list(ctx, body, 13);
            MDesc::TimeOffset((0 .. n).map(|_| Offset {
                country: gen_lang(ctx), region: ctx.edge(6) as u8, polarity: ctx.draw(2) as u8,
                offset: gen_minutes(ctx), change: gen_time(ctx), next: gen_minutes(ctx),
            }).collect())
        }
        13 if body >= 11 => {
            let mut f = [0; 11];
            for (i, w) in TER_BITS.iter().enumerate() {
                f[i] = ctx.draw(1 << w) as u8;
            }
            MDesc::Terrestrial { freq: ctx.edge_below(429_496_730) as u32 * 10, f }
        }
        14 => {
            let n = gen_list(ctx, body, 4);
            MDesc::Lcn((0 .. n).map(|_| (ctx.edge(16) as u16, ctx.draw(2) as u8, ctx.edge(10) as u16)).collect())
        }
        15 => {
            // known tag, wrong format
            let tag = ctx.pick(KNOWN_TAGS);
            let mut data = gen_data(ctx, body);
            if tag == 0x4E && data.len() > 5 && ctx.draw(2) == 1 {
                data[4] = (data.len() - 6 - (data.len() - 6).min(ctx.idx(4))) as u8;
            }
            if tag == 0x48 && data.len() > 2 && ctx.draw(2) == 1 {
                data[1] = (data.len() - 3 + ctx.idx(3)) as u8;
            }
            if tag == 0x4D && data.len() > 4 && ctx.draw(2) == 1 {
                data[3] = (data.len() - 5 + ctx.idx(3)) as u8;
            }
            if well_formed(tag, &data) {
                MDesc::Raw { tag: 0x55, data }
            } else {
                MDesc::Raw { tag, data }
            }
        }
        _ => {
            let mut tag = ctx.edge(8) as u8;
            while KNOWN_TAGS.contains(&tag) {
                tag = tag.wrapping_add(1);
            }
            MDesc::Raw { tag, data: gen_data(ctx, body) }
        }
    }
}

pub fn gen_descs(ctx: &mut Ctx, budget: usize, max_count: usize) -> Vec<MDesc> {
    let mut out = Vec::new();
    let mut room = budget;
    // a long list of short ones
    if ctx.rare(64) {
        let n = ctx.range(1, budget / 2 + 1);
        let max = ctx.range(0, 6);
        let mut r = ctx.sub();
        while out.len() < n && room >= 2 {
            let mut data = vec![0; r.below(max as u64 + 1) as usize];
            data.truncate(room - 2);
            r.fill(&mut data);
            room -= 2 + data.len();
            out.push(MDesc::Raw { tag: 0x80 + r.below(3) as u8, data });
        }
        return out;
    }
    let n = ctx.range(0, max_count);
    for _ in 0 .. n {
        if room < 2 {
            break;
        }
        let d = gen_desc(ctx, room);
        room -= d.size();
        out.push(d);
    }
    // sometimes fill the budget exactly
    if room >= 2 && budget > 0 && ctx.draw(12) == 11 {
        while room > 0 {
            let mut n = room.min(257);
            if room - n == 1 {
                n -= 1;
            }
            if n < 2 {
                break;
            }
            let mut data = vec![0; n - 2];
            ctx.sub().fill(&mut data);
            out.push(MDesc::Raw { tag: 0xFE, data });
            room -= n;
        }
    }
    out
}

// ---------------------------------------------------------------- tables

#[derive(Clone, Copy, PartialEq, Debug, Eq, Hash, PartialOrd, Ord)]
pub enum Kind { Pat, Pmt, Nit, Sdt, Eit, Tdt, Tot }

pub const KINDS: &[Kind] = &[Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tdt, Kind::Tot];

/// Entry of a table; fields a table does not have are 0
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Item {
    /// program number, transport stream or event id
    pub id: u16,
    pub pid: u16,
    pub stype: u8,
    pub onid: u16,
    /// SDT: schedule flag, p/f flag, running status, free CA; EIT: -, -, status, CA
    pub f: [u8; 4],
    pub start: u64,
    pub dur: u32,
    pub descs: Vec<MDesc>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Table {
    pub kind: Kind,
    pub table_id: u8,
    pub version: u8,
    /// table_id_extension: tsid, program number, network id
    pub ext: u16,
    pub pcr: u16,
    pub tsid: u16,
    pub onid: u16,
    pub time: u64,
    pub descs: Vec<MDesc>,
    pub items: Vec<Item>,
}

impl Kind {
    pub fn limit(self) -> usize { if self == Kind::Eit { 4096 } else { 1024 } }

    /// bytes before the entries, without descriptors
    pub fn header(self) -> usize {
        match self {
            Kind::Pat => 8,
            Kind::Pmt | Kind::Nit => 12,
            Kind::Sdt => 11,
            Kind::Eit => 14,
            Kind::Tdt => 8,
            Kind::Tot => 10,
        }
    }

    pub fn item_header(self) -> usize {
        match self {
            Kind::Pat => 4,
            Kind::Pmt | Kind::Sdt => 5,
            Kind::Nit => 6,
            Kind::Eit => 12,
            _ => 0,
        }
    }

    pub fn of(table_id: u8) -> Option<Kind> {
        match table_id {
            0x00 => Some(Kind::Pat),
            0x02 => Some(Kind::Pmt),
            0x40 | 0x41 => Some(Kind::Nit),
            0x42 | 0x46 => Some(Kind::Sdt),
            0x4E ..= 0x6F => Some(Kind::Eit),
            0x70 => Some(Kind::Tdt),
            0x73 => Some(Kind::Tot),
            _ => None,
        }
    }
}

impl Item {
    pub fn size(&self, k: Kind) -> usize { k.item_header() + descs_size(&self.descs) }

    fn encode(&self, k: Kind, v: &mut Vec<u8>, r: &mut Rng) {
        let d = encode_descs(&self.descs, r);
        let n = d.len() as u16;
        match k {
            Kind::Pat => {
                put16(v, self.id);
                put16(v, (r.next() as u16 & 0xE000) | self.pid);
            }
            Kind::Pmt => {
                v.push(self.stype);
                put16(v, (r.next() as u16 & 0xE000) | self.pid);
                put16(v, (r.next() as u16 & 0xF000) | n);
            }
            Kind::Nit => {
                put16(v, self.id);
                put16(v, self.onid);
                put16(v, (r.next() as u16 & 0xF000) | n);
            }
            Kind::Sdt => {
                put16(v, self.id);
                v.push((r.byte() & 0xFC) | (self.f[0] << 1) | self.f[1]);
                put16(v, (u16::from(self.f[2]) << 13) | (u16::from(self.f[3]) << 12) | n);
            }
            Kind::Eit => {
                put16(v, self.id);
                put_time(v, self.start);
                v.push(bcd(u64::from(self.dur / 3600), 2) as u8);
                v.push(bcd(u64::from(self.dur / 60 % 60), 2) as u8);
                v.push(bcd(u64::from(self.dur % 60), 2) as u8);
                put16(v, (u16::from(self.f[2]) << 13) | (u16::from(self.f[3]) << 12) | n);
            }
            _ => {}
        }
        v.extend_from_slice(&d);
    }
}

impl Table {
    pub fn empty(kind: Kind) -> Table {
        let table_id = match kind {
            Kind::Pat => 0x00,
            Kind::Pmt => 0x02,
            Kind::Nit => 0x40,
            Kind::Sdt => 0x42,
            Kind::Eit => 0x4E,
            Kind::Tdt => 0x70,
            Kind::Tot => 0x73,
        };
        Table { kind, table_id, version: 0, ext: 0, pcr: 0, tsid: 0, onid: 0, time: 0, descs: Vec::new(), items: Vec::new() }
    }

    pub fn schedule(&self) -> bool { self.kind == Kind::Eit && self.table_id >= 0x50 }

    /// One section with the given entries
    fn encode_one(&self, first: bool, items: &[Item], num: u8, last: u8, r: &mut Rng) -> Vec<u8> {
        let k = self.kind;
        let mut b = Vec::new();
        if k == Kind::Tdt || k == Kind::Tot {
            put_time(&mut b, self.time);
            if k == Kind::Tot {
                let d = encode_descs(&self.descs, r);
                put16(&mut b, (r.next() as u16 & 0xF000) | d.len() as u16);
                b.extend_from_slice(&d);
            }
            return section(self.table_id, r.byte() & 0x07, &b, k == Kind::Tot);
        }
        put16(&mut b, self.ext);
        b.push((r.byte() & 0xC0) | (self.version << 1) | 1);
        b.push(num);
        b.push(last);
        let descs: &[MDesc] = if first { &self.descs } else { &[] };
        let mut body = Vec::new();
        for i in items {
            i.encode(k, &mut body, r);
        }
        match k {
            Kind::Pmt => {
                put16(&mut b, (r.next() as u16 & 0xE000) | self.pcr);
                let d = encode_descs(descs, r);
                put16(&mut b, (r.next() as u16 & 0xF000) | d.len() as u16);
                b.extend_from_slice(&d);
            }
            Kind::Nit => {
                let d = encode_descs(descs, r);
                put16(&mut b, (r.next() as u16 & 0xF000) | d.len() as u16);
                b.extend_from_slice(&d);
                put16(&mut b, (r.next() as u16 & 0xF000) | body.len() as u16);
            }
            Kind::Sdt => {
                put16(&mut b, self.onid);
                b.push(r.byte());
            }
            Kind::Eit => {
                put16(&mut b, self.tsid);
                put16(&mut b, self.onid);
                b.push(last);
                b.push(self.table_id);
            }
            _ => {}
        }
        b.extend_from_slice(&body);
        section(self.table_id, 0x08 | (r.byte() & 0x07), &b, true)
    }

    /// Sections as an independent encoder could make them: drawn split points, random reserved bits
    pub fn encode(&self, ctx: &mut Ctx) -> Vec<Vec<u8>> {
        let mut r = ctx.sub();
        let k = self.kind;
        if k == Kind::Tdt || k == Kind::Tot {
            return vec![self.encode_one(true, &[], 0, 0, &mut r)];
        }
        let mut groups: Vec<Vec<Item>> = vec![Vec::new()];
        let mut room = k.limit() - 4 - k.header() - descs_size(&self.descs);
        let pf = k == Kind::Eit && self.table_id < 0x50;
        let early = ctx.draw(4) == 3 && !(pf && self.items.len() > 250) && self.items.iter().map(|i| i.size(k)).sum::<usize>() < 50 * k.limit();
        for i in &self.items {
            let n = i.size(k);
            let full = n > room || (pf && !groups.last().unwrap().is_empty()) || (early && groups.len() < 200 && ctx.draw(6) == 5);
            if full {
                groups.push(Vec::new());
                room = k.limit() - 4 - k.header();
            }
            groups.last_mut().unwrap().push(i.clone());
            room -= n;
        }
        assert!(groups.len() <= 256, "too many sections in the model");
        let last = (groups.len() - 1) as u8;
        let sections: Vec<Vec<u8>> = groups.iter().enumerate().map(|(n, g)| self.encode_one(n == 0, g, n as u8, last, &mut r)).collect();
        for s in &sections {
            assert!(s.len() <= k.limit(), "model section too long");
        }
        sections
    }

    /// Decodes one section. Strict: everything must be consistent.
    pub fn decode(s: &[u8]) -> Option<Table> {
        let kind = Kind::of(*s.first()?)?;
        if s.len() < kind.header() || 3 + (usize::from(be16(s.get(1 .. 3)?)) & 0x0FFF) != s.len() {
            return None;
        }
        let mut t = Table::empty(kind);
        t.table_id = s[0];
        if kind == Kind::Tdt {
            if s.len() != 8 {
                return None;
            }
            t.time = get_time(&s[3 ..]);
            return Some(t);
        }
        if !valid(s) {
            return None;
        }
        let b = &s[.. s.len() - 4];
        let loop12 = |i: usize| -> Option<(Vec<MDesc>, usize)> {
            let n = usize::from(be16(b.get(i .. i + 2)?)) & 0x0FFF;
            Some((decode_descs(b.get(i + 2 .. i + 2 + n)?)?, i + 2 + n))
        };
        if kind == Kind::Tot {
            t.time = get_time(&s[3 ..]);
            let (d, e) = loop12(8)?;
            t.descs = d;
            return if e == b.len() { Some(t) } else { None };
        }
        t.ext = be16(&s[3 ..]);
        t.version = s[5] >> 1 & 0x1F;
        let mut i;
        match kind {
            Kind::Pmt => {
                t.pcr = be16(&s[8 ..]) & 0x1FFF;
                let (d, e) = loop12(10)?;
                t.descs = d;
                i = e;
            }
            Kind::Nit => {
                let (d, e) = loop12(8)?;
                t.descs = d;
                let n = usize::from(be16(b.get(e .. e + 2)?)) & 0x0FFF;
                i = e + 2;
                if i + n != b.len() {
                    return None;
                }
            }
            Kind::Sdt => {
                t.onid = be16(&s[8 ..]);
                i = 11;
            }
            Kind::Eit => {
                t.tsid = be16(&s[8 ..]);
                t.onid = be16(&s[10 ..]);
                i = 14;
            }
            _ => i = 8,
        }
        while i < b.len() {
            let mut it = Item::default();
            let h = b.get(i .. i + kind.item_header())?;
            match kind {
                Kind::Pat => {
                    it.id = be16(h);
                    it.pid = be16(&h[2 ..]) & 0x1FFF;
                    i += 4;
                }
                Kind::Pmt => {
                    it.stype = h[0];
                    it.pid = be16(&h[1 ..]) & 0x1FFF;
                    let (d, e) = loop12(i + 3)?;
                    it.descs = d;
                    i = e;
                }
                Kind::Nit => {
                    it.id = be16(h);
                    it.onid = be16(&h[2 ..]);
                    let (d, e) = loop12(i + 4)?;
                    it.descs = d;
                    i = e;
                }
                Kind::Sdt => {
                    it.id = be16(h);
                    it.f = [h[2] >> 1 & 1, h[2] & 1, h[3] >> 5, h[3] >> 4 & 1];
                    let (d, e) = loop12(i + 3)?;
                    it.descs = d;
                    i = e;
                }
                _ => {
                    it.id = be16(h);
                    it.start = get_time(&h[2 ..]);
                    it.dur = (unbcd(u64::from(h[7]), 2) * 3600 + unbcd(u64::from(h[8]), 2) * 60 + unbcd(u64::from(h[9]), 2)) as u32;
                    it.f = [0, 0, h[10] >> 5, h[10] >> 4 & 1];
                    let (d, e) = loop12(i + 10)?;
                    it.descs = d;
                    i = e;
                }
            }
            t.items.push(it);
        }
        Some(t)
    }

    /// Appends a further section of the same table
    pub fn append(&mut self, o: &Table) {
        self.table_id = o.table_id;
        self.version = o.version;
        self.ext = o.ext;
        self.pcr = o.pcr;
        self.tsid = o.tsid;
        self.onid = o.onid;
        self.time = o.time;
        self.descs.extend(o.descs.iter().cloned());
        self.items.extend(o.items.iter().cloned());
    }
}

// ---------------------------------------------------------------- generation

/// How much content a table gets
#[derive(Clone, Copy, PartialEq)]
pub enum Scale { Small, Any, Multi }

/// As many entries or sections as the numbering allows
fn gen_many(ctx: &mut Ctx, t: &mut Table) {
    let kind = t.kind;
    let room = kind.limit() - 4 - kind.header();
    let header = kind.item_header();
    let schedule = kind == Kind::Eit && t.schedule();
    // entries of this size, bytes for all of them
    let (size, sections) = match ctx.draw(3) {
        0 => (header, ctx.range(1, 6)),
        1 => (header + ctx.range(0, 20), ctx.range(1, 12)),
        // one entry per section; 256 sections are all that the numbering can express
        _ => (room / 2 + 1, match ctx.draw(3) {
            2 if t.descs.is_empty() => 256 - ctx.draw(2) as usize,
            _ => ctx.range(1, 250),
        }),
    };
    let size = if kind == Kind::Pat { 4 } else { size };
    let mut n = room / size * sections;
    let mut step = 0;
    if kind == Kind::Eit && !schedule {
        n = n.min(256);
    }
    let mut whole = false;
    if schedule {
        // half of the segments of the schedule may follow each other
        n = n.min(480);
        step = ctx.pick(&[10_800, 3600, 1800]);
        n = n.min(480 * 10_800 / step as usize);
        if size > room / 2 {
            // one section in a segment, or all eight of them
            whole = ctx.draw(2) == 1;
            step = if whole { 1350 } else { 10_800 };
        }
    }
    if kind == Kind::Pat && ctx.draw(3) != 2 {
        n = n.min(3000);
    }
    let mut start = gen_time(ctx).min((DAY_MAX + 1 - 70) * 86_400);
    if whole {
        start -= start % 10_800;
    }
    let mut r = ctx.sub();
    for k in 0 .. n {
        if whole && k == 1 {
            // the first segment of a schedule is sent in the second one (known finding)
            start = start + 21_600 - step;
        }
        let mut i = Item::default();
        i.id = r.below(65536) as u16;
        match kind {
            Kind::Pat => i.pid = r.below(8192) as u16,
            Kind::Pmt => {
                i.stype = r.byte();
                i.id = 0;
                i.pid = r.below(8192) as u16;
            }
            Kind::Nit => i.onid = r.below(65536) as u16,
            Kind::Sdt => i.f = [r.below(2) as u8, r.below(2) as u8, r.below(8) as u8, r.below(2) as u8],
            _ => {
                i.f = [0, 0, r.below(8) as u8, r.below(2) as u8];
                i.start = start;
                i.dur = r.below(360_000) as u32;
                start += step;
            }
        }
        let mut left = size - header;
        while left >= 2 {
            let mut n = left.min(257);
            if left - n == 1 {
                n -= 1;
            }
            let mut data = vec![0; n - 2];
            r.fill(&mut data);
            i.descs.push(MDesc::Raw { tag: 0xFD, data });
            left -= n;
        }
        t.items.push(i);
    }
}

pub fn gen_table(ctx: &mut Ctx, kind: Kind, scale: Scale) -> Table {
    let mut t = Table::empty(kind);
    match kind {
        Kind::Nit => t.table_id = ctx.pick(&[0x40, 0x41]),
        Kind::Sdt => t.table_id = ctx.pick(&[0x42, 0x46]),
        Kind::Eit => t.table_id = match ctx.draw(4) {
            0 => 0x4E,
            1 => 0x4F,
            2 => 0x50,
            _ => 0x50 + ctx.draw(32) as u8,
        },
        _ => {}
    }
    if kind == Kind::Tdt || kind == Kind::Tot {
        t.time = gen_time(ctx);
        if kind == Kind::Tot {
            t.descs = gen_descs(ctx, 1024 - 14, 3);
        }
        return t;
    }
    t.version = ctx.edge(5) as u8;
    t.ext = ctx.edge(16) as u16;
    let room = kind.limit() - 4 - kind.header();
    match kind {
        Kind::Pmt => {
            t.pcr = ctx.edge(13) as u16;
            t.descs = gen_descs(ctx, room, 3);
        }
        Kind::Nit => t.descs = gen_descs(ctx, room, 3),
        Kind::Sdt => t.onid = ctx.edge(16) as u16,
        Kind::Eit => {
            t.tsid = ctx.edge(16) as u16;
            t.onid = ctx.edge(16) as u16;
        }
        _ => {}
    }
    let n = match scale {
        Scale::Small => ctx.range(0, 3),
        Scale::Any => match kind {
            Kind::Pat => match ctx.draw(10) {
                0 ..= 5 => ctx.range(0, 12),
                6 ..= 7 => ctx.range(0, 260),
                8 => ctx.pick(&[252, 253, 254, 506, 507]),
                _ => ctx.range(0, 1000),
            },
            _ => ctx.count(30),
        },
        Scale::Multi => match kind {
            Kind::Pat => ctx.range(254, 900),
            Kind::Eit => ctx.range(2, 40),
            _ => ctx.range(4, 60),
        },
    };
    let mut n = n;
    if scale != Scale::Small && ctx.rare(250) {
        gen_many(ctx, &mut t);
        return t;
    }
    if kind == Kind::Eit && n == 0 && !(scale == Scale::Any && ctx.draw(10) == 9) {
        n = 1;
    }
    let mut start = gen_time(ctx);
    let last = (DAY_MAX + 1) * 86400 - 1;
    if kind == Kind::Eit && t.schedule() {
        start = start.min(last - 40 * 86400);
    }
    // the total stays below a few dozen sections
    let mut total = 60_000usize;
    let max_desc = if scale == Scale::Multi && ctx.draw(2) == 0 { 5 } else { 2 };
    let fixed = if ctx.draw(3) == 2 { Some(ctx.range(0, room - kind.item_header())) } else { None };
    let step = ctx.pick(&[1800u64, 3600, 300, 10_800, 86_400, 30]);
    for _ in 0 .. n {
        let mut i = Item::default();
        let budget = room - kind.item_header();
        i.id = ctx.edge(16) as u16;
        match kind {
            Kind::Pat => i.pid = ctx.edge(13) as u16,
            Kind::Pmt => {
                i.stype = ctx.edge(8) as u8;
                i.id = 0;
                i.pid = ctx.edge(13) as u16;
            }
            Kind::Nit => i.onid = ctx.edge(16) as u16,
            Kind::Sdt => i.f = [ctx.draw(2) as u8, ctx.draw(2) as u8, ctx.draw(8) as u8, ctx.draw(2) as u8],
            _ => {
                i.f = [0, 0, ctx.draw(8) as u8, ctx.draw(2) as u8];
                i.start = start;
                i.dur = match ctx.draw(6) {
                    0 => 1800,
                    1 => 0,
                    2 => 359_999,
                    3 => ctx.wide(360_000) as u32,
                    4 => ctx.wide(100) as u32 * 3600 + ctx.pick(&[0, 3599, 59, 60]),
                    _ => ctx.wide(86_400) as u32,
                };
            }
        }
        if kind != Kind::Pat {
            i.descs = match fixed {
                // entries that hit the section limit exactly at some point
                Some(size) if size >= 2 => {
                    let mut left = size;
                    let mut l = Vec::new();
                    while left >= 2 {
                        let mut n = left.min(257);
                        if left - n == 1 {
                            n -= 1;
                        }
                        let mut data = vec![0; n - 2];
                        ctx.sub().fill(&mut data);
                        l.push(MDesc::Raw { tag: 0xFD, data });
                        left -= n;
                    }
                    l
                }
                _ => gen_descs(ctx, budget, max_desc),
            };
        }
        let size = i.size(kind);
        if size > total {
            break;
        }
        total -= size;
        if kind == Kind::Eit && t.schedule() {
            // no more than 8 sections of events in a segment (the numbering has no room for more);
            // a sliding window of two segments keeps that for any alignment
            let near: usize = t.items.iter().filter(|x| x.start + 21_600 > i.start).map(|x| x.size(kind)).sum();
            if near + size > 7 * 2030 {
                break;
            }
            start += match ctx.draw(8) {
                0 ..= 4 => step,
                5 => 0,
                6 => ctx.wide(10_800) + 1,
                _ => ctx.wide(3 * 86_400),
            };
            start = start.min(last);
            // a schedule is 64 days from midnight on
            if start >= t.items.first().map_or(i.start, |x| x.start) + 62 * 86_400 {
                t.items.push(i);
                break;
            }
        } else if kind == Kind::Eit {
            start = gen_time(ctx);
        }
        t.items.push(i);
    }
    if kind == Kind::Eit && t.items.is_empty() && n > 0 {
        t.items.push(Item { start, dur: 60, ..Item::default() });
    }
    t
}
