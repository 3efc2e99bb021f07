//! C22: programme guide text from the editor to the viewer

use mpegts::{psi::{Desc4D, Desc4E, Descriptors, Eit, EitItem, Psi, PsiDemux}, textcode::StringDVB};

use crate::{
    chars,
    ctx::{fail, fnv, Ctx, Res, Rng},
    link::*,
    model::*,
    pack::*,
    real::*,
};

use super::section::draw_pids;

/// What the editor wrote and what the viewer has to see
#[derive(Clone, Debug, Default, PartialEq)]
struct Written {
    cp: u8,
    text: String,
    shown: String,
}

const ODD: &[char] = &['\u{ab}', '\u{bb}', '\u{2018}', '\u{2019}', '\u{201b}', '\u{201c}', '\u{201d}', '\u{201f}', '\u{2026}',
    '\u{4e2d}', '\u{1f600}', '\u{10041}', '\u{100a9}', '\u{20ac}', '\u{0416}', '\u{ffff}', '\u{05d0}', '\u{10ffff}', '\u{80}', '\u{8a}', '\u{9f}'];

fn in_page(c: char, cp: u8) -> bool {
    let u = c as u32;
    u < 0x80 || chars::page(cp).map_or(true, |p| p.iter().any(|&x| x != 0 && u32::from(x) == u))
}

/// Character as it is shown; None - not representable and its substitute is not claimed
fn shown(c: char, cp: u8) -> String {
    if in_page(c, cp) {
        return c.to_string();
    }
    match c {
        '\u{ab}' | '\u{bb}' | '\u{201c}' | '\u{201d}' | '\u{201f}' => "\"".into(),
        '\u{2018}' | '\u{2019}' | '\u{201b}' => "'".into(),
        '\u{2026}' => "...".into(),
        '\u{80}' ..= '\u{9f}' => String::new(),
        _ => "?".into(),
    }
}

fn letter(r: &mut Rng, cp: u8, style: u32) -> char {
    let ascii = |r: &mut Rng| (0x20 + r.below(95) as u8) as char;
    match style {
        0 => ascii(r),
        1 if r.below(3) == 0 => ascii(r),
        _ => match chars::page(cp) {
            Some(p) => loop {
                let u = p[r.below(96) as usize];
                if u != 0 {
                    break char::from_u32(u32::from(u)).unwrap();
                }
            },
            None => loop {
                let u = match if style == 3 { 3 } else { r.below(4) } {
                    0 => 0x20 + r.below(95),
                    1 => 0xA0 + r.below(0x760),
                    2 => 0x800 + r.below(0xF800),
                    _ => 0x10000 + r.below(0x100000),
                };
                if let Some(c) = char::from_u32(u as u32) {
                    break c;
                }
            },
        },
    }
}

/// Text of about `size` bytes on the wire
fn write(ctx: &mut Ctx, cp: u8, size: usize) -> Written {
    let mut w = Written { cp, ..Written::default() };
    let style = ctx.draw(4);
    let odd = ctx.draw(4) == 3;
    let mut r = ctx.sub();
    let real = if chars::page(cp).is_some() { cp } else { 21 };
    let mut n = 0;
    loop {
        let c = if odd && r.below(6) == 0 { ODD[r.below(ODD.len() as u64) as usize] } else { letter(&mut r, real, style) };
        let s = shown(c, real);
        n += if real == 21 { c.len_utf8() } else { s.chars().count() };
        if n > size {
            break;
        }
        w.text.push(c);
        w.shown.push_str(&s);
    }
    w
}

struct Event {
    id: u16,
    start: u64,
    title: Written,
    /// limit the editor cuts the title to
    cut: usize,
    long: Written,
    limit: usize,
}

fn gen_event(ctx: &mut Ctx, id: u16, start: u64) -> Event {
    let cp = |c: &mut Ctx| if c.draw(8) == 7 { c.pick(&[12, 16, 20, 31, 200]) } else { c.pick(CODEPAGES) };
    let (a, b) = (cp(ctx), cp(ctx));
    let n = ctx.range(0, 240);
    let title = write(ctx, a, n);
    let cut = ctx.range(3, 240);
    let limit = match ctx.draw(4) { 0 => 249, 1 => ctx.range(8, 40), 2 => ctx.range(8, 249), _ => 245 + ctx.range(0, 4) };
    let n = match ctx.draw(4) {
        0 => ctx.range(0, 40),
        1 => (limit - 3) * ctx.range(0, 12) + ctx.range(0, 2),
        _ => ctx.range(0, (limit - 6) * 12),
    };
    // at most 16 parts
    let long = write(ctx, b, n.min(3000).min((limit - 6) * 15));
    Event { id, start, title, cut, long, limit }
}

/// The editor at work: title and text into descriptors
fn edit(ctx: &mut Ctx, e: &Event) -> Result<(Descriptors, String), crate::ctx::Violation> {
    let mut d = Descriptors::default();
    let mut name = StringDVB::from_str(&e.title.text, e.title.cp);
    let whole = name.as_bytes().len();
    name.truncate(e.cut);
    let title = name.to_string();
    ctx.checked();
    if whole <= e.cut {
        if title != e.title.shown {
            return fail("title", format!("{:?} is shown as {:?}", e.title.text, title));
        }
    } else {
        ctx.probe("title_truncated");
        if name.as_bytes().len() > e.cut {
            return fail("title-length", format!("{} bytes after truncation to {}", name.as_bytes().len(), e.cut));
        }
        let ok = title.ends_with("...") && e.title.shown.starts_with(&title[.. title.len() - 3]);
        if !ok {
            return fail("title-broken", format!("{:?} truncated to {} is shown as {:?}", e.title.shown, e.cut, title));
        }
        // nothing given away but an unfinished character
        if name.as_bytes().len() + 4 <= e.cut {
            return fail("title-short", format!("{} bytes after truncation to {}", name.as_bytes().len(), e.cut));
        }
    }
    d.push(Desc4D { lang: StringDVB::from(&b"eng"[..]), name, text: StringDVB::default() });

    let text = StringDVB::from_str(&e.long.text, e.long.cp);
    let parts = text.split(e.limit);
    let last = parts.len() - 1;
    if last > 0 {
        ctx.probe("text_split");
    }
    if last > 15 {
        return fail("parts", format!("{} parts of {} for {} bytes", parts.len(), e.limit, text.as_bytes().len()));
    }
    for (n, p) in parts.into_iter().enumerate() {
        ctx.checked();
        if p.size() > e.limit {
            return fail("part-size", format!("part of {} bytes, limit {}", p.size(), e.limit));
        }
        // nothing given away but the selector and an unfinished character
        if n < last && p.size() + 3 < e.limit {
            return fail("part-short", format!("part of {} bytes, limit {}", p.size(), e.limit));
        }
        d.push(Desc4E { number: n as u8, last_number: last as u8, lang: StringDVB::from(&b"eng"[..]), items: Vec::new(), text: p });
    }
    Ok((d, title))
}

/// Codes without a character in the text of another editor
fn controls(ctx: &mut Ctx, t: &mut Text) {
    if t.cp == 21 || t.bytes.is_empty() || ctx.draw(4) != 3 {
        return;
    }
    let p = chars::page(t.cp).unwrap();
    let none: Vec<u8> = (0xA0 ..= 0xFFu8).filter(|&b| p[usize::from(b) - 0xA0] == 0 && (t.cp != 0 || b & 0xF0 != 0xC0)).collect();
    let mut r = ctx.sub();
    for _ in 0 .. 1 + r.below(4) {
        let n = r.below(t.bytes.len() as u64) as usize;
        if n == 0 && t.cp == 0 {
            continue;
        }
        t.bytes[n] = if none.is_empty() || r.below(2) == 0 { 0x80 + r.below(0x20) as u8 } else { none[r.below(none.len() as u64) as usize] };
    }
    ctx.probe("codes_without_a_character");
}

/// The same by an independent editor
fn edit_ref(ctx: &mut Ctx, e: &Event) -> (Vec<MDesc>, String, String) {
    let lang = *b"eng";
    let mut name = Text::of(&e.title.shown, e.title.cp);
    controls(ctx, &mut name);
    let title = name.chars(true).unwrap();
    if name.bytes.is_empty() && ctx.draw(2) == 1 {
        ctx.probe("selector_without_text");
        name.cp |= BARE;
    }
    let mut t = Text::of(&e.long.shown, e.long.cp);
    controls(ctx, &mut t);
    let mut parts: Vec<Text> = Vec::new();
    let room = e.limit - 3;
    let mut b = &t.bytes[..];
    while !b.is_empty() {
        let mut n = room.min(b.len());
        if n < b.len() {
            if ctx.draw(4) == 3 {
                n = n.saturating_sub(ctx.range(0, 3)).max(4);
            }
            while t.cp == 21 && b[n] & 0xC0 == 0x80 {
                n -= 1;
            }
        }
        parts.push(Text { cp: t.cp, bytes: b[.. n].to_vec() });
        b = &b[n ..];
    }
    if parts.is_empty() {
        parts.push(Text::default());
    }
    parts.truncate(16);
    let long = parts.iter().map(|p| p.chars(true).unwrap()).collect();
    let last = parts.len() as u8 - 1;
    let mut d = vec![MDesc::Short { lang, name, text: Text::default() }];
    for (n, p) in parts.into_iter().enumerate() {
        d.push(MDesc::Extended { number: n as u8, last, lang, items: Vec::new(), text: p });
    }
    (d, title, long)
}

/// What the viewer reads
fn view(d: &Descriptors) -> (String, String) {
    let mut title = String::new();
    let mut long = String::new();
    for x in d.iter() {
        match x.tag() {
            0x4D => title = x.downcast_ref::<Desc4D>().name.to_string(),
            0x4E => long.push_str(&x.downcast_ref::<Desc4E>().text.to_string()),
            _ => {}
        }
    }
    (title, long)
}

fn view_ref(d: &[MDesc], any: bool) -> (String, String) {
    let mut title = String::new();
    let mut long = String::new();
    for x in d {
        match x {
            MDesc::Short { name, .. } => title = name.chars(any).unwrap_or_else(|| "(broken)".into()),
            MDesc::Extended { text, .. } => long.push_str(&text.chars(any).unwrap_or_else(|| "(broken)".into())),
            _ => {}
        }
    }
    (title, long)
}

struct Shown { version: u8, id: u16, title: String, long: String }

fn compare(shown: &[Shown], version: u8, id: u16, got: (String, String)) -> Res {
    let want = match shown.iter().find(|s| s.version == version && s.id == id) {
        Some(s) => s,
        None => return fail("event", format!("event {} of version {} was never sent", id, version)),
    };
    if got.0 != want.title {
        return fail("title", format!("event {}: title {:?} instead of {:?}", id, got.0, want.title));
    }
    if got.1 != want.long {
        let n = got.1.chars().zip(want.long.chars()).take_while(|(a, b)| a == b).count();
        return fail("text", format!("event {}: text differs from character {} on", id, n));
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx) -> Res {
    let pid = draw_pids(ctx, 1)[0];
    let by_lib = ctx.draw(3) != 2;
    let table_id = ctx.pick(&[0x4E, 0x50, 0x4F, 0x60]);
    let versions = ctx.range(1, 3);
    let v0 = ctx.draw(32) as u8;
    let layout = Layout::draw(ctx);
    let mut cc = ctx.draw(16) as u8;
    let mut all: Vec<Shown> = Vec::new();
    let mut pkts: Vec<Pkt> = Vec::new();
    let mut clean = 0;
    for v in 0 .. versions {
        let version = (v0 + v as u8) & 31;
        let n = ctx.range(1, 4);
        let mut events = Vec::new();
        for k in 0 .. n {
            events.push(gen_event(ctx, 100 + k as u16, 20 * 86400 + k as u64 * 1800));
        }
        let mut t = Table { table_id, version, ext: 7, tsid: 1, onid: 1, ..Table::empty(Kind::Eit) };
        let mut eit = Eit { table_id, version, pnr: 7, tsid: 1, onid: 1, items: Vec::new() };
        for e in &events {
            let (title, long) = if by_lib {
                let (d, title) = edit(ctx, e)?;
                eit.items.push(EitItem { event_id: e.id, start: e.start, duration: 1800, descriptors: d, ..EitItem::default() });
                (title, e.long.shown.clone())
            } else {
                let (d, title, long) = edit_ref(ctx, e);
                t.items.push(Item { id: e.id, start: e.start, dur: 1800, descs: d, ..Item::default() });
                (title, long)
            };
            ctx.state(u64::from(e.long.cp) << 16 | (e.limit as u64) << 4 | (e.long.shown.len() / 250) as u64);
            all.push(Shown { version, id: e.id, title, long });
        }
        let reps = if v + 1 == versions { 3 } else { ctx.range(1, 2) };
        for k in 0 .. reps {
            if v + 1 == versions && k == 1 {
                clean = pkts.len();
            }
            if by_lib {
                let mut out = Vec::new();
                let mut c = cc;
                eit.demux(pid, &mut cc, &mut out);
                let sections = parse_emitted(&out, pid, &mut c)?;
                let mut seen = 0;
                for s in &sections {
                    let t = match Table::decode(s) {
                        Some(t) => t,
                        None => return fail("emitted-not-decodable", format!("section of {} bytes", s.len())),
                    };
                    for i in &t.items {
                        ctx.checked();
                        compare(&all, version, i.id, view_ref(&i.descs, false))?;
                        seen += 1;
                    }
                }
                if seen != events.len() {
                    return fail("event", format!("{} of {} events emitted", seen, events.len()));
                }
                pkts.extend(mark(&out, 0));
            } else {
                let s = t.encode(ctx);
                pkts.extend(packetise(ctx, &s, pid, &mut cc, &layout));
            }
        }
    }
    let f = Faults::draw(ctx, Allow::All);
    let mut dels = transmit(ctx, &pkts, &f, 0, clean);
    if ctx.draw(4) == 3 {
        let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
        for (d, b) in dels.iter_mut().zip(through_reader(ctx, &raw)?) {
            d.b = b;
        }
    }

    let last = (v0 + versions as u8 - 1) & 31;
    let mut rx = Psi::default();
    let mut got: Vec<u16> = Vec::new();
    let mut relay: Option<Eit> = None;
    for d in &dels {
        ctx.now = d.t;
        rx.mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(15, &d.b));
        if d.b[3] & 0x10 == 0 || !rx.check() {
            continue;
        }
        let eit = Eit::from(&rx);
        for i in &eit.items {
            ctx.checked();
            compare(&all, eit.version, i.event_id, view(&i.descriptors))?;
            if eit.version == last && !got.contains(&i.event_id) {
                got.push(i.event_id);
            }
            ctx.probe("event_shown");
        }
        if relay.is_none() && !eit.items.is_empty() && ctx.draw(8) == 7 {
            relay = Some(eit);
        }
    }
    let want = all.iter().filter(|s| s.version == last).count();
    if got.len() != want {
        return fail("not-shown", format!("{} of {} events shown after two clean repetitions", got.len(), want));
    }
    // a relay sends on what it has received
    if let Some(eit) = relay {
        let mut out = Vec::new();
        let mut c = 0;
        eit.demux(pid, &mut 0, &mut out);
        ctx.probe("relayed");
        for s in parse_emitted(&out, pid, &mut c)? {
            let t = match Table::decode(&s) {
                Some(t) => t,
                None => return fail("emitted-not-decodable", format!("section of {} bytes", s.len())),
            };
            for i in &t.items {
                ctx.checked();
                compare(&all, t.version, i.id, view_ref(&i.descs, true))?;
            }
        }
    }
    Ok(())
}
