//! C10 - C13, C18: content of tables and descriptors end to end

use mpegts::psi::{Descriptors, Psi};

use crate::{
    ctx::{fail, fnv, Ctx, Res, Violation},
    link::*,
    model::*,
    pack::*,
    real::*,
    wire::*,
};

use super::section::{check_sections, draw_pids, gen_stream};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir { RefToLib, LibToRef, LibToLib }

pub fn differ<T>(what: &str, e: String) -> Result<T, Violation> { fail("content", format!("{}: {}", what, e)) }

/// Emission of a table by the library, verified by the reference decoder
pub fn emit(t: &Table, lib: &Lib, pid: u16, cc: &mut u8) -> V<(Vec<Vec<u8>>, Vec<u8>)> {
    let mut out = Vec::new();
    let mut c = *cc;
    lib.emit(pid, cc, &mut out);
    let sections = parse_emitted(&out, pid, &mut c)?;
    if c != *cc {
        return fail("counter-returned", format!("counter {} returned, {} expected", cc, c));
    }
    check_sections(t.kind, &sections)?;
    let mut all: Option<Table> = None;
    for s in &sections {
        let one = match Table::decode(s) {
            Some(o) => o,
            None => return fail("emitted-not-decodable", format!("{:?} section of {} bytes: {:02x?}", t.kind, s.len(), &s[.. s.len().min(24)])),
        };
        match &mut all {
            None => all = Some(one),
            Some(a) => a.append(&one),
        }
    }
    match all {
        None => if !(t.kind == Kind::Eit && t.items.is_empty()) {
            return fail("nothing-emitted", format!("{:?}", t.kind));
        },
        Some(mut a) => {
            if t.schedule() {
                if a.table_id & 0xF0 != t.table_id & 0xF0 {
                    return fail("content", format!("table_id {:02x} instead of {:02x}", a.table_id, t.table_id));
                }
                a.table_id = t.table_id;
            }
            if a != *t {
                return differ("emitted", first_difference(&a, t));
            }
        }
    }
    Ok((sections, out))
}

pub fn first_difference(a: &Table, b: &Table) -> String {
    let head = |t: &Table| (t.table_id, t.version, t.ext, t.pcr, t.tsid, t.onid, t.time);
    if head(a) != head(b) {
        return format!("header {:?} instead of {:?}", head(a), head(b));
    }
    let short = |s: String| -> String { s.chars().take(300).collect() };
    if a.descs != b.descs {
        return short(format!("descriptors {:?} instead of {:?}", a.descs, b.descs));
    }
    for (n, (x, y)) in a.items.iter().zip(&b.items).enumerate() {
        if x != y {
            return short(format!("entry {}: {:?} instead of {:?}", n, x, y));
        }
    }
    format!("{} entries instead of {}", a.items.len(), b.items.len())
}

/// EIT numbering: last section, segment last section and last table_id
fn eit_numbering(sections: &[Vec<u8>]) -> Res {
    let last_tid = sections.iter().map(|s| s[0]).max().unwrap_or(0);
    for s in sections {
        let (tid, num) = (s[0], s[6]);
        let last = sections.iter().filter(|x| x[0] == tid).map(|x| x[6]).max().unwrap();
        let seg = if tid < 0x50 { last } else {
            sections.iter().filter(|x| x[0] == tid && x[6] / 8 == num / 8).map(|x| x[6]).max().unwrap()
        };
        if s[7] != last {
            return fail("last-section", format!("section {:02x}/{}: last section number {} instead of {}", tid, num, s[7], last));
        }
        if s[12] != seg {
            return fail("segment-last-section", format!("section {:02x}/{}: segment last section number {} instead of {}", tid, num, s[12], seg));
        }
        if s[13] != last_tid {
            return fail("last-table-id", format!("section {:02x}/{}: last table_id {:02x} instead of {:02x}", tid, num, s[13], last_tid));
        }
    }
    Ok(())
}

/// EIT schedule: every three hours from midnight on are a segment of up to 8 sections,
/// every 4 days a table_id
fn eit_segments(ctx: &mut Ctx, sections: &[Vec<u8>], t: &Table) -> Res {
    let day = t.items[0].start / 86_400 * 86_400;
    let segment = |start: u64| (start - day) / 10_800;
    let first = segment(t.items[0].start);
    let at = |s: &[u8]| u64::from(s[0] & 0x0F) * 32 + u64::from(s[6] / 8);
    let mut next = 0;
    for s in sections {
        if at(s) > next {
            return fail("segment-missing", format!("no section for segment {}", next));
        }
        next = at(s) + 1;
        for i in Table::decode(s).map_or(Vec::new(), |x| x.items) {
            let want = segment(i.start);
            if at(s) == want {
                continue;
            }
            if want == first && at(s) == first + 1 {
                ctx.known("eit-first-segment");
                continue;
            }
            return fail("segment", format!("event {} at {} in segment {} instead of {}", i.id, i.start, at(s), want));
        }
    }
    Ok(())
}

struct Sent {
    tables: Vec<Table>,
    /// section, table index; None for sections of other types
    sections: Vec<(Vec<u8>, Option<usize>)>,
    pkts: Vec<Pkt>,
}

fn foreign(ctx: &mut Ctx) -> Vec<u8> {
    let size = ctx.range(12, 300);
    let mut s = gen_section(ctx, size);
    s[0] = ctx.pick(&[0x01, 0x03, 0x4A, 0x71, 0x72, 0x7E, 0x7F, 0x80, 0xFE]);
    fix_crc(&mut s);
    s
}

fn send(ctx: &mut Ctx, tables: Vec<Table>, dir: Dir, pid: u16, placed: bool) -> V<Sent> {
    let mut s = Sent { tables, sections: Vec::new(), pkts: Vec::new() };
    let mut cc = ctx.draw(16) as u8;
    if dir == Dir::RefToLib {
        let mix = ctx.draw(4) == 3;
        for (n, t) in s.tables.iter().enumerate() {
            for x in t.encode(ctx) {
                if mix && ctx.draw(4) == 3 {
                    s.sections.push((foreign(ctx), None));
                }
                s.sections.push((x, Some(n)));
            }
        }
        let layout = Layout::draw(ctx);
        let raw: Vec<Vec<u8>> = s.sections.iter().map(|x| x.0.clone()).collect();
        s.pkts = packetise(ctx, &raw, pid, &mut cc, &layout);
        return Ok(s);
    }
    for (n, t) in s.tables.iter().enumerate() {
        let lib = Lib::build(t, &mut ctx.sub());
        let (sections, out) = emit(t, &lib, pid, &mut cc)?;
        ctx.checked();
        if t.kind == Kind::Eit {
            eit_numbering(&sections)?;
            if placed && t.schedule() && !t.items.is_empty() {
                eit_segments(ctx, &sections, t)?;
            }
            if t.schedule() && sections.iter().any(|x| x[0] != sections[0][0]) {
                ctx.probe("schedule_over_several_table_ids");
            }
            if t.schedule() && sections.iter().any(|x| x[6] % 8 != 0) {
                ctx.probe("several_sections_in_a_segment");
            }
        }
        s.pkts.extend(mark(&out, s.sections.len()));
        s.sections.extend(sections.into_iter().map(|x| (x, Some(n))));
    }
    Ok(s)
}

fn table_run(ctx: &mut Ctx, tables: Vec<Table>, placed: bool, hook: fn(&mut Ctx, &Table)) -> Res {
    let kind = tables[0].kind;
    let dir = ctx.pick(&[Dir::RefToLib, Dir::LibToLib, Dir::LibToRef]);
    let pids = draw_pids(ctx, 2);
    for t in &tables {
        hook(ctx, t);
    }
    let s = send(ctx, tables, dir, pids[0], placed)?;
    for (x, _) in &s.sections {
        ctx.ev_bytes("section", u64::from(x[0]), x);
    }
    let f = Faults::draw(ctx, Allow::All);
    for (n, t) in s.tables.iter().enumerate() {
        let sections = s.sections.iter().filter(|x| x.1 == Some(n)).count();
        let class = match t.items.len() { 0 => 0, 1 => 1, 2 ..= 9 => 2, 10 ..= 99 => 3, _ => 4 };
        ctx.state((kind as u64) << 40 | (t.table_id as u64) << 32 | (dir as u64) << 24 | (sections.min(60) as u64) << 8 | class << 1 | u64::from(f.any()));
        if sections > 1 {
            ctx.probe("several_sections");
        }
        if t.descs.is_empty() && t.items.is_empty() {
            ctx.probe("empty_table");
        }
    }
    if dir == Dir::LibToRef {
        return Ok(());
    }

    let mut streams = vec![s.pkts.clone()];
    if ctx.draw(4) == 3 {
        streams.push(gen_stream(ctx, pids[1], false, 4).pkts);
    }
    let pkts = interleave(ctx, streams);
    let mut dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    if ctx.draw(4) == 3 {
        let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
        for (d, b) in dels.iter_mut().zip(through_reader(ctx, &raw)?) {
            d.b = b;
        }
    }

    let mut rx = Psi::default();
    let mut acc: Vec<Lib> = s.tables.iter().map(|t| Lib::default(t.kind)).collect();
    for d in &dels {
        ctx.now = d.t;
        if be16(&d.b[1 ..]) & 0x1FFF != pids[0] {
            continue;
        }
        rx.mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(5, &d.b));
        if d.b[3] & 0x10 == 0 {
            continue;
        }
        if !f.any() {
            if let Some(e) = pkts[d.src].ends {
                if let Some(n) = s.sections[e].1 {
                    acc[n].parse(&rx);
                } else {
                    ctx.probe("section_of_another_table");
                    acc[0].parse(&rx);
                }
            }
            continue;
        }
        if !rx.check() {
            continue;
        }
        ctx.checked();
        let got = &rx.buffer[.. rx.size];
        let sent = match s.sections.iter().find(|x| &x.0[..] == got) {
            Some(x) => x,
            None => return fail("not-sent", format!("section {:02x} of {} bytes was never sent", got[0], got.len())),
        };
        if sent.1.is_some() {
            let m = Table::decode(got).expect("model section decodes");
            let frag = Lib::from_psi(kind, &rx);
            if let Err(e) = frag.compare(&m) {
                return differ("section", e);
            }
            ctx.probe("section_compared_under_faults");
        }
    }
    if !f.any() {
        for (a, t) in acc.iter().zip(&s.tables) {
            if t.kind == Kind::Eit && t.items.is_empty() && dir != Dir::RefToLib {
                continue;
            }
            ctx.checked();
            if let Err(e) = a.compare(t) {
                return differ("table", e);
            }
        }
    }
    Ok(())
}

fn gen_tables(ctx: &mut Ctx, kinds: &[Kind]) -> Vec<Table> {
    let kind = ctx.pick(kinds);
    let n = ctx.range(1, 3);
    let mut v: Vec<Table> = Vec::new();
    for _ in 0 .. n {
        let scale = match ctx.draw(4) { 0 => Scale::Small, 1 | 2 => Scale::Any, _ => Scale::Multi };
        let t = match v.last() {
            Some(p) if ctx.draw(3) == 2 => {
                // next version of the same table
                let mut t = p.clone();
                t.version = (t.version + 1) & 31;
                t
            }
            _ => gen_table(ctx, kind, scale),
        };
        v.push(t);
    }
    v
}

fn nothing(_: &mut Ctx, _: &Table) {}

pub fn c10(ctx: &mut Ctx) -> Res {
    let t = gen_tables(ctx, &[Kind::Pat, Kind::Pmt]);
    table_run(ctx, t, false, nothing)
}

pub fn c11(ctx: &mut Ctx) -> Res {
    let t = gen_tables(ctx, &[Kind::Nit, Kind::Sdt]);
    table_run(ctx, t, false, nothing)
}

pub fn c12(ctx: &mut Ctx) -> Res {
    let t = gen_tables(ctx, &[Kind::Eit]);
    table_run(ctx, t, true, nothing)
}

// ---------------------------------------------------------------- C18

fn note_descs(ctx: &mut Ctx, t: &Table) {
    for d in t.descs.iter().chain(t.items.iter().flat_map(|i| i.descs.iter())) {
        ctx.state(u64::from(d.tag()) << 16 | (d.size() - 2) as u64);
        if let MDesc::Raw { tag, .. } = d {
            ctx.probe(if KNOWN_TAGS.contains(tag) { "malformed_descriptor" } else { "unknown_descriptor" });
        }
    }
}

/// Descriptor list through the list API in both directions
fn desc_list(ctx: &mut Ctx) -> Res {
    let m = gen_descs(ctx, 1000, 6);
    let mut r = ctx.sub();
    let mut l = descs(&m, &mut r);
    let check = |ctx: &mut Ctx, l: &Descriptors, m: &[MDesc]| -> Res {
        ctx.checked();
        let mut out = vec![0xEE; 3];
        let n = l.assemble(&mut out);
        if out[.. 3] != [0xEE; 3] {
            return fail("output-changed", "bytes in front of the list changed".into());
        }
        if n != out.len() - 3 || n != l.size() {
            return fail("size", format!("size() is {}, assemble() returned {}, {} bytes written", l.size(), n, out.len() - 3));
        }
        match decode_descs(&out[3 ..]) {
            Some(d) if d == m => Ok(()),
            Some(d) => differ("assembled", format!("{:?} instead of {:?}", d, m).chars().take(400).collect()),
            None => differ("assembled", "the list is broken".into()),
        }
    };
    check(ctx, &l, &m)?;
    let c = l.clone();
    check(ctx, &c, &m)?;
    // more appended, received from the other side
    let more = gen_descs(ctx, 500, 3);
    let wire = encode_descs(&more, &mut r);
    l.parse(&wire);
    let mut all = m.clone();
    all.extend(more.iter().cloned());
    if let Err(e) = cmp_descs(&l, &all) {
        return differ("received list", e);
    }
    check(ctx, &l, &all)?;
    if let Err(e) = cmp_descs(&c, &m) {
        return differ("copied list", e);
    }
    for d in &all {
        ctx.state(u64::from(d.tag()) << 16 | (d.size() - 2) as u64);
    }
    // content that the length byte cannot express is left out as a whole
    if ctx.draw(16) == 15 {
        let n = ctx.pick(&[256, 257, 300, 511, 512, 513, 1000]);
        let last = gen_descs(ctx, 100, 2);
        let mut l = c.clone();
        l.push(mpegts::psi::DescRaw { tag: 0x80 + r.below(0x7F) as u8, data: vec![r.byte(); n] });
        l.parse(&encode_descs(&last, &mut r));
        let mut out = Vec::new();
        let n = l.assemble(&mut out);
        let mut want = m.clone();
        want.extend(last);
        ctx.probe("oversized_descriptor");
        ctx.checked();
        if n != out.len() || decode_descs(&out).map_or(true, |d| d != want) {
            return fail("oversized", format!("assemble() returned {}, {} bytes written for {:?}", n, out.len(), want).chars().take(400).collect());
        }
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) -> Res {
    desc_list(ctx)?;
    let kind = ctx.pick(&[Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit, Kind::Tot]);
    let mut t = gen_table(ctx, kind, Scale::Small);
    // many descriptors in one place
    if let Some(i) = t.items.first_mut() {
        let room = kind.limit() - 4 - kind.header() - kind.item_header();
        i.descs = gen_descs(ctx, room.min(1500), 12);
    }
    table_run(ctx, vec![t], false, note_descs)
}

// ---------------------------------------------------------------- C13

pub fn c13(ctx: &mut Ctx) -> Res {
    let pid = if ctx.draw(2) == 0 { 0x14 } else { draw_pids(ctx, 1)[0] };
    let mut clock = gen_time(ctx);
    let steps = ctx.range(1, 14);
    let mut cc = ctx.draw(16) as u8;
    let by_lib = ctx.draw(2) == 1;
    let mut sections: Vec<Vec<u8>> = Vec::new();
    let mut models: Vec<Table> = Vec::new();
    let mut out_pkts: Vec<Pkt> = Vec::new();
    let limit = (65536 - 40587) * 86400u64;
    for _ in 0 .. steps {
        let kind = if ctx.draw(2) == 0 { Kind::Tdt } else { Kind::Tot };
        let mut t = gen_table(ctx, kind, Scale::Small);
        t.time = clock;
        if kind == Kind::Tot && ctx.draw(2) == 1 {
            let mut d = gen_desc(ctx, 257);
            for _ in 0 .. 12 {
                if let MDesc::TimeOffset(_) = d {
                    break;
                }
                d = gen_desc(ctx, 257);
            }
            t.descs = vec![d];
        }
        let offsets: usize = t.descs.iter().map(|d| if let MDesc::TimeOffset(l) = d { l.len() } else { 0 }).sum();
        let day = (clock / 86400) as i64;
        let class = if clock % 86400 == 0 { 0 } else if clock % 86400 == 86399 { 1 } else { 2 };
        ctx.state((kind as u64) << 32 | (day.min(20).max(if day > 24900 { day - 24900 } else { 0 }) as u64) << 16 | class << 8 | (offsets.min(20) as u64));
        if offsets > 0 {
            ctx.probe("local_time_offsets");
        }
        if by_lib {
            let lib = Lib::build(&t, &mut ctx.sub());
            let (s, out) = emit(&t, &lib, pid, &mut cc)?;
            ctx.checked();
            out_pkts.extend(mark(&out, sections.len()));
            sections.extend(s);
        } else {
            sections.extend(t.encode(ctx));
        }
        models.push(t);
        clock = match ctx.draw(7) {
            0 => clock + 1,
            1 => clock + 30,
            2 => (clock / 86400 + 1) * 86400 - 1,
            3 => (clock / 86400 + 1) * 86400,
            4 => clock.saturating_sub(ctx.wide(400 * 86400)),
            5 => {
                ctx.fault("clock_jump", clock, 0);
                gen_time(ctx)
            }
            _ => clock + ctx.wide(86400),
        } % limit;
    }
    let pkts = if by_lib { out_pkts } else {
        let layout = Layout::draw(ctx);
        packetise(ctx, &sections, pid, &mut cc, &layout)
    };
    let f = Faults::draw(ctx, Allow::All);
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    let mut rx = Psi::default();
    let mut refrx = RefRx::default();
    let mut tdt = mpegts::psi::Tdt::default();
    let mut tot = mpegts::psi::Tot::default();
    let (mut tdt_time, mut tot_time) = (0u64, 0u64);
    for d in &dels {
        ctx.now = d.t;
        rx.mux(&d.b);
        let by_ref = refrx.feed(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(5, &d.b));
        let payload = d.b[3] & 0x10 != 0;
        if !payload {
            continue;
        }
        tdt.parse(&rx);
        tot.parse(&rx);
        ctx.checked();
        let ended = if d.src != NONE && !d.damaged { pkts[d.src].ends.map(|e| &models[e]) } else { None };
        // what was the packet allowed to do
        let excused = (d.damaged || by_ref.iter().any(|s| s[..] == *held(&rx))) && rx.buffer.first() == Some(&0x70);
        if tdt.time != tdt_time {
            match ended {
                Some(m) if m.kind == Kind::Tdt && m.time == tdt.time => {}
                _ if excused && f.any() => ctx.probe("damaged_tdt"),
                _ => return fail("tdt-time", format!("TDT time became {} from {} by packet {}", tdt.time, tdt_time, d.src)),
            }
            tdt_time = tdt.time;
        }
        if tot.time != tot_time {
            let sent = models.iter().any(|m| m.kind == Kind::Tot && m.time == tot.time);
            let here = match ended { Some(m) => m.kind == Kind::Tot && m.time == tot.time, None => d.damaged && sent };
            if !here {
                return fail("tot-time", format!("TOT time became {} from {} by packet {}", tot.time, tot_time, d.src));
            }
            tot_time = tot.time;
        }
        if !f.any() {
            if let Some(m) = ended {
                let got = if m.kind == Kind::Tdt { tdt.time } else { tot.time };
                if got != m.time {
                    return fail("time-not-received", format!("{:?} time {} instead of {}", m.kind, got, m.time));
                }
            }
        }
        if rx.check() && rx.buffer[0] == 0x73 {
            let one = Lib::from_psi(Kind::Tot, &rx);
            let got = held(&rx);
            match sections.iter().position(|s| &s[..] == got) {
                Some(n) => if let Err(e) = one.compare(&models[n]) {
                    return differ("TOT", e);
                },
                None => return fail("not-sent", "a TOT that was never sent".into()),
            }
            ctx.probe("tot_compared");
        } else if !f.any() {
            if let Some(m) = ended {
                if m.kind == Kind::Tot {
                    return fail("time-not-received", "TOT not reported".into());
                }
            }
        }
    }
    Ok(())
}
