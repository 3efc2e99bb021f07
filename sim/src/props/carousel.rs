//! C14, C15, C19: collecting, accumulating and relaying tables

use std::collections::BTreeMap;

use mpegts::psi::Psi;

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    model::*,
    pack::*,
    real::*,
    wire::*,
};

use super::{
    section::{draw_pids, gen_stream},
    tables::{differ, emit},
};

/// What an application does to receive a table of several sections
pub struct Collector {
    pub kind: Kind,
    /// first table_id of the table
    pub first: u8,
    pub version: Option<u8>,
    parts: BTreeMap<(u8, u8), Psi>,
}

impl Collector {
    pub fn new(kind: Kind, first: u8) -> Collector { Collector { kind, first, version: None, parts: BTreeMap::new() } }

    /// Returns false if the section is already there
    pub fn put(&mut self, psi: &Psi) -> bool {
        let v = Lib::from_psi(self.kind, psi).version();
        if self.version != Some(v) {
            self.parts.clear();
            self.version = Some(v);
        }
        let key = match self.kind {
            Kind::Tdt | Kind::Tot => (psi.buffer[0], 0),
            _ => (psi.buffer[0], psi.buffer[6]),
        };
        match self.parts.insert(key, psi.clone()) {
            Some(old) => held(&old) != held(psi),
            None => true,
        }
    }

    pub fn complete(&self) -> bool {
        let any = match self.parts.values().next() {
            Some(p) => p,
            None => return false,
        };
        match self.kind {
            Kind::Tdt | Kind::Tot => true,
            Kind::Eit => (self.first ..= any.buffer[13]).all(|tid| {
                let last = match self.parts.iter().find(|(k, _)| k.0 == tid) {
                    Some((_, p)) => p.buffer[7],
                    None => return false,
                };
                (0 ..= last / 8).all(|seg| {
                    let p = match self.parts.get(&(tid, seg * 8)) {
                        Some(p) => p,
                        None => return false,
                    };
                    (seg * 8 ..= p.buffer[12]).all(|n| self.parts.contains_key(&(tid, n)))
                })
            }),
            _ => (0 ..= any.buffer[7]).all(|n| self.parts.contains_key(&(any.buffer[0], n))),
        }
    }

    pub fn assemble(&self) -> Lib {
        let mut lib = Lib::default(self.kind);
        for p in self.parts.values() {
            lib.parse(p);
        }
        lib
    }
}

pub fn usable(psi: &Psi, kind: Kind) -> bool {
    if kind == Kind::Tdt {
        psi.size == 8 && psi.buffer.len() >= 8 && psi.buffer[0] == 0x70
    } else {
        psi.check() && Kind::of(psi.buffer[0]) == Some(kind)
    }
}

// ---------------------------------------------------------------- C14

pub fn c14(ctx: &mut Ctx) -> Res {
    let kind = ctx.pick(&[Kind::Pat, Kind::Pmt, Kind::Nit, Kind::Sdt, Kind::Eit]);
    let by_lib = ctx.draw(2) == 1;
    let pid = draw_pids(ctx, 1)[0];
    let count = ctx.range(1, 4);
    let mut cc = ctx.draw(16) as u8;
    let layout = Layout::draw(ctx);
    let v0 = ctx.draw(32) as u8;
    let scale = if ctx.draw(4) == 0 { Scale::Any } else { Scale::Multi };

    let mut versions: Vec<Table> = Vec::new();
    let mut sections: Vec<Vec<u8>> = Vec::new();
    let mut pkts: Vec<Pkt> = Vec::new();
    // end of each repetition of the last version
    let mut reps: Vec<usize> = Vec::new();
    let mut counts: Vec<usize> = Vec::new();
    let mut begin = 0;
    for v in 0 .. count {
        let mut t = gen_table(ctx, kind, scale);
        t.version = (v0 + v as u8) & 31;
        if let Some(p) = versions.last() {
            let other = t.schedule() != p.schedule();
            t.table_id = p.table_id;
            t.ext = p.ext;
            if ctx.draw(3) == 2 || other {
                // small change
                let ver = t.version;
                t = p.clone();
                t.version = ver;
                if !t.items.is_empty() && ctx.draw(2) == 0 {
                    let i = ctx.idx(t.items.len());
                    if t.kind == Kind::Pmt { t.items[i].pid ^= 1 } else { t.items[i].id ^= 1 }
                }
            }
        }
        if kind == Kind::Eit && t.items.is_empty() {
            t.items.push(Item { start: 86400, dur: 60, ..Item::default() });
        }
        let lib = Lib::build(&t, &mut ctx.sub());
        let fixed = if by_lib { Vec::new() } else { t.encode(ctx) };
        let n = if v + 1 == count { ctx.range(3, 6) } else { ctx.range(1, 4) };
        begin = pkts.len();
        for _ in 0 .. n {
            let base = sections.len();
            if by_lib {
                let (s, out) = emit(&t, &lib, pid, &mut cc)?;
                pkts.extend(mark(&out, base));
                sections.extend(s);
            } else {
                let mut p = packetise(ctx, &fixed, pid, &mut cc, &layout);
                for x in &mut p {
                    x.ends = x.ends.map(|e| e + base);
                }
                pkts.extend(p);
                sections.extend(fixed.iter().cloned());
            }
            if v + 1 == count {
                reps.push(pkts.len());
            }
            counts.push(sections.len() - base);
        }
        versions.push(t);
    }
    // clean from the begin of one of the repetitions but the last two, or anywhere before
    let k = ctx.range(0, reps.len() - 3);
    let from = if k == 0 { begin } else { reps[k - 1] };
    let clean = if ctx.draw(2) == 0 { from } else { ctx.range(0, from) };
    // "two repetitions" are counted from the next repetition that begins
    let deadline = reps[k + 1];
    let f = if ctx.draw(5) == 0 { Faults::none() } else { Faults::some(ctx, Allow::All) };
    let dels = transmit(ctx, &pkts, &f, 0, clean);
    let restarts = ctx.draw(3) == 2;

    let first = match kind {
        Kind::Eit if by_lib && versions[0].schedule() => versions[0].table_id & 0xF0,
        _ => versions[0].table_id,
    };
    let mut rx = Psi::default();
    let mut col = Collector::new(kind, first);
    let mut last_rep: Option<u8> = None;
    for d in &dels {
        ctx.now = d.t;
        if restarts && d.src != NONE && d.src < clean && ctx.draw(40) == 39 {
            ctx.fault("receiver_restart", col.parts.len() as u64, 0);
            ctx.state((kind as u64) << 32 | (counts[0].min(40) as u64) << 16 | (col.parts.len().min(40) as u64) << 1);
            rx = Psi::default();
            col = Collector::new(kind, first);
        }
        rx.mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(7, &d.b));
        if d.b[3] & 0x10 != 0 && usable(&rx, kind) {
            let before = col.parts.len();
            let old = col.version;
            let news = col.put(&rx);
            if old.is_some() && old != col.version {
                ctx.state((kind as u64) << 32 | (counts[0].min(40) as u64) << 16 | (before.min(40) as u64) << 1 | 1);
                ctx.probe("version_changed");
            }
            if (news || ctx.draw(16) == 15) && col.complete() {
                let v = col.version.unwrap();
                let n = (v.wrapping_sub(v0) & 31) as usize;
                if n >= versions.len() {
                    return fail("version", format!("version {} was never sent", v));
                }
                ctx.checked();
                if let Err(e) = col.assemble().compare(&versions[n]) {
                    return differ("collected table", format!("version {}: {}", v, e));
                }
                ctx.probe("table_completed");
                last_rep = Some(v);
            }
        }
        if d.src == deadline - 1 && d.src >= clean {
            ctx.checked();
            let v = versions.last().unwrap().version;
            if !col.complete() || col.version != Some(v) || last_rep != Some(v) {
                return fail("not-complete", format!("{} of {} sections after two repetitions", col.parts.len(), counts.last().unwrap()));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15(ctx: &mut Ctx) -> Res {
    let pid = draw_pids(ctx, 1)[0];
    let n = ctx.range(1, 8);
    let mut sections: Vec<Vec<u8>> = Vec::new();
    let favourite = ctx.pick(KINDS);
    for _ in 0 .. n {
        match ctx.draw(8) {
            7 => {
                // valid but for its end, which comes before the end of the header of the table
                let kind = ctx.pick(KINDS);
                let t = gen_table(ctx, kind, Scale::Small);
                let mut s = t.encode(ctx).swap_remove(0);
                if kind != Kind::Tdt {
                    s.truncate(ctx.range(8, kind.header() + 3));
                    let n = s.len() - 3;
                    s[1] = (s[1] & 0xF0) | (n >> 8) as u8;
                    s[2] = n as u8;
                    fix_crc(&mut s);
                    sections.push(s);
                    ctx.probe("short_section");
                }
            }
            5 => {
                let size = ctx.range(8, 60);
                let mut s = gen_section(ctx, size);
                s[0] = ctx.pick(&[0x01, 0x03, 0x3F, 0x43, 0x45, 0x47, 0x4A, 0x4D, 0x71, 0x72, 0x74, 0xC8]);
                fix_crc(&mut s);
                sections.push(s);
            }
            6 => {
                // a section that could be of this table but for its table_id
                let kind = ctx.pick(KINDS);
                let t = gen_table(ctx, kind, Scale::Small);
                for mut s in t.encode(ctx) {
                    s[0] = if ctx.draw(2) == 0 { s[0] ^ (1 << ctx.draw(8)) } else { ctx.draw(256) as u8 };
                    if Kind::of(s[0]).is_none() {
                        fix_crc(&mut s);
                        sections.push(s);
                        ctx.probe("foreign_table_id");
                    }
                }
            }
            _ => {
                let kind = if ctx.draw(2) == 0 { favourite } else { ctx.pick(KINDS) };
                let mut t = gen_table(ctx, kind, Scale::Small);
                if kind == Kind::Eit && t.items.is_empty() {
                    t.items.push(Item::default());
                }
                sections.extend(t.encode(ctx));
            }
        }
    }
    let layout = Layout::draw(ctx);
    let mut cc = ctx.draw(16) as u8;
    let pkts = packetise(ctx, &sections, pid, &mut cc, &layout);
    let f = Faults::draw(ctx, Allow::All);
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());

    // objects with content of their own
    let mut objects: Vec<(Lib, Table)> = Vec::new();
    for &k in KINDS {
        let mut t = gen_table(ctx, k, Scale::Small);
        if ctx.draw(3) == 0 {
            t.items.clear();
            t.descs.clear();
        }
        let l = Lib::build(&t, &mut ctx.sub());
        objects.push((l, t));
    }
    let verify = |lib: &Lib, m: &Table, what: &str| -> Res {
        if let (Lib::Eit(e), true) = (lib, m.kind == Kind::Eit) {
            if e.table_id != m.table_id {
                return fail("object-changed", format!("{}: EIT table_id is {:02x} instead of {:02x}", what, e.table_id, m.table_id));
            }
        }
        match lib.compare(m) {
            Ok(()) => Ok(()),
            Err(e) => fail("object-changed", format!("{}: {:?}: {}", what, m.kind, e)),
        }
    };
    let mut rx = Psi::default();
    for d in &dels {
        ctx.now = d.t;
        rx.mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(9, &d.b));
        let complete = rx.size > 0 && rx.buffer.len() >= rx.size;
        let intact = complete && valid(held(&rx)) && rx.size > 7;
        let tid = rx.buffer.first().copied();
        for (i, (lib, m)) in objects.iter_mut().enumerate() {
            let kind = m.kind;
            ctx.state(tid.map_or(0, |t| 1 + u64::from(t)) << 16 | u64::from(complete) << 8 | u64::from(intact) << 9 | i as u64);
            let own = complete && tid.and_then(Kind::of) == Some(kind) &&
                if kind == Kind::Tdt { rx.size == 8 } else { intact };
            // damaged on the way to the object
            if complete && kind != Kind::Tdt && ctx.draw(12) == 11 {
                let mut bad = rx.clone();
                let bit = ctx.idx(bad.size * 8);
                bad.buffer[bit / 8] ^= 0x80 >> (bit % 8);
                if !valid(held(&bad)) {
                    ctx.fault("section_damaged", bit as u64, 0);
                    lib.parse(&bad);
                    ctx.checked();
                    verify(lib, m, "damaged section")?;
                }
            }
            if complete && rx.size > 3 && ctx.draw(12) == 11 {
                let mut bad = rx.clone();
                let n = ctx.range(3, bad.size - 1);
                bad.buffer.truncate(n);
                ctx.fault("section_cut", n as u64, 0);
                lib.parse(&bad);
                ctx.checked();
                verify(lib, m, "incomplete section")?;
            }
            lib.parse(&rx);
            ctx.checked();
            if own {
                match Table::decode(held(&rx)) {
                    _ if kind != Kind::Tdt && rx.size < kind.header() + 4 => ctx.probe("short_section_refused"),
                    Some(t) => {
                        let old = m.clone();
                        m.append(&t);
                        if kind == Kind::Tdt && lib.compare(m).is_err() {
                            *m = old;
                        }
                        ctx.probe("section_appended");
                    }
                    // an accidental one made of damaged packets
                    None => continue,
                }
                verify(lib, m, if rx.size < kind.header() + 4 { "short section" } else { "own section" })?;
            } else {
                verify(lib, m, if complete { "other or damaged section" } else { "incomplete section" })?;
            }
        }
        if objects.iter().any(|o| o.1.items.len() > 200) {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn carry(ctx: &mut Ctx, kind: Kind, first: u8, rep: &mut dyn FnMut(&mut Ctx, &mut u8) -> V<Vec<Pkt>>) -> V<Lib> {
    let mut cc = ctx.draw(16) as u8;
    let mut pkts = Vec::new();
    let n = ctx.range(1, 3);
    for _ in 0 .. n {
        pkts.extend(rep(ctx, &mut cc)?);
    }
    let clean = pkts.len();
    pkts.extend(rep(ctx, &mut cc)?);
    pkts.extend(rep(ctx, &mut cc)?);
    let f = Faults::draw(ctx, if kind == Kind::Tdt { Allow::NoDamage } else { Allow::All });
    let dels = if f.any() {
        transmit(ctx, &pkts, &f, 0, clean)
    } else {
        transmit(ctx, &pkts[clean ..], &f, 0, pkts.len() - clean)
    };
    let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
    let raw = if ctx.draw(3) == 2 { through_reader(ctx, &raw)? } else { raw };
    let mut rx = Psi::default();
    let mut col = Collector::new(kind, first);
    for b in &raw {
        rx.mux(b);
        ctx.ev("packet", fnv(11, b), 0, 0);
        if b[3] & 0x10 != 0 && usable(&rx, kind) {
            col.put(&rx);
            if col.complete() && ctx.draw(2) == 0 {
                break;
            }
        }
    }
    if !col.complete() {
        return fail("not-complete", format!("relay has {} sections after two clean repetitions", col.parts.len()));
    }
    Ok(col.assemble())
}

fn edit(ctx: &mut Ctx, lib: &mut Lib, m: &mut Table) -> &'static str {
    let room = m.kind.limit() - 4 - m.kind.header();
    let n = m.items.len();
    match ctx.draw(8) {
        0 => match lib {
            Lib::Tdt(t) => {
                m.time = gen_time(ctx);
                t.time = m.time;
                "time"
            }
            Lib::Tot(t) => {
                m.time = gen_time(ctx);
                t.time = m.time;
                "time"
            }
            _ => {
                m.version = (m.version + 1) & 31;
                lib.set_version(m.version);
                "version"
            }
        },
        1 if n > 0 => {
            let at = ctx.idx(n);
            let v = ctx.edge(16) as u16;
            if m.kind == Kind::Pmt { m.items[at].pid = v & 0x1FFF } else { m.items[at].id = v }
            lib.set_id(at, v);
            "entry_changed"
        }
        2 if n > 1 => {
            let at = ctx.idx(n);
            m.items.remove(at);
            lib.remove(at);
            "entry_removed"
        }
        3 if n > 0 && !(m.kind == Kind::Eit && !m.schedule() && n > 255) && m.kind != Kind::Tdt && m.kind != Kind::Tot => {
            let at = ctx.idx(n);
            let mut i = m.items[at].clone();
            i.descs = if m.kind == Kind::Pat { Vec::new() } else { gen_descs(ctx, 40, 2) };
            lib.insert(at, &i, &mut ctx.sub());
            m.items.insert(at, i);
            "entry_added"
        }
        4 if n > 0 && m.kind != Kind::Pat => {
            let at = ctx.idx(n);
            let left = room - m.items[at].size(m.kind);
            if left < 2 {
                return "none";
            }
            let d = gen_desc(ctx, left.min(60));
            match lib.item_descs(at) {
                Some(l) => l.push(desc(&d, &mut ctx.sub())),
                None => return "none",
            }
            m.items[at].descs.push(d);
            "descriptor_added"
        }
        5 => {
            let left = room.saturating_sub(descs_size(&m.descs));
            if left < 2 {
                return "none";
            }
            let d = gen_desc(ctx, left.min(60));
            match lib.table_descs() {
                Some(l) => l.push(desc(&d, &mut ctx.sub())),
                None => return "none",
            }
            m.descs.push(d);
            "table_descriptor_added"
        }
        k @ 6 ..= 7 => {
            let at = if n > 0 && ctx.draw(4) != 3 { Some(ctx.idx(n)) } else { None };
            let (list, model) = match at {
                Some(at) => (lib.item_descs(at), &mut m.items[at].descs),
                None => (lib.table_descs(), &mut m.descs),
            };
            let list = match list {
                Some(l) if !model.is_empty() => l,
                _ => return "none",
            };
            let x = ctx.idx(model.len());
            if k == 6 {
                let done = list.get_mut(x).map_or(false, |d| edit_desc(ctx, d, &mut model[x]));
                return if done { "descriptor_changed" } else { "none" };
            }
            let d = gen_desc(ctx, model[x].size());
            if let Some(old) = list.get_mut(x) {
                *old = desc(&d, &mut ctx.sub());
            }
            model[x] = d;
            "descriptor_replaced"
        }
        _ => "none",
    }
}

/// Relay of sections that are changed in place
fn section_relay(ctx: &mut Ctx) -> Res {
    let pids = draw_pids(ctx, 2);
    let s = gen_stream(ctx, pids[0], false, 8);
    let f = Faults::draw(ctx, Allow::All);
    let dels = transmit(ctx, &s.pkts, &f, 0, s.pkts.len());
    let mut rx = Psi::default();
    let mut cc = ctx.draw(16) as u8;
    let first = cc;
    let mut out = Vec::new();
    let mut want: Vec<Vec<u8>> = Vec::new();
    let mut sent: Vec<Psi> = Vec::new();
    for d in &dels {
        ctx.now = d.t;
        rx.mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(13, &d.b));
        if d.b[3] & 0x10 == 0 || !rx.check() {
            continue;
        }
        let mut m = held(&rx).to_vec();
        if !s.sections.contains(&m) {
            return fail("not-sent", format!("section of {} bytes was never sent", m.len()));
        }
        let mut p = if ctx.draw(2) == 1 { rx.clone() } else { std::mem::take(&mut rx) };
        let n = ctx.range(0, 3);
        for _ in 0 .. n {
            let at = if ctx.draw(2) == 0 { 3 } else { ctx.range(3, m.len() - 4) };
            if at < m.len() - 4 {
                let v = ctx.draw(256) as u8;
                m[at] = v;
                p.buffer[at] = v;
                ctx.ev("edit", at as u64, u64::from(v), 0);
            }
        }
        fix_crc(&mut m);
        if p.buffer.len() > p.size {
            ctx.probe("changed_with_the_next_one_behind");
        }
        p.finalize();
        p.pid = pids[1];
        p.cc = cc;
        p.demux(&mut out);
        cc = p.cc;
        want.push(m);
        sent.push(p);
    }
    let mut c = first;
    let got = parse_emitted(&out, pids[1], &mut c)?;
    ctx.checked();
    ctx.state(1 << 40 | (want.len().min(20) as u64) << 8 | u64::from(f.any()));
    if c != cc {
        return fail("counter-returned", format!("counter {} returned, {} expected", cc, c));
    }
    if got != want {
        let n = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail("relayed-section", format!("section {} of {} is not the changed one", n, want.len()));
    }
    // the next receiver
    let mut rx = Psi::default();
    let mut next = sent.iter();
    for b in out.chunks(188) {
        rx.mux(b);
        if rx.check() {
            match next.next() {
                Some(p) if *p == rx => {}
                _ => return fail("relayed-section", "the next receiver has another section".into()),
            }
        }
    }
    if next.next().is_some() {
        return fail("relayed-section", "the next receiver misses a section".into());
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) -> Res {
    if ctx.draw(4) == 3 {
        ctx.probe("section_relay");
        return section_relay(ctx);
    }
    let kind = ctx.pick(KINDS);
    let scale = match ctx.draw(3) { 0 => Scale::Small, 1 => Scale::Any, _ => Scale::Multi };
    let mut m = gen_table(ctx, kind, scale);
    if kind == Kind::Eit && m.items.is_empty() {
        m.items.push(Item { start: 86400, dur: 60, ..Item::default() });
    }
    let hops = ctx.range(1, 4);
    let edits_on = ctx.draw(2) == 1;
    if edits_on {
        // room in the numbering for what the edits add
        let size = m.items.first().map_or(1, |i| i.size(kind));
        let per = ((kind.limit() - 4 - kind.header()) / size).max(1);
        m.items.truncate(250 * per);
        if m.schedule() && per == 1 {
            let mut k = 0;
            m.items.retain(|_| { k += 1; k % 8 < 5 });
        }
    }
    let pids = draw_pids(ctx, hops + 1);

    // first leg: from an independent sender or from this library
    let by_lib = ctx.draw(2) == 1;
    let mut lib;
    let mut last: Option<Vec<Vec<u8>>> = None;
    let pid = pids[0];
    if by_lib {
        let l = Lib::build(&m, &mut ctx.sub());
        let (s, _) = emit(&m, &l, pid, &mut 0)?;
        last = Some(s);
        let first = if m.schedule() { m.table_id & 0xF0 } else { m.table_id };
        lib = carry(ctx, kind, first, &mut |_, cc| {
            let (_, out) = emit(&m, &l, pid, cc)?;
            Ok(mark(&out, 0))
        })?;
    } else {
        let fixed = m.encode(ctx);
        let layout = Layout::draw(ctx);
        let first = m.table_id;
        lib = carry(ctx, kind, first, &mut |ctx, cc| Ok(packetise(ctx, &fixed, pid, cc, &layout)))?;
    }
    ctx.checked();
    if let Err(e) = lib.compare(&m) {
        return differ("after hop 0", e);
    }

    for h in 0 .. hops {
        let mut edited = false;
        if edits_on && ctx.draw(2) == 1 {
            let what = edit(ctx, &mut lib, &mut m);
            if what != "none" {
                edited = true;
                ctx.probe(what);
            }
            ctx.state((kind as u64) << 32 | (h as u64) << 24 | fnv(0, what.as_bytes()) % 997 << 8 | (m.items.len().min(20) as u64));
            ctx.ev("edit", h as u64, fnv(0, what.as_bytes()), 0);
        } else {
            ctx.state((kind as u64) << 32 | (h as u64) << 24 | (m.items.len().min(20) as u64));
        }
        let pid = pids[h + 1];
        let (s, _) = emit(&m, &lib, pid, &mut 0)?;
        if let (Some(l), false) = (&last, edited) {
            ctx.checked();
            if *l != s {
                return fail("not-identical", format!("hop {}: sections are not byte for byte those received", h + 1));
            }
        }
        last = Some(s);
        let first = if m.schedule() { m.table_id & 0xF0 } else { m.table_id };
        let next = carry(ctx, kind, first, &mut |_, cc| {
            let (_, out) = emit(&m, &lib, pid, cc)?;
            Ok(mark(&out, 0))
        })?;
        lib = next;
        ctx.checked();
        if let Err(e) = lib.compare(&m) {
            return differ(&format!("after hop {}", h + 1), e);
        }
    }
    Ok(())
}
