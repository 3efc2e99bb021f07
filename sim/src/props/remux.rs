//! C24: programs of several multiplexes put together into a new one

use std::collections::BTreeMap;

use mpegts::{psi::{Descriptors, Pat, PatItem, Pmt, PmtItem, Psi, Sdt, SdtItem}, reader::{TsRead, TsReader}, ts};

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    model::*,
    pack::*,
    real::*,
    source::{draw_plan, Log, Seen, SimSource, Step},
    wire::*,
};

use super::{carousel::{usable, Collector}, es::gen_es, scan::{Mux, Scanner}, tables::{differ, emit}};

const EIT_PID: u16 = 0x12;
const SDT_PID: u16 = 0x11;
const NIT_PID: u16 = 0x10;
/// Packets of the new multiplex after which tables are not repeated any more
const LONG: usize = 30_000;
const WRAP: u128 = 300 << 33;

/// Event information of all services on one PID
#[derive(Default)]
struct Guide {
    rx: Psi,
    cols: BTreeMap<(u8, u16), Collector>,
}

impl Guide {
    fn feed(&mut self, b: &Packet) -> Option<((u8, u16), Lib)> {
        self.rx.mux(b);
        if b[3] & 0x10 == 0 || !usable(&self.rx, Kind::Eit) {
            return None;
        }
        let tid = self.rx.buffer[0];
        let key = (if tid < 0x50 { tid } else { tid & 0xF0 }, be16(&self.rx.buffer[3 ..]));
        let col = self.cols.entry(key).or_insert_with(|| Collector::new(Kind::Eit, key.0));
        if col.put(&self.rx) && col.complete() { Some((key, col.assemble())) } else { None }
    }

    fn get(&self, key: (u8, u16)) -> Option<Lib> {
        self.cols.get(&key).and_then(|c| if c.complete() { Some(c.assemble()) } else { None })
    }
}

// ---------------------------------------------------------------- sources

struct Source {
    mux: Mux,
    /// the program that is taken over
    pnr: u16,
    sent: Vec<(u16, Table)>,
    guides: Vec<Table>,
    dels: Vec<Del>,
    clean: usize,
    /// PIDs of elementary streams on air at the end
    airing: Vec<u16>,
}

fn gen_guide(ctx: &mut Ctx, mux: &Mux, pnr: u16) -> Table {
    let mut t = gen_table(ctx, Kind::Eit, Scale::Small);
    t.table_id = if t.schedule() { 0x50 } else { 0x4E };
    t.ext = pnr;
    t.tsid = mux.tsid;
    t.onid = mux.onid;
    if t.items.is_empty() {
        t.items.push(Item { start: 86_400, dur: 60, ..Item::default() });
    }
    t
}

fn gen_source(ctx: &mut Ctx) -> crate::pack::V<Source> {
    let mut mux = Mux::gen(ctx);
    let epochs = ctx.range(1, 3);
    let layout = Layout::draw(ctx);
    let by_lib = ctx.draw(2) == 1;
    let mut cc: BTreeMap<u16, u8> = BTreeMap::new();
    let mut pkts: Vec<Pkt> = Vec::new();
    let mut sent = Vec::new();
    let mut ready: Vec<(Table, Lib, Vec<Vec<u8>>)> = Vec::new();
    let mut marks = Vec::new();
    let mut guides: Vec<Table> = Vec::new();
    let mut sent_guides = Vec::new();
    let mut airing = Vec::new();
    for e in 0 .. epochs {
        if e > 0 {
            mux.change(ctx);
            for g in &mut guides {
                if ctx.draw(2) == 1 {
                    let mut n = gen_guide(ctx, &mux, g.ext);
                    if n.schedule() == g.schedule() {
                        n.version = (g.version + 1) & 31;
                        *g = n;
                        ctx.probe("guide_changed");
                    }
                }
            }
        }
        for p in &mux.programs {
            if !guides.iter().any(|g| g.ext == p.pmt.ext) && guides.len() < 6 {
                guides.push(gen_guide(ctx, &mux, p.pmt.ext));
            }
        }
        let mut tables = mux.tables();
        tables.extend(guides.iter().map(|g| (EIT_PID, g.clone())));
        for (_, t) in &tables {
            if !ready.iter().any(|(r, _, _)| r == t) {
                let lib = Lib::build(t, &mut ctx.sub());
                let fixed = if by_lib { Vec::new() } else { t.encode(ctx) };
                ready.push((t.clone(), lib, fixed));
            }
        }
        let all: Vec<u16> = mux.programs.iter().flat_map(|p| p.pmt.items.iter().map(|i| i.pid)).collect();
        let reps = if e + 1 == epochs { 3 } else { ctx.range(1, 2) };
        for _ in 0 .. reps {
            if e + 1 == epochs {
                marks.push(pkts.len());
            }
            let mut streams: BTreeMap<u16, Vec<Pkt>> = BTreeMap::new();
            for (pid, t) in &tables {
                let (_, lib, fixed) = ready.iter().find(|(r, _, _)| r == t).unwrap();
                let c = cc.entry(*pid).or_default();
                let p = if by_lib {
                    let (_, out) = emit(t, lib, *pid, c)?;
                    mark(&out, 0)
                } else {
                    packetise(ctx, fixed, *pid, c, &layout)
                };
                streams.entry(*pid).or_default().extend(p);
            }
            airing.clear();
            for &pid in all.iter().take(8) {
                let mut s = gen_es(ctx, pid).pkts;
                // counters go on
                let c = cc.entry(pid).or_default();
                for p in &mut s {
                    let now = if p.payload { *c } else { c.wrapping_sub(1) & 15 };
                    p.b[3] = (p.b[3] & 0xF0) | now;
                    if p.payload {
                        *c = (*c + 1) & 15;
                    }
                }
                streams.insert(pid, s);
                airing.push(pid);
            }
            pkts.extend(interleave(ctx, streams.into_iter().map(|x| x.1).collect()));
        }
        sent.extend(tables.into_iter().filter(|t| t.0 != EIT_PID));
        sent_guides.extend(guides.iter().cloned());
    }
    let pnr = mux.programs[ctx.idx(mux.programs.len())].pmt.ext;
    // two repetitions at least are undisturbed
    let clean = marks[ctx.idx(2)];
    let f = Faults::draw(ctx, Allow::All);
    let dels = transmit(ctx, &pkts, &f, 0, clean);
    Ok(Source { mux, pnr, sent, guides: sent_guides, dels, clean, airing })
}

// ---------------------------------------------------------------- remultiplexer

/// State for one source
struct Input {
    scan: Scanner,
    guide: Guide,
    /// table of the program, as received and what it is in the model
    pmt: Option<(Pmt, Table)>,
    service: Option<(SdtItem, Item)>,
    events: BTreeMap<u8, (Lib, Table)>,
    shift: u64,
}

struct Remux {
    tsid: u16,
    onid: u16,
    pids: BTreeMap<(usize, u16), u16>,
    next: u16,
    cc: BTreeMap<u16, u8>,
    /// versions by PID, table_id and extension, with the content they stand for
    versions: BTreeMap<(u16, u8, u16), (u8, Table)>,
    out: Vec<Packet>,
}

fn out_pnr(n: usize) -> u16 { 101 + n as u16 }
fn out_pmt(n: usize) -> u16 { 0x1000 + n as u16 }
fn out_lcn(n: usize) -> (u8, u16) { (1, 500 + n as u16) }

fn without_ca(l: &Descriptors) -> Descriptors {
    let mut d = Descriptors::default();
    for x in l.iter().filter(|x| x.tag() != 0x09) {
        d.push(x.clone());
    }
    d
}

fn copy(s: &SdtItem) -> SdtItem {
    SdtItem {
        pnr: s.pnr, eit_schedule_flag: s.eit_schedule_flag, eit_present_following_flag: s.eit_present_following_flag,
        running_status: s.running_status, free_ca_mode: s.free_ca_mode, descriptors: s.descriptors.clone(),
    }
}

fn model_without_ca(l: &[MDesc]) -> Vec<MDesc> { l.iter().filter(|d| d.tag() != 0x09).cloned().collect() }

impl Remux {
    fn pid(&mut self, n: usize, pid: u16) -> u16 {
        let next = &mut self.next;
        *self.pids.entry((n, pid)).or_insert_with(|| {
            *next += 1;
            *next
        })
    }

    /// Version of a table: the next one when its content changed
    fn version(&mut self, pid: u16, t: &mut Table) -> u8 {
        let key = (pid, t.table_id, if t.kind == Kind::Pmt || t.kind == Kind::Eit { t.ext } else { 0 });
        t.version = 0;
        let e = self.versions.entry(key).or_insert_with(|| (7, t.clone()));
        if e.1 != *t {
            *e = ((e.0 + 1) & 31, t.clone());
        }
        t.version = e.0;
        e.0
    }

    fn put(&mut self, pid: u16, mut lib: Lib, mut t: Table) -> Res {
        let v = self.version(pid, &mut t);
        lib.set_version(v);
        let c = self.cc.entry(pid).or_default();
        let (_, out) = emit(&t, &lib, pid, c)?;
        self.out.extend(out.chunks(188).map(|b| {
            let mut p = [0; 188];
            p.copy_from_slice(b);
            p
        }));
        Ok(())
    }

    /// One round of all tables
    fn tables(&mut self, ctx: &mut Ctx, inputs: &[Input]) -> Res {
        ctx.probe("tables_sent");
        let mut pat = Pat { tsid: self.tsid, ..Pat::default() };
        pat.items.push(PatItem { pnr: 0, pid: NIT_PID });
        let mut m_pat = Table { ext: self.tsid, items: vec![Item { id: 0, pid: NIT_PID, ..Item::default() }], ..Table::empty(Kind::Pat) };
        let mut sdt = Sdt { table_id: 0x42, tsid: self.tsid, onid: self.onid, ..Sdt::default() };
        let mut m_sdt = Table { ext: self.tsid, onid: self.onid, ..Table::empty(Kind::Sdt) };
        let mut lcn = Vec::new();
        for (n, i) in inputs.iter().enumerate() {
            if let Some((pmt, m)) = &i.pmt {
                pat.items.push(PatItem { pnr: out_pnr(n), pid: out_pmt(n) });
                m_pat.items.push(Item { id: out_pnr(n), pid: out_pmt(n), ..Item::default() });
                let mut o = Pmt { pnr: out_pnr(n), descriptors: without_ca(&pmt.descriptors), ..Default::default() };
                let mut t = Table { ext: out_pnr(n), descs: model_without_ca(&m.descs), items: m.items.clone(), ..Table::empty(Kind::Pmt) };
                for x in &pmt.items {
                    o.items.push(PmtItem { stream_type: x.stream_type, pid: self.pid(n, x.pid), descriptors: without_ca(&x.descriptors) });
                }
                for x in &mut t.items {
                    x.pid = self.pid(n, x.pid);
                    x.descs = model_without_ca(&x.descs);
                }
                o.pcr = if pmt.pcr == 0x1FFF { 0x1FFF } else { self.pid(n, pmt.pcr) };
                t.pcr = if m.pcr == 0x1FFF { 0x1FFF } else { self.pid(n, m.pcr) };
                self.put(out_pmt(n), Lib::Pmt(o), t)?;
            }
            if let Some((s, m)) = &i.service {
                let mut s = copy(s);
                s.pnr = out_pnr(n);
                s.free_ca_mode = 0;
                sdt.items.push(s);
                let mut m = m.clone();
                m.id = out_pnr(n);
                m.f[3] = 0;
                m_sdt.items.push(m);
            }
            for (e, m) in i.events.values() {
                let mut o = Lib::build(&Table { version: m.version, ..Table::empty(Kind::Eit) }, &mut ctx.sub());
                if let (Lib::Eit(o), Lib::Eit(e)) = (&mut o, e) {
                    o.table_id = e.table_id;
                    o.pnr = out_pnr(n);
                    o.tsid = self.tsid;
                    o.onid = self.onid;
                    o.items = e.items.clone();
                }
                self.put(EIT_PID, o, Table { ext: out_pnr(n), tsid: self.tsid, onid: self.onid, ..m.clone() })?;
            }
            lcn.push((out_pnr(n), out_lcn(n).0, out_lcn(n).1));
        }
        let mut nit = Table { ext: self.onid, ..Table::empty(Kind::Nit) };
        nit.items.push(Item { id: self.tsid, onid: self.onid, descs: vec![MDesc::Lcn(lcn)], ..Item::default() });
        let lib = Lib::build(&nit, &mut ctx.sub());
        self.put(NIT_PID, lib, nit)?;
        self.put(SDT_PID, Lib::Sdt(sdt), m_sdt)?;
        self.put(0, Lib::Pat(pat), m_pat)
    }

    /// Packet of an elementary stream
    fn forward(&mut self, ctx: &mut Ctx, n: usize, b: &Packet, shift: u64) -> Res {
        let to = self.pid(n, ts::get_pid(b));
        let c = self.cc.entry(to).or_default();
        let now = if ts::is_payload(b) { *c } else { c.wrapping_sub(1) & 15 };
        let mut o = *b;
        ts::set_pid(&mut o, to);
        ts::set_cc(&mut o, now);
        if ts::is_payload(b) {
            *c = (*c + 1) & 15;
        }
        if ts::is_pcr(b) {
            let v = ((u128::from(ts::get_pcr(b)) + u128::from(shift)) % WRAP) as u64;
            ts::set_pcr(&mut o, v);
        }
        // the same by the definition
        let mut w = *b;
        w[1] = (b[1] & 0xE0) | (to >> 8) as u8;
        w[2] = to as u8;
        w[3] = (b[3] & 0xF0) | now;
        let mut free = 0;
        if b[3] & 0x20 != 0 && b[4] >= 7 && b[5] & 0x10 != 0 {
            let f = b[6 .. 12].iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
            let v = ((u128::from(f >> 15) * 300 + u128::from(f & 0x1FF) + u128::from(shift)) % WRAP) as u64;
            let f = (v / 300) << 15 | v % 300;
            w[6 .. 12].copy_from_slice(&f.to_be_bytes()[2 ..]);
            free = 0x7E;
            ctx.probe("clock_moved");
        }
        ctx.checked();
        if (0 .. 188).any(|i| o[i] != w[i] && !(i == 10 && (o[i] ^ w[i]) & !free == 0)) {
            let i = (0 .. 188).find(|&i| o[i] != w[i]).unwrap();
            return fail("forwarded", format!("byte {} of a forwarded packet is {:02x} instead of {:02x}", i, o[i], w[i]));
        }
        self.out.push(o);
        Ok(())
    }
}

fn in_models<'a>(l: impl Iterator<Item = &'a Table>, t: &Lib, what: &str) -> crate::pack::V<Table> {
    let mut why = String::from("never sent");
    for s in l.filter(|s| s.version == t.version()) {
        match t.compare(s) {
            Ok(()) => return Ok(s.clone()),
            Err(e) => why = e,
        }
    }
    differ(what, why)
}

/// Next packet of a source, None at its end
fn next(r: &mut TsReader<SimSource>, log: &std::rc::Rc<std::cell::RefCell<Log>>, total: usize, left: usize) -> crate::pack::V<Option<Packet>> {
    let mut b = [0u8; 188];
    let mut idle = 0;
    loop {
        match r.read(&mut b) {
            Ok(188) => return Ok(Some(b)),
            Ok(0) => if log.borrow().pos == total {
                if left == 0 {
                    return Ok(None);
                }
                idle += 1;
                if idle > 200 {
                    return fail("reader-count", format!("{} packets missing", left));
                }
            },
            Ok(n) => return fail("reader-size", format!("read of a packet returned {}", n)),
            Err(_) => {}
        }
    }
}

pub fn c24(ctx: &mut Ctx) -> Res {
    let n = ctx.range(1, 3);
    let mut sources = Vec::new();
    for _ in 0 .. n {
        ctx.now = 0;
        sources.push(gen_source(ctx)?);
    }
    let mut readers = Vec::new();
    for s in &sources {
        let mut data = Vec::with_capacity(s.dels.len() * 188);
        for d in &s.dels {
            data.extend_from_slice(&d.b);
        }
        let faults = ctx.draw(3) == 2;
        let total = data.len();
        // a byte at a time is for C01
        let mut plan = draw_plan(ctx, faults);
        for step in &mut plan {
            if let Step::Give(n) = step {
                *n += 60;
            }
        }
        let src = SimSource::new(data, plan);
        let log = src.log.clone();
        readers.push((TsReader::new(src), log, total, 0usize));
    }
    let mut inputs: Vec<Input> = sources.iter().map(|_| Input {
        scan: Scanner::new(), guide: Guide::default(), pmt: None, service: None, events: BTreeMap::new(), shift: 0,
    }).collect();
    for i in &mut inputs {
        i.shift = if ctx.draw(3) == 0 { 0 } else { ctx.wide(WRAP as u64) };
    }
    let mut rm = Remux {
        tsid: ctx.edge(16) as u16, onid: ctx.edge(16) as u16, pids: BTreeMap::new(), next: 0x200,
        cc: BTreeMap::new(), versions: BTreeMap::new(), out: Vec::new(),
    };
    ctx.now = 0;
    let every = ctx.pick(&[40u32, 15, 100, 200]);
    let mut alive: Vec<usize> = (0 .. n).collect();
    let mut refs: Vec<BTreeMap<u16, RefRx>> = vec![BTreeMap::new(); n];
    let mut hidden = false;
    while !alive.is_empty() {
        let k = ctx.idx(alive.len());
        let i = alive[k];
        let run = ctx.range(1, 30);
        for _ in 0 .. run {
            let (r, log, total, at) = &mut readers[i];
            let s = &sources[i];
            let b = match next(r, log, *total, s.dels.len() - *at)? {
                Some(b) => b,
                None => {
                    alive.remove(k);
                    break;
                }
            };
            if *at >= s.dels.len() || b != s.dels[*at].b {
                return fail("reader-content", format!("packet {} of source {} is not the one sent", at, i));
            }
            let d = &s.dels[*at];
            *at += 1;
            ctx.now = ctx.now.max(d.t);
            ctx.ev("packet", i as u64, d.src as u64, fnv(23, &b));
            let pid = ts::get_pid(&b);
            let by_ref = refs[i].entry(pid).or_default().feed(&b);
            if d.src != NONE && d.src >= s.clean && by_ref.len() > 1 && by_ref[0][1] & 0x80 == 0 {
                ctx.probe("hidden_by_a_section_without_checksum");
                hidden = true;
            }
            let input = &mut inputs[i];
            if pid == EIT_PID {
                if let Some((key, lib)) = input.guide.feed(&b) {
                    ctx.checked();
                    let m = in_models(s.guides.iter().filter(|g| g.table_id == key.0 && g.ext == key.1), &lib, "guide")?;
                    if key.1 == s.pnr {
                        let mut lib = lib;
                        if let Lib::Eit(e) = &mut lib {
                            e.table_id = key.0;
                        }
                        input.events.insert(key.0, (lib, m));
                    }
                }
            } else if let Some((pid, t)) = input.scan.feed(ctx, &b) {
                ctx.checked();
                let m = in_models(s.sent.iter().filter(|x| x.0 == pid).map(|x| &x.1), &t, "table")?;
                match t {
                    Lib::Pmt(t) if t.pnr == s.pnr => {
                        ctx.probe("program_taken_over");
                        input.pmt = Some((t, m));
                    }
                    Lib::Sdt(t) => {
                        let x = t.items.iter().find(|x| x.pnr == s.pnr);
                        let y = m.items.iter().find(|x| x.id == s.pnr);
                        input.service = x.and_then(|x| y.map(|y| (copy(x), y.clone())));
                    }
                    _ => {}
                }
            }
            if !ts::is_error(&b) && input.pmt.as_ref().map_or(false, |p| p.0.items.iter().any(|x| x.pid == pid)) {
                let shift = input.shift;
                rm.forward(ctx, i, &b, shift)?;
                ctx.probe("packet_forwarded");
            }
            if ctx.chance(1, every) && rm.out.len() < LONG {
                rm.tables(ctx, &inputs)?;
            }
        }
    }
    for (_, log, _, _) in &readers {
        let l = log.borrow();
        let mut first = 300;
        for (k, s) in l.seen.iter().enumerate().filter(|(_, s)| matches!(s, Seen::Err(..) | Seen::End)) {
            // enough to tell the schedules apart
            first -= 1;
            if first == 0 {
                break;
            }
            match s {
                Seen::End => ctx.fault("source_end", k as u64, 0),
                _ => ctx.fault("source_error", k as u64, 0),
            }
        }
    }

    // what the sources carry at their end
    let mut want = Vec::new();
    for (i, s) in sources.iter().enumerate() {
        ctx.checked();
        let guides: Vec<&Table> = [0x4E, 0x50].iter().filter_map(|&t| s.guides.iter().filter(|g| g.table_id == t && g.ext == s.pnr).last()).collect();
        let mut c = s.mux.line_up().into_iter().find(|c| c.pnr == s.pnr).unwrap();
        let m = s.mux.programs.iter().find(|p| p.pmt.ext == s.pnr).unwrap();
        let input = &inputs[i];
        let done = input.pmt.as_ref().map_or(false, |p| p.1 == m.pmt) && input.service.as_ref().map_or(false, |x| x.1 == m.service) &&
            guides.iter().all(|g| input.events.get(&g.table_id).map_or(false, |e| e.1 == **g));
        if !done {
            if hidden {
                return Ok(());
            }
            return fail("not-taken-over", format!("program {} of source {}: PMT {} service {} guide {} of {} after two undisturbed repetitions", s.pnr, i,
                input.pmt.is_some(), input.service.is_some(), input.events.len(), guides.len()));
        }
        c.pnr = out_pnr(i);
        c.lcn = Some(out_lcn(i));
        c.flags[3] = 0;
        c.ca.clear();
        if c.pcr != 0x1FFF {
            c.pcr = rm.pid(i, c.pcr);
        }
        for x in &mut c.streams {
            x.pid = rm.pid(i, x.pid);
            x.ca.clear();
        }
        want.push(c);
        for p in &s.airing {
            ctx.state((n as u64) << 32 | u64::from(rm.pids.contains_key(&(i, *p))) << 16 | (want.last().unwrap().streams.len() as u64) << 8 | guides.len() as u64);
        }
    }
    let clean = rm.out.len();
    for _ in 0 .. 2 {
        rm.tables(ctx, &inputs)?;
    }

    // counters of the new multiplex
    let mut last: BTreeMap<u16, u8> = BTreeMap::new();
    for (k, b) in rm.out.iter().enumerate() {
        let pid = be16(&b[1 ..]) & 0x1FFF;
        if b[0] != 0x47 {
            return fail("output-sync", format!("packet {} begins with {:02x}", k, b[0]));
        }
        if b[3] & 0x10 != 0 {
            if let Some(c) = last.insert(pid, b[3] & 15) {
                if (c + 1) & 15 != b[3] & 15 {
                    return fail("output-counter", format!("packet {}: counter {} of PID {} follows {}", k, b[3] & 15, pid, c));
                }
            }
        }
    }

    // the viewer
    let pkts: Vec<Pkt> = rm.out.iter().map(|b| Pkt { b: *b, pid: be16(&b[1 ..]) & 0x1FFF, ends: None, starts: vec![], payload: b[3] & 0x10 != 0, cut: false }).collect();
    let f = Faults::draw(ctx, Allow::NoDamage);
    let dels = transmit(ctx, &pkts, &f, 0, clean);
    let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
    let raw = if ctx.draw(3) == 2 { through_reader(ctx, &raw)? } else { raw };
    let mut scan = Scanner::new();
    let mut guide = Guide::default();
    for b in &raw {
        if ts::get_pid(b) == EIT_PID {
            guide.feed(b);
        } else {
            scan.feed(ctx, b);
        }
        ctx.ev("viewer", fnv(29, b), 0, 0);
    }
    ctx.checked();
    match scan.line_up(rm.tsid) {
        Err(e) => return fail("viewer-incomplete", format!("{} after two undisturbed repetitions", e)),
        Ok(got) => if got != want {
            return match got.iter().zip(&want).position(|(a, b)| a != b) {
                Some(k) => differ("line-up", format!("{:?} instead of {:?}", got[k], want[k])),
                None => differ("line-up", format!("{} channels instead of {}", got.len(), want.len())),
            };
        },
    }
    for (i, input) in inputs.iter().enumerate() {
        for (tid, (_, m)) in &input.events {
            ctx.checked();
            let v = rm.versions[&(EIT_PID, *tid, out_pnr(i))].0;
            let m = Table { ext: out_pnr(i), tsid: rm.tsid, onid: rm.onid, version: v, ..m.clone() };
            match guide.get((*tid, out_pnr(i))) {
                None => return fail("viewer-guide", format!("no events {:02x} of service {}", tid, out_pnr(i))),
                Some(g) => if let Err(e) = g.compare(&m) {
                    return differ("guide", e);
                },
            }
        }
    }
    ctx.probe("viewer_complete");
    Ok(())
}
