//! C23: channel scan over a multiplex that changes while it is received

use std::collections::BTreeMap;

use mpegts::{es::StreamType, psi::{Descriptors, Desc09, Desc0A, Desc48, Desc52, Desc83, Psi}};

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    model::*,
    pack::*,
    real::*,
    wire::*,
};

use super::{carousel::{usable, Collector}, section::gen_stream, tables::{differ, emit}};

const NIT_PID: u16 = 0x10;
const SDT_PID: u16 = 0x11;

#[derive(Clone, PartialEq, Debug)]
pub struct Stream { pub pid: u16, class: &'static str, langs: Vec<(String, u8)>, id: Option<u8>, pub ca: Vec<(u16, u16)> }

#[derive(Clone, PartialEq, Debug)]
pub struct Channel { pub pnr: u16, name: String, provider: String, pub lcn: Option<(u8, u16)>, pub pcr: u16, stype: u8, pub flags: [u8; 4], pub ca: Vec<(u16, u16)>, pub streams: Vec<Stream> }

// ---------------------------------------------------------------- broadcaster

#[derive(Clone)]
pub struct Program { pub pmt_pid: u16, pub pmt: Table, pub service: Item, lcn: Option<(u8, u16)> }

#[derive(Clone)]
pub struct Mux {
    pub tsid: u16,
    pub onid: u16,
    versions: [u8; 3],
    pub programs: Vec<Program>,
    next_pid: u16,
    next_pnr: u16,
    /// NIT and SDT of other networks share the PIDs
    others: Vec<(u16, Table)>,
}

/// What EN 300 468 and ISO 13818-1 make of stream type and descriptors
fn classify(stype: u8, descs: &[MDesc]) -> &'static str {
    let has = |t: u8| descs.iter().any(|d| d.tag() == t);
    match stype {
        0x01 | 0x02 | 0x10 | 0x1B | 0x24 => "video",
        0x03 | 0x04 | 0x0F | 0x11 => "audio",
        0x05 if has(0x6F) => "ait",
        0x06 if has(0x56) => "teletext",
        0x06 if has(0x59) => "subtitles",
        0x06 if has(0x6A) || has(0x7A) || has(0x81) => "audio",
        _ => "data",
    }
}

fn class_of(t: StreamType) -> &'static str {
    match t {
        StreamType::VIDEO => "video",
        StreamType::AUDIO => "audio",
        StreamType::AIT => "ait",
        StreamType::SUB => "subtitles",
        StreamType::TTX => "teletext",
        StreamType::DATA => "data",
    }
}

fn cas(l: &[MDesc]) -> Vec<(u16, u16)> {
    l.iter().filter_map(|d| match d { MDesc::Ca { caid, pid, .. } => Some((*caid, *pid)), _ => None }).collect()
}

fn cas_of(l: &Descriptors) -> Vec<(u16, u16)> {
    l.iter().filter(|d| d.tag() == 0x09).map(|d| d.downcast_ref::<Desc09>()).map(|d| (d.caid, d.pid)).collect()
}

/// Filler that decides nothing
fn neutral(ctx: &mut Ctx) -> Vec<MDesc> {
    if ctx.draw(2) == 0 {
        return Vec::new();
    }
    gen_descs(ctx, 40, 2).into_iter().filter(|d| ![0x09, 0x0A, 0x48, 0x52, 0x83, 0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F].contains(&d.tag())).collect()
}

fn gen_es(ctx: &mut Ctx, pid: u16) -> Item {
    let mut d = neutral(ctx);
    let stype = match ctx.draw(4) {
        0 => ctx.pick(&[0x1B, 0x02, 0x24, 0x10, 0x01]),
        1 => ctx.pick(&[0x03, 0x04, 0x0F, 0x11]),
        2 => ctx.pick(&[0x06, 0x05]),
        _ => ctx.draw(256) as u8,
    };
    if ctx.draw(2) == 1 {
        let tag = ctx.pick(&[0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F]);
        let n = ctx.range(0, 6);
        let mut data = vec![0; n];
        ctx.sub().fill(&mut data);
        let at = ctx.idx(d.len() + 1);
        d.insert(at, MDesc::Raw { tag, data });
    }
    if ctx.draw(2) == 1 {
        let mut r = ctx.sub();
        let l = [b'a' + r.below(26) as u8, b'a' + r.below(26) as u8, b'a' + r.below(26) as u8];
        let at = ctx.idx(d.len() + 1);
        let mut l = vec![(l, r.below(4) as u8)];
        if ctx.draw(4) == 3 {
            l.push((*b"und", r.byte()));
        }
        d.insert(at, MDesc::Lang(l));
    }
    if ctx.draw(4) == 3 {
        let at = ctx.idx(d.len() + 1);
        d.insert(at, MDesc::StreamId(ctx.draw(256) as u8));
    }
    if ctx.draw(4) == 3 {
        let at = ctx.idx(d.len() + 1);
        d.insert(at, MDesc::Ca { caid: ctx.edge(16) as u16, pid: ctx.edge(13) as u16, data: Vec::new() });
    }
    Item { pid, stype, descs: d, ..Item::default() }
}

fn name(ctx: &mut Ctx) -> Text {
    for _ in 0 .. 4 {
        let t = gen_text(ctx, 40);
        if t.chars(false).is_some() {
            return t;
        }
    }
    Text::default()
}

impl Mux {
    pub fn gen(ctx: &mut Ctx) -> Mux {
        let mut m = Mux {
            tsid: ctx.edge(16) as u16, onid: ctx.edge(16) as u16,
            versions: [ctx.draw(32) as u8, ctx.draw(32) as u8, ctx.draw(32) as u8],
            programs: Vec::new(), next_pid: 0x20, next_pnr: 1, others: Vec::new(),
        };
        let n = if ctx.rare(20) { ctx.range(1, 40) } else { ctx.range(1, 6) };
        for _ in 0 .. n {
            m.add(ctx);
        }
        if ctx.draw(3) == 2 {
            let mut t = gen_table(ctx, Kind::Sdt, Scale::Any);
            t.table_id = 0x46;
            m.others.push((SDT_PID, t));
        }
        if ctx.draw(3) == 2 {
            let mut t = gen_table(ctx, Kind::Nit, Scale::Any);
            t.table_id = 0x41;
            m.others.push((NIT_PID, t));
        }
        m
    }

    fn pid(&mut self, ctx: &mut Ctx) -> u16 {
        self.next_pid += 1 + ctx.draw(16) as u16;
        self.next_pid
    }

    fn add(&mut self, ctx: &mut Ctx) {
        let pnr = self.next_pnr;
        self.next_pnr += 1 + ctx.draw(300) as u16;
        let pmt_pid = self.pid(ctx);
        let mut pmt = Table { version: ctx.draw(32) as u8, ext: pnr, ..Table::empty(Kind::Pmt) };
        pmt.descs = neutral(ctx);
        let n = ctx.range(0, 6);
        for _ in 0 .. n {
            let p = self.pid(ctx);
            pmt.items.push(gen_es(ctx, p));
        }
        pmt.pcr = pmt.items.first().map_or(0x1FFF, |i| i.pid);
        let mut service = Item { id: pnr, f: [ctx.draw(2) as u8, ctx.draw(2) as u8, ctx.draw(8) as u8, ctx.draw(2) as u8], ..Item::default() };
        service.descs = neutral(ctx);
        let at = ctx.idx(service.descs.len() + 1);
        let stype = if ctx.draw(2) == 0 { 1 } else { ctx.draw(256) as u8 };
        service.descs.insert(at, MDesc::Service { stype, provider: name(ctx), name: name(ctx) });
        let lcn = if ctx.draw(4) == 3 { None } else { Some((ctx.draw(2) as u8, ctx.edge(10) as u16)) };
        self.programs.push(Program { pmt_pid, pmt, service, lcn });
    }

    fn bump(&mut self, k: usize) { self.versions[k] = (self.versions[k] + 1) & 31; }

    /// One change on air; versions follow
    pub fn change(&mut self, ctx: &mut Ctx) -> &'static str {
        let n = self.programs.len();
        let at = ctx.idx(n);
        match ctx.draw(8) {
            0 => {
                self.add(ctx);
                self.bump(0);
                self.bump(1);
                self.bump(2);
                "program_added"
            }
            1 if n > 1 => {
                self.programs.remove(at);
                self.bump(0);
                self.bump(1);
                self.bump(2);
                "program_removed"
            }
            2 => {
                let p = self.pid(ctx);
                self.programs[at].pmt_pid = p;
                self.bump(0);
                "pmt_moved"
            }
            3 => {
                let p = self.pid(ctx);
                let es = gen_es(ctx, p);
                let m = &mut self.programs[at].pmt;
                let i = ctx.idx(m.items.len() + 1);
                if i < m.items.len() && ctx.draw(2) == 1 {
                    m.items[i] = es;
                } else if m.items.len() < 12 {
                    m.items.insert(i, es);
                } else {
                    m.items.pop();
                }
                m.pcr = m.items.first().map_or(0x1FFF, |i| i.pid);
                m.version = (m.version + 1) & 31;
                "streams_changed"
            }
            4 => {
                let t = name(ctx);
                for d in &mut self.programs[at].service.descs {
                    if let MDesc::Service { name, .. } = d {
                        *name = t.clone();
                    }
                }
                self.bump(1);
                "service_renamed"
            }
            5 => {
                self.programs[at].lcn = Some((ctx.draw(2) as u8, ctx.edge(10) as u16));
                self.bump(2);
                "channel_renumbered"
            }
            6 => {
                // scrambling, running status
                let p = &mut self.programs[at];
                let f = &mut p.service.f;
                f[2] = ctx.draw(8) as u8;
                f[3] ^= 1;
                let m = &mut p.pmt;
                m.descs.retain(|d| d.tag() != 0x09);
                if f[3] == 1 {
                    m.descs.push(MDesc::Ca { caid: ctx.edge(16) as u16, pid: ctx.edge(13) as u16, data: Vec::new() });
                }
                m.version = (m.version + 1) & 31;
                self.bump(1);
                "scrambling_changed"
            }
            _ => {
                // two programs exchange the PIDs of their tables
                let b = ctx.idx(n);
                if at == b {
                    return "none";
                }
                let p = self.programs[at].pmt_pid;
                self.programs[at].pmt_pid = self.programs[b].pmt_pid;
                self.programs[b].pmt_pid = p;
                self.bump(0);
                "pmt_pids_exchanged"
            }
        }
    }

    pub fn tables(&self) -> Vec<(u16, Table)> {
        let mut v = Vec::new();
        let mut pat = Table { version: self.versions[0], ext: self.tsid, ..Table::empty(Kind::Pat) };
        pat.items.push(Item { id: 0, pid: NIT_PID, ..Item::default() });
        let mut sdt = Table { version: self.versions[1], ext: self.tsid, onid: self.onid, ..Table::empty(Kind::Sdt) };
        let mut nit = Table { version: self.versions[2], ext: self.onid, ..Table::empty(Kind::Nit) };
        let mut entry = Item { id: self.tsid, onid: self.onid, ..Item::default() };
        for c in self.programs.chunks(50) {
            let l: Vec<(u16, u8, u16)> = c.iter().filter_map(|p| p.lcn.map(|n| (p.pmt.ext, n.0, n.1))).collect();
            entry.descs.push(MDesc::Services(c.iter().map(|p| (p.pmt.ext, 1)).collect()));
            entry.descs.push(MDesc::Lcn(l));
        }
        nit.items.push(entry);
        for p in &self.programs {
            pat.items.push(Item { id: p.pmt.ext, pid: p.pmt_pid, ..Item::default() });
            sdt.items.push(p.service.clone());
            v.push((p.pmt_pid, p.pmt.clone()));
        }
        v.push((0, pat));
        v.push((SDT_PID, sdt));
        v.push((NIT_PID, nit));
        v.extend(self.others.iter().cloned());
        v
    }

    pub fn line_up(&self) -> Vec<Channel> {
        self.programs.iter().map(|p| {
            let (stype, provider, name) = p.service.descs.iter().find_map(|d| match d {
                MDesc::Service { stype, provider, name } => Some((*stype, provider.chars(false).unwrap(), name.chars(false).unwrap())),
                _ => None,
            }).unwrap();
            Channel {
                pnr: p.pmt.ext, name, provider, lcn: p.lcn, pcr: p.pmt.pcr, stype, flags: p.service.f, ca: cas(&p.pmt.descs),
                streams: p.pmt.items.iter().map(|i| Stream {
                    pid: i.pid,
                    class: classify(i.stype, &i.descs),
                    langs: i.descs.iter().find_map(|d| match d {
                        MDesc::Lang(l) => Some(l.iter().map(|x| (String::from_utf8(x.0.to_vec()).unwrap(), x.1)).collect()),
                        _ => None,
                    }).unwrap_or_default(),
                    id: i.descs.iter().find_map(|d| match d { MDesc::StreamId(v) => Some(*v), _ => None }),
                    ca: cas(&i.descs),
                }).collect(),
            }
        }).collect()
    }
}

// ---------------------------------------------------------------- receiver

struct Slot { rx: Psi, last: BTreeMap<(u8, u16, u8), Psi>, col: Collector, done: bool }

impl Slot {
    fn new(kind: Kind, first: u8) -> Slot { Slot { rx: Psi::default(), last: BTreeMap::new(), col: Collector::new(kind, first), done: false } }
}

#[derive(Default)]
pub struct Scanner {
    fixed: BTreeMap<u16, Slot>,
    /// by PID with the program number
    pmt: BTreeMap<u16, (u16, Slot)>,
}

impl Scanner {
    pub fn new() -> Scanner {
        let mut s = Scanner::default();
        s.fixed.insert(0, Slot::new(Kind::Pat, 0x00));
        s.fixed.insert(NIT_PID, Slot::new(Kind::Nit, 0x40));
        s.fixed.insert(SDT_PID, Slot::new(Kind::Sdt, 0x42));
        s
    }

    pub fn table(&self, pid: u16) -> Option<Lib> {
        self.fixed.get(&pid).and_then(|s| if s.col.complete() { Some(s.col.assemble()) } else { None })
    }

    /// Packet of the multiplex. Returns the table completed by it with its PID.
    pub fn feed(&mut self, ctx: &mut Ctx, b: &Packet) -> Option<(u16, Lib)> {
        let pid = be16(&b[1 ..]) & 0x1FFF;
        let (want, slot) = if let Some(s) = self.fixed.get_mut(&pid) {
            (None, s)
        } else {
            let (pnr, s) = self.pmt.get_mut(&pid)?;
            (Some(*pnr), s)
        };
        slot.rx.mux(b);
        if b[3] & 0x10 == 0 || !usable(&slot.rx, slot.col.kind) || slot.rx.buffer[0] != slot.col.first {
            return None;
        }
        let ext = be16(&slot.rx.buffer[3 ..]);
        if want.map_or(false, |w| w != ext) {
            return None;
        }
        let key = (slot.rx.buffer[0], ext, slot.rx.buffer[6]);
        // nothing to do for a repetition
        if slot.done && slot.last.get(&key).map_or(false, |l| *l == slot.rx) {
            ctx.probe("repetition_skipped");
            return None;
        }
        let v = slot.col.version;
        slot.col.put(&slot.rx);
        if v != slot.col.version {
            slot.last.clear();
        }
        slot.last.insert(key, slot.rx.clone());
        slot.done = slot.col.complete();
        if !slot.done {
            return None;
        }
        let t = slot.col.assemble();
        if let (0, Lib::Pat(p)) = (pid, &t) {
            let map: BTreeMap<u16, u16> = p.items.iter().filter(|i| i.pnr != 0).map(|i| (i.pid, i.pnr)).collect();
            self.pmt.retain(|pid, (pnr, _)| map.get(pid) == Some(pnr));
            for (pid, pnr) in map {
                self.pmt.entry(pid).or_insert_with(|| (pnr, Slot::new(Kind::Pmt, 0x02)));
            }
        }
        Some((pid, t))
    }

    pub fn line_up(&self, tsid: u16) -> Result<Vec<Channel>, String> {
        let (pat, sdt, nit) = match (self.table(0), self.table(SDT_PID), self.table(NIT_PID)) {
            (Some(Lib::Pat(p)), Some(Lib::Sdt(s)), Some(Lib::Nit(n))) => (p, s, n),
            (p, s, n) => return Err(format!("PAT {} SDT {} NIT {}", p.is_some(), s.is_some(), n.is_some())),
        };
        let mut lcn = BTreeMap::new();
        for i in nit.items.iter().filter(|i| i.tsid == tsid) {
            for d in i.descriptors.iter().filter(|d| d.tag() == 0x83) {
                for x in &d.downcast_ref::<Desc83>().items {
                    lcn.insert(x.service_id, (x.visible, x.lcn));
                }
            }
        }
        let mut out = Vec::new();
        for p in pat.items.iter().filter(|p| p.pnr != 0) {
            let pmt = match self.pmt.get(&p.pid) {
                Some((_, s)) if s.col.complete() => match s.col.assemble() {
                    Lib::Pmt(t) => t,
                    _ => unreachable!(),
                },
                _ => return Err(format!("no PMT of program {}", p.pnr)),
            };
            let s = match sdt.items.iter().find(|s| s.pnr == p.pnr) {
                Some(s) => s,
                None => return Err(format!("no service {}", p.pnr)),
            };
            let d = match s.descriptors.iter().find(|d| d.tag() == 0x48) {
                Some(d) => d.downcast_ref::<Desc48>(),
                None => return Err(format!("no name of service {}", p.pnr)),
            };
            out.push(Channel {
                pnr: p.pnr, name: d.name.to_string(), provider: d.provider.to_string(), lcn: lcn.get(&p.pnr).copied(), pcr: pmt.pcr, stype: d.service_type,
                flags: [s.eit_schedule_flag, s.eit_present_following_flag, s.running_status, s.free_ca_mode], ca: cas_of(&pmt.descriptors),
                streams: pmt.items.iter().map(|i| Stream {
                    pid: i.pid,
                    class: class_of(i.get_stream_type()),
                    langs: i.descriptors.iter().find(|d| d.tag() == 0x0A).map(|d| {
                        d.downcast_ref::<Desc0A>().items.iter().map(|x| (x.code.to_string(), x.audio_type)).collect()
                    }).unwrap_or_default(),
                    id: i.descriptors.iter().find(|d| d.tag() == 0x52).map(|d| d.downcast_ref::<Desc52>().tag),
                    ca: cas_of(&i.descriptors),
                }).collect(),
            });
        }
        Ok(out)
    }
}

// ---------------------------------------------------------------- run

pub fn c23(ctx: &mut Ctx) -> Res {
    let mut m = Mux::gen(ctx);
    let epochs = ctx.range(1, 4);
    let by_lib = ctx.draw(2) == 1;
    let layout = Layout::draw(ctx);
    let mut cc: BTreeMap<u16, u8> = BTreeMap::new();
    let mut pkts: Vec<Pkt> = Vec::new();
    let mut sent: Vec<(u16, Table)> = Vec::new();
    let mut ready: Vec<(Table, Lib, Vec<Vec<u8>>)> = Vec::new();
    let mut marks = Vec::new();
    for e in 0 .. epochs {
        if e > 0 {
            let n = ctx.range(1, 3);
            for _ in 0 .. n {
                let what = m.change(ctx);
                if what != "none" {
                    ctx.probe(what);
                }
            }
        }
        let tables = m.tables();
        // an unchanged table keeps its sections
        for (_, t) in &tables {
            if !ready.iter().any(|(r, _, _)| r == t) {
                let lib = Lib::build(t, &mut ctx.sub());
                let fixed = if by_lib { Vec::new() } else { t.encode(ctx) };
                ready.push((t.clone(), lib, fixed));
            }
        }
        let reps = if e + 1 == epochs { ctx.range(3, 5) } else { ctx.range(1, 3) };
        for _ in 0 .. reps {
            if e + 1 == epochs {
                marks.push(pkts.len());
            }
            let mut streams: BTreeMap<u16, Vec<Pkt>> = BTreeMap::new();
            for (pid, t) in &tables {
                let (_, lib, fixed) = ready.iter().find(|(r, _, _)| r == t).unwrap();
                let c = cc.entry(*pid).or_default();
                let p = if by_lib {
                    let (_, out) = emit(t, lib, *pid, c)?;
                    mark(&out, 0)
                } else {
                    packetise(ctx, fixed, *pid, c, &layout)
                };
                streams.entry(*pid).or_default().extend(p);
            }
            let mut streams: Vec<Vec<Pkt>> = streams.into_iter().map(|x| x.1).collect();
            if ctx.draw(3) == 2 {
                streams.push(gen_stream(ctx, 0x1FF0, false, 3).pkts);
            }
            pkts.extend(interleave(ctx, streams));
        }
        sent.extend(tables);
    }
    let k = ctx.idx(marks.len() - 2);
    let clean = marks[k];
    let deadline = marks.get(k + 2).copied().unwrap_or(pkts.len());
    let f = if ctx.draw(5) == 0 { Faults::none() } else { Faults::some(ctx, Allow::All) };
    let mut dels = transmit(ctx, &pkts, &f, 0, clean);
    if ctx.draw(4) == 3 {
        let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
        for (d, b) in dels.iter_mut().zip(through_reader(ctx, &raw)?) {
            d.b = b;
        }
    }
    let restarts = ctx.draw(3) == 2;
    let want = m.line_up();
    ctx.state((epochs as u64) << 32 | (want.len() as u64) << 16 | (f.any() as u64) << 8 | (want.iter().map(|c| c.streams.len()).sum::<usize>() as u64).min(255));
    let mut scan = Scanner::new();
    let mut refs: BTreeMap<u16, RefRx> = BTreeMap::new();
    let mut hidden = false;
    for d in &dels {
        ctx.now = d.t;
        // bytes damaged to a section without checksum may end in front of a real one
        let by_ref = refs.entry(be16(&d.b[1 ..]) & 0x1FFF).or_default().feed(&d.b);
        if d.src != NONE && d.src >= clean && by_ref.len() > 1 && by_ref[0][1] & 0x80 == 0 {
            ctx.probe("hidden_by_a_section_without_checksum");
            hidden = true;
        }
        if restarts && d.src != NONE && d.src < clean && ctx.draw(200) == 199 {
            ctx.fault("receiver_restart", scan.pmt.len() as u64, 0);
            scan = Scanner::new();
        }
        let got = scan.feed(ctx, &d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(21, &d.b));
        if let Some((pid, t)) = got {
            ctx.checked();
            ctx.probe("table_completed");
            let mut why = String::new();
            let ok = sent.iter().any(|(p, s)| *p == pid && s.version == t.version() && match t.compare(s) {
                Ok(()) => true,
                Err(e) => {
                    why = e;
                    false
                }
            });
            if !ok {
                return differ("collected table", format!("PID {}: {}", pid, why));
            }
        }
        if d.src == deadline - 1 {
            break;
        }
    }
    ctx.checked();
    match scan.line_up(m.tsid) {
        Err(_) if hidden => Ok(()),
        Err(e) => fail("scan-incomplete", format!("{} after two undisturbed repetitions", e)),
        Ok(got) if got == want => Ok(()),
        Ok(got) => {
            let n = got.iter().zip(&want).position(|(a, b)| a != b);
            match n {
                Some(n) => differ("line-up", format!("{:?} instead of {:?}", got[n], want[n])),
                None => differ("line-up", format!("{} channels instead of {}", got.len(), want.len())),
            }
        }
    }
}
