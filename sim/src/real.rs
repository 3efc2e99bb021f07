//! Bridge between the model and the library.

use mpegts::{psi::*, reader::{TsDrain, TsRead, TsReader}, textcode::StringDVB};

use crate::{
    ctx::{fail, Ctx, Rng},
    model::{Item, Kind, MDesc, Table, Text},
    pack::{Packet, V},
    source::{draw_plan, SimSource, Step},
};

// ---------------------------------------------------------------- model -> library

pub fn text(t: &Text, r: &mut Rng) -> StringDVB {
    if t.bytes.is_empty() {
        return match r.below(3) {
            0 => StringDVB::default(),
            1 => StringDVB::from_str("", 0),
            _ => StringDVB::from_str("", 5),
        };
    }
    match t.chars(false) {
        Some(s) if r.below(2) == 0 => StringDVB::from_str(&s, t.cp),
        _ => StringDVB::from(&t.wire()[..]),
    }
}

fn lang(l: &[u8; 3]) -> StringDVB { StringDVB::from(&l[..]) }

pub fn desc(d: &MDesc, r: &mut Rng) -> Descriptor {
    match d {
        MDesc::Ca { caid, pid, data } => Desc09 { caid: *caid, pid: *pid, data: data.clone() }.into(),
        MDesc::Lang(l) => Desc0A { items: l.iter().map(|(c, t)| Desc0Ai { code: lang(c), audio_type: *t }).collect() }.into(),
        MDesc::Bitrate(b) => Desc0E { bitrate: *b }.into(),
        MDesc::NetName(t) => Desc40 { name: text(t, r) }.into(),
        MDesc::Services(l) => Desc41 { items: l.iter().map(|(i, t)| Desc41i { service_id: *i, service_type: *t }).collect() }.into(),
        MDesc::Sat { freq, orbital, we, pol, rof, s2, modulation, rate, fec } => Desc43 {
            frequency: *freq, orbital_position: *orbital, west_east_flag: *we, polarization: *pol, rof: *rof,
            s2: *s2, modulation: *modulation, symbol_rate: *rate, fec: *fec,
        }.into(),
        MDesc::Cable { freq, outer, modulation, rate, fec } => Desc44 {
            frequency: *freq, fec_outer: *outer, modulation: *modulation, symbol_rate: *rate, fec: *fec,
        }.into(),
        MDesc::Service { stype, provider, name } => Desc48 { service_type: *stype, provider: text(provider, r), name: text(name, r) }.into(),
        MDesc::Short { lang: l, name, text: t } => Desc4D { lang: lang(l), name: text(name, r), text: text(t, r) }.into(),
        MDesc::Extended { number, last, lang: l, items, text: t } => Desc4E {
            number: *number, last_number: *last, lang: lang(l),
            items: items.iter().map(|(a, b)| (text(a, r), text(b, r))).collect(),
            text: text(t, r),
        }.into(),
        MDesc::StreamId(t) => Desc52 { tag: *t }.into(),
        MDesc::TimeOffset(l) => Desc58 { items: l.iter().map(|o| Desc58i {
            country_code: lang(&o.country), region_id: o.region, offset_polarity: o.polarity, offset: o.offset,
            time_of_change: o.change, next_offset: o.next,
        }).collect() }.into(),
        MDesc::Terrestrial { freq, f } => Desc5A {
            frequency: *freq, bandwidth: f[0], priority: f[1], time_slicing: f[2], mpe_fec: f[3], modulation: f[4],
            hierarchy: f[5], code_rate_hp: f[6], code_rate_lp: f[7], guard_interval: f[8], transmission: f[9],
            other_frequency_flag: f[10],
        }.into(),
        MDesc::Lcn(l) => Desc83 { items: l.iter().map(|(i, v, n)| Desc83i { service_id: *i, visible: *v, lcn: *n }).collect() }.into(),
        MDesc::Raw { tag, data } => DescRaw { tag: *tag, data: data.clone() }.into(),
    }
}

/// Changes a field of a descriptor in place, of the library's object and of the model
pub fn edit_desc(ctx: &mut Ctx, d: &mut Descriptor, m: &mut MDesc) -> bool {
    let v = ctx.draw(256) as u8;
    match m {
        MDesc::Ca { pid, .. } => {
            *pid = ctx.edge(13) as u16;
            d.downcast_mut::<Desc09>().pid = *pid;
        }
        MDesc::Lang(l) if !l.is_empty() => {
            let n = ctx.idx(l.len());
            l[n].1 = v;
            d.downcast_mut::<Desc0A>().items[n].audio_type = v;
        }
        MDesc::Bitrate(b) => {
            *b = ctx.edge(22) as u32;
            d.downcast_mut::<Desc0E>().bitrate = *b;
        }
        MDesc::NetName(t) => {
            t.cp = 0;
            t.bytes.clear();
            d.downcast_mut::<Desc40>().name = text(t, &mut ctx.sub());
        }
        MDesc::Services(l) if !l.is_empty() => {
            let n = ctx.idx(l.len());
            l[n].1 = v;
            d.downcast_mut::<Desc41>().items[n].service_type = v;
        }
        MDesc::Sat { pol, .. } => {
            *pol = v & 3;
            d.downcast_mut::<Desc43>().polarization = v & 3;
        }
        MDesc::Cable { fec, .. } => {
            *fec = v & 15;
            d.downcast_mut::<Desc44>().fec = v & 15;
        }
        MDesc::Service { stype, .. } => {
            *stype = v;
            d.downcast_mut::<Desc48>().service_type = v;
        }
        MDesc::Short { lang: l, name, text: t } => {
            std::mem::swap(name, t);
            l[2] = b'a' + v % 26;
            let x = d.downcast_mut::<Desc4D>();
            x.lang = lang(l);
            std::mem::swap(&mut x.name, &mut x.text);
        }
        MDesc::Extended { number, items, .. } => {
            *number = v & 15;
            let x = d.downcast_mut::<Desc4E>();
            x.number = v & 15;
            if v & 16 != 0 {
                items.pop();
                x.items.pop();
            }
        }
        MDesc::StreamId(t) => {
            *t = v;
            d.downcast_mut::<Desc52>().tag = v;
        }
        MDesc::TimeOffset(l) if !l.is_empty() => {
            let n = ctx.idx(l.len());
            l[n].region = v & 63;
            d.downcast_mut::<Desc58>().items[n].region_id = v & 63;
        }
        MDesc::Terrestrial { f, .. } => {
            f[8] = v & 3;
            d.downcast_mut::<Desc5A>().guard_interval = v & 3;
        }
        MDesc::Lcn(l) if !l.is_empty() => {
            let n = ctx.idx(l.len());
            l[n].2 = ctx.edge(10) as u16;
            d.downcast_mut::<Desc83>().items[n].lcn = l[n].2;
        }
        MDesc::Raw { tag, data } if !crate::model::KNOWN_TAGS.contains(tag) && !data.is_empty() => {
            let n = ctx.idx(data.len());
            data[n] = v;
            d.downcast_mut::<DescRaw>().data[n] = v;
        }
        _ => return false,
    }
    true
}

pub fn descs(l: &[MDesc], r: &mut Rng) -> Descriptors {
    let mut d = Descriptors::default();
    for x in l {
        d.push(desc(x, r));
    }
    d
}

#[derive(Debug)]
pub enum Lib { Pat(Pat), Pmt(Pmt), Nit(Nit), Sdt(Sdt), Eit(Eit), Tdt(Tdt), Tot(Tot) }

fn pmt_item(i: &Item, r: &mut Rng) -> PmtItem { PmtItem { stream_type: i.stype, pid: i.pid, descriptors: descs(&i.descs, r) } }
fn nit_item(i: &Item, r: &mut Rng) -> NitItem { NitItem { tsid: i.id, onid: i.onid, descriptors: descs(&i.descs, r) } }
fn sdt_item(i: &Item, r: &mut Rng) -> SdtItem {
    SdtItem {
        pnr: i.id, eit_schedule_flag: i.f[0], eit_present_following_flag: i.f[1], running_status: i.f[2],
        free_ca_mode: i.f[3], descriptors: descs(&i.descs, r),
    }
}
fn eit_item(i: &Item, r: &mut Rng) -> EitItem {
    EitItem { event_id: i.id, start: i.start, duration: i.dur, status: i.f[2], ca_mode: i.f[3], descriptors: descs(&i.descs, r) }
}
fn pat_item(i: &Item) -> PatItem { PatItem { pnr: i.id, pid: i.pid } }

impl Lib {
    pub fn default(k: Kind) -> Lib {
        match k {
            Kind::Pat => Lib::Pat(Pat::default()),
            Kind::Pmt => Lib::Pmt(Pmt::default()),
            Kind::Nit => Lib::Nit(Nit::default()),
            Kind::Sdt => Lib::Sdt(Sdt::default()),
            Kind::Eit => Lib::Eit(Eit::default()),
            Kind::Tdt => Lib::Tdt(Tdt::default()),
            Kind::Tot => Lib::Tot(Tot::default()),
        }
    }

    pub fn build(t: &Table, r: &mut Rng) -> Lib {
        match t.kind {
            Kind::Pat => Lib::Pat(Pat { version: t.version, tsid: t.ext, items: t.items.iter().map(pat_item).collect() }),
            Kind::Pmt => Lib::Pmt(Pmt {
                version: t.version, pnr: t.ext, pcr: t.pcr, descriptors: descs(&t.descs, r),
                items: t.items.iter().map(|i| pmt_item(i, r)).collect(),
            }),
            Kind::Nit => Lib::Nit(Nit {
                table_id: t.table_id, version: t.version, network_id: t.ext, descriptors: descs(&t.descs, r),
                items: t.items.iter().map(|i| nit_item(i, r)).collect(),
            }),
            Kind::Sdt => Lib::Sdt(Sdt {
                table_id: t.table_id, version: t.version, tsid: t.ext, onid: t.onid,
                items: t.items.iter().map(|i| sdt_item(i, r)).collect(),
            }),
            Kind::Eit => Lib::Eit(Eit {
                table_id: t.table_id, version: t.version, pnr: t.ext, tsid: t.tsid, onid: t.onid,
                items: t.items.iter().map(|i| eit_item(i, r)).collect(),
            }),
            Kind::Tdt => Lib::Tdt(Tdt { time: t.time }),
            Kind::Tot => Lib::Tot(Tot { time: t.time, descriptors: descs(&t.descs, r) }),
        }
    }

    pub fn parse(&mut self, psi: &Psi) {
        match self {
            Lib::Pat(t) => t.parse(psi),
            Lib::Pmt(t) => t.parse(psi),
            Lib::Nit(t) => t.parse(psi),
            Lib::Sdt(t) => t.parse(psi),
            Lib::Eit(t) => t.parse(psi),
            Lib::Tdt(t) => t.parse(psi),
            Lib::Tot(t) => t.parse(psi),
        }
    }

    /// `From<&Psi>`
    pub fn from_psi(k: Kind, psi: &Psi) -> Lib {
        match k {
            Kind::Pat => Lib::Pat(Pat::from(psi)),
            Kind::Pmt => Lib::Pmt(Pmt::from(psi)),
            Kind::Nit => Lib::Nit(Nit::from(psi)),
            Kind::Sdt => Lib::Sdt(Sdt::from(psi)),
            Kind::Eit => Lib::Eit(Eit::from(psi)),
            Kind::Tdt => Lib::Tdt(Tdt::from(psi)),
            Kind::Tot => Lib::Tot(Tot::from(psi)),
        }
    }

    pub fn emit(&self, pid: u16, cc: &mut u8, dst: &mut Vec<u8>) {
        match self {
            Lib::Pat(t) => t.demux(pid, cc, dst),
            Lib::Pmt(t) => t.demux(pid, cc, dst),
            Lib::Nit(t) => t.demux(pid, cc, dst),
            Lib::Sdt(t) => t.demux(pid, cc, dst),
            Lib::Eit(t) => t.demux(pid, cc, dst),
            Lib::Tdt(t) => t.demux(pid, cc, dst),
            Lib::Tot(t) => t.demux(pid, cc, dst),
        }
    }

    pub fn items(&self) -> usize {
        match self {
            Lib::Pat(t) => t.items.len(),
            Lib::Pmt(t) => t.items.len() + t.descriptors.len(),
            Lib::Nit(t) => t.items.len() + t.descriptors.len(),
            Lib::Sdt(t) => t.items.len(),
            Lib::Eit(t) => t.items.len(),
            Lib::Tdt(_) => 0,
            Lib::Tot(t) => t.descriptors.len(),
        }
    }

    pub fn version(&self) -> u8 {
        match self {
            Lib::Pat(t) => t.version,
            Lib::Pmt(t) => t.version,
            Lib::Nit(t) => t.version,
            Lib::Sdt(t) => t.version,
            Lib::Eit(t) => t.version,
            _ => 0,
        }
    }

    // ------------------------------------------------------------ edits, mirrored on the model

    pub fn set_version(&mut self, v: u8) {
        match self {
            Lib::Pat(t) => t.version = v,
            Lib::Pmt(t) => t.version = v,
            Lib::Nit(t) => t.version = v,
            Lib::Sdt(t) => t.version = v,
            Lib::Eit(t) => t.version = v,
            _ => {}
        }
    }

    pub fn insert(&mut self, at: usize, i: &Item, r: &mut Rng) {
        match self {
            Lib::Pat(t) => t.items.insert(at, pat_item(i)),
            Lib::Pmt(t) => t.items.insert(at, pmt_item(i, r)),
            Lib::Nit(t) => t.items.insert(at, nit_item(i, r)),
            Lib::Sdt(t) => t.items.insert(at, sdt_item(i, r)),
            Lib::Eit(t) => t.items.insert(at, eit_item(i, r)),
            _ => {}
        }
    }

    pub fn remove(&mut self, at: usize) {
        match self {
            Lib::Pat(t) => { t.items.remove(at); }
            Lib::Pmt(t) => { t.items.remove(at); }
            Lib::Nit(t) => { t.items.remove(at); }
            Lib::Sdt(t) => { t.items.remove(at); }
            Lib::Eit(t) => { t.items.remove(at); }
            _ => {}
        }
    }

    pub fn set_id(&mut self, at: usize, id: u16) {
        match self {
            Lib::Pat(t) => t.items[at].pnr = id,
            Lib::Pmt(t) => t.items[at].pid = id & 0x1FFF,
            Lib::Nit(t) => t.items[at].tsid = id,
            Lib::Sdt(t) => t.items[at].pnr = id,
            Lib::Eit(t) => t.items[at].event_id = id,
            _ => {}
        }
    }

    pub fn item_descs(&mut self, at: usize) -> Option<&mut Descriptors> {
        match self {
            Lib::Pmt(t) => Some(&mut t.items[at].descriptors),
            Lib::Nit(t) => Some(&mut t.items[at].descriptors),
            Lib::Sdt(t) => Some(&mut t.items[at].descriptors),
            Lib::Eit(t) => Some(&mut t.items[at].descriptors),
            _ => None,
        }
    }

    pub fn table_descs(&mut self) -> Option<&mut Descriptors> {
        match self {
            Lib::Pmt(t) => Some(&mut t.descriptors),
            Lib::Nit(t) => Some(&mut t.descriptors),
            Lib::Tot(t) => Some(&mut t.descriptors),
            _ => None,
        }
    }

    // ------------------------------------------------------------ library == model

    /// The fields of the library object are those of the model; Err says what differs
    pub fn compare(&self, m: &Table) -> Result<(), String> {
        match self {
            Lib::Pat(t) => {
                same("version", t.version, m.version)?;
                same("tsid", t.tsid, m.ext)?;
                same("programs", t.items.len(), m.items.len())?;
                for (n, (a, b)) in t.items.iter().zip(&m.items).enumerate() {
                    at("program", n, same("pnr", a.pnr, b.id))?;
                    at("program", n, same("pid", a.pid, b.pid))?;
                }
            }
            Lib::Pmt(t) => {
                same("version", t.version, m.version)?;
                same("pnr", t.pnr, m.ext)?;
                same("pcr pid", t.pcr, m.pcr)?;
                cmp_descs(&t.descriptors, &m.descs)?;
                same("streams", t.items.len(), m.items.len())?;
                for (n, (a, b)) in t.items.iter().zip(&m.items).enumerate() {
                    at("stream", n, same("type", a.stream_type, b.stype))?;
                    at("stream", n, same("pid", a.pid, b.pid))?;
                    at("stream", n, cmp_descs(&a.descriptors, &b.descs))?;
                }
            }
            Lib::Nit(t) => {
                same("table_id", t.table_id, m.table_id)?;
                same("version", t.version, m.version)?;
                same("network id", t.network_id, m.ext)?;
                cmp_descs(&t.descriptors, &m.descs)?;
                same("entries", t.items.len(), m.items.len())?;
                for (n, (a, b)) in t.items.iter().zip(&m.items).enumerate() {
                    at("entry", n, same("tsid", a.tsid, b.id))?;
                    at("entry", n, same("onid", a.onid, b.onid))?;
                    at("entry", n, cmp_descs(&a.descriptors, &b.descs))?;
                }
            }
            Lib::Sdt(t) => {
                same("table_id", t.table_id, m.table_id)?;
                same("version", t.version, m.version)?;
                same("tsid", t.tsid, m.ext)?;
                same("onid", t.onid, m.onid)?;
                same("services", t.items.len(), m.items.len())?;
                for (n, (a, b)) in t.items.iter().zip(&m.items).enumerate() {
                    at("service", n, same("pnr", a.pnr, b.id))?;
                    at("service", n, same("eit schedule", a.eit_schedule_flag, b.f[0]))?;
                    at("service", n, same("eit p/f", a.eit_present_following_flag, b.f[1]))?;
                    at("service", n, same("status", a.running_status, b.f[2]))?;
                    at("service", n, same("free ca", a.free_ca_mode, b.f[3]))?;
                    at("service", n, cmp_descs(&a.descriptors, &b.descs))?;
                }
            }
            Lib::Eit(t) => {
                if m.schedule() {
                    // the emitter starts at the first table_id of the range
                    same("table_id range", t.table_id & 0xF0, m.table_id & 0xF0)?;
                } else {
                    same("table_id", t.table_id, m.table_id)?;
                }
                same("version", t.version, m.version)?;
                same("pnr", t.pnr, m.ext)?;
                same("tsid", t.tsid, m.tsid)?;
                same("onid", t.onid, m.onid)?;
                same("events", t.items.len(), m.items.len())?;
                for (n, (a, b)) in t.items.iter().zip(&m.items).enumerate() {
                    at("event", n, same("id", a.event_id, b.id))?;
                    at("event", n, same("start", a.start, b.start))?;
                    at("event", n, same("duration", a.duration, b.dur))?;
                    at("event", n, same("status", a.status, b.f[2]))?;
                    at("event", n, same("ca mode", a.ca_mode, b.f[3]))?;
                    at("event", n, cmp_descs(&a.descriptors, &b.descs))?;
                }
            }
            Lib::Tdt(t) => same("time", t.time, m.time)?,
            Lib::Tot(t) => {
                same("time", t.time, m.time)?;
                cmp_descs(&t.descriptors, &m.descs)?;
            }
        }
        Ok(())
    }
}

fn at(what: &str, n: usize, r: Result<(), String>) -> Result<(), String> {
    r.map_err(|e| format!("{} {}: {}", what, n, e))
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{} is {:?} instead of {:?}", what, got, want)) }
}

fn same_text(what: &str, got: &StringDVB, want: &Text) -> Result<(), String> {
    if got.as_bytes() != &want.bytes[..] {
        return Err(format!("{} is {:02x?} instead of {:02x?}", what, got.as_bytes(), want.bytes));
    }
    if !want.bytes.is_empty() {
        same(what, got.get_codepage(), want.cp)?;
        if let Some(s) = want.chars(false) {
            if got.to_string() != s {
                return Err(format!("{} reads {:?} instead of {:?}", what, got.to_string(), s));
            }
        }
    }
    same(what, got.is_empty(), want.bytes.is_empty())
}

fn same_lang(what: &str, got: &StringDVB, want: &[u8; 3]) -> Result<(), String> {
    if got.as_bytes() == &want[..] { Ok(()) } else { Err(format!("{} is {:02x?} instead of {:02x?}", what, got.as_bytes(), want)) }
}

pub fn cmp_descs(d: &Descriptors, m: &[MDesc]) -> Result<(), String> {
    same("descriptors", d.len(), m.len())?;
    same("no descriptors", d.is_empty(), m.is_empty())?;
    for (n, (a, b)) in d.iter().zip(m).enumerate() {
        at("descriptor", n, cmp_desc(a, b))?;
    }
    // the same by index
    let mut c = d.clone();
    for n in 0 .. m.len() + 1 {
        let want = c.iter().nth(n).map(|x| x as *const Descriptor);
        if c.get(n).map(|x| x as *const Descriptor) != want || c.get_mut(n).map(|x| x as *const Descriptor) != want {
            return Err(format!("descriptor by index {} of {} is another one", n, m.len()));
        }
    }
    Ok(())
}

pub fn cmp_desc(d: &Descriptor, m: &MDesc) -> Result<(), String> {
    same("tag", d.tag(), m.tag())?;
    match m {
        MDesc::Ca { caid, pid, data } => {
            let x = d.downcast_ref::<Desc09>();
            same("caid", x.caid, *caid)?;
            same("pid", x.pid, *pid)?;
            same("data", &x.data, data)
        }
        MDesc::Lang(l) => {
            let x = d.downcast_ref::<Desc0A>();
            same("languages", x.items.len(), l.len())?;
            for (a, b) in x.items.iter().zip(l) {
                same_lang("language", &a.code, &b.0)?;
                same("audio type", a.audio_type, b.1)?;
            }
            Ok(())
        }
        MDesc::Bitrate(b) => same("bitrate", d.downcast_ref::<Desc0E>().bitrate, *b),
        MDesc::NetName(t) => same_text("name", &d.downcast_ref::<Desc40>().name, t),
        MDesc::Services(l) => {
            let x = d.downcast_ref::<Desc41>();
            same("services", x.items.len(), l.len())?;
            for (a, b) in x.items.iter().zip(l) {
                same("service", (a.service_id, a.service_type), *b)?;
            }
            Ok(())
        }
        MDesc::Sat { freq, orbital, we, pol, rof, s2, modulation, rate, fec } => {
            let x = d.downcast_ref::<Desc43>();
            same("frequency", x.frequency, *freq)?;
            same("orbital position", x.orbital_position, *orbital)?;
            same("west/east", x.west_east_flag, *we)?;
            same("polarization", x.polarization, *pol)?;
            same("roll-off", x.rof, *rof)?;
            same("s2", x.s2, *s2)?;
            same("modulation", x.modulation, *modulation)?;
            same("symbol rate", x.symbol_rate, *rate)?;
            same("fec", x.fec, *fec)
        }
        MDesc::Cable { freq, outer, modulation, rate, fec } => {
            let x = d.downcast_ref::<Desc44>();
            same("frequency", x.frequency, *freq)?;
            same("outer fec", x.fec_outer, *outer)?;
            same("modulation", x.modulation, *modulation)?;
            same("symbol rate", x.symbol_rate, *rate)?;
            same("fec", x.fec, *fec)
        }
        MDesc::Service { stype, provider, name } => {
            let x = d.downcast_ref::<Desc48>();
            same("service type", x.service_type, *stype)?;
            same_text("provider", &x.provider, provider)?;
            same_text("name", &x.name, name)
        }
        MDesc::Short { lang, name, text } => {
            let x = d.downcast_ref::<Desc4D>();
            same_lang("language", &x.lang, lang)?;
            same_text("name", &x.name, name)?;
            same_text("text", &x.text, text)
        }
        MDesc::Extended { number, last, lang, items, text } => {
            let x = d.downcast_ref::<Desc4E>();
            same("number", x.number, *number)?;
            same("last number", x.last_number, *last)?;
            same_lang("language", &x.lang, lang)?;
            same("items", x.items.len(), items.len())?;
            for (a, b) in x.items.iter().zip(items) {
                same_text("item description", &a.0, &b.0)?;
                same_text("item text", &a.1, &b.1)?;
            }
            same_text("text", &x.text, text)
        }
        MDesc::StreamId(t) => same("component tag", d.downcast_ref::<Desc52>().tag, *t),
        MDesc::TimeOffset(l) => {
            let x = d.downcast_ref::<Desc58>();
            same("offsets", x.items.len(), l.len())?;
            for (a, b) in x.items.iter().zip(l) {
                same_lang("country", &a.country_code, &b.country)?;
                same("region", a.region_id, b.region)?;
                same("polarity", a.offset_polarity, b.polarity)?;
                same("offset", a.offset, b.offset)?;
                same("time of change", a.time_of_change, b.change)?;
                same("next offset", a.next_offset, b.next)?;
            }
            Ok(())
        }
        MDesc::Terrestrial { freq, f } => {
            let x = d.downcast_ref::<Desc5A>();
            same("frequency", x.frequency, *freq)?;
            same("fields", [x.bandwidth, x.priority, x.time_slicing, x.mpe_fec, x.modulation, x.hierarchy, x.code_rate_hp,
                x.code_rate_lp, x.guard_interval, x.transmission, x.other_frequency_flag], *f)
        }
        MDesc::Lcn(l) => {
            let x = d.downcast_ref::<Desc83>();
            same("channels", x.items.len(), l.len())?;
            for (a, b) in x.items.iter().zip(l) {
                same("channel", (a.service_id, a.visible, a.lcn), *b)?;
            }
            Ok(())
        }
        MDesc::Raw { data, .. } => same("data", &d.downcast_ref::<DescRaw>().data, data),
    }
}

// ---------------------------------------------------------------- receivers

pub fn held(psi: &Psi) -> &[u8] { psi.buffer.get(.. psi.size).unwrap_or(&[]) }

/// Receiver that holds the section, as if it had been received
pub fn holding(section: &[u8]) -> Psi {
    let mut p = Psi::default();
    p.buffer.extend_from_slice(section);
    p.size = section.len();
    p
}

/// coarse assembly state of a receiver
pub fn rx_state(psi: &Psi, b: &[u8]) -> u64 {
    let len = psi.buffer.len();
    let rel = if psi.size == 0 { 0 } else if len < psi.size { 1 } else if len == psi.size { 2 } else { 3 };
    let kind = u64::from(b[1] & 0x40 != 0) | u64::from(b[3] >> 4 & 3) << 1;
    let gap = u64::from((b[3] & 0x0F).wrapping_sub(psi.cc) & 0x0F);
    (rel << 32) | (len.min(8) as u64 + (len / 184) as u64 * 16) << 16 | kind << 8 | gap
}

/// Packets written to a byte stream and read back through the library's readers
pub fn through_reader(ctx: &mut Ctx, packets: &[Packet]) -> V<Vec<Packet>> {
    let mut data = Vec::with_capacity(packets.len() * 188);
    for p in packets {
        data.extend_from_slice(p);
    }
    let faults = ctx.draw(3) == 2;
    let mut plan = draw_plan(ctx, faults);
    if packets.len() > 2000 {
        for s in &mut plan {
            if let Step::Give(n) = s {
                *n = (*n).max(94);
            }
        }
    }
    let src = SimSource::new(data, plan);
    let log = src.log.clone();
    let total = packets.len() * 188;
    let out = if ctx.draw(3) == 2 {
        drain(TsReader::new(TsDrain::new(TsReader::new(src))), &log, total, packets.len())
    } else {
        drain(TsReader::new(src), &log, total, packets.len())
    };
    let l = log.borrow();
    let mut n = 0;
    for s in &l.seen {
        match s {
            crate::source::Seen::Err(..) => { ctx.fault("source_error", n, 0); }
            crate::source::Seen::End => { ctx.fault("source_end", n, 0); }
            _ => {}
        }
        n += 1;
    }
    out
}

fn drain<R: TsRead>(mut r: R, log: &std::rc::Rc<std::cell::RefCell<crate::source::Log>>, total: usize, expect: usize) -> V<Vec<Packet>> {
    let mut out = Vec::new();
    let mut b = [0u8; 188];
    let mut idle = 0;
    loop {
        match r.read(&mut b) {
            Ok(188) => {
                out.push(b);
                idle = 0;
            }
            Ok(0) => {
                if log.borrow().pos == total {
                    idle += 1;
                    if idle > 200 || out.len() >= expect {
                        break;
                    }
                }
            }
            Ok(n) => return fail("reader-size", format!("read of a packet returned {}", n)),
            Err(_) => {}
        }
    }
    if out.len() != expect {
        return fail("reader-count", format!("{} packets read of {}", out.len(), expect));
    }
    Ok(out)
}
