//! C09: anything may arrive

use mpegts::{es::pes, psi::{Desc40, Desc48, Desc4D, Desc4E, Descriptors, Psi}, reader::{TsDrain, TsRead, TsReader}, textcode::StringDVB, ts};

use crate::{
    ctx::{fail, Ctx, Res, Rng},
    link::*,
    model::*,
    pack::*,
    real::*,
    runner::heap_live,
    source::{draw_plan, SimSource},
    wire::*,
};

use super::section::{draw_pids, gen_stream};

fn accessors(b: &[u8]) -> u64 {
    let mut x = 0u64;
    x += u64::from(ts::is_sync(b)) + u64::from(ts::is_error(b)) + u64::from(ts::is_payload(b)) + u64::from(ts::is_pusi(b));
    x += u64::from(ts::is_adaptation(b)) + u64::from(ts::get_payload_offset(b)) + u64::from(ts::is_scrambled(b));
    x += u64::from(ts::get_adaptation_size(b)) + u64::from(ts::get_pid(b)) + u64::from(ts::get_cc(b));
    if ts::is_pcr(b) {
        let p = ts::get_pcr(b);
        x = x.wrapping_add(ts::pcr_to_us(p)).wrapping_add(ts::pcr_to_ms(p));
    }
    let o = usize::from(ts::get_payload_offset(b));
    if o > 0 && 188 - o >= 19 {
        let p = &b[o ..];
        x += u64::from(pes::is_prefix(p)) + u64::from(pes::is_syntax_spec(p)) + u64::from(pes::get_length(p));
        x += u64::from(pes::get_payload_offset(p)) + u64::from(pes::is_pts(p)) + u64::from(pes::is_dts(p));
        x = x.wrapping_add(pes::get_pts(p)).wrapping_add(pes::get_dts(p));
    }
    x += format!("{:?}", ts::TsPacket::new(b)).len() as u64;
    x += format!("{:?}", ts::TsAdaptation::new(b)).len() as u64;
    x
}

/// Everything an application does with a receiver
fn use_rx(ctx: &mut Ctx, rx: &Psi, other: &Psi, heavy: bool) -> Res {
    if rx.buffer.capacity() >= 16 * 1024 {
        return fail("receiver-memory", format!("receiver holds {} bytes", rx.buffer.capacity()));
    }
    let ok = rx.check();
    let c = rx.clone();
    let _ = (rx == other, other == rx, rx == &c);
    if heavy {
        let _ = format!("{:?}", rx);
    }
    for &k in KINDS {
        let before = heap_live();
        let mut lib = Lib::from_psi(k, rx);
        let grown = heap_live().saturating_sub(before);
        ctx.checked();
        // an entry or descriptor needs at least two bytes of the section
        if grown > 4096 + rx.size * 600 || lib.items() > rx.size {
            return fail("parsed-memory", format!("{:?} parsed from {} bytes holds {} bytes in {} entries", k, rx.size, grown, lib.items()));
        }
        if lib.items() > 0 {
            ctx.probe("malformed_content_parsed");
        }
        lib.parse(rx);
        if ok && (heavy || rx.size < 300) {
            let s = format!("{:?}", lib);
            std::hint::black_box(s.len());
            touch(&mut lib);
        }
    }
    Ok(())
}

/// Texts are shown, shortened and split
fn text(t: &StringDVB) {
    std::hint::black_box(t.to_string().len());
    let n = t.as_bytes().len();
    for &size in &[3, 4, n / 2, n.wrapping_sub(1)] {
        if size >= 3 && size < n {
            let mut c = t.clone();
            c.truncate(size);
            std::hint::black_box(c.to_string().len());
        }
    }
    for &size in &[8, 20, n / 2] {
        if size >= 8 {
            std::hint::black_box(t.split(size).len());
        }
    }
}

/// Copies and sizes of the parsed lists
fn touch(lib: &mut Lib) {
    let one = |d: &Descriptors| {
        let c = d.clone();
        std::hint::black_box((c.len(), c.is_empty(), c.size()));
        for x in c.iter() {
            // a malformed one is kept raw whatever its tag is, there is no other way to know
            if format!("{:?}", x).starts_with("DescRaw") {
                continue;
            }
            match x.tag() {
                0x40 => text(&x.downcast_ref::<Desc40>().name),
                0x48 => {
                    let x = x.downcast_ref::<Desc48>();
                    text(&x.provider);
                    text(&x.name);
                }
                0x4D => {
                    let x = x.downcast_ref::<Desc4D>();
                    text(&x.lang);
                    text(&x.name);
                    text(&x.text);
                }
                0x4E => text(&x.downcast_ref::<Desc4E>().text),
                _ => {}
            }
        }
        std::hint::black_box(format!("{:?}", c).len());
    };
    if let Some(d) = lib.table_descs() {
        one(d);
    }
    for i in 0 .. match lib { Lib::Pmt(t) => t.items.len(), Lib::Nit(t) => t.items.len(), Lib::Sdt(t) => t.items.len(), Lib::Eit(t) => t.items.len(), _ => 0 } {
        if let Some(d) = lib.item_descs(i) {
            one(d);
        }
    }
    if let Lib::Eit(t) = lib {
        std::hint::black_box(t.items.clone().len());
    }
}

/// A section from a faulty encoder: valid checksum, wrong content
fn malformed(ctx: &mut Ctx, r: &mut Rng) -> (Vec<u8>, u64) {
    let how = ctx.draw(7);
    let kind = ctx.pick(KINDS);
    let mut s = match how {
        0 | 1 | 2 | 3 => {
            let scale = ctx.pick(&[Scale::Small, Scale::Small, Scale::Any]);
            let t = gen_table(ctx, kind, scale);
            let v = t.encode(ctx);
            v[ctx.idx(v.len())].clone()
        }
        4 => {
            // one descriptor list in a minimal table
            let mut body = Vec::new();
            let n = ctx.range(1, 4);
            for _ in 0 .. n {
                let tag = ctx.pick(KNOWN_TAGS);
                let len = match ctx.draw(3) { 0 => ctx.idx(16), 1 => ctx.idx(40), _ => ctx.idx(255) };
                body.push(tag);
                body.push(len as u8);
                let style = ctx.draw(4);
                let at = body.len();
                for k in 0 .. len {
                    body.push(match style { 0 => r.byte(), 1 => (len - k) as u8, 2 => r.below(6) as u8, _ => 0x80 + r.below(0x42) as u8 });
                }
                if style == 3 {
                    // broken UTF-8
                    match tag {
                        0x40 if len > 0 => body[at] = 0x15,
                        0x48 if len > 5 => body[at + 1 .. at + 5].copy_from_slice(&[0, len as u8 - 3, 0x15, 0x80]),
                        0x4D if len > 6 => {
                            let n = (len - 5) as u8;
                            body[at + 3 .. at + 5].copy_from_slice(&[n, 0x15]);
                            body[at + len - 1] = 0;
                        }
                        0x4E if len > 7 => body[at + 4 .. at + 7].copy_from_slice(&[0, len as u8 - 6, 0x15]),
                        _ => {}
                    }
                }
            }
            let body = &body[.. body.len().min(900)];
            match kind {
                Kind::Tot => {
                    let mut b = vec![0xE0, 0, 0x12, 0x34, 0x56];
                    put16(&mut b, 0xF000 | body.len() as u16);
                    b.extend_from_slice(body);
                    section(0x73, 7, &b, true)
                }
                Kind::Pmt => {
                    let mut b = vec![0, 1, 0xC1, 0, 0, 0xE1, 0];
                    put16(&mut b, 0xF000 | body.len() as u16);
                    b.extend_from_slice(body);
                    section(0x02, 0xB, &b, true)
                }
                _ => {
                    let mut b = vec![0, 1, 0xC1, 0, 0, 0, 1, 0, 1, 0, 0x4E, 0, 1];
                    b.extend_from_slice(&[r.byte(), r.byte(), r.byte(), r.byte(), r.byte(), r.byte(), r.byte(), r.byte()]);
                    put16(&mut b, body.len() as u16);
                    b.extend_from_slice(body);
                    section(0x4E, 0xF, &b, true)
                }
            }
        }
        5 => {
            let size = gen_size(ctx).min(600);
            let mut s = gen_section(ctx, size);
            s[0] = ctx.pick(&[0, 2, 0x40, 0x41, 0x42, 0x46, 0x4E, 0x4F, 0x50, 0x6F, 0x70, 0x73]);
            s
        }
        _ => {
            // minimal and nearly minimal
            let n = ctx.range(0, 26);
            let mut body = vec![0; n];
            match ctx.draw(3) { 0 => {}, 1 => r.fill(&mut body), _ => for v in &mut body { *v = 0xFF } }
            let tid = ctx.pick(&[0, 2, 0x40, 0x41, 0x42, 0x46, 0x4E, 0x50, 0x70, 0x73]);
            section(tid, 0xB, &body, ctx.draw(4) != 0)
        }
    };
    let crc = s[0] != 0x70;
    match how {
        1 if s.len() > 8 => {
            let n = ctx.range(1, 6);
            for _ in 0 .. n {
                let i = ctx.range(3, s.len() - 1);
                s[i] = match ctx.draw(4) { 0 => r.byte(), 1 => 0, 2 => 0xFF, _ => s[i].wrapping_add(1) };
            }
        }
        2 if s.len() > 16 => {
            // a length somewhere, near the truth
            let i = ctx.range(8, s.len() - 5);
            s[i] = match ctx.draw(4) { 0 => s[i].wrapping_sub(1), 1 => s[i].wrapping_add(1), 2 => 0xFF, _ => (s.len() - i) as u8 };
        }
        3 if s.len() > 8 => {
            // cut or extended, length field adjusted
            let n = if ctx.draw(2) == 0 { ctx.range(3, s.len()) } else { (s.len() + ctx.range(1, 60)).min(4096) };
            s.resize(n.max(8), 0x01);
            let l = s.len() - 3;
            s[1] = (s[1] & 0xF0) | (l >> 8) as u8;
            s[2] = l as u8;
        }
        _ => {}
    }
    if crc && s.len() >= 7 {
        fix_crc(&mut s);
    }
    (s, u64::from(how))
}

pub fn c09(ctx: &mut Ctx) -> Res {
    let mut r = ctx.sub();
    ctx.faulty = true;
    match ctx.draw(5) {
        0 => {
            // a faulty encoder
            let pid = draw_pids(ctx, 1)[0];
            let n = ctx.range(1, 5);
            let mut sections = Vec::new();
            for _ in 0 .. n {
                let (s, how) = malformed(ctx, &mut r);
                ctx.fault("malformed_section", u64::from(s[0]), how);
                ctx.state(u64::from(s[0]) << 16 | (s.len().min(64) as u64) << 8 | how);
                ctx.ev_bytes("section", how, &s);
                sections.push(s);
            }
            let layout = Layout::draw(ctx);
            let mut cc = ctx.draw(16) as u8;
            let pkts = packetise(ctx, &sections, pid, &mut cc, &layout);
            let mut rx = Psi::default();
            let mut other = Psi::default();
            for p in &pkts {
                ctx.now += 100;
                rx.mux(&p.b);
                ctx.ev("packet", u64::from(p.pid), 0, 0);
                if p.ends.is_some() || ctx.draw(4) == 0 {
                    use_rx(ctx, &rx, &other, p.ends.is_some())?;
                    if ctx.draw(3) == 0 {
                        other = rx.clone();
                    }
                }
            }
        }
        1 => {
            // a faulty link
            let pid = draw_pids(ctx, 1)[0];
            let s = gen_stream(ctx, pid, true, 6);
            let mut f = Faults::some(ctx, Allow::All);
            f.rate = ctx.pick(&[2, 3, 8]);
            f.header = true;
            let dels = transmit(ctx, &s.pkts, &f, 0, s.pkts.len());
            let mut rx = Psi::default();
            let other = holding(&s.sections[0]);
            for d in &dels {
                ctx.now = d.t;
                std::hint::black_box(accessors(&d.b));
                rx.mux(&d.b);
                ctx.ev("packet", d.src as u64, u64::from(d.damaged), 0);
                if ctx.draw(3) == 0 {
                    use_rx(ctx, &rx, &other, false)?;
                }
            }
        }
        2 => {
            // random packets, the payload mostly continues
            let mut rx = Psi::default();
            let other = Psi::default();
            let n = ctx.range(1, 120);
            let tame = ctx.draw(4);
            let mut cc = 0u8;
            for i in 0 .. n {
                ctx.now += 100;
                let mut b = gen_junk(&mut r);
                if ctx.draw(8) == 7 {
                    b[0] = r.byte();
                }
                if tame > 0 {
                    b[3] = (b[3] & if tame == 1 { 0x20 } else { 0 }) | 0x10 | cc;
                    cc = (cc + 1) & 15;
                    if b[3] & 0x20 != 0 {
                        b[4] = ctx.pick(&[0, 1, 7, 100, 180, 181, 182, 183, 184, 255]);
                    }
                    if i > 0 && tame == 3 {
                        b[1] &= !0x40;
                    } else if b[1] & 0x40 != 0 && ctx.draw(2) == 0 {
                        b[4] = ctx.pick(&[0, 1, 180, 181, 182, 183, 184, 255]);
                    }
                }
                ctx.fault("random_packet", u64::from(b[1]), u64::from(b[3]));
                ctx.state(1 << 40 | u64::from(b[1] & 0x40) << 8 | u64::from(b[3] & 0x30) | (rx.buffer.len() / 184) as u64);
                std::hint::black_box(accessors(&b));
                rx.mux(&b);
                use_rx(ctx, &rx, &other, false)?;
            }
        }
        3 => {
            // random bytes into the framing
            let n = ctx.range(0, 3000);
            let mut data = vec![0; n];
            r.fill(&mut data);
            if ctx.draw(2) == 0 {
                for b in &mut data {
                    if *b < 40 {
                        *b = 0x47;
                    }
                }
            }
            ctx.fault("random_bytes", n as u64, 0);
            ctx.ev_bytes("stream", 0, &data);
            let plan = draw_plan(ctx, ctx_faults(n));
            let mut rx = Psi::default();
            let mut b = [0u8; 188];
            let mut zero = 0;
            let mut reader = TsReader::new(TsDrain::new(TsReader::new(SimSource::new(data, plan))));
            while zero < 100 {
                match reader.read(&mut b) {
                    Ok(188) => {
                        std::hint::black_box(accessors(&b));
                        rx.mux(&b);
                        use_rx(ctx, &rx, &rx.clone(), false)?;
                    }
                    Ok(0) => zero += 1,
                    Ok(n) => return fail("read-size", format!("{}", n)),
                    Err(_) => zero += 1,
                }
            }
            std::hint::black_box(format!("{:?}", reader).len());
        }
        _ => {
            // descriptor lists of a faulty encoder, direct
            let n = ctx.range(1, 30);
            for _ in 0 .. n {
                ctx.now += 1;
                let mut data = Vec::new();
                let k = ctx.range(1, 3);
                for _ in 0 .. k {
                    if ctx.draw(3) == 0 {
                        let d = gen_desc(ctx, 257);
                        let at = data.len();
                        d.encode(&mut data, &mut r);
                        let len = data.len() - at;
                        if len > 2 {
                            for _ in 0 .. ctx.range(1, 3) {
                                let i = at + 2 + ctx.idx(len - 2);
                                data[i] = match ctx.draw(3) { 0 => r.byte(), 1 => data[i].wrapping_add(1), _ => 0xFF };
                            }
                            if ctx.draw(3) == 0 {
                                let cut = ctx.range(1, len - 2);
                                data.truncate(data.len() - cut);
                                data[at + 1] = (len - 2 - cut) as u8;
                            }
                        }
                    } else {
                        let len = match ctx.draw(3) { 0 => ctx.idx(16), 1 => ctx.idx(40), _ => ctx.idx(256) };
                        data.push(ctx.pick(KNOWN_TAGS));
                        data.push(len as u8);
                        let style = ctx.draw(4);
                        for k in 0 .. len {
                            data.push(match style { 0 => r.byte(), 1 => (len - k) as u8, 2 => r.below(20) as u8, _ => 0xFF });
                        }
                    }
                }
                if ctx.draw(4) == 0 {
                    let cut = ctx.idx(data.len());
                    data.truncate(cut);
                }
                ctx.fault("malformed_descriptors", data.len() as u64, data.first().map_or(0, |b| u64::from(*b)));
                ctx.state(2 << 40 | data.first().map_or(0, |b| u64::from(*b)) << 16 | data.len() as u64);
                let before = heap_live();
                let mut d = Descriptors::default();
                d.parse(&data);
                let grown = heap_live().saturating_sub(before);
                ctx.checked();
                if d.len() * 2 > data.len() || grown > 4096 + data.len() * 600 {
                    return fail("parsed-memory", format!("{} descriptors and {} bytes of memory from {} bytes", d.len(), grown, data.len()));
                }
                let c = d.clone();
                std::hint::black_box((format!("{:?}", c).len(), c.size()));
            }
        }
    }
    Ok(())
}

fn ctx_faults(n: usize) -> bool { n % 3 == 0 }
