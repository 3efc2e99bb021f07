//! C05 - C08, C20: sections in packets

use mpegts::psi::Psi;

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    model::*,
    pack::*,
    real::*,
    wire::*,
};

pub struct Stream {
    pub pid: u16,
    pub sections: Vec<Vec<u8>>,
    pub pkts: Vec<Pkt>,
}

pub fn draw_pids(ctx: &mut Ctx, n: usize) -> Vec<u16> {
    let mut v: Vec<u16> = Vec::new();
    while v.len() < n {
        let mut p = match ctx.draw(3) {
            0 => 0x100 + v.len() as u16,
            1 => ctx.pick(&[0, 1, 0x10, 0x11, 0x12, 0x14, 0x1FFE, 0x1000]),
            _ => ctx.draw(8191) as u16,
        };
        while v.contains(&p) {
            p = (p + 1) % 8191;
        }
        v.push(p);
    }
    v
}

fn gen_sections(ctx: &mut Ctx, max: usize) -> Vec<Vec<u8>> {
    let n = ctx.range(1, max);
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut total = 0;
    let small = ctx.draw(2) == 0;
    let tiny = small && ctx.draw(3) == 2;
    for _ in 0 .. n {
        let size = if tiny { ctx.range(8, 80) } else if small { ctx.range(8, 400) } else { gen_size(ctx) };
        total += size;
        if total > if max > 100 { 300_000 } else { 30_000 } {
            break;
        }
        if !out.is_empty() && ctx.draw(6) == 5 {
            // the same section again
            let i = ctx.idx(out.len());
            let s: Vec<u8> = out[i].clone();
            out.push(s);
            continue;
        }
        out.push(gen_section(ctx, size));
    }
    if out.is_empty() {
        out.push(gen_section(ctx, 8));
    }
    out
}

/// Sections of one PID. With `splice` the stream may be switched between encoders.
pub fn gen_stream(ctx: &mut Ctx, pid: u16, splice: bool, max: usize) -> Stream {
    let parts = if splice && ctx.draw(3) == 2 { ctx.range(2, 3) } else { 1 };
    let mut s = Stream { pid, sections: Vec::new(), pkts: Vec::new() };
    for k in 0 .. parts {
        let twins = splice && ctx.draw(4) == 3;
        let (sections, layout) = if twins {
            let t = gen_twins(ctx);
            let n = ctx.range(2, 12);
            ctx.probe("twin_sections");
            ((0 .. n).map(|_| t[ctx.idx(t.len())].clone()).collect(), Layout::plain())
        } else {
            (gen_sections(ctx, max), Layout::draw(ctx))
        };
        let mut cc = ctx.draw(16) as u8;
        let mut p = packetise(ctx, &sections, pid, &mut cc, &layout);
        let base = s.sections.len();
        for x in &mut p {
            x.ends = x.ends.map(|e| e + base);
            for y in &mut x.starts {
                *y += base;
            }
        }
        if parts > 1 {
            ctx.fault("splice", k as u64, p.len() as u64);
            let keep = ctx.range(1, p.len());
            p.truncate(keep);
            if k > 0 {
                let from = ctx.range(0, p.len() - 1);
                p.drain(.. from);
                p[0].cut = true;
            }
        }
        s.sections.extend(sections);
        s.pkts.extend(p);
    }
    s
}

fn pid_of(b: &[u8]) -> u16 { be16(&b[1 ..]) & 0x1FFF }

fn index(streams: &[Stream], pid: u16) -> Option<usize> { streams.iter().position(|s| s.pid == pid) }

fn gen_mux(ctx: &mut Ctx, splice: bool, max: usize) -> (Vec<Stream>, Vec<Pkt>) {
    if ctx.rare(20_000) {
        // more packets than a 16-bit counter holds
        ctx.probe("very_long_stream");
        let pid = draw_pids(ctx, 1)[0];
        let pool = gen_sections(ctx, 40);
        let mut left = 70_000;
        let sections: Vec<Vec<u8>> = pool.iter().cycle().take_while(|s| {
            left -= s.len() as i64 / 184 + 1;
            left > 0
        }).cloned().collect();
        let layout = if ctx.draw(2) == 0 { Layout::plain() } else { Layout { share: true, ..Layout::plain() } };
        let mut cc = ctx.draw(16) as u8;
        let pkts = packetise(ctx, &sections, pid, &mut cc, &layout);
        return (vec![Stream { pid, sections, pkts: Vec::new() }], pkts);
    }
    let max = if ctx.rare(400) {
        ctx.probe("long_stream");
        max * 30
    } else {
        max
    };
    let n = ctx.range(1, 3);
    let pids = draw_pids(ctx, n);
    let streams: Vec<Stream> = pids.into_iter().map(|p| gen_stream(ctx, p, splice, max)).collect();
    let pkts = interleave(ctx, streams.iter().map(|s| s.pkts.clone()).collect());
    (streams, pkts)
}

fn report(psi: &Psi) -> Option<&[u8]> { if psi.check() { Some(&psi.buffer[.. psi.size]) } else { None } }

fn show(s: Option<&[u8]>) -> String {
    match s {
        Some(s) => format!("{} bytes {:02x?}..", s.len(), &s[.. s.len().min(12)]),
        None => "nothing".into(),
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &mut Ctx) -> Res {
    let (streams, pkts) = gen_mux(ctx, false, 14);
    let copies_on = ctx.draw(3) == 2;
    let mut rx: Vec<Psi> = streams.iter().map(|_| Psi::default()).collect();
    let mut copies: Vec<(usize, Psi)> = Vec::new();
    for p in &pkts {
        ctx.now += 100;
        let i = index(&streams, p.pid).unwrap();
        ctx.state(rx_state(&rx[i], &p.b));
        rx[i].mux(&p.b);
        ctx.ev("packet", u64::from(p.pid), p.ends.map_or(0, |e| e as u64 + 1), u64::from(p.b[3] & 15));
        if p.payload {
            let want = p.ends.map(|e| &streams[i].sections[e][..]);
            ctx.checked();
            if report(&rx[i]) != want {
                let class = if want.is_none() { "reported-without-end" } else { "not-reported" };
                return fail(class, format!("pid {}: {} reported instead of {}", p.pid, show(report(&rx[i])), show(want)));
            }
            if want.is_some() {
                ctx.probe("section_reported");
            }
        }
        for (k, c) in &mut copies {
            if *k == i {
                c.mux(&p.b);
                if p.payload && report(c) != report(&rx[i]) {
                    return fail("copy-differs", format!("pid {}: copy reports {}", p.pid, show(report(c))));
                }
            }
        }
        if copies_on && ctx.draw(12) == 11 {
            let i = ctx.idx(rx.len());
            ctx.probe("receiver_copied");
            if ctx.draw(2) == 0 && copies.len() < 3 {
                copies.push((i, rx[i].clone()));
            } else {
                // a copy that goes its own way
                let mut c = rx[i].clone();
                let mut r = ctx.sub();
                for _ in 0 .. 3 {
                    c.mux(&gen_junk(&mut r));
                }
                drop(c);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx) -> Res {
    let faulty = ctx.draw(3) != 0;
    let (streams, pkts) = gen_mux(ctx, faulty, 10);
    let f = if faulty && ctx.draw(3) == 2 {
        // everything arrives, with bit errors
        ctx.faulty = true;
        Faults { flip: true, rate: ctx.pick(&[4, 2, 12]), ..Faults::default() }
    } else if faulty {
        Faults::some(ctx, Allow::All)
    } else {
        Faults::none()
    };
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    let restarts = faulty && ctx.draw(3) == 2;
    let mut rx: Vec<Psi> = streams.iter().map(|_| Psi::default()).collect();
    let mut refs: Vec<RefRx> = streams.iter().map(|_| RefRx::default()).collect();
    let mut saved: Vec<(Psi, RefRx)> = rx.iter().cloned().zip(refs.iter().cloned()).collect();
    for d in &dels {
        ctx.now = d.t;
        let i = match index(&streams, pid_of(&d.b)) {
            Some(i) => i,
            None => continue,
        };
        if restarts && ctx.draw(16) == 15 {
            match ctx.draw(3) {
                0 => {
                    ctx.fault("receiver_restart", i as u64, 0);
                    rx[i] = Psi::default();
                    refs[i] = RefRx::default();
                }
                1 => {
                    ctx.fault("receiver_restore", i as u64, 0);
                    rx[i] = saved[i].0.clone();
                    refs[i] = saved[i].1.clone();
                }
                _ => saved[i] = (rx[i].clone(), refs[i].clone()),
            }
        }
        ctx.state(rx_state(&rx[i], &d.b));
        rx[i].mux(&d.b);
        let by_ref = refs[i].feed(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(3, &d.b));
        if d.b[3] & 0x10 == 0 {
            continue;
        }
        ctx.checked();
        let got = match report(&rx[i]) {
            Some(g) => g,
            None => continue,
        };
        let right = if d.damaged {
            streams.iter().any(|s| s.sections.iter().any(|x| &x[..] == got))
        } else {
            pkts[d.src].ends.map_or(false, |e| &streams[i].sections[e][..] == got)
        };
        if right {
            ctx.probe("section_reported");
            continue;
        }
        if valid(got) && by_ref.iter().any(|s| &s[..] == got) {
            ctx.probe("undetectable_collision");
            continue;
        }
        let sent = streams.iter().any(|s| s.sections.iter().any(|x| &x[..] == got));
        let class = if sent { "reported-at-wrong-packet" } else { "wrong-section" };
        return fail(class, format!("pid {}: {} reported after packet {} (damaged {})", streams[i].pid, show(Some(got)), d.src, d.damaged));
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// Packets of something like short sections whose payload start flags are right only sometimes.
/// The last one has the counter `last`.
fn pseudo_stream(ctx: &mut Ctx, pid: u16, last: u8) -> Vec<Packet> {
    let n = ctx.range(1, 4);
    let mut r = ctx.sub();
    let mut bytes = Vec::new();
    let mut begins = Vec::new();
    while bytes.len() < n * 184 {
        begins.push(bytes.len());
        let len = match r.below(3) { 0 => r.below(40), 1 => r.below(200), _ => r.below(400) } as u16;
        let flag = [0x30u16, 0x70, 0xB0, 0x00][r.below(4) as usize] << 8;
        bytes.push(r.byte());
        bytes.extend_from_slice(&(flag | len).to_be_bytes());
        let at = bytes.len();
        bytes.resize(at + usize::from(len), 0);
        r.fill(&mut bytes[at ..]);
    }
    let mut out = Vec::new();
    let mut at = 0;
    for k in 0 .. n {
        let mut b = [0xFF; 188];
        b[0] = 0x47;
        b[1] = (pid >> 8) as u8;
        b[2] = pid as u8;
        b[3] = 0x10 | (last.wrapping_sub((n - 1 - k) as u8) & 0x0F);
        let begin = begins.iter().find(|&&x| x >= at && x < at + 183);
        match begin {
            Some(x) if k == 0 || r.below(2) == 0 => {
                b[1] |= 0x40;
                b[4] = (x - at) as u8;
                b[5 ..].copy_from_slice(&bytes[at .. at + 183]);
                at += 183;
            }
            _ => {
                b[4 ..].copy_from_slice(&bytes[at .. at + 184]);
                at += 184;
            }
        }
        out.push(b);
    }
    out
}

pub fn c08(ctx: &mut Ctx) -> Res {
    let (streams, pkts) = gen_mux(ctx, true, 10);
    let clean = ctx.range(0, pkts.len() - 1);
    let f = Faults::some(ctx, Allow::All);
    let mut rx: Vec<Psi> = streams.iter().map(|_| Psi::default()).collect();
    let mut refs: Vec<RefRx> = streams.iter().map(|_| RefRx::default()).collect();

    // garbage before everything
    if ctx.draw(3) == 2 {
        let mut r = ctx.sub();
        let n = ctx.range(1, 40);
        let tame = ctx.draw(2) == 0;
        let mut cc = ctx.draw(16) as u8;
        for _ in 0 .. n {
            let mut g = gen_junk(&mut r);
            if tame {
                // looks like a stream: payload, counters go on
                g[3] = 0x10 | cc;
                cc = (cc + 1) & 15;
                if r.below(3) != 0 {
                    g[1] &= !0x40;
                } else if r.below(2) == 0 {
                    g[4] = r.below(184) as u8;
                }
                if r.below(2) == 0 {
                    // what looks like headers of short sections
                    let mut at = 5 + r.below(60) as usize;
                    while at + 3 <= 188 {
                        g[at + 1] = [0x30, 0x70, 0xB0, 0x00][r.below(4) as usize];
                        g[at + 2] = r.below(80) as u8;
                        at += 3 + g[at + 2] as usize;
                    }
                }
            }
            for p in &mut rx {
                p.mux(&g);
            }
            for p in &mut refs {
                p.feed(&g);
            }
            ctx.fault("garbage_packets", n as u64, 0);
        }
    }
    // splices happen before the clean part only
    let last_cut = pkts.iter().rposition(|p| p.cut).unwrap_or(0);
    let clean = clean.max(last_cut);
    // what matters is the state of the receiver where the clean part begins
    let (from, f) = if ctx.draw(3) == 2 {
        let n = ctx.range(1, 6);
        ctx.probe("faults_right_before_the_clean_part");
        (clean.saturating_sub(n), Faults { rate: ctx.pick(&[2, 3]), header: f.header || ctx.draw(2) == 1, ..f })
    } else {
        (0, f)
    };
    let dels = transmit(ctx, &pkts, &f, from, clean);

    let mut starts: Vec<Vec<usize>> = streams.iter().map(|s| vec![usize::MAX; s.sections.len()]).collect();
    for (n, p) in pkts.iter().enumerate() {
        let i = index(&streams, p.pid).unwrap();
        for &s in &p.starts {
            starts[i][s] = n;
        }
    }

    let mut seen_clean = vec![false; streams.len()];
    for d in &dels {
        ctx.now = d.t;
        let i = match index(&streams, pid_of(&d.b)) {
            Some(i) => i,
            None => continue,
        };
        if d.src != NONE && d.src >= clean && !seen_clean[i] {
            seen_clean[i] = true;
            if ctx.draw(3) == 2 {
                let last = (d.b[3] & 0x0F).wrapping_sub(if ctx.draw(4) == 3 { ctx.draw(16) as u8 } else { 1 });
                let junk = pseudo_stream(ctx, streams[i].pid, last);
                ctx.fault("pseudo_sections", i as u64, junk.len() as u64);
                for g in &junk {
                    rx[i].mux(g);
                    refs[i].feed(g);
                    ctx.ev("pseudo", i as u64, 0, fnv(3, g));
                }
            }
            ctx.state(rx_state(&rx[i], &d.b));
        }
        rx[i].mux(&d.b);
        let by_ref = refs[i].feed(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(3, &d.b));
        if d.src == NONE || d.src < clean || !pkts[d.src].payload {
            continue;
        }
        if let Some(e) = pkts[d.src].ends {
            let first = starts[i][e];
            if first != usize::MAX && first >= clean {
                ctx.checked();
                if report(&rx[i]) != Some(&streams[i].sections[e][..]) {
                    // as far as a receiver can tell an older section ends in the packet as well
                    if by_ref.len() > 1 && (by_ref[0][1] & 0x80 == 0 || valid(&by_ref[0])) && by_ref[1] == streams[i].sections[e] {
                        ctx.probe("two_section_ends_in_a_packet");
                        continue;
                    }
                    return fail("not-resumed", format!("pid {}: section {} starts at packet {} (clean from {}) but {} is reported at its end",
                        streams[i].pid, e, first, clean, show(report(&rx[i]))));
                }
                ctx.probe("section_reported_after_faults");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

pub fn c20(ctx: &mut Ctx) -> Res {
    // carousel: a few contents, sent in many packings and on several PIDs
    let base = gen_sections(ctx, 4);
    let mut pool = base.clone();
    for s in &base {
        for _ in 0 .. ctx.range(0, 2) {
            let mut v = s.clone();
            match ctx.draw(4) {
                0 if v.len() > 12 => v[5] ^= 0x02,
                1 if v.len() > 8 => {
                    let i = ctx.range(3, v.len() - 5);
                    v[i] ^= 1 << ctx.draw(8);
                }
                2 => v[0] ^= 0x01,
                _ => {
                    // one byte longer, same begin
                    let n = v.len() - 4;
                    let mut body = v[3 .. n].to_vec();
                    body.push(0);
                    if body.len() + 7 <= 4098 {
                        v = section(v[0], v[1] >> 4, &body, true);
                    }
                }
            }
            if v[0] == 0xFF {
                v[0] = 0xFE;
            }
            fix_crc(&mut v);
            pool.push(v);
        }
    }
    let n = ctx.range(1, 2);
    let pids = draw_pids(ctx, n);
    let mut streams = Vec::new();
    for pid in pids {
        let k = ctx.range(2, 10);
        let sections: Vec<Vec<u8>> = (0 .. k).map(|_| pool[ctx.idx(pool.len())].clone()).collect();
        let layout = Layout::draw(ctx);
        let mut cc = ctx.draw(16) as u8;
        let pkts = packetise(ctx, &sections, pid, &mut cc, &layout);
        streams.push(Stream { pid, sections, pkts });
    }
    let pkts = interleave(ctx, streams.iter().map(|s| s.pkts.clone()).collect());
    let f = Faults::draw(ctx, Allow::All);
    let faulty = f.any();
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    let mut rx: Vec<Psi> = streams.iter().map(|_| Psi::default()).collect();
    let mut snaps: Vec<Psi> = vec![Psi::default()];
    let mut last: Vec<Option<(Psi, Vec<u8>)>> = streams.iter().map(|_| None).collect();
    for d in &dels {
        ctx.now = d.t;
        let i = match index(&streams, pid_of(&d.b)) {
            Some(i) => i,
            None => continue,
        };
        rx[i].mux(&d.b);
        ctx.ev("packet", d.src as u64, u64::from(d.damaged), fnv(3, &d.b));
        let a = &rx[i];
        if !(a == &a.clone()) {
            return fail("not-reflexive", format!("size {} held {}", a.size, a.buffer.len()));
        }
        for s in &snaps {
            ctx.checked();
            let ab = a == s;
            let ba = s == a;
            if ab != ba {
                return fail("not-symmetric", format!("{} and {}", ab, ba));
            }
            if (a != s) == ab {
                return fail("eq-and-ne", "== and != agree".into());
            }
            let ca = a.size > 0 && a.buffer.len() >= a.size;
            let cs = s.size > 0 && s.buffer.len() >= s.size;
            let same = held(a) == held(s);
            ctx.state(u64::from(ca) | u64::from(cs) << 1 | u64::from(same) << 2 | u64::from(a.size == s.size) << 3 |
                u64::from(a.buffer.len() > a.size) << 4 | u64::from(s.buffer.len() > s.size) << 5);
            if ca && cs && ab != same {
                return fail(if same { "equal-not-seen" } else { "change-not-seen" }, format!("sections of {} and {} bytes compare {}", a.size, s.size, ab));
            }
            if ca != cs && ab {
                return fail("incomplete-equal", format!("complete section of {} bytes equals an incomplete one", if ca { a.size } else { s.size }));
            }
        }
        // repetition by repetition, with what was really sent as truth
        if !faulty && d.src != NONE {
            if let Some(e) = pkts[d.src].ends {
                let bytes = streams[i].sections[e].clone();
                for l in last.iter().flatten() {
                    ctx.checked();
                    if (l.0 == *a) != (l.1 == bytes) {
                        return fail("carousel", format!("repetition compares {} although the content is equal: {}", l.0 == *a, l.1 == bytes));
                    }
                }
                last[i] = Some((a.clone(), bytes));
            }
        }
        if ctx.draw(4) == 3 {
            if snaps.len() >= 8 {
                let k = ctx.idx(8);
                snaps.remove(k);
            }
            let mut s = rx[i].clone();
            if ctx.rare(4) {
                // taken over by a sender
                s.pid = ctx.draw(0x2000) as u16;
                s.cc = ctx.draw(16) as u8;
            }
            snaps.push(s);
        }
        if ctx.rare(16) {
            rx[i].pid = pid_of(&d.b);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// Section numbers, limits and checksums of an emitted table
pub fn check_sections(kind: Kind, sections: &[Vec<u8>]) -> Res {
    let n = sections.len();
    for (i, s) in sections.iter().enumerate() {
        if s.len() > kind.limit() {
            return fail("section-limit", format!("section of {} bytes", s.len()));
        }
        if kind == Kind::Tdt {
            continue;
        }
        if !valid(s) {
            return fail("section-crc", format!("section {} of {} bytes has a wrong checksum", i, s.len()));
        }
        if kind == Kind::Tot {
            continue;
        }
        let schedule = kind == Kind::Eit && s[0] >= 0x50;
        if !schedule {
            if usize::from(s[6]) != i || usize::from(s[7]) != n - 1 {
                return fail("section-number", format!("section {} of {} is numbered {} of {}", i, n - 1, s[6], s[7]));
            }
        } else if i > 0 {
            let p = &sections[i - 1];
            if (p[0], p[6]) >= (s[0], s[6]) {
                return fail("section-number", format!("section {:02x}/{} follows {:02x}/{}", s[0], s[6], p[0], p[6]));
            }
        }
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx) -> Res {
    let n = ctx.range(1, 3);
    let pids = draw_pids(ctx, n);
    let mut cc: Vec<u8> = pids.iter().map(|_| ctx.draw(16) as u8).collect();
    let outs = ctx.range(1, 2);
    let mut out: Vec<Vec<u8>> = vec![Vec::new(); outs];
    if ctx.rare(4) {
        // something else of any length is there already
        let n = ctx.range(0, 400);
        out[0] = vec![0; n];
        ctx.sub().fill(&mut out[0]);
    }
    let ops = if ctx.rare(400) { ctx.range(1, 120) } else { ctx.range(1, 10) };
    for _ in 0 .. ops {
        ctx.now += 1000;
        let k = ctx.idx(n);
        let o = ctx.idx(outs);
        let before = out[o].clone();
        let from = cc[k];
        let count;
        let mut tail = 0;
        let kind;
        match ctx.draw(6) {
            5 => {
                // emitter restart or handover
                cc[k] = ctx.draw(16) as u8;
                ctx.fault("emitter_restart", u64::from(pids[k]), u64::from(cc[k]));
                continue;
            }
            4 => {
                // consumer takes packets
                let m = before.len() / 188;
                let take = if ctx.rare(8) { ctx.range(0, before.len()) } else { ctx.range(0, m) * 188 };
                out[o].drain(.. take);
                ctx.ev("consume", o as u64, take as u64, 0);
                continue;
            }
            3 => {
                let size = gen_size(ctx).max(12);
                let (tid, head, version) = (ctx.draw(255) as u8, ctx.range(3, 12).min(size - 4), ctx.draw(32) as u8);
                let mut psi = Psi::new(tid, head, version);
                let mut rest = vec![0; size - 4 - psi.buffer.len()];
                ctx.sub().fill(&mut rest);
                psi.buffer.extend_from_slice(&rest);
                psi.finalize();
                if ctx.draw(3) == 2 {
                    psi.finalize();
                }
                let want = psi.buffer[.. psi.size].to_vec();
                if want.len() != size || !valid(&want) {
                    return fail("finalize", format!("section of {} bytes, {} expected, valid {}", want.len(), size, valid(&want)));
                }
                let fields = want[0] == tid && want[1] >> 7 == 1 && (head < 6 || want[5] & 0x3F == version << 1 | 1);
                if !fields || want[head .. size - 4] != rest[..] {
                    return fail("finalize", format!("section {:02x?} of table {:02x} version {}: header or content not as given", &want[.. head], tid, version));
                }
                psi.pid = pids[k];
                psi.cc = cc[k];
                psi.demux(&mut out[o]);
                cc[k] = psi.cc;
                let mut c = from;
                if out[o].len() < before.len() || out[o][.. before.len()] != before[..] {
                    return fail("output-changed", "bytes in front of the emission changed".into());
                }
                let got = parse_emitted(&out[o][before.len() ..], pids[k], &mut c)?;
                if got.len() != 1 || got[0] != want {
                    return fail("raw-section", format!("{} sections emitted instead of the one given", got.len()));
                }
                tail = want.len() % 184;
                count = 1;
                kind = 9;
                ctx.ev_bytes("section", u64::from(pids[k]), &want);
                if c != cc[k] {
                    return fail("counter-returned", format!("counter {} returned, {} expected", cc[k], c));
                }
            }
            _ => {
                let kd = KINDS[ctx.idx(KINDS.len())];
                let scale = if ctx.draw(3) == 2 { Scale::Multi } else { Scale::Any };
                let t = gen_table(ctx, kd, scale);
                let lib = Lib::build(&t, &mut ctx.sub());
                lib.emit(pids[k], &mut cc[k], &mut out[o]);
                if out[o].len() < before.len() || out[o][.. before.len()] != before[..] {
                    return fail("output-changed", "bytes in front of the emission changed".into());
                }
                let mut c = from;
                let got = parse_emitted(&out[o][before.len() ..], pids[k], &mut c)?;
                if c != cc[k] {
                    return fail("counter-returned", format!("counter {} returned, {} expected", cc[k], c));
                }
                check_sections(kd, &got)?;
                for s in &got {
                    if Kind::of(s[0]) != Some(kd) {
                        return fail("table-id", format!("{:02x} in a {:?}", s[0], kd));
                    }
                }
                if got.is_empty() && !(kd == Kind::Eit && t.items.is_empty()) {
                    return fail("nothing-emitted", format!("{:?} with {} entries", kd, t.items.len()));
                }
                ctx.ev_bytes("table", kd as u64, &out[o][before.len() ..]);
                if let Some(s) = got.last() {
                    tail = s.len() % 184;
                }
                count = got.len();
                if count > 1 {
                    ctx.probe("several_sections");
                }
                kind = kd as u64;
            }
        }
        ctx.checked();
        ctx.state(kind << 32 | (count.min(9) as u64) << 24 | (tail as u64) << 8 | u64::from(from));
    }
    Ok(())
}
