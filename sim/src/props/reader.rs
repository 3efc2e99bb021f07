//! C01 - C04: packet reader and byte adapter

use std::{cell::RefCell, io::Read, rc::Rc};

use mpegts::reader::{TsDrain, TsRead, TsReader};

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    source::*,
};

/// Byte stream: packets, junk, fake sync bytes, cut at the end
fn gen_bytes(ctx: &mut Ctx) -> Vec<u8> {
    let mut v = Vec::new();
    // a few long histories, some of them with more packets than a 16-bit counter holds
    let (parts, packets) = if ctx.rare(400) {
        ctx.probe("long_stream");
        if ctx.rare(60) { (60, 2500) } else { (60, 60) }
    } else {
        (12, 6)
    };
    let parts = ctx.range(1, parts);
    let style = ctx.draw(4);
    let mut r = ctx.sub();
    for _ in 0 .. parts {
        match if style == 3 { ctx.draw(4) } else { ctx.draw(3) * u32::from(style != 0) } {
            0 => {
                let n = ctx.range(1, packets);
                for _ in 0 .. n {
                    let at = v.len();
                    v.resize(at + 188, 0);
                    r.fill(&mut v[at ..]);
                    v[at] = 0x47;
                }
            }
            1 => {
                // junk without sync byte
                let mut n = ctx.pick(&[1, 2, 187, 188, 189]).max(ctx.range(1, 300));
                if ctx.rare(1000) {
                    ctx.probe("long_junk");
                    n = ctx.range(1000, 140_000);
                }
                for _ in 0 .. n {
                    let b = r.byte();
                    v.push(if b == 0x47 { 0x48 } else { b });
                }
            }
            2 => {
                let n = ctx.range(1, 400);
                for _ in 0 .. n {
                    v.push(r.byte());
                }
            }
            _ => {
                let n = ctx.range(1, 400);
                for _ in 0 .. n {
                    let b = r.byte();
                    v.push(if b < 60 { 0x47 } else { b });
                }
            }
        }
    }
    if ctx.draw(2) == 1 {
        let cut = ctx.range(0, v.len().min(200));
        v.truncate(v.len() - cut);
    }
    v
}

/// A long stream comes in pieces large enough for the run to end in reasonable time
fn coarse(plan: &mut [Step], bytes: usize) {
    if bytes > 400_000 {
        for s in plan {
            if let Step::Give(n) = s {
                *n = (*n).max(94);
            }
        }
    }
}

/// Reference framing
fn frames(v: &[u8]) -> Vec<&[u8]> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if v[i] != 0x47 {
            i += 1;
        } else if i + 188 <= v.len() {
            out.push(&v[i .. i + 188]);
            i += 188;
        } else {
            break;
        }
    }
    out
}

fn buffer(ctx: &mut Ctx) -> Vec<u8> {
    let n = 188 + match ctx.draw(4) { 0 => 0, 1 => 1, 2 => 188, _ => ctx.range(0, 400) };
    vec![0xA5; n]
}

fn take_seen(log: &Rc<RefCell<Log>>) -> Vec<Seen> { std::mem::take(&mut log.borrow_mut().seen) }

fn guard(b: &[u8], n: usize) -> Res {
    match b[n ..].iter().position(|&x| x != 0xA5) {
        Some(i) => fail("overrun", format!("byte {} of the buffer was written", n + i)),
        None => Ok(()),
    }
}

pub fn c01(ctx: &mut Ctx) -> Res {
    let data = gen_bytes(ctx);
    let want = frames(&data);
    let mut plan = draw_plan(ctx, false);
    coarse(&mut plan, data.len());
    ctx.ev_bytes("stream", want.len() as u64, &data);
    let src = SimSource::new(data.clone(), plan);
    let log = src.log.clone();
    let mut reader = TsReader::new(src);
    let mut n = 0;
    let mut ends = 0;
    // the application may use the same buffer again
    let reuse = ctx.draw(3) == 2;
    let mut b = buffer(ctx);
    loop {
        if !reuse {
            b = buffer(ctx);
        }
        let r = reader.read(&mut b);
        ctx.now += 1;
        ctx.checked();
        for s in take_seen(&log) {
            if let Seen::Bytes(asked, got) = s {
                if n < 100 {
                    ctx.state((asked as u64) << 16 | got as u64);
                }
                if got < asked {
                    ctx.probe("short_read");
                }
            }
        }
        match r {
            Ok(188) => {
                if n >= want.len() {
                    return fail("extra-packet", format!("packet {} delivered, the source has {}", n, want.len()));
                }
                if &b[.. 188] != want[n] {
                    return fail("wrong-packet", format!("packet {} differs", n));
                }
                guard(&b, 188)?;
                n += 1;
                let pos = log.borrow().pos as u64;
                ctx.ev("packet", n as u64, pos, fnv(1, &b[.. 188]));
            }
            Ok(0) => {
                if n != want.len() {
                    return fail("missing-packet", format!("end after {} of {} packets", n, want.len()));
                }
                ends += 1;
                ctx.ev("end", n as u64, 0, 0);
                if ends == 3 {
                    break;
                }
            }
            Ok(x) => return fail("wrong-size", format!("read returned {}", x)),
            Err(e) => return fail("error", format!("read failed without a source error: {}", e)),
        }
    }
    if log.borrow().pos != data.len() || reader.get_ref().data.len() != data.len() {
        return fail("not-consumed", format!("reader ended at {} of {}", log.borrow().pos, data.len()));
    }
    if data.len() % 188 != 0 {
        ctx.probe("unfinished_or_misaligned_end");
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx) -> Res {
    let data = gen_bytes(ctx);
    let want = frames(&data);
    let mut plan = draw_plan(ctx, true);
    coarse(&mut plan, data.len());
    ctx.ev_bytes("stream", want.len() as u64, &data);
    let src = SimSource::new(data.clone(), plan);
    let log = src.log.clone();
    let mut reader = TsReader::new(src);
    let mut n = 0;
    let mut after_end = 0;
    loop {
        let mut b = buffer(ctx);
        let r = reader.read(&mut b);
        ctx.now += 1;
        ctx.checked();
        let seen = take_seen(&log);
        let pos = log.borrow().pos;
        // what the source did last decides the result
        for (i, s) in seen.iter().enumerate() {
            if matches!(s, Seen::Err(..) | Seen::End) && i + 1 != seen.len() {
                return fail("swallowed", format!("the reader went on after {:?}", s));
            }
        }
        match (seen.last(), r) {
            (Some(Seen::Err(k, id)), Err(e)) => {
                if !same_err(&e, *k, *id) {
                    return fail("wrong-error", format!("{:?} instead of error {} {}", e, k, id));
                }
                ctx.fault("source_error", pos as u64, u64::from(*k));
                ctx.state(pos as u64 % 188 * 32 + u64::from(*k));
                // the application connects again and goes on where the old source failed
                if data.len() < 400_000 && ctx.draw(8) == 7 {
                    ctx.probe("source_replaced");
                    let plan = draw_plan(ctx, true);
                    let old = std::mem::replace(reader.get_mut(), SimSource::new(data.clone(), plan));
                    reader.get_mut().log = old.log;
                }
            }
            (Some(Seen::Err(k, id)), r) => return fail("lost-error", format!("source error {} {} became {:?}", k, id, r.map_err(|e| e.kind()))),
            (_, Err(e)) => return fail("invented-error", format!("{:?}", e)),
            (Some(Seen::End), Ok(0)) => {
                ctx.fault("source_end", pos as u64, 0);
                ctx.state(pos as u64 % 188 * 32 + 31);
            }
            (_, Ok(188)) => {
                if n >= want.len() || &b[.. 188] != want[n] {
                    return fail("wrong-packet", format!("packet {} differs from the error-free history", n));
                }
                guard(&b, 188)?;
                n += 1;
                ctx.ev("packet", n as u64, pos as u64, 0);
            }
            (Some(Seen::Eof), Ok(0)) => {
                if n != want.len() {
                    return fail("missing-packet", format!("end after {} of {} packets", n, want.len()));
                }
                after_end += 1;
            }
            (s, Ok(x)) => return fail("wrong-size", format!("read returned {} after {:?}", x, s)),
        }
        if after_end >= 2 {
            break;
        }
    }
    Ok(())
}

pub fn c03(ctx: &mut Ctx) -> Res {
    // stream of numbered packets, no 0x47 except sync
    let count = if ctx.rare(400) { ctx.range(3, 600) } else { ctx.range(3, 24) };
    let mut r = ctx.sub();
    let mut packets: Vec<[u8; 188]> = Vec::new();
    for i in 0 .. count {
        let mut p = [0u8; 188];
        r.fill(&mut p);
        for b in p.iter_mut() {
            if *b == 0x47 {
                *b = 0x46;
            }
        }
        p[0] = 0x47;
        p[1] = (i >> 4) as u8;
        p[2] = (i & 15) as u8;
        packets.push(p);
    }
    let clean: Vec<u8> = packets.iter().flat_map(|p| p.iter().copied()).collect();

    // damage: (begin, end) in the clean stream replaced by other bytes
    let n = ctx.range(1, 4);
    let mut cuts: Vec<(usize, usize, Vec<u8>)> = Vec::new();
    let mut at = 0;
    for _ in 0 .. n {
        if at >= clean.len() {
            break;
        }
        let begin = at + match ctx.draw(3) {
            0 => ctx.range(0, 187.min(clean.len() - at)),
            1 => ctx.range(0, clean.len() - at),
            _ => (ctx.range(0, 6) * 188).min(clean.len() - at),
        };
        let kind = ctx.draw(3);
        let len = match ctx.draw(4) { 0 => 1, 1 => 188, 2 => ctx.range(1, 187), _ => ctx.range(1, 600) };
        let len = len.min(clean.len() - begin);
        let fill = |ctx: &mut Ctx, n: usize| -> Vec<u8> {
            let mut v = vec![0; n];
            let mut r = ctx.sub();
            r.fill(&mut v);
            match ctx.draw(3) {
                0 => {}
                1 => for b in &mut v { if *b < 90 { *b = 0x47 } },
                _ => if let Some(b) = v.last_mut() { *b = 0x47 },
            }
            v
        };
        let (end, with) = match kind {
            0 => {
                ctx.fault("bytes_lost", begin as u64, len as u64);
                (begin + len, Vec::new())
            }
            1 => {
                let k = match ctx.draw(3) {
                    0 => 1,
                    1 => ctx.range(1, 187),
                    _ if ctx.rare(400) => ctx.range(500, 20_000),
                    _ => ctx.range(1, 500),
                };
                ctx.fault("bytes_inserted", begin as u64, k as u64);
                (begin, fill(ctx, k))
            }
            _ => {
                ctx.fault("bytes_overwritten", begin as u64, len as u64);
                let v = fill(ctx, len);
                (begin + len, v)
            }
        };
        ctx.state((u64::from(kind) << 32) | ((begin % 188) as u64) << 16 | (end % 188) as u64);
        cuts.push((begin, end, with));
        at = end + ctx.range(0, 4) * 188 + ctx.range(0, 187);
    }

    let mut data = Vec::new();
    let mut must: Vec<usize> = Vec::new();
    let mut pos = 0;
    let mut after_damage = false;
    for c in cuts.iter().map(|c| (c.0, c.1, &c.2[..])).chain(std::iter::once((clean.len(), clean.len(), &[][..]))) {
        let (begin, end, with) = c;
        for (i, _) in packets.iter().enumerate() {
            let s = i * 188;
            let from = if after_damage { pos + 187 } else { 0 };
            if s >= from && s >= pos && s + 188 <= begin {
                must.push(i);
            }
        }
        data.extend_from_slice(&clean[pos .. begin]);
        data.extend_from_slice(with);
        if begin < clean.len() || !with.is_empty() {
            after_damage = true;
        }
        pos = end;
    }

    let plan = draw_plan(ctx, false);
    let src = SimSource::new(data.clone(), plan);
    let log = src.log.clone();
    let mut reader = TsReader::new(src);
    let mut got: Vec<[u8; 188]> = Vec::new();
    let mut b = [0u8; 188];
    let mut reads = 0u64;
    loop {
        reads += 1;
        match reader.read(&mut b) {
            Ok(188) => got.push(b),
            Ok(0) => break,
            r => return fail("result", format!("{:?}", r)),
        }
        ctx.now += 1;
        ctx.ev("packet", got.len() as u64, log.borrow().pos as u64, 0);
        if got.len() > data.len() {
            return fail("endless", "more packets than bytes".into());
        }
    }
    ctx.checked();
    if log.borrow().pos != data.len() {
        return fail("stopped-early", format!("stopped at byte {} of {}", log.borrow().pos, data.len()));
    }
    let calls = log.borrow().calls;
    if calls > data.len() as u64 + reads {
        return fail("too-many-reads", format!("{} source reads for {} bytes", calls, data.len()));
    }
    // packets after recovery, in order
    let mut k = 0;
    for i in must {
        match got[k ..].iter().position(|p| *p == packets[i]) {
            Some(x) => k += x + 1,
            None => return fail("packet-not-delivered", format!("packet {} starts 187 or more bytes after the damage and was not delivered in order", i)),
        }
        ctx.checked();
    }
    // windows of the stream, in order
    let mut from = 0;
    for (n, p) in got.iter().enumerate() {
        match data[from ..].windows(188).position(|w| w == &p[..]) {
            Some(x) => from += x + 188,
            None => return fail("not-in-stream", format!("packet {} delivered is not in the stream at that place", n)),
        }
    }
    Ok(())
}

enum Chain {
    Scripted(TsDrain<SimPackets>),
    Bytes(TsDrain<TsReader<SimSource>>),
    Deep(TsDrain<TsReader<TsDrain<TsReader<SimSource>>>>),
    Deeper(TsDrain<TsReader<TsDrain<TsReader<TsDrain<SimPackets>>>>>),
}

impl Chain {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Chain::Scripted(d) => d.read(b),
            Chain::Bytes(d) => d.read(b),
            Chain::Deep(d) => d.read(b),
            Chain::Deeper(d) => d.read(b),
        }
    }
}

pub fn c04(ctx: &mut Ctx) -> Res {
    let faults = ctx.draw(3) != 0;
    let count = if ctx.rare(400) {
        ctx.probe("long_stream");
        if ctx.rare(60) { ctx.range(0, 70_000) } else { ctx.range(0, 700) }
    } else {
        ctx.range(0, 12)
    };
    let mut r = ctx.sub();
    let mut packets = Vec::new();
    for i in 0 .. count {
        let mut p = [0u8; 188];
        r.fill(&mut p);
        p[0] = 0x47;
        p[1] = i as u8;
        packets.push(p);
    }
    let kind = ctx.draw(4);
    let scripted = kind == 0 || kind == 3;
    // through a byte source packets begin with a sync byte; a scripted source may return anything
    if kind == 0 && ctx.draw(2) == 1 {
        for p in &mut packets {
            p[0] = r.byte();
        }
    }
    let want: Vec<u8> = packets.iter().flat_map(|p| p.iter().copied()).collect();
    let mut plan = draw_plan(ctx, faults);
    coarse(&mut plan, want.len());
    let (mut chain, log) = if scripted {
        let s = SimPackets::new(packets, plan);
        let l = s.log.clone();
        (if kind == 0 { Chain::Scripted(TsDrain::new(s)) } else {
            Chain::Deeper(TsDrain::new(TsReader::new(TsDrain::new(TsReader::new(TsDrain::new(s))))))
        }, l)
    } else {
        let s = SimSource::new(want.clone(), plan);
        let l = s.log.clone();
        (if kind == 1 { Chain::Bytes(TsDrain::new(TsReader::new(s))) } else {
            Chain::Deep(TsDrain::new(TsReader::new(TsDrain::new(TsReader::new(s)))))
        }, l)
    };
    ctx.ev_bytes("stream", u64::from(kind), &want);

    let style = ctx.draw(5);
    let mut got = 0usize;
    let mut eof = 0;
    let mut steps = 0;
    while eof < 3 {
        steps += 1;
        if steps > 200_000 + 1000 * count {
            return fail("endless", "the end is never reported".into());
        }
        let size = match style {
            0 => 188,
            1 => ctx.range(0, 187),
            2 => ctx.pick(&[0, 1, 187, 188, 189, 376]),
            3 => ctx.range(0, 1000),
            _ => ctx.pick(&[1, 94, 187]),
        };
        let mut b = vec![0xA5u8; size];
        let res = chain.read(&mut b);
        ctx.now += 1;
        ctx.checked();
        let seen = take_seen(&log);
        let last = seen.last().cloned();
        match res {
            Ok(0) if size == 0 => {
                ctx.probe("read_into_an_empty_buffer");
                if matches!(last, Some(Seen::Err(..))) {
                    return fail("lost-error", "source error swallowed by an empty read".into());
                }
            }
            Ok(0) => {
                match last {
                    Some(Seen::End) => ctx.fault("source_end", got as u64, 0),
                    Some(Seen::Eof) => {
                        if got != want.len() {
                            return fail("early-end", format!("end reported after {} of {} bytes", got, want.len()));
                        }
                        eof += 1;
                    }
                    s => return fail("false-end", format!("0 reported at byte {} although the source did {:?}", got, s)),
                }
                if got % 188 != 0 {
                    return fail("end-inside-packet", format!("end reported at byte {}", got));
                }
            }
            Ok(n) => {
                if n > size {
                    return fail("wrong-size", format!("{} bytes reported into a buffer of {}", n, size));
                }
                if matches!(last, Some(Seen::Err(..))) {
                    return fail("lost-error", format!("source error hidden behind {} bytes", n));
                }
                if got + n > want.len() || b[.. n] != want[got .. got + n] {
                    return fail("wrong-bytes", format!("bytes {} .. {} differ", got, got + n));
                }
                guard(&b, n)?;
                ctx.state((got as u64 % 188) << 20 | (size as u64) << 2 | 1);
                got += n;
                ctx.ev("bytes", got as u64, n as u64, size as u64);
            }
            Err(e) => {
                match last {
                    Some(Seen::Err(k, id)) if same_err(&e, k, id) => {
                        ctx.fault("source_error", got as u64, u64::from(k));
                        ctx.state((got as u64 % 188) << 20 | (size as u64) << 2 | 2);
                    }
                    s => return fail("wrong-error", format!("{:?} although the source did {:?}", e, s)),
                }
            }
        }
    }
    Ok(())
}
