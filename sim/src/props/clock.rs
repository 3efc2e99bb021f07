//! C16, C17: clocks and header rewriting

use mpegts::{es::pes, psi::Psi, ts};

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    pack::*,
    wire::*,
};

use super::section::{draw_pids, gen_stream};

const WRAP: u128 = (1 << 33) * 300;
const PTS_WRAP: u128 = 1 << 33;

/// Reference encoding of a PCR, 6 bytes
fn put_pcr(b: &mut [u8], pcr: u64, reserved: u8) {
    let base = pcr / 300;
    let ext = pcr % 300;
    let v = base << 15 | u64::from(reserved & 0x3F) << 9 | ext;
    b[.. 6].copy_from_slice(&v.to_be_bytes()[2 ..]);
}

/// Reference encoding of a PTS or DTS, 5 bytes
pub fn put_pts(b: &mut [u8], prefix: u8, v: u64) {
    b[0] = prefix << 4 | ((v >> 30) as u8 & 7) << 1 | 1;
    let mid = (v >> 15 & 0x7FFF) << 1 | 1;
    let low = (v & 0x7FFF) << 1 | 1;
    b[1] = (mid >> 8) as u8;
    b[2] = mid as u8;
    b[3] = (low >> 8) as u8;
    b[4] = low as u8;
}

fn log2(v: u128) -> u64 { 128 - u64::from(v.leading_zeros()) }

pub fn c16(ctx: &mut Ctx) -> Res {
    let faulty = ctx.draw(3) != 0;
    ctx.faulty = faulty;
    // true time in 27 MHz ticks since the encoder started
    let mut t: u128 = match ctx.draw(4) {
        0 => 0,
        1 => WRAP - u128::from(ctx.wide(60 * 27_000_000)) - 1,
        2 => WRAP - 1 - u128::from(ctx.wide(3)),
        _ => u128::from(ctx.wide(1 << 41)),
    };
    let n = ctx.range(2, 24);
    let style = ctx.draw(4);
    let mut last: Option<(u128, u64)> = None; // true time and value received
    let mut history: Vec<(u128, u64)> = Vec::new(); // (elapsed, bytes) of consecutive received values
    let mut bytes: u64 = 0;
    let mut last_pts: Option<(u128, u64)> = None;
    let mut i = 0;
    while i < n {
        i += 1;
        let mut repeat = 1;
        let mut lost = false;
        let mut why = 0;
        // next value
        let step: u128 = match style {
            0 => 27_000 * 40,
            1 => u128::from(ctx.wide(27_000 * 100)),
            2 => u128::from(match ctx.draw(4) { 0 => 0, 1 => 1, 2 => ctx.wide(27_000), _ => ctx.wide(27_000_000) }),
            _ => u128::from(match ctx.draw(4) { 0 => ctx.wide(1 << 41), 1 => ctx.wide(27_000_000 * 60), 2 => WRAP as u64 - 1 - ctx.wide(2), _ => ctx.wide(27_000 * 40) }),
        };
        t += step;
        bytes += 188 * match ctx.draw(4) { 0 => 1, 1 => 40, 2 => ctx.wide(5_000) + 1, _ => ctx.wide(30_000) + 1 };
        if faulty {
            match ctx.draw(8) {
                0 => { lost = true; ctx.fault("drop", i as u64, 0); }
                1 => { repeat = 2; why = 1; ctx.fault("duplicate", i as u64, 0); }
                2 => {
                    // discontinuity: a new encoder
                    t = u128::from(ctx.wide(1 << 41));
                    why = 2;
                    ctx.fault("clock_jump", i as u64, 0);
                }
                _ => {}
            }
        }
        ctx.now = (t / 27) as u64;
        let value = (t % WRAP) as u64;
        // on the wire
        let mut b = header(0x100, (i & 15) as u8, false);
        b[3] |= 0x20;
        b[4] = ctx.pick(&[7, 8, 20, 183]);
        b[5] = 0x10 | (ctx.draw(256) as u8 & 0xEF);
        let by_lib = ctx.draw(2) == 0;
        if by_lib {
            ts::set_pcr(&mut b, value);
        } else {
            put_pcr(&mut b[6 ..], value, ctx.draw(64) as u8);
        }
        // PES with PTS and DTS of the same instant
        let mut pts_t = t / 300;
        let mut p = vec![0u8; 40];
        p[.. 4].copy_from_slice(&[0, 0, 1, 0xE0]);
        p[6] = 0x80 | ctx.draw(64) as u8;
        p[7] = 0xC0 | ctx.draw(64) as u8;
        p[8] = 10 + ctx.draw(10) as u8;
        let pts_v = (pts_t % PTS_WRAP) as u64;
        let dts_v = ((pts_t + PTS_WRAP - u128::from(ctx.wide(90_000 * 10))) % PTS_WRAP) as u64;
        put_pts(&mut p[9 ..], 3, pts_v);
        put_pts(&mut p[14 ..], 1, dts_v);
        ctx.ev("value", value, pts_v, bytes);
        if lost {
            continue;
        }
        for _ in 0 .. repeat {
            // receiver
            ctx.checked();
            if !ts::is_pcr(&b) || ts::get_pcr(&b) != value {
                return fail("pcr-value", format!("PCR {} read as {} (present {})", value, ts::get_pcr(&b), ts::is_pcr(&b)));
            }
            if !pes::is_pts(&p) || !pes::is_dts(&p) || pes::get_pts(&p) != pts_v || pes::get_dts(&p) != dts_v {
                return fail("pts-value", format!("PTS {} DTS {} read as {} {}", pts_v, dts_v, pes::get_pts(&p), pes::get_dts(&p)));
            }
            let bit = 1u64 << ctx.draw(42);
            for v in [value, pts_v, dts_v, bit, bit - 1, bit + 1] {
                if ts::pcr_to_us(v) != v / 27 || ts::pcr_to_ms(v) != v / 27_000 || pes::pts_to_ms(v) != v / 90 {
                    return fail("conversion", format!("{} converts to {} us {} ms, as PTS {} ms", v, ts::pcr_to_us(v), ts::pcr_to_ms(v), pes::pts_to_ms(v)));
                }
            }
            let got = ts::get_pcr(&b);
            if let Some((lt, lv)) = last {
                let elapsed = (t + 4 * WRAP - lt % WRAP) % WRAP;
                // the difference is known modulo the period only
                let d = ts::pcr_delta(lv, got);
                let wrapped = got < lv;
                ctx.state(u64::from(wrapped) << 16 | log2(elapsed) << 4 | why);
                if wrapped {
                    ctx.probe("pcr_wrap");
                }
                let mut exact = elapsed as u64;
                if d != exact {
                    if wrapped && d + 1 == exact {
                        ctx.known("pcr-delta-wrap");
                        exact = d;
                    } else {
                        return fail("pcr-delta", format!("difference of {} and {} is {} instead of {}", lv, got, d, exact));
                    }
                }
                let between = if ctx.rare(8) { ctx.edge(50) } else { bytes.min(6_000_000) };
                let rate = ts::pcr_delta_bitrate(exact, between);
                let ms = exact / 27_000;
                let want = if ms == 0 { 0 } else { between * 8 / ms };
                if rate != want {
                    return fail("bitrate", format!("{} bytes in {} ticks: {} instead of {}", between, exact, rate, want));
                }
                if let Some(&(le, lb)) = history.last() {
                    let between = between.min((1 << 63) / (le as u64 + 1));
                    let stc = ts::pcr_to_stc(lv, between, le as u64, lb);
                    let want = le * u128::from(between) / u128::from(lb) + u128::from(lv);
                    if u128::from(stc) != want {
                        return fail("stc", format!("{} + {} * {} / {} is {} instead of {}", lv, le, between, lb, stc, want));
                    }
                    // signed, up to a second
                    for s in [stc % WRAP as u64, stc] {
                        let mut diff = (i128::from(got) - i128::from(s)).rem_euclid(WRAP as i128);
                        if diff > WRAP as i128 / 2 {
                            diff -= WRAP as i128;
                        }
                        if diff.abs() <= 27_000_000 {
                            ctx.probe("jitter_checked");
                            let ns = ts::pcr_jitter_ns(got, s);
                            let want = (diff * 1000 / 27) as i64;
                            if ns != want {
                                return fail("jitter", format!("PCR {} at STC {}: {} ns instead of {}", got, s, ns, want));
                            }
                        } else {
                            std::hint::black_box(ts::pcr_jitter_ns(got, s));
                        }
                    }
                }
                // jitter of a value around the true one
                let j = ctx.wide(2 * 27_000_000 + 1) as i128 - 27_000_000;
                let stc = (i128::from(got) - j).rem_euclid(WRAP as i128) as u64;
                let ns = ts::pcr_jitter_ns(got, stc);
                if ns != (j * 1000 / 27) as i64 {
                    return fail("jitter", format!("PCR {} at STC {}: {} ns instead of {}", got, stc, ns, j * 1000 / 27));
                }
                if exact > 0 || repeat > 1 {
                    history.push((u128::from(exact), between.max(188)));
                }
                bytes = 0;
                if exact == 0 {
                    ctx.probe("repeated_value");
                }
            }
            last = Some((t, got));
            if let Some((lt, lv)) = last_pts {
                let elapsed = (pts_t + 4 * PTS_WRAP - lt % PTS_WRAP) % PTS_WRAP;
                let d = pes::pts_delta(lv, pts_v);
                if u128::from(d) != elapsed {
                    return fail("pts-delta", format!("difference of {} and {} is {} instead of {}", lv, pts_v, d, elapsed));
                }
                if pts_v < lv {
                    ctx.probe("pts_wrap");
                }
                ctx.state(1 << 20 | u64::from(pts_v < lv) << 16 | log2(elapsed) << 4 | why);
            }
            last_pts = Some((pts_t, pts_v));
            // reordered frames: a PTS behind
            if ctx.draw(6) == 5 && repeat == 1 {
                let back = u128::from(ctx.wide(90_000));
                if pts_t >= back {
                    pts_t -= back;
                    last_pts = Some((pts_t, (pts_t % PTS_WRAP) as u64));
                }
            }
            if repeat > 1 {
                bytes = 188;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn gen_packet(ctx: &mut Ctx) -> Packet {
    let mut r = ctx.sub();
    let mut b = gen_junk(&mut r);
    match ctx.draw(4) {
        0 => b = header(ctx.draw(8192) as u16, ctx.draw(16) as u8, ctx.draw(2) == 1),
        1 => {
            // with PCR
            b[3] |= 0x20;
            b[4] = 7 + ctx.draw(177) as u8;
            b[5] |= 0x10;
        }
        2 => {
            let x = ctx.pick(&[0x00, 0xFF]);
            for v in &mut b[1 ..] {
                *v = x;
            }
        }
        _ => {}
    }
    b
}

fn rewrite(ctx: &mut Ctx) -> Res {
    let mut b = gen_packet(ctx);
    let n = ctx.range(1, 10);
    for _ in 0 .. n {
        ctx.now += 1;
        let before = b;
        let op = ctx.draw(7);
        let mut mask = [0u8; 188];
        let mut want = before;
        ctx.state(u64::from(op) << 16 | u64::from(b[1] & 0xE0) << 8 | u64::from(b[3] & 0xF0));
        let read_back;
        match op {
            0 => {
                let pid = ctx.edge(13) as u16;
                ts::set_pid(&mut b, pid);
                want[1] = (before[1] & 0xE0) | (pid >> 8) as u8;
                want[2] = pid as u8;
                read_back = ts::get_pid(&b) == pid;
            }
            1 => {
                let cc = ctx.draw(16) as u8;
                ts::set_cc(&mut b, cc);
                want[3] = (before[3] & 0xF0) | cc;
                read_back = ts::get_cc(&b) == cc;
            }
            2 => {
                ts::set_payload_0(&mut b);
                want[3] &= 0xEF;
                read_back = !ts::is_payload(&b);
            }
            3 => {
                ts::set_payload_1(&mut b);
                want[3] |= 0x10;
                read_back = ts::is_payload(&b);
            }
            4 => {
                ts::set_pusi_0(&mut b);
                want[1] &= 0xBF;
                read_back = !ts::is_pusi(&b);
            }
            5 => {
                ts::set_pusi_1(&mut b);
                want[1] |= 0x40;
                read_back = ts::is_pusi(&b);
            }
            _ => {
                if !(before[3] & 0x20 != 0 && before[4] >= 7 && before[5] & 0x10 != 0) {
                    if ts::is_pcr(&b) {
                        return fail("pcr-present", "PCR reported where there is none".into());
                    }
                    continue;
                }
                if !ts::is_pcr(&b) {
                    return fail("pcr-present", "PCR not reported".into());
                }
                let v = ctx.edge_below(WRAP as u64);
                ts::set_pcr(&mut b, v);
                put_pcr(&mut want[6 ..], v, 0x3F);
                mask[10] = 0x7E;
                read_back = ts::get_pcr(&b) == v;
                ctx.probe("pcr_restamped");
            }
        }
        ctx.checked();
        ctx.ev("rewrite", u64::from(op), fnv(1, &b), 0);
        for i in 0 .. 188 {
            if (b[i] ^ want[i]) & !mask[i] != 0 {
                return fail("rewrite", format!("operation {}: byte {} is {:02x} instead of {:02x}", op, i, b[i], want[i]));
            }
        }
        if !read_back {
            return fail("read-back", format!("operation {}: value read back differs", op));
        }
    }
    Ok(())
}

/// The null packet: PID 0x1FFF, payload only, nothing in it
fn null_packet() -> Res {
    let b = ts::NULL_PACKET;
    let head = b.len() == 188 && b[.. 3] == [0x47, 0x1F, 0xFF] && b[3] & 0xF0 == 0x10;
    if !head || ts::get_pid(b) != ts::PID_NULL || ts::PID_NULL >= ts::PID_NONE {
        return fail("null-packet", format!("{} bytes, {:02x?}, PID {}, null PID {}", b.len(), &b[.. 4.min(b.len())], ts::get_pid(b), ts::PID_NULL));
    }
    if b[4 ..].iter().any(|&x| x != 0xFF) {
        return fail("null-packet", format!("payload {:02x?}", &b[4 ..]));
    }
    Ok(())
}

pub fn c17(ctx: &mut Ctx) -> Res {
    for _ in 0 .. 3 {
        rewrite(ctx)?;
    }
    if ctx.draw(3) == 0 {
        return Ok(());
    }
    // a hop: remap, renumber, insert, restamp
    let n = ctx.range(1, 2);
    let pids = draw_pids(ctx, n);
    let outs = draw_pids(ctx, n);
    let streams: Vec<_> = pids.iter().map(|&p| gen_stream(ctx, p, false, 5)).collect();
    let pkts = interleave(ctx, streams.iter().map(|s| s.pkts.clone()).collect());
    let f = Faults::draw(ctx, Allow::All);
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    let shift: Vec<u8> = pids.iter().map(|_| ctx.draw(16) as u8).collect();
    let jitter = ctx.wide(WRAP as u64);
    let mut up: Vec<Psi> = pids.iter().map(|_| Psi::default()).collect();
    // a receiver starts with counter 0; the shifted one starts with the shifted counter
    let mut down: Vec<Psi> = shift.iter().map(|&s| Psi { cc: s, ..Psi::default() }).collect();
    for d in &dels {
        ctx.now = d.t;
        let k = match pids.iter().position(|&p| p == be16(&d.b[1 ..]) & 0x1FFF) {
            Some(k) => k,
            None => continue,
        };
        up[k].mux(&d.b);
        let mut b = d.b;
        if ts::get_pid(&b) != pids[k] {
            return fail("pid", format!("PID {} read as {}", pids[k], ts::get_pid(&b)));
        }
        ts::set_pid(&mut b, outs[k]);
        let cc = (ts::get_cc(&b) + shift[k]) & 15;
        ts::set_cc(&mut b, cc);
        let mut stamped = None;
        if ts::is_pcr(&b) {
            let v = ((u128::from(ts::get_pcr(&b)) + u128::from(jitter)) % WRAP) as u64;
            ts::set_pcr(&mut b, v);
            stamped = Some(v);
        }
        // inserted by the hop: a packet without payload, or of another PID
        if ctx.draw(8) == 7 {
            let mut x = gen_packet(ctx);
            ts::set_pid(&mut x, outs[k]);
            ts::set_payload_0(&mut x);
            ctx.probe("packet_inserted");
            down[k].mux(&x);
        } else if ctx.draw(16) == 15 {
            // padding to a constant rate
            null_packet()?;
            ctx.probe("null_packet_inserted");
        }
        // downstream
        let pid = be16(&b[1 ..]) & 0x1FFF;
        if pid != outs[k] {
            return fail("remap", format!("PID {} instead of {}", pid, outs[k]));
        }
        down[k].mux(&b);
        ctx.checked();
        if let Some(v) = stamped {
            if !ts::is_pcr(&b) || ts::get_pcr(&b) != v {
                return fail("restamp", format!("PCR {} instead of {}", ts::get_pcr(&b), v));
            }
        }
        ctx.ev("hop", d.src as u64, fnv(2, &b), 0);
        if up[k].check() != down[k].check() || up[k].size != down[k].size || up[k].buffer != down[k].buffer {
            return fail("not-transparent", format!("after packet {}: {} bytes before, {} bytes behind the hop", d.src, up[k].buffer.len(), down[k].buffer.len()));
        }
        if up[k].check() {
            ctx.probe("section_behind_hop");
        }
    }
    Ok(())
}
