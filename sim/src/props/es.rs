//! C21: elementary streams

use mpegts::{es::pes, ts};

use crate::{
    ctx::{fail, fnv, Ctx, Res},
    link::*,
    pack::*,
    wire::*,
};

use super::{clock::put_pts, section::draw_pids};

/// Queries against the definition
fn queries(ctx: &mut Ctx, b: &[u8]) -> Res {
    ctx.checked();
    let h = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
    let bit = |n: u32| h >> n & 1 == 1;
    let af = usize::from(b[4]);
    let offset = if !bit(4) { 0 } else if !bit(5) { 4 } else if 5 + af < 188 { 5 + af } else { 0 };
    ctx.state(u64::from(h & 0xF0) << 16 | u64::from(bit(22)) << 12 | u64::from(b[4]));
    let checks = [
        ("sync", ts::is_sync(b), h >> 24 == 0x47),
        ("error", ts::is_error(b), bit(23)),
        ("payload start", ts::is_pusi(b), bit(22)),
        ("scrambled", ts::is_scrambled(b), h >> 6 & 3 != 0),
        ("adaptation", ts::is_adaptation(b), bit(5)),
        ("payload", ts::is_payload(b), bit(4)),
        ("pid", u32::from(ts::get_pid(b)) == (h >> 8 & 0x1FFF), true),
        ("counter", u32::from(ts::get_cc(b)) == (h & 15), true),
        ("payload offset", usize::from(ts::get_payload_offset(b)) == offset, true),
        ("adaptation size", !bit(5) || usize::from(ts::get_adaptation_size(b)) == af, true),
        ("pcr", ts::is_pcr(b), bit(5) && af >= 7 && b[5] & 0x10 != 0),
    ];
    for (what, got, want) in checks {
        if got != want {
            return fail("query", format!("{}: {} for {:02x?}", what, got, &b[.. 6]));
        }
    }
    if ctx.draw(64) == 63 {
        printed(ctx, b)?;
    }
    Ok(())
}

/// The printed packet names the values of the bytes
fn printed(ctx: &mut Ctx, b: &[u8]) -> Res {
    let text = format!("{:?}", ts::TsPacket::new(b));
    let alone = format!("{:?}", ts::TsAdaptation::new(b));
    let bit = |v: u8, n: u32| (v >> n & 1 == 1).to_string();
    let mut want = vec![
        ("sync", (b[0] == 0x47).to_string()),
        ("error", (b[1] >> 7).to_string()),
        ("pusi", bit(b[1], 6)),
        ("pid", (be16(&b[1 ..]) & 0x1FFF).to_string()),
        ("scrambling", (b[3] >> 6).to_string()),
        ("payload", bit(b[3], 4)),
        ("cc", (b[3] & 15).to_string()),
    ];
    let head = want.len();
    let af = b[3] & 0x20 != 0;
    if !af {
        want.push(("adaptation", false.to_string()));
    } else {
        want.push(("length", b[4].to_string()));
        if b[4] != 0 {
            let names = ["af_extension", "private_data", "splicing_point", "OPCR_flag", "PCR_flag", "es_priority", "random_access", "discontinuity"];
            for (n, name) in names.iter().enumerate() {
                want.push((*name, bit(b[5], n as u32)));
            }
            if b[4] >= 7 && b[5] & 0x10 != 0 {
                let base = u64::from(b[6]) << 25 | u64::from(b[7]) << 17 | u64::from(b[8]) << 9 | u64::from(b[9]) << 1 | u64::from(b[10] >> 7);
                want.push(("pcr", (base * 300 + u64::from(be16(&b[10 ..]) & 0x1FF)).to_string()));
            }
        }
    }
    ctx.probe("packet_printed");
    for (n, (name, value)) in want.iter().enumerate() {
        let find = |text: &str| {
            text.split(|c: char| "{},".contains(c)).any(|x| {
                let mut x = x.splitn(2, ':');
                x.next().map(str::trim) == Some(*name) && x.next().map(str::trim) == Some(value.as_str())
            })
        };
        if !find(&text) || n >= head && af && !find(&alone) {
            return fail("printed", format!("{} is not {} in {} / {} for {:02x?}", name, value, text, alone, &b[.. 12]));
        }
    }
    Ok(())
}

fn pes_queries(ctx: &mut Ctx, p: &[u8]) -> Res {
    ctx.checked();
    let plain = [0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF].contains(&p[3]);
    let checks = [
        ("start code", pes::is_prefix(p), p[.. 3] == [0, 0, 1]),
        ("optional header", pes::is_syntax_spec(p), !plain),
        ("length", pes::get_length(p) == be16(&p[4 ..]), true),
        ("payload offset", usize::from(pes::get_payload_offset(p)) == if plain { 6 } else { 9 + usize::from(p[8]) }, true),
        ("pts", plain || pes::is_pts(p) == (p[7] >> 7 == 1), true),
        ("dts", plain || pes::is_dts(p) == (p[7] >> 6 & 1 == 1), true),
    ];
    for (what, got, want) in checks {
        if got != want {
            return fail("pes-query", format!("{}: {} for {:02x?}", what, got, &p[.. 12]));
        }
    }
    Ok(())
}

pub struct Es {
    pid: u16,
    /// PES packets
    units: Vec<Vec<u8>>,
    pub pkts: Vec<Pkt>,
    /// payload bytes of each packet: unit and range
    at: Vec<Option<(usize, usize, usize)>>,
}

pub fn gen_es(ctx: &mut Ctx, pid: u16) -> Es {
    let mut s = Es { pid, units: Vec::new(), pkts: Vec::new(), at: Vec::new() };
    let n = ctx.range(1, 5);
    let mut cc = ctx.draw(16) as u8;
    let af = ctx.pick(&[0, 1, 8]);
    for u in 0 .. n {
        let size = match ctx.draw(4) { 0 => ctx.range(1, 100), 1 => 184 * ctx.range(1, 4), 2 => ctx.range(1, 2000), _ => 170 + ctx.idx(30) };
        let id = match ctx.draw(3) { 0 => 0xE0, 1 => ctx.pick(&[0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF]), _ => 0xBC + ctx.draw(68) as u8 };
        let plain = [0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xF2, 0xF8, 0xFF].contains(&id);
        let mut p = vec![0, 0, 1, id, 0, 0];
        if !plain {
            let flags = ctx.pick(&[0u8, 2, 3]);
            let hdr = if flags == 0 { 0 } else if flags == 2 { 5 } else { 10 } + ctx.idx(12);
            p.extend_from_slice(&[0x80 | ctx.draw(64) as u8, flags << 6, hdr as u8]);
            let o = p.len();
            p.resize(o + hdr, 0xFF);
            if flags & 2 != 0 {
                put_pts(&mut p[o ..], flags, ctx.edge(33));
            }
            if flags == 3 {
                put_pts(&mut p[o + 5 ..], 1, ctx.edge(33));
            }
        }
        let o = p.len();
        p.resize(o + size, 0);
        ctx.sub().fill(&mut p[o ..]);
        if ctx.draw(4) != 0 {
            let l = (p.len() - 6) as u16;
            p[4 .. 6].copy_from_slice(&l.to_be_bytes());
        }
        // into packets
        let mut done = 0;
        while done < p.len() {
            if af > 0 && ctx.chance(1, 16) {
                let mut b = header(pid, cc.wrapping_sub(1) & 15, false);
                put_af(&mut b, 184, ctx);
                b[3] = (b[3] & !0x10) | 0x20;
                s.pkts.push(Pkt { b, pid, ends: None, starts: vec![], payload: false, cut: false });
                s.at.push(None);
            }
            let mut b = header(pid, cc, done == 0);
            cc = (cc + 1) & 15;
            let left = p.len() - done;
            let mut total = if af > 0 && ctx.chance(af, 16) { match ctx.draw(3) { 0 => 1, 1 => 183, _ => ctx.range(1, 183) } } else { 0 };
            if left < 184 - total {
                total = 184 - left;
            }
            if total > 0 {
                put_af(&mut b, total, ctx);
            }
            let cap = 184 - total;
            let take = cap.min(left);
            b[4 + total .. 4 + total + take].copy_from_slice(&p[done .. done + take]);
            let mut k = Pkt { b, pid, ends: None, starts: vec![], payload: true, cut: false };
            if done == 0 {
                k.starts.push(u);
            }
            if ctx.draw(16) == 15 {
                k.b[3] |= 0x40 << ctx.draw(2);
                ctx.probe("scrambled_packet");
            }
            s.pkts.push(k);
            s.at.push(Some((u, done, done + take)));
            done += take;
            if done == p.len() {
                s.pkts.last_mut().unwrap().ends = Some(u);
            }
        }
        s.units.push(p);
    }
    s
}

pub fn c21(ctx: &mut Ctx) -> Res {
    // arbitrary packets
    let mut r = ctx.sub();
    for _ in 0 .. 12 {
        let mut b = gen_junk(&mut r);
        if ctx.draw(4) == 0 {
            b[0] = r.byte();
        }
        match ctx.draw(4) {
            0 => b[4] = ctx.pick(&[0, 1, 6, 7, 181, 182, 183, 184, 255]),
            1 => {
                b[3] = 0x30 | (b[3] & 0x0F);
                b[4] = ctx.draw(256) as u8;
            }
            _ => {}
        }
        queries(ctx, &b)?;
        ctx.ev("packet", fnv(1, &b), 0, 0);
        let mut p = b[5 ..].to_vec();
        if ctx.draw(2) == 0 {
            p[.. 3].copy_from_slice(&[0, 0, 1]);
        }
        pes_queries(ctx, &p)?;
    }

    let n = ctx.range(1, 3);
    let pids = draw_pids(ctx, n);
    let streams: Vec<Es> = pids.iter().map(|&p| gen_es(ctx, p)).collect();
    let pkts = interleave(ctx, streams.iter().map(|s| s.pkts.clone()).collect());
    // index of the packet inside its stream
    let mut seq = Vec::new();
    let mut next = vec![0usize; n];
    for p in &pkts {
        let k = pids.iter().position(|&x| x == p.pid).unwrap();
        seq.push((k, next[k]));
        next[k] += 1;
    }
    let f = Faults::draw(ctx, Allow::Loss);
    let dels = transmit(ctx, &pkts, &f, 0, pkts.len());
    let raw: Vec<Packet> = dels.iter().map(|d| d.b).collect();
    // demultiplexer on the queries of the library
    let mut es: Vec<Vec<u8>> = vec![Vec::new(); n];
    let mut want: Vec<Vec<u8>> = vec![Vec::new(); n];
    let mut cc: Vec<Option<u8>> = vec![None; n];
    let mut want_cc: Vec<Option<usize>> = vec![None; n];
    for (d, b) in dels.iter().zip(&raw) {
        ctx.now = d.t;
        queries(ctx, b)?;
        let pid = ts::get_pid(b);
        let k = match pids.iter().position(|&x| x == pid) {
            Some(k) => k,
            None => return fail("pid", format!("PID {} is not in the multiplex", pid)),
        };
        let (wk, wn) = seq[d.src];
        if k != wk {
            return fail("pid", format!("packet of PID {} taken for PID {}", pids[wk], pid));
        }
        ctx.ev("packet", d.src as u64, u64::from(pid), 0);
        if ts::is_payload(b) && !ts::is_error(b) {
            let o = usize::from(ts::get_payload_offset(b));
            if o == 0 {
                return fail("payload-offset", format!("no payload position for {:02x?}", &b[.. 6]));
            }
            // repeated packets have the same counter
            if cc[k] != Some(ts::get_cc(b)) || want_cc[k] != Some(wn) {
                if ts::is_pusi(b) {
                    es[k].extend_from_slice(b"|");
                    let p = &b[o ..];
                    if p.len() >= 19 {
                        pes_queries(ctx, p)?;
                        let u = &streams[k].units[streams[k].at[wn].unwrap().0];
                        if !pes::is_prefix(p) || pes::get_length(p) != be16(&u[4 ..]) {
                            return fail("pes-header", format!("PES header not recognised: {:02x?}", &p[.. 9]));
                        }
                        let off = usize::from(pes::get_payload_offset(p));
                        if off > u.len() {
                            return fail("pes-offset", format!("PES payload at {} of {}", off, u.len()));
                        }
                        ctx.probe("pes_header");
                    }
                }
                es[k].extend_from_slice(&b[o ..]);
            }
            cc[k] = Some(ts::get_cc(b));
        }
        if let Some((u, from, to)) = streams[k].at[wn] {
            if want_cc[k] != Some(wn) {
                if from == 0 {
                    want[k].extend_from_slice(b"|");
                }
                want[k].extend_from_slice(&streams[k].units[u][from .. to]);
            }
            want_cc[k] = Some(wn);
        }
    }
    for k in 0 .. n {
        ctx.checked();
        if es[k] != want[k] {
            let at = es[k].iter().zip(&want[k]).position(|(a, b)| a != b).unwrap_or(es[k].len().min(want[k].len()));
            return fail("es-bytes", format!("elementary stream of PID {} differs at byte {} ({} of {} bytes)", streams[k].pid, at, es[k].len(), want[k].len()));
        }
    }
    Ok(())
}
