//! Batches of runs, failure handling, minimisation, replay files and evidence.
//!
//! `check` is the parent: it starts the batch in a child process and handles a child that hangs
//! or dies. `batch` runs the simulations on worker threads. What a run does depends only on
//! (seed, property, run index); workers and wall time only decide who executes it.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fs,
    io::{Read, Write},
    os::unix::fs::FileExt,
    panic::{self, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{atomic::{AtomicU64, Ordering}, Mutex},
    time::{Duration, Instant},
};

use crate::{
    ctx::{fnv, splitmix, Ctx, Stats, Violation},
    props::{self, Prop},
};

/// heap a single run may hold
const HEAP_CAP: usize = 256 << 20;
/// a run takes milliseconds; without progress for that long it hangs
const HANG_S: u64 = 40;

pub struct Alloc;

thread_local! {
    static LIVE: Cell<usize> = const { Cell::new(0) };
    /// heap of the thread at the begin of the run in progress
    static BASE: Cell<Option<usize>> = const { Cell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|v| {
            let n = v.get().wrapping_add(l.size());
            v.set(n);
            let _ = BASE.try_with(|b| if let Some(b) = b.get() {
                let held = n.wrapping_sub(b);
                if held > HEAP_CAP && held < usize::MAX / 2 {
                    std::process::abort();
                }
            });
        });
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|v| v.set(v.get().wrapping_sub(l.size())));
        System.dealloc(p, l)
    }
}

pub fn heap_live() -> usize { LIVE.with(|v| v.get()) }

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = seed ^ fnv(0xcbf2_9ce4_8422_2325, prop.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut y)
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub ctx: Ctx,
}

pub fn execute(prop: &Prop, mut ctx: Ctx) -> Outcome {
    BASE.with(|b| b.set(Some(heap_live())));
    let r = panic::catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut ctx)));
    BASE.with(|b| b.set(None));
    let violation = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Some(Violation { class: "panic".into(), msg })
        }
    };
    ctx.stats.sim_us = ctx.stats.sim_us.max(ctx.now);
    Outcome { violation, ctx }
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
    }));
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

fn workers() -> usize {
    std::env::var("VERIF_WORKERS").ok().and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

fn runs_for(prop: &Prop, tier: &str) -> u64 {
    if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|v| v.parse().ok()) {
        return n;
    }
    if tier == "thorough" { prop.thorough } else { prop.quick }
}

// ---------------------------------------------------------------- known findings

pub struct Known { pub property: String, pub id: String, pub text: String }

/// lines `known: property=<id> id=<finding> <text>`
pub fn known_findings() -> Vec<Known> {
    let mut out = Vec::new();
    let text = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut property = String::new();
            let mut id = String::new();
            let mut rest = Vec::new();
            for w in r.split(' ') {
                if let Some(x) = w.strip_prefix("property=") {
                    property = x.to_string();
                } else if let Some(x) = w.strip_prefix("id=") {
                    id = x.to_string();
                } else {
                    rest.push(w);
                }
            }
            out.push(Known { property, id, text: rest.join(" ") });
        }
    }
    out
}

// ---------------------------------------------------------------- minimisation

/// `eval` executes a tape and returns the class of the violation and the choices really used
fn shrink(tape: Vec<u32>, class: &str, limit: Duration, eval: &dyn Fn(&[u32]) -> Option<(String, Vec<u32>)>) -> (Vec<u32>, u64) {
    let start = Instant::now();
    let mut attempts = 0u64;
    let mut best = tape;

    let spent = Cell::new(false);
    let mut try_tape = |cand: &[u32], best: &mut Vec<u32>| -> bool {
        if attempts >= 6000 || start.elapsed() > limit {
            spent.set(true);
            return false;
        }
        attempts += 1;
        match eval(cand) {
            Some((c, mut t)) if c == class => {
                while t.last() == Some(&0) {
                    t.pop();
                }
                if t.len() < best.len() || (t.len() == best.len() && t < *best) {
                    *best = t;
                    return true;
                }
                false
            }
            _ => false,
        }
    };

    loop {
        let before = best.clone();

        // cut the tail
        let mut cut = best.len() / 2;
        while cut > 0 && !spent.get() {
            while best.len() > cut {
                let cand = best[.. best.len() - cut].to_vec();
                if !try_tape(&cand, &mut best) {
                    break;
                }
            }
            cut /= 2;
        }

        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && !spent.get() {
                let mut cand = best[.. i].to_vec();
                cand.extend_from_slice(&best[i + size ..]);
                if !try_tape(&cand, &mut best) {
                    i += size;
                }
            }
            if size == 1 || spent.get() {
                break;
            }
            size /= 2;
        }

        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && !spent.get() {
                if best[i .. i + size].iter().any(|&v| v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i .. i + size] {
                        *v = 0;
                    }
                    try_tape(&cand, &mut best);
                }
                i += size;
            }
            if size == 1 || spent.get() {
                break;
            }
            size /= 2;
        }

        // reduce values
        let mut i = 0;
        while i < best.len() && !spent.get() {
            let mut lo = 0u32;
            while i < best.len() && best[i] > lo && !spent.get() {
                let v = best[i];
                let mid = lo + (v - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_tape(&cand, &mut best) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }

        if best == before || spent.get() {
            break;
        }
    }

    (best, attempts)
}

// ---------------------------------------------------------------- replay files

fn render(ctx: &Ctx) -> String {
    let mut s = String::new();
    for e in &ctx.log {
        s.push_str(&format!("  t={}us {} {} {} {}\n", e.t, e.kind, e.args[0], e.args[1], e.args[2]));
    }
    s
}

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub msg: String,
    pub hash: u64,
    pub tape: Vec<u32>,
    /// the violation needs the runs from this one on in the same process
    pub first: Option<u64>,
}

fn write_replay(path: &Path, r: &Replay, log: &str, original: usize, attempts: u64) {
    let tape: Vec<String> = r.tape.iter().map(|v| v.to_string()).collect();
    let first = r.first.map(|v| format!("first-run: {}\n", v)).unwrap_or_default();
    let text = format!(
        "property: {}\nseed: {}\nrun: {}\n{first}class: {}\nmessage: {}\nloghash: {:016x}\noriginal-choices: {}\nminimised-choices: {}\nminimisation-attempts: {}\ntape: {}\nevents:\n{}",
        r.property, r.seed, r.run, r.class, r.msg.replace('\n', " | "), r.hash, original, r.tape.len(), attempts,
        tape.join(" "), log);
    if let Some(d) = path.parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(path, text).expect("write replay");
}

pub fn read_replay(path: &str) -> Option<Replay> {
    let text = fs::read_to_string(path).ok()?;
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if l == "events:" {
            break;
        }
        if let Some((k, v)) = l.split_once(": ") {
            m.insert(k.to_string(), v.to_string());
        } else if let Some(k) = l.strip_suffix(':') {
            m.insert(k.to_string(), String::new());
        }
    }
    Some(Replay {
        property: m.get("property")?.clone(),
        seed: m.get("seed")?.parse().ok()?,
        run: m.get("run")?.parse().ok()?,
        class: m.get("class")?.clone(),
        msg: m.get("message")?.clone(),
        hash: u64::from_str_radix(m.get("loghash")?, 16).ok()?,
        tape: m.get("tape")?.split_whitespace().filter_map(|v| v.parse().ok()).collect(),
        first: m.get("first-run").and_then(|v| v.parse().ok()),
    })
}

// ---------------------------------------------------------------- evidence

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    format!("{{{}}}", v.join(", "))
}

fn json_list<T: AsRef<str>>(l: &[T]) -> String {
    let v: Vec<String> = l.iter().map(|s| format!("\"{}\"", esc(s.as_ref()))).collect();
    format!("[{}]", v.join(", "))
}

#[derive(Default)]
struct Total {
    runs: u64,
    faulty_runs: u64,
    stats: Stats,
    hashes: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<(u64, String)>,
    digest: u64,
    max_us: u64,
    max_choices: u64,
}

fn write_evidence(prop: &Prop, tier: &str, seed: u64, t: &Total, wall: f64, violations: u64, truncated: bool) {
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let per_hour = if wall > 0.0 { (t.runs as f64 / wall * 3600.0) as u64 } else { 0 };
    let mut samples = t.samples.clone();
    samples.sort();
    let samples: Vec<String> = samples.into_iter().map(|s| s.1).collect();
    let known: Vec<String> = t.stats.known.iter().map(|(k, v)| format!("{} observed {} times", k, v)).collect();
    let text = format!(r#"{{
 "property": "{id}",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {distinct},
  "rule": "{rule}",
  "samples": {samples},
  "runs_with_faults_injected": {faulty},
  "simulated_runs_per_hour": {per_hour},
  "seeds_note": "each run has its own seed derived from VERIF_SEED and the run index: runs per hour are seeds per hour",
  "simulated_time_s": {sim:.3},
  "longest_run_simulated_s": {maxs:.3},
  "longest_run_choices": {choices},
  "events": {events},
  "oracle_evaluations": {checks},
  "fault_kinds_injected": {faults},
  "rare_conditions_reached": {probes},
  "distinct_abstract_states": {states},
  "state_measure": "{measure}",
  "batch_digest": "{digest:016x}",
  "components_real": {real},
  "components_stub": {stub},
  "stopped_by_wall_cap": {truncated},
  "known_findings_observed": {known}
 }},
 "assumptions": {assume},
 "wall_s": {wall:.3},
 "violations": {violations}
}}
"#,
        id = prop.id, tier = tier, seed = seed, runs = t.runs, distinct = t.hashes.len(),
        rule = esc(&format!("one evaluation = one simulated run, a pure function of (seed, run index); counted as distinct and non-trivial when the oracle was evaluated at least once in it and its event log (every event with time, order and content digest) differs from the log of every other run of this batch. {}", prop.rule)),
        samples = json_list(&samples), faulty = t.faulty_runs, per_hour = per_hour,
        sim = t.stats.sim_us as f64 / 1e6, maxs = t.max_us as f64 / 1e6, choices = t.max_choices, events = t.stats.events, checks = t.stats.checks,
        faults = json_map(&t.stats.faults), probes = json_map(&t.stats.probes), states = t.states.len(),
        measure = esc(prop.measure), digest = t.digest, real = json_list(prop.real), stub = json_list(prop.stub),
        truncated = truncated, known = json_list(&known),
        assume = json_list(prop.assumptions), wall = wall, violations = violations);
    fs::write(dir.join(format!("{}.json", prop.id)), text).expect("write evidence");
}

// ---------------------------------------------------------------- batch (child)

fn sample_text(idx: u64, ctx: &Ctx) -> String {
    let mut s = format!("run {} log {:016x}: {} choices, {} events, faults {}; ", idx, ctx.hash, ctx.tape.len(), ctx.stats.events, json_map(&ctx.stats.faults).replace('"', ""));
    for e in ctx.log.iter().take(24) {
        s.push_str(&format!("[{}us {} {} {} {:x}] ", e.t, e.kind, e.args[0], e.args[1], e.args[2]));
    }
    s
}

pub fn batch(prop: &Prop, tier: &str, seed: u64, slots: &str) -> i32 {
    install_hook();
    let start = Instant::now();
    let runs = runs_for(prop, tier);
    let cap = Duration::from_secs(if tier == "thorough" { 700 } else { 500 });
    let nworkers = workers();
    let slots = fs::OpenOptions::new().write(true).open(slots).expect("slots");
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Total::default());
    let failure: Mutex<Option<(u64, Violation, Vec<u32>)>> = Mutex::new(None);
    let truncated = AtomicU64::new(0);
    let known: Vec<String> = known_findings().into_iter().filter(|k| k.property == prop.id).map(|k| k.id).collect();
    const CHUNK: u64 = 16;

    std::thread::scope(|s| {
        for w in 0 .. nworkers {
            let (slots, next, first_fail, total, failure, truncated, known) = (&slots, &next, &first_fail, &total, &failure, &truncated, &known);
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut t = Total::default();
                let mut beat = 0u64;
                loop {
                    let base = next.fetch_add(CHUNK, Ordering::SeqCst);
                    if base >= runs || base > first_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    if start.elapsed() > cap {
                        truncated.store(1, Ordering::SeqCst);
                        break;
                    }
                    for idx in base .. (base + CHUNK).min(runs) {
                        if idx > first_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        beat += 1;
                        let mut b = [0u8; 16];
                        b[.. 8].copy_from_slice(&(idx + 1).to_le_bytes());
                        b[8 ..].copy_from_slice(&beat.to_le_bytes());
                        let _ = slots.write_at(&b, w as u64 * 16);

                        let mut ctx = Ctx::generate(run_seed(seed, prop.id, idx));
                        let sample = idx % (runs / 3 + 1) == runs / 7;
                        ctx.keep_log = sample;
                        let mut o = execute(prop, ctx);
                        if o.violation.is_none() {
                            for k in o.ctx.stats.known.keys() {
                                if !known.iter().any(|x| x == k) {
                                    o.violation = Some(Violation {
                                        class: format!("unlisted finding {}", k),
                                        msg: format!("{} is not in known_findings.txt", k),
                                    });
                                }
                            }
                        }
                        if let Some(v) = o.violation {
                            first_fail.fetch_min(idx, Ordering::SeqCst);
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.0 > idx) {
                                *f = Some((idx, v, o.ctx.tape));
                            }
                            continue;
                        }
                        if sample {
                            t.samples.push((idx, sample_text(idx, &o.ctx)));
                        }
                        t.runs += 1;
                        if !o.ctx.stats.faults.is_empty() {
                            t.faulty_runs += 1;
                        }
                        if o.ctx.stats.checks > 0 {
                            t.hashes.insert(o.ctx.hash);
                        }
                        let mut d = o.ctx.hash ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                        t.digest = t.digest.wrapping_add(splitmix(&mut d));
                        t.max_choices = t.max_choices.max(o.ctx.tape.len() as u64);
                        t.max_us = t.max_us.max(o.ctx.stats.sim_us);
                        t.stats.merge(&o.ctx.stats);
                        t.states.extend(o.ctx.states);
                    }
                }
                let _ = slots.write_at(&[0u8; 16], w as u64 * 16);
                let mut g = total.lock().unwrap();
                g.runs += t.runs;
                g.faulty_runs += t.faulty_runs;
                for h in t.hashes {
                    g.hashes.insert(h);
                }
                g.digest = g.digest.wrapping_add(t.digest);
                g.max_choices = g.max_choices.max(t.max_choices);
                g.max_us = g.max_us.max(t.max_us);
                g.stats.merge(&t.stats);
                g.states.extend(t.states);
                g.samples.extend(t.samples);
            }).unwrap();
        }
    });

    let total = total.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();
    let violations = u64::from(failure.is_some());
    write_evidence(prop, tier, seed, &total, start.elapsed().as_secs_f64(), violations, truncated.load(Ordering::SeqCst) != 0);

    for (k, v) in &total.stats.known {
        let text = known_findings().into_iter().find(|x| x.property == prop.id && x.id == *k).map(|x| x.text).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {}: {} (observed {} times in this batch)", prop.id, k, text, v);
    }

    if let Some((idx, v, tape)) = failure {
        let path = report(prop, seed, idx, v, tape, &|| {
            let mut b = [0u8; 16];
            b[.. 8].copy_from_slice(&(idx + 1).to_le_bytes());
            b[8 ..].copy_from_slice(&BEAT.fetch_add(1, Ordering::SeqCst).to_le_bytes());
            let _ = slots.write_at(&b, 0);
        });
        let _ = slots.write_at(&[0u8; 16], 0);
        let path = confirm(prop, seed, runs, path);
        let r = read_replay(path.to_str().unwrap()).expect("replay file");
        println!("violation in run {} of seed {}: {}: {}", r.run, seed, r.class, r.msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    println!("OK property={} tier={} seed={} runs={} distinct={} states={} faults={} wall={:.1}s digest={:016x}",
        prop.id, tier, seed, total.runs, total.hashes.len(), total.states.len(), total.stats.faults.values().sum::<u64>(), start.elapsed().as_secs_f64(), total.digest);
    0
}

static BEAT: AtomicU64 = AtomicU64::new(1 << 40);

fn report(prop: &Prop, seed: u64, idx: u64, v: Violation, tape: Vec<u32>, touch: &dyn Fn()) -> PathBuf {
    // before the minimisation, which may meet choices that hang or abort
    let path = save(prop, seed, idx, v.clone(), tape.clone(), tape.len(), 0);
    let (tape, original, attempts) = if v.class.starts_with("unlisted") {
        return path;
    } else {
        let n = tape.len();
        let (t, a) = shrink(tape, &v.class, Duration::from_secs(20), &|cand| {
            touch();
            let o = execute(prop, Ctx::replay(cand));
            o.violation.map(|v| (v.class, o.ctx.tape))
        });
        (t, n, a)
    };
    save(prop, seed, idx, v, tape, original, attempts);
    path
}

/// Replays in a fresh process. A violation that does not show again depends on state the library
/// keeps between runs: then the shortest sequence of runs found that leads to it is recorded.
fn confirm(prop: &Prop, seed: u64, runs: u64, path: PathBuf) -> PathBuf {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["replay", path.to_str().unwrap()])
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    if let End::Code(1) = wait(&mut c, Duration::from_secs(30)) {
        return path;
    }
    let start = Instant::now();
    let out = scratch("sequence");
    let run = |from: u64, to: u64, limit: u64| -> Option<Replay> {
        let _ = fs::remove_file(&out);
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["sequence", prop.id, &seed.to_string(), &from.to_string(), &to.to_string(), out.to_str().unwrap()])
            .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        match wait(&mut c, Duration::from_secs(limit)) {
            End::Code(1) => read_replay(out.to_str().unwrap()),
            _ => None,
        }
    };
    let mut best = run(0, runs, 120);
    if let Some(r) = &best {
        let last = r.run;
        let mut back = 0;
        while back <= last && start.elapsed() < Duration::from_secs(240) {
            if let Some(r) = run(last - back, last, 60) {
                best = Some(r);
                break;
            }
            back = back * 2 + 1;
        }
    }
    let _ = fs::remove_file(&out);
    match best {
        Some(r) => {
            let _ = fs::remove_file(&path);
            let path = replay_path(prop, seed, r.run);
            write_replay(&path, &r, "  (needs the runs from first-run on in one process)\n", r.tape.len(), 0);
            path
        }
        None => path,
    }
}

/// Executes runs one after the other in this thread up to the first violation
fn sequence_of(prop: &Prop, seed: u64, from: u64, to: u64) -> Option<Replay> {
    for idx in from ..= to {
        let o = execute(prop, Ctx::generate(run_seed(seed, prop.id, idx)));
        if let Some(v) = o.violation {
            return Some(Replay { property: prop.id.to_string(), seed, run: idx, class: v.class, msg: v.msg, hash: o.ctx.hash, tape: o.ctx.tape, first: Some(from) });
        }
    }
    None
}

pub fn sequence(prop: &Prop, seed: u64, from: u64, to: u64, out: &str) -> i32 {
    install_hook();
    match sequence_of(prop, seed, from, to) {
        Some(r) => { write_replay(Path::new(out), &r, "", r.tape.len(), 0); 1 }
        None => 0,
    }
}

fn replay_path(prop: &Prop, seed: u64, idx: u64) -> PathBuf {
    root().join("out").join(format!("{}-{}-{}.replay", prop.id, seed, idx))
}

fn save(prop: &Prop, seed: u64, idx: u64, v: Violation, tape: Vec<u32>, original: usize, attempts: u64) -> PathBuf {
    let mut ctx = Ctx::replay(&tape);
    ctx.keep_log = true;
    let o = execute(prop, ctx);
    let v = o.violation.unwrap_or(v);
    let path = replay_path(prop, seed, idx);
    let r = Replay { property: prop.id.to_string(), seed, run: idx, class: v.class.clone(), msg: v.msg.clone(), hash: o.ctx.hash, tape, first: None };
    write_replay(&path, &r, &render(&o.ctx), original, attempts);
    path
}

// ---------------------------------------------------------------- parent

enum End { Code(i32), Died, Hung }

fn wait(child: &mut std::process::Child, timeout: Duration) -> End {
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => return match st.code() { Some(c) => End::Code(c), None => End::Died },
            Ok(None) => {}
            Err(_) => return End::Died,
        }
        if start.elapsed() > timeout {
            let _ = child.kill();
            let _ = child.wait();
            return End::Hung;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn scratch(name: &str) -> PathBuf {
    let d = root().join("out");
    let _ = fs::create_dir_all(&d);
    d.join(format!("{}.{}", name, std::process::id()))
}

/// Runs a tape in a child process: how the child ended, the class of the violation, the choices used
fn probe_tape(prop: &Prop, tape: &[u32], timeout: Duration) -> (End, Option<(String, Vec<u32>)>) {
    let file = scratch("tape");
    let out = scratch("tape-out");
    let b: Vec<u8> = tape.iter().flat_map(|v| v.to_le_bytes()).collect();
    fs::write(&file, b).unwrap();
    let _ = fs::remove_file(&out);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["tape", prop.id, file.to_str().unwrap(), out.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let e = wait(&mut c, timeout);
    let found = match e {
        End::Died => Some(("abort".to_string(), tape.to_vec())),
        End::Hung => Some(("hang".to_string(), tape.to_vec())),
        End::Code(_) => fs::read(&out).ok().and_then(|b| {
            let n = b.iter().position(|&x| x == 0)?;
            let class = String::from_utf8_lossy(&b[.. n]).to_string();
            Some((class, words(&b[n + 1 ..])))
        }),
    };
    let _ = fs::remove_file(&file);
    let _ = fs::remove_file(&out);
    (e, found)
}

fn words(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn check(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let slots = scratch("slots");
    fs::write(&slots, vec![0u8; 16 * 256]).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["batch", prop.id, tier, &seed.to_string(), slots.to_str().unwrap()])
        .spawn().expect("spawn");

    let mut last: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); 256];
    let end = loop {
        match child.try_wait().expect("wait") {
            Some(st) => break match st.code() { Some(c) => End::Code(c), None => End::Died },
            None => {}
        }
        let mut b = Vec::new();
        let _ = fs::File::open(&slots).and_then(|mut f| f.read_to_end(&mut b));
        let mut hung = false;
        for (i, c) in b.chunks_exact(16).enumerate() {
            let idx = u64::from_le_bytes(c[.. 8].try_into().unwrap());
            let beat = u64::from_le_bytes(c[8 ..].try_into().unwrap());
            if idx == 0 || (idx, beat) != (last[i].0, last[i].1) {
                last[i] = (idx, beat, Instant::now());
            } else if last[i].2.elapsed() > Duration::from_secs(HANG_S) {
                hung = true;
            }
        }
        if hung {
            let _ = child.kill();
            let _ = child.wait();
            break End::Hung;
        }
        std::thread::sleep(Duration::from_millis(20));
    };

    let mut b = Vec::new();
    let _ = fs::File::open(&slots).and_then(|mut f| f.read_to_end(&mut b));
    let _ = fs::remove_file(&slots);

    if let End::Code(c) = end {
        if c == 0 || c == 1 {
            return c;
        }
        eprintln!("batch ended with exit code {}", c);
        return 2;
    }

    // the batch died or hangs: find the run
    let mut idx: Vec<u64> = b.chunks_exact(16).map(|c| u64::from_le_bytes(c[.. 8].try_into().unwrap())).filter(|&v| v != 0).map(|v| v - 1).collect();
    idx.sort();
    idx.dedup();
    for i in idx {
        let trace = scratch("trace");
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["one", prop.id, &seed.to_string(), &i.to_string(), trace.to_str().unwrap()])
            .stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let e = wait(&mut c, Duration::from_secs(15));
        let tape = words(&fs::read(&trace).unwrap_or_default());
        let _ = fs::remove_file(&trace);
        let class = match e {
            End::Died => "abort".to_string(),
            End::Hung => "hang".to_string(),
            End::Code(0) => continue,
            // an ordinary violation whose minimisation met a hang or abort
            End::Code(_) => match probe_tape(prop, &tape, Duration::from_secs(15)).1 {
                Some((c, _)) => c,
                None => continue,
            },
        };

        // minimise with one child per attempt
        let start = Instant::now();
        let original = tape.len();
        let (best, attempts) = shrink(tape, &class, Duration::from_secs(60), &|cand| {
            probe_tape(prop, cand, Duration::from_millis(1500)).1
        });

        let msg = match class.as_str() {
            "hang" => "the run does not end (endless loop)".to_string(),
            "abort" => "the process died: abort, stack overflow or heap limit exceeded".to_string(),
            _ => String::new(),
        };
        let path = if msg.is_empty() {
            install_hook();
            save(prop, seed, i, Violation { class, msg }, best, original, attempts)
        } else {
            let path = replay_path(prop, seed, i);
            let r = Replay { property: prop.id.to_string(), seed, run: i, class, msg, hash: 0, tape: best, first: None };
            write_replay(&path, &r, "  (the process does not survive the run; replay re-executes the choices)\n", original, attempts);
            path
        };
        let t = Total { runs: i + 1, ..Total::default() };
        write_evidence(prop, tier, seed, &t, start.elapsed().as_secs_f64(), 1, true);
        let r = read_replay(path.to_str().unwrap()).expect("replay file");
        println!("violation in run {} of seed {}: {}: {}", i, seed, r.class, r.msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    eprintln!("the batch died and no run reproduces it");
    3
}

// ---------------------------------------------------------------- other commands

pub fn replay(path: &str) -> i32 {
    let r = match read_replay(path) {
        Some(r) => r,
        None => { eprintln!("cannot read {}", path); return 2; }
    };
    let prop = match props::find(&r.property) {
        Some(p) => p,
        None => { eprintln!("unknown property"); return 2; }
    };
    if r.class == "hang" || r.class == "abort" {
        let c = probe_tape(&prop, &r.tape, Duration::from_secs(10)).1.map_or("none".to_string(), |v| v.0);
        println!("replay {}: class {} (recorded {})", path, c, r.class);
        return if c == r.class { 1 } else { 0 };
    }
    install_hook();
    if let Some(first) = r.first {
        let found = sequence_of(&prop, r.seed, first, r.run);
        let same = found.as_ref().map_or(false, |x| x.run == r.run && x.class == r.class && x.hash == r.hash);
        println!("runs {} to {} of seed {} in one process: {}", first, r.run, r.seed, found.map_or("no violation".to_string(), |x| format!("{}: {}", x.class, x.msg)));
        println!("{}", if same { "REPRODUCED exactly" } else { "DIFFERS from the recorded violation" });
        return if same { 1 } else { 4 };
    }
    let mut ctx = Ctx::replay(&r.tape);
    ctx.keep_log = true;
    let o = execute(&prop, ctx);
    print!("{}", render(&o.ctx));
    match o.violation {
        Some(v) => {
            println!("violation: {}: {}", v.class, v.msg);
            let same = v.class == r.class && o.ctx.hash == r.hash;
            println!("{}", if same { "REPRODUCED exactly" } else { "DIFFERS from the recorded violation" });
            if same { 1 } else { 4 }
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn one(prop: &Prop, seed: u64, idx: u64, trace: &str) -> i32 {
    install_hook();
    let mut ctx = Ctx::generate(run_seed(seed, prop.id, idx));
    if trace != "-" {
        ctx.set_trace(fs::File::create(trace).unwrap());
    }
    ctx.keep_log = trace == "-";
    let o = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || execute(prop, ctx)).unwrap().join().unwrap()
    });
    if trace == "-" {
        print!("{}", render(&o.ctx));
        println!("hash {:016x} choices {} checks {}", o.ctx.hash, o.ctx.tape.len(), o.ctx.stats.checks);
    }
    match o.violation {
        Some(v) => { println!("{}: {}", v.class, v.msg); 1 }
        None => 0,
    }
}

pub fn tape(prop: &Prop, file: &str, out: &str) -> i32 {
    install_hook();
    let t = words(&fs::read(file).unwrap_or_default());
    let o = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || execute(prop, Ctx::replay(&t))).unwrap().join().unwrap()
    });
    match o.violation {
        Some(v) => {
            let mut b = v.class.into_bytes();
            b.push(0);
            b.extend(o.ctx.tape.iter().flat_map(|v| v.to_le_bytes()));
            fs::write(out, b).unwrap();
            1
        }
        None => 0,
    }
}

/// One line per run: hash of the event log. Used to compare processes and worker counts.
pub fn hashes(prop: &Prop, seed: u64, from: u64, to: u64) -> i32 {
    install_hook();
    let mut out = String::new();
    for idx in from .. to {
        let o = execute(prop, Ctx::generate(run_seed(seed, prop.id, idx)));
        out.push_str(&format!("{} {} {:016x} {} {}\n", prop.id, idx, o.ctx.hash, o.ctx.tape.len(), o.violation.is_some()));
    }
    let _ = std::io::stdout().write_all(out.as_bytes());
    0
}
