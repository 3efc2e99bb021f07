mod ctx;
mod runner;
mod wire;
mod chars;
mod model;
mod pack;
mod link;
mod source;
mod real;
mod props;

#[global_allocator]
static ALLOC: runner::Alloc = runner::Alloc;

fn usage() -> ! {
    eprintln!("usage: sim check PROP | replay FILE | one PROP SEED RUN | hashes PROP SEED FROM TO | list");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|v| v.as_str()).unwrap_or_else(|| usage());
    let prop = |i: usize| props::find(s(i)).unwrap_or_else(|| usage());
    let num = |i: usize| s(i).parse::<u64>().unwrap_or_else(|_| usage());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let code = match s(0) {
        "check" => runner::check(&prop(1), tier, seed),
        "batch" => runner::batch(&prop(1), s(2), num(3), s(4)),
        "replay" => runner::replay(s(1)),
        "one" => runner::one(&prop(1), num(2), num(3), a.get(4).map(|v| v.as_str()).unwrap_or("-")),
        "sequence" => runner::sequence(&prop(1), num(2), num(3), num(4), s(5)),
        "tape" => runner::tape(&prop(1), s(2), s(3)),
        "hashes" => runner::hashes(&prop(1), num(2), num(3), num(4)),
        "list" => {
            for p in props::all() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
