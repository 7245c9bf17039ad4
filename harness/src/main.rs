mod alloc;
mod embed;
mod ev;
mod gen;
mod grammar;
mod props;
mod rng;
mod run;
mod spec;
mod work;

use std::path::{Path, PathBuf};
use std::time::Instant;

use run::{Ctx, Outcome, Pool, Prop};

#[global_allocator]
static ALLOC: alloc::Mon = alloc::Mon;

fn find(id: &str) -> &'static Prop {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    match ALL.get_or_init(props::all).iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn limit_memory(bytes: u64) {
    #[cfg(not(miri))]
    {
        #[repr(C)]
        struct R(u64, u64);
        extern "C" {
            fn setrlimit(r: i32, l: *const R) -> i32;
        }
        // RLIMIT_AS
        unsafe { setrlimit(9, &R(bytes, bytes)) };
        // RLIMIT_CORE
        unsafe { setrlimit(4, &R(0, 0)) };
    }
    let _ = bytes;
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id, tier] => std::process::exit(check(find(id), *tier == "thorough")),
        ["worker", id, tier, seed, w, n, first, total, deadline, dir] => {
            if std::env::var("MON_NO_RLIMIT").is_err() {
                limit_memory(3 << 30);
            }
            let num = |s: &str| s.parse::<u64>().unwrap();
            run::worker(find(id), *tier == "thorough", num(seed), num(w), num(n), num(first), num(total), num(deadline), Path::new(dir));
        }
        ["replay", file] => std::process::exit(replay(file)),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: mon check <property> quick|thorough | mon replay <file> | mon list");
            std::process::exit(2)
        }
    }
}

/// Properties which are decided under sanitizers as well, with the number
/// of cases (quick, thorough) under AddressSanitizer and under Miri
const SANITIZED: &[(&str, (u64, u64), (u64, u64))] = &[("P02", (12_000, 150_000), (80, 1200))];

fn out_dir() -> PathBuf {
    PathBuf::from(std::env::var("MON_HOME").unwrap_or_else(|_| ".".into()))
}

fn check(p: &'static Prop, thorough: bool) -> i32 {
    let start = Instant::now();
    let seed = seed();
    let tier = if thorough { "thorough" } else { "quick" };
    let home = out_dir();
    let scratch = home.join("out").join(format!("{}.{}", p.id, std::process::id()));
    let exe = std::env::current_exe().unwrap();
    let target = exe.parent().unwrap().parent().unwrap().to_path_buf();
    let exe = exe.to_string_lossy().into_owned();
    let mut out = Outcome::default();

    let native = Pool {
        name: "native",
        cmd: vec![exe],
        env: vec![],
        workers: 8,
        first: 0,
        total: if thorough { p.cases.1 } else { p.cases.0 },
        deadline: if !thorough { 300 } else if p.id == "P02" { 360 } else { 780 },
        cpu: p.cpu,
    };
    let mut pools = "native (release, debug assertions and overflow checks on)".to_string();
    run::run_pool(p, thorough, seed, &native, &scratch, &mut out);
    // Builds which see what happens to memory. They take cases of their own
    let var = |k: &str, v: &str| (k.to_string(), v.to_string());
    for (id, asan, miri) in SANITIZED {
        if *id != p.id || !out.viol.is_empty() {
            continue;
        }
        let at = native.total;
        let n = if thorough { asan.1 } else { asan.0 };
        let pool = Pool {
            name: "asan",
            cmd: vec![target.join("asan/x86_64-unknown-linux-gnu/release/mon").to_string_lossy().into_owned()],
            env: vec![var("MON_BUILD", "asan"), var("MON_NO_RLIMIT", "1"), var("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")],
            workers: 8,
            first: at,
            total: at + n,
            deadline: if thorough { 200 } else { 100 },
            cpu: p.cpu * 4,
        };
        run::run_pool(p, thorough, seed, &pool, &scratch, &mut out);
        if !out.viol.is_empty() {
            continue;
        }
        let at = at + n;
        let n = if thorough { miri.1 } else { miri.0 };
        let pool = Pool {
            name: "miri",
            cmd: ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", &target.join("../Cargo.toml").to_string_lossy(), "--target-dir", &target.join("miri").to_string_lossy(), "--"]
                .iter()
                .map(|s| s.to_string())
                .collect(),
            env: vec![var("MON_BUILD", "miri"), var("MON_NO_RLIMIT", "1"), var("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks")],
            workers: 8,
            first: at,
            total: at + n,
            deadline: if thorough { 200 } else { 60 },
            cpu: 600,
        };
        run::run_pool(p, thorough, seed, &pool, &scratch, &mut out);
        pools.push_str("; AddressSanitizer (nightly, release); Miri (nightly)");
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let wall = start.elapsed().as_secs_f64();
    std::fs::create_dir_all(home.join("evidence")).unwrap();
    std::fs::write(home.join("evidence").join(format!("{}.json", p.id)), run::evidence(p, thorough, seed, &out, &pools, wall)).unwrap();

    println!("{} {tier} seed={seed}: {} cases, {} evaluations, {} distinct non-trivial, {wall:.1} s", p.id, out.done, out.evals, out.distinct.len());

    out.viol.sort_by(|a, b| (a.3.len(), a.1).cmp(&(b.3.len(), b.1)));
    for (n, (pool, idx, msg, input)) in out.viol.iter().enumerate().take(5 + std::env::var("MON_MORE").map_or(0, |s| s.parse().unwrap_or(0))) {
        let dir = home.join("out");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{n}.replay", p.id));
        let text = format!("property={}\ntier={tier}\nseed={seed}\nindex={idx}\nbuild={pool}\nmessage={msg}\ninput={}\ninput_hex={}\n", p.id, props::show(input), run::hex(input));
        std::fs::write(&path, text).unwrap();
        println!("  case {idx} ({pool}): {msg}\n    input: {}", props::show(input));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    if !out.viol.is_empty() {
        return 1;
    }
    for e in &out.errors {
        println!("error: {e}");
    }
    if !out.errors.is_empty() {
        return 2;
    }
    let missing: Vec<_> = p.need.iter().filter(|n| !out.feats.contains_key(**n)).collect();
    if !missing.is_empty() {
        println!("inconclusive: never observed {missing:?}");
        return 3;
    }
    0
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("cannot read the replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    let p = find(&get("property"));
    run::install_hook();
    let mut cx = Ctx::new(get("tier") == "thorough");
    match run::run_case(p, &mut cx, get("seed").parse().unwrap(), get("index").parse().unwrap()) {
        Ok(()) => {
            println!("{}: the case holds", p.id);
            0
        }
        Err(f) => {
            println!("{}\n  input: {}", f.msg, props::show(&f.input));
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
    }
}
