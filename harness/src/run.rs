//! Check driver: spreads the cases of a property over worker processes,
//! watches them, and turns what they observed into a verdict.
//!
//! Every case is a pure function of (seed, property, index). A worker
//! writes the index it is at to a progress file before it starts on it,
//! so a worker which dies (abort, signal, stack overflow, sanitizer
//! report) or stops making progress is attributed to a case as well.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::rng::Rng;

pub struct Fail {
    pub msg: String,
    pub input: Vec<u8>,
}

pub type Verdict = Result<(), String>;

/// What a case sees of, and reports to, the driver
pub struct Ctx {
    pub idx: u64,
    pub thorough: bool,
    pub evaluations: u64,
    pub feats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub input: Vec<u8>,
}

impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Ctx { idx: 0, thorough, evaluations: 0, feats: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], input: vec![] }
    }
    /// The input under test, for the report
    pub fn input(&mut self, b: impl AsRef<[u8]>) {
        self.input.clear();
        self.input.extend_from_slice(b.as_ref());
    }
    pub fn feat(&mut self, f: &str) {
        self.add(f, 1)
    }
    pub fn add(&mut self, f: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.feats.get_mut(f) {
            Some(x) => *x += n,
            None => {
                self.feats.insert(f.to_string(), n);
            }
        }
    }
    pub fn feats(&mut self, m: &BTreeMap<&'static str, u64>) {
        for (k, v) in m {
            self.add(k, *v);
        }
    }
    pub fn max(&mut self, f: &str, n: u64) {
        let e = self.feats.entry(f.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// One execution of the library was observed and judged
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: fn(&mut Ctx, &mut Rng) -> Verdict,
    /// cases in (quick, thorough)
    pub cases: (u64, u64),
    /// CPU seconds a single case may take, generous
    pub cpu: u64,
    /// features which must have been observed, or the run is inconclusive
    pub need: &'static [&'static str],
    pub level: &'static str,
}

/* ------------------------------------------------------------ worker */

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {l}: {m}"));
    }));
}

pub fn run_case(p: &Prop, cx: &mut Ctx, seed: u64, idx: u64) -> Result<(), Fail> {
    cx.idx = idx;
    cx.input.clear();
    let mut r = Rng::derive(seed, p.id, idx);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(cx, &mut r)));
    let msg = match res {
        Ok(Ok(())) => return Ok(()),
        Ok(Err(m)) => m,
        Err(_) => PANIC.with(|p| p.borrow().clone()),
    };
    Err(Fail { msg, input: cx.input.clone() })
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Worker entry: cases w, w+n, w+2n, ... < total
pub fn worker(p: &'static Prop, thorough: bool, seed: u64, w: u64, n: u64, first: u64, total: u64, deadline: u64, dir: &Path) {
    install_hook();
    let dir = dir.to_path_buf();
    let body = move || {
        let start = Instant::now();
        let mut cx = Ctx::new(thorough);
        let mut done = 0u64;
        let prog = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("{w}.progress"))).unwrap();
        let mut viol = fs::File::create(dir.join(format!("{w}.viol"))).unwrap();
        let mut found = 0;
        let mut i = first + w;
        while i < total {
            if start.elapsed().as_secs() >= deadline {
                cx.feat("(stopped by the time limit)");
                break;
            }
            write_at(&prog, i);
            if let Err(f) = run_case(p, &mut cx, seed, i) {
                writeln!(viol, "{i}\t{}\t{}", esc(&f.msg), hex(&f.input)).unwrap();
                found += 1;
                if found == 3 + std::env::var("MON_MORE").map_or(0, |s| s.parse().unwrap_or(0)) {
                    break;
                }
            }
            done += 1;
            i += n;
        }
        let mut o = String::new();
        o.push_str(&format!("done\t{done}\nevals\t{}\n", cx.evaluations));
        for (k, v) in &cx.feats {
            o.push_str(&format!("feat\t{}\t{v}\n", esc(k)));
        }
        for s in &cx.samples {
            o.push_str(&format!("sample\t{}\n", esc(s)));
        }
        let mut h = Vec::with_capacity(cx.distinct.len() * 8);
        for x in &cx.distinct {
            h.extend_from_slice(&x.to_le_bytes());
        }
        fs::write(dir.join(format!("{w}.distinct")), h).unwrap();
        fs::write(dir.join(format!("{w}.tmp")), o).unwrap();
        fs::rename(dir.join(format!("{w}.tmp")), dir.join(format!("{w}.result"))).unwrap();
    };
    // The stack a thread has by default
    std::thread::Builder::new().stack_size(2 << 20).spawn(body).unwrap().join().unwrap();
}

fn write_at(f: &fs::File, i: u64) {
    if cfg!(miri) {
        use std::io::Seek;
        let mut f = f;
        f.seek(std::io::SeekFrom::Start(0)).unwrap();
        f.write_all(&i.to_le_bytes()).unwrap();
    } else {
        use std::os::unix::fs::FileExt;
        f.write_all_at(&i.to_le_bytes(), 0).unwrap();
    }
}

/* ------------------------------------------------------- coordinator */

/// A pool of workers running some cases under some build of the harness
pub struct Pool {
    pub name: &'static str,
    /// program and its leading arguments
    pub cmd: Vec<String>,
    pub env: Vec<(String, String)>,
    pub workers: u64,
    /// first case (inclusive), last (exclusive)
    pub first: u64,
    pub total: u64,
    pub deadline: u64,
    pub cpu: u64,
}

#[derive(Default)]
pub struct Outcome {
    pub done: u64,
    pub evals: u64,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub distinct: HashSet<u64>,
    /// (pool, index, message, input)
    pub viol: Vec<(String, u64, String, Vec<u8>)>,
    pub errors: Vec<String>,
}

fn cpu_secs(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t as f64 / 100.0)
}

struct W {
    child: Child,
    id: u64,
    at: Option<u64>,
    cpu_at: f64,
    wall_at: Instant,
}

fn read_progress(dir: &Path, w: u64) -> Option<u64> {
    let b = fs::read(dir.join(format!("{w}.progress"))).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn run_pool(p: &Prop, thorough: bool, seed: u64, pool: &Pool, dir: &Path, out: &mut Outcome) {
    let dir: PathBuf = dir.join(pool.name);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let mut ws = vec![];
    for id in 0..pool.workers {
        let err = fs::File::create(dir.join(format!("{id}.stderr"))).unwrap();
        let mut c = Command::new(&pool.cmd[0]);
        c.args(&pool.cmd[1..])
            .args(["worker", p.id, if thorough { "thorough" } else { "quick" }])
            .args([seed, id, pool.workers, pool.first, pool.total, pool.deadline].iter().map(|x| x.to_string()))
            .arg(&dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err);
        for (k, v) in &pool.env {
            c.env(k, v);
        }
        match c.spawn() {
            Ok(child) => ws.push(W { child, id, at: None, cpu_at: 0.0, wall_at: Instant::now() }),
            Err(e) => out.errors.push(format!("{}: cannot start a worker: {e}", pool.name)),
        }
    }
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < ws.len() {
            let w = &mut ws[i];
            let prog = read_progress(&dir, w.id);
            let mut over = false;
            match w.child.try_wait() {
                Ok(None) => {
                    let cpu = cpu_secs(w.child.id()).unwrap_or(0.0);
                    if prog != w.at {
                        w.at = prog;
                        w.cpu_at = cpu;
                        w.wall_at = Instant::now();
                    } else if prog.is_some() && cpu - w.cpu_at > pool.cpu as f64 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        let m = format!("no end: the case was still running after {} s of CPU time", pool.cpu);
                        out.viol.push((pool.name.into(), prog.unwrap(), m, vec![]));
                        over = true;
                    } else if w.wall_at.elapsed().as_secs() > 600 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        out.errors.push(format!("{}: worker {} made no progress for 600 s (case {prog:?})", pool.name, w.id));
                        over = true;
                    }
                }
                Ok(Some(st)) => {
                    over = true;
                    if !(st.success() && dir.join(format!("{}.result", w.id)).exists()) {
                        let e = fs::read_to_string(dir.join(format!("{}.stderr", w.id))).unwrap_or_default();
                        let tail = last_lines(&e);
                        match prog {
                            Some(at) if is_finding(&st, &e) => out.viol.push((pool.name.into(), at, format!("the process ended abnormally ({st}): {tail}"), vec![])),
                            _ => out.errors.push(format!("{}: worker {} failed ({st}): {tail}", pool.name, w.id)),
                        }
                    }
                }
                Err(e) => {
                    out.errors.push(format!("{}: {e}", pool.name));
                    over = true;
                }
            }
            if over {
                let id = ws[i].id;
                collect(&dir, id, pool.name, out);
                ws.remove(i);
            } else {
                i += 1;
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
}

/// Did a worker die of something the code under test did?
fn is_finding(st: &std::process::ExitStatus, err: &str) -> bool {
    use std::os::unix::process::ExitStatusExt;
    if err.contains("Undefined Behavior") || err.contains("AddressSanitizer") || err.contains("overflowed its stack") || err.contains("ThreadSanitizer") || err.contains("memory leaked") {
        return true;
    }
    if err.contains("memory allocation of") {
        return true;
    }
    // SIGKILL is the environment's doing
    matches!(st.signal(), Some(s) if s != 9 && s != 15 && s != 2)
}

fn last_lines(e: &str) -> String {
    let key = e.lines().position(|l| l.contains("Undefined Behavior") || l.contains("ERROR: AddressSanitizer") || l.contains("overflowed its stack") || l.contains("memory allocation of") || l.contains("WARNING: ThreadSanitizer"));
    let v: Vec<&str> = match key {
        Some(k) => e.lines().skip(k).take(12).collect(),
        None => {
            let n = e.lines().count();
            e.lines().skip(n.saturating_sub(8)).collect()
        }
    };
    v.join(" | ")
}

fn collect(dir: &Path, id: u64, pool: &str, out: &mut Outcome) {
    if let Ok(s) = fs::read_to_string(dir.join(format!("{id}.result"))) {
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "done" => out.done += f[1].parse::<u64>().unwrap(),
                "evals" => out.evals += f[1].parse::<u64>().unwrap(),
                "feat" => {
                    let k = unesc(f[1]);
                    let v: u64 = f[2].parse().unwrap();
                    let e = out.feats.entry(k.clone()).or_insert(0);
                    if k.starts_with("max ") {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                "sample" if out.samples.len() < 6 => out.samples.push(unesc(f[1])),
                _ => {}
            }
        }
    }
    if let Ok(b) = fs::read(dir.join(format!("{id}.distinct"))) {
        for c in b.chunks_exact(8) {
            out.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    if let Ok(s) = fs::read_to_string(dir.join(format!("{id}.viol"))) {
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 3 {
                out.viol.push((pool.into(), f[0].parse().unwrap(), unesc(f[1]), unhex(f[2])));
            }
        }
    }
}

/* ---------------------------------------------------------- reporting */

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence(p: &Prop, thorough: bool, seed: u64, out: &Outcome, pools: &str, wall: f64) -> String {
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n", p.id, if thorough { "thorough" } else { "quick" }, p.level));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", out.evals, out.distinct.len()));
    s.push_str(&format!("  \"cases\": {},\n", out.done));
    s.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    s.push_str(&format!("  \"builds\": {},\n", json_str(pools)));
    s.push_str("  \"observed\": {");
    let f: Vec<String> = out.feats.iter().map(|(k, v)| format!("\n   {}: {v}", json_str(k))).collect();
    s.push_str(&f.join(","));
    s.push_str("\n  },\n  \"samples\": [");
    let f: Vec<String> = out.samples.iter().map(|k| format!("\n   {}", json_str(k))).collect();
    s.push_str(&f.join(","));
    s.push_str("\n  ]\n },\n");
    s.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", out.viol.len()));
    s
}
