//! symex: path-wise symbolic execution of LLVM IR with an SMT solver.
//!
//!   symex MODULE.ll ENTRY OUTDIR [options]
mod ex;
mod exec;
mod ll;
mod solver;
mod z3;

use exec::*;
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

/// Best-effort readable path of a v0 or legacy mangled Rust symbol.
pub fn demangle_path(s: &str) -> String {
    if !s.starts_with("_R") && !s.starts_with("_ZN") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = if s.starts_with("_ZN") { 3 } else { 2 };
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        let c = b[i];
        // crate disambiguators ("Cs<base62>_") contain digits; skip them
        if c == b's' && i > 0 && (b[i - 1] == b'C' || b[i - 1] == b'N' || b[i - 1].is_ascii_alphabetic()) {
            if let Some(p) = s[i..].find('_') {
                if p < 14 && s[i + 1..i + p].bytes().all(|c| c.is_ascii_alphanumeric()) {
                    i += p + 1;
                    continue;
                }
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && !s.starts_with("_ZN") {
                j += 1;
            }
            if n > 0 && j + n <= b.len() && s.is_char_boundary(j + n) {
                let id = &s[j..j + n];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.') && !(id.len() == 17 && id.starts_with('h')) {
                    out.push(id.to_string());
                }
                i = j + n;
                continue;
            }
        }
        i += 1;
    }
    out.dedup();
    out.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{x:02x}");
    }
    o
}

struct Opts {
    tokens: Option<(i32, i32)>,
    time: f64,
    coverage: bool,
}

fn write_result(eng: &Engine, out: &str, entry: &str, errors: &[String], wall: f64, coverage: bool) {
    let s = &eng.stats;
    let v = &eng.solver;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"asserts_concrete\":{},\"asserts_solver\":{},\"max_depth\":{},\"max_vars\":{},\"max_steps\":{},\"queries\":{},\"cached\":{},\"confirms\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"unconfirmed\":{},\"splits\":{},\"solver_time\":{:.4},\"max_query\":{:.4},\"wall\":{:.3},\"exprs\":{}",
        js(entry), s.paths, s.infeasible, s.steps, s.forks, s.asserts_concrete, s.asserts_solver, s.max_depth, s.max_vars, s.max_steps,
        v.queries, v.cached, v.confirms, v.sat, v.unsat, v.unknown, v.unconfirmed, s.splits, v.time, v.max_query, wall, eng.cx.nodes.len()
    );
    let _ = write!(o, ",\"marks\":{:?}", s.marks);
    o.push_str(",\"errors\":[");
    o.push_str(&errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    o.push_str(
        &eng.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"detail\":{},\"vals\":\"{}\",\"input\":{},\"trace\":[{}]}}",
                    js(&v.kind),
                    js(&v.detail),
                    hex(&v.vals),
                    js(&v.input),
                    v.trace.iter().map(|t| js(&demangle_path(t))).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(
        &eng.samples
            .iter()
            .map(|v| format!("{{\"vals\":\"{}\",\"obs\":[{}]}}", hex(&v.vals), v.obs.iter().map(|b| format!("\"{}\"", hex(b))).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"funcs\":[");
    let mut fs: Vec<String> = vec![];
    for (i, u) in eng.funcs_used.iter().enumerate() {
        if *u {
            fs.push(js(&demangle_path(&eng.m.funcs[i].name)));
        }
    }
    o.push_str(&fs.join(","));
    o.push_str("]}");
    let _ = coverage;
    std::fs::write(out, o).expect("write result");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: symex MODULE.ll ENTRY OUTDIR [--tokens R,W] [--time S] [--max-steps N] [--max-depth N]");
        std::process::exit(2);
    }
    let mut o = Opts { tokens: None, time: 600.0, coverage: false };
    let (mut max_steps, mut max_depth, mut qtime) = (400_000_000u64, 4000u32, 300u32);
    let mut first = None;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--tokens" => {
                let (a, b) = args[i + 1].split_once(',').unwrap();
                o.tokens = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            "--time" => o.time = args[i + 1].parse().unwrap(),
            "--max-steps" => max_steps = args[i + 1].parse().unwrap(),
            "--max-depth" => max_depth = args[i + 1].parse().unwrap(),
            "--first-choice" => first = Some(args[i + 1].parse().unwrap()),
            "--query-ms" => qtime = args[i + 1].parse().unwrap(),
            "--coverage" => {
                o.coverage = true;
                i -= 1;
            }
            x => panic!("option {x}"),
        }
        i += 2;
    }
    let entry = &args[2];
    let outdir = &args[3];
    std::fs::create_dir_all(outdir).unwrap();
    let t0 = Instant::now();
    const PR_SET_CHILD_SUBREAPER: i32 = 36;
    unsafe { prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0) };
    let m = ll::Module::load(&args[1]);
    let mut eng = Engine::new(&m, qtime);
    eng.max_steps = max_steps;
    eng.max_depth = max_depth;
    eng.first_choice = first;
    let st = eng.initial(entry);
    eng.pending.push(st);

    let mut errors: Vec<String> = vec![];
    let mut is_child = false;
    let mut start = t0;
    let mut n = 0u64;
    while let Some(mut st) = eng.pending.pop() {
        let stop = eng.run(&mut st);
        if let Some(e) = eng.finish(st, stop) {
            errors.push(e);
            if errors.len() > 5 {
                break;
            }
        }
        if eng.violations.len() >= 12 {
            break;
        }
        if t0.elapsed().as_secs_f64() > o.time {
            errors.push("time limit reached before exploration finished".into());
            break;
        }
        n += 1;
        if let Some((r, _)) = o.tokens {
            if n > 4 && eng.pending.len() >= 2 {
                let mut b = 0u8;
                let got = unsafe { read(r, &mut b, 1) };
                if got == 1 {
                    let half = eng.pending.len() / 2;
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        is_child = true;
                        eng.pending.truncate(half.max(1));
                        eng.stats = Stats::default();
                        eng.violations.clear();
                        eng.vkeys.clear();
                        eng.samples.clear();
                        eng.max_samples = 2;
                        eng.sample_every = 1;
                        let s = &mut eng.solver;
                        s.queries = 0;
                        s.cached = 0;
                        s.confirms = 0;
                        s.sat = 0;
                        s.unsat = 0;
                        s.unknown = 0;
                        s.unconfirmed = 0;
                        s.time = 0.0;
                        s.max_query = 0.0;
                        errors.clear();
                        start = Instant::now();
                        n = 0;
                    } else if pid > 0 {
                        eng.pending.drain(..half.max(1));
                    } else {
                        errors.push("fork failed".into());
                        break;
                    }
                }
            }
        }
    }
    let pid = unsafe { getpid() };
    let out = format!("{outdir}/{entry}.{pid}.json");
    if let Some((_, w)) = o.tokens {
        let b = b'+';
        unsafe { write(w, &b, 1) };
    }
    if is_child {
        write_result(&eng, &out, entry, &errors, start.elapsed().as_secs_f64(), o.coverage);
        unsafe { _exit(0) };
    }
    // every descendant whose parent has ended is handed to this process
    loop {
        let mut s = 0;
        let c = unsafe { waitpid(-1, &mut s, 0) };
        if c <= 0 {
            break;
        }
        if s != 0 {
            errors.push(format!("worker {c} ended with status {s}"));
        }
    }
    write_result(&eng, &out, entry, &errors, start.elapsed().as_secs_f64(), o.coverage);
    std::process::exit(0);
}
