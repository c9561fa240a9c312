//! Runs a harness natively on concrete values.
//!
//!   replay --list                 the table of harnesses, as JSON
//!   replay HARNESS HEXVALS        run one; prints what it fed the code and what
//!                                 it observed, exits 1 if an assertion failed
//!   replay --batch                lines "HARNESS HEXVALS" on stdin; one line of
//!                                 observations per line
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[derive(Default)]
struct Run {
    vals: Vec<u8>,
    next: usize,
    obs: Vec<String>,
    inputs: Vec<Vec<u8>>,
    failed: Option<String>,
    assumed: bool,
    quiet: bool,
}
thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run::default());
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn take(default: u8) -> u8 {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let k = r.next;
        r.next += 1;
        r.vals.get(k).copied().unwrap_or(default)
    })
}

#[no_mangle]
pub extern "C" fn sym_byte(dom: *const [u64; 4]) -> u8 {
    let d = unsafe { *dom };
    let first = (0..=255u8).find(|b| d[(b >> 6) as usize] >> (b & 63) & 1 == 1).expect("empty domain");
    take(first)
}
#[no_mangle]
pub extern "C" fn sym_choice(_n: u32) -> u32 {
    take(0) as u32
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        RUN.with(|r| r.borrow_mut().assumed = false);
        println!("assumption does not hold");
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(c: bool, tag: *const u8, len: usize) {
    if !c {
        let t = unsafe { std::slice::from_raw_parts(tag, len) };
        let t = String::from_utf8_lossy(t).into_owned();
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            if r.failed.is_none() {
                r.failed = Some(t);
            }
        });
    }
}
#[no_mangle]
pub extern "C" fn sym_observe(p: *const u8, len: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, len) };
    RUN.with(|r| r.borrow_mut().obs.push(hex(b)));
}
#[no_mangle]
pub extern "C" fn sym_input(p: *const u8, len: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, len) };
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        if !r.quiet {
            println!("name: {}", String::from_utf8_lossy(b));
            let _ = std::io::stdout().flush();
        }
        r.inputs.push(b.to_vec());
    });
}
#[no_mangle]
pub extern "C" fn sym_mark(_k: u32) {}

fn find(name: &str) -> extern "C" fn() {
    match harness::TABLE.iter().find(|i| i.name == name) {
        Some(i) => i.run,
        None => {
            eprintln!("no harness {name}");
            std::process::exit(2)
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn run(name: &str, vals: &str, quiet: bool) -> Run {
    let f = find(name);
    RUN.with(|r| *r.borrow_mut() = Run { vals: unhex(vals), quiet, ..Run::default() });
    f();
    RUN.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("--list") => {
            let rows: Vec<String> = harness::TABLE
                .iter()
                .map(|i| {
                    let p: Vec<String> = i.pats.iter().map(|p| json(p)).collect();
                    format!("{{\"prop\":{},\"name\":{},\"tier\":{},\"about\":{},\"pats\":[{}]}}", json(i.prop), json(i.name), i.tier, json(i.about), p.join(","))
                })
                .collect();
            println!("[{}]", rows.join(",\n"));
        }
        Some("--batch") => {
            for line in std::io::stdin().lock().lines() {
                let line = line.expect("stdin");
                let (n, v) = line.split_once(' ').unwrap_or((&line, ""));
                let r = run(n, v, true);
                println!("{} {}", r.failed.as_deref().map_or("ok", |_| "failed"), r.obs.join(","));
            }
        }
        Some(n) => {
            let r = run(n, a.get(2).map_or("", String::as_str), false);
            for o in &r.obs {
                println!("observed: {o}");
            }
            if let Some(t) = r.failed {
                println!("ASSERTION FAILED: {t}");
                std::process::exit(1);
            }
            println!("ok");
        }
        None => {
            eprintln!("usage: replay --list | --batch | HARNESS HEXVALS");
            std::process::exit(2);
        }
    }
}
