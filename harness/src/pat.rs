//! Patterns: families of names with symbolic bytes in them.
//!
//!   x          the character itself
//!   ~          any ASCII character (symbolic)
//!   %          any character of two UTF-8 bytes (symbolic)
//!   &          any character of three or four UTF-8 bytes (symbolic)
//!   {a-c0}     one character of the set (symbolic)
//!   (p|q|r)    one of the alternatives (each explored)
//!   [3:p]      p three times;  [2-5:p] two to five times (each explored)
//!   #          in what is repeated: a for the first time, b for the second...
//!   ^          in what is repeated: 0 for the first time, 1 for the second...
//!   `x         x itself, whatever it is
//!   <3>        sets the budget for the following to 3
//!   <X>        a derivation from X of the grammar in gram.rs, within the budget
use crate::{gram, sym};

fn dom_of(p: &[u8]) -> (sym::Dom, usize) {
    // p starts after `{`
    let mut d = [0u64; 4];
    let mut i = 0;
    while p[i] != b'}' {
        let (lo, hi);
        if p[i + 1] == b'-' && p[i + 2] != b'}' {
            lo = p[i];
            hi = p[i + 2];
            i += 3;
        } else {
            lo = p[i];
            hi = lo;
            i += 1;
        }
        let mut c = lo;
        while c <= hi {
            d[(c >> 6) as usize] |= 1 << (c & 63);
            c += 1;
        }
    }
    (d, i + 1)
}

/// the end of the group whose inside starts at `i`
fn skip(p: &[u8], mut i: usize, close: u8) -> usize {
    let mut depth = 0;
    loop {
        let c = p[i];
        if c == close && depth == 0 {
            return i;
        }
        match c {
            b'(' | b'[' | b'{' => depth += 1,
            b')' | b']' | b'}' => depth -= 1,
            b'`' => i += 1,
            _ => {}
        }
        i += 1;
    }
}

pub fn build(p: &[u8], out: &mut Vec<u8>) {
    build_within(p, out, &mut 0, 0);
}

fn build_within(p: &[u8], out: &mut Vec<u8>, budget: &mut u32, round: u32) {
    let mut i = 0;
    while i < p.len() {
        let c = p[i];
        i += 1;
        match c {
            b'~' => out.push(sym::byte(&sym::ASCII)),
            b'%' => {
                out.push(sym::byte(&sym::range(0xc2, 0xdf)));
                out.push(sym::byte(&sym::range(0x80, 0xbf)));
            }
            b'&' => {
                if sym::choice(2) == 0 {
                    out.push(sym::byte(&sym::range(0xe1, 0xec)));
                } else {
                    out.push(sym::byte(&sym::range(0xf1, 0xf3)));
                    out.push(sym::byte(&sym::range(0x80, 0xbf)));
                }
                out.push(sym::byte(&sym::range(0x80, 0xbf)));
                out.push(sym::byte(&sym::range(0x80, 0xbf)));
            }
            b'{' => {
                let (d, n) = dom_of(&p[i..]);
                i += n;
                out.push(sym::byte(&d));
            }
            b'#' => out.push(b'a' + (round % 26) as u8),
            b'^' => out.push(b'0' + (round % 10) as u8),
            b'`' => {
                out.push(p[i]);
                i += 1;
            }
            b'[' => {
                let end = skip(p, i, b']');
                let mut lo = 0;
                while p[i].is_ascii_digit() {
                    lo = lo * 10 + (p[i] - b'0') as u32;
                    i += 1;
                }
                let mut n = lo;
                if p[i] == b'-' {
                    i += 1;
                    let mut hi = 0;
                    while p[i].is_ascii_digit() {
                        hi = hi * 10 + (p[i] - b'0') as u32;
                        i += 1;
                    }
                    n = lo + sym::choice(hi - lo + 1);
                }
                let mut k = 0;
                while k < n {
                    build_within(&p[i + 1..end], out, budget, k);
                    k += 1;
                }
                i = end + 1;
            }
            b'(' => {
                let end = skip(p, i, b')');
                let mut starts = [0usize; 64];
                let mut n = 1;
                starts[0] = i;
                let mut j = i;
                while j < end {
                    match p[j] {
                        b'|' => {
                            starts[n] = j + 1;
                            n += 1;
                        }
                        b'(' => j = skip(p, j + 1, b')'),
                        b'[' => j = skip(p, j + 1, b']'),
                        b'{' => j = skip(p, j + 1, b'}'),
                        b'`' => j += 1,
                        _ => {}
                    }
                    j += 1;
                }
                starts[n] = end + 1;
                let k = sym::choice(n as u32) as usize;
                build_within(&p[starts[k]..starts[k + 1] - 1], out, budget, round);
                i = end + 1;
            }
            b'<' => {
                let x = p[i];
                i += 2;
                if x.is_ascii_digit() {
                    *budget = (x - b'0') as u32;
                } else {
                    derive(x, out, budget);
                }
            }
            c => out.push(c),
        }
    }
}

fn derive(x: u8, out: &mut Vec<u8>, budget: &mut u32) {
    let mut k = 0;
    while gram::RULES[k].0 != x {
        k += 1;
    }
    let rules = gram::RULES[k].1;
    // the rules the budget allows
    let mut within = [0u8; 32];
    let mut n = 0;
    let mut j = 0;
    while j < rules.len() {
        if rules[j].0 <= *budget {
            within[n] = j as u8;
            n += 1;
        }
        j += 1;
    }
    let c = if n > 1 { sym::choice(n as u32) } else { 0 };
    let (cost, p) = rules[within[c as usize] as usize];
    *budget -= cost;
    build_within(p.as_bytes(), out, budget, 0);
}
