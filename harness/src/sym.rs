//! Interface to the symbolic executor.  In a native build the same functions
//! are supplied by the replay program.
extern "C" {
    fn sym_byte(dom: *const [u64; 4]) -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, tag: *const u8, len: usize);
    fn sym_observe(p: *const u8, len: usize);
    fn sym_input(p: *const u8, len: usize);
    fn sym_mark(k: u32);
}

pub type Dom = [u64; 4];

pub const fn set(bytes: &[u8]) -> Dom {
    let mut d = [0u64; 4];
    let mut i = 0;
    while i < bytes.len() {
        let b = bytes[i];
        d[(b >> 6) as usize] |= 1 << (b & 63);
        i += 1;
    }
    d
}
pub const fn range(lo: u8, hi: u8) -> Dom {
    let mut d = [0u64; 4];
    let mut b = lo as usize;
    while b <= hi as usize {
        d[b >> 6] |= 1 << (b & 63);
        b += 1;
    }
    d
}
pub const fn union(a: Dom, b: Dom) -> Dom {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub const fn minus(a: Dom, b: Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}

pub const ASCII: Dom = range(0, 0x7f);

pub fn byte(d: &Dom) -> u8 {
    unsafe { sym_byte(d) }
}
/// One of `0..n`, explored one alternative at a time.
pub fn choice(n: u32) -> u32 {
    unsafe { sym_choice(n) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, tag: &'static str) {
    unsafe { sym_assert(c, tag.as_ptr(), tag.len()) }
}
pub fn observe(s: &[u8]) {
    unsafe { sym_observe(s.as_ptr(), s.len()) }
}
pub fn input(s: &[u8]) {
    unsafe { sym_input(s.as_ptr(), s.len()) }
}

/// Count a path of kind `k` (0: name accepted, 1: rejected, others: see the harness).
pub fn mark(k: u32) {
    unsafe { sym_mark(k) }
}
