use crate::{pat, spec, sym};
use crate::spec::Flags;

/// What is known about a harness; the runner reads this through `replay --list`.
pub struct Info {
    pub prop: &'static str,
    pub name: &'static str,
    /// 0: quick and thorough, 1: thorough only
    pub tier: u8,
    /// the families of names, for the record of bounds
    pub pats: &'static [&'static str],
    pub about: &'static str,
    pub run: extern "C" fn(),
}

pub const ALL: u16 = 0x3ff;

/// a set of flags: `fixed`, and each bit of `free` either way (symbolic)
pub fn flags(fixed: u16, free: u16) -> Flags {
    let mut f = fixed;
    let mut k = 0;
    let d = sym::range(0, 1);
    while k < 10 {
        if free >> k & 1 == 1 {
            f |= (sym::byte(&d) as u16) << k;
        }
        k += 1;
    }
    Flags(f)
}

/// the crate's flags of the same names
pub fn real(f: Flags) -> undname::Flags {
    use undname::Flags as F;
    const BY_NAME: [F; 10] = [
        F::NO_CALLING_CONVENTION,
        F::NO_TAG_SPECIFIER,
        F::NO_ACCESS_SPECIFIER,
        F::NO_MEMBER_TYPE,
        F::NO_RETURN_TYPE,
        F::NO_VARIABLE_TYPE,
        F::NO_THISTYPE,
        F::NO_LEADING_UNDERSCORES,
        F::NO_MS_KEYWORDS,
        F::NAME_ONLY,
    ];
    let mut b = 0;
    let mut k = 0;
    while k < 10 {
        b |= (f.0 >> k & 1) * BY_NAME[k].bits();
        k += 1;
    }
    F::from_bits_truncate(b)
}

pub fn demangle(name: &[u8], f: Flags) -> Result<String, undname::Error> {
    undname::demangle(as_str(name), real(f))
}

pub fn demangle_into(name: &[u8], f: Flags, buf: &mut String) -> Result<(), undname::Error> {
    undname::demangle_into(as_str(name), real(f), buf)
}

pub fn one_of(pats: &[&str]) -> Vec<u8> {
    let k = if pats.len() > 1 { sym::choice(pats.len() as u32) } else { 0 };
    let mut v = Vec::with_capacity(512);
    pat::build(pats[k as usize].as_bytes(), &mut v);
    v
}

pub fn as_str(v: &[u8]) -> &str {
    // SAFETY: patterns only produce well-formed UTF-8
    unsafe { std::str::from_utf8_unchecked(v) }
}

/// the real code must agree with the reference, on the text or on rejecting it
pub fn agree(name: &[u8], f: Flags) {
    sym::input(name);
    let got = demangle(name, f);
    let want = spec::demangle(name, f);
    match (got, want) {
        (Ok(a), Some(b)) => {
            sym::mark(0);
            sym::observe(a.as_bytes());
            sym::check(a.as_bytes() == b.as_slice(), "demangled text differs from the reference");
        }
        (Err(_), None) => {
            sym::mark(1);
            sym::observe(b"!");
            sym::check(true, "rejected");
        }
        (Ok(a), None) => {
            sym::observe(a.as_bytes());
            sym::check(false, "malformed name accepted");
        }
        (Err(_), Some(_)) => {
            sym::observe(b"!");
            sym::check(false, "well-formed name rejected");
        }
    }
}

macro_rules! harnesses {
    ($($prop:literal $name:ident $tier:literal $about:literal $pats:tt $body:ident;)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name() {
                const P: &[&str] = &harnesses!(@ $pats);
                $body(P)
            }
        )*
        pub static TABLE: &[crate::run::Info] = &[$(
            crate::run::Info { prop: $prop, name: stringify!($name), tier: $tier, about: $about, pats: &harnesses!(@ $pats), run: $name }
        ),*];
    };
    (@ seeds) => { seeds!() };
    (@ $p:tt) => { $p };
}
