//! One entry point per harness; `TABLE` says which property each decides.
use crate::run::*;
use crate::{spec, sym};
use crate::spec::Flags;

fn eq(p: &'static [&'static str]) {
    agree(&one_of(p), flags(0, 0));
}
/// every pattern without a `=`, in place of that of every pattern with one
fn placed(p: &'static [&'static str]) -> Vec<u8> {
    let places = p.iter().filter(|x| x.contains('=')).count();
    let place = p[sym::choice(places as u32) as usize];
    let what = p[places + sym::choice((p.len() - places) as u32) as usize];
    let (before, after) = place.split_once('=').unwrap();
    let mut v = Vec::with_capacity(100);
    crate::pat::build(before.as_bytes(), &mut v);
    crate::pat::build(what.as_bytes(), &mut v);
    crate::pat::build(after.as_bytes(), &mut v);
    v
}
fn eq_placed(p: &'static [&'static str]) {
    agree(&placed(p), flags(0, 0));
}
/// every combination of the flags that matter for the family
fn eq_any_flags(p: &'static [&'static str]) {
    agree(&one_of(p), flags(0, ALL));
}
fn eq_name_only(p: &'static [&'static str]) {
    agree(&one_of(p), flags(NAME_ONLY, 0));
}
fn eq_name_only_any(p: &'static [&'static str]) {
    agree(&one_of(p), flags(NAME_ONLY, ALL & !NAME_ONLY));
}
const NAME_ONLY: u16 = 1 << 9;

/// the same or another name again, under other flags
fn repeat_flags(p: &'static [&'static str]) {
    let (a, b) = (one_of(p), one_of(p));
    let f = flags(0, ALL);
    let g = flags(0, 0x211);
    sym::input(&a);
    sym::input(&b);
    let mut buf = String::new();
    into_once(&mut buf, &a, f);
    into_once(&mut buf, &b, g);
    let want = spec::demangle(&b, g);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "second result differs from the reference");
}

/// the text breaks off at the limit: nothing of it is left behind
fn into_limit(_: &'static [&'static str]) {
    let c = sym::byte(&sym::set(b"ab"));
    let mut v = vec![];
    match sym::choice(4) {
        0 => {
            v.extend_from_slice(b"?");
            rep(&mut v, &[c], MB);
            v.extend_from_slice(b"@@3HA");
        }
        1 => {
            v.extend_from_slice(b"?f@@YAHV");
            rep(&mut v, &[c], MB - 20);
            v.extend_from_slice(b"@@@Z");
        }
        // the text of the scope is what is too long
        2 => {
            v.extend_from_slice(b"?x@?1??");
            rep(&mut v, &[c], MB - 20);
            v.extend_from_slice(b"@@YAXXZ@3HA");
        }
        _ => {
            v.extend_from_slice(b"?f@@YAXV");
            rep(&mut v, &[c], 4090);
            v.extend_from_slice(b"@@0");
            rep(&mut v, b"0", 300);
            v.extend_from_slice(b"@Z");
        }
    }
    sym::input(&v[..100]);
    let mut buf = match sym::choice(3) {
        0 => String::new(),
        1 => String::from("old text"),
        _ => String::with_capacity(5000),
    };
    let cap = buf.capacity();
    let f = flags(0, 0);
    let r = demangle_into(&v, f, &mut buf);
    sym::mark(1);
    sym::check(r.is_err() && buf.is_empty(), "buffer not empty after a failure");
    sym::check(buf.capacity() >= cap, "the buffer's memory was given up");
    into_once(&mut buf, b"?x@@3HA", f);
    sym::check(buf == "int x", "wrong text in a reused buffer");
}

/// just run it: the executor reports panics, aborts, undefined behaviour,
/// leaks into uninitialised memory and runs that do not end
fn safe(p: &'static [&'static str]) {
    run_safely(&one_of(p), flags(0, 0));
}
fn safe_any_flags(p: &'static [&'static str]) {
    run_safely(&one_of(p), flags(0, ALL));
}
fn run_safely(name: &[u8], f: Flags) {
    sym::input(name);
    match demangle(name, f) {
        Ok(s) => {
            sym::mark(0);
            sym::observe(s.as_bytes());
            sym::check(s.len() < 1 << 20, "output of a megabyte or more");
        }
        Err(_) => {
            sym::mark(1);
            sym::observe(b"!");
            sym::check(true, "rejected");
        }
    }
}

/// the pattern families of the properties that compare texts
fn families(first: &str, last: &str) -> Vec<u8> {
    let all: Vec<&'static [&'static str]> = TABLE
        .iter()
        .filter(|i| i.tier == 0 && !i.pats.is_empty() && !i.name.ends_with("_gram") && !i.name.ends_with("_placed") && !i.name.ends_with("_nested") && first <= i.prop && i.prop <= last)
        .map(|i| i.pats)
        .collect();
    one_of(all[sym::choice(all.len() as u32) as usize])
}
fn safe_families(_: &'static [&'static str]) {
    run_safely(&families("C04", "C16"), flags(0, 0));
}
fn placed_of(first: &str, last: &str) -> Vec<u8> {
    let all: Vec<&'static [&'static str]> =
        TABLE.iter().filter(|i| i.name.ends_with("_placed") && !i.pats.is_empty() && first <= i.prop && i.prop <= last).map(|i| i.pats).collect();
    placed(all[sym::choice(all.len() as u32) as usize])
}
/// the `_placed` names of a property, within one to thirty symbols of another kind
fn nested(prop: &str) -> Vec<u8> {
    let inner = placed_of(prop, prop);
    let (head, tail, n) = [
        (&b"?x@?1?"[..], &b"@4HA"[..], 1),
        (b"?x@@3V?$t@$1", b"@@A", 1),
        (b"?x@@3V?$t@$1", b"@@A", 4),
        (b"?x@?1?", b"@4HA", 30),
        (b"?x@@3V?$t@$1", b"@@A", 16),
    ][sym::choice(5) as usize];
    let mut out = Vec::with_capacity(inner.len() + n * (head.len() + tail.len()));
    rep(&mut out, head, n);
    out.extend_from_slice(&inner);
    rep(&mut out, tail, n);
    out
}
fn eq_nested(p: &'static [&'static str]) {
    agree(&nested(p[0]), flags(0, 0));
}
fn eq_every_placed(_: &'static [&'static str]) {
    agree(&placed_of("C04", "C16"), flags(0, 0));
}
fn name_only_every_placed(_: &'static [&'static str]) {
    agree(&placed_of("C04", "C12"), flags(NAME_ONLY, 0));
}
fn eq_placed_any_flags(p: &'static [&'static str]) {
    agree(&placed(p), flags(0, ALL));
}
fn safe_placed(_: &'static [&'static str]) {
    run_safely(&placed_of("C04", "C16"), flags(0, 0));
}
fn safe_families_flags(_: &'static [&'static str]) {
    run_safely(&families("C13", "C14"), flags(0, ALL));
}

/// one edit of one of the names: a character replaced by, or preceded by, any
/// ASCII character or one that is not, a character dropped, or the rest cut off
fn edited(p: &'static [&'static str]) -> Vec<u8> {
    edit(&one_of(p))
}
fn edit(v: &[u8]) -> Vec<u8> {
    let mut at = sym::choice(v.len() as u32) as usize;
    // characters are edited whole
    while at > 0 && v[at] & 0xc0 == 0x80 {
        at -= 1;
    }
    let mut next = at + 1;
    while next < v.len() && v[next] & 0xc0 == 0x80 {
        next += 1;
    }
    let mut out = Vec::with_capacity(v.len() + 4);
    out.extend_from_slice(&v[..at]);
    match sym::choice(7) {
        0 => {
            out.push(sym::byte(&sym::ASCII));
            out.extend_from_slice(&v[next..]);
        }
        1 => {
            out.push(sym::byte(&sym::ASCII));
            out.extend_from_slice(&v[at..]);
        }
        2 => out.extend_from_slice(&v[next..]),
        3 => {
            out.extend_from_slice("\u{e9}".as_bytes());
            out.extend_from_slice(&v[next..]);
        }
        4 => {
            out.extend_from_slice("\u{4e2d}".as_bytes());
            out.extend_from_slice(&v[at..]);
        }
        5 => {
            out.extend_from_slice("\u{1f600}".as_bytes());
            out.extend_from_slice(&v[next..]);
        }
        _ => {}
    }
    out
}
fn safe_edited_flags(p: &'static [&'static str]) {
    run_safely(&edited(p), flags(0, 0x3ff));
}
fn eq_edited(p: &'static [&'static str]) {
    agree(&edited(p), flags(0, 0));
}
/// two edits
fn eq_edited2(p: &'static [&'static str]) {
    let v = edited(p);
    let at = sym::choice(v.len() as u32 + 1) as usize;
    let mut out = v[..at].to_vec();
    out.push(sym::byte(&sym::ASCII));
    if at < v.len() {
        out.extend_from_slice(&v[at + 1..]);
    }
    agree(&out, flags(0, 0));
}

/// a few types of every shape, for places where any type may stand
macro_rules! ty { () => { "(H|_N|PAD|VS@@|W4E@@|P6AHD@Z|PAY02H|PQS@@H)" } }

// names that use every construct, as starting points for edits
macro_rules! seeds { () => { [
    "?x@n@@3PEBHEB",
    "?x@?1??f@S@@QAEXXZ@4HA",
    "?f@S@?A0x1@@QEGCAHPAV1@0@Z",
    "??0?$A@H$0BA@@n@@QAE@ABV01@@Z",
    "??Bc@@UBEPBDXZ",
    "?h@@YAP6AHD@ZPAY01HP8c@@AEXXZ@Z",
    "?y@@3PQc@@HQ1@",
    "??_7c@@6Bd@e@@@",
    "??_R1A@?0A@EA@c@@8",
    "??_R0?AVc@@@8",
    "??_C@_03A@ab?$AA?4@",
    "??_C@_13A@?$AAa?$AA?$AA@",
    "??__Ex@@YAXXZ",
    "??__E?x@c@@2HA@@YAXXZ",
    "??_B?1??f@@YAHXZ@51",
    "?f@c@@$4PPPPPPPM@A@AEXXZ",
    "??_9c@@$BA@AA",
    "??$t@H$$V$1?g@@YAXXZ@@YA?AW4e@@ZZ",
    ".?AV?$a@$H?g@@3HAA@@@",
    "??@ab@",
    "?x@@3V?$a@$MH01$FA@A@@@A",
] } }

harnesses! {
    // ------------------------------------------------------------------ C04
    "C04" c04_chars 0 "any characters in names and scopes" [
        "?~@@3HA", "?a@~@@3HA", "?a@~~@@3HA", "?~~@b@@3HA", "?a~@b~@~@@3HA",
        "?~~~@@3HA", "?a@b@~@~@@YAXXZ", "?x@@3Va~@~@@A", "?x@@3V~~@@A", "?f@~@@QAEX~@Z",
        "?%@@3HA", "?a@%@b@@3HA", "?a@b%c@@YAX%@Z", "?&@@3HA", "?a@&@@3HA", "?x@@3V%@&@@A",
        "?a@?A%@%@@3HA", "??$%@H@@YAXXZ", "?x@@3V?$%@V&@@@@A",
    ] eq;
    "C04" c04_order 0 "scope chains of any length, with every kind of scope" [
        "?x@[0-12:{ab}@]@3HA",
        "?x@(|n@|?A@|?A0x12@|?$t@H@|?1??f@@YAXXZ@)(|n@|?A@|?Aab@|?$t@Vn@@@|?B@??f@c@@QAEXXZ@)(|n@|?A@|?$t@H@|?3??y@@3HA@)@(3HA|YAXXZ)",
        "?x@@3V(c@|?$t@H@)(|n@|?A@|?A0x12@|?$t@H@|?1??f@@YAXXZ@)(|n@|?A@|?$t@Vn@@@|?B@??f@c@@QAEXXZ@)@A",
        "??(0|1|D|_E)(n@|?$t@H@)(|n@|?A@|?$t@H@|?1??f@@YAXXZ@)@QAE@XZ",
        "??_7(n@|?$t@H@)(|n@|?A@|?$t@H@|?1??f@@YAXXZ@)@6B(|(n@|?$t@H@)(|n@|?A@|?1??f@@YAXXZ@)@)@",
        "?x@a@bb@ccc@dddd@e@f@g@h@i@j@k@@3HA",
    ] eq;
    "C04" c04_local 0 "local scopes: every number and every kind of enclosing symbol" [
        "?x@?~??f@@YAXXZ@3HA", "?x@?~~?f@@YAXXZ@3HA", "?x@?~@??f@@YAXXZ@3HA", "?x@?{@A-P}{A-P@}@??f@@YAXXZ@3HA",
        "?x@?{0-9}?(?f@@YAXXZ|?f@c@@UBEHPADZZ|?y@@3PADA|?f@@9|??0c@@QAE@XZ|??Bc@@QAEHXZ|?$t@H@@YAXXZ|??$t@H@@YAHVn@@@Z|??__Ez@@YAXXZ|?x@?2??g@@YAXXZ@4HA|??_7c@@6B@)@{34}HA",
        "?x@?1??f@n@@YAXXZ@m@@3HA", "?x@?1??f@?A0x1@@YAXXZ@0@3HA", "?f@?1??f@?2??f@@YAXXZ@QAEXXZ@QAEXXZ",
        "?x@?~?.~@3HA", "?x@?1??@ab@@3HA", "?x@?1?~~@@3HA",
    ] eq;
    "C04" c04_chars_deep 1 "any characters in names and scopes" [
        "?~~~~@@3HA", "?~~@~~@@3HA", "?a@~~~@~@@3HA", "?~@~@~@~@@3HA", "?x@@3V~~@~~@@A", "?f@@YAXV~@~@@~@Z",
        "?%&@%&@@3HA", "?~%@~&@@3HA", "?~~~~~@@3HA", "?a@?~~~@@3HA", "?a@?1?~~~~@@3HA", "?x@?~~~?f@@YAXXZ@3HA",
    ] eq;
    "C04" c04_gram 0 "all names of the grammar whose scopes are at most so complex" [
        "<3>?x@<S>3HA", "<3>?f@<S>YAXXZ", "<3>?x@@3V<N>A", "<3>?x@?1?<Y>@4HA", "<2>??0c@<S>QAE@XZ", "<2>??_7<N>6B<N>@",
    ] eq;
    "C04" c04_counts 0 "chains of up to forty scopes, names of up to three hundred characters" [
        "?[1-40:#@]@3HA", "?[1-150:x]@@3HA", "?[150-300:x]@@3HA", "?x@[1-70:y]@[1-5:z]@@3HA", "?x@[0-14:?A0x^@]n@@3HA", "?x@[0-12:?$t@H@]n@@3HA", "?x@[0-12:?$t@V#@@@]@3HA", "?x@@3V[1-30:#@]@A", "?f@@YAXV[1-30:#@]@{@Z}Z", "?x[0-10:@?1??f#]@[0-10:@YAXXZ]@4HA", "??{01}[1-20:#@]@QAE@XZ", "??_7[1-20:#@]@6B[1-12:#@]@@", "?x@?1??[1-12:#@]@YAXXZ@4HA",
        "?x@n@?A0x1@?$t@H@m@?A@?1??f@@YAXXZ@k@l@[0-8:#@]@3HA", "?{aA}@{aA}@{aA}@{aA}@@3HA", "?x@_n@__n@$n@$$n@0n@@3HA", "?_x@@3HA", "?__x@@3HA", "?$$x@@3HA", "?x@n$$@@3HA", "?x@`?@@3HA", "?a?@@3HA", "?a?b@c?@@3HA",
    ] eq;
    "C04" c04_lengths 0 "names and scopes of any length, ending in any character" [
        "?[0-24:a](~|é|—|中|😀|𐐀)@@3HA", "?x@[0-24:a](~|é|—|中|😀|𐐀)@@3HA", "?x@@3V[0-24:a](~|é|—|中|😀|𐐀)@n@@A", "?x@?A[0-40:x]@@3HA", "?x@?A[0-12:0](~|é|—|中|😀|𐐀)@n@3HA", "?f@?A[0-12:x]@?A[0-12:y]@@YAXXZ", "??$[0-12:a](~|é|—|中|😀|𐐀)@H@n@@YAXXZ",
        "?x@?1??[0-12:a](~|é|—|中|😀|𐐀)@n@@YAXXZ@4HA", "?x@?1??f@[0-12:a](~|é|—|中|😀|𐐀)@@YAXXZ@4HA", "?x@@3V?$[0-12:a](~|é|—|中|😀|𐐀)@H@n@@A", "??_7[0-12:a](~|é|—|中|😀|𐐀)@n@@6B[0-3:d]~@@@", "?x@?A(~~|~|%|&)@?A(~|%)@@3HA", "?x@[1-3:?A[0-6:k]@][0-3:[1-6:k]@]@3HA",
    ] eq;
    "C04" c04_long 0 "long names and scopes of any characters" [
        "?{A-_a-z<$}[5:{!-?A-_a-z}]@@3HA", "?{A-_a-z<$}[15:{!-?A-_a-z}]@@3HA", "?{A-_a-z<$}[27:{!-?A-_a-z}]@@3HA", "?x@{A-_a-z<$}[15:{!-?A-_a-z}]@@3HA", "?x@@3V{A-_a-z<$}[15:{!-?A-_a-z}]@@A", "?x@@3V{A-_a-z<$}[27:{!-?A-_a-z}]@@A", "?x@@3Vc@{A-_a-z<$}[15:{!-?A-_a-z}]@@A", "??${A-_a-z<$}[15:{!-?A-_a-z}]@H@@YAXXZ", "?x@@3V?${A-_a-z<$}[15:{!-?A-_a-z}]@H@@A", "?x@?A[15:{!-?A-_a-z}]@@3HA", "?x@?1??{A-_a-z<$}[15:{!-?A-_a-z}]@@YAXXZ@4HA", "??0{A-_a-z<$}[15:{!-?A-_a-z}]@@QAE@XZ", "??_7{A-_a-z<$}[15:{!-?A-_a-z}]@@6B@", "??__E{A-_a-z<$}[15:{!-?A-_a-z}]@@YAXXZ", "?{A-_a-z<$}[15:{!-?A-_a-z}]@{A-_a-z<$}[15:{!-?A-_a-z}]@@YAXXZ",
        "??@[15:{!-?A-_a-z}]@", "?x@@3W4{A-_a-z<$}[15:{!-?A-_a-z}]@@A", ".?AV{A-_a-z<$}[15:{!-?A-_a-z}]@@", "?f@@YAXV{A-_a-z<$}[15:{!-?A-_a-z}]@@0@Z", "??__K_{A-_a-z<$}[15:{!-?A-_a-z}]@@YAXXZ",
    ] eq;
    "C04" c04_placed 0 "every kind of scope with any characters, in every place for one" [
        "?x@=@3HA", "?x@n@=@3HA", "?x@=n@@3HA", "?f@=@QAEXXZ", "?x@@3Vc@=@A", "?f@@YAXW4c@=@@Z", "?f@@YAPAVc@=@XZ", "??$t@H@=@YAXXZ", "??$t@Vc@=@@@YAXXZ", "?x@@3V?$t@Vc@=@@@A", "?x@@3V?$t@H@=@A", "?x@?1??f@=@YAXXZ@4HA", "?x@?1??f@@YAXVc@=@@Z@4HA", "?x@?1??f@?1??g@=@YAXXZ@YAXXZ@4HA", "?x@@3V?$t@$1?g@=@3HA@@A", "?x@@3V?$t@$$Yc@=@@@A",
        "??0c@=@QAE@XZ", "??Hc@=@QAEXXZ", "??Bc@=@QAEHXZ", "??_Gc@=@UAEPAXI@Z", "??__K_x@=@YAXXZ", "??_7c@=@6B@", "??_7c@@6Bd@=@@", "??_R0?AVc@=@@8", "??_R1A@A@A@A@c@=@8", "??_R2c@=@8", "??_R4c@=@6B@", "??_9c@=@$BA@AA", "??__Ex@=@YAXXZ", "??__E?x@=@3HA@@YAXXZ", "??_B?1??f@=@YAHXZ@51", ".?AVc@=@", "?x@@3P8c@=@AEXXZA", "?x@@3PQc@=@HQ1@", "?f@c@=@$4A@A@AEXXZ", "?x@c@=@2HA", "??_C@_02A@a?$AA@=",
        "", "~@", "?A~@", "?~?y@@3HA@", "?~@?y@@3HA@", "?1?~y@@3HA@", "?1??y@@~HA@", "?$~@H@", "?$a@~@", "?$a@H@~@", "?~a@H@", "é@", "?A中@", "m@~@", "?A0x1@~@",
    ] eq_placed;
    "C04" c04_large 0 "names and scopes of up to 65537 characters" [
        "?(|[255-257:x]|[511-513:x]|[1023-1025:x]|[2047-2049:x]|[4095-4097:x]|[8190:x]|[16383-16385:x]|[32766-32769:x]|[65533-65537:x]){ab}@@3HA", "?x@([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@n@@3HA", "?x@@3V([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@@A", "?x@@3V?$([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@H@@A", "?x@?A([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x])@@3HA", "?x@?1??([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@@YAXXZ@4HA", "?f@([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@@YAXV([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@1@@Z", "??__K_([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x])@@YAXXZ", "?x@[0-3:m@][255-257:k]@[0-3:[1023-1025:l]@]@3HA",
    ] eq;
    "C04" c04_cuts 0 "names with a character of two bytes at every distance from their start" [
        "?(|[1-150:x]|[151-300:x])é@@3HA", "?x@(|[1-150:x]|[151-300:x])é@@3HA", "?x@?A(|[1-150:x]|[151-300:x])é@@3HA", "?x@@3V?$(|[1-150:x]|[151-300:x])é@H@@A", "?x@@3V?$t@V(|[1-150:x]|[151-300:x])é@@@1@A", "??__K(|[1-150:x]|[151-300:x])é@@YAHXZ", "?f@@YAXV(|[1-150:x]|[151-300:x])é@@0@Z", "?x@?1??(|[1-150:x]|[151-300:x])é@@YAXXZ@4HA", "?f@@YAX?(|[1-150:x]|[151-300:x])é@@@Z", "??0(|[1-150:x]|[151-300:x])é@@QAE@XZ", "??_7c@@6B(|[1-150:x]|[151-300:x])é@@@", "??__E(|[1-150:x]|[151-300:x])é@@YAXXZ",
    ] eq;
    "C04" c04_numbers_placed 0 "local scopes of numbers of every size in every kind of symbol" [
        "?x@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@4HA", "?f@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@QAEXXZ", "?x@@3Vc@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@@A", "?x@k@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=m@@3HA", "??$t@H@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@YAXXZ", "?x@?1??f@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@YAXXZ@4HA", "??_7c@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)?=@@6B@", "?x@?(0|9|@|B@|P@|BA@|PP@|BAA@|BAB@|PPP@|BAAA@|PPPP@|BAAAA@|PPPPPPP@|HPPPPPPP@|IAAAAAAA@|PPPPPPPP@|BAAAAAAAA@|HPPPPPPPPPPPPPPP@|PPPPPPPPPPPPPPPP@)??h@?1?=@YAXXZ@4HA",
        "?f@@YAXXZ", "?y@@3HA", "?y@@3P6AXXZA", "?y@@3Y01HA", "?y@@4PQc@@HA", "?f@c@@QBEHPADZZ", "?f@@9", "??0c@@QAE@XZ", "??Bc@@QAEHXZ", "??$t@H@@YAXXZ", "?$y@H@@3HA", "??__Ez@@YAXXZ", "??__E?z@@3HA@@YAXXZ", "?y@?BAA@??g@@YAXXZ@4HA", "?y@?1?w@@3HA@4HA", "??_7c@@6B@", "??_7c@@6Bd@@@", "??_R0H@8", "??_R1A@A@A@A@c@@8", "??_R3c@@8", "??_B?1??f@@YAHXZ@51", "??_9c@@$BA@AA", "??_C@_02A@a?$AA@", ".H", "??@ab@", "?é@@3HA", "?f@c@@$4A@A@AEXXZ", "?f@@$$J0YAXXZ", "?y@@3W4e@@A", "??__K_x@@YAXXZ",
    ] eq_placed;
    "C04" c04_nested 0 "the same within other symbols" ["C04"] eq_nested;
    "C04" c04_many 0 "scopes of every kind, up to a hundred" [
        "?x@[0-100:#@]@3HA", "?x@[0-100:?A0x1@]n@@3HA", "?x@[0-100:?$t@H@]n@@3HA", "?x@@3V[0-100:m@]@A", "??0[0-100:k@]c@@QAE@XZ", "?x@?1??f@[0-100:n@]@YAXXZ@4HA", "??_7c@[0-100:n@]@6B@", "?x@@3PQ[0-100:n@]@HQ1@",
    ] eq;
    "C04" c04_more 0 "scopes of every kind, up to a thousand: the right text or an error" [
        "(?x@[126-130:#@]@3HA|?x@[254-258:#@]@3HA|?x@[511-513:#@]@3HA|?x@[1000:#@]@3HA)", "(?x@[126-130:?A0x1@]n@@3HA|?x@[254-258:?A0x1@]n@@3HA|?x@[511-513:?A0x1@]n@@3HA|?x@[1000:?A0x1@]n@@3HA)", "(?x@[126-130:?$t@H@]n@@3HA|?x@[254-258:?$t@H@]n@@3HA|?x@[511-513:?$t@H@]n@@3HA|?x@[1000:?$t@H@]n@@3HA)", "(?x@@3V[126-130:m@]@A|?x@@3V[254-258:m@]@A|?x@@3V[511-513:m@]@A|?x@@3V[1000:m@]@A)", "(??0[126-130:k@]c@@QAE@XZ|??0[254-258:k@]c@@QAE@XZ|??0[511-513:k@]c@@QAE@XZ|??0[1000:k@]c@@QAE@XZ)", "(?x@?1??f@[126-130:n@]@YAXXZ@4HA|?x@?1??f@[254-258:n@]@YAXXZ@4HA|?x@?1??f@[511-513:n@]@YAXXZ@4HA|?x@?1??f@[1000:n@]@YAXXZ@4HA)", "(??_7c@[126-130:n@]@6B@|??_7c@[254-258:n@]@6B@|??_7c@[511-513:n@]@6B@|??_7c@[1000:n@]@6B@)", "(?x@@3PQ[126-130:n@]@HQ1@|?x@@3PQ[254-258:n@]@HQ1@|?x@@3PQ[511-513:n@]@HQ1@|?x@@3PQ[1000:n@]@HQ1@)",
    ] eq_large;

    // ------------------------------------------------------------------ C05
    "C05" c05_small 0 "all short chains of names and back-references" [
        "?({ab}@|{0-9}|?Ab@)({ab}@|{0-9}|?Ab@)({ab}@|{0-9}|?A`b@)@3HA",
        "?f@({ab}@|{0-9})@YAXV({ab}@|{0-9})@V({ab}@|{0-9})({ab}@|{0-9})@@Z",
        "?x@@3V({ab}@|?$a@H@|?$b@H@)({ab}@|{0-9}|?$a@H@)({ab}@|{0-9}|?$a@D@)@A",
    ] eq;
    "C05" c05_many 0 "ten names are kept, in order of first appearance" [
        "?a@b@c@d@e@f@g@h@i@[0-3:{j-l}@]@YAXV{0-9}@@Z",
        "?a@b@c@d@{a-e}@f@{f-g}@h@i@j@k@l@@YAXV{0-9}@@Z",
        "?f@@YAXVa@@Vb@@Vc@@Vd@@Ve@@Vf@@Vg@@Vh@@[1-3:V{i-l}@@]V{0-9}{0-9}@@Z",
        "?f@@YAXV?$a@H@@V?$a@D@@V?$a@H@@V?$a@M@@V?$a@N@@V?$b@H@@V?$b@D@@V?$b@M@@V?$b@N@@V?$c@H@@V?$c@D@@V?$c@M@@V{0-9}@@Z",
    ] eq;
    "C05" c05_kinds 0 "which constructs add to the list" [
        "?f@?A0x1@@YAXV?A0x1@{0-9}@V{0-9}@@Z",
        "?f@?A0x1@?A0x2@@YAXV{0-9}@@Z",
        "??$t@H@n@@YAXV{0-9}@@Z", "??$t@Vm@@@n@@YAXV{0-9}@@Z", "?f@?$t@Vm@@@n@@QAEXV{0-9}@@Z",
        "??{2-9A}n@@QAEXV{0-9}@@Z", "??{01}n@m@@QAE@V{0-9}@V{0-9}{0-9}@@Z", "??Bn@@QAE?AV{0-9}@XZ",
        "??__K_w@@YAXV{0-9}@@Z",
        "?x@?1??f@n@@YAXXZ@4V{0-9}@A", "?x@?1??f@?1??g@m@@YAXXZ@YAXXZ@4V{0-9}@A",
        "?f@@YAXV?$t@Vm@@V0@@@V{0-9}@@Z", "?f@@YAXV?$t@V?$u@Vm@@@@V{0-9}@@@V{0-9}@@Z",
        "?f@@YAXV?$t@Vm@@@n@@V{0-9}@@Z", "?f@n@@YAXV?$t@V{0-9}@@@@Z",
        "?f@@YAXP8m@@AEXXZV{0-9}@@Z", "?f@@YAXPQm@@HV{0-9}@@Z", "?f@@YAXW4e@@T{0-9}@U{0-9}@@Z", "?f@@YAX?m@@V{0-9}@@Z",
        "?x@@3PQm@@HQ{0-9}@", "?x@n@@3V{0-9}@A",
        "??_7m@@6B{0-9}@@", "??_7m@n@@6B{0-9}{0-9}@@", "??_R4m@@6B{0-9}@@",
        "??__E?x@m@@2V{0-9}@A@@YAXXZ", "??__Ex@m@@YAXV{0-9}@@Z",
        "??_R0?AV?$t@Vm@@V{0-9}@@@@8", ".?AV?$t@Vm@@V{0-9}@@n@{0-9}@",
        "?f@@YAXV?$t@$1?g@h@@YAXXZ@@V{0-9}@@Z", "?f@@YAXV?$t@$1?g@h@@YAXXZV{0-9}@@@@Z",
        "?f@@YAXV?$t@$E?g@h@@3HAV{0-9}@@@@Z", "?f@@YAXV?$t@$1??$g@H@h@@YAXXZV{0-9}@@@@Z", "?f@@YAXV?$t@$1??Dh@@QAEXXZV{0-9}@@@@Z",
        "?f@@YAXV?$t@$$Ym@n@@V{0-9}@@@@Z",
    ] eq;
    "C05" c05_alike 0 "instantiations that print alike are different names, whatever the flags" [
        "?f@@YAXV?$t@(U|V|T|W4)n@@@@V?$t@(U|V)n@@@@Vm@@V{0-3}@V{0-3}@@Z",
        "?f@@YAXV?$t@(H$00|$MH00|$M_N00|$00)@@V?$t@($MH00|$00|$01)@@Vm@@V{0-3}@@Z",
        "?f@?$t@(U|V)n@@@?$t@(U|V)n@@@m@@YAXV{0-4}@@Z",
    ] eq_any_flags;
    "C05" c05_deep 1 "longer chains of names and back-references" [
        "?({ab}@|{0-4}|?Ab@)({ab}@|{0-4}|?Ab@)({ab}@|{0-4}|?$a@V{0-2}@@)({ab}@|{0-5})@3HA",
        "?f@[0-2:({ab}@|{0-4})]@YAXV({ab}@|{0-4}|?$a@(H|V{ab}@@)@)@V({ab}@|{0-5}|?$a@(H|V{ab}@@)@)@V{0-6}@@Z",
        "?[6-12:{ab}@]@YAXV{0-9}@V{0-9}@@Z",
        "?a@b@c@d@e@f@g@h@i@j@k@l@@YAXV{a-n}@@V{0-9}{0-9}{0-9}@@Z",
    ] eq;
    "C05" c05_gram 0 "what is referred to, after any combination of constructs" [
        "<3>?f@<S>YAX{TV}<N>V{0-4}@@Z", "<2>?f@c@<S>QAE<r>V<N>V{0-4}{0-4}@@Z", "<2>?<O><S>YAX<T>V{0-4}@V{0-4}@@Z", "<2>?x@<S>3V{0-4}<S>A", "<2>??_7<N>6B{0-4}@@", "<2>.?AV?$t@<A>V{0-4}@@n@{0-3}@",
        "<2>?f@@YAXV?$t@<A><A>V{0-4}@@{0-4}@V{0-4}@@Z",
    ] eq;
    "C05" c05_counts 0 "every construct after every number of names" [
        "?f@[0-10:#@]@YAX({TUV}|W4|?)u@n@@V{0-9}@@Z", "?f@[0-9:#@]?A0x1@@YAXV{0-9}@@Z", "?f@[0-9:#@]?$t@H@@YAXV{0-9}@@Z", "?f@[0-9:#@]?1??g@@YAXXZ@YAXV{0-9}@@Z", "?f@@YAX[0-9:V#@@]V?$t@(H|Vx@@)@y@@V{0-9}@@Z", "?f@@YAX[0-9:V#@@]P8x@y@@AEXXZV{0-9}@@Z", "?f@@YAX[0-9:V#@@]PQx@y@@HV{0-9}@@Z",
        "?{aA}@{aA}@{aA}@@YAXV{0-3}@@Z", "?f@@YAXVab@@VaB@@Vab@@V{0-4}@@Z", "?({_}|__|$|$$|0|9|?$t@H@|?A@)f@n@@YAXV{0-2}@@Z", "?f@__n@_n@n@n_@@YAXV{0-5}@@Z", "?f@n@@YAXVn1@@Vn11@@V{0-4}@@Z", "?f@aa@a@aaa@@YAXV{0-4}@@Z",
        "?f@@YAXV[0-12:#@]@V{0-9}@@Z", "?f@@YAXV?$t@[0-11:V#@@]V{0-9}@@@V{0-9}@@Z", "??{01D}[1-11:#@]@QAEXV{0-9}@@Z", "?x@[0-11:#@]@3V{0-9}@A", "??_7[1-12:#@]@6B{0-9}@@", "?f@[0-11:#@]{0-9}@YAXV{0-9}@@Z", "?x@[1-12:?1??f@#@@YAXXZ@]4V{0-9}@A",
        "<1>?<O>[0-3:#@]<S>YA<r><T>V{0-5}@@Z",
    ] eq;
    "C05" c05_alike_names 0 "names that are almost the same" [
        "?f@~~@~~@@YAXV{1-2}@@Z", "?f@~@~~@~@@YAXV{1-3}@@Z", "?f@~[8:x]@~[8:x]@@YAXV{1-2}@@Z", "?f@[0-40:x]{ab}y{ab}@[0-40:x]{ab}y{ab}@@YAXV{1-2}@@Z", "?f@{ab}[0-40:x]{ab}@{ab}[0-40:x]{ab}@@YAXV{1-2}@@Z", "?f@{ab}[30-40:x]@{ab}[30-40:x]@@YAXV{1-2}@@Z",
        "?f@{a-c}{a-c}{a-c}@{a-c}{a-c}{a-c}@@YAXV{1-2}@@Z", "?f@%@%@@YAXV{1-2}@@Z", "?f@{a}%@{a}&@&@@YAXV{1-3}@@Z", "?f@?A~~@?A~~@@YAXV{1-2}@@Z", "?f@?A{ab}[0-40:0]{01}@?A{ab}[0-40:0]{01}@@YAXV{1-2}@@Z",
        "?f@@YAXV?$t@V~[0-30:x]~@@@@V?$t@V~[0-30:x]~@@@@V{1-3}@@Z", "?f@@YAXV?$t@{A-Z}{A-Z}@@V?$t@{A-Z}{A-Z}@@V{1-3}@@Z", "?f@@YAXV?${ab}@{HD}@@V?${ab}@{HD}@@V{0-3}@@Z", "?f@@YAXV?${ab}@{HD}@{mn}@V?${ab}@{HD}@{mn}@V{1-4}@@Z",
        "?f@@YAXV?$t@$0{0-9}{01}@@V?$t@$0{0-9}@@V{1-3}@@Z", "?f@@YAXV{a-c}@{a-c}@@V{a-c}@{a-c}@@V{0-4}@@Z", "?f@@YAXV?$t@[0-3:H]@@V?$t@[0-3:H]@@V{0-3}@@Z", "?f@@YAXVt@@V?$t@@@V?$t@H@@V{0-3}@@Z",
    ] eq;
    "C05" c05_placed 0 "back-references in every place, after names in every place" [
        "?x@=3V{0-4}@A", "?f@=YAXV{0-4}@@Z", "?f@=YAXV{0-4}@W4{0-4}@@Z", "?f@=YAP8{0-4}@AEXV{0-4}@@ZXZ", "?f@=QAE?AV{0-4}@V?$t@V{0-4}@@{0-4}@@Z", "??{01}c@=QAE@V{0-4}@@Z", "??Hc@=QAEXV{0-4}@@Z", "??Bc@=QAE?AV{0-4}@XZ", "??_7c@=6B{0-4}@@", "??_R4c@=6B{0-4}@@", "??__Ex@=YAXV{0-4}@@Z", "??__E?x@=3V{0-4}@A@@YAXV{0-4}@@Z", "??$f@V{01}@@=YAXV{0-4}@@Z", "??$f@Vn@@@=YAXV{0-4}@@Z", "?x@?1??f@=YAXV{0-4}@@Z@4V{0-4}@A", "?x@@3V?$t@$1?g@=YAXV{0-4}@@ZV{0-4}@@V{0-4}@A", "?x@@3V?$t@$E?y@=3V{0-4}@AV{0-4}@@@A", "?f@?1??g@?1??h@=YAXV{0-4}@@Z@YAXXZ@YAXV{0-4}@@Z",
        "@", "a@b@@", "?A0x1@a@@", "?$u@H@a@@", "?$u@Va@@@b@@", "?$u@V?$v@Va@@@@@b@@", "?1??k@a@@YAXXZ@b@@", "?1??k@?$u@Va@@@@QAEXXZ@@", "?1???$k@Va@@@b@@YAXVd@@@Z@@", "?1??0a@b@@QAE@XZ@@", "?1???$?0H@a@@QAE@XZ@b@@", "?A@?A@a@@", "{0-3}a@@",
    ] eq_placed;
    "C05" c05_large 0 "back-references after up to a thousand names" [
        "?f@([97-101:#@]|[126-130:#@]|[254-258:#@]|[511-513:#@]|[1000:#@])@YAXV{0-9}@@Z", "?f@@YAX([97-101:V#@@]|[126-130:V#@@]|[254-258:V#@@]|[511-513:V#@@]|[1000:V#@@])V{0-9}@@Z", "?f@@YAXV?$t@([97-101:V#@@]|[126-130:V#@@]|[254-258:V#@@]|[511-513:V#@@]|[1000:V#@@])V{0-9}@@@V{0-9}@@Z", "?f@([97-101:0]|[126-130:0]|[254-258:0]|[511-513:0]|[1000:0]){0-3}@YAXV{0-3}@@Z", "?f@c@@YAX([97-101:V1@]|[126-130:V1@]|[254-258:V1@]|[511-513:V1@]|[1000:V1@])V{0-3}@@Z", "?f@@YAX([97-101:V?$t@H@@]|[126-130:V?$t@H@@]|[254-258:V?$t@H@@]|[511-513:V?$t@H@@]|[1000:V?$t@H@@])V?$u@H@@V{0-3}@@Z",
    ] eq_large;
    "C05" c05_args_placed 0 "names of symbols given as template arguments of every kind" [
        "?x@@3V?$f@$1=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$E=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$H=0V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$I=01V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$J=012V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MPAH1=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MH1=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MP6AXXZ1=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MP8c@@AEXXZH=0V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MP8c@@AEXXZI=01V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MP8c@@AEXXZJ=012V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$MVm@@1=V{0-5}@@@V{0-5}@A", "?x@@3V?$f@$1=$1?z@y@@3HAV{0-5}@@@V{0-5}@A", "??$f@$1=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$E=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$H=0V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$I=01V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$J=012V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MPAH1=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MH1=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MP6AXXZ1=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MP8c@@AEXXZH=0V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MP8c@@AEXXZI=01V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MP8c@@AEXXZJ=012V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$MVm@@1=V{0-5}@@@w@@YAXV{0-5}@@Z", "??$f@$1=$1?z@y@@3HAV{0-5}@@@w@@YAXV{0-5}@@Z", "?f@@YAXV?$f@Vk@@$1=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$E=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$H=0V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$I=01V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$J=012V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MPAH1=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MH1=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MP6AXXZ1=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MP8c@@AEXXZH=0V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MP8c@@AEXXZI=01V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MP8c@@AEXXZJ=012V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$MVm@@1=V{0-5}@@@V{0-5}@@Z", "?f@@YAXV?$f@Vk@@$1=$1?z@y@@3HAV{0-5}@@@V{0-5}@@Z",
        "?a@@3HA", "?a@b@@3HA", "?a@b@d@@3Ve@@A", "??$g@H@@3HA", "??$g@H@b@@YAXXZ", "??$g@Vm@@@b@@YAXVe@@@Z", "??Hc@@QAEXXZ", "??0c@@QAE@XZ", "??1c@b@@QAE@XZ", "??Bc@@QAEHXZ", "??Bc@@QAE?AVe@@XZ", "??__K_w@@YAXXZ", "??__K_w@b@@YAXXZ", "??_7c@@6B@", "??_7c@@6Be@@@", "??@ab@", "??__Ea@@YAXXZ", "??__E?a@b@@2HA@@YAXXZ", "??_R0?AVc@@@8", "??_R2c@@8", "??_R1A@A@A@A@c@@8", "?a@?1??b@@YAXXZ@4HA", "?a@?A0x1@@3HA", "??_9c@@$BA@AA", "??_B?1??f@@YAHXZ@51", "?a@@9", "?a@b@@W3AEXXZ", "??_Ec@@UAEPAXI@Z", "??$?HH@b@@YAXXZ", "??$?0H@b@@QAE@XZ", "??$?BH@b@@QAEHXZ", "??_C@_01A@a?$AA@",
    ] eq_placed;
    "C05" c05_nested 0 "the same within other symbols" ["C05"] eq_nested;

    // ------------------------------------------------------------------ C06
    "C06" c06_small 0 "all short parameter lists" [
        "?f@@YAX[1-3:(H|_N|PAH|PAD|Vc@@|{0-9})]{@Z}Z",
        "?f@@YAXPAHPAD({0-9}|P6AX({0-9}|PAM|H){0-9}@Z)({0-9}|PAN){0-9}@Z",
    ] eq;
    "C06" c06_many 0 "ten types are kept" [
        "?f@@YAXPADPAEPAFPAGPAHPAIPAJPAKPAM[0-3:PA{NOXC}]{0-9}@Z",
        "?f@@YAXPADPAEHPAFPAGDPAHPAIPAJ{DE}PAK_NPAMPANPAOPAX{0-9}{0-9}@Z",
    ] eq;
    "C06" c06_kinds 0 "which parameters can be referred back to, and where the list is shared" [
        "?f@@YAX{A-Z}0@Z", "?f@@YAX_{A-Z}0@Z", "?f@@YAX{A-Z_}{A-Z}{0-9}@Z", "?f@@YAX$$T0@Z", "?f@@YAX$$QAH0@Z", "?f@@YAXW4e@@0@Z", "?f@@YAX?e@@0@Z",
        "?f@@YAXY01H0@Z", "?f@@YAX$$A6AXXZ0@Z",
        "?f@@YAPAHPAD{0-9}@Z", "?f@@YAP6AXPAE@ZPAD{0-9}@Z", "?f@c@@QBEPAHPAD{0-9}@Z",
        "?f@@YAXP6APAHPAE@ZPAD{0-9}{0-9}@Z", "?f@@YAXP8c@@AEPAHPAE{0-9}@Z{0-9}{0-9}@Z",
        "?f@@YAXP6AXP6AXPAE@Z{0-9}PAF@Z{0-9}@Z", "?f@@YAXPAH$$A6AXPAD{0-9}@Z{0-9}@Z",
        "?f@@YAXPAHV?$t@P6AXPAD{0-9}@Z@@{0-9}@Z", "?f@@YAXPAHV?$t@PADP6AX{0-9}@Z@@@Z", "??$t@PAD@@YAXPAH{0-9}@Z",
        "?x@?1??f@@YAXPAHPAD@Z@4P6AX{0-9}@ZA", "?f@?1??g@@YAXPAHPAD@Z@YAXPAE{0-9}@Z",
        "?f@@YAXV?$t@$1?g@@YAXPAHPAD@ZP6AX{0-9}@Z@@{0-9}@Z",
        "?x@@3P6AXPAHP6AXPAD@Z@ZA", "?x@@3P6AXPAH{0-9}P6AX{0-9}@Z{0-9}@ZA",
        "??__Ex@@YAXPAH{0-9}@Z", "??__E?x@@3P6AXPAD@ZA@@YAXPAH{0-9}@Z", "??_9c@@$BA@AA",
        "?f@@YAXPAPAHPAPAPAD{0-9}@Z", "?f@@YAXPAY02HPQc@@D{0-9}@Z", "?f@@YAXABVc@@0@Z", "?f@@YAXAAY01H0@Z",
        "?f@@YAXPA_N{0-9}PA_W{0-9}Z", "?f@@YAXP6AXZZ0@Z", "?f@@YAXX@Z", "?f@@YAXHX@Z", "?f@@YAX@Z", "?f@@YAXZ", "?f@@YAXZZ", "?f@@YAX@_E", "?f@@YAXH@_E", "?f@@YAXHZ_E", "?f@@YAXX_E",
    ] eq;
    "C06" c06_flags 0 "back-references under every combination of flags" [
        "?f@@YAXPIAVc@@PIFBHP6GPADXZP8c@@AEXXZ{0-3}{0-3}@Z",
    ] eq_any_flags;
    "C06" c06_deep 1 "longer parameter lists" [
        "?f@@YAX[4:(H|PAH|PAD|Vc@@|{0-3}|P6AX{0-3}@Z)]{@Z}Z",
        "?f@@YAX[1-12:PA{DE}]{0-9}{0-9}@Z",
        "?f@@YAXPAHPADP6AX[1-2:({0-4}|PAM|H|P6A{0-4}@Z)]@Z({0-5}|PAN){0-6}@Z",
    ] eq;
    "C06" c06_gram 0 "what is referred to, after any combination of types" [
        "<2>?f@<S>YA<r><T><T>{0-3}@Z", "<3>?f@@YAX<T>PAD{0-3}@Z", "<2>?f@@YAXPA<T>P6A<r>PA<T>{0-3}@ZPAM{0-5}@Z", "<2>?<O><S>YAXPAD{0-2}<e>", "<2>?f@@YAPAHPADV?$t@<A>P6AXPAE{0-4}@Z@@{0-4}@Z",
    ] eq;
    "C06" c06_counts 0 "every type after every number of types" [
        "<1>?f@@YAX[0-10:V#@@]<T>{0-9}@Z", "<1>?f@@YAX[0-10:V#@@]<T>PAM{0-9}<e>", "<1>?f@@YA<r>[8-10:V#@@]{0-9}{@Z}Z", "?f@@YA(P6AX[0-11:V#@@]@Z|P8c@@AEX[0-11:V#@@]@Z)PAH{0-9}@Z", "?f@@YAX[0-10:V#@@](P6AXXZ|P6AHXZ|P6AX@Z|P6AXZZ|P8c@@AEXXZ|P6AXPAE@Z|P6AXPAEPAF@Z|P6AX{0-9}@Z){0-9}@Z",
        "?f@@YAX[0-10:V#@@](_N|_W|PAD|Vx@@|$$T|W4e@@|AAH|$$QAH|QAH|PBH|PEAH|Y01H|PAY01H|$$A6AXXZ|?c@|H|D){0-9}@Z", "?f@@YAX[0-12:_^]{0-9}@Z", "?f@@YAX[0-12:V#@@][0-2:{0-9}]{@Z}(Z|_E)", "??$t@P6AX[0-3:V#@@]@Z@@YAX(|PAE){0-3}@Z", "??$t@V?$u@P6AXPAD@Z@@@@YAX(|PAE){0-3}@Z", "?f@?$t@P6AXPAD@Z@@YAX(|PAE){0-3}@Z", "?f@?1??g@@YAXPADPAE@Z@YAX(|PAF){0-3}@Z",
        "?f@@YAX[0-20:H]PAD0@Z", "?f@@YAX[0-9:V#@@]V?$t@[0-3:V#@@]@@{0-9}@Z",
    ] eq;
    "C06" c06_placed 0 "every type before a back-reference, in every parameter list" [
        "?f@@YAX=0{0-2}@Z", "?f@@YAXPAD=1{0-2}@Z", "?f@@YAXPAE=0=1{0-3}@Z", "?f@c@@QAEX=0{0-2}@Z", "??0c@@QAE@=0{0-2}@Z", "??Hc@@QAEH=0{0-2}@Z", "??Bc@@QAEH=0{0-2}@Z", "??_Gc@@QAEX=0{0-2}@Z", "??$f@H@@YAX=0{0-2}@Z", "??$f@=@@YAXPAD0{0-2}@Z", "?f@?$c@=@@YAXPAD0{0-2}@Z", "?f@@YA=PAD0{0-2}@Z", "?f@@YAXP6A=PAD@Z0{0-2}@Z", "?f@@YAXP6AX=@Z0{0-2}@Z", "?f@@YAP6AX=@Z0{0-2}@Z", "?f@@YAXP8c@@AEX=@Z0{0-2}@Z", "?x@@3P6AX=0{0-2}@ZA", "?x@?1??f@@YAX=@Z@4P6AXPAD0{0-2}@ZA", "?f@?1??g@@YAX=@Z@YAX0{0-2}@Z", "?x@@3V?$t@P6AX=0{0-2}@Z@@A", "?f@@YAXV?$t@P6AX=@Z@@0{0-2}@Z", "?x@@3V?$t@$1?f@@YAX=0{0-2}@Z@@A", "?f@@YAXPADV?$t@$1?f@@YAX=0{0-2}@Z@@{01}@Z", "??__Ex@@YAX=0{0-2}@Z", "?f@@YAX=0{0-2}Z", "?f@c@@$4A@A@AEX=0{0-2}@Z", "?f@@$$J0YAX=0{0-2}@Z",
        "H", "_N", "$$T", "PAH", "PEAH", "AAH", "$$QAH", "PQc@@H", "P6AXXZ", "P6AXPAM@Z", "P8c@@AEXPAN@Z", "Y01H", "V?$u@PAM@@", "Vc@@", "W4e@@", "?c@@", "$$A6AXXZ", "PAPAH", "PAY01H", "P6AP6APAMXZXZ", "AAP6AXPAM@Z", "V?$u@P6AXPAM@Z@@", "V?$u@$1?g@@YAXPAMPAN@Z@@", "QAX", "X", "?BH", "@",
    ] eq_placed;
    "C06" c06_large 0 "back-references after up to a thousand parameters" [
        "?f@@YAX([97-101:PAD]|[126-130:PAD]|[254-258:PAD]|[511-513:PAD]|[1000:PAD])PAH{0-9}@Z", "?f@@YAX([97-101:H]|[126-130:H]|[254-258:H]|[511-513:H]|[1000:H])PAD{01}{@Z}Z", "?f@@YAXPAD([97-101:0]|[126-130:0]|[254-258:0]|[511-513:0]|[1000:0])PAH{0-3}@Z", "?f@@YAX([97-101:P6AX@Z]|[126-130:P6AX@Z]|[254-258:P6AX@Z]|[511-513:P6AX@Z]|[1000:P6AX@Z]){0-9}{0-9}@Z", "?x@@3P6AX([97-101:_N]|[126-130:_N]|[254-258:_N]|[511-513:_N]|[1000:_N]){0-9}@ZA", "?f@@YAXPADV?$t@([97-101:PAH]|[126-130:PAH]|[254-258:PAH]|[511-513:PAH]|[1000:PAH])@@PAE{0-3}@Z", "?f@@YAX[8:_N]([97-101:PAH]|[126-130:PAH]|[254-258:PAH]|[511-513:PAH]|[1000:PAH])PAD{0-9}@Z", "?f@@YAX[9:_N]([97-101:PAH]|[126-130:PAH]|[254-258:PAH]|[511-513:PAH]|[1000:PAH])PAD{0-9}@Z",
    ] eq_large;
    "C06" c06_args_placed 0 "parameter lists within template arguments of every kind" [
        "?f@@YAXPADV?$t@=P6AX{0-3}@Z@@{0-3}@Z", "??$f@=P6AX{0-3}@Z@@YAX{0-3}PAD{0-3}@Z", "??$f@=@@YAXPADPAE{0-4}@Z", "?x@@3V?$t@=P6AX{0-3}@Z@@A", "?f@?$t@=@@QAEXPADPAE{0-4}@Z", "?f@@YAXPADPAEV?$t@=@@{0-4}{0-4}@Z", ".P6AXPADPAEV?$t@=@@{0-4}@Z", "?x@@3P6AXPADV?$t@=@@P6AX{0-3}@Z{0-4}@ZA",
        "$1?g@@YAXPAH@Z", "$E?g@@YAXPAH@Z", "$H?g@c@@QAEXPAH@Z0", "$MP6AXPAH@Z1?g@@YAXPAHPAI@Z", "$MP6AXPAH@Z0", "$$BY01P6AXPAH@Z", "$$CBP6AXPAH@Z", "$$A6AXPAH@Z", "$$A8@@AEXPAH@Z", "$1?y@?1??g@@YAXPAH@Z@3HA", "$$Yu@@", "$$Y?$u@P6AXPAH@Z@@", "V?$u@P6AXPAH@Z@@", "P8c@@AEXPAH@Z", "PQc@@P6AXPAH@Z", "$1?y@@3P6AXPAH@ZA", "$1??__E?y@@3HA@@YAXPAH@Z", "$1??Hc@@QAEXPAH@Z", "$1??Bc@@QAEP6AXPAH@ZXZ", "$1??$h@P6AXPAH@Z@@YAXPAI@Z", "$1??_7c@@6B?$u@P6AXPAH@Z@@@", "$1??_R0P6AXPAH@Z@8", "$$V", "H$$V", "$F01", "$1", "PAH",
    ] eq_placed;
    "C06" c06_nested 0 "the same within other symbols" ["C06"] eq_nested;

    // ------------------------------------------------------------------ C07
    "C07" c07_any 0 "any characters as type of a variable, parameter, return value, template argument or type name" [
        "?x@@3~~", "?x@@3~~~", "?x@@3~~HA", "?x@@3P~~HA", "?x@@3~A~~~", "?f@@YAX~~@Z", "?f@@YA~~XZ", "?f@@YA?~~XZ",
        "?x@@3$~~HA", "?x@@3$$~~HA", "?x@@3$$~~~HA", ".~~", ".?A~~", ".~~~@@", "??_R0~~@8", "?x@@3Va@@~", "?x@@3W~e@@~",
        "?x@@3V?$t@~~@@A", "?x@@3Y~~HA", "?x@@3QY~~HA", "?x@@3P~~",
    ] eq;
    "C07" c07_prims 0 "every fundamental type, everywhere, with every qualifier" [
        "?x@@3{!-~}{A-D}", "?x@@3_{!-~}{A-D}", "?x@@3{TUV}c@@{A-D}", "?x@@3W4e@@{A-D}", "?x@@3$$T{A-D}",
        "?f@@YA?{A-D}(H|_N|Vc@@|W4e@@|PAH|$$QAH|$$T)XZ",
        "?x@@3V?$t@$$C{A-DQ-T}(H|_N|Vc@@|W4e@@|PAH|QAY01H|Y01H)@@A", "?x@@3V?$t@$$B(H|QAH|Y01H|Y11A@$$CBH)@@A",
        "?f@@YAX(_NH|_JI|HH|_W_W|$$T)@Z",
    ] eq;
    "C07" c07_pointers 0 "pointers and references: kinds, qualifiers, 64-bit, restrict, unaligned" [
        "?x@@3{APQRS}(|E)(|I)(|F){A-D}(H|_W|Vc@@|W4e@@|X)(|E)(|I)(|F){A-D}",
        "?x@@3$$Q(|E)(|I)(|F){A-D}(H|Vc@@)(|E)(|I)(|F){A-D}",
        "?x@@3{PQRSA}{A-D}{PQRSA}{A-D}{PQA}{AB}H{A-D}",
        "?f@@YAX{APQRS}(|E)(|I)(|F){A-D}(H|Vc@@)$$Q(|E){A-D}D@Z",
        "?x@@3{PQRS}(|E)(|I)(|F){Q-T}c@@(H|Vd@@|PAH)(|E){A-DQ-T}{1-2}@",
        "?f@@YAX{PQRS}(|E){Q-T}c@@(H|PBD|Y01H|P6AXXZ)@Z", "?x@@3{A-Z}{Q-T}c@@HQ1@",
        "?f@@YAXAA{Q-T}c@@H@Z", "?f@@YAX$$QA{Q-T}H@Z",
        ".{APQR}{A-D}H", ".?{A-D}{PQ}{A-D}{HD}", "?f@@YA(|?{A-D}){PQRSA}{A-D}HXZ", "?x@@3V?$t@{PQA}{A-D}H{PQ}E{AB}Vc@@@@A",
    ] eq;
    "C07" c07_functions 0 "function and member function types, nested in every other type" [
        "?x@@3{APQRS}6{A-JM-Q}(X|H|PAH|@|?AVc@@)(X|H@|HD@|HZ|Z){Z}{A-D}",
        "?x@@3{PQRS}8c@@(|E)(|I)(|F)(|G|H){A-D}{AE}(X|H|PAH|@)(X|H@|HZ)(Z|_E)(|E){A-DQ}1@",
        "?x@@3$$Q6AH(X|D@)(Z|_E){A-D}", "?x@@3$$A(6|8@@{A-D})AH(X|D@)(Z|_E){A-D}",
        "?x@@3P{A-D}P6AHD@ZA", "?x@@3PAP8c@@AEHD@ZA", "?x@@3PAY02P6AHD@ZA", "?x@@3P6AP6AHXZD@ZA", "?x@@3P6APAY01HXZA", "?x@@3P6AHP6AHXZP8c@@BEXXZ@ZA", "?x@@3P6AP8c@@AEXP6AXH@Z@ZXZA",
        "?f@@YAP6A(H|P6AXXZ|PAY01H)D@ZPAY01D@Z", "?f@@YA(P|A|$$Q)AY1{0-9}{0-9}(H|P6AXXZ|PAY01H)XZ", "?f@c@@QBEP8d@@AEXXZH@Z",
        "?x@@3V?$t@(|P|A|$$Q)6AHD@Z@@A", "?x@@3V?$t@$$A6A(H|PAY01D)(D@|X)(Z|_E)@@A", "?x@@3V?$t@$$A8@@(|E)(|G|H){A-D}E(H|P6AXXZ)XZ@@A",
        ".P6AHP6AXD@Z@Z", ".P8c@@AEHXZ", ".$$A6AHD@Z", "?x@@3P6SH(X|H@)ZA", "?x@@3P6WH(X|H@)ZA", "?x@@3P6{A-Z}@XZA",
    ] eq;
    "C07" c07_arrays 0 "arrays: dimensions, qualifiers, and pointers and references to them" [
        "?x@@3Y({1-3}|{AB}@|?0)[1-3:({0-9}|BA@|A@)](|$$C{A-DQ})(H|PAH|P6AXXZ){A-D}", "?x@@3{APQ}(|E){A-D}Y{01}{0-9}({0-9}|A@)(|$$C{A-D})(H|PBD|Vc@@|P6AHD@Z)(|E){A-D}",
        "?x@@3PAY01PAY12{0-9}HA", "?x@@3$$QAY01HA", "?f@@YAXQ{A-D}Y0BA@H@Z", "?x@@3PQc@@Y01HQ1@", ".Y01H", ".PAY01{A-Z}", "?x@@3V?$t@$$BY0{0-9}$$C{A-D}H@@A", "?x@@3V?$t@Y01PAH@@A",
    ] eq;
    "C07" c07_any_deep 1 "any characters as type" [
        "?x@@3~~~~", "?x@@3P~~~~", "?f@@YA~~~~", "?f@@YAX~~~@Z", "?x@@3P6~~~~A", "?x@@3P8c@@~~~~A", "?x@@3PQc@@~~~", "?x@@3V?$t@~~~@@A", "?x@@3Y~~~~", ".~~~~", "??_R0~~~@8",
    ] eq;
    "C07" c07_compose 1 "types composed of one another" [
        concat!("?x@@3(P|A|$$Q)({A-D}|E{A-D})", ty!(), "{A-D}"), concat!("?x@@3PAPB", ty!(), "{A-D}"), concat!("?x@@3P6A", ty!(), ty!(), "@ZA"), concat!("?x@@3PAY0{0-9}", ty!(), "A"),
        concat!("?x@@3P8c@@BE", ty!(), ty!(), "@ZA1@"), concat!("?x@@3PQc@@", ty!(), "Q1@"), concat!("?f@@YA", ty!(), ty!(), ty!(), "@Z"), concat!("?f@@YA?B", ty!(), ty!(), "{@Z}Z"),
        concat!("?x@@3V?$t@", ty!(), "$$CB", ty!(), "@@A"), concat!(".PAP6A", ty!(), ty!(), "@Z"), concat!("?f@@YAP6AP6A", ty!(), ty!(), "@Z", ty!(), "@Z", ty!(), "@Z"),
    ] eq;
    "C07" c07_gram 0 "all types of the grammar of at most so many parts" [
        "<4>?x@@3<T>A", "<2>?x@@3<T>{A-DQ}(|c@@)", "<3>?f@@YA<r>XZ", "<3>.<T>", "<3>?x@@3V?$t@<T>@@A",
    ] eq;
    "C07" c07_counts 0 "types nested and repeated up to thirty times" [
        "?x@@3[1-30:PA]{HD}A", "?x@@3[0-6:PE{AB}]HEA", "?x@@3[0-10:P6AX]H[0-10:@Z]A", "?x@@3[0-12:P6A]H[0-12:XZ]A", "?f@@YAX[0-30:D]{HDI_}{@Z}(Z|_E)", "?f@@YAX[0-4:{DH}]{@Z}(Z|_E)", "?f@@YAX[0-14:PAH]{@Z}(Z|_E)", "?f@@YAX[0-9:P6AXPAH@Z]@Z", "?x@@3[1-12:PAY0^]HA", "?x@@3PAY[1:{0-9}][0-12:^]HA", "?x@@3P8[1-9:#@]@AEXXZA", "?x@@3[0-8:PQc@@]HQ1@", "?x@@3[0-6:Y01]HA", "?x@@3[0-4:Y01]$$CBHA", "?x@@3[0-4:Y01]$$CB[1-3:Y01]HA", "?x@@3V?$t@[0-3:Y01]$$C{A-D}[0-2:Y02](H|PAH)@@A",
        "?x@@3[0-8:V?$t@]H[0-8:@@]A", "?f@@YA(H|PAH)[0-8:(PAD)](Z|_E|@_E|ZZ|Z_E|X_E|XZ|{0-3}Z_E|{0-3}ZZ|{01}{01}Z_E|{01}{01}@Z)", "?f@@YAXABVc@@0{01}Z_E", "?f@@YAPAHPADPBE{01}{01}ZZ",
        "?x@@3(P|Q|R|S)(|E)(|I|F|IF){A-D}(P|S)(|EI|F)A(H|Vc@@)A", "?x@@3{PQ}{A-D}{PQRS}(|E|I|F){A-D}H{A-D}", "?x@@3{PQRS}E{A-D}{PQRS}{A-D}Y01HEA", "?x@@3{PQRS}(|E)(|I)(|F){A-D}6A{HX}(X|H@)ZA",
    ] eq;
    "C07" c07_spaces 0 "type names of any length, ending in any character, in every place" [
        "?x@@3(|PA|AA|$$QA|PEB)V[0-20:a](~|é|—|中|😀|𐐀)@@A", "?x@@3PQ[0-12:a](~|é|—|中|😀|𐐀)@@HQ1@", "?x@@3P8[0-12:a](~|é|—|中|😀|𐐀)@@AEXXZA", "?f@@YA?{AB}V[0-12:a](~|é|—|中|😀|𐐀)@@XZ", "?f@@YAPAV[0-12:a](~|é|—|中|😀|𐐀)@@XZ", "?f@@YAX(|PB)V[0-12:a](~|é|—|中|😀|𐐀)@@@Z", "?x@@3V?$t@(|PA|$$CB)V[0-12:a](~|é|—|中|😀|𐐀)@@@@A",
        "?x@@3P6AV[0-12:a](~|é|—|中|😀|𐐀)@@XZA", "?x@@3PAY01V[0-12:a](~|é|—|中|😀|𐐀)@@A", "?x@@3Y01V[0-12:a](~|é|—|中|😀|𐐀)@@A", "?x@@3W4[0-12:a](~|é|—|中|😀|𐐀)@@{AB}", "??Bc@@QAE?AV[0-12:a](~|é|—|中|😀|𐐀)@@XZ", "?x@@3P6AV[0-4:a](~|é|—|中|😀|𐐀)@@P6AV[0-4:a]{b_}@@XZ@ZA", "?x@@3QQ[0-12:a](~|é|—|中|😀|𐐀)@@HQ1@", "?x@@3PA?[0-12:a](~|é|—|中|😀|𐐀)@A",
        "?x@@3PAV[0-12:a](~|é|—|中|😀|𐐀)@[0-12:a]{b_$}@@{AB}", "?x@@3PEIFAV?$[0-12:t]{t_}@V[0-4:a]{b_}@@@@EIA", ".PAV[0-20:a](~|é|—|中|😀|𐐀)@@", ".?AV[0-20:a](~|é|—|中|😀|𐐀)@@", "??_R0PAV[0-20:a](~|é|—|中|😀|𐐀)@@@8", "??_R0?AV[0-20:a](~|é|—|中|😀|𐐀)@@@8", "?x@[0-20:a](~|é|—|中|😀|𐐀)@@3PAHA", "?[0-20:a](~|é|—|中|😀|𐐀)@@YAPAHXZ",
    ] eq;
    "C07" c07_long 0 "types of the grammar after long names" [ "<2>?[40:x]@@3<T><Q>", "<2>?[40:x]@@YA<r><l>Z", "<2>?x@[300:n]@@3<T><Q>", "<1>?[300:x]@[90:n]@@YA<r><l>Z", "<2>?x@@3PAV[60:k]@@A", "<2>?f@@YAXV[60:k]@@<T>@Z", "<2>?f@@YAXPA<T>V[60:k]@@@Z" ] eq;
    "C07" c07_placed 0 "every kind of type with any characters, in every place for one" [
        "?x@@3=A", "?f@@YAX=@Z", "?f@@YAXH=@Z", "?f@@YAXPAD=0@Z", "?f@@YA=XZ", "?f@@YA?B=XZ", "?x@@3PB=A", "?x@@3PAPA=A", "?x@@3AA=A", "?x@@3Y01=A", "?x@@3PAY01=A", "?x@@3P6A=XZA", "?x@@3P6AX=@ZA", "?x@@3P6AP6AX=@ZXZA", "?x@@3P8c@@AE=XZA", "?x@@3P8c@@AEX=@ZA", "?x@@3PQc@@=Q1@", "?x@@3V?$t@=@@A", "?x@@3V?$t@H=@@A", "?x@@3V?$t@V?$u@=@@@@A", "?x@@3V?$t@$$CB=@@A", "?x@@3V?$t@$$BY01=@@A", "?x@@3V?$t@$M=0@@A", "?x@@3V?$t@$1?f@@YAX=@Z@@A", "?x@?1??f@@YAX=@Z@4HA", "?x@?1??f@@YA=XZ@4HA", "??$f@=@@YAXXZ", "??Bc@@QAE=XZ", "??0c@@QAE@=@Z", "??$?BH@c@@QAE=XZ", "??_R0=@8", ".=", "??__E?x@@3=A@@YAXXZ", "??__Fx@@YAX=@Z", "?f@c@@$4A@A@AEX=@Z", "?f@@YAX=Z", "?x@@3$$A6A=XZA",
        "~", "_~", "$~H", "$$~H", "P~H", "A~H", "$$Q~H", "PE~H", "P6~HXZ", "P6AH~Z", "P8c@@~EXXZ", "PQ~@@H", "Y~1H", "Y0~H", "W~e@@", "?~H", "V~@@", "X", "PAé", "PAY01$$C~H", "$$C~H", "$$A~AHXZ", "PIF~X",
    ] eq_placed;
    "C07" c07_sigs 0 "every return type with every parameter list, convention and end, wherever a function type stands" [
        "?f@@Y{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)",
        "?f@c@@S{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)",
        "?x@@3P6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)A",
        "?x@@3Q6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)B",
        "?x@@3A6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)A",
        "?f@@YAXP6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@Z",
        "?f@@YAP6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)XZ",
        "?x@@3P6AP6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)XZA",
        "?x@@3V?$t@$$A6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@@A",
        "?x@@3V?$t@P6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@@A",
        ".P6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)",
        "?x@@3PAP6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)A",
        "?x@@3PAY01P6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)A",
        "??$f@H@@Y{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)",
        "?x@?1??f@@Y{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@4HA",
        "?x@@3V?$t@$1?f@@Y{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@@A",
        "?f@@$$J0Y{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)",
        "??_R0P6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)@8",
        "?x@@3$$Q6{AGQ}(X|H|@|PAH|?AH|?BVc@@|P6AHXZ|P6AHHZZ|P8c@@AEHXZ|PAY01H|W4e@@|AAP6AXXZ|PQc@@H|V?$t@P6AXXZ@@)(X|HD@|HZ|Z|P6AXHZZ@|V?$t@H@@0@)(Z|_E)A",
    ] eq;
    "C07" c07_pairs 0 "every pointer to everything, wherever a type stands" [
        "?x@@3({ABPQRS}|$$Q)(|E|I|F|EI|IF|FE|EIF){A-D}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3{PQRS}(|E|I|F|EI|EIF){Q-T}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3({ABPQRS}|$$Q)(|E|I|F|EI|IF|FE|EIF){A-D}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)B",
        "?x@@3{PQRS}(|E|I|F|EI|EIF){Q-T}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)B",
        "?f@@YAX({ABPQRS}|$$Q)(|E|I|F|EI|IF|FE|EIF){A-D}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@Z",
        "?f@@YAX{PQRS}(|E|I|F|EI|EIF){Q-T}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@Z",
        "?f@@YA({ABPQRS}|$$Q)(|E|I|F|EI|IF|FE|EIF){A-D}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "?f@@YA{PQRS}(|E|I|F|EI|EIF){Q-T}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "?x@@3V?$t@({ABPQRS}|$$Q)(|E|I|F|EI|IF|FE|EIF){A-D}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@{PQRS}(|E|I|F|EI|EIF){Q-T}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)IB",
        "?x@@3{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)IB",
        "?x@c@@2{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)QC",
        "?x@c@@2{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)QC",
        "?f@@YA?B{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "?f@@YA?B{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "?f@@YAXH{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)HZZ_E",
        "?f@@YAXH{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)HZZ_E",
        ".{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)",
        ".{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)",
        "??_R0{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@8",
        "??_R0{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@8",
        "??_R0?A{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@8",
        "??_R0?A{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@8",
        "??Bc@@QBE{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "??Bc@@QBE{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "??$f@{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@YAXXZ",
        "??$f@{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@YAXXZ",
        "?x@?1??f@@YA{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ@4HA",
        "?x@?1??f@@YA{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ@4HA",
        "?x@@3PAY12{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3PAY12{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3Y01{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3Y01{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3P6A{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZA",
        "?x@@3P6A{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZA",
        "?x@@3P6AX{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@ZA",
        "?x@@3P6AX{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@ZA",
        "?x@@3P8c@@AE{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZA",
        "?x@@3P8c@@AE{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZA",
        "?x@@3V?$t@$$B{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@$$B{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@$$C{BD}{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@$$C{BD}{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@$M{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)0@@A",
        "?x@@3V?$t@$M{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)0@@A",
        "?x@@3PIB{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3PIB{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3AA{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3AA{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3PQm@@{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3PQm@@{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)A",
        "?x@@3V?$t@Y01{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?x@@3V?$t@Y01{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@@A",
        "?f@@YAX{AP}EB{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@Z",
        "?f@@YAX{AP}EB{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)@Z",
        "?f@c@@QEHAA{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)X_E",
        "?f@c@@QEHAA{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)X_E",
        "?f@c@@W3AE{ABP}(|E|I){AB}(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
        "?f@c@@W3AE{PQ}(|E){QR}k@@(H|X|_N|$$T|PAH|QBD|PIAH|AAH|$$QAH|Vc@@|W4e@@|P6AXXZ|P6AXHZZ_E|P8c@@AEXXZ|PQc@@H|Y01H|Y01PAH|Y01$$CBH|Y01Vc@@|$$CBH|?AVc@@|$$A6AXXZ|V?$t@PAH@@|V?$t@P6AXXZ@@)XZ",
    ] eq;
    "C07" c07_nested 0 "the same within other symbols" ["C07"] eq_nested;
    "C07" c07_many 0 "parameters and template arguments of every kind, up to a hundred" [
        "?x@@3P6AX[0-100:H]@ZA", "?x@@3P6AX[0-100:PAH]@ZA", "?x@@3V?$t@[0-100:P6AXXZ]@@A", "?x@@3P8c@@AEX[0-100:P6AXXZ]@ZA", "?f@@YAX[0-100:PAY01H]@Z", "?f@@YAX[0-100:W4e@@]@Z", "?f@@YAX[0-100:V?$t@H@@]ZZ", "?f@@YAX[0-100:PQc@@H]ZZ",
    ] eq;
    "C07" c07_more 0 "parameters and template arguments of every kind, up to a thousand: the right text or an error" [
        "(?x@@3P6AX[126-130:H]@ZA|?x@@3P6AX[254-258:H]@ZA|?x@@3P6AX[511-513:H]@ZA|?x@@3P6AX[1000:H]@ZA)", "(?x@@3P6AX[126-130:PAH]@ZA|?x@@3P6AX[254-258:PAH]@ZA|?x@@3P6AX[511-513:PAH]@ZA|?x@@3P6AX[1000:PAH]@ZA)", "(?x@@3V?$t@[126-130:P6AXXZ]@@A|?x@@3V?$t@[254-258:P6AXXZ]@@A|?x@@3V?$t@[511-513:P6AXXZ]@@A|?x@@3V?$t@[1000:P6AXXZ]@@A)", "(?x@@3P8c@@AEX[126-130:P6AXXZ]@ZA|?x@@3P8c@@AEX[254-258:P6AXXZ]@ZA|?x@@3P8c@@AEX[511-513:P6AXXZ]@ZA|?x@@3P8c@@AEX[1000:P6AXXZ]@ZA)", "(?f@@YAX[126-130:PAY01H]@Z|?f@@YAX[254-258:PAY01H]@Z|?f@@YAX[511-513:PAY01H]@Z|?f@@YAX[1000:PAY01H]@Z)", "(?f@@YAX[126-130:W4e@@]@Z|?f@@YAX[254-258:W4e@@]@Z|?f@@YAX[511-513:W4e@@]@Z|?f@@YAX[1000:W4e@@]@Z)", "(?f@@YAX[126-130:V?$t@H@@]ZZ|?f@@YAX[254-258:V?$t@H@@]ZZ|?f@@YAX[511-513:V?$t@H@@]ZZ|?f@@YAX[1000:V?$t@H@@]ZZ)", "(?f@@YAX[126-130:PQc@@H]ZZ|?f@@YAX[254-258:PQc@@H]ZZ|?f@@YAX[511-513:PQc@@H]ZZ|?f@@YAX[1000:PQc@@H]ZZ)",
    ] eq_large;

    // ------------------------------------------------------------------ C08
    "C08" c08_class 0 "every function class, with every calling convention, qualifier and ending" [
        "?f@c@@{ABEFIJMNQRUV}(|E)(|I)(|F)(|G|H){A-DQ-T}{A-Z}(H|@|?AVd@@)(X|H@|HZ)(Z|_E)",
        "?f@c@@{CDKLSTYZ}{A-Z}(H|@|PAD)(X|H@|HZ)(Z|_E)",
        "?f@@{0-9A-Z$}AXXZ", "?f@c@@{A-Z}AEXXZ", "?f@@~AXXZ", "?f@@$~AAEXXZ",
        "?f@@$$J0{A-Z}{AE}{AE}XXZ", "?f@@$$J0{CKSYZ}AXXZ", "?f@@$$J~YAXXZ", "?f@@$$J09", "?f@@9", "?f@c@@9",
        "?f@@YA%XXZ", "?f@@YA&XXZ", "?f@@Y%XXZ", "?f@@Y&XXZ",
    ] eq;
    "C08" c08_any 0 "any characters as encoding" [
        "?f@@~", "?f@@~~", "?f@@~~~", "?f@@Y~~~", "?f@@YA~~Z", "?f@@YAXX~", "?f@@YAXX~~", "?f@@YAXH~~", "?f@@QA~~~", "?f@@Q~~XXZ", "?f@@QAEX~~", "?f@@$~~~", "?f@@$0A@~~XXZ", "?f@@$R~A@A@A@A@AEXXZ",
    ] eq;
    "C08" c08_thunks 0 "adjusting thunks" [
        "?f@c@@{GHOPWX}({0-9}|?{0-9}|{A-P}@|{B-P}{A-P}@)(|E){A-D}EH(X|D@)Z",
        "?f@c@@${0-5}({0-9}|?{0-9}|{A-P}@|PPPPPPP{A-P}@)({0-9}|?{0-9}|{A-P}@)(|E){A-D}EH(X|D@)Z",
        "?f@c@@$R{0-5}({0-9}|?{0-9})({0-9}|{A-P}@)({0-9}|?{0-9})({0-9}|PPPPPPP{A-P}@)AEH(X|D@)Z",
        "?f@c@@{A-Z}A@AEXXZ", "?f@c@@$(|R)~A@A@A@A@AEXXZ", "?f@c@@${6-9A-Z}A@A@AEXXZ", "??_Ec@@{GOW}3AEPAXI@Z", "??1c@@$4PPPPPPPM@A@AE@XZ",
    ] eq;
    "C08" c08_vars 0 "storage classes of variables" [
        "?x@c@@{0-9}{HD}{A-DQ}", "?x@c@@{0-5}PAH{A-D}", "?x@@~HA", "?x@c@@2P6AHXZ{A-D}", "?x@c@@{012}QBY01HB", "?x@c@@{0-4}PQd@@H{Q-T}1@",
    ] eq;
    "C08" c08_any_deep 1 "any characters as encoding" [
        "?f@@~~~~", "?f@@~~~~~", "?f@c@@Q~~~~Z", "?f@@YA~~~~", "?f@@$~~~~~", "?f@c@@$R4~~~~AEXXZ", "?f@c@@$4~~~~AEXXZ", "?f@c@@W~~~EXXZ",
        "?f@c@@{A-X}(|E)(|I)(|F)(|G|H){A-DQ-T}{A-Z}(H|@|?AVd@@|P6AXXZ)(X|H@|HDZ|Z|@)(Z|_E)",
    ] eq;
    "C08" c08_gram 0 "all functions and variables of the grammar of at most so many parts" [ "<3><G>", "<2>?x@c@<S>{0-4}<T>{A-DQ}", "<2>?f@c@@{A-Z}<X><Q><c>HXZ", "<2>?f@c@@$4A@A@<X><Q><f>" ] eq;
    "C08" c08_counts 0 "functions of classes at any depth, with any number of parameters, in every class of function" [
        "?f@[1-12:#@]@{A-X}(AE|EBA|BA|3AE|A@AE)X[0-3:H](X|@)Z", "?f@c@@{A-Z}AEX[0-12:V#@@](@|)Z", "?f@@$$J0{A-Z}(A|AE|3AE)(H|X)(X|D@)Z", "?f@c@@$$J0{A-Z}(A|AE|3AE)(H|X)(X|D@)Z", "?f@c@@$$J0${0-5}33AEXXZ", "?f@c@@$R{45}(3|?3)(3|?3|A@)(3|?3)(3|?3|PPPPPPPM@){A-D}{AGQ}(X|H)(X|D@)(Z|_E)", "?f@c@@${0-5}(3|?3|PPPPPPPM@)(3|?3|A@)(|E|I|F){A-D}{AEGIQ}(X|H|@)(X|D@)(Z|_E)", "?f@c@@{GHOPWX}(3|?3|A@)(|E|I|F|G|H){A-D}{AEGIQ}(X|H|@)(X|D@)(Z|_E)",
        "?x@[1-8:#@]@{0-4}(H|PAH|Y01H|$$CBH|Y01$$CBH|AAH|P6AXXZ|PQd@@H|P8d@@AEXXZ|Vd@@|W4e@@)(|E|I|F){A-DQ}(|1@)", "??$f@H@c@@{A-X}(AE|EBA|BA|3AE|A@AE)XXZ", "??{01D}c@@{A-X}(AE|EBA|BA|3AE|A@AE)@XZ", "??Bc@@{A-X}(AE|EBA|BA|3AE|A@AE)HXZ", "??_{EG}c@@$(4|R4AA)33AEXXZ",
    ] eq;
    "C08" c08_placed 0 "every kind of encoding with any characters, in every place for one" [
        "?f@@=", "?f@c@@=", "?f@c@n@@=", "??$f@H@c@@=", "??0c@@=", "??Hc@@=", "??Bc@@=", "??_Gc@@=", "??__K_x@@=", "??$?HH@c@@=", "?x@?1??f@c@@=@4HA", "?x@?1??0c@@=@4HA", "?x@?1??f@?1??g@c@@=@YAXXZ@4HA", "?x@@3V?$t@$1?f@c@@=@@A", "?x@@3V?$t@$E?f@c@@=@@A", "?x@@3V?$t@$H?f@c@@=A@@@A", "?x@@3V?$t@$1?x@?1??f@c@@=@4HA@@A", "??__Ex@c@@=", "??__E?x@c@@=@@YAXXZ",
        "{0-9A-Z}AEXXZ", "{0-9A-Z}AXXZ", "~AEXXZ", "Q~XXZ", "Q~EXXZ", "QA~XXZ", "QAE~XZ", "QAEX~", "QAEX~@Z", "QAEXX~", "QAEXH~Z", "QAEXH@~", "QAEXX_~", "$~AAEXXZ", "$4~AAEXXZ", "$R~AAAAAEXXZ", "$$~", "$$J~QAEXXZ", "$$J0~AEXXZ", "$$J0~AXXZ", "W~AEXXZ", "9", "YAXXZ", "~HA", "3~A", "3H~", "3PA~A", "", "SAXXZ_E",
    ] eq_placed;
    "C08" c08_sigs 0 "every qualifier and reference with every return type and end, wherever a member function stands" [
        "?f@c@@{QU}(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?x@@3P8c@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)A",
        "?f@@YAXP8c@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)@Z",
        "?x@@3V?$t@$$A8@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)@@A",
        "?f@@YAP8c@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)XZ",
        ".P8c@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?x@@3V?$t@$H?f@c@@Q(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)0@@A",
        "??$f@H@c@@Q(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?x@?1??f@c@@Q(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)@4HA",
        "?x@@3PAP8c@@(|E|I|F|G|H|EG|EH|EIFG){A-DQ-T}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)A",
        "?f@c@@W3(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?f@c@@$43?3(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?f@c@@$R43?33?3(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "??{01D}c@@{QI}(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "??Bc@@Q(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
        "?f@c@@$$J0Q(|E|G|H){A-D}{AE}(X|@|H|P6AHXZ|?AVc@@|PAY01H)(X|HZ)(Z|_E)",
    ] eq;
    "C08" c08_nested 0 "the same within other symbols" ["C08"] eq_nested;
    "C08" c08_many 0 "parameters of functions of every kind, up to a hundred" [
        "?f@@YAX[0-100:H]@Z", "?f@c@@QBEH[0-100:D]ZZ", "?f@c@@SAX[0-100:_J]@Z", "?f@c@@W3AEX[0-100:M]@Z", "?f@c@@$R43?33?3AEX[0-100:V#@@]@Z", "??0c@@QAE@[0-100:PAH]@Z", "??Bc@@QAEH[0-100:0-100]@Z", "?f@@$$J0YAX[0-100:PAD]@_E", "??$f@H@@YAX[0-100:0]@Z",
    ] eq;
    "C08" c08_more 0 "parameters of functions of every kind, up to a thousand: the right text or an error" [
        "(?f@@YAX[126-130:H]@Z|?f@@YAX[254-258:H]@Z|?f@@YAX[511-513:H]@Z|?f@@YAX[1000:H]@Z)", "(?f@c@@QBEH[126-130:D]ZZ|?f@c@@QBEH[254-258:D]ZZ|?f@c@@QBEH[511-513:D]ZZ|?f@c@@QBEH[1000:D]ZZ)", "(?f@c@@SAX[126-130:_J]@Z|?f@c@@SAX[254-258:_J]@Z|?f@c@@SAX[511-513:_J]@Z|?f@c@@SAX[1000:_J]@Z)", "(?f@c@@W3AEX[126-130:M]@Z|?f@c@@W3AEX[254-258:M]@Z|?f@c@@W3AEX[511-513:M]@Z|?f@c@@W3AEX[1000:M]@Z)", "(?f@c@@$R43?33?3AEX[126-130:V#@@]@Z|?f@c@@$R43?33?3AEX[254-258:V#@@]@Z|?f@c@@$R43?33?3AEX[511-513:V#@@]@Z|?f@c@@$R43?33?3AEX[1000:V#@@]@Z)", "(??0c@@QAE@[126-130:PAH]@Z|??0c@@QAE@[254-258:PAH]@Z|??0c@@QAE@[511-513:PAH]@Z|??0c@@QAE@[1000:PAH]@Z)", "(??Bc@@QAEH[126-130:126-130]@Z|??Bc@@QAEH[254-258:254-258]@Z|??Bc@@QAEH[511-513:511-513]@Z|??Bc@@QAEH[1000:1000]@Z)", "(?f@@$$J0YAX[126-130:PAD]@_E|?f@@$$J0YAX[254-258:PAD]@_E|?f@@$$J0YAX[511-513:PAD]@_E|?f@@$$J0YAX[1000:PAD]@_E)", "(??$f@H@@YAX[126-130:0]@Z|??$f@H@@YAX[254-258:0]@Z|??$f@H@@YAX[511-513:0]@Z|??$f@H@@YAX[1000:0]@Z)",
    ] eq_large;

    // ------------------------------------------------------------------ C09
    "C09" c09_digits 0 "numbers of one to three characters, wherever one can stand" [
        "?x@?~??f@@YAXXZ@4HA", "?x@?~@??f@@YAXXZ@4HA", "?x@@3V?$t@$0~@@A", "?x@@3V?$t@$0~~@@A", "?x@@3V?$t@$0?~@@A", "?x@@3V?$t@$0?~@@@A", "?x@@3V?$t@$0{A-P}{A-P}@@@A",
        "?x@@3V?$t@$F~~@@A", "?x@@3V?$t@$F{0-9}?{A-P}{A-P}@@@A", "?x@@3V?$t@$G{0-9}?{0-9}{A-P}@@@A", "?x@@3V?$t@$H?f@@YAXXZ~@@A", "?x@@3V?$t@$I?f@@YAXXZ{0-9}?{0-9}@@A", "?x@@3V?$t@$J?f@@YAXXZ{0-9}?{0-9}{A-P}@@@A",
        "?x@@3PAY~~HA", "?x@@3PAY0~HA", "?x@@3PAY0{A-P}{A-P}@HA", "?x@@3PAY1{0-9}{0-9}HA", "?f@c@@W~AEXXZ", "?f@c@@W{A-P}{A-P}@AEXXZ", "?f@c@@W?{0-9}AEXXZ", "?f@c@@$4~~AEXXZ", "?f@c@@$R4{0-9}{0-9}{0-9}{0-9}AEXXZ",
        "??_R1~A@?0EA@c@@8", "??_R1A@~A@EA@c@@8", "??_R1A@?~A@EA@c@@8", "??_R1A@A@~EA@c@@8", "??_R1A@A@A@~c@@8", "??_R1{0-9}{0-9}{0-9}{0-9}c@@8", "??_R1A@?{A-P}{A-P}@A@EA@c@@8",
        "??_B?1??f@@YAHXZ@5~", "??_B?1??f@@YAHXZ@5~~", "??_B?1??f@@YAHXZ@5{A-P}{A-P}@", "??__J?1??f@@YAHXZ@5{0-9}", "??_9c@@$B~AA", "??_9c@@$B{A-P}{A-P}@AA",
    ] eq;
    "C09" c09_wide 0 "long numbers, up to and beyond 32 and 64 bits" [
        "?x@@3V?$t@$0(|?){A-P}[0-15:P]@@@A", "?x@@3V?$t@$0(|?)B[0-15:A]@@@A", "?x@@3V?$t@$0(|?){H-J}[6-7:P]@@@A", "?x@@3V?$t@$0(|?){H-J}AAAAAAAAAAAAAA{A-C}@@@A", "?x@@3V?$t@$0(|?){HIP}PPPPPPPPPPPPPP{A-P}@@@A", "?x@@3V?$t@$0A[1-15:P]{AB}@@@A", "?x@@3V?$t@$0{BP}[16-18:A]{A-C}@@@A",
        "?x@@3V?$t@$F(|?){HI}[15:A]@A@@@A", "?x@@3V?$t@$F(|?){HI}[7-15:P]@?{HI}[7-15:P]@@@A", "?x@@3V?$t@$G(|?){HI}[7:P]@?{HI}[7:P]@A@@@A",
        "?x@?{B-P}[0-15:{P}]@??f@@YAXXZ@4HA", "?x@?B[0-15:A]@??f@@YAXXZ@4HA", "?x@@3PAY0{BP}[0-15:P]@HA",
        "?f@c@@W(|?){HIP}[6-8:P]@AEXXZ", "?f@c@@W(|?){HIP}[14-16:P]@AEXXZ", "?f@c@@$4(|?){HIP}[6-8:P]@(|?){HIP}[6-8:P]@AEXXZ", "?f@c@@$R4(|?){HIP}PPPPPPP@(|?){HIP}PPPPPPP@(|?){HIP}PPPPPPP@(|?){HIP}PPPPPPP@AEXXZ",
        "?f@c@@$4(|?){HI}PPPPPPPPPPPPPPP@A@AEXXZ", "?f@c@@$4A@(|?){HI}AAAAAAAAAAAAAAA@AEXXZ", "?f@c@@$4BAAAAAAAA@B[8:A]@AEXXZ",
        "??_R1{HIP}[6-8:P]@A@A@A@c@@8", "??_R1A@(|?){HIP}[6-8:P]@A@A@c@@8", "??_R1A@(|?){HI}[7:A]@A@A@c@@8", "??_R1A@(|?)IAAAAAA{AB}@A@A@c@@8", "??_R1A@A@{HIP}[6-8:P]@A@c@@8", "??_R1A@A@A@{HIP}[6-8:P]@c@@8", "??_R1A@A@A@BAAAAAAA{A}@c@@8",
        "??_B?1??f@@YAHXZ@5{HIP}[6-8:P]@", "??_B?1??f@@YAHXZ@5BAAAAAAAA@", "??_9c@@$B{HIP}[6-16:P]@AA", "??_R1BAAAAAAAA@A@A@A@c@@8", "??_R1A@A@BAAAAAAAA@A@c@@8",
    ] eq;
    "C09" c09_deep 1 "numbers of up to four free digits" [
        "?x@@3V?$t@$0(|?){A-P}{A-P}{A-P}@@@A", "?x@@3V?$t@$0~~~@@A", "?x@@3V?$t@$0P{A-P}PPPPPPPPPPPPP{A-P}@@@A", "?x@@3PAY0{A-P}{A-P}{A-P}@HA", "?f@c@@W(|?){A-P}{A-P}{A-P}@AEXXZ", "?f@c@@$4P{A-P}PPPPP{A-P}@{A-P}{A-P}@AEXXZ",
        "?x@?~~~?f@@YAXXZ@4HA", "?x@?{B-P}{A-P}{A-P}@??f@@YAXXZ@4HA", "??_R1~~~c@@8", "??_R1A@~~A@A@c@@8", "??_B?1??f@@YAHXZ@5~~~", "?x@@3V?$t@$F~~~@@A", "?x@@3V?$t@$G~~~@@A", "?x@@3V?$t@$J?f@@YAXXZ~~~@@A", "?f@c@@$R4~~~~AEXXZ",
    ] eq;
    "C09" c09_gram 0 "every combination of numbers of the listed shapes" [
        "<1>?x@?<n>??f@@YAXXZ@4HA", "<3>?x@@3PAY<n><n><n>HA", "<3>?f@c@@$4<n><n>AEXXZ", "<3>?f@c@@$R4<n><n><n><n>AEXXZ", "<1>?f@c@@W<n>AEXXZ", "<3>??_R1<n><n><n><n>c@@8", "<2>?x@@3V?$t@$F<n><n>@@A", "<2>?x@@3V?$t@$G<n><n><n>@@A", "<2>?x@@3V?$t@$J?f@@YAXXZ<n><n><n>@@A", "<2>?x@@3V?$t@$I?f@@YAXXZ<n><n>@@A", "<2>?x@@3V?$t@$H?f@@YAXXZ<n>@@A", "<2>?x@@3V?$t@$0<n>$MH0<n>@@A", "<1>??_B?1??f@@YAHXZ@5<n>", "<1>??_9c@@$B<n>AA",
        "<2>?x@?<n>?_f@?<n>??g@@YAXXZ@YAXXZ@4HA", "<2>??_C@_0<n>A@a?$AA@", "<2>??_C@_1<n>A@?$AAa?$AA?$AA@",
    ] eq;
    "C09" c09_placed 0 "every kind of number in every place for one" [
        "?x@?=??f@@YAXXZ@4HA", "?x@?=?f@3HA", "?x@n@?=??f@@YAXXZ@m@@4HA", "?x@@3V?$t@$0=@@A", "?x@@3V?$t@H$0=D@@A", "?x@@3V?$t@$0=$0=@@A", "?x@@3V?$t@$MH0=@@A", "?x@@3V?$t@V?$u@$0=@@@@A", "??$f@$0=@@YAXXZ", "??$?H$0=@@YAXXZ", "?x@@3V?$t@$F=0@@A", "?x@@3V?$t@$F0=@@A", "?x@@3V?$t@$G=00@@A", "?x@@3V?$t@$G0=0@@A", "?x@@3V?$t@$G00=@@A", "?x@@3V?$t@$H?f@@YAXXZ=@@A", "?x@@3V?$t@$I?f@@YAXXZ=0@@A", "?x@@3V?$t@$I?f@@YAXXZ0=@@A", "?x@@3V?$t@$J?f@@YAXXZ=00@@A", "?x@@3V?$t@$J?f@@YAXXZ0=0@@A", "?x@@3V?$t@$J?f@@YAXXZ00=@@A", "?x@@3PAY0=HA", "?x@@3PAY1=0HA", "?x@@3PAY10=HA", "?x@@3PAY=00HA", "?x@@3Y0=HA", "?f@@YAXPAY0=PAY0=H@Z", "?x@@3V?$t@$$BY0=H@@A", "?f@c@@W=AEXXZ", "?f@c@@G=AEXXZ", "?f@c@@O=AEXXZ", "?f@c@@$4=0AEXXZ", "?f@c@@$40=AEXXZ", "?f@c@@$0=0AEXXZ", "?f@c@@$R4=000AEXXZ", "?f@c@@$R40=00AEXXZ", "?f@c@@$R400=0AEXXZ", "?f@c@@$R4000=AEXXZ", "??_R1=000c@@8", "??_R10=00c@@8", "??_R100=0c@@8", "??_R1000=c@@8", "??_B?1??f@@YAHXZ@5=", "??__J?1??f@@YAHXZ@5=", "??_9c@@$B=AA", "??_C@_0=A@a?$AA@", "??_C@_1=A@?$AAa?$AA?$AA@", "?x@?1??f@?=??g@@YAXXZ@YAXXZ@4HA", "~", "~@", "?~", "{A-P}{A-P}@", "?{A-P}{A-P}@", "{HIP}PPPPPPP@", "?{HI}PPPPPPP@", "?IAAAAAAA@", "BAAAAAAA{AB}@", "{HIP}PPPPPPPPPPPPPPP@", "?{HI}PPPPPPPPPPPPPPP@", "?IAAAAAAAAAAAAAAA@", "BAAAAAAAAAAAAAAA{AB}@", "AAAAAAAAAAAAAAAAAB@", "{A-P}é@", "",
    ] eq_placed;
    "C09" c09_large 0 "numbers of up to a thousand digits" [
        "?x@@3V?$t@$0(|?)[17-40:A]{A-P}@@@A", "?x@@3V?$t@$0(|?)[17-40:A]{HI}PPPPPPPPPPPPPP{OP}@@@A", "?x@@3V?$t@$0(|?)([63-66:A]|[126-130:A]|[254-258:A]|[1000:A]){B-P}{A-P}@@@A", "?x@?[6-40:A]{B-P}@??f@@YAXXZ@4HA", "?x@@3PAY0[14-40:A]{B-P}@HA", "?f@c@@W[6-40:A]{B-P}@AEXXZ", "?f@c@@$4(|?)[6-40:A]{B-P}@(|?)[6-40:A]{B-P}@AEXXZ", "??_R1[6-40:A]{B-P}@(|?)[6-40:A]{B-P}@A@A@c@@8", "??_9c@@$B[6-40:A]{B-P}@AA", "??_C@_0[6-40:A]{BC}@A@a?$AA@", "??_B?1??f@@YAHXZ@5[6-40:A]{B-P}@", "?x@@3V?$t@$0{BP}([17-40:{AP}]|[1000:A])@@@A", "?x@@3PAY0{B-P}[16-40:A]@HA",
    ] eq;
    "C09" c09_nested 0 "the same within other symbols" ["C09"] eq_nested;

    // ------------------------------------------------------------------ C10
    "C10" c10_any 0 "any characters as template arguments" [
        "?x@@3V?$t@~@@A", "?x@@3V?$t@~~@@A", "?x@@3V?$t@~~~@A", "?x@@3V?$t@$~~@@A", "?x@@3V?$t@$$~~@@A", "?x@@3V?$t@$$~~~@@A", "?x@@3V?$t@$$$~~@@A", "?x@@3V?$t@$M~~@@A", "?x@@3V?$t@$MH~~@@A", "?x@@3V?$t@$M~0~@@A",
        "?x@@3V?$~@H@@A", "?x@@3V?$~~@@A", "?x@@3V?~t@H@@A", "??$~@H@@YAXXZ", "??$~~@@YAXXZ", "??$?~H@@YAXXZ", "??$?~H@c@@QAEXXZ", "??$?_~H@c@@QAEXXZ", "?$t@~@@3HA", "??$t@~~@~AXXZ",
        "?x@@3V?$t@$1~~@@A", "?x@@3V?$t@$E~~@@A", "?x@@3V?$t@$1?~@@3HA@@A", "?x@@3V?$t@$1?~~3HA@@A",
    ] eq;
    "C10" c10_args 0 "every kind of argument" [
        "?x@@3V?$t@(H|_N|PAD|Vc@@|V?$u@H@@|P6AHD@Z|Y01H)(|D|Vc@@|V?$u@V?$v@H@@@@)@@A",
        "?x@@3V?$t@(|H)($S|$$V|$$$V|$$Z|)(|H)($S|$$V|$$$V|$$Z|)(|D)@@A",
        "?x@@3V?$t@($1|$E|$H|$I|$J|$M_N1|$MH1|$MHH)(|?f@@YAXXZ|?f@c@@QAEXH@Z|?y@n@@3PADA|??0c@@QAE@XZ|??Dc@@QAEXXZ|??$g@H@@YAXXZ|??_7c@@6B@|??@ab@|?x@?1??f@@YAXXZ@4HA|??Bc@@QAEHXZ)(|{0-9})(|A@|?{0-9})(|{A-P}@)@@A",
        "?x@@3V?$t@$1(??_C@_02A@a?$AA?4@|??_R0H@8|??_R1A@A@A@A@c@@8|??_R2c@@8|??_R3c@@8|??_R4c@@6B@|??_B?1??f@@YAHXZ@51|??_9c@@$BA@AA|??__Ex@@YAXXZ|??__E?x@@3HA@@YAXXZ|.H|.?AVc@@|??__F?x@@3HA@@YAXXZ|?f@@9|?x@c@@2HA)@@A",
        "?x@@3V?$t@$E(??_C@_02A@a?$AA?4@|??_R0H@8|??_R1A@A@A@A@c@@8|??_R4c@@6B@|??_B?1??f@@YAHXZ@51|??_9c@@$BA@AA|??__Ex@@YAXXZ|.H|?f@@9|?x@c@@2HA|?f@@YAXXZ)@@A",
        "?x@@3V?$t@$0(A@|{0-9}|?0)(|H|$0{0-9})@@A", "?x@@3V?$t@$M(H|_N|PAD|Vc@@)0(A@|{0-9}|?0)(|H|$0{0-9}|$MH00)@@A", "?x@@3V?$t@$M(H|P8c@@AEXXZ)(1|H|I|J|F|G|0){?0-9}{0-9}{0-9}@@A",
        "?x@@3V?$t@$$Y(c@@|c@n@@|?$u@H@n@@|?A@c@@)(|H)@@A", "?x@@3V?$t@$$B(H|Y01H|P6AXXZ)(|H)@@A", "?x@@3V?$t@$$C{A-D}(H|Vc@@|PAH|Y01H)(|H)@@A",
        "?x@@3V?$t@$F(|?){0-9}(|?){0-9}(|H)@@A", "?x@@3V?$t@$G(|?){0-9}(|?){0-9}{0-9}(|H)@@A",
    ] eq;
    "C10" c10_where 0 "templates in every position" [
        "??$f@(H|V?$u@H@@)@(|n@|?$v@D@)@YA(X|V?$u@H@@)(X|V?$u@H@@@|HD@)Z", "??${?f}0H@c@@QAE@XZ", "??$?0H@(c@|?$v@D@|n@m@)@QAE@XZ", "??$?1H@c@@QAE@XZ", "??$?BH@(c@|?$v@D@)@QAE(H|PAH|P6AHXZ|V?$u@H@@)XZ", "??$?{2-9C-Z}H@c@@QAEXXZ", "??$?_{0-9A-Z}H@c@@QAEXXZ", "??$?__{A-Z}H@c@@QAEXXZ", "??$?__K_x@H@@YAXXZ",
        "??{01}?$c@H@@QAE@XZ", "??{01}?$c@V?$u@H@@@n@@QAE@XZ", "??B?$c@H@@QAEHXZ", "??_7?$c@H@@6B?$d@H@@@", "??_R0?AV?$c@H@@@8", ".?AV?$c@H@@", "?x@?1???$f@H@@YAXXZ@4HA", "?x@?$c@H@@{23}V?$c@D@@A", "??__E?x@?$c@H@@2HA@@YAXXZ",
        "?x@@3V?$?{0-9A-Z}H@@A", "?x@@3V?$?0H@c@@A", "?x@?$?BH@@3HA", "?x@?$?{A2}H@@3HA", "?x@@3V?$?A0@H@@A", "?x@@3V?$0H@@A", "?x@c@@3V?$0H@@A", "?x@@3V?$?$u@H@H@@A", "???$f@H@@YAXXZ", "??$?$f@H@D@@YAXXZ", "??$f@H@?1??g@@YAXXZ@YAXXZ",
        "?f@?$a@V?$b@V?$c@V?$d@H@@@@@@@@QAEXXZ", "??$f@$$A6AXXZ@@YAXXZ", "??$f@P8c@@AEXXZ$1?g@c@@QAEXXZ@@YAXXZ", "?x@@3V?$t@V?$u@$0?0@@$01@@A",
    ] eq;
    "C10" c10_any_deep 1 "any characters as template arguments" [
        "?x@@3V?$t@~~~@@A", "?x@@3V?$t@$~~~@@A", "?x@@3V?$t@$$~~~@A", "?x@@3V?$t@$M~~~@@A", "?x@@3V?$t@$1?~~~3HA@@A", "??$~~~@@YAXXZ", "??$?~~~@@YAXXZ", "??$f@~~~@YAXXZ",
        concat!("?x@@3V?$t@", ty!(), ty!(), ty!(), "@@A"), concat!("??$f@", ty!(), "$0{0-9}", ty!(), "@c@@QAE", ty!(), ty!(), "@Z"),
    ] eq;
    "C10" c10_gram 0 "all template arguments of the grammar, wherever they may stand" [
        "<3>?x@@3V?$t@<A>@@A", "<2>??$f@<A>@<S>YA<r><l>Z", "<2>?x@?$t@<A>@<S>3<T>A", "<2>??$?<O><A>@c@@QAEXXZ", "<2>??{01B}?$c@<A>@@QAEHXZ", "<2>.?AV?$t@<A>@@", "<2>?x@@3P8?$t@<A>@@AEXXZA",
    ] eq;
    "C10" c10_counts 0 "up to thirty arguments" [
        "?x@@3V?$t@[0-30:$0^]@@A", "?x@@3V?$t@[0-14:V#@@]@@A", "??$f@[0-14:V#@@]@@YAXXZ", "?x@@3V?$t@[0-10:({HD}|$00)]@@A" , "?x@@3V?$t@[0-12:H]$$V[0-3:D]@@A", "?x@@3V?$t@[0-8:V?$u@]H[0-8:@@]@@A", "?x@@3V?$t@[0-12:$1?f#@@YAXXZ]@@A", "?x@@3V?$t@[0-9:PAH](X|V{0-3}@|0|P6AX0@Z)@@A", "?x@@3V?$t@[0-10:$MH0^]@@A", "?x@@3V?$t@[0-6:$F^^]@@A", "?x@@3V?$t@[0-6:$$V]{HD}[0-2:$$Z]@@A", "?f@@YAX[0-4:V?$t@H@@]V?$u@[0-4:V?$t@H@@]@@@Z", "?x@?$t@[0-12:$0^]@[0-5:#@]@3HA",
        "?x@@3V?$[1-200:t]@H@@A", "??$f@[0-4:P6AXXZ][0-4:Y01H]@@YAXXZ", "?x@@3V?$t@[1-4:($0?1|$0A@|$00)]@@A",
    ] eq;
    "C10" c10_placed 0 "every kind of argument with any characters, in every place for one" [
        "?x@@3V?$t@=@@A", "?x@@3V?$t@H=@@A", "?x@@3V?$t@=H@@A", "?x@@3V?$t@=D@n@@A", "??$f@=@@YAXXZ", "??$f@=@c@@QAEXXZ", "??$?0=@c@@QAE@XZ", "??$?H=@c@@QAEXXZ", "??$?B=@c@@QAEHXZ", "??$?__K_x@=@@YAXXZ", "?f@?$c@=@@QAEXXZ", "??0?$c@=@@QAE@XZ", "?x@@3V?$t@V?$u@=@@@@A", "?x@@3V?$t@V?$u@V?$v@=@@@@@@A", "?f@@YAXPAV?$t@=@@0@Z", "?x@?1???$f@=@@YAXXZ@4HA", "?x@@3V?$t@$1??$f@=@@YAXXZ@@A", "??_7?$c@=@@6B@", "??_R0?AV?$c@=@@@8", ".?AV?$c@=@@", "?x@@3W4?$e@=@@A", "??$x@=@@3HA", "?x@@3P8?$c@=@@AEXXZA", "??__E?$x@=@@YAXXZ", "?x@@3V?$t@$$Y?$u@=@@@@A",
        "~", "$~", "$$~", "$$~H", "$0~", "$0?~", "$0~@", "$M~0{01}", "$MH~", "$MH~1", "$F~{01}", "$F0~", "$G0{01}~", "$1?y@@3~A", "$1~y@@3HA", "$H?y@@3HA~", "$I?y@@3HA~0", "$J?y@@3HA0~0", "$E?y@@~HA", "$$Y~@@", "$$C~H", "$$B~H", "$$A~AXXZ", "H$S", "$$V$$Z", "$$$V", "V~@@", "P~H", "",
    ] eq_placed;
    "C10" c10_pairs 0 "every two arguments, wherever they stand" [
        "?x@@3V?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@A",
        "??$f@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@YAXXZ",
        "?f@?$c@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@QAEXXZ",
        "??0?$c@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@QAE@XZ",
        "?x@@3V?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@@@A",
        "?x@@3V?$t@V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@A",
        "?f@@YAXV?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@@Z",
    ] eq;
    "C10" c10_nested 0 "the same within other symbols" ["C10"] eq_nested;
    "C10" c10_many 0 "arguments of every kind, up to a hundred" [
        "?x@@3V?$t@[0-100:H]@@A", "?x@@3V?$t@[0-100:$0^]@@A", "??$f@[0-100:PAH]@@YAXXZ", "?x@?$t@[0-100:V#@@]@@3HA", "?x@@3V?$t@[0-100:$1?g@@YAXXZ]@@A", "?x@@3V?$t@[0-100:$F^^]@@A", "?x@@3V?$t@[0-100:$MH0^]@@A", "?x@@3V?$t@H[0-100:$S]D@@A", "?x@@3V?$t@[0-100:$$V]D[0-100:$$Z]@@A", "??$?0[0-100:W4e@@]@c@@QAE@XZ", "?x@@3V?$t@[0-100:$$Yu@@]@@A", "?x@@3V?$t@[0-100:V?$u@H@@]@@A", "?x@@3V?$t@[0-100:$$T]@@A", ".?AV?$t@[0-100:H]@@",
    ] eq;
    "C10" c10_more 0 "arguments of every kind, up to a thousand: the right text or an error" [
        "(?x@@3V?$t@[126-130:H]@@A|?x@@3V?$t@[254-258:H]@@A|?x@@3V?$t@[511-513:H]@@A|?x@@3V?$t@[1000:H]@@A)", "(?x@@3V?$t@[126-130:$0^]@@A|?x@@3V?$t@[254-258:$0^]@@A|?x@@3V?$t@[511-513:$0^]@@A|?x@@3V?$t@[1000:$0^]@@A)", "(??$f@[126-130:PAH]@@YAXXZ|??$f@[254-258:PAH]@@YAXXZ|??$f@[511-513:PAH]@@YAXXZ|??$f@[1000:PAH]@@YAXXZ)", "(?x@?$t@[126-130:V#@@]@@3HA|?x@?$t@[254-258:V#@@]@@3HA|?x@?$t@[511-513:V#@@]@@3HA|?x@?$t@[1000:V#@@]@@3HA)", "(?x@@3V?$t@[126-130:$1?g@@YAXXZ]@@A|?x@@3V?$t@[254-258:$1?g@@YAXXZ]@@A|?x@@3V?$t@[511-513:$1?g@@YAXXZ]@@A|?x@@3V?$t@[1000:$1?g@@YAXXZ]@@A)", "(?x@@3V?$t@[126-130:$F^^]@@A|?x@@3V?$t@[254-258:$F^^]@@A|?x@@3V?$t@[511-513:$F^^]@@A|?x@@3V?$t@[1000:$F^^]@@A)", "(?x@@3V?$t@[126-130:$MH0^]@@A|?x@@3V?$t@[254-258:$MH0^]@@A|?x@@3V?$t@[511-513:$MH0^]@@A|?x@@3V?$t@[1000:$MH0^]@@A)", "(?x@@3V?$t@H[126-130:$S]D@@A|?x@@3V?$t@H[254-258:$S]D@@A|?x@@3V?$t@H[511-513:$S]D@@A|?x@@3V?$t@H[1000:$S]D@@A)", "(?x@@3V?$t@[126-130:$$V]D[126-130:$$Z]@@A|?x@@3V?$t@[254-258:$$V]D[254-258:$$Z]@@A|?x@@3V?$t@[511-513:$$V]D[511-513:$$Z]@@A|?x@@3V?$t@[1000:$$V]D[1000:$$Z]@@A)", "(??$?0[126-130:W4e@@]@c@@QAE@XZ|??$?0[254-258:W4e@@]@c@@QAE@XZ|??$?0[511-513:W4e@@]@c@@QAE@XZ|??$?0[1000:W4e@@]@c@@QAE@XZ)", "(?x@@3V?$t@[126-130:$$Yu@@]@@A|?x@@3V?$t@[254-258:$$Yu@@]@@A|?x@@3V?$t@[511-513:$$Yu@@]@@A|?x@@3V?$t@[1000:$$Yu@@]@@A)", "(?x@@3V?$t@[126-130:V?$u@H@@]@@A|?x@@3V?$t@[254-258:V?$u@H@@]@@A|?x@@3V?$t@[511-513:V?$u@H@@]@@A|?x@@3V?$t@[1000:V?$u@H@@]@@A)", "(?x@@3V?$t@[126-130:$$T]@@A|?x@@3V?$t@[254-258:$$T]@@A|?x@@3V?$t@[511-513:$$T]@@A|?x@@3V?$t@[1000:$$T]@@A)", "(.?AV?$t@[126-130:H]@@|.?AV?$t@[254-258:H]@@|.?AV?$t@[511-513:H]@@|.?AV?$t@[1000:H]@@)",
    ] eq_large;

    // ------------------------------------------------------------------ C11
    "C11" c11_any 0 "any characters in a string literal" [
        "??_C@~~1A@a@", "??_C@_~~A@a@", "??_C@_0~~@a@", "??_C@_02~~@a?$AA@", "??_C@_03A@~~?$AA@", "??_C@_02A@?~~?$AA@", "??_C@_02A@?$~~?$AA@", "??_C@_02A@~?$~A@", "??_C@_03A@a~~@", "??_C@_02A@a?$AA@~", "??_C@_02A@a?$AA~",
        "??_C@_1~A@?$AAa?$AA?$AA@", "??_C@_13A@~~?$AA?$AA@", "??_C@_13A@?$AA?~?$AA?$AA@", "??_C@_13A@?$~Aa?$AA?$AA@", "??_C@_13A@?$AAa~?$AA@", "??_C@_0{0-9}A@~@", "??_C@_1{0-9}A@~~@", "??_C@_02A@%?$AA@", "??_C@_02A@&?$AA@", "??_C@_13A@%a?$AA?$AA@", "??_C@_13A@a%?$AA?$AA@", "??_C@_02%@a?$AA@",
    ] eq;
    "C11" c11_chars 0 "every byte value in every encoding" [
        "??_C@_02A@?$[2:{A-P}]?$AA@", "??_C@_02A@?{0-9a-zA-Z}?$AA@", "??_C@_03A@?{0-9}?{a-z}?$AA@", "??_C@_03A@?{A-Z}{a-z}?$AA@",
        "??_C@_13A@?$[2:{A-P}]?$A{A-P}?$AA?$AA@", "??_C@_13A@?$AA?$[2:{A-P}]?$AA?$AA@", "??_C@_13A@?{0-9}?{a-z}?$AA?$AA@", "??_C@_13A@a?{A-Z}?$AA?$AA@",
        "??_C@_05A@?$[2:{A-P}]?$AA?$AA?$AA?$AA?$AA@", "??_C@_03A@?$[2:{A-P}]?$A{A-P}?$AA?$AA@", "??_C@_07A@?$[2:{A-P}]?$A{AB}?$A{AB}?$AA?$AA?$AA?$AA?$AA@",
    ] eq;
    "C11" c11_lengths 0 "declared and actual lengths, character widths, and truncation" [
        "??_C@_0({0-9}|{AB}{A-P}@|?1)A@[0-6:({ab}|?$AA)]@",
        "??_C@_1({0-9}|{A-F}{A-P}@|?1)A@[0-4:(?$AAa|?$AA?$AA)]@", "??_C@_1{0-9}A@[0-4:?$AA{ab}]?$AA@",
        "??_C@_0{A-P}@A@a?$A{AB}?$AA?$AA?$AA?$AA?$AA?$AA@", "??_C@_0{BCD}{A-P}@A@[28-36:a]@", "??_C@_0C{A-P}@A@[15-17:a?$AA]@", "??_C@_0C{A-P}@A@[7-9:a?$AA?$AA?$AA]@", "??_C@_0{BCD}A@A@[7-9:a?$AA?$AA?$AA](|a|ab|?$AA)@", "??_C@_0{BC}A@A@[10-11:a](?$AA?$AA|[5:?$AA]|[10:?$AA]|[20:?$AA])@",
        "??_C@_1{DE}{A-P}@A@[30-33:?$AAa]@", "??_C@_1BAAA@A@[3:?$AAa]@", "??_C@_0BAA@A@[3:a]@", "??_C@_0IA@A@[126-130:a]@", "??_C@_0PPPPPPPPPPPPPPPP@A@a@", "??_C@_1PPPPPPPPPPPPPPPP@A@?$AAa@", "??_C@_0BAAAAAAAA@A@a@", "??_C@_1BAAAAAAAC@A@?$AAa?$AA?$AA@", "??_C@_0CA@A@[32:?$AA]@", "??_C@_1(BCA|IA|PPPPPPPPPPPPPPPO)@A@[60-66:?$AAa]@",
    ] eq;
    "C11" c11_deep 1 "string literals" [
        "??_C@_0~~~@a@", "??_C@_03A@~~~@", "??_C@_03A@~~~~@", "??_C@_13A@~~~?$AA@", "??_C@_13A@?~~~~@", "??_C@_03A@?~?~?$AA@", "??_C@~~~A@a@",
        "??_C@_0({0-9}|{ABC}{A-P}@)A@[0-10:({a}|?$AA)]@", "??_C@_0(C|D){A-P}@A@[20-40:(a)][0-12:(?$AA)]@", "??_C@_13A@?$[2:{A-P}]?$[2:{A-P}]?$AA?$AA@", "??_C@_0{CDEF}{A-P}@A@[4-12:a?$AA?$AA?$AA][0-3:b]@", "??_C@_0{CDEF}{A-P}@A@[8-22:a?$AA][0-3:b]@",
    ] eq;
    "C11" c11_gram 0 "every combination of ways to write the characters" [
        "<2>??_C@_0{3-6}A@<h><h><h><h>?$AA@", "<2>??_C@_1{5-8}A@(?$AA|)<h>?$A{AB}<h><h><h>?$AA?$AA@", "<1>??_C@_0{A-F}{A-P}@A@<h>?$AA<h>?$AA?$AA?$AA@",
    ] eq;
    "C11" c11_counts 0 "literals of up to eighty characters" [
        "??_C@_0{A-F}{A-P}@A@[1-40:#]?$AA@", "??_C@_0{A-F}{A-P}@A@[1-33:#]@", "??_C@_1{A-H}{A-P}@A@[1-34:?$AA#]?$AA?$AA@", "??_C@_1{A-H}{A-P}@A@[30-34:?$AA#]@", "??_C@_0{A-D}{A-P}@A@[1-16:#?$AA]?$AA?$AA@", "??_C@_0{A-D}{A-P}@A@[1-16:#?$AA]@", "??_C@_0{A-D}{A-P}@A@[1-9:#?$AA?$AA?$AA]@", "??_C@_0{A-D}{A-P}@A@[1-8:#?$AA?$AA?$AA]?$AA?$AA?$AA?$AA@",
        "??_C@_0{A-D}{A-P}@A@[0-12:?$AA][0-12:a]@", "??_C@_0{A-D}{A-P}@A@[0-12:a][0-20:?$AA]@", "??_C@_0{CE}A@A@[12:a?$AA][0-8:b]@", "??_C@_0{CE}A@A@[0-16:(a)][0-16:?$AA]@", "??_C@_1{A-H}{A-P}@A@?$AAa?$AAb?$AAc?$AAd(|?$AA?$AA|?$AA)@",
        "??_C@_05A@?$AA?$AA?$AA?$A{BI}?$AA?$AA@", "??_C@_07A@?$[2:{AF}]?$AA?${AP}{AF}?${AP}B?$AA?$AA?$AA?$AA@", "??_C@_13A@?$C{A-P}?$B{A-P}?$AA?$AA@", "??_C@_13A@?$AA?${AHIP}{A-P}?$AA?$AA@",
    ] eq;
    "C11" c11_placed 0 "every way to write a character, at every place in literals of every kind" [
        "??_C@_02A@=a?$AA@", "??_C@_02A@a=?$AA@", "??_C@_01A@=?$AA@", "??_C@_01A@=@", "??_C@_03A@a?$AA=?$AA@", "??_C@_0CA@A@aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa=@", "??_C@_0CB@A@aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa=@", "??_C@_13A@=a?$AA?$AA@", "??_C@_13A@?$AA=?$AA?$AA@", "??_C@_15A@?$AAa?$AA=?$AA?$AA@", "??_C@_13A@?$AA?$AA?$AA=@", "??_C@_03A@a?$AA=@", "??_C@_05A@=?$AAa?$AA?$AA?$AA@", "??_C@_05A@a=b?$AA?$AA?$AA@", "??_C@_07A@a?$AA?$AA=?$AA?$AA?$AA?$AA@", "??_C@_07A@=?$AA?$AA?$AA?$AA?$AA?$AA?$AA@", "?x@@3V?$t@$1??_C@_02A@=a?$AA@@@A", "??_C@_0=A@a?$AA@", "??_C@_=2A@aa?$AA@", "??_C@_02=@aa?$AA@", "??_C@_02A@aa?$AA=", "??_C@_02A@aa?$AA@=",
        "~", "?~", "??", "?$~~", "?${A-P}{A-P}", "?${A-P}", "?${A-P}{Q-Za-z0-9}", "%", "中", "?é", "?$é", "@", "", "a?{0-9}", "?{0-9}a", "?{a-pA-P}", "?$AA", "?$AA?$AA", "~~",
    ] eq_placed;
    "C11" c11_large 0 "literals of up to a thousand characters" [
        "??_C@_0CA@A@([97-101:a]|[126-130:a]|[254-258:a]|[511-513:a]|[1000:a])@", "??_C@_0DOJ@A@([97-101:a]|[126-130:a]|[254-258:a]|[511-513:a]|[1000:a])?$AA@", "??_C@_1CA@A@([97-101:?$AAa]|[126-130:?$AAa]|[254-258:?$AAa]|[511-513:?$AAa]|[1000:?$AAa])@", "??_C@_1DOJ@A@([97-101:?$AAa]|[126-130:?$AAa]|[254-258:?$AAa]|[511-513:?$AAa]|[1000:?$AAa])?$AA?$AA@", "??_C@_0EA@A@([97-101:a?$AA]|[126-130:a?$AA]|[254-258:a?$AA]|[511-513:a?$AA]|[1000:a?$AA])@", "??_C@_0IA@A@([97-101:a?$AA?$AA?$AA]|[126-130:a?$AA?$AA?$AA]|[254-258:a?$AA?$AA?$AA]|[511-513:a?$AA?$AA?$AA]|[1000:a?$AA?$AA?$AA])@", "??_C@_0(|B|H|P){A-P}{A-P}@A@[31-33:a]@", "??_C@_0(|B|H|P){A-P}{A-P}@A@[31-33:é]@", "??_C@_1(|B|H|P){A-P}{A-P}@A@[31-33:?$AAa]@", "??_C@_0CA@([97-101:A]|[126-130:A]|[254-258:A]|[511-513:A]|[1000:A])@a@",
    ] eq;
    "C11" c11_nested 0 "the same within other symbols" ["C11"] eq_nested;

    // ------------------------------------------------------------------ C12
    "C12" c12_ops 0 "every operator code, in every kind of name" [
        "??~@@YAXXZ", "??~c@@QAEXXZ", "??_~@@YAXXZ", "??_~c@@QAEXXZ", "??__~@@YAXXZ", "??__~c@@QAEXXZ", "??~~@@YAXXZ", "??_~~@@YAXXZ", "??__~~@@YAXXZ", "??%@@YAXXZ", "??_%@@YAXXZ", "??__%@@YAXXZ",
        "??{0-9A-Z}(c@|?$c@H@|c@n@)@(QAE|UBE|SA|YA|3)(@|H|X|PAY01H)(X|D@|A)(Z|)", "??_{0-9A-Z}c@n@@{QU}AEPAXI@Z", "??__{A-Z}c@n@@QAEXXZ", "??__K~~@@YAXXZ", "??__K_x@@YA?AVn@@PBDI@Z", "??__K{@a}b@n@@YAXXZ",
        "??{01}@@QAE@XZ", "??{01}c@@QAE{@HX}XZ", "??{01}c@@3HA", "??{01}?A0x1@c@@QAE@XZ", "??0?1??f@@YAXXZ@QAE@XZ", "??B@@QAEHXZ", "??Bc@@QAE{@HX}XZ", "??Bc@@3HA", "??Bc@@9", "??B@@YAHXZ", "??0c@@9", "??0c@@{GHOWX}3AE@XZ", "??_Gc@@$4A@A@AEPAXI@Z",
        "??0c@d@e@@QAE@ABV012@@Z", "??10@@QAE@XZ", "??0a@0@@QAE@XZ", "??0?$a@H@b@@QAE@XZ", "??0?$a@Vb@@@0@@QAE@XZ",
    ] eq;
    "C12" c12_tables 0 "virtual tables, RTTI and other compiler-generated data" [
        "??_{78S}c@(|n@)@{67}{A-DQ-T}(|{a-b}@(|n@)@)@", "??_{78S}~@@6B@", "??_7c@@~B@", "??_7c@@6~@", "??_7c@@6B~", "??_7c@@6B~~@", "??_7c@@6B@~", "??_7c@@6Ba@b@@@", "??_7c@@6Ba@@b@@@",
        "??_R~", "??_R~H@8", "??_R~c@@8", "??_R~c@@6B@", "??_R0{A-Z}@8", "??_R0?A(V|U|T|W4)c@(|n@)@@8", "??_R0~~@8", "??_R0H@~", "??_R0H@8~", "??_R0PAH@8", "??_R0P6AHD@Z@8", "??_R0?{A-D}H@8",
        "??_R1{0-9}{0-9}{0-9}{0-9}c@(|n@)@8", "??_R1{?0-9A}{0-9@}{0-9A}{0-9@}EA@c@@8", "??_R1A@?0A@EA@c@@~", "??_R2c@(|n@)@8", "??_R3c@(|n@)@8", "??_R{23}?$c@H@@8", "??_R{23}c@@~", "??_R{23}@8", "??_R4c@(|n@)@6{A-D}(|a@(|n@)@)@", "??_R4c@@~B@", "??_{A-Z}c@@6B@",
    ] eq;
    "C12" c12_statics 0 "guards, virtual call thunks, initialisers and atexit destructors" [
        "??_B?1??f@@YAHXZ@5{0-9}", "??_B?1??f@@YAHXZ@(4IA|5|51|4|4HA|4IB|4IA1|6)", "??__J?1??f@@YAHXZ@(4IA|5|51|4|4HA)(|1)", "??_B~@@51", "??_Bc@@5~", "??_B?1??f@c@@QAEHXZ@5(|{A-P}{A-P}@)", "??_B@51", "??_Ba@b@@5",
        "??_9c@(|n@)@$B{0-9A}{@A-C}{A-Z@}{A-Z}", "??_9c@@$B{0-9}A{!-~}", "??_9c@@$~A@AA", "??_9c@@~BA@AA", "??_9c@@$BA@~A", "??_9c@@$BA@A~", "??_9c@@$BA@A%", "??_9@$B3AE",
        "??__{EF}x@(|n@)@YAXXZ", "??__{EF}?x@(|n@)@{0-4}(H|VS@@|PAY01H|P6AXXZ)A@@YAXXZ", "??__{EF}x@@3HA@YAXXZ", "??__{EF}x@@3HA@@YAXXZ", "??__{EF}?x@@YAXXZ@@YAXXZ", "??__{EF}??_7c@@6B@@YAXXZ", "??__{EF}?0c@@QAE@XZ", "??__E?x@@3HA~@YAXXZ", "??__Ex@@3HA~YAXXZ", "??__E~@@YAXXZ", "??__E?~@@3HA@@YAXXZ", "??__Ef@@YA~XZ", "??__E?x@c@@2HA@@~AXXZ", "??__E?x@c@@2HA@@9", "??__Ff@n@@YAHPAD@Z", "??__E?$t@H@@YAXXZ", "??__E??$t@H@@3HA@@YAXXZ", "??__EBc@@QAEHXZ", "??__E?Bc@@QAEHXZ", "??__E?1??f@@YAXXZ@YAXXZ",
        "??_{AP}c@@6B@", "??_{AP}", "??_", "??__", "??__E", "??_7", "??_B", "??_R", "??_C", "??",
    ] eq;
    "C12" c12_any 1 "any characters after the special prefixes" [
        "??~~~", "??~~~@YAXXZ", "??_~~~", "??__~~~", "??_R~~~", "??_R1~~~~c@@8", "??_7~~~~", "??_7c@@~~~", "??_B~~@5", "??_9c@@~~~~", "??__E~~~~", "??__Ex@@~~~~", "??__E?x@@~~~@@YAXXZ", "??__E?x@@3HA~~~XXZ", "??_R4~~~B@", "??__K~~~@YAXXZ",
    ] eq;
    "C12" c12_gram 0 "compiler-generated symbols, with all names and types of the grammar" [ "<3><K>", "<2>??{0-9A-Z}<N>QAE<r><l>Z", "<1>??_{0-9A-Z}<N>QAE<r><l>Z", "<1>??__{A-Z}<N>QAE<r><l>Z" ] eq;
    "C12" c12_counts 0 "special names of classes at any depth" [
        "??{01BD}[1-14:#@]@QAE(@|X|H)XZ", "??{01}?$c@[0-3:V#@@]@[0-8:#@]@QAE@XZ", "??_{7S8}[1-14:#@]@6B[0-12:#@]@", "??_7c@@6B[0-3:d@][0-3:@]", "??_R{23}[1-14:#@]@8", "??_R4[1-12:#@]@6B[0-4:#@]@", "??_R0[0-6:PA]{HD}@8", "??_R1{0-9}{A?}{@0-9}{0-9}A@[1-12:#@]@8", "??__{EF}[1-12:#@]@YAXXZ", "??__{EF}?x@[0-12:#@]@3HA@@YAXXZ", "??_9[1-12:#@]@$BA@AA", "??_B?1??f@[0-12:#@]@YAHXZ@51",
        "??_{BJ}?1??f@@YAHXZ@5(|?){0-9}", "??__J?1??f@@YAHXZ@5(|?)({0-9}|{A-P}@|{B-P}{A-P}@)", "??__J?1??f@c@@QAEHXZ@(4IA|51|5|50|4IB)", "??_B?1??f@@YAHXZ@5(|?)({0-9}|{A-P}@|{B-P}{A-P}@)", "??{0-9A-Z}[1-9:#@]@(QAE|UBE|YA|SA)XXZ", "??_{0-9A-Z}[1-9:#@]@QAEXXZ", "??__{A-Z}[1-9:#@]@QAEXXZ", "??__K_[1-20:#]@[0-9:#@]@YAXXZ", "??{01}[0-3:?A0x^@]c@@QAE@XZ", "??{01}c@[1-3:?1??f@@YAXXZ@]QAE@XZ", "??__{EF}??{01BD}c@@QAE@XZ@@YAXXZ", "??__{EF}?x@@3P6AXPAD@ZA(|@|@@|@@@)YAXXZ", "??__{EF}x@@YAXXZ(|@|Z|_E)", "??__{EF}?1??f@@YAXXZ@@YAXXZ",
    ] eq;
    "C12" c12_placed 0 "every operator and special code, in every place for one" [
        "?=c@@QAEXXZ", "?=@@YAXXZ", "?=c@n@@UAEPAXI@Z", "?=?$c@H@@QAEXXZ", "??$=H@@YAXXZ", "??$=H@c@@QAEXXZ", "??$=$$V@c@@QAEHXZ", "?x@?1?=c@@QAEXXZ@4HA", "?x@?1??$=H@c@@QAEXXZ@4HA", "?x@?1??f@?1?=c@@QAEXXZ@YAXXZ@4HA", "?x@@3V?$t@$1?=c@@QAEXXZ@@A", "?x@@3V?$t@$1??$=H@c@@QAEXXZ@@A", "?x@@3V?$t@$E?=c@@QAEXXZ@@A", "?x@@3V?$t@V?$=H@@@@A", "?x@@3V=@@A", "?x@=@3HA", "?x@=n@@3HA", "?=c@@$4A@A@AEXXZ", "?=c@@W3AEXXZ", "?=c@@3HA", "?=c@@6B@", "??__E=@YAXXZ", "??__E?=c@@2HA@@YAXXZ", "=c@@QAEXXZ", ".?AV=@@", "?=c@@9",
        "?~", "?_~", "?__~", "?___", "?é", "?_é", "?__中", "?__K~@", "?__K_~@", "?_P~", "?_R~", "?", "??~", "?$?~", "~", "_~", "?0~", "?0?~", "?B~@", "?_E~",
    ] eq_placed;
    "C12" c12_pairs 0 "every operator with every scope and every encoding; every special symbol with every scope" [
        "?(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)",
        "?x@?1??(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)@4HA",
        "?x@@3V?$t@$1?(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)@@A",
        "??_{789S}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6{A-D}@",
        "??_{7S}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_7c@@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_R0?A{TUV}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@8",
        "??_R0{PA}EAV(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@8",
        "??_R1{3A}@?0A@EA@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R1A@?0A@EA@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R{23}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6{AB}@",
        "??_R4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_9(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@$B(3|A@|BA@)A{AEGIQ}",
        "??_{BJ}?1??f@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@YAHXZ@5{01}",
        "??__{EF}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@YAXXZ",
        "??__{EF}?(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@{23}HA@@YAXXZ",
        "??__{EF}?(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@{23}P6AXXZA@@YAXXZ",
        "??__J?1??f@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@QAEHXZ@5{01}",
        "??_B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@51",
        "??_C@_02A@a?$AA@",
        ".?A{TUV}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".V(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".PEAV(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".W4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".P8(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@AEXXZ",
    ] eq;
    "C12" c12_nested 0 "the same within other symbols" ["C12"] eq_nested;

    // ------------------------------------------------------------------ C13
    "C13" c13_fn 0 "functions under every combination of flags" [
        "?f@c@@{AIQ}(|E)(|I)(|F)(|G|H){AD}EPAVd@@PIFBHP6GPADXZ@Z", "?f@c@@{CKSE}GPAHW4e@@Z_E"
    ] eq_any_flags;
    "C13" c13_fn2 0 "functions under every combination of flags" [
        "?f@c@@{MU}A{A-Q}XXZ", "?f@@$$J0YAXXZ", "?f@@9", "?f@@YAP6GHD@ZPAY01H@Z", "?f@c@@{GW}3AEHXZ", "?f@c@@$4PPPPPPPM@A@BEHXZ", "?f@c@@$R4A@A@A@A@BEPAHXZ",
        "??{01D}c@@QBE@XZ", "??Bc@@UDG?AVd@@XZ", "??$f@Vc@@W4e@@@n@@YA?AVd@@XZ", "?f@@YA%XXZ", "?f@@YA(S|W)HXZ", "?f@@Y(S|W)XXZ", "??$?BH@c@@QAEPAVd@@XZ",
    ] eq_any_flags;
    "C13" c13_var 0 "variables and types under every combination of flags" [
        "?x@c@@{012}PIFBVd@@{IE}B", "?x@@3{QA}(|E)(|I)(|F){BD}(H|W4e@@|_J){ABD}", "?x@@3Y01{HJ}B", "?x@@3PAY01VS@@A", "?x@@3P6G_J_K@_EA", "?x@@3P8c@@IFBGP6AXXZH@ZB1@", "?x@@3PIQc@@VS@@Q1@", "?x@@4P6AP6GPAVa@@XZXZA", "?x@@3V?$t@Vc@@$$A6GHXZ$1?g@c@@QAEXXZ$E?x@d@@2HA@@B",
        "?x@@3P6AP6GHVd@@@ZPIAH@ZA", "?x@@3PAPIFAPIFBHB", "?x@@3V?$t@(W4e@@|T_u@@|Us@@)$$CBVc@@@n@@A",
    ] eq_any_flags;
    "C13" c13_special 0 "compiler-generated symbols under every combination of flags" [
        "??_7c@@6{A-D}d@@@", "??_R0?AVc@@@8", "??_R1A@?0A@EA@c@@8", "??_R{23}c@@8", "??_R4c@@6Bd@@@", "??_B?1??f@c@@QAEHXZ@51", "??_9c@@$BA@A{AE}", "??__E?x@c@@2VS@@A@@YAXXZ", "??__Ex@c@@YAPAVd@@XZ", "??_C@_02A@a?$AA@", ".?AVc@@", ".PIFBVd@@", "??@ab@", "?x@?1??f@c@@UBEPAVd@@XZ@4Vd@@B", "??_S?$c@Vd@@@@6B?$e@W4f@@@@@",
        "?x@@3V?$t@$1??_7c@@6B@$1??_9c@@$BA@AE$1??__Ex@c@@YAHXZ$1?y@c@@2PAVd@@A@@A", "?x@@3P8?$c@Vd@@@@AEXXZA", "??_R0P6GPAVd@@XZ@8",
    ] eq_any_flags;
    "C13" c13_alias 0 "aliases are the flags they stand for" [] alias;
    "C13" c13_gram 0 "every symbol of the grammar, under every combination of flags" [ "<2><Y>", "<3>?x@@3<T>A" ] eq_any_flags;
    "C13" c13_counts 0 "flags on names of any length" [
        "?x@[0-11:#@]@3HA", "?f@[0-11:#@]@QAEXXZ", "?f@@YAX[0-11:V#@@](@|)Z", "?x@@3[1-9:PA]Vc@@A", "?x@@3[0-6:P6GX]Vc@@[0-6:@Z]A", "?x@@3V?$t@[0-11:V#@@]@@A", "?f@c@@{0-9A-Z}AEHXZ", "?f@c@@{0-9A-Z}EBGHXZ", "??{0-9A-Z}c@@UAEXXZ", "??_{0-9A-Z}c@@UAEXXZ", "??__{A-Z}c@@UAEXXZ", "?x@@3(T|U|V|W4)c@@A", "?f@c@@QAE(X|@|H|?AVd@@|?BW4e@@)(X|Vd@@@|W4e@@0@|HZ|Z)(Z|_E)", "?f@c@@$$J0{Q}AEXXZ", "?f@@$$J09", "?x@c@@{0-4}(H|Y01H|P6GXXZ|P8d@@AEXXZ|PIFAH){A-D}", "?f@c@@$R4{0-3}A@{0-3}3AEPAVd@@XZ", "?f@c@@${0-5}33IFAEPAVd@@XZ",
        "<2>?f@@YAXV?$t@<A>@@V{1-2}@@Z", "<1>?f@?$t@<A>@@QAE?AV{0-3}@XZ", "<1>?f@@YAX<T>{0-3}@Z",
    ] eq_any_flags;
    "C13" c13_placed 0 "what flags can remove, in every place" [
        "?f@c@@QBE=XZ", "?f@@YAX=@Z", "?f@@YGX=0@Z", "?x@@3=B", "?x@c@@2=A", "?f@@YAP6G=H@ZXZ", "?f@@YAXP8c@@BG=XZ@Z", "?x@@3PAY01=A", "?x@?1??f@c@@MAEX=@Z@4HA", "?x@@3V?$t@=@@A", "??$f@=@@YAXXZ", "?x@@3V?$t@$1?f@c@@QAEX=@Z@@A", "??Bc@@UBE=XZ", "??_R0=@8", ".=", "?f@c@@$4A@A@AEX=@Z", "??__E?x@@3=A@@YAXXZ", "?x@@3PQc@@=Q1@", "_J", "Vc@@", "W4e@@", "PAVc@@", "PEBUc@@", "PIFAH", "Ud@n@@", "P6GHXZ", "P8c@@AEXXZ", "V?$t@Uc@@@@", "$$QAVc@@", "Y01Vc@@", "W4__e@__n@@", "?BVc@@", "V__c@@", "PEIAY01H", "$$A6GHXZ", "~",
    ] eq_placed_any_flags;
    "C13" c13_sigs 0 "every return type and every pair of types under every combination of flags" [
        "?f@@Y{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)",
        "?x@@3P6{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)A",
        "?f@@YAXP6{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)@Z",
        ".P6{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)",
        "?x@@3V?$t@$$A6{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)@@A",
        "?x@?1??f@@Y{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)@4HA",
        "?x@@3V?$t@$1?f@@Y{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)@@A",
        "?f@c@@{AQU}(|E|G)B{AE}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZ",
        "?f@c@@S{AG}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)(X|HZ)(Z|_E)",
        "?f@c@@{GW}3(|E)AE(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZ",
        "?f@c@@$43?3AE(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZ",
        "?x@@3P8c@@(|E|G)B{AE}(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZA",
        "??{01BD}c@@QAE(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZ",
        "??$f@{HD}@c@@IAE(X|H|@|PAH|?BVc@@|P6AHXZ|PAY01H|PQc@@H|W4e@@)XZ",
        "?x@@3{APQ}(|E|I|F|EI){AB}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)A",
        "?f@@YAX{APQ}(|E|I|F|EI){AB}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)@Z",
        "?f@@YA{APQ}(|E|I|F|EI){AB}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)XZ",
        "?x@@3V?$t@{APQ}(|E|I|F|EI){AB}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)@@A",
        ".{APQ}(|E|I|F|EI){AB}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)",
        "?x@c@@{0-4}(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)(|E|I){A-D}",
        "?x@@3PEQk@@(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)EQ1@",
        "?x@@3PEQk@@(H|PAH|Vc@@|W4e@@|P6AXXZ|P8c@@AEXXZ|PQc@@H|Y01H|Y01$$CBH|V?$t@Vc@@@@)IB",
    ] eq_any_flags;
    "C13" c13_nested 0 "the same within other symbols" ["C13"] eq_nested;

    // ------------------------------------------------------------------ C14
    "C14" c14_all 0 "name only, for every kind of symbol" [
        "?{a-z}@@3(H|PAD|PAY01H|P6AHD@Z|VS@@|PQc@@H)(A|B|Q1@)", "?x@c@@{0-4}HA", "?f@c@@{A-Z}AEPAHD@Z", "?f@c@@{A-X}(A|EB|IA|FA|GA|HA)EPAHD@Z", "?f@c@@{CKSYZ}APAHD@{Z}", "?f@@YAX(X|HZ|Z|P6AXXZ@)(Z|_E)", "?f@@$$J0YAXXZ", "?f@c@@{GW}3AEHXZ", "?f@c@@$4PPPPPPPM@A@AEXXZ", "?f@c@@$R4A@A@A@A@AEXXZ", "?f@@9", "??{0-9A-Z}c@@QAEHXZ", "??_{0-9D-OT-V}c@@QAEHXZ", "??__{A-M}c@@QAEHXZ",
        "??_7c@@6{A-D}(|d@@)@", "??_R0?AVc@@@8", "??_R1A@?0A@EA@c@@8", "??_R{23}c@@8", "??_R4c@@6B(|d@@)@", "??_B?1??f@c@@QAEHXZ@51", "??_9c@@$BA@A{AE}", "??__{EF}?x@c@@2VS@@A@@YAXXZ", "??__{EF}x@c@@YAPAVd@@XZ", "??_C@_02A@a?$AA@", ".?AVc@@", ".H", ".PAVd@@", ".P6AVd@@W4e@@@Z", "??@ab@", "?x@?1??f@c@@UBEPAVd@@XZ@4Vd@@B", "?x@?1??y@c@@2HA@4HA", "?x@?A@c@@3HA",
        "??$f@(H|Vc@@|PAVd@@|W4e@@|P6AHD@Z|P6AP6AHXZD@Z|P8c@@AEHD@Z|PAY01Vc@@|$$A6AHD@Z|$1?g@c@@QAEHD@Z|$1?y@c@@2HA|$E?y@c@@2PAHA|$1??_7c@@6B@|P6AHXZ_E|P6AHX_E)@(|n@)@YAXXZ", "?f@?$c@Vd@@$00@@QAEXXZ", "??Bc@@QAE(H|PAVd@@|P6AHD@Z|PAY01H)XZ", "??$?0Vd@@@c@@QAE@XZ", "?x@@3P6AP6AHD@ZXZA",
    ] eq_name_only;
    "C14" c14_with 0 "name only together with any other flags" [
        "?f@c@@{IQS}AEPAVd@@W4e@@@Z", "??$f@(Vc@@|P6GPAVd@@H@Z|P8c@@IFBEHXZ|$1?g@c@@UBEPAVd@@XZ|PIFBH|$$A6GHXZ)@@YAXXZ", "??Bc@@QAEPIAVd@@XZ", ".PIFBVd@@", "??_9c@@$BA@AE", "??_7c@@6Bd@@@", "?x@?1??f@c@@UBEPAVd@@XZ@4Vd@@B", "??__E?x@c@@2VS@@A@@YAXXZ", "?x@c@@2PAVd@@A",
    ] eq_name_only_any;
    "C14" c14_gram 0 "every symbol of the grammar" [ "<3><Y>" ] eq_name_only;
    "C14" c14_every_placed 0 "every construct in every place" [] name_only_every_placed;
    "C14" c14_pairs 0 "every operator with every scope and every encoding; every two arguments; every special symbol with every scope" [
        "?(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)",
        "?x@?1??(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)@4HA",
        "?x@@3V?$t@$1?(f@|?$f@H@|?0|?1|?D|?B|?_G|?_E|?__K_x@|?$?DH@|?$?0H@|?$?BH@|?$?__K_x@H@|?$?RH@|?_F|?__L|?_U|?2)(|c@|?$c@H@|?$c@P6AXXZ@|?A0x1@|?1??g@@YAXXZ@|c@n@|?$c@H@?$d@D@|0|?1??0k@@QAE@XZ@)@(YAXXZ|YAHH@Z|QAEXXZ|QAE@XZ|UBEPAXI@Z|SAHXZ|3HA|9|$4A@A@AEXXZ|W3AEXXZ|$$J0YAXXZ|QAEP6AXXZXZ|YAPAY01HXZ|QEGBAXHZ_E)@@A",
        "?x@@3V?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@A",
        "??$f@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@YAXXZ",
        "?f@?$c@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@QAEXXZ",
        "??0?$c@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@QAE@XZ",
        "?x@@3V?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@@@A",
        "?x@@3V?$t@V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@A",
        "?f@@YAXV?$t@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@V?$u@(H|PAH|Vn@@|V?$u@Vn@@@@|$00|$0?0|$1?y@@3HA|$1?g@@YAXXZ|$E?y@@3HA|$H?g@c@@QAEXXZ1|$F01|$G012|$MH0|$M_N0|$MPAH1?y@@3HA|$S|$$V|$$Z|$$$V|$$Yu@@|$$Y?$u@H@@|$$BY01H|$$CBH|P6AXXZ|$$A6AXXZ|P8c@@AEXXZ|$$T|$1|$E|W4e@@|?0)@@@Z",
        "??_{789S}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6{A-D}@",
        "??_{7S}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_7c@@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_R0?A{TUV}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@8",
        "??_R0{PA}EAV(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@8",
        "??_R1{3A}@?0A@EA@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R1A@?0A@EA@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R{23}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@8",
        "??_R4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6{AB}@",
        "??_R4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@6B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@@",
        "??_9(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@$B(3|A@|BA@)A{AEGIQ}",
        "??_{BJ}?1??f@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@YAHXZ@5{01}",
        "??__{EF}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@YAXXZ",
        "??__{EF}?(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@{23}HA@@YAXXZ",
        "??__{EF}?(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@{23}P6AXXZA@@YAXXZ",
        "??__J?1??f@(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@QAEHXZ@5{01}",
        "??_B(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@51",
        "??_C@_02A@a?$AA@",
        ".?A{TUV}(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".V(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".PEAV(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".W4(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@",
        ".P8(c@|?$c@H@|?$c@P6AXXZ@|é@)(|n@|?A0x1@|?1??g@@YAXXZ@|?$n@H@|0|c@n@)@AEXXZ",
    ] eq_name_only;

    // ------------------------------------------------------------------ C15
    "C15" c15_short 0 "every short string" [
        "", "~", "~~", "~~~", "?~~~", "?~~~~", "~?~~", "%", "&", "?%", "?~%", "%~", "??~~~", "?x~~~", "?x@~~~", "?x@@~~~", ".~~", "??@~~",
    ] eq;
    "C15" c15_edits 0 "every single edit of a name of every kind" seeds eq_edited;
    "C15" c15_tail 0 "what follows a complete name" [
        "?x@@3HA~~", "?f@@YAXXZ~~", "?x@@3PAHA~~", "??_7c@@6B@~~", "??_R0H@8~", "??_R1A@A@A@A@c@@8~~", "??_R2c@@8~", "??_C@_02A@a?$AA@~~", ".H~", ".?AVc@@~~", "??@ab@~~", "??_9c@@$BA@AA~", "??_B?1??f@@YAHXZ@51~", "??__Ex@@YAXXZ~", "?f@@9~",
    ] eq;
    "C15" c15_short_deep 1 "every short string" [ "~~~~", "?~~~~~", "?~~~~~~", ".~~~~", "??~~~~", "?x@@~~~~", "?x@~~~~~", "??$~~~~~" ] eq;
    "C15" c15_edits2 1 "every two edits of a name, the second a replacement" [
        "?x@n@@3PEBHEB", "??Bc@@UBEPBDXZ", "?y@@3PQc@@HQ1@", "??_7c@@6Bd@e@@@", "??_R1A@?0A@EA@c@@8", "??_R0?AVc@@@8", "??_C@_03A@ab?$AA?4@", "??__Ex@@YAXXZ", "??_9c@@$BA@AA", ".?AV?$a@$H?g@@3HAA@@@", "??@ab@",
    ] eq_edited2;
    "C15" c15_gram 0 "every edit of the symbols of the grammar" [ "<1><Y>" ] eq_edited;
    "C15" c15_types 0 "every edit of the types of the grammar" [ "<2>?x@@3<T>A", "<1>?f@@YAX<T>@Z", "<1>?x@@3V?$t@<A>@@A", "<1>?x@<S>3HA" ] eq_edited;
    "C15" c15_tails 0 "what follows a complete name of the grammar" [ "<1><Y>{!-~}", "<1><Y>~~" ] eq;
    "C15" c15_every_placed 0 "every construct, right or wrong, in every place" [] eq_every_placed;

    // ------------------------------------------------------------------ C16
    "C16" c16_md5 0 "MD5 names are returned verbatim" [
        "??@~", "??@~~", "??@~~~", "??@~~@", "??@{0-9a-f}{0-9a-f}@~", "??@[32:{a0}]@", "??@[32:{f}]@(|??_R4@|??_R4|~)", "??@~@??_R4@~", "??@a@??_~4@", "??@a@??_R~@", "??@a@??_R4~", "??@a@~~", "??@%@", "??@a@%", "??@&@??_R4@", "??@%~@??_R4@x", "?x@?1??@~@@3HA", "?x@?1??@~@??_R4@@3HA", "?x@@3V?$t@$1??@~@@@A", "?x@@3V?$t@$E??@~@??_R4@@@A",
    ] eq;
    "C16" c16_typeinfo 0 "type names in RTTI data" [
        ".?A(V|U|T|W4)~@@", ".?A(V|U|T|W4)c@(|n@|?A0x1@|?$t@H@|?1??f@@YAXXZ@)@", ".?{A-DQ}(H|Vc@@|PAH|PBVc@@)", ".{A-Z}", "._{A-Z}", ".{PQRSA}{A-D}{HD}", ".P6A{XH}{XD@}{@XZ}", ".H~", ".?AVc@@~", ".~", ".", "..H", ".?.H", ".?x@@3HA", ".W4e@@", ".$$T", ".$$QAH", ".?A$$QAH", ".P8c@@AEXXZ", ".PQc@@H", ".Y01H", ".%", ".?AV%@@",
    ] eq;
    "C16" c16_flags 0 "flags do not touch them" [ "??@{a0}{b1}@(|??_R4@)", ".?AVc@@", ".PAH", ".?AV?$t@Vc@@@n@@" ] eq_any_flags;
    "C16" c16_gram 0 "all types" [ "<4>.<T>", "<3>.?A<T>", "<3>??_R0<T>@8", "<2>?x@@3V?$t@$1??@ab@<A>@@A" ] eq;
    "C16" c16_counts 0 "MD5 names and type names of any length" [
        "??@[0-64:a]@", "??@[0-64:a]@??_R4@", "??@[0-3:a]@[0-4:??_R4@](|~|~~)", "?x@?1??@[0-3:a]@[0-3:??_R4@]@3HA", "?x@@3V?$t@$1??@[0-3:a]@[0-3:??_R4@]@@A", "??@[0-64:a]@(?|??|??_|??_R|??_R4|??_R4@@|??_R4a@)", ".?A{TUV}[1-20:#@]@", ".[0-12:PA]H", ".[0-12:PA]H{A-D}", ".?A[0-12:PA]H{A-D}", ".?AW4[1-9:#@]@", ".P6AX[0-12:V#@@]@Z", ".?AV?$t@[0-12:V#@@]@@", "??_R0?AV[1-20:#@]@@8", "?x@@3V?$t@[1-3:$1??@#@]@@A", "?x@?1??@[0-34:a]@@3HA", "??__E??@[0-34:a]@@@YAXXZ", "??_R0??@ab@@8", "?x@@3V??@ab@@@A", ".??@ab@", ".?AV??@ab@@@",
    ] eq;
    "C16" c16_large 0 "MD5 names and type names of up to 65537 characters" [ "??@(|[255-257:x]|[511-513:x]|[1023-1025:x]|[2047-2049:x]|[4095-4097:x]|[8190:x]|[16383-16385:x]|[32766-32769:x]|[65533-65537:x]){ab}@", "??@([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@??_R4@", "??@([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@~", ".?AV([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@@", ".PAV([255-257:x]|[1023-1025:x]|[4095-4097:x]|[65533-65537:x]){ab}@@" ] eq;

    // ------------------------------------------------------------------ C01
    "C01" c01_short 0 "every short string" [
        "~", "~~", "~~~", "~~~~", "?~~~~", "?~~~~~", "??~~~~", "??_~~~~", "??__~~~", "??$~~~~", "?x@~~~~", "?x@@~~~~", ".~~~~", "(%|&|~)(%|&|~)(%|&|~)", "?(%|&|~)(%|&|~)(%|&|~)", "??(%|&|~)(%|&|~)",
    ] safe;
    "C01" c01_ends 0 "strings that break off, or go on with anything, after every kind of beginning" [
        "?x@@3(|~|~~|~~~|%~|&~)", "?f@@(|~|~~|~~~|%~|&~)", "?f@@YA(|~|~~|~~~|%~|&~)", "?f@@YAX(|~|~~|~~~|%~|&~)", "?f@@YAXX(|~|~~|%|&)", "?x@@3P6A(|~|~~|~~~|%|&~)", "?x@@3P8(|~|~~|~~~|%)", "?x@@3P8c@@(|~|~~|~~~|%|&)", "?x@@3PQ(|~|~~|~~~|%)", "?x@@3PQc@@(|~|~~|~~~|%)", "?x@@3Y(|~|~~|~~~|%)", "?x@@3Y0(|~|~~|~~~|%)", "?x@@3$$(|~|~~|~~~|%|&)", "?x@@3W(|~|~~|~~~|%)", "?x@@3W4(|~|~~|~~~|%~)", "?x@@3_(|~|~~|%|&)", "?x@@3PE(|~|~~|~~~|%)", "?x@@3PEA(|~|~~|~~~|%)",
        "?x@?(|~|~~|~~~|%)", "?x@?A(|~|~~|~~~|%~)", "?x@?1(|~|~~|~~~|%)", "?x@?1?(|~|~~|~~~|%)", "?x@?B(|~|~~|~~~|%)", "?x@?BA@(|~|~~|~~~|%)", "?x@?$(|~|~~|~~~|%)", "?x@?$t@(|~|~~|~~~|%)",
        "?x@@3V?$t@(|~|~~|~~~|%)", "?x@@3V?$t@$(|~|~~|~~~|%|&)", "?x@@3V?$t@$$(|~|~~|~~~|%)", "?x@@3V?$t@$$C(|~|~~|%)", "?x@@3V?$t@$0(|~|~~|~~~|%)", "?x@@3V?$t@$1(|~|~~|~~~|%|&)", "?x@@3V?$t@$1?(|~|~~|~~~)", "?x@@3V?$t@$H(|~|~~|~~~|%)", "?x@@3V?$t@$J(|~|~~|~~~|%)", "?x@@3V?$t@$F(|~|~~|~~~|%)", "?x@@3V?$t@$E(|~|~~|~~~|%)", "?x@@3V?$t@$M(|~|~~|~~~|%)", "?x@@3V?$t@$MH(|~|~~|~~~|%)",
        "??_7(|~|~~|~~~|%)", "??_7c@@(|~|~~|~~~|%)", "??_7c@@6B(|~|~~|~~~|%)", "??_9(|~|~~|~~~|%)", "??_9c@@(|~|~~|~~~)", "??_9c@@$B(|~|~~|~~~|%)", "??_B(|~|~~|~~~|%)", "??_Bc@@(|~|~~|~~~|%)", "??_R0(|~|~~|~~~|%)", "??_R0H(|~|~~|~~~|%)", "??_R1(|~|~~|~~~|%)", "??_R1A@A@A@(|~|~~|~~~|%)", "??_R2(|~|~~|~~~|%)", "??_R4c@@(|~|~~|~~~|%)", "??__E(|~|~~|~~~|%)", "??__E?(|~|~~|~~~|%)", "??__E?x@@3HA(|~|~~|~~~|%)", "??__Ex@@(|~|~~|~~~|%)", "??__K(|~|~~|~~~|%~)", "??@(|~|~~|~~~|%~)", "??0(|~|~~|~~~|%)", "??B(|~|~~|~~~|%)", "?f@@$(|~|~~|~~~|%)", "?f@@$R(|~|~~|~~~|%)", "?f@@W(|~|~~|~~~|%)", "?f@@$$J(|~|~~|~~~|%)",
    ] safe;
    "C01" c01_strings 0 "string literals: any declared length, any characters" [
        "??_C(|~|~~|~~~|%)", "??_C@_(|~|~~|~~~)", "??_C@_0(|~|~~|~~~|%)", "??_C@_01A@(|~|~~|~~~|%~|&)", "??_C@_1(|~|~~|~~~|%)", "??_C@_11A@(|~|~~|~~~|%~|&~)", "??_C@_11A@?$A(|~|~~|~~~|%)", "??_C@_11A@?(|~|~~|~~~|%)",
        "??_C@_0{0-9}A@[0-9:?$AA]@", "??_C@_0[1-17:P]@A@a@", "??_C@_1[1-17:P]@A@(|?$AAa)@", "??_C@_0I{AB}@A@[120-132:a]@", "??_C@_1[1-3:{A-P}]@A@(|?$AAa|?$AA?$AA)@", "??_C@_0A@A@@", "??_C@_1A@A@@", "??_C@_1{0-9}A@?{0-9}?{a-z}@", "??_C@_0{A-C}{A-P}@A@[0-2:~]@", "??_C@_0CA@A@(|a|ab|?$AA)@",
    ] safe;
    "C01" c01_numbers 0 "numbers of any length" [
        "?x@?[1-18:{P}]@??f@@YAXXZ@4HA", "?x@@3V?$t@$0(|?)[0-20:P]@@@A", "?x@@3V?$t@$0(|?){HI}[15-16:A]@@@A", "?x@@3V?$t@$F(|?){HI}[15-16:{A}]@(|?)[8-17:P]@@@A", "?f@c@@W(|?){HI}[15-16:A]@AEXXZ", "?f@c@@$4(|?){HI}[7-16:A]@(|?){HIP}[7-16:A]@AEXXZ", "?f@c@@$R4(|?)[7-17:P]@(|?)[7-17:P]@A@A@AEXXZ", "??_R1(|?)[7-17:P]@(|?)[7-17:P]@A@A@c@@8", "??_R1A@?{HI}AAAAAAA@A@A@c@@8", "??_R1A@?{HI}AAAAAAAAAAAAAAA@A@A@c@@8", "?x@@3PAY(|?){HIP}[0-16:P]@0HA", "?x@@3PAY0(|?)[1-17:P]@HA", "??_9c@@$B[1-17:P]@AA", "??_B?1??f@@YAHXZ@5[1-17:P]@",
    ] safe_any_flags;
    "C01" c01_flags 0 "every kind of name under every combination of flags" [
        "?x@~@@3PIFBVS@@IB", "?f@c@@Q(|E)(|I)(|F)GDEPAVd@@P6G~XZ@Z", "??$t@$1?g@c@@UBE~XZ@@YAXXZ", "??_9c@@$B~A~", "??__E~x@c@@2HA@@YAXXZ", ".~AV~@@", "??@~@", "?x@@3P8c@@~FBE~XZB1@", "?x@?~??f@c@@SA~XZ@4HA", "?%@&@@3HA", "?f@&@@YA%PIAVd@@XZ", "??_7%@@6B&@@", "?x@@3V?$%@V&@@@@A",
    ] safe_any_flags;
    "C01" c01_families 0 "every pattern of C04 to C16" [] safe_families;
    "C01" c01_placed 0 "every construct in every place" [] safe_placed;
    "C01" c01_fam_flags 0 "every pattern of C13 and C14, any flags" [] safe_families_flags;
    "C01" c01_deep 1 "every short string" [
        "~~~~~", "?~~~~~~", "??~~~~~", "??_~~~~~", "?x@@~~~~~", "?f@@Y~~~~~", "?x@@3~~~~~", "?x@@3V?$t@~~~~", "?x@@3V?$t@$~~~~", "??_C@_0~~~~", "??_C@_01A@~~~~", "??_C@_1~~~~", "?x@?~~~~~", "??__E~~~~~", "(%|&|~)(%|&|~)(%|&|~)(%|&|~)", "?x@@3(%|&|~)(%|&|~)(%|&|~)", "?f@@YA(%|&|~)(%|&|~)(%|&|~)",
    ] safe;
    "C01" c01_edits 1 "every two edits of a name of every kind, any flags for one edit" seeds safe_edited2;
    "C01" c01_gram 0 "every symbol of the grammar, with any edit" [ "<1><Y>" ] safe_edited_flags;
    "C01" c01_scripts 0 "characters of every length wherever a scope can stand" [
        "?x@?{!-~}(é|中|😀)?@@3HA", "?x@?{!-~}(é|中|😀)@??f@@YAXXZ@3HA", "?x@?{!-~}{!-~}(é|中|😀)?f@@YAXXZ@3HA", "?x@?(é|中|😀)?f@@YAXXZ@3HA", "?x@?(é|中|😀){!-~}?f@@YAXXZ@3HA", "?x@?{!-~}(é|中|😀){!-~}?f@@YAXXZ@3HA", "?x@(é|中|😀)?{!-~}?f@@YAXXZ@3HA", "?x@?{!-~}?(é|中|😀){!-~}?@3HA", "?x@?A(é|中|😀)?@@3HA", "?x@?A(é|中|😀)", "?x@?{!-~}(é|中|😀)", "?x@?{!-~}(é|中|😀)?",
        "?x@@3(P|A|$$Q|Y|W|?|_|$|$$)(é|中|😀){!-~}HA", "?x@@3V?$t@$(|0|1|E|F|G|H|M|S|$|$$)(é|中|😀){!-~}@@A", "??_C@_(0|1)(|0)(é|中|😀){!-~}@A@a?$AA@", "??_C@_(0|1)1A@?(é|中|😀){!-~}?$AA@", "??_C@_(0|1)1A@?$(é|中|😀){!-~}?$AA@", "??_(é|中|😀){!-~}c@@", "??__(é|中|😀){!-~}c@@", "??(é|中|😀){!-~}c@@QAEXXZ", "?f@@(|$|$$|$$J|$$J0|Q|W|$4|$R4)(é|中|😀){!-~}AEXXZ", "?f@@YAX{!-~}(é|中|😀){@Z}Z", "?f@@YAXX(é|中|😀|Z|_é|_E中)", "(é|中|😀){!-~}", "{!-~}(é|中|😀){!-~}", "?(é|中|😀)", "??@(é|中|😀){!-~}", "??_R(é|中|😀)A@A@A@A@c@@8", "??_R1(é|中|😀)A@A@A@c@@8", "??_B?1??f@@YAHXZ@5(é|中|😀)", "?x@@3HA(é|中|😀)", "?f@@YAXXZ(é|中|😀)", "??_7c@@6B(é|中|😀)", "??_7c@@(é|中|😀)",
    ] safe;
    "C01" c01_cuts 0 "a character of two bytes at every distance from where a name of any kind starts" [
        "?(|[1-150:x]|[151-300:x])é@@3HA", "?x@(|[1-150:x]|[151-300:x])é@3HA", "?x@(|[1-150:x]|[151-300:x])é@@3HA", "?x@?A(|[1-150:x]|[151-300:x])é@@3HA", "?x@?A0x(|[1-150:x]|[151-300:x])é@1@3HA", "?x@@3V?$(|[1-150:x]|[151-300:x])é@H@@A", "?x@@3V?$t@V(|[1-150:x]|[151-300:x])é@@@@A", "?x@@3V?$t@V(|[1-150:x]|[151-300:x])é@@@1@A", "??__K(|[1-150:x]|[151-300:x])é@@YAHXZ", "?x@@3V(|[1-150:x]|[151-300:x])é@@A", "?f@@YAXV(|[1-150:x]|[151-300:x])é@@0@Z", "?x@@3P8(|[1-150:x]|[151-300:x])é@@AEXXZA", "?x@?1??(|[1-150:x]|[151-300:x])é@@YAXXZ@4HA", "??_C@_01(|[1-150:x]|[151-300:x])é@a?$AA@", "??_C@_0CA@A@(|[1-150:x]|[151-300:x])é@", "??@(|[1-150:x]|[151-300:x])é@", "??@(|[1-150:x]|[151-300:x])é@??_R4@", ".?AV(|[1-150:x]|[151-300:x])é@@", "??_7c@@6B(|[1-150:x]|[151-300:x])é@@@", "??_7(|[1-150:x]|[151-300:x])é@@6B@", "??_R1A@A@A@A@(|[1-150:x]|[151-300:x])é@@8", "??_B(|[1-150:x]|[151-300:x])é@@51", "??__E(|[1-150:x]|[151-300:x])é@@YAXXZ", "?f@@YAX?(|[1-150:x]|[151-300:x])é@@@Z", "?x@@3V?$t@$1?(|[1-150:x]|[151-300:x])é@@3HA@@A", "?x@@3V?$t@$$Y(|[1-150:x]|[151-300:x])é@@@@A", "??0(|[1-150:x]|[151-300:x])é@@QAE@XZ", "?x@@3HA(|[1-150:x]|[151-300:x])é", "?f@@YAXXZ(|[1-150:x]|[151-300:x])é",
    ] safe;

    // ------------------------------------------------------------------ C02
    "C02" c02_nodes 0 "names of very many parts are refused; names of many parts are not" [] limit_nodes;
    "C02" c02_depth 0 "deep nesting is refused; moderate nesting is not" [] limit_depth;
    "C02" c02_output 0 "output of a megabyte or more is refused, less is not" [] limit_output;
    "C02" c02_bombs 0 "short names with exponentially long expansions" [] limit_bombs;
    "C02" c02_parts 0 "names of two to two thousand parts: the right text, or, beyond a hundred parts, an error" [] between_nodes;
    "C02" c02_levels 0 "names of three to 255 levels: the right text, or, beyond forty levels, an error" [] between_depth;

    // ------------------------------------------------------------------ C03
    "C03" c03_into 0 "demangling into a used buffer" [
        "?x@@3~A", "?~@@3HA", "?f@@YA~XZ", "?x@~", "??_C@_02A@~?$AA@", "??_7c@@6B~@", "??@~@", "", "?%@@3HA", "?x@@3V~@@A~"
    ] into;
    "C03" c03_repeat 0 "results do not depend on what was demangled before" [
        "?x@@3~A", "?f@@YAX~0@Z", "?a@b@~", "??~c@@QAE@XZ", ".~", "?f@@YAXVa@@V~@@Z",
    ] repeat;
    "C03" c03_flags 0 "nor with which flags" [
        "?f@c@@UAEPAVd@@PIAH@Z", "?x@c@@2W4e@@B", "??$f@VT@@@@YAXXZ", "?f@@YAX", ".PEAVc@@",
    ] repeat_flags;
    "C03" c03_limit 0 "buffers after a text that was too long" [] into_limit;
    "C03" c03_gram 0 "every two symbols of the grammar" [ "<1><Y>" ] repeat;
    "C03" c03_history 0 "any number of calls beforehand, accepted or refused" [
        "?x@@3{HD}A", "?f@{ab}@@YAXPAHPADV1@0@Z", "?x@@3[40:PA]HA", "?x@@3V[20:?$t@V]?$t@H@@[20:@@]A", "?x@[6:?1??f@]g@[6:@YAXXZ@]3HA", "?{ab}@@3_", "?f@a@b@c@d@e@f@g@h@i@j@@YAXPADPAEPAFPAGPAIPAJPAKPAMPAN{0-9}V{0-9}@@Z",
        "??_C@_0{3-5}A@abc?$AA@", "?f@c@@{QA}AE_J_KXZ",
    ] history;
    "C03" c03_edits 0 "a name of every kind and one an edit away from it" seeds repeat_edited;
    "C03" c03_gram_edits 0 "every symbol of the grammar and one an edit away from it" [ "<1><Y>" ] repeat_edited;
    "C03" c03_inplace 0 "a name of every kind, and the same memory with one character replaced" seeds repeat_inplace;
}

fn safe_edited2(p: &'static [&'static str]) {
    let v = edited(p);
    let at = sym::choice(v.len() as u32 + 1) as usize;
    let mut out = v[..at].to_vec();
    out.push(sym::byte(&sym::ASCII));
    if at < v.len() {
        out.extend_from_slice(&v[at + 1..]);
    }
    run_safely(&out, flags(0, 0));
}

fn alias(_: &'static [&'static str]) {
    use undname::Flags;
    sym::input(b"flag aliases");
    sym::mark(0);
    sym::check(Flags::NO_ALLOCATION_LANGUAGE == Flags::NO_CALLING_CONVENTION, "NO_ALLOCATION_LANGUAGE");
    sym::check(Flags::NO_ECSU == Flags::NO_TAG_SPECIFIER, "NO_ECSU");
    sym::check(Flags::NO_ACCESS_SPECIFIERS == Flags::NO_ACCESS_SPECIFIER, "NO_ACCESS_SPECIFIERS");
    sym::check(Flags::NO_FUNCTION_RETURNS == Flags::NO_RETURN_TYPE, "NO_FUNCTION_RETURNS");
    sym::check(Flags::default().is_empty(), "the default is no flags");
    sym::observe(b"ok");
}

// ---------------------------------------------------------------- C02

fn rep(v: &mut Vec<u8>, what: &[u8], n: usize) {
    let mut k = 0;
    while k < n {
        v.extend_from_slice(what);
        k += 1;
    }
}

fn refused(name: &[u8], f: Flags, tag: &'static str) {
    sym::input(&name[..name.len().min(200)]);
    let r = demangle(name, f);
    sym::mark(1);
    sym::check(r.is_err(), tag);
    sym::observe(if r.is_err() { b"!" } else { b"accepted" });
}

/// (head, part, tail) of names with any number of parts
const REPEATED: [(&str, &str, &str); 9] = [
    ("?f@@YAX", "{DFGHIJKMN}", "@Z"),
    ("?f@@YAX", "PAD", "@Z"),
    ("?x@", "{ab}@", "@3HA"),
    ("?x@@3V?$t@", "{DFGHIJKMN}", "@@A"),
    ("?x@@3V?$t@", "$0{0-9}", "@@A"),
    ("?x@@3V?$t@", "V{ab}@@", "@@A"),
    ("?x@@3V?$t@", "$1?y@@3HA", "@@A"),
    ("?x@@3P6AX", "_N", "@ZA"),
    ("?x@", "?A0x1@", "@3HA"),
];

fn limit_nodes(_: &'static [&'static str]) {
    let k = sym::choice(REPEATED.len() as u32) as usize;
    let (head, part, tail) = REPEATED[k];
    let n = [1, 100, 2049, 3000, 20000][sym::choice(5) as usize];
    let mut one = vec![];
    crate::pat::build(part.as_bytes(), &mut one);
    let mut v = head.as_bytes().to_vec();
    rep(&mut v, &one, n);
    v.extend_from_slice(tail.as_bytes());
    if n <= 100 {
        agree(&v, flags(0, 0));
    } else {
        refused(&v, flags(0, 0), "a name of more than 2048 parts accepted");
    }
}

/// (head, opening, middle, closing, tail) of names nested to any depth
const NESTED: [(&str, &str, &str, &str, &str); 16] = [
    ("?x@@3", "P{AB}", "H", "", "A"),
    ("?x@@3", "A{AB}", "H", "", "A"),
    ("?x@@3", "$$QA", "H", "", "A"),
    ("?x@@3", "P6A", "H", "XZ", "A"),
    ("?x@@3", "P6AX", "H", "@Z", "A"),
    ("?x@@3", "P8c@@AE", "H", "XZ", "A1@"),
    ("?x@@3", "PQc@@", "H", "", "Q0@"),
    ("?x@@3", "QAY01", "H", "", "A"),
    ("?x@@3", "Y01", "H", "", "A"),
    ("?x@@3", "V?$a@", "H", "@@", "A"),
    ("?x@@3V?$a@", "$1?f@?$b@", "H", "@@3HA", "@@A"),
    ("?", "?$", "a@", "H@", "@3HA"),
    ("?x@", "?1??f@", "g", "@YAXXZ", "@3HA"),
    ("?x@@3", "Va@?1??b@@YAX", "H", "@Z@", "A"),
    ("?x@@3", "$$A6A", "H", "XZ", "A"),
    ("?x@@3V?$t@", "$MV?$u@", "H", "@@00", "@@A"),
];

/// between what must be accepted and what must be refused: the right text, or
/// an error
fn agree_or_refuse(name: &[u8], must: bool) {
    let f = flags(0, 0);
    sym::input(&name[..name.len().min(400)]);
    let got = demangle(name, f);
    let want = spec::demangle(name, f);
    match got {
        Ok(s) => {
            sym::mark(0);
            sym::observe(b"accepted");
            sym::check(want.as_deref() == Some(s.as_bytes()), "demangled text differs from the reference");
        }
        Err(_) => {
            sym::mark(1);
            sym::observe(b"!");
            sym::check(!must || want.is_none(), "well-formed name rejected");
        }
    }
}

fn eq_large(p: &'static [&'static str]) {
    agree_or_refuse(&one_of(p), false);
}

fn between_nodes(_: &'static [&'static str]) {
    const N: [usize; 30] = [2, 3, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000];
    let (head, part, tail) = REPEATED[sym::choice(REPEATED.len() as u32) as usize];
    let n = N[sym::choice(N.len() as u32) as usize];
    let mut one = vec![];
    crate::pat::build(part.as_bytes(), &mut one);
    let mut v = head.as_bytes().to_vec();
    rep(&mut v, &one, n);
    v.extend_from_slice(tail.as_bytes());
    agree_or_refuse(&v, n <= 100);
}

fn between_depth(_: &'static [&'static str]) {
    const N: [usize; 20] = [3, 8, 15, 16, 17, 31, 32, 33, 39, 41, 63, 64, 65, 100, 127, 128, 129, 200, 250, 255];
    let (head, open, mid, close, tail) = NESTED[sym::choice(NESTED.len() as u32) as usize];
    let n = N[sym::choice(N.len() as u32) as usize];
    let (mut o, mut v) = (vec![], head.as_bytes().to_vec());
    crate::pat::build(open.as_bytes(), &mut o);
    rep(&mut v, &o, n);
    v.extend_from_slice(mid.as_bytes());
    rep(&mut v, close.as_bytes(), n);
    v.extend_from_slice(tail.as_bytes());
    agree_or_refuse(&v, n <= 40);
}

fn limit_depth(_: &'static [&'static str]) {
    let k = sym::choice(NESTED.len() as u32) as usize;
    let (head, open, mid, close, tail) = NESTED[k];
    let n = [1, 2, 40, 257, 600, 3000, 20000][sym::choice(5) as usize];
    let (mut o, mut v) = (vec![], head.as_bytes().to_vec());
    crate::pat::build(open.as_bytes(), &mut o);
    rep(&mut v, &o, n);
    v.extend_from_slice(mid.as_bytes());
    rep(&mut v, close.as_bytes(), n);
    v.extend_from_slice(tail.as_bytes());
    if n <= 40 {
        agree(&v, flags(0, 0));
    } else {
        refused(&v, flags(0, 0), "nesting of more than 256 levels accepted");
    }
}

const MB: usize = 1 << 20;

fn limit_output(_: &'static [&'static str]) {
    let kind = sym::choice(5);
    let over = sym::choice(3) as usize; // total output: 2^20 - 1, 2^20, 2^20 + 1
    let mut v = vec![];
    let c = sym::byte(&sym::set(b"ab"));
    match kind {
        // "int " and one long name
        0 => {
            v.extend_from_slice(b"?");
            rep(&mut v, &[c], MB - 5 + over);
            v.extend_from_slice(b"@@3HA");
        }
        // a long name, cut to the name only: no type
        1 => {
            v.extend_from_slice(b"?");
            rep(&mut v, &[c], MB - 1 + over);
            v.extend_from_slice(b"@@3HA");
        }
        // "class ", the long name, " x"
        2 => {
            v.extend_from_slice(b"?x@@3V");
            rep(&mut v, &[c], MB - 9 + over);
            v.extend_from_slice(b"@@A");
        }
        // "int ", a long scope referred back to 1023 times, and "::x"
        3 => {
            v.extend_from_slice(b"?x@");
            rep(&mut v, &[c], 1021);
            v.extend_from_slice(b"@");
            rep(&mut v, b"1", 1023);
            v.extend_from_slice(b"@3HA");
            // 4 + 1024 * (1021 + 2) + 1
            let left = MB - 1 + over - (4 + 1024 * 1023 + 1);
            let mut w = b"?x".to_vec();
            rep(&mut w, b"x", left);
            w.extend_from_slice(&v[2..]);
            v = w;
        }
        // an MD5 name
        _ => {
            v.extend_from_slice(b"??@");
            rep(&mut v, &[c], MB - 5 + over);
            v.extend_from_slice(b"@");
        }
    }
    sym::input(&v[..100]);
    let f = flags(if kind == 1 { NAME_ONLY } else { 0 }, 0);
    match demangle(&v, f) {
        Ok(s) => {
            sym::mark(0);
            sym::check(s.len() < MB, "output of a megabyte or more");
            sym::check(over == 0, "accepted although the output would be a megabyte or more");
            sym::check(s.len() == MB - 1, "wrong length");
            sym::observe(b"accepted");
        }
        Err(_) => {
            sym::mark(1);
            sym::check(over > 0, "refused although the output is less than a megabyte");
            sym::observe(b"!");
        }
    }
}

fn limit_bombs(_: &'static [&'static str]) {
    let d = [2, 6, 20, 28][sym::choice(4) as usize];
    let kind = sym::choice(4);
    let mut v = vec![];
    match kind {
        // every parameter is a function of four of the one before
        0 => {
            v.extend_from_slice(b"?x@@YAXPEAH");
            let mut k = 0;
            while k < d && k < 9 {
                v.extend_from_slice(b"P6AX");
                rep(&mut v, &[b'0' + k as u8], d / 2 + 1);
                v.extend_from_slice(b"@Z");
                k += 1;
            }
            rep(&mut v, &[sym::byte(&sym::range(b'0', b'0' + k as u8))], d);
            v.extend_from_slice(b"@Z");
        }
        // scopes that refer back to long scopes
        1 => {
            v.extend_from_slice(b"?x@");
            rep(&mut v, &[sym::byte(&sym::set(b"ab"))], 1000);
            v.extend_from_slice(b"@");
            rep(&mut v, b"1", d * d * 2);
            v.extend_from_slice(b"@3HA");
        }
        // template arguments that refer back to long instantiations
        2 => {
            v.extend_from_slice(b"?f@@YAXV?$a@");
            let mut k = 0;
            while k < 50 {
                v.extend_from_slice(b"V");
                rep(&mut v, b"n", 60);
                v.push(b'a' + (k % 26) as u8);
                v.extend_from_slice(b"@@");
                k += 1;
            }
            v.extend_from_slice(b"@@");
            v.push(b'H');
            rep(&mut v, b"0", d * d);
            v.push(sym::byte(&sym::range(b'A', b'Z')));
            v.extend_from_slice(b"@Z");
        }
        // local scopes inside local scopes
        _ => {
            v.extend_from_slice(b"?x@");
            rep(&mut v, b"?1??f@0", d);
            v.extend_from_slice(b"@");
            rep(&mut v, b"YAXVb@@00000@Z@", d);
            v.extend_from_slice(b"3HA");
        }
    }
    let f = flags(0, 0);
    sym::input(&v[..v.len().min(200)]);
    // the executor's step limit is the bound on the work done
    match demangle(&v, f) {
        Ok(s) => {
            sym::mark(0);
            sym::check(s.len() < MB, "output of a megabyte or more");
            sym::observe(b"accepted");
            if s.len() < 60_000 {
                let want = spec::demangle(&v, f);
                sym::check(want.as_deref() == Some(s.as_bytes()), "demangled text differs from the reference");
            }
        }
        Err(_) => {
            sym::mark(1);
            sym::observe(b"!");
            if d <= 6 {
                sym::check(spec::demangle(&v, f).is_none(), "a harmless name refused");
            }
        }
    }
}

// ---------------------------------------------------------------- C03

/// demangle_into leaves in the buffer what demangle returns, or nothing
fn into_once(buf: &mut String, name: &[u8], f: Flags) {
    let cap = buf.capacity();
    let r = demangle_into(name, f, buf);
    let fresh = demangle(name, f);
    match (&r, &fresh) {
        (Ok(()), Ok(s)) => {
            sym::mark(0);
            sym::check(buf.as_bytes() == s.as_bytes(), "buffer holds something other than the result");
        }
        (Err(_), Err(_)) => {
            sym::mark(1);
            sym::check(buf.is_empty(), "buffer not empty after a failure");
        }
        _ => sym::check(false, "demangle and demangle_into disagree"),
    }
    sym::check(buf.capacity() >= cap, "the buffer's memory was given up");
    sym::observe(buf.as_bytes());
}

fn into(p: &'static [&'static str]) {
    let name = one_of(p);
    let f = flags(0, 1 << 9);
    let mut buf = String::new();
    match sym::choice(5) {
        0 => {}
        1 => buf.push_str("old text"),
        2 => buf = String::with_capacity(1000),
        3 => {
            buf = String::with_capacity(64);
            let mut k = 0;
            while k < 3 {
                buf.push(sym::byte(&sym::ASCII) as char);
                k += 1;
            }
        }
        _ => buf.push_str("caf\u{e9} \u{4e2d}>"),
    }
    sym::input(&name);
    into_once(&mut buf, &name, f);
}

fn repeat(p: &'static [&'static str]) {
    let (a, b) = (one_of(p), one_of(p));
    let f = flags(0, 0);
    sym::input(&a);
    sym::input(&b);
    let mut buf = String::new();
    into_once(&mut buf, &a, f);
    into_once(&mut buf, &b, f);
    // and against the reference, so that both calls cannot be wrong together
    let want = spec::demangle(&b, f);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "second result differs from the reference");
}

/// a name and one a single edit away from it, in either order
fn repeat_edited(p: &'static [&'static str]) {
    let a = one_of(p);
    let b = edit(&a);
    let (a, b) = if sym::choice(2) == 0 { (a, b) } else { (b, a) };
    let f = flags(0, 0);
    sym::input(&a);
    sym::input(&b);
    let mut buf = String::new();
    into_once(&mut buf, &a, f);
    into_once(&mut buf, &b, f);
    let want = spec::demangle(&b, f);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "second result differs from the reference");
}

/// a name, and another of the same length put in the same memory
fn repeat_inplace(p: &'static [&'static str]) {
    let mut a = one_of(p);
    let at = sym::choice(a.len() as u32) as usize;
    let new = sym::byte(&sym::ASCII);
    let was = a[at];
    // only characters of one byte are replaced
    if was & 0x80 != 0 {
        return;
    }
    let f = flags(0, 0);
    sym::input(&a);
    let mut buf = String::new();
    into_once(&mut buf, &a, f);
    a[at] = new;
    sym::input(&a);
    into_once(&mut buf, &a, f);
    let want = spec::demangle(&a, f);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "second result differs from the reference");
    a[at] = was;
    into_once(&mut buf, &a, f);
    let want = spec::demangle(&a, f);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "third result differs from the reference");
}

/// names to demangle any number of times before the one that counts: head, part,
/// how often it is repeated, tail
const BEFORE: [(&str, &str, usize, &str); 22] = [
    ("?x@@3", "", 0, "HA"),
    ("?x@@3", "", 0, "H"),
    ("", "", 0, ""),
    ("?", "", 0, ""),
    ("?x@@3", "PA", 300, "HA"),
    ("?x@@3", "PA", 250, ""),
    ("?x@@3", "P6A", 100, "H"),
    ("?x@@3", "P6AX", 100, "H"),
    ("?x@@3", "V?$a@", 100, "H"),
    ("?x@@3", "V?$a@", 300, "H"),
    ("?", "?$", 300, "a"),
    ("?x@", "?1??f@", 300, "g"),
    ("?x@@3V?$a@", "$1?f@?$b@", 90, ""),
    ("?f@@YAX", "V?$t@H@@", 20, "V9@@"),
    ("?f@@YAX", "PAH", 20, "09"),
    ("?f@@YAX", "PAH0", 20, "9@Z"),
    ("?x@@3", "Y01", 300, "H"),
    ("?x@@3", "PQc@@", 300, "H"),
    ("??_C@_0", "", 0, "3A@ab"),
    ("??_R1A@A@", "", 0, "A@"),
    ("?x@@3V?$t@", "$MV?$u@", 90, ""),
    ("?x@", "a@", 2100, "@3HA"),
];

fn history(p: &'static [&'static str]) {
    let good = one_of(p);
    let (head, part, n, tail) = BEFORE[sym::choice(BEFORE.len() as u32) as usize];
    let mut v = head.as_bytes().to_vec();
    rep(&mut v, part.as_bytes(), n);
    v.extend_from_slice(tail.as_bytes());
    let calls = if n > 1000 { 8 } else if n > 0 { 40 } else { 300 };
    let f = flags(0, 0);
    sym::input(&good);
    let mut buf = String::new();
    let first = demangle(&v, f).ok();
    let mut k = 0;
    while k < calls {
        let r = demangle_into(&v, f, &mut buf);
        sym::check(r.is_ok() == first.is_some() && buf == first.as_deref().unwrap_or(""), "the same name, the same flags, another result");
        k += 1;
    }
    into_once(&mut buf, &good, f);
    let want = spec::demangle(&good, f);
    sym::check(want.unwrap_or_default() == buf.as_bytes(), "later result differs from the reference");
}
