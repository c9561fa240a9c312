//! Reference demangler: the oracle the real code is compared with.
//!
//! Written from the published grammar of the Microsoft name mangling scheme
//! (as LLVM's MicrosoftDemangle implements it) and from the documentation of
//! `undname::Flags`; it shares no code with the crate under test.  It works on
//! bytes, keeps no node arena, and renders names while it parses; only types
//! are kept as small owned trees, because qualifiers arrive after them.
//!
//! Deliberately not modelled: the limits for malicious input (node count,
//! output size, nesting).  Inputs of the comparing harnesses stay far below
//! them; the limits have harnesses of their own.

type B = Vec<u8>;

/// The ten options, under the reference's own numbering: what they are called
/// is all it shares with the crate (`run::flags` translates).
#[derive(Clone, Copy)]
pub struct Flags(pub u16);

impl Flags {
    pub const NO_CALLING_CONVENTION: Flags = Flags(1);
    pub const NO_TAG_SPECIFIER: Flags = Flags(2);
    pub const NO_ACCESS_SPECIFIER: Flags = Flags(4);
    pub const NO_MEMBER_TYPE: Flags = Flags(8);
    pub const NO_RETURN_TYPE: Flags = Flags(16);
    pub const NO_VARIABLE_TYPE: Flags = Flags(32);
    pub const NO_THISTYPE: Flags = Flags(64);
    pub const NO_LEADING_UNDERSCORES: Flags = Flags(128);
    pub const NO_MS_KEYWORDS: Flags = Flags(256);
    pub const NAME_ONLY: Flags = Flags(512);

    fn contains(self, o: Flags) -> bool {
        self.0 & o.0 == o.0
    }
    fn intersects(self, o: Flags) -> bool {
        self.0 & o.0 != 0
    }
}

impl std::ops::BitOr for Flags {
    type Output = Flags;
    fn bitor(self, o: Flags) -> Flags {
        Flags(self.0 | o.0)
    }
}

const CONST: u8 = 1;
const VOLATILE: u8 = 2;
const UNALIGNED: u8 = 4;
const RESTRICT: u8 = 8;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Drop,
    Mangle,
    Result,
}

#[derive(Clone)]
enum Ty {
    Prim(&'static str, u8),
    /// `class `, text, qualifiers
    Tag(&'static str, B, u8),
    Ptr { to: Box<Ty>, sigil: &'static str, class: Option<B>, q: u8 },
    Arr { dims: B, of: Box<Ty>, q: u8 },
    Fun(Box<Sig>),
    Custom(B),
}

/// access, member-ness and so on of a function symbol
#[derive(Clone, Copy, Default)]
struct Class {
    access: u8, // 0 none, 1 private, 2 protected, 3 public
    stat: bool,
    virt: bool,
    global: bool,
    extern_c: bool,
    no_params: bool,
    adj: u8, // 0 none, 1 static, 2 virtual, 3 virtual ex
}

#[derive(Clone, Default)]
struct Sig {
    class: Class,
    q: u8,
    refq: &'static str,
    cc: Option<(&'static str, &'static str)>,
    ret: Option<Ty>,
    params: Option<B>,
    variadic: bool,
    noexcept: bool,
    thunk: bool,
    adjust: [i64; 4],
}

#[derive(Clone)]
enum Id {
    Text(B),
    Conv,
    Structor(bool),
}

/// one component of a name: an identifier and its template arguments
#[derive(Clone)]
struct Comp {
    id: Id,
    args: Option<B>,
}

/// a parsed symbol
enum Sym {
    /// complete text, and the text of its last component if it has a name
    Plain(B, Option<B>),
    Var { text: B, leaf: B },
    Fun { name: B, leaf: B, sig: Sig },
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    f: Flags,
    names: Vec<(B, B)>, // mangled, shown
    types: Vec<B>,
}

fn cat(parts: &[&[u8]]) -> B {
    let mut v = Vec::with_capacity(32);
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

fn dec(mut v: u64) -> B {
    let mut d = [0u8; 20];
    let mut n = 20;
    loop {
        n -= 1;
        d[n] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            return d[n..].to_vec();
        }
    }
}

fn sdec(v: i64) -> B {
    if v < 0 {
        cat(&[b"-", &dec(v.unsigned_abs())])
    } else {
        dec(v as u64)
    }
}

/// the last character of well-formed UTF-8
fn last_char(b: &[u8]) -> Option<char> {
    let mut k = b.len();
    let mut v = 0u32;
    let mut shift = 0;
    while k > 0 {
        k -= 1;
        let c = b[k];
        if c < 0x80 {
            return char::from_u32(c as u32);
        }
        if c < 0xc0 {
            v |= ((c & 0x3f) as u32) << shift;
            shift += 6;
            continue;
        }
        let lead = match shift {
            6 => c & 0x1f,
            12 => c & 0x0f,
            _ => c & 0x07,
        };
        return char::from_u32(v | (lead as u32) << shift);
    }
    None
}

fn space(b: &mut B) {
    if let Some(c) = last_char(b) {
        if c.is_alphanumeric() || c == '>' {
            b.push(b' ');
        }
    }
}

fn put(b: &mut B, s: &str) {
    b.extend_from_slice(s.as_bytes());
}

// ------------------------------------------------------------- rendering

fn quals(b: &mut B, q: u8, mut sp: bool, f: Flags) {
    let restrict = if f.contains(Flags::NO_MS_KEYWORDS) {
        ""
    } else if f.contains(Flags::NO_LEADING_UNDERSCORES) {
        "restrict"
    } else {
        "__restrict"
    };
    for (bit, s) in [(CONST, "const"), (VOLATILE, "volatile"), (RESTRICT, restrict)] {
        if q & bit != 0 && !s.is_empty() {
            if sp {
                b.push(b' ');
            }
            put(b, s);
            sp = true;
        }
    }
}

fn cc_text(cc: (&'static str, &'static str), f: Flags) -> &'static str {
    if f.contains(Flags::NO_LEADING_UNDERSCORES) {
        cc.1
    } else {
        cc.0
    }
}

impl Ty {
    fn add(&mut self, more: u8, keep: bool) {
        let q = match self {
            Ty::Prim(_, q) | Ty::Tag(_, _, q) | Ty::Ptr { q, .. } | Ty::Arr { q, .. } => q,
            Ty::Fun(s) => &mut s.q,
            Ty::Custom(_) => return,
        };
        *q = if keep { *q | more } else { more };
    }

    fn pre(&self, b: &mut B, f: Flags) {
        match self {
            Ty::Prim(s, q) => {
                put(b, s);
                quals(b, *q, true, f);
            }
            Ty::Tag(t, n, q) => {
                if !f.intersects(Flags::NO_TAG_SPECIFIER | Flags::NAME_ONLY) {
                    put(b, t);
                }
                b.extend_from_slice(n);
                quals(b, *q, true, f);
            }
            Ty::Custom(n) => b.extend_from_slice(n),
            Ty::Arr { of, q, .. } => {
                of.pre(b, f);
                quals(b, *q, true, f);
            }
            Ty::Fun(s) => s.pre(b, f, false),
            Ty::Ptr { to, sigil, class, q } => {
                match &**to {
                    Ty::Fun(s) => s.pre(b, f, true),
                    t => t.pre(b, f),
                }
                space(b);
                if q & UNALIGNED != 0 && !f.contains(Flags::NO_MS_KEYWORDS) {
                    put(b, if f.contains(Flags::NO_LEADING_UNDERSCORES) { "unaligned " } else { "__unaligned " });
                }
                match &**to {
                    Ty::Arr { .. } => b.push(b'('),
                    Ty::Fun(s) => {
                        b.push(b'(');
                        if let (Some(cc), false) = (s.cc, f.intersects(Flags::NO_CALLING_CONVENTION | Flags::NO_MS_KEYWORDS)) {
                            put(b, cc_text(cc, f));
                            b.push(b' ');
                        }
                    }
                    _ => {}
                }
                if let Some(c) = class {
                    b.extend_from_slice(c);
                    put(b, "::");
                }
                put(b, sigil);
                quals(b, *q, false, f);
            }
        }
    }

    fn post(&self, b: &mut B, f: Flags) {
        match self {
            Ty::Arr { dims, of, .. } => {
                b.extend_from_slice(dims);
                of.post(b, f);
            }
            Ty::Fun(s) => s.post(b, f),
            Ty::Ptr { to, .. } => match &**to {
                Ty::Fun(s) => {
                    b.push(b')');
                    s.post(b, f);
                }
                t => {
                    if let Ty::Arr { .. } = t {
                        b.push(b')');
                    }
                    t.post(b, f);
                }
            },
            _ => {}
        }
    }

    fn text(&self, f: Flags) -> B {
        let mut b = vec![];
        self.pre(&mut b, f);
        self.post(&mut b, f);
        b
    }
}

impl Sig {
    /// `inner`: the function behind a pointer, whose convention is printed
    /// inside the parentheses
    fn pre(&self, b: &mut B, f: Flags, inner: bool) {
        let c = &self.class;
        if self.thunk {
            put(b, "[thunk]: ");
        }
        if !f.contains(Flags::NO_ACCESS_SPECIFIER) {
            put(b, ["", "private: ", "protected: ", "public: "][c.access as usize]);
        }
        if !f.contains(Flags::NO_MEMBER_TYPE) {
            if c.stat && !c.global {
                put(b, "static ");
            }
            if c.virt {
                put(b, "virtual ");
            }
            if c.extern_c {
                put(b, "extern \"C\" ");
            }
        }
        if !f.contains(Flags::NO_RETURN_TYPE) {
            if let Some(r) = &self.ret {
                r.pre(b, f);
                b.push(b' ');
            }
        }
        if !inner && !f.intersects(Flags::NO_CALLING_CONVENTION | Flags::NO_MS_KEYWORDS) {
            if let Some(cc) = self.cc {
                space(b);
                put(b, cc_text(cc, f));
            }
        }
    }

    fn adjustment(&self, b: &mut B) {
        let a = &self.adjust;
        match self.class.adj {
            1 => b.extend_from_slice(&cat(&[b"`adjustor{", &dec(a[3] as u32 as u64), b"}'"])),
            2 => b.extend_from_slice(&cat(&[b"`vtordisp{", &sdec(a[2] as i32 as i64), b", ", &dec(a[3] as u32 as u64), b"}'"])),
            3 => b.extend_from_slice(&cat(&[
                b"`vtordispex{",
                &sdec(a[0] as i32 as i64),
                b", ",
                &sdec(a[1] as i32 as i64),
                b", ",
                &sdec(a[2] as i32 as i64),
                b", ",
                &dec(a[3] as u32 as u64),
                b"}'",
            ])),
            _ => {}
        }
    }

    fn post(&self, b: &mut B, f: Flags) {
        self.adjustment(b);
        if !self.class.no_params {
            b.push(b'(');
            match &self.params {
                None => put(b, "void"),
                Some(p) => b.extend_from_slice(p),
            }
            if self.variadic {
                if !matches!(self.params.as_ref().and_then(|p| p.last()), None | Some(b'(')) {
                    put(b, ", ");
                }
                put(b, "...");
            }
            b.push(b')');
        }
        let this = !f.contains(Flags::NO_THISTYPE);
        if this {
            let ms = !f.contains(Flags::NO_MS_KEYWORDS);
            let bare = f.contains(Flags::NO_LEADING_UNDERSCORES);
            if self.q & CONST != 0 {
                put(b, " const");
            }
            if self.q & VOLATILE != 0 {
                put(b, " volatile");
            }
            if ms && self.q & RESTRICT != 0 {
                put(b, if bare { " restrict" } else { " __restrict" });
            }
            if ms && self.q & UNALIGNED != 0 {
                put(b, if bare { " unaligned" } else { " __unaligned" });
            }
        }
        if self.noexcept {
            put(b, " noexcept");
        }
        if this {
            put(b, self.refq);
        }
        if !f.contains(Flags::NO_RETURN_TYPE) {
            if let Some(r) = &self.ret {
                r.post(b, f);
            }
        }
    }
}

impl Comp {
    fn text(t: &[u8]) -> Comp {
        Comp { id: Id::Text(t.to_vec()), args: None }
    }
    fn render(&self, class: Option<&[u8]>, to: Option<&Ty>, f: Flags) -> B {
        let args = self.args.as_deref().unwrap_or(b"");
        match &self.id {
            Id::Text(t) => cat(&[t, args]),
            Id::Conv => cat(&[b"operator", args, b" ", &to.map_or(vec![], |t| t.text(f))]),
            Id::Structor(d) => cat(&[if *d { b"~" } else { b"" }, class.unwrap_or(b""), args]),
        }
    }
}

// --------------------------------------------------------------- parsing

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0xff // never occurs in UTF-8
        }
    }
    fn at(&self, k: usize) -> u8 {
        if self.i + k < self.s.len() {
            self.s[self.i + k]
        } else {
            0xff
        }
    }
    fn end(&self) -> bool {
        self.i >= self.s.len()
    }
    fn next(&mut self) -> Option<u8> {
        if self.i < self.s.len() {
            self.i += 1;
            Some(self.s[self.i - 1])
        } else {
            None
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        let r = self.peek() == c;
        if r {
            self.i += 1;
        }
        r
    }
    fn sees(&self, w: &[u8]) -> bool {
        for (k, c) in w.iter().enumerate() {
            if self.at(k) != *c {
                return false;
            }
        }
        true
    }
    fn eats(&mut self, w: &[u8]) -> bool {
        let r = self.sees(w);
        if r {
            self.i += w.len();
        }
        r
    }
    fn need(&mut self, w: &[u8]) -> Option<()> {
        if self.eats(w) {
            Some(())
        } else {
            None
        }
    }
    /// bytes up to the next `@`, which is consumed too
    fn upto_at(&mut self) -> Option<&'a [u8]> {
        let mut k = self.i;
        while k < self.s.len() {
            if self.s[k] == b'@' {
                let r = &self.s[self.i..k];
                self.i = k + 1;
                return Some(r);
            }
            k += 1;
        }
        None
    }

    // ---- numbers

    fn number(&mut self) -> Option<(u64, bool)> {
        let neg = self.eat(b'?');
        let mut c = self.next()?;
        if c.is_ascii_digit() {
            return Some(((c - b'0') as u64 + 1, neg));
        }
        let mut v = 0u64;
        while c != b'@' {
            if !(b'A'..=b'P').contains(&c) {
                return None;
            }
            if v >> 60 != 0 {
                return None;
            }
            v = (v << 4) | (c - b'A') as u64;
            c = self.next()?;
        }
        Some((v, neg))
    }
    fn unsigned(&mut self) -> Option<u64> {
        match self.number()? {
            (v, false) => Some(v),
            _ => None,
        }
    }
    fn unsigned32(&mut self) -> Option<u64> {
        self.unsigned().filter(|v| *v <= u32::MAX as u64)
    }
    fn signed(&mut self) -> Option<i64> {
        let (v, neg) = self.number()?;
        if v > i64::MAX as u64 {
            return None;
        }
        Some(if neg { -(v as i64) } else { v as i64 })
    }

    // ---- names

    /// Up to ten names can be referred back to; a name already on the list is
    /// not added again.
    fn remember(&mut self, name: &[u8]) {
        if self.names.len() < 10 && !self.names.iter().any(|n| n.1 == name) {
            self.names.push((name.to_vec(), name.to_vec()));
        }
    }
    /// Template instantiations are the same name if they are mangled alike.
    fn remember_template(&mut self, mangled: &[u8], shown: B) {
        if self.names.len() < 10 && !self.names.iter().any(|n| n.0 == mangled) {
            self.names.push((mangled.to_vec(), shown));
        }
    }
    fn simple(&mut self, keep: bool) -> Option<&'a [u8]> {
        if self.peek() == b'@' {
            return None;
        }
        let n = self.upto_at()?;
        if keep {
            self.remember(n);
        }
        Some(n)
    }
    fn backref(&mut self) -> Option<Comp> {
        let d = (self.next()? - b'0') as usize;
        for (i, n) in self.names.iter().enumerate() {
            if i == d {
                return Some(Comp::text(&n.1));
            }
        }
        None
    }

    fn type_name_piece(&mut self) -> Option<Comp> {
        if self.peek().is_ascii_digit() {
            self.backref()
        } else if self.sees(b"?$") {
            self.template(true)
        } else {
            self.simple(true).map(Comp::text)
        }
    }

    fn symbol_name_piece(&mut self) -> Option<Comp> {
        if self.peek().is_ascii_digit() {
            self.backref()
        } else if self.sees(b"?$") {
            self.template(false)
        } else if self.eat(b'?') {
            self.operator()
        } else {
            self.simple(true).map(Comp::text)
        }
    }

    fn scope_piece(&mut self) -> Option<Comp> {
        if self.peek().is_ascii_digit() {
            return self.backref();
        }
        if self.peek() != b'?' {
            return self.simple(true).map(Comp::text);
        }
        match self.at(1) {
            b'$' => self.template(true),
            b'A' => {
                let from = self.i;
                self.i += 2;
                self.upto_at()?;
                let s = self.s;
                self.remember_template(&s[from..self.i], b"`anonymous namespace'".to_vec());
                Some(Comp::text(b"`anonymous namespace'"))
            }
            _ if self.local_scope_ahead() => {
                self.i += 1;
                let n = self.unsigned()?;
                self.need(b"?")?;
                let s = self.symbol()?;
                Some(Comp { id: Id::Text(cat(&[b"`", &self.show(&s), b"'::`", &dec(n), b"'"])), args: None })
            }
            _ => self.simple(true).map(Comp::text),
        }
    }

    /// `?` number `?`, where the number is a digit, `@`, or [B-P][A-P]*@
    fn local_scope_ahead(&self) -> bool {
        let c = self.at(1);
        if c == b'@' || c.is_ascii_digit() {
            return self.at(2) == b'?';
        }
        if !(b'B'..=b'P').contains(&c) {
            return false;
        }
        let mut k = 2;
        while (b'A'..=b'P').contains(&self.at(k)) {
            k += 1;
        }
        self.at(k) == b'@' && self.at(k + 1) == b'?'
    }

    /// the rest of a scope chain; components outermost first, without the leaf
    fn scopes(&mut self) -> Option<Vec<B>> {
        let mut v = vec![];
        while !self.eat(b'@') {
            if self.end() {
                return None;
            }
            let c = self.scope_piece()?;
            v.push(c.render(None, None, self.f));
        }
        v.reverse();
        Some(v)
    }

    fn qualified(scopes: &[B], leaf: &[u8]) -> B {
        let mut b = vec![];
        for s in scopes {
            b.extend_from_slice(s);
            put(&mut b, "::");
        }
        b.extend_from_slice(leaf);
        b
    }

    fn type_name(&mut self) -> Option<B> {
        let leaf = self.type_name_piece()?.render(None, None, self.f);
        let sc = self.scopes()?;
        Some(Self::qualified(&sc, &leaf))
    }

    fn template(&mut self, scope: bool) -> Option<Comp> {
        self.i += 2;
        let start = self.i;
        let names = std::mem::take(&mut self.names);
        let types = std::mem::take(&mut self.types);
        let mut c = self.symbol_name_piece()?;
        let args = self.template_args()?;
        c.args = Some(cat(&[b"<", &args, b">"]));
        self.names = names;
        self.types = types;
        if scope {
            if !matches!(c.id, Id::Text(_)) {
                return None;
            }
            let shown = c.render(None, None, self.f);
            let s = self.s;
            self.remember_template(&s[start..self.i], shown);
        }
        Some(c)
    }

    fn template_args(&mut self) -> Option<B> {
        let mut out: B = vec![];
        let mut first = true;
        while !self.eat(b'@') {
            if self.eats(b"$S") || self.eats(b"$$V") || self.eats(b"$$$V") || self.eats(b"$$Z") {
                continue;
            }
            if self.end() {
                return None;
            }
            let auto = self.eats(b"$M");
            if auto {
                self.ty(Mode::Drop)?;
            }
            let arg = self.template_arg(auto)?;
            if !first {
                put(&mut out, ", ");
            }
            first = false;
            out.extend_from_slice(&arg);
        }
        Some(out)
    }

    fn template_arg(&mut self, auto: bool) -> Option<B> {
        if self.eats(b"$$Y") {
            return self.type_name();
        }
        if self.eats(b"$$B") {
            return Some(self.ty(Mode::Drop)?.text(self.f));
        }
        if self.eats(b"$$C") {
            return Some(self.ty(Mode::Mangle)?.text(self.f));
        }
        // non-type arguments: a kind letter, after `$` unless the type of an
        // `auto` parameter came before it
        let k = if auto {
            self.peek()
        } else if self.peek() == b'$' {
            self.at(1)
        } else {
            0xff
        };
        let skip = if auto { 1 } else { 2 };
        match k {
            b'1' | b'H' | b'I' | b'J' => {
                self.i += skip;
                let mut parts: Vec<B> = vec![];
                if self.peek() == b'?' {
                    let s = self.symbol()?;
                    let leaf = match &s {
                        Sym::Plain(_, l) => l.clone()?,
                        Sym::Var { leaf, .. } | Sym::Fun { leaf, .. } => leaf.clone(),
                    };
                    self.remember(&leaf);
                    parts.push(self.show(&s));
                }
                let n = match k {
                    b'1' => 0,
                    b'H' => 1,
                    b'I' => 2,
                    _ => 3,
                };
                if n == 0 {
                    return Some(cat(&[b"&", parts.first().map_or(b"", |p| p)]));
                }
                self.offsets(parts, n)
            }
            b'F' => {
                self.i += skip;
                self.offsets(vec![], 2)
            }
            b'G' => {
                self.i += skip;
                self.offsets(vec![], 3)
            }
            b'0' => {
                self.i += skip;
                let (v, neg) = self.number()?;
                Some(cat(&[if neg { b"-" } else { b"" }, &dec(v)]))
            }
            _ if self.sees(b"$E?") => {
                self.i += 2;
                let s = self.symbol()?;
                Some(self.show(&s))
            }
            _ => Some(self.ty(Mode::Drop)?.text(self.f)),
        }
    }

    fn offsets(&mut self, mut parts: Vec<B>, n: usize) -> Option<B> {
        for _ in 0..n {
            parts.push(sdec(self.signed()?));
        }
        let mut b = vec![b'{'];
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                put(&mut b, ", ");
            }
            b.extend_from_slice(p);
        }
        b.push(b'}');
        Some(b)
    }

    fn operator(&mut self) -> Option<Comp> {
        let text = |t: &str| Some(Comp::text(t.as_bytes()));
        if self.eats(b"__") {
            let c = self.next()?;
            if c == b'K' {
                let n = self.simple(false)?;
                return Some(Comp { id: Id::Text(cat(&[b"operator \"\"", n])), args: None });
            }
            if !c.is_ascii_digit() && !c.is_ascii_uppercase() {
                return None;
            }
            return text(match c {
                b'A' => "`managed vector ctor iterator'",
                b'B' => "`managed vector dtor iterator'",
                b'C' => "`EH vector copy ctor iterator'",
                b'D' => "`EH vector vbase copy ctor iterator'",
                b'G' => "`vector copy ctor iterator'",
                b'H' => "`vector vbase copy constructor iterator'",
                b'I' => "`managed vector vbase copy constructor iterator'",
                b'L' => "operator co_await",
                b'M' => "operator<=>",
                _ => "",
            });
        }
        let under = self.eat(b'_');
        let c = self.next()?;
        if !c.is_ascii_digit() && !c.is_ascii_uppercase() {
            return None;
        }
        if under {
            return text(match c {
                b'0' => "operator/=",
                b'1' => "operator%=",
                b'2' => "operator>>=",
                b'3' => "operator<<=",
                b'4' => "operator&=",
                b'5' => "operator|=",
                b'6' => "operator^=",
                b'D' => "`vbase dtor'",
                b'E' => "`vector deleting dtor'",
                b'F' => "`default constructor closure'",
                b'G' => "`scalar deleting dtor'",
                b'H' => "`vector ctor iterator'",
                b'I' => "`vector dtor iterator'",
                b'J' => "`vector vbase ctor iterator'",
                b'K' => "`virtual displacement map'",
                b'L' => "`eh vector ctor iterator'",
                b'M' => "`eh vector dtor iterator'",
                b'N' => "`eh vector vbase ctor iterator'",
                b'O' => "`copy ctor closure'",
                b'T' => "`local vftable ctor closure'",
                b'U' => "operator new[]",
                b'V' => "operator delete[]",
                _ => "",
            });
        }
        match c {
            b'0' => return Some(Comp { id: Id::Structor(false), args: None }),
            b'1' => return Some(Comp { id: Id::Structor(true), args: None }),
            b'B' => return Some(Comp { id: Id::Conv, args: None }),
            _ => {}
        }
        text(match c {
            b'2' => "operator new",
            b'3' => "operator delete",
            b'4' => "operator=",
            b'5' => "operator>>",
            b'6' => "operator<<",
            b'7' => "operator!",
            b'8' => "operator==",
            b'9' => "operator!=",
            b'A' => "operator[]",
            b'C' => "operator->",
            b'D' => "operator*",
            b'E' => "operator++",
            b'F' => "operator--",
            b'G' => "operator-",
            b'H' => "operator+",
            b'I' => "operator&",
            b'J' => "operator->*",
            b'K' => "operator/",
            b'L' => "operator%",
            b'M' => "operator<",
            b'N' => "operator<=",
            b'O' => "operator>",
            b'P' => "operator>=",
            b'Q' => "operator,",
            b'R' => "operator()",
            b'S' => "operator~",
            b'T' => "operator^",
            b'U' => "operator|",
            b'V' => "operator&&",
            b'W' => "operator||",
            b'X' => "operator*=",
            b'Y' => "operator+=",
            _ => "operator-=",
        })
    }

    // ---- types

    fn cv(&mut self) -> Option<(u8, bool)> {
        Some(match self.next()? {
            b'A' => (0, false),
            b'B' => (CONST, false),
            b'C' => (VOLATILE, false),
            b'D' => (CONST | VOLATILE, false),
            b'Q' => (0, true),
            b'R' => (CONST, true),
            b'S' => (VOLATILE, true),
            b'T' => (CONST | VOLATILE, true),
            _ => return None,
        })
    }

    fn ext(&mut self) -> u8 {
        let mut q = 0;
        self.eat(b'E');
        if self.eat(b'I') {
            q |= RESTRICT;
        }
        if self.eat(b'F') {
            q |= UNALIGNED;
        }
        q
    }

    fn ty(&mut self, m: Mode) -> Option<Ty> {
        let q = match m {
            Mode::Mangle => self.cv()?.0,
            Mode::Result if self.eat(b'?') => self.cv()?.0,
            _ => 0,
        };
        let mut t = self.bare_ty()?;
        t.add(q, true);
        Some(t)
    }

    fn bare_ty(&mut self) -> Option<Ty> {
        let c = self.peek();
        match c {
            b'T' | b'U' | b'V' | b'W' => {
                self.i += 1;
                let tag = match c {
                    b'T' => "union ",
                    b'U' => "struct ",
                    b'V' => "class ",
                    _ => {
                        self.need(b"4")?;
                        "enum "
                    }
                };
                Some(Ty::Tag(tag, self.type_name()?, 0))
            }
            b'A' | b'P' | b'Q' | b'R' | b'S' => {
                self.i += 1;
                let (q, sigil) = match c {
                    b'A' => (0, "&"),
                    b'P' => (0, "*"),
                    b'Q' => (CONST, "*"),
                    b'R' => (VOLATILE, "*"),
                    _ => (CONST | VOLATILE, "*"),
                };
                self.pointer(q, sigil)
            }
            b'$' => {
                if self.eats(b"$$Q") {
                    self.pointer(0, "&&")
                } else if self.eats(b"$$A8@@") {
                    Some(Ty::Fun(Box::new(self.function(true)?)))
                } else if self.eats(b"$$A6") {
                    Some(Ty::Fun(Box::new(self.function(false)?)))
                } else if self.eats(b"$$T") {
                    Some(Ty::Prim("std::nullptr_t", 0))
                } else {
                    None
                }
            }
            b'Y' => {
                self.i += 1;
                self.array()
            }
            b'?' => {
                self.i += 1;
                let n = self.type_name_piece()?.render(None, None, self.f);
                self.need(b"@")?;
                Some(Ty::Custom(n))
            }
            _ => {
                let c = self.next()?;
                Some(Ty::Prim(
                    if c == b'_' {
                        match self.next()? {
                            b'N' => "bool",
                            b'J' => "__int64",
                            b'K' => "unsigned __int64",
                            b'W' => "wchar_t",
                            b'Q' => "char8_t",
                            b'S' => "char16_t",
                            b'U' => "char32_t",
                            b'P' => "auto",
                            b'T' => "decltype(auto)",
                            _ => return None,
                        }
                    } else {
                        match c {
                            b'X' => "void",
                            b'D' => "char",
                            b'C' => "signed char",
                            b'E' => "unsigned char",
                            b'F' => "short",
                            b'G' => "unsigned short",
                            b'H' => "int",
                            b'I' => "unsigned int",
                            b'J' => "long",
                            b'K' => "unsigned long",
                            b'M' => "float",
                            b'N' => "double",
                            b'O' => "long double",
                            _ => return None,
                        }
                    },
                    0,
                ))
            }
        }
    }

    fn pointer(&mut self, mut q: u8, sigil: &'static str) -> Option<Ty> {
        let can_be_member = sigil == "*";
        if self.eat(b'6') {
            let s = self.function(false)?;
            return Some(Ty::Ptr { to: Box::new(Ty::Fun(Box::new(s))), sigil, class: None, q });
        }
        if can_be_member && self.eat(b'8') {
            let class = self.type_name()?;
            let s = self.function(true)?;
            return Some(Ty::Ptr { to: Box::new(Ty::Fun(Box::new(s))), sigil, class: Some(class), q });
        }
        q |= self.ext();
        let (pq, member) = self.cv()?;
        if member && can_be_member {
            let class = self.type_name()?;
            let mut t = self.ty(Mode::Drop)?;
            t.add(pq, false);
            return Some(Ty::Ptr { to: Box::new(t), sigil, class: Some(class), q });
        }
        let mut t = self.ty(Mode::Drop)?;
        t.add(pq, true);
        Some(Ty::Ptr { to: Box::new(t), sigil, class: None, q })
    }

    fn array(&mut self) -> Option<Ty> {
        let rank = self.unsigned()?;
        if rank == 0 {
            return None;
        }
        let mut dims = vec![b'['];
        for i in 0..rank {
            let n = self.unsigned()?;
            if i > 0 {
                put(&mut dims, "][");
            }
            if n != 0 {
                dims.extend_from_slice(&dec(n));
            }
        }
        dims.push(b']');
        let mut q = 0;
        if self.eats(b"$$C") {
            match self.cv()? {
                (c, false) => q = c,
                _ => return None,
            }
        }
        let of = Box::new(self.ty(Mode::Drop)?);
        Some(Ty::Arr { dims, of, q })
    }

    fn cc(&mut self) -> Option<Option<(&'static str, &'static str)>> {
        Some(Some(match self.next()? {
            b'A' | b'B' => ("__cdecl", "cdecl"),
            b'C' | b'D' => ("__pascal", "pascal"),
            b'E' | b'F' => ("__thiscall", "thiscall"),
            b'G' | b'H' => ("__stdcall", "stdcall"),
            b'I' | b'J' => ("__fastcall", "fastcall"),
            b'M' | b'N' => ("__clrcall", "clrcall"),
            b'O' | b'P' => ("__eabi", "eabi"),
            b'Q' => ("__vectorcall", "vectorcall"),
            b'S' => ("__attribute__((__swiftcall__)) ", "__attribute__((__swiftcall__)) "),
            b'W' => ("__attribute__((__swiftasynccall__)) ", "__attribute__((__swiftasynccall__)) "),
            c => {
                // an unknown convention is not printed; the scheme is by
                // character, so the rest of a longer one goes with it
                if c >= 0xc0 {
                    while (0x80..0xc0).contains(&self.peek()) {
                        self.i += 1;
                    }
                }
                return Some(None);
            }
        }))
    }

    fn function(&mut self, member: bool) -> Option<Sig> {
        let mut s = Sig { class: Class { global: true, ..Class::default() }, ..Sig::default() };
        if member {
            s.q = self.ext();
            if self.eat(b'G') {
                s.refq = " &";
            } else if self.eat(b'H') {
                s.refq = " &&";
            }
            s.q |= self.cv()?.0;
        }
        s.cc = self.cc()?;
        if !self.eat(b'@') {
            s.ret = Some(self.ty(Mode::Result)?);
        }
        if !self.eat(b'X') {
            let mut out: B = vec![];
            let mut first = true;
            loop {
                let c = self.peek();
                if c == b'@' || c == b'Z' {
                    break;
                }
                let t = if c.is_ascii_digit() {
                    self.i += 1;
                    self.types.get((c - b'0') as usize)?.clone()
                } else {
                    let from = self.i;
                    let t = self.ty(Mode::Drop)?.text(self.f);
                    if self.i - from > 1 && self.types.len() < 10 {
                        self.types.push(t.clone());
                    }
                    t
                };
                if !first {
                    put(&mut out, ", ");
                }
                first = false;
                out.extend_from_slice(&t);
            }
            s.variadic = self.next()? == b'Z';
            s.params = Some(out);
        }
        if self.eats(b"_E") {
            s.noexcept = true;
        } else {
            self.need(b"Z")?;
        }
        Some(s)
    }

    // ---- symbols

    fn show(&self, s: &Sym) -> B {
        match s {
            Sym::Plain(t, _) => t.clone(),
            Sym::Var { text, .. } => text.clone(),
            Sym::Fun { name, sig, .. } => {
                let mut b = vec![];
                if self.f.contains(Flags::NAME_ONLY) {
                    b.extend_from_slice(name);
                    sig.adjustment(&mut b);
                } else {
                    sig.pre(&mut b, self.f, false);
                    space(&mut b);
                    b.extend_from_slice(name);
                    sig.post(&mut b, self.f);
                }
                b
            }
        }
    }

    fn symbol(&mut self) -> Option<Sym> {
        if self.eat(b'.') {
            let t = self.ty(Mode::Result)?;
            if !self.end() {
                return None;
            }
            let mut b = t.text(self.f);
            if !self.f.contains(Flags::NAME_ONLY) {
                space(&mut b);
                put(&mut b, "`RTTI Type Descriptor Name'");
            }
            return Some(Sym::Plain(b, None));
        }
        if self.sees(b"??@") {
            let from = self.i;
            self.i += 3;
            self.upto_at()?;
            self.eats(b"??_R4@");
            let t = self.s[from..self.i].to_vec();
            return Some(Sym::Plain(t.clone(), Some(t)));
        }
        self.need(b"?")?;
        if self.sees(b"?_") {
            let c = self.at(2);
            match c {
                b'7' | b'8' | b'S' => {
                    self.i += 3;
                    return self.table(match c {
                        b'7' => b"`vftable'",
                        b'8' => b"`vbtable'",
                        _ => b"`local vftable'",
                    });
                }
                b'9' => {
                    self.i += 3;
                    return self.vcall();
                }
                b'A' | b'P' => return None,
                b'B' => {
                    self.i += 3;
                    return self.guard(b"`local static guard'");
                }
                b'C' => {
                    self.i += 3;
                    return self.string();
                }
                b'R' => match self.at(3) {
                    b'0' => {
                        self.i += 4;
                        let t = self.ty(Mode::Result)?;
                        self.need(b"@8")?;
                        if !self.end() {
                            return None;
                        }
                        let n = b"`RTTI Type Descriptor'";
                        return Some(Sym::Var { text: self.var_text(0, Some(&t), n), leaf: n.to_vec() });
                    }
                    b'1' => {
                        self.i += 4;
                        let nv = self.unsigned32()?;
                        let vb = self.signed()?;
                        if vb < i32::MIN as i64 || vb > i32::MAX as i64 {
                            return None;
                        }
                        let vt = self.unsigned32()?;
                        let fl = self.unsigned32()?;
                        let n = cat(&[b"`RTTI Base Class Descriptor at (", &dec(nv), b", ", &sdec(vb), b", ", &dec(vt), b", ", &dec(fl), b")'"]);
                        return self.untyped(n);
                    }
                    b'2' => {
                        self.i += 4;
                        return self.untyped(b"`RTTI Base Class Array'".to_vec());
                    }
                    b'3' => {
                        self.i += 4;
                        return self.untyped(b"`RTTI Class Hierarchy Descriptor'".to_vec());
                    }
                    b'4' => {
                        self.i += 4;
                        return self.table(b"`RTTI Complete Object Locator'");
                    }
                    _ => {}
                },
                b'_' => match self.at(3) {
                    b'E' => {
                        self.i += 4;
                        return self.init_stub(b"`dynamic initializer for ");
                    }
                    b'F' => {
                        self.i += 4;
                        return self.init_stub(b"`dynamic atexit destructor for ");
                    }
                    b'J' => {
                        self.i += 4;
                        return self.guard(b"`local static thread guard'");
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        self.declarator()
    }

    fn var_text(&self, sc: u8, t: Option<&Ty>, name: &[u8]) -> B {
        let mut b = vec![];
        let short = self.f.contains(Flags::NAME_ONLY);
        if sc != 0 && !short {
            if !self.f.contains(Flags::NO_ACCESS_SPECIFIER) {
                put(&mut b, ["", "private: ", "protected: ", "public: "][sc as usize]);
            }
            if !self.f.contains(Flags::NO_MEMBER_TYPE) {
                put(&mut b, "static ");
            }
        }
        let t = if short || self.f.contains(Flags::NO_VARIABLE_TYPE) { None } else { t };
        if let Some(t) = t {
            t.pre(&mut b, self.f);
            space(&mut b);
        }
        b.extend_from_slice(name);
        if let Some(t) = t {
            t.post(&mut b, self.f);
        }
        b
    }

    fn declarator(&mut self) -> Option<Sym> {
        let leaf = self.symbol_name_piece()?;
        let sc = self.scopes()?;
        let class = sc.last().map(|c| c.as_slice());
        if matches!(leaf.id, Id::Structor(_)) && class.is_none() {
            return None;
        }
        let c = self.peek();
        if (b'0'..=b'4').contains(&c) {
            self.i += 1;
            let t = self.var_type()?;
            if matches!(leaf.id, Id::Conv) {
                return None;
            }
            let l = leaf.render(class, None, self.f);
            let name = Self::qualified(&sc, &l);
            let acc = match c {
                b'0' => 1,
                b'1' => 2,
                b'2' => 3,
                _ => 0,
            };
            return Some(Sym::Var { text: self.var_text(acc, Some(&t), &name), leaf: l });
        }
        let sig = self.encoding()?;
        if matches!(leaf.id, Id::Conv) && sig.ret.is_none() {
            return None;
        }
        let l = leaf.render(class, sig.ret.as_ref(), self.f);
        Some(Sym::Fun { name: Self::qualified(&sc, &l), leaf: l, sig })
    }

    fn var_type(&mut self) -> Option<Ty> {
        let mut t = self.ty(Mode::Drop)?;
        if let Ty::Ptr { q, to, class, .. } = &mut t {
            *q |= self.ext();
            let more = self.cv()?.0;
            if class.is_some() {
                self.type_name()?;
            }
            to.add(more, true);
        } else {
            let q = self.cv()?.0;
            t.add(q, false);
        }
        Some(t)
    }

    fn encoding(&mut self) -> Option<Sig> {
        let extern_c = self.eats(b"$$J0");
        let mut k = Class::default();
        let c = self.next()?;
        match c {
            b'9' => {
                k.extern_c = true;
                k.no_params = true;
            }
            b'A'..=b'X' => {
                let n = c - b'A';
                k.access = n / 8 + 1;
                match n % 8 / 2 {
                    1 => k.stat = true,
                    2 => k.virt = true,
                    3 => {
                        k.adj = 1;
                        // the private form is not marked virtual
                        k.virt = k.access != 1;
                    }
                    _ => {}
                }
            }
            b'Y' | b'Z' => k.global = true,
            b'$' => {
                k.adj = if self.eat(b'R') { 3 } else { 2 };
                k.virt = true;
                k.access = match self.next()? {
                    b'0' | b'1' => 1,
                    b'2' | b'3' => 2,
                    b'4' | b'5' => 3,
                    _ => return None,
                };
            }
            _ => return None,
        }
        k.extern_c |= extern_c;
        let mut adjust = [0i64; 4];
        if k.adj == 3 {
            adjust[0] = self.signed()?;
            adjust[1] = self.signed()?;
        }
        if k.adj >= 2 {
            adjust[2] = self.signed()?;
        }
        if k.adj >= 1 {
            adjust[3] = self.signed()?;
        }
        let mut s = if k.no_params { Sig::default() } else { self.function(!(k.global || k.stat))? };
        s.class = k;
        s.thunk = k.adj != 0;
        s.adjust = adjust;
        Some(s)
    }

    fn table(&mut self, what: &[u8]) -> Option<Sym> {
        let sc = self.scopes()?;
        if !self.eat(b'6') {
            self.need(b"7")?;
        }
        let (q, _) = self.cv()?;
        let mut b = vec![];
        if !self.f.contains(Flags::NAME_ONLY) {
            quals(&mut b, q, false, self.f);
            if !b.is_empty() {
                b.push(b' ');
            }
        }
        b.extend_from_slice(&Self::qualified(&sc, what));
        if !self.eat(b'@') {
            let t = self.type_name()?;
            b.extend_from_slice(&cat(&[b"{for `", &t, b"'}"]));
        }
        Some(Sym::Plain(b, Some(what.to_vec())))
    }

    fn guard(&mut self, what: &[u8]) -> Option<Sym> {
        let sc = self.scopes()?;
        if !self.eats(b"4IA") {
            self.need(b"5")?;
        }
        let mut leaf = what.to_vec();
        if !self.end() {
            let n = self.unsigned32()?;
            if n > 0 {
                leaf = cat(&[what, b"{", &dec(n), b"}"]);
            }
        }
        Some(Sym::Plain(Self::qualified(&sc, &leaf), Some(leaf)))
    }

    fn untyped(&mut self, what: B) -> Option<Sym> {
        let sc = self.scopes()?;
        self.need(b"8")?;
        Some(Sym::Var { text: Self::qualified(&sc, &what), leaf: what })
    }

    fn vcall(&mut self) -> Option<Sym> {
        let sc = self.scopes()?;
        self.need(b"$B")?;
        let n = self.unsigned()?;
        self.need(b"A")?;
        let cc = self.cc()?;
        let leaf = cat(&[b"`vcall'{", &dec(n), if self.f.contains(Flags::NAME_ONLY) { b"" } else { b", {flat}" }, b"}"]);
        let sig = Sig { class: Class { no_params: true, ..Class::default() }, cc, thunk: true, ..Sig::default() };
        Some(Sym::Fun { name: Self::qualified(&sc, &leaf), leaf, sig })
    }

    fn init_stub(&mut self, what: &[u8]) -> Option<Sym> {
        let member = self.eat(b'?');
        match self.declarator()? {
            Sym::Var { text, .. } => {
                self.need(if member { b"@@" } else { b"@" })?;
                let sig = self.encoding()?;
                let name = cat(&[what, b"`", &text, b"''"]);
                Some(Sym::Fun { name: name.clone(), leaf: name, sig })
            }
            Sym::Fun { name, sig, .. } if !member => {
                let name = cat(&[what, b"'", &name, b"''"]);
                Some(Sym::Fun { name: name.clone(), leaf: name, sig })
            }
            _ => None,
        }
    }

    // ---- string literals

    fn char_byte(&mut self) -> Option<u8> {
        let c = self.next()?;
        if c >= 0x80 {
            // characters up to U+00FF stand for themselves
            let d = self.next()?;
            if c > 0xc3 {
                return None;
            }
            return Some((c & 3) << 6 | (d & 0x3f));
        }
        if c != b'?' {
            return Some(c);
        }
        let c = self.next()?;
        match c {
            b'$' => {
                let (h, l) = (self.next()?, self.next()?);
                if (b'A'..=b'P').contains(&h) && (b'A'..=b'P').contains(&l) {
                    Some((h - b'A') << 4 | (l - b'A'))
                } else {
                    None
                }
            }
            b'0' => Some(b','),
            b'1' => Some(b'/'),
            b'2' => Some(b'\\'),
            b'3' => Some(b':'),
            b'4' => Some(b'.'),
            b'5' => Some(b' '),
            b'6' => Some(b'\n'),
            b'7' => Some(b'\t'),
            b'8' => Some(b'\''),
            b'9' => Some(b'-'),
            b'a'..=b'z' | b'A'..=b'Z' => Some(c | 0x80),
            _ => None,
        }
    }

    fn string(&mut self) -> Option<Sym> {
        self.need(b"@_")?;
        let wide = match self.next()? {
            b'0' => false,
            b'1' => true,
            _ => return None,
        };
        let total = self.unsigned()?;
        if total < if wide { 2 } else { 1 } {
            return None;
        }
        self.upto_at()?; // CRC
        if self.end() {
            return None;
        }
        let mut units: Vec<u32> = vec![];
        let (prefix, cut, complete): (&[u8], bool, usize);
        if wide {
            while !self.eat(b'@') {
                let (h, l) = (self.char_byte()?, self.char_byte()?);
                units.push((h as u32) << 8 | l as u32);
            }
            prefix = b"L\"";
            cut = total > 64;
            // the terminator, where the length says it is, is not shown
            let last = total.div_ceil(2) as usize;
            complete = if cut || total % 2 == 1 { usize::MAX } else { last };
        } else {
            let mut bytes: B = vec![];
            while !self.eat(b'@') {
                if bytes.len() == 128 {
                    return None;
                }
                bytes.push(self.char_byte()?);
            }
            let n = bytes.len();
            cut = total > n as u64;
            let mut w = 1;
            if total % 2 == 0 {
                if total < 32 {
                    let mut zeros = 0;
                    while zeros < n && zeros < 4 && bytes[n - 1 - zeros] == 0 {
                        zeros += 1;
                    }
                    if zeros >= 4 && total % 4 == 0 {
                        w = 4;
                    } else if zeros >= 2 {
                        w = 2;
                    }
                } else {
                    let zeros = bytes.iter().filter(|b| **b == 0).count();
                    if zeros >= 2 * n / 3 && total % 4 == 0 {
                        w = 4;
                    } else if zeros >= n / 3 {
                        w = 2;
                    }
                }
            }
            for u in bytes.chunks_exact(w) {
                let mut v = 0u32;
                for (k, b) in u.iter().enumerate() {
                    v |= (*b as u32) << (8 * k);
                }
                units.push(v);
            }
            prefix = match w {
                1 => b"\"",
                2 => b"u\"",
                _ => b"U\"",
            };
            complete = if cut { usize::MAX } else { units.len() };
        }
        let mut b = prefix.to_vec();
        for (k, u) in units.iter().enumerate() {
            if k + 1 == complete {
                continue;
            }
            escape(&mut b, *u);
        }
        b.push(b'"');
        if cut {
            put(&mut b, "...");
        }
        Some(Sym::Plain(b, None))
    }
}

fn escape(b: &mut B, u: u32) {
    let e = match u {
        0 => b'0',
        7 => b'a',
        8 => b'b',
        9 => b't',
        10 => b'n',
        11 => b'v',
        12 => b'f',
        13 => b'r',
        0x22 | 0x27 | 0x5c => u as u8,
        0x20..=0x7e => {
            b.push(u as u8);
            return;
        }
        _ => {
            put(b, "\\x");
            let mut shift = 28;
            while shift > 4 && u >> shift == 0 {
                shift -= 4;
            }
            loop {
                b.push(b"0123456789ABCDEF"[(u >> shift & 15) as usize]);
                if shift == 0 {
                    return;
                }
                shift -= 4;
            }
        }
    };
    b.push(b'\\');
    b.push(e);
}

/// The demangled text of `s`, or `None` if it is not a mangled name.
pub fn demangle(s: &[u8], f: Flags) -> Option<Vec<u8>> {
    let mut p = P { s, i: 0, f, names: vec![], types: vec![] };
    let sym = p.symbol()?;
    Some(p.show(&sym))
}
