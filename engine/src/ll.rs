//! Textual LLVM IR reader.  Function bodies are decoded lazily.
use crate::ex::{mask_w, Map, V};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    /// store size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.alloc(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.alloc();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn alloc(&self) -> u64 {
        let a = self.align();
        (self.size() + a - 1) / a * a
    }
    /// offset and type of an aggregate member
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.alloc(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.alloc();
                }
                panic!("bad field index")
            }
            _ => panic!("field of scalar {:?}", self),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(fs, _) => fs.len() as u64,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opd),
    Intr(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub tys: Vec<Ty>,
    pub ret: Ty,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opd, Opd, u32),
    Cmp(Pred, Ty, Opd, Opd, u32),
    Cast(CastOp, Ty, Ty, Opd, u32),
    Select(Ty, Opd, Opd, Opd, u32, bool),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Alloca(u64, u32),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<Opd>),
    Unreachable,
    ExtractV(Opd, Vec<u32>, u32),
    InsertV(Ty, Opd, Opd, Vec<u32>, u32),
    ExtractE(Opd, Opd, u32),
    InsertE(Ty, Opd, Opd, Opd, u32),
    Shuffle(Opd, Opd, Vec<u32>, u32),
    Rmw(String, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Copy(Opd, u32),
    Nop,
    Bad(String),
}

pub struct Block {
    pub insts: Vec<Inst>,
    pub preds: Vec<u32>,
    pub phis: Vec<Vec<(u32, Opd)>>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    pub blocks: Vec<Block>,
    pub idx: u32,
}

pub struct FnInfo {
    pub name: String,
    pub lines: Option<(usize, usize)>,
    pub body: RefCell<Option<Rc<Func>>>,
}

pub struct GVar {
    pub name: String,
    pub text: (usize, usize),
    pub konst: bool,
    pub init: RefCell<Option<Rc<Vec<u8>>>>,
    pub external: bool,
}

pub struct Module {
    pub src: String,
    pub lines: Vec<(u32, u32)>,
    pub funcs: Vec<FnInfo>,
    pub fmap: Map<String, u32>,
    pub gvars: Vec<GVar>,
    pub gmap: Map<String, u32>,
    pub aliases: Map<String, String>,
    pub types: RefCell<Map<String, Ty>>,
    pub type_src: Map<String, (usize, usize)>,
    pub rel: RefCell<Vec<u64>>,
}

pub const REL_TOKEN: u64 = 0x4A00_0000;

pub const FN_BASE: u64 = 0x0100_0000;
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x2000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Id(&'a str),
    Num(&'a str),
    Str(&'a str),
    Meta(&'a str),
    P(u8),
    End,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(m: &'a Module, s: &'a str) -> Lx<'a> {
        Lx { s: s.as_bytes(), i: 0, m }
    }
    fn st(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.i >= self.s.len() {
            return T::End;
        }
        let c = self.s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let a;
                let b;
                if self.i < self.s.len() && self.s[self.i] == b'"' {
                    self.i += 1;
                    a = self.i;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    b = self.i;
                    self.i += 1;
                } else {
                    a = self.i;
                    while self.i < self.s.len() && idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    b = self.i;
                }
                if c == b'%' {
                    T::Local(self.st(a, b))
                } else {
                    T::Global(self.st(a, b))
                }
            }
            b'!' | b'#' => {
                self.i += 1;
                while self.i < self.s.len() && (idc(self.s[self.i])) {
                    self.i += 1;
                }
                T::Meta(self.st(st, self.i))
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let a = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::Str(self.st(a, self.i - 1))
            }
            b'"' => {
                self.i += 1;
                let a = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::Id(self.st(a, self.i - 1))
            }
            b'-' | b'0'..=b'9' => {
                self.i += 1;
                while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                T::Num(self.st(st, self.i))
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                while self.i < self.s.len() && idc(self.s[self.i]) {
                    self.i += 1;
                }
                if &self.s[st..self.i] == b"..." {}
                T::Id(self.st(st, self.i))
            }
            b'.' => {
                while self.i < self.s.len() && self.s[self.i] == b'.' {
                    self.i += 1;
                }
                T::Id("...")
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn is(&mut self, c: u8) -> bool {
        if self.peek() == T::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        assert!(t == T::P(c), "expected {:?} got {:?} near {}", c as char, t, self.ctx());
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).into_owned()
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => panic!("unbalanced parens"),
                _ => {}
            }
        }
    }
    fn ty_start(&mut self) -> bool {
        match self.peek() {
            T::Id(s) => {
                matches!(s, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => Ty::Ptr,
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("metadata") | T::Id("label") | T::Id("token") => Ty::Meta,
            T::Id("opaque") => Ty::Void,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s} near {}", self.ctx()))),
            T::P(b'{') => {
                let f = self.fields(b'}');
                Ty::Struct(Rc::new(f), false)
            }
            T::P(b'<') => {
                if self.is(b'{') {
                    let f = self.fields(b'}');
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    assert!(self.next() == T::Id("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P(b'[') => {
                let n = self.num();
                assert!(self.next() == T::Id("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::Local(n) => self.m.named(n),
            t => panic!("type: {:?} near {}", t, self.ctx()),
        }
    }
    fn fields(&mut self, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.is(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.is(close) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            T::Num(s) => s.parse().unwrap(),
            t => panic!("num: {:?} near {}", t, self.ctx()),
        }
    }

    /// constant of the given type, as a value
    fn konst(&mut self, ty: &Ty) -> V {
        let t = self.next();
        self.konst_tok(ty, t)
    }
    fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                V::A(Rc::new((0..ty.nfields()).map(|i| self.zero(&ty.field(i).1)).collect()))
            }
            _ => V::I(0),
        }
    }
    fn konst_tok(&mut self, ty: &Ty, t: T<'a>) -> V {
        match t {
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    let neg = s.starts_with('-');
                    let mag: u128 = s.trim_start_matches('-').parse().unwrap_or_else(|_| panic!("num {s}"));
                    let v = if neg { mag.wrapping_neg() } else { mag };
                    if *w <= 64 {
                        V::I(v as u64 & mask_w(*w))
                    } else {
                        V::W(Rc::new(v & (!0u128 >> (128 - w))))
                    }
                }
                _ => V::I(0), // floating constants are not interpreted
            },
            T::Id("true") => V::I(1),
            T::Id("false") => V::I(0),
            T::Id("null") | T::Id("none") => V::I(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") => self.zero(ty),
            T::Global(n) => V::I(self.m.addr_of(n)),
            T::Str(s) => {
                let b = unescape(s);
                V::A(Rc::new(b.into_iter().map(|x| V::I(x as u64)).collect()))
            }
            T::Id("splat") => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(b')');
                V::A(Rc::new(vec![v; ty.nfields() as usize]))
            }
            T::P(b'[') | T::P(b'{') => {
                let close = if t == T::P(b'[') { b']' } else { b'}' };
                self.agg(close)
            }
            T::P(b'<') => {
                if self.is(b'{') {
                    let v = self.agg(b'}');
                    self.expect(b'>');
                    v
                } else {
                    self.agg(b'>')
                }
            }
            T::Id("getelementptr") => {
                loop {
                    match self.peek() {
                        T::Id("inrange") => {
                            self.next();
                            self.skip_parens();
                        }
                        T::Id(_) => {
                            self.next();
                        }
                        _ => break,
                    }
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = match self.konst(&pt) {
                    V::I(b) => b,
                    _ => panic!(),
                };
                let mut off = 0u64;
                let mut cur = t;
                let mut first = true;
                while self.is(b',') {
                    let it = self.ty();
                    let k = match self.konst(&it) {
                        V::I(k) => crate::ex::sx(k, it.bits()) as u64,
                        _ => panic!(),
                    };
                    if first {
                        off = off.wrapping_add(k.wrapping_mul(cur.alloc()));
                        first = false;
                    } else {
                        let (o, f) = cur.field(k);
                        off = off.wrapping_add(o);
                        cur = f;
                    }
                }
                self.expect(b')');
                V::I(base.wrapping_add(off))
            }
            T::Id(op @ ("ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc")) => {
                self.expect(b'(');
                let t = self.ty();
                if op == "trunc" {
                    // `trunc (sub (ptrtoint A), (ptrtoint B))`: entry of a relative lookup table.
                    // Objects are 2^32 apart here, so the entry is kept symbolically as a token.
                    let save = self.i;
                    if let (T::Id("sub"), true) = (self.next(), true) {
                        self.i = save;
                        let src = self.sub_lhs();
                        assert!(self.next() == T::Id("to"));
                        let _to = self.ty();
                        self.expect(b')');
                        let mut rel = self.m.rel.borrow_mut();
                        let k = match rel.iter().position(|a| *a == src) {
                            Some(k) => k,
                            None => {
                                rel.push(src);
                                rel.len() - 1
                            }
                        };
                        return V::I(REL_TOKEN + k as u64);
                    }
                    self.i = save;
                }
                let v = self.konst(&t);
                assert!(self.next() == T::Id("to"));
                let to = self.ty();
                self.expect(b')');
                match v {
                    V::I(x) => V::I(x & mask_w(to.bits())),
                    v => v,
                }
            }
            T::Id(op @ ("sub" | "add" | "xor" | "and" | "or")) => {
                while let T::Id(_) = self.peek() {
                    self.next();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.konst(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.konst(&t2);
                self.expect(b')');
                match (a, b) {
                    (V::I(a), V::I(b)) => V::I(
                        match op {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        } & mask_w(t.bits()),
                    ),
                    _ => panic!("const op"),
                }
            }
            T::Id("asm") => V::I(0),
            t => panic!("constant: {:?} near {}", t, self.ctx()),
        }
    }
    /// `sub [flags] (T A, T B)`: returns A
    fn sub_lhs(&mut self) -> u64 {
        while let T::Id(_) = self.peek() {
            self.next();
        }
        self.expect(b'(');
        let t = self.ty();
        let a = self.konst(&t);
        self.expect(b',');
        let t2 = self.ty();
        let _ = self.konst(&t2);
        self.expect(b')');
        match a {
            V::I(a) => a,
            _ => panic!("relative table entry"),
        }
    }
    fn agg(&mut self, close: u8) -> V {
        let mut v = vec![];
        if self.is(close) {
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.is(close) {
                return V::A(Rc::new(v));
            }
            self.expect(b',');
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn write_const(v: &V, ty: &Ty, out: &mut [u8]) {
    match (v, ty) {
        (V::A(xs), _) => {
            for (i, x) in xs.iter().enumerate() {
                let (o, t) = ty.field(i as u64);
                let n = t.size() as usize;
                write_const(x, &t, &mut out[o as usize..o as usize + n]);
            }
        }
        (V::I(k), _) => {
            let n = ty.size() as usize;
            out[..n].copy_from_slice(&(*k as u128).to_le_bytes()[..n]);
        }
        (V::W(k), _) => {
            let n = ty.size() as usize;
            out[..n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
        _ => panic!(),
    }
}

fn quoted_or_plain(s: &str) -> &str {
    // name after '@' or '%'
    if let Some(r) = s.strip_prefix('"') {
        &r[..r.find('"').unwrap()]
    } else {
        let e = s.bytes().position(|c| !idc(c)).unwrap_or(s.len());
        &s[..e]
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).expect("read module");
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in src.bytes().enumerate() {
            if c == b'\n' {
                lines.push((st as u32, i as u32));
                st = i + 1;
            }
        }
        let mut m = Module {
            src: String::new(),
            lines: vec![],
            funcs: vec![],
            fmap: Map::default(),
            gvars: vec![],
            gmap: Map::default(),
            aliases: Map::default(),
            types: RefCell::new(Map::default()),
            type_src: Map::default(),
            rel: RefCell::new(vec![]),
        };
        let mut i = 0;
        while i < lines.len() {
            let (a, b) = (lines[i].0 as usize, lines[i].1 as usize);
            let l = &src[a..b];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let def = l.starts_with("define ");
                let at = l.find('@').unwrap();
                let name = quoted_or_plain(&l[at + 1..]).to_string();
                let start = i;
                if def {
                    while &src[lines[i].0 as usize..lines[i].1 as usize] != "}" {
                        i += 1;
                    }
                }
                m.fmap.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FnInfo { name, lines: if def { Some((start, i)) } else { None }, body: RefCell::new(None) });
            } else if l.starts_with('@') {
                let name = quoted_or_plain(&l[1..]).to_string();
                let rest = l.find(" = ").unwrap() + 3;
                let r = &l[rest..];
                if let Some(p) = r.find("alias ") {
                    if p < 80 && !r[..p].contains("global") && !r[..p].contains("constant") {
                        let at = r.rfind('@').unwrap();
                        m.aliases.insert(name, quoted_or_plain(&r[at + 1..]).to_string());
                        i += 1;
                        continue;
                    }
                }
                let g = r.find("global ").unwrap_or(usize::MAX);
                let c = r.find("constant ").unwrap_or(usize::MAX);
                let (p, k) = if c < g { (c + 9, true) } else { (g + 7, false) };
                let external = r[..p].split(' ').any(|w| w == "external" || w == "extern_weak");
                m.gmap.insert(name.clone(), m.gvars.len() as u32);
                m.gvars.push(GVar { name, text: (a + rest + p, b), konst: k, init: RefCell::new(None), external });
            } else if l.starts_with('%') {
                let name = quoted_or_plain(&l[1..]).to_string();
                let p = l.find("type ").unwrap() + 5;
                m.type_src.insert(name, (a + p, b));
            }
            i += 1;
        }
        m.src = src;
        m.lines = lines;
        m
    }

    fn named(&self, n: &str) -> Ty {
        if let Some(t) = self.types.borrow().get(n) {
            return t.clone();
        }
        let (a, b) = *self.type_src.get(n).unwrap_or_else(|| panic!("unknown type %{n}"));
        let t = Lx::new(self, &self.src[a..b]).ty();
        self.types.borrow_mut().insert(n.to_string(), t.clone());
        t
    }

    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(a);
        }
        if let Some(i) = self.gmap.get(n) {
            return (1 + *i as u64) << 32;
        }
        if let Some(i) = self.fmap.get(n) {
            return (FN_BASE + *i as u64) << 32;
        }
        panic!("unknown global @{n}")
    }

    pub fn global_init(&self, i: u32) -> Rc<Vec<u8>> {
        let g = &self.gvars[i as usize];
        if let Some(x) = &*g.init.borrow() {
            return x.clone();
        }
        let mut lx = Lx::new(self, &self.src[g.text.0..g.text.1]);
        let ty = lx.ty();
        let mut out = vec![0u8; ty.alloc() as usize];
        if !g.external {
            let v = lx.konst(&ty);
            write_const(&v, &ty, &mut out);
        }
        let r = Rc::new(out);
        *g.init.borrow_mut() = Some(r.clone());
        r
    }

    pub fn func(&self, idx: u32) -> Option<Rc<Func>> {
        let f = &self.funcs[idx as usize];
        if let Some(b) = &*f.body.borrow() {
            return Some(b.clone());
        }
        let (a, b) = f.lines?;
        let text = &self.src[self.lines[a].0 as usize..self.lines[b].1 as usize];
        let body = Rc::new(self.decode(text, &f.name, idx));
        *f.body.borrow_mut() = Some(body.clone());
        Some(body)
    }

    fn decode(&self, text: &str, name: &str, idx: u32) -> Func {
        let mut d = Dec { lx: Lx::new(self, text), regs: Map::default(), blocks: Map::default(), nblocks: 0, void: 0 };
        // header
        d.lx.next(); // define
        d.skip_attrs_to_type();
        let _ret = d.lx.ty();
        match d.lx.next() {
            T::Global(_) => {}
            t => panic!("define: {:?}", t),
        }
        d.lx.expect(b'(');
        let mut nargs = 0;
        let mut unnamed = 0;
        if !d.lx.is(b')') {
            loop {
                if d.lx.peek() == T::Id("...") {
                    d.lx.next();
                    d.lx.expect(b')');
                    break;
                }
                let _t = d.lx.ty();
                loop {
                    match d.lx.peek() {
                        T::Local(_) => break,
                        T::P(b'(') => d.lx.skip_parens(),
                        T::P(b',') | T::P(b')') => break,
                        _ => {
                            d.lx.next();
                        }
                    }
                }
                if let T::Local(n) = d.lx.peek() {
                    d.lx.next();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = d.reg(n);
                    assert!(r == nargs);
                }
                nargs += 1;
                if d.lx.is(b')') {
                    break;
                }
                d.lx.expect(b',');
            }
        }
        // skip to the opening brace at end of line
        loop {
            match d.lx.next() {
                T::P(b'{') => break,
                T::End => panic!("no body"),
                _ => {}
            }
        }
        d.void = d.reg("!void");
        let mut raw: Vec<(u32, Vec<Inst>, Vec<(u32, Vec<(Opd, u32)>)>)> = vec![];
        // entry label: explicit or implicit (numbered nargs)
        let body = &text[d.lx.i..];
        let mut explicit = false;
        if let Some(l) = body.lines().find(|l| !l.trim().is_empty()) {
            if !l.starts_with(' ') && l.contains(':') {
                explicit = true;
            }
        }
        let entry_name = unnamed.to_string();
        if !explicit {
            let b = d.block(&entry_name);
            raw.push((b, vec![], vec![]));
        }
        // iterate over instructions; labels start at column 0
        let base = d.lx.i;
        let mut pos = base;
        let bytes = text.as_bytes();
        loop {
            // move to next line start
            while pos < bytes.len() && bytes[pos] == b'\n' {
                pos += 1;
            }
            if pos >= bytes.len() {
                break;
            }
            if bytes[pos] == b'}' {
                break;
            }
            if bytes[pos] != b' ' {
                // label
                let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
                let l = &text[pos..e];
                let n = if let Some(r) = l.strip_prefix('"') { &r[..r.find('"').unwrap()] } else { &l[..l.find(':').unwrap()] };
                let b = d.block(n);
                raw.push((b, vec![], vec![]));
                pos = e;
                continue;
            }
            // instruction; figure out its extent (continuation lines)
            let mut e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let first = &text[pos..e];
            let tr = first.trim_start();
            if tr.starts_with("switch ") {
                if !first.contains(']') {
                    let x = text[e..].find("\n  ]").unwrap();
                    e += x + 4;
                    e += text[e..].find('\n').unwrap_or(bytes.len() - e);
                }
            } else {
                loop {
                    let nx = e + 1;
                    if nx + 8 < bytes.len() && &bytes[nx..nx + 6] == b"      " {
                        e = text[nx..].find('\n').map(|x| nx + x).unwrap_or(bytes.len());
                    } else {
                        break;
                    }
                }
            }
            d.lx.i = pos;
            let full = d.lx.s;
            d.lx.s = &full[..e];
            let cur = raw.last_mut().unwrap();
            d.inst(&mut cur.1, &mut cur.2);
            d.lx.s = full;
            pos = e;
        }
        let mut blocks: Vec<Block> = (0..d.nblocks).map(|_| Block { insts: vec![], preds: vec![], phis: vec![] }).collect();
        for (b, insts, phis) in raw {
            let blk = &mut blocks[b as usize];
            blk.insts = insts;
            if !phis.is_empty() {
                let mut preds: Vec<u32> = phis[0].1.iter().map(|p| p.1).collect();
                preds.sort();
                preds.dedup();
                for p in &preds {
                    let mv = phis
                        .iter()
                        .map(|(dst, ins)| (*dst, ins.iter().find(|x| x.1 == *p).expect("phi pred").0.clone()))
                        .collect();
                    blk.phis.push(mv);
                }
                blk.preds = preds;
            }
        }
        Func { name: name.to_string(), nregs: d.regs.len() as u32, nargs, blocks, idx }
    }
}

struct Dec<'a> {
    lx: Lx<'a>,
    regs: Map<String, u32>,
    blocks: Map<String, u32>,
    nblocks: u32,
    void: u32,
}

impl<'a> Dec<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn skip_attrs_to_type(&mut self) {
        loop {
            if self.lx.ty_start() {
                return;
            }
            match self.lx.peek() {
                T::P(b'(') => self.lx.skip_parens(),
                _ => {
                    self.lx.next();
                }
            }
        }
    }
    /// after a call argument's type: skip attributes up to the value
    fn skip_attrs_to_value(&mut self) {
        loop {
            match self.lx.peek() {
                T::Local(_) | T::Global(_) | T::Num(_) | T::Str(_) => return,
                T::P(b'[') | T::P(b'{') | T::P(b'<') => return,
                T::P(b'(') => self.lx.skip_parens(),
                T::Id(
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr"
                    | "splat" | "sub" | "trunc" | "bitcast" | "add" | "xor",
                ) => return,
                T::Id("align") => {
                    self.lx.next();
                    if let T::Num(_) = self.lx.peek() {
                        self.lx.next();
                    }
                }
                T::Id(_) | T::Meta(_) => {
                    self.lx.next();
                }
                t => panic!("arg attrs: {:?} near {}", t, self.lx.ctx()),
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        match self.lx.next() {
            T::Local(n) => Opd::R(self.reg(n)),
            t => Opd::C(self.lx.konst_tok(ty, t)),
        }
    }
    fn tval(&mut self) -> (Ty, Opd) {
        let t = self.lx.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.lx.next() == T::Id("label"));
        match self.lx.next() {
            T::Local(n) => self.block(n),
            t => panic!("label {:?}", t),
        }
    }
    fn flags(&mut self) {
        while let T::Id(s) = self.lx.peek() {
            if matches!(s, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak") {
                self.lx.next();
            } else {
                break;
            }
        }
    }

    fn inst(&mut self, out: &mut Vec<Inst>, phis: &mut Vec<(u32, Vec<(Opd, u32)>)>) {
        let mut dst = self.void;
        let save = self.lx.i;
        if let T::Local(n) = self.lx.next() {
            self.lx.expect(b'=');
            dst = self.reg(n);
        } else {
            self.lx.i = save;
        }
        let op = match self.lx.next() {
            T::Id(s) => s,
            T::Meta(_) => return,
            t => panic!("opcode {:?} near {}", t, self.lx.ctx()),
        };
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "urem" => Some(BinOp::URem),
            "sdiv" => Some(BinOp::SDiv),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let (t, x) = self.tval();
            self.lx.expect(b',');
            let y = self.val(&t);
            out.push(Inst::Bin(b, t, x, y, dst));
            return;
        }
        match op {
            "icmp" => {
                self.flags();
                let p = match self.lx.next() {
                    T::Id("eq") => Pred::Eq,
                    T::Id("ne") => Pred::Ne,
                    T::Id("ult") => Pred::Ult,
                    T::Id("ule") => Pred::Ule,
                    T::Id("ugt") => Pred::Ugt,
                    T::Id("uge") => Pred::Uge,
                    T::Id("slt") => Pred::Slt,
                    T::Id("sle") => Pred::Sle,
                    T::Id("sgt") => Pred::Sgt,
                    T::Id("sge") => Pred::Sge,
                    t => panic!("pred {:?}", t),
                };
                let (t, x) = self.tval();
                self.lx.expect(b',');
                let y = self.val(&t);
                out.push(Inst::Cmp(p, t, x, y, dst));
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (t, x) = self.tval();
                assert!(self.lx.next() == T::Id("to"));
                let to = self.lx.ty();
                let c = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "inttoptr" => {
                        if to.bits() < t.bits() {
                            CastOp::Trunc
                        } else if to.bits() > t.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Bit
                        }
                    }
                    _ => CastOp::Bit,
                };
                out.push(Inst::Cast(c, t, to, x, dst));
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tval();
                self.lx.expect(b',');
                let (t, x) = self.tval();
                self.lx.expect(b',');
                let (_, y) = self.tval();
                out.push(Inst::Select(t, c, x, y, dst, matches!(ct, Ty::Vec(..))));
            }
            "getelementptr" => {
                self.flags();
                let t = self.lx.ty();
                self.lx.expect(b',');
                let (pt, base) = self.tval();
                if let Ty::Vec(..) = pt {
                    out.push(Inst::Bad("vector gep".into()));
                    return;
                }
                let mut off = 0u64;
                let mut dynm = vec![];
                let mut cur = t;
                let mut first = true;
                while self.lx.is(b',') {
                    if let T::Meta(_) = self.lx.peek() {
                        break;
                    }
                    let (it, v) = self.tval();
                    let scale = if first {
                        cur.alloc()
                    } else {
                        match (&cur, &v) {
                            (Ty::Struct(..), Opd::C(V::I(k))) => {
                                let (o, f) = cur.field(*k);
                                off = off.wrapping_add(o);
                                cur = f;
                                continue;
                            }
                            _ => {
                                let (_, f) = cur.field(0);
                                let s = match cur {
                                    Ty::Vec(..) => f.size(),
                                    _ => f.alloc(),
                                };
                                cur = f;
                                s
                            }
                        }
                    };
                    first = false;
                    match v {
                        Opd::C(V::I(k)) => off = off.wrapping_add((crate::ex::sx(k, it.bits()) as u64).wrapping_mul(scale)),
                        v => dynm.push((v, it.bits(), scale)),
                    }
                }
                out.push(Inst::Gep(base, off, dynm, dst));
            }
            "load" => {
                self.flags();
                let t = self.lx.ty();
                self.lx.expect(b',');
                let (_, p) = self.tval();
                out.push(Inst::Load(t, p, dst));
            }
            "store" => {
                self.flags();
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (_, p) = self.tval();
                out.push(Inst::Store(t, v, p));
            }
            "alloca" => {
                if self.lx.peek() == T::Id("inalloca") {
                    self.lx.next();
                }
                let t = self.lx.ty();
                let mut n = t.alloc();
                if self.lx.is(b',') && self.lx.ty_start() {
                    let (_, c) = self.tval();
                    match c {
                        Opd::C(V::I(k)) => n *= k,
                        _ => {
                            out.push(Inst::Bad("dynamic alloca".into()));
                            return;
                        }
                    }
                }
                out.push(Inst::Alloca(n, dst));
            }
            "phi" => {
                self.flags();
                let t = self.lx.ty();
                let mut ins = vec![];
                loop {
                    self.lx.expect(b'[');
                    let v = self.val(&t);
                    self.lx.expect(b',');
                    let b = match self.lx.next() {
                        T::Local(n) => self.block(n),
                        t => panic!("phi {:?}", t),
                    };
                    self.lx.expect(b']');
                    ins.push((v, b));
                    if !self.lx.is(b',') {
                        break;
                    }
                    if let T::Meta(_) = self.lx.peek() {
                        break;
                    }
                }
                phis.push((dst, ins));
            }
            "br" => {
                if self.lx.peek() == T::Id("label") {
                    let b = self.label();
                    out.push(Inst::Br(b));
                } else {
                    let (_, c) = self.tval();
                    self.lx.expect(b',');
                    let a = self.label();
                    self.lx.expect(b',');
                    let b = self.label();
                    out.push(Inst::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let def = self.label();
                self.lx.expect(b'[');
                let mut cases = vec![];
                while !self.lx.is(b']') {
                    let (_, k) = self.tval();
                    self.lx.expect(b',');
                    let b = self.label();
                    match k {
                        Opd::C(V::I(k)) => cases.push((k, b)),
                        _ => {
                            out.push(Inst::Bad("wide switch".into()));
                            return;
                        }
                    }
                }
                out.push(Inst::Switch(t.bits(), v, def, Rc::new(cases)));
            }
            "ret" => {
                let t = self.lx.ty();
                if t == Ty::Void {
                    out.push(Inst::Ret(None));
                } else {
                    let v = self.val(&t);
                    out.push(Inst::Ret(Some(v)));
                }
            }
            "unreachable" => out.push(Inst::Unreachable),
            "fence" => out.push(Inst::Nop),
            "freeze" => {
                let (_, v) = self.tval();
                out.push(Inst::Copy(v, dst));
            }
            "extractvalue" => {
                let (_, v) = self.tval();
                let mut ix = vec![];
                while self.lx.is(b',') {
                    match self.lx.peek() {
                        T::Num(_) => ix.push(self.lx.num() as u32),
                        _ => break,
                    }
                }
                out.push(Inst::ExtractV(v, ix, dst));
            }
            "insertvalue" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (_, x) = self.tval();
                let mut ix = vec![];
                while self.lx.is(b',') {
                    match self.lx.peek() {
                        T::Num(_) => ix.push(self.lx.num() as u32),
                        _ => break,
                    }
                }
                out.push(Inst::InsertV(t, v, x, ix, dst));
            }
            "extractelement" => {
                let (_, v) = self.tval();
                self.lx.expect(b',');
                let (_, i) = self.tval();
                out.push(Inst::ExtractE(v, i, dst));
            }
            "insertelement" => {
                let (t, v) = self.tval();
                self.lx.expect(b',');
                let (_, x) = self.tval();
                self.lx.expect(b',');
                let (_, i) = self.tval();
                out.push(Inst::InsertE(t, v, x, i, dst));
            }
            "shufflevector" => {
                let (_, a) = self.tval();
                self.lx.expect(b',');
                let (_, b) = self.tval();
                self.lx.expect(b',');
                let (_, m) = self.tval();
                let mask = match m {
                    Opd::C(V::A(v)) => v.iter().map(|x| if let V::I(k) = x { *k as u32 } else { 0 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                out.push(Inst::Shuffle(a, b, mask, dst));
            }
            "atomicrmw" => {
                self.flags();
                let k = match self.lx.next() {
                    T::Id(s) => s.to_string(),
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tval();
                self.lx.expect(b',');
                let (t, v) = self.tval();
                out.push(Inst::Rmw(k, t, p, v, dst));
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.tval();
                self.lx.expect(b',');
                let (t, c) = self.tval();
                self.lx.expect(b',');
                let (_, n) = self.tval();
                out.push(Inst::CmpXchg(t, p, c, n, dst));
            }
            "tail" | "musttail" | "notail" => {
                assert!(self.lx.next() == T::Id("call"));
                self.call(out, dst, false);
            }
            "call" => self.call(out, dst, false),
            "invoke" => self.call(out, dst, true),
            other => out.push(Inst::Bad(format!("opcode {other}"))),
        }
    }

    fn call(&mut self, out: &mut Vec<Inst>, dst: u32, invoke: bool) {
        self.skip_attrs_to_type();
        let ret = self.lx.ty();
        if self.lx.peek() == T::P(b'(') {
            self.lx.skip_parens(); // function type of a varargs callee
        }
        let callee = match self.lx.next() {
            T::Global(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intr(Rc::from(n))
                } else {
                    let mut n = n.to_string();
                    while let Some(a) = self.lx.m.aliases.get(&n) {
                        n = a.clone();
                    }
                    Callee::Func(*self.lx.m.fmap.get(&n).unwrap_or_else(|| panic!("unknown function {n}")))
                }
            }
            T::Local(n) => Callee::Ptr(Opd::R(self.reg(n))),
            T::Id("asm") => Callee::Intr(Rc::from("asm")),
            t => {
                let v = self.lx.konst_tok(&Ty::Ptr, t);
                Callee::Ptr(Opd::C(v))
            }
        };
        if let Callee::Intr(n) = &callee {
            if &**n == "asm" {
                out.push(Inst::Bad("inline asm".into()));
                return;
            }
        }
        self.lx.expect(b'(');
        let mut args = vec![];
        let mut tys = vec![];
        if !self.lx.is(b')') {
            loop {
                let t = self.lx.ty();
                if t == Ty::Meta {
                    // metadata operand: skip to ',' or ')'
                    let mut depth = 0;
                    loop {
                        match self.lx.peek() {
                            T::P(b'(') => depth += 1,
                            T::P(b')') if depth == 0 => break,
                            T::P(b')') => depth -= 1,
                            T::P(b',') if depth == 0 => break,
                            _ => {}
                        }
                        self.lx.next();
                    }
                    args.push(Opd::C(V::I(0)));
                } else {
                    self.skip_attrs_to_value();
                    args.push(self.val(&t));
                }
                tys.push(t);
                if self.lx.is(b')') {
                    break;
                }
                self.lx.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            loop {
                match self.lx.next() {
                    T::Id("to") => {
                        normal = Some(self.label());
                        break;
                    }
                    T::End => panic!("invoke"),
                    _ => {}
                }
            }
        }
        out.push(Inst::Call(Box::new(CallI { callee, args, tys, ret, dst, normal })));
    }
}
