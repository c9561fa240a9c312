//! Hash-consed bit-vector expressions over byte-sized symbolic variables.
//!
//! Every expression over a single variable is additionally carried in tabular
//! form (its value for each element of the variable's declared domain), which
//! makes it canonical and makes constant folding cheap.  The structural term
//! is kept next to the table and is what the SMT solver sees.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32;
pub type Dom = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,
    Extract,
    SExt,
    Ite,
    Lookup,
}

pub struct Tab {
    pub var: u32,
    pub vals: Vec<u64>,
    pub tset: Dom,
}

pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u64,
    pub kz: u64,
    pub mask: u128,
    pub tab: Option<Rc<Tab>>,
}

pub struct Var {
    pub ord: u32,
    pub dom: Dom,
    pub vals: Vec<u8>,
    pub rank: [u16; 256],
}

#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(Ex),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
}
impl Default for V {
    fn default() -> V {
        V::I(0)
    }
}

pub struct Cx {
    pub nodes: Vec<Node>,
    cons: Map<(Op, u8, Ex, Ex, Ex, u64), Ex>,
    tabcons: Map<(u32, u8, Vec<u64>), Ex>,
    pub vars: Vec<Var>,
    varcons: Map<(u32, Dom), u32>,
    varnode: Vec<Ex>,
}

#[inline]
pub fn mask_w(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn dom_has(d: &Dom, b: u8) -> bool {
    d[(b >> 6) as usize] >> (b & 63) & 1 == 1
}
pub fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dom_andn(a: &Dom, b: &Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn dom_empty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dom_count(a: &Dom) -> u32 {
    a[0].count_ones() + a[1].count_ones() + a[2].count_ones() + a[3].count_ones()
}
pub fn dom_first(a: &Dom) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
pub fn dom_iter(d: Dom) -> impl Iterator<Item = u8> {
    (0..=255u8).filter(move |b| dom_has(&d, *b))
}

/// Concrete semantics of the scalar operations; `None` = division by zero.
#[inline]
pub fn ev2(op: Op, w: u32, x: u64, y: u64) -> Option<u64> {
    let m = mask_w(w);
    Some(
        match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Op::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Op::SDiv => {
                if y == 0 {
                    return None;
                }
                sx(x, w).wrapping_div(sx(y, w)) as u64
            }
            Op::SRem => {
                if y == 0 {
                    return None;
                }
                sx(x, w).wrapping_rem(sx(y, w)) as u64
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = if y >= w as u64 { w as u64 - 1 } else { y };
                (sx(x, w) >> s.min(63)) as u64
            }
            Op::Eq => return Some((x == y) as u64),
            Op::Ult => return Some((x < y) as u64),
            Op::Slt => return Some((sx(x, w) < sx(y, w)) as u64),
            _ => unreachable!(),
        } & m,
    )
}

#[derive(Clone, Copy, Debug)]
pub enum P {
    C(u64, u32),
    E(Ex, u32),
}
impl P {
    fn w(&self) -> u32 {
        match self {
            P::C(_, w) | P::E(_, w) => *w,
        }
    }
}

impl Cx {
    pub fn new() -> Cx {
        let mut c = Cx {
            nodes: vec![],
            cons: Map::default(),
            tabcons: Map::default(),
            vars: vec![],
            varcons: Map::default(),
            varnode: vec![],
        };
        // id 0 is reserved ("no symbolic byte" in memory overlays)
        c.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0, kz: !0, mask: 0, tab: None });
        c
    }

    pub fn var(&mut self, ord: u32, dom: Dom) -> (u32, Ex) {
        if let Some(v) = self.varcons.get(&(ord, dom)) {
            return (*v, self.varnode[*v as usize]);
        }
        let id = self.vars.len() as u32;
        let vals: Vec<u8> = dom_iter(dom).collect();
        let mut rank = [0u16; 256];
        for (i, b) in vals.iter().enumerate() {
            rank[*b as usize] = i as u16;
        }
        let tv: Vec<u64> = vals.iter().map(|b| *b as u64).collect();
        self.vars.push(Var { ord, dom, vals, rank });
        let e = self.push(Op::Var, 8, 0, 0, 0, id as u64, 1u128 << ord, tv.iter().fold(!0u64, |k, v| k & !v));
        let t = Tab { var: id, vals: tv.clone(), tset: [0; 4] };
        self.nodes[e as usize].tab = Some(Rc::new(t));
        self.tabcons.insert((id, 8, tv), e);
        self.varcons.insert((ord, dom), id);
        self.varnode.push(e);
        (id, e)
    }

    fn push(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u64, mask: u128, kz: u64) -> Ex {
        let id = self.nodes.len() as Ex;
        self.nodes.push(Node { op, w: w as u8, a, b, c, k, kz: kz & mask_w(w), mask, tab: None });
        self.cons.insert((op, w as u8, a, b, c, k), id);
        id
    }

    pub fn konst(&mut self, k: u64, w: u32) -> Ex {
        let k = k & mask_w(w);
        if let Some(e) = self.cons.get(&(Op::Const, w as u8, 0, 0, 0, k)) {
            return *e;
        }
        self.push(Op::Const, w, 0, 0, 0, k, 0, !k)
    }

    pub fn ex_of(&mut self, v: &V, w: u32) -> Ex {
        match v {
            V::I(k) => self.konst(*k, w),
            V::S(e) => *e,
            _ => panic!("ex_of wide"),
        }
    }

    #[inline]
    pub fn n(&self, e: Ex) -> &Node {
        &self.nodes[e as usize]
    }

    fn k_of(&self, e: Ex) -> Option<u64> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    fn v_of(&self, e: Ex) -> V {
        match self.k_of(e) {
            Some(k) => V::I(k),
            None => V::S(e),
        }
    }

    /// Build a node from table values (single-variable canonical form).
    fn tab(&mut self, var: u32, w: u32, vals: Vec<u64>, op: Op, a: Ex, b: Ex, c: Ex, k: u64) -> V {
        let first = vals[0];
        if vals.iter().all(|v| *v == first) {
            return V::I(first);
        }
        if let Some(e) = self.tabcons.get(&(var, w as u8, vals.clone())) {
            return V::S(*e);
        }
        let mut tset = [0u64; 4];
        if w == 1 {
            for (i, b) in self.vars[var as usize].vals.iter().enumerate() {
                if vals[i] == 1 {
                    tset[(*b >> 6) as usize] |= 1 << (*b & 63);
                }
            }
        }
        let kz = vals.iter().fold(!0u64, |k, v| k & !v);
        let mask = 1u128 << self.vars[var as usize].ord;
        let e = self.push(op, w, a, b, c, k, mask, kz);
        self.nodes[e as usize].tab = Some(Rc::new(Tab { var, vals: vals.clone(), tset }));
        self.tabcons.insert((var, w as u8, vals), e);
        V::S(e)
    }

    /// A lookup into constant data indexed by one variable.
    pub fn lookup(&mut self, var: u32, w: u32, vals: Vec<u64>) -> V {
        let (_, ve) = {
            let v = &self.vars[var as usize];
            let (ord, dom) = (v.ord, v.dom);
            self.var(ord, dom)
        };
        // the data itself is recovered from the table when the term is sent to the solver
        let tag = {
            let mut h = Fx::default();
            for v in &vals {
                h.write_u64(*v);
            }
            h.finish()
        };
        self.tab(var, w, vals, Op::Lookup, ve, 0, 0, tag)
    }

    fn tabs2(&self, a: Ex, b: Ex) -> Option<u32> {
        let (x, y) = (self.n(a), self.n(b));
        match (&x.tab, &y.tab) {
            (Some(s), Some(t)) if s.var == t.var => Some(s.var),
            (Some(s), None) if y.op == Op::Const => Some(s.var),
            (None, Some(t)) if x.op == Op::Const => Some(t.var),
            _ => None,
        }
    }
    #[inline]
    fn tv(&self, e: Ex, i: usize) -> u64 {
        let n = self.n(e);
        match &n.tab {
            Some(t) => t.vals[i],
            None => n.k,
        }
    }

    pub fn bin(&mut self, op: Op, w: u32, x: &V, y: &V) -> V {
        use Op::*;
        if let (V::I(a), V::I(b)) = (x, y) {
            return V::I(ev2(op, w, *a, *b).expect("div by zero"));
        }
        let rw = if matches!(op, Eq | Ult | Slt) { 1 } else { w };
        let (mut a, mut b) = (self.ex_of(x, w), self.ex_of(y, w));
        if let Some(var) = self.tabs2(a, b) {
            let n = self.vars[var as usize].vals.len();
            let vals: Vec<u64> = (0..n)
                .map(|i| ev2(op, w, self.tv(a, i), self.tv(b, i)).unwrap_or(0))
                .collect();
            return self.tab(var, rw, vals, op, a, b, 0, 0);
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            let (ka, kb) = (self.k_of(a).is_some(), self.k_of(b).is_some());
            if ka || (!kb && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.k_of(b);
        let m = mask_w(w);
        match op {
            Add | Or | Xor | Sub | Shl | LShr | AShr if kb == Some(0) => return self.v_of(a),
            Mul | And if kb == Some(0) => return V::I(0),
            Mul | UDiv if kb == Some(1) => return self.v_of(a),
            And if kb == Some(m) => return self.v_of(a),
            Or if kb == Some(m) => return V::I(m),
            And | Or if a == b => return self.v_of(a),
            Xor | Sub if a == b => return V::I(0),
            Eq if a == b => return V::I(1),
            Ult | Slt if a == b => return V::I(0),
            _ => {}
        }
        let (kza, kzb) = (self.n(a).kz, self.n(b).kz);
        match op {
            And => {
                if let Some(k) = kb {
                    if k | kza == m {
                        return self.v_of(a);
                    }
                    if k & !kza & m == 0 {
                        return V::I(0);
                    }
                }
                if w == 1 {
                    // x & !x
                    if self.is_not(a, b) {
                        return V::I(0);
                    }
                } else if (kza | kzb) & m == m {
                    return V::I(0);
                }
            }
            Or if w == 1 && self.is_not(a, b) => return V::I(1),
            Xor if w == 1 && kb == Some(1) => {
                // !!x
                let n = self.n(a);
                if n.op == Xor && self.k_of(n.b) == Some(1) {
                    return self.v_of(n.a);
                }
                if n.op == Eq && n.tab.is_none() && self.n(n.a).w == 1 {
                    // !(p == q)  on booleans: p == !q
                }
            }
            _ => {}
        }
        if matches!(op, Or | Xor | Add) && w > 1 {
            // disjoint contiguous halves -> concat
            for (h, l) in [(a, b), (b, a)] {
                if self.k_of(h).is_some() || self.k_of(l).is_some() {
                    continue;
                }
                let (kh, kl) = (self.n(h).kz, self.n(l).kz);
                let s = (!kh & m).trailing_zeros().min(w); // low zero bits of h
                if s > 0 && s < w && (!kl & m) >> s == 0 {
                    let hi = self.extract(&V::S(h), s, w - s);
                    let lo = self.extract(&V::S(l), 0, s);
                    return self.concat2(&hi, w - s, &lo, s);
                }
            }
        }
        match op {
            And | Or | Xor if w > 1 => {
                let is_cat = |e: Ex, cx: &Cx| cx.n(e).op == Concat && cx.n(e).tab.is_none();
                let (ca, cb) = (is_cat(a, self), is_cat(b, self));
                if (ca && (cb || kb.is_some() || self.n(b).tab.is_some()))
                    || (cb && (kb.is_some() || self.n(a).tab.is_some()))
                {
                    return self.refine(op, w, a, b);
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k >= w as u64 {
                        return V::I(0);
                    }
                    let lo = self.extract(&V::S(a), 0, w - k as u32);
                    return self.concat2(&lo, w - k as u32, &V::I(0), k as u32);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k >= w as u64 {
                        return V::I(0);
                    }
                    let hi = self.extract(&V::S(a), k as u32, w - k as u32);
                    return self.concat2(&V::I(0), k as u32, &hi, w - k as u32);
                }
            }
            Eq => {
                if let Some(k) = kb {
                    if k & kza != 0 {
                        return V::I(0);
                    }
                    let n = self.n(a);
                    if w == 1 {
                        return if k == 1 { self.v_of(a) } else { self.not(&V::S(a)) };
                    }
                    if n.op == Ite && n.tab.is_none() {
                        let (c, t, f) = (n.a, n.b, n.c);
                        let (kt, kf) = (self.k_of(t), self.k_of(f));
                        if kt.is_some() || kf.is_some() {
                            let te = self.bin(Eq, w, &self.v_of(t), &V::I(k));
                            let fe = self.bin(Eq, w, &self.v_of(f), &V::I(k));
                            return self.ite(&V::S(c), &te, &fe, 1);
                        }
                    }
                    if n.op == Xor {
                        if let Some(k2) = self.k_of(n.b) {
                            let x = self.v_of(n.a);
                            return self.bin(Eq, w, &x, &V::I(k ^ k2));
                        }
                    }
                    if n.op == Add {
                        if let Some(k2) = self.k_of(n.b) {
                            let x = self.v_of(n.a);
                            return self.bin(Eq, w, &x, &V::I(k.wrapping_sub(k2) & m));
                        }
                    }
                }
                let is_cat = |e: Ex, cx: &Cx| cx.n(e).op == Concat && cx.n(e).tab.is_none();
                let (ca, cb) = (is_cat(a, self), is_cat(b, self));
                if (ca && (cb || kb.is_some() || self.n(b).tab.is_some()))
                    || (cb && self.n(a).tab.is_some())
                {
                    return self.refine(Eq, w, a, b);
                }
            }
            Ult => {
                if let Some(k) = kb {
                    // upper bound from known zeros
                    if (!kza & m) < k {
                        return V::I(1);
                    }
                    if k == 0 {
                        return V::I(0);
                    }
                    if k == 1 {
                        return self.bin(Eq, w, &V::S(a), &V::I(0));
                    }
                }
                if let Some(k) = self.k_of(a) {
                    if k >= (!kzb & m) {
                        return V::I(0);
                    }
                }
                // drop common zero high bits
                let lz = ((kza & kzb) | !m).leading_ones();
                let nw = 64 - lz;
                if nw < w && nw > 0 {
                    let x = self.extract(&self.v_of(a), 0, nw);
                    let y = self.extract(&self.v_of(b), 0, nw);
                    return self.bin(Ult, nw, &x, &y);
                }
            }
            Slt => {
                let top = 1u64 << (w - 1);
                if kza & top != 0 && kzb & top != 0 {
                    let (x, y) = (self.v_of(a), self.v_of(b));
                    return self.bin(Ult, w, &x, &y);
                }
                if kb == Some(0) {
                    return self.extract(&V::S(a), w - 1, 1);
                }
            }
            UDiv => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        return self.bin(LShr, w, &V::S(a), &V::I(k.trailing_zeros() as u64));
                    }
                    if (!kza & m) < k {
                        return V::I(0);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        return self.bin(And, w, &V::S(a), &V::I(k - 1));
                    }
                    if (!kza & m) < k {
                        return self.v_of(a);
                    }
                }
            }
            Mul => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        return self.bin(Shl, w, &V::S(a), &V::I(k.trailing_zeros() as u64));
                    }
                }
            }
            Add => {
                if let Some(k) = kb {
                    let n = self.n(a);
                    if n.op == Add && n.tab.is_none() {
                        if let Some(k2) = self.k_of(n.b) {
                            let x = self.v_of(n.a);
                            return self.bin(Add, w, &x, &V::I(k.wrapping_add(k2) & m));
                        }
                    }
                }
            }
            Sub => {
                if let Some(k) = kb {
                    return self.bin(Add, w, &V::S(a), &V::I(k.wrapping_neg() & m));
                }
            }
            _ => {}
        }
        if let Some(e) = self.cons.get(&(op, rw as u8, a, b, 0, w as u64)) {
            return V::S(*e);
        }
        let hi = |kz: u64| 64 - ((kz | !m).leading_ones()); // significant bits
        let kz = match op {
            And => kza | kzb,
            Or | Xor => kza & kzb,
            Add => {
                let s = hi(kza).max(hi(kzb)) + 1;
                !mask_w(s.min(64))
            }
            Mul => {
                let s = hi(kza) + hi(kzb);
                !mask_w(s.min(64))
            }
            UDiv => !mask_w(hi(kza)),
            URem => !mask_w(hi(kza).min(hi(kzb))),
            _ => 0,
        };
        let mask = self.n(a).mask | self.n(b).mask;
        V::S(self.push(op, rw, a, b, 0, w as u64, mask, kz))
    }

    fn is_not(&self, a: Ex, b: Ex) -> bool {
        let (x, y) = (self.n(a), self.n(b));
        (x.op == Op::Xor && x.a == b && self.k_of(x.b) == Some(1))
            || (y.op == Op::Xor && y.a == a && self.k_of(y.b) == Some(1))
    }

    pub fn not(&mut self, x: &V) -> V {
        self.bin(Op::Xor, 1, x, &V::I(1))
    }

    fn flatten(&self, e: Ex, out: &mut Vec<P>) {
        let n = self.n(e);
        if n.op == Op::Const {
            out.push(P::C(n.k, n.w as u32));
        } else if n.op == Op::Concat && n.tab.is_none() {
            self.flatten(n.b, out);
            self.flatten(n.a, out);
        } else {
            out.push(P::E(e, n.w as u32));
        }
    }

    fn p_to_v(p: &P) -> V {
        match p {
            P::C(k, _) => V::I(*k),
            P::E(e, _) => V::S(*e),
        }
    }

    /// Apply a bitwise op (or equality) piecewise over the common refinement of
    /// the two operands' concatenation structure.
    fn refine(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> V {
        let mut pa = vec![];
        let mut pb = vec![];
        self.flatten(a, &mut pa);
        self.flatten(b, &mut pb);
        let mut cuts: Vec<u32> = vec![];
        for ps in [&pa, &pb] {
            let mut o = 0;
            for p in ps.iter() {
                o += p.w();
                cuts.push(o);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut lo = 0;
        let (va, vb) = (self.v_of(a), self.v_of(b));
        let mut parts = vec![];
        let mut conj = V::I(1);
        for c in cuts {
            let cw = c - lo;
            let x = self.extract(&va, lo, cw);
            let y = self.extract(&vb, lo, cw);
            if op == Op::Eq {
                let r = self.bin(Op::Eq, cw, &x, &y);
                if let V::I(0) = r {
                    return V::I(0);
                }
                conj = self.bin(Op::And, 1, &conj, &r);
            } else {
                let r = self.bin(op, cw, &x, &y);
                parts.push((r, cw));
            }
            lo = c;
        }
        if op == Op::Eq {
            return conj;
        }
        debug_assert!(lo == w);
        self.concat(&parts)
    }

    pub fn concat2(&mut self, hi: &V, hw: u32, lo: &V, lw: u32) -> V {
        self.concat(&[(lo.clone(), lw), (hi.clone(), hw)])
    }

    /// Concatenate parts given from least to most significant.
    pub fn concat(&mut self, parts: &[(V, u32)]) -> V {
        let mut ps: Vec<P> = vec![];
        let mut total = 0;
        for (v, w) in parts {
            if *w == 0 {
                continue;
            }
            total += w;
            match v {
                V::I(k) => ps.push(P::C(*k, *w)),
                V::S(e) => self.flatten(*e, &mut ps),
                V::W(k) => {
                    ps.push(P::C(**k as u64, 64));
                    ps.push(P::C((**k >> 64) as u64 & mask_w(w - 64), w - 64));
                }
                _ => panic!("concat of aggregate"),
            }
        }
        // fuse
        let mut out: Vec<P> = vec![];
        for p in ps {
            if let Some(last) = out.last().copied() {
                match (last, p) {
                    (P::C(k1, w1), P::C(k2, w2)) if w1 + w2 <= 64 => {
                        *out.last_mut().unwrap() = P::C(k1 | (k2 << w1), w1 + w2);
                        continue;
                    }
                    (P::E(e1, w1), P::E(e2, w2)) if w1 + w2 <= 64 => {
                        let (n1, n2) = (self.n(e1), self.n(e2));
                        if n1.op == Op::Extract && n2.op == Op::Extract && n1.tab.is_none() && n2.tab.is_none() && n1.a == n2.a && n1.k + w1 as u64 == n2.k {
                            let (src, lo) = (n1.a, n1.k as u32);
                            let v = self.extract(&V::S(src), lo, w1 + w2);
                            if let V::S(e) = v {
                                *out.last_mut().unwrap() = P::E(e, w1 + w2);
                                continue;
                            }
                        }
                        if let (Some(t1), Some(t2)) = (&self.n(e1).tab, &self.n(e2).tab) {
                            if t1.var == t2.var {
                                let var = t1.var;
                                let vals: Vec<u64> = t1.vals.iter().zip(&t2.vals).map(|(x, y)| x | (y << w1)).collect();
                                if let V::S(e) = self.tab(var, w1 + w2, vals, Op::Concat, e2, e1, 0, 0) {
                                    *out.last_mut().unwrap() = P::E(e, w1 + w2);
                                    continue;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            out.push(p);
        }
        // a single-variable value padded with constants is a table too
        if total <= 64 && out.len() > 1 {
            let mut var = None;
            let mut ok = true;
            for p in &out {
                if let P::E(e, _) = p {
                    match &self.n(*e).tab {
                        Some(t) if var.is_none() || var == Some(t.var) => var = Some(t.var),
                        _ => ok = false,
                    }
                }
            }
            if let (true, Some(var)) = (ok, var) {
                let n = self.vars[var as usize].vals.len();
                let mut vals = vec![0u64; n];
                let mut acc: Option<Ex> = None;
                let mut o = 0;
                for p in &out {
                    let e = match p {
                        P::C(k, w) => {
                            for v in vals.iter_mut() {
                                *v |= k << o;
                            }
                            self.konst(*k, *w)
                        }
                        P::E(e, _) => {
                            let t = self.n(*e).tab.clone().unwrap();
                            for (v, x) in vals.iter_mut().zip(&t.vals) {
                                *v |= x << o;
                            }
                            *e
                        }
                    };
                    o += p.w();
                    if o == total {
                        // last part: make the table node with this structure
                        let lo = acc.unwrap();
                        return self.tab(var, total, vals, Op::Concat, e, lo, 0, 0);
                    }
                    acc = Some(match acc {
                        None => e,
                        Some(lo) => self.raw_concat(e, lo),
                    });
                }
                unreachable!();
            }
        }
        if out.len() == 1 {
            return Self::p_to_v(&out[0]);
        }
        if out.iter().all(|p| matches!(p, P::C(..))) {
            let mut r = 0u128;
            let mut o = 0;
            for p in &out {
                if let P::C(k, w) = p {
                    r |= (*k as u128) << o;
                    o += w;
                }
            }
            return V::W(Rc::new(r));
        }
        let mut acc: Option<Ex> = None;
        for p in &out {
            let e = match p {
                P::C(k, w) => self.konst(*k, *w),
                P::E(e, _) => *e,
            };
            acc = Some(match acc {
                None => e,
                Some(lo) => self.raw_concat(e, lo),
            });
        }
        V::S(acc.unwrap())
    }

    fn raw_concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let w = self.n(hi).w as u32 + self.n(lo).w as u32;
        if let Some(e) = self.cons.get(&(Op::Concat, w as u8, hi, lo, 0, 0)) {
            return *e;
        }
        let (h, l) = (self.n(hi), self.n(lo));
        let kz = if l.w < 64 { (h.kz << l.w) | (l.kz & mask_w(l.w as u32)) } else { l.kz };
        let mask = h.mask | l.mask;
        self.push(Op::Concat, w, hi, lo, 0, 0, mask, kz)
    }

    pub fn extract(&mut self, v: &V, lo: u32, w: u32) -> V {
        let e = match v {
            V::I(k) => return V::I((k >> lo) & mask_w(w)),
            V::W(k) => {
                let r = **k >> lo;
                if w <= 64 {
                    return V::I(r as u64 & mask_w(w));
                }
                return V::W(Rc::new(r & (!0u128 >> (128 - w))));
            }
            V::S(e) => *e,
            V::A(_) => panic!("extract of aggregate"),
        };
        let n = self.n(e);
        let nw = n.w as u32;
        debug_assert!(lo + w <= nw);
        if lo == 0 && w == nw {
            return V::S(e);
        }
        if let Some(t) = n.tab.clone() {
            let vals: Vec<u64> = t.vals.iter().map(|x| (x >> lo) & mask_w(w)).collect();
            return self.tab(t.var, w, vals, Op::Extract, e, 0, 0, lo as u64);
        }
        match n.op {
            Op::Const => return V::I((n.k >> lo) & mask_w(w)),
            Op::Concat => {
                let mut ps = vec![];
                self.flatten(e, &mut ps);
                let mut o = 0;
                let mut out = vec![];
                for p in ps {
                    let pw = p.w();
                    let (s, t) = (o.max(lo), (o + pw).min(lo + w));
                    if s < t {
                        let x = self.extract(&Self::p_to_v(&p), s - o, t - s);
                        out.push((x, t - s));
                    }
                    o += pw;
                }
                return self.concat(&out);
            }
            Op::Extract => {
                let (src, k) = (n.a, n.k as u32);
                return self.extract(&V::S(src), k + lo, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let (op, a, b) = (n.op, n.a, n.b);
                let x = self.extract(&self.v_of(a), lo, w);
                let y = self.extract(&self.v_of(b), lo, w);
                return self.bin(op, w, &x, &y);
            }
            Op::Add | Op::Mul if lo == 0 => {
                let (op, a, b) = (n.op, n.a, n.b);
                let x = self.extract(&self.v_of(a), 0, w);
                let y = self.extract(&self.v_of(b), 0, w);
                return self.bin(op, w, &x, &y);
            }
            Op::Ite => {
                let (c, a, b) = (n.a, n.b, n.c);
                let x = self.extract(&self.v_of(a), lo, w);
                let y = self.extract(&self.v_of(b), lo, w);
                return self.ite(&V::S(c), &x, &y, w);
            }
            _ => {}
        }
        let n = self.n(e);
        if nw <= 64 && (n.kz >> lo) & mask_w(w) == mask_w(w) {
            return V::I(0);
        }
        if let Some(r) = self.cons.get(&(Op::Extract, w as u8, e, 0, 0, lo as u64)) {
            return V::S(*r);
        }
        let kz = if nw <= 64 { n.kz >> lo } else { 0 };
        let mask = n.mask;
        V::S(self.push(Op::Extract, w, e, 0, 0, lo as u64, mask, kz))
    }

    pub fn zext(&mut self, v: &V, from: u32, to: u32) -> V {
        match v {
            V::I(k) if to <= 64 => V::I(*k),
            V::I(k) => V::W(Rc::new(*k as u128)),
            V::W(_) => v.clone(),
            _ => {
                let mut parts = vec![(v.clone(), from)];
                let mut rest = to - from;
                while rest > 0 {
                    let c = rest.min(64);
                    parts.push((V::I(0), c));
                    rest -= c;
                }
                self.concat(&parts)
            }
        }
    }

    pub fn sext(&mut self, v: &V, from: u32, to: u32) -> V {
        match v {
            V::I(k) if to <= 64 => V::I(sx(*k, from) as u64 & mask_w(to)),
            V::I(k) => V::W(Rc::new((sx(*k, from) as i128 as u128) & (!0u128 >> (128 - to)))),
            V::S(e) => {
                let e = *e;
                if let Some(t) = self.n(e).tab.clone() {
                    if to <= 64 {
                        let vals = t.vals.iter().map(|x| sx(*x, from) as u64 & mask_w(to)).collect();
                        return self.tab(t.var, to, vals, Op::SExt, e, 0, 0, 0);
                    }
                }
                if self.n(e).kz >> (from - 1) & 1 == 1 {
                    return self.zext(v, from, to);
                }
                if from == 1 {
                    return self.ite(v, &V::I(mask_w(to)), &V::I(0), to);
                }
                if let Some(r) = self.cons.get(&(Op::SExt, to as u8, e, 0, 0, 0)) {
                    return V::S(*r);
                }
                let mask = self.n(e).mask;
                V::S(self.push(Op::SExt, to, e, 0, 0, 0, mask, 0))
            }
            _ => panic!("sext wide"),
        }
    }

    pub fn ite(&mut self, c: &V, x: &V, y: &V, w: u32) -> V {
        let c = match c {
            V::I(k) => return if *k & 1 == 1 { x.clone() } else { y.clone() },
            V::S(e) => *e,
            _ => panic!("ite cond"),
        };
        match (x, y) {
            (V::I(a), V::I(b)) if a == b => return V::I(*a),
            (V::S(a), V::S(b)) if a == b => return V::S(*a),
            _ => {}
        }
        if w == 1 {
            match (x, y) {
                (V::I(1), V::I(0)) => return V::S(c),
                (V::I(0), V::I(1)) => return self.not(&V::S(c)),
                (V::I(1), _) => return self.bin(Op::Or, 1, &V::S(c), y),
                (V::I(0), _) => {
                    let nc = self.not(&V::S(c));
                    return self.bin(Op::And, 1, &nc, y);
                }
                (_, V::I(0)) => return self.bin(Op::And, 1, &V::S(c), x),
                (_, V::I(1)) => {
                    let nc = self.not(&V::S(c));
                    return self.bin(Op::Or, 1, &nc, x);
                }
                _ => {}
            }
        }
        if w > 64 {
            let xl = self.extract(x, 0, 64);
            let yl = self.extract(y, 0, 64);
            let xh = self.extract(x, 64, w - 64);
            let yh = self.extract(y, 64, w - 64);
            let l = self.ite(&V::S(c), &xl, &yl, 64);
            let h = self.ite(&V::S(c), &xh, &yh, w - 64);
            return self.concat2(&h, w - 64, &l, 64);
        }
        let (a, b) = (self.ex_of(x, w), self.ex_of(y, w));
        // single variable?
        if let Some(t) = self.n(c).tab.clone() {
            let same = |s: &Cx, e: Ex| {
                let n = s.n(e);
                n.op == Op::Const || n.tab.as_ref().map_or(false, |u| u.var == t.var)
            };
            if same(self, a) && same(self, b) {
                let vals = (0..t.vals.len()).map(|i| if t.vals[i] == 1 { self.tv(a, i) } else { self.tv(b, i) }).collect();
                return self.tab(t.var, w, vals, Op::Ite, c, a, b, 0);
            }
        }
        if let Some(e) = self.cons.get(&(Op::Ite, w as u8, c, a, b, 0)) {
            return V::S(*e);
        }
        let mask = self.n(c).mask | self.n(a).mask | self.n(b).mask;
        let kz = self.n(a).kz & self.n(b).kz;
        V::S(self.push(Op::Ite, w, c, a, b, 0, mask, kz))
    }

    pub fn var_node(&self, id: u32) -> Ex {
        self.varnode[id as usize]
    }

    /// Rebuild `e` with the variables in `fixed` replaced by the values `asg` gives.
    pub fn subst(&mut self, e: Ex, fixed: u128, asg: &dyn Fn(u32) -> u8, memo: &mut Map<Ex, V>) -> V {
        let n = self.n(e);
        if n.op == Op::Const {
            return V::I(n.k);
        }
        if n.mask & fixed == 0 {
            return V::S(e);
        }
        if let Some(t) = &n.tab {
            let v = &self.vars[t.var as usize];
            return V::I(t.vals[v.rank[asg(v.ord) as usize] as usize]);
        }
        if let Some(r) = memo.get(&e) {
            return r.clone();
        }
        let (op, w, a, b, c, k) = (n.op, n.w as u32, n.a, n.b, n.c, n.k);
        let r = match op {
            Op::Concat => {
                let (hw, lw) = (self.n(a).w as u32, self.n(b).w as u32);
                let (h, l) = (self.subst(a, fixed, asg, memo), self.subst(b, fixed, asg, memo));
                self.concat2(&h, hw, &l, lw)
            }
            Op::Extract => {
                let x = self.subst(a, fixed, asg, memo);
                self.extract(&x, k as u32, w)
            }
            Op::SExt => {
                let from = self.n(a).w as u32;
                let x = self.subst(a, fixed, asg, memo);
                self.sext(&x, from, w)
            }
            Op::Ite => {
                let x = self.subst(a, fixed, asg, memo);
                let (y, z) = (self.subst(b, fixed, asg, memo), self.subst(c, fixed, asg, memo));
                self.ite(&x, &y, &z, w)
            }
            op => {
                let (x, y) = (self.subst(a, fixed, asg, memo), self.subst(b, fixed, asg, memo));
                let dead = matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && matches!(y, V::I(0));
                if dead {
                    V::I(0)
                } else {
                    self.bin(op, k as u32, &x, &y)
                }
            }
        };
        memo.insert(e, r.clone());
        r
    }

    /// Evaluate under an assignment of variable ordinals to byte values.
    pub fn eval(&self, e: Ex, asg: &dyn Fn(u32) -> u8, memo: &mut Map<Ex, u128>) -> u128 {
        let n = self.n(e);
        if n.op == Op::Const {
            return n.k as u128;
        }
        if let Some(t) = &n.tab {
            let v = &self.vars[t.var as usize];
            let b = asg(v.ord);
            return t.vals[v.rank[b as usize] as usize] as u128;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Concat => {
                let lw = self.n(n.b).w as u32;
                (self.eval(n.a, asg, memo) << lw) | self.eval(n.b, asg, memo)
            }
            Op::Extract => (self.eval(n.a, asg, memo) >> n.k) & (mask_w(w) as u128),
            Op::SExt => {
                let f = self.n(n.a).w as u32;
                (sx(self.eval(n.a, asg, memo) as u64, f) as u64 & mask_w(w)) as u128
            }
            Op::Ite => {
                if self.eval(n.a, asg, memo) == 1 {
                    self.eval(n.b, asg, memo)
                } else {
                    self.eval(n.c, asg, memo)
                }
            }
            op => {
                let ow = n.k as u32; // operand width
                ev2(op, ow, self.eval(n.a, asg, memo) as u64, self.eval(n.b, asg, memo) as u64).unwrap_or(0) as u128
            }
        };
        memo.insert(e, r);
        r
    }
}
