//! Path-wise symbolic execution of LLVM IR.
use crate::ex::*;
use crate::ll::*;
use crate::solver::{Solver, UNKNOWN};
use std::rc::Rc;

// an allocation larger than this fails; no name of a few kilobytes calls for one
const MAX_ALLOC: u64 = 1 << 28;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<Ex>>,
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub stack_base: u32,
}

#[derive(Clone)]
pub struct VarSt {
    pub id: u32,
    pub dom: Dom,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub top: Frame,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub stack: Vec<Rc<Obj>>,
    pub gov: Map<u32, Rc<Obj>>,
    pub vars: Vec<VarSt>,
    pub singles: u128,
    pub mcs: Vec<Ex>,
    pub mcmask: u128,
    pub steps: u64,
    pub heap_live: u64,
    pub obs: Vec<Vec<V>>,
    pub input: Vec<Vec<V>>,
    pub maxdepth: u32,
    /// set once variables were split: the path may turn out infeasible late
    pub split: bool,
}

pub enum Stop {
    Done,
    Infeasible,
    /// property violated (kind, detail); the model is taken from the state
    Violation(String, String),
    Error(String),
}
type R<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub trace: Vec<String>,
    pub vals: Vec<u8>,
    pub input: String,
}

pub struct Sample {
    pub vals: Vec<u8>,
    pub obs: Vec<Vec<u8>>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts_concrete: u64,
    pub asserts_solver: u64,
    pub max_depth: u32,
    pub max_vars: u32,
    pub max_steps: u64,
    pub marks: [u64; 8],
    pub splits: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Special {
    None,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Bcmp,
    Memcmp,
    Strlen,
    Abort,
    Getenv,
    Getrandom,
    Atexit,
    SymByte,
    SymChoice,
    SymAssume,
    SymAssert,
    SymObserve,
    SymInput,
    SymMark,
    Unknown,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub cx: Cx,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub vkeys: Map<String, u32>,
    pub samples: Vec<Sample>,
    pub sample_every: u64,
    pub max_samples: usize,
    pub funcs_used: Vec<bool>,
    pub blocks_used: Map<(u32, u32), ()>,
    special: Vec<Special>,
    gobjs: Vec<Option<Rc<Obj>>>,
    pool: Vec<Vec<V>>,
    pub max_steps: u64,
    pub max_depth: u32,
    /// for development: explore one alternative of the first choice only
    pub first_choice: Option<u64>,
}

fn classify(name: &str, has_body: bool) -> Special {
    if name.contains("4core9panicking") || name.contains("3std9panicking") || name.contains("handle_alloc_error") || name == "rust_panic" {
        return Special::Panic;
    }
    if has_body {
        return Special::None;
    }
    match name {
        "malloc" => Special::Malloc,
        "calloc" => Special::Calloc,
        "realloc" => Special::Realloc,
        "free" => Special::Free,
        "posix_memalign" => Special::PosixMemalign,
        "bcmp" => Special::Bcmp,
        "memcmp" => Special::Memcmp,
        "strlen" => Special::Strlen,
        "abort" => Special::Abort,
        "getenv" => Special::Getenv,
        "getrandom" => Special::Getrandom,
        "__cxa_thread_atexit_impl" => Special::Atexit,
        "sym_byte" => Special::SymByte,
        "sym_choice" => Special::SymChoice,
        "sym_assume" => Special::SymAssume,
        "sym_assert" => Special::SymAssert,
        "sym_observe" => Special::SymObserve,
        "sym_input" => Special::SymInput,
        "sym_mark" => Special::SymMark,
        _ => Special::Unknown,
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, query_ms: u32) -> Engine<'m> {
        let special = m.funcs.iter().map(|f| classify(&f.name, f.lines.is_some())).collect();
        Engine {
            m,
            cx: Cx::new(),
            solver: Solver::new(query_ms),
            pending: vec![],
            stats: Stats::default(),
            violations: vec![],
            vkeys: Map::default(),
            samples: vec![],
            sample_every: 1,
            max_samples: 8,
            funcs_used: vec![false; m.funcs.len()],
            blocks_used: Map::default(),
            special,
            gobjs: vec![None; m.gvars.len()],
            pool: vec![],
            max_steps: 400_000_000,
            max_depth: 4000,
            first_choice: None,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let idx = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.m.func(idx).expect("entry body");
        let n = f.nregs as usize;
        self.funcs_used[idx as usize] = true;
        State {
            frames: vec![],
            top: Frame { func: f, regs: vec![V::I(0); n], bb: 0, ip: 0, stack_base: 0 },
            heap: vec![],
            stack: vec![],
            gov: Map::default(),
            vars: vec![],
            singles: 0,
            mcs: vec![],
            mcmask: 0,
            steps: 0,
            heap_live: 0,
            obs: vec![],
            input: vec![],
            maxdepth: 0,
            split: false,
        }
    }

    // ---------------------------------------------------------------- paths

    pub fn finish(&mut self, mut st: State, stop: Stop) -> Option<String> {
        self.stats.steps += st.steps;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_depth = self.stats.max_depth.max(st.maxdepth);
        self.stats.max_vars = self.stats.max_vars.max(st.vars.len() as u32);
        match stop {
            Stop::Done => {
                self.stats.paths += 1;
                if self.samples.len() < self.max_samples && self.stats.paths % self.sample_every == 0 {
                    self.sample_every = self.sample_every * 3 / 2 + 1;
                    match self.solver.model(&self.cx, &st, None, self.stats.paths) {
                        Ok(Some(vals)) => {
                            let obs = std::mem::take(&mut st.obs);
                            let obs = obs.iter().map(|o| self.eval_bytes(o, &vals)).collect();
                            self.samples.push(Sample { vals, obs });
                        }
                        Ok(None) if st.split => {
                            self.stats.paths -= 1;
                            self.stats.infeasible += 1;
                        }
                        Ok(None) => return Some("completed path has no model".into()),
                        Err(e) => return Some(e),
                    }
                }
                None
            }
            Stop::Infeasible => {
                self.stats.infeasible += 1;
                None
            }
            Stop::Violation(kind, detail) => {
                self.stats.paths += 1;
                self.report(&st, None, kind, detail)
            }
            Stop::Error(e) => Some(format!("{e} [{}]", self.trace(&st).join(" < "))),
        }
    }

    fn eval_bytes(&self, bs: &[V], vals: &[u8]) -> Vec<u8> {
        let mut memo = Map::default();
        bs.iter()
            .map(|b| match b {
                V::I(k) => *k as u8,
                V::S(e) => self.cx.eval(*e, &|o| vals[o as usize], &mut memo) as u8,
                _ => 0,
            })
            .collect()
    }

    fn report(&mut self, st: &State, extra: Option<(Ex, bool)>, kind: String, detail: String) -> Option<String> {
        let trace = self.trace(st);
        let key = format!("{kind}|{detail}|{}", trace.iter().take(3).cloned().collect::<Vec<_>>().join("|"));
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.violations.len() >= 40 {
            return None;
        }
        match self.solver.model(&self.cx, st, extra, 0) {
            Ok(Some(vals)) => {
                let input = st.input.iter().map(|i| String::from_utf8_lossy(&self.eval_bytes(i, &vals)).into_owned()).collect::<Vec<_>>().join(" | ");
                self.violations.push(Violation { kind, detail, trace, vals, input });
                None
            }
            Ok(None) if st.split => None,
            Ok(None) => Some("violating path has no model".into()),
            Err(e) => Some(e),
        }
    }

    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.top.func.name.clone()];
        for f in st.frames.iter().rev().take(5) {
            v.push(f.func.name.clone());
        }
        v
    }

    // ---------------------------------------------------------- constraints

    /// value of `e` if the path fixes every variable in it
    #[inline]
    fn fixed(&self, st: &State, e: Ex) -> Option<u64> {
        let n = self.cx.n(e);
        if n.mask & !st.singles == 0 && n.w <= 64 {
            let mut memo = Map::default();
            Some(self.cx.eval(e, &|o| dom_first(&st.vars[o as usize].dom), &mut memo) as u64)
        } else {
            None
        }
    }

    pub fn assume(&mut self, st: &mut State, e: Ex, pos: bool) -> R<()> {
        let n = self.cx.n(e);
        if let Some(t) = n.tab.clone() {
            let ord = self.cx.vars[t.var as usize].ord;
            let v = &mut st.vars[ord as usize];
            v.dom = if pos { dom_and(&v.dom, &t.tset) } else { dom_andn(&v.dom, &t.tset) };
            match dom_count(&v.dom) {
                0 => return Err(Stop::Infeasible),
                1 => st.singles |= 1 << ord,
                _ => {}
            }
            return Ok(());
        }
        // split conjunctions
        if n.w == 1 && ((n.op == Op::And && pos) || (n.op == Op::Or && !pos)) {
            let (a, b) = (n.a, n.b);
            self.assume(st, a, pos)?;
            return self.assume(st, b, pos);
        }
        if n.op == Op::Xor && n.w == 1 {
            let b = self.cx.n(n.b);
            if b.op == Op::Const && b.k == 1 {
                let a = n.a;
                return self.assume(st, a, !pos);
            }
        }
        if n.op == Op::Const {
            return if (n.k == 1) == pos { Ok(()) } else { Err(Stop::Infeasible) };
        }
        let mask = n.mask;
        let e = if pos {
            e
        } else {
            match self.cx.not(&V::S(e)) {
                V::S(x) => x,
                _ => return Ok(()),
            }
        };
        if !st.mcs.contains(&e) {
            st.mcs.push(e);
            st.mcmask |= mask;
        }
        Ok(())
    }

    /// `e` with what the path has already fixed filled in
    fn settled(&mut self, st: &State, e: Ex) -> V {
        let n = self.cx.n(e);
        if n.mask & st.singles == 0 || n.tab.is_some() || n.w > 64 {
            return V::S(e);
        }
        let mut memo = Map::default();
        self.cx.subst(e, st.singles, &|o| dom_first(&st.vars[o as usize].dom), &mut memo)
    }

    /// Explore the values of all but one of the variables in `e` one by one.
    fn split(&mut self, st: &mut State, e: Ex) -> R<V> {
        if self.cx.n(e).tab.is_some() {
            return Ok(V::S(e));
        }
        let mut vars: Vec<u32> = (0..st.vars.len() as u32).filter(|o| self.cx.n(e).mask >> o & 1 == 1 && st.singles >> o & 1 == 0).collect();
        vars.sort_by_key(|o| dom_count(&st.vars[*o as usize].dom));
        vars.pop();
        for o in vars {
            let v = V::S(self.cx.var_node(st.vars[o as usize].id));
            self.concretize(st, &v, 8)?;
        }
        Ok(self.settled(st, e))
    }

    /// (can be true, can be false)
    fn feas(&mut self, st: &mut State, e: Ex) -> R<(bool, bool)> {
        loop {
            match self.feas1(st, e) {
                Err(Stop::Error(m)) if m == UNKNOWN => {}
                r => return r,
            }
            self.split_one(st, e)?;
        }
    }

    /// The solver could not decide a question about `e`: explore the values of
    /// one more variable one by one (each alternative comes back to this
    /// instruction).
    fn split_one(&mut self, st: &mut State, e: Ex) -> R<()> {
        let mut mask = self.cx.n(e).mask;
        loop {
            let m = st.mcs.iter().map(|c| self.cx.n(*c).mask).filter(|m| m & mask != 0).fold(mask, |a, m| a | m);
            if m == mask {
                break;
            }
            mask = m;
        }
        let o = (0..st.vars.len() as u32)
            .filter(|o| mask >> o & 1 == 1 && st.singles >> o & 1 == 0)
            .min_by_key(|o| dom_count(&st.vars[*o as usize].dom))
            .ok_or_else(|| Stop::Error(UNKNOWN.into()))?;
        self.stats.splits += 1;
        let dom = st.vars[o as usize].dom;
        let mut first = None;
        for b in dom_iter(dom) {
            let mut s = st.clone();
            s.vars[o as usize].dom = [0; 4];
            s.vars[o as usize].dom[(b >> 6) as usize] = 1 << (b & 63);
            s.singles |= 1 << o;
            let old = std::mem::take(&mut s.mcs);
            s.mcmask = 0;
            let mut ok = true;
            for c in old {
                match self.settled(&s, c) {
                    V::I(0) => ok = false,
                    V::S(c) => match self.assume(&mut s, c, true) {
                        Ok(()) => {}
                        Err(Stop::Infeasible) => ok = false,
                        Err(x) => return Err(x),
                    },
                    _ => {}
                }
            }
            s.split = true;
            if !ok {
                continue;
            }
            if first.is_none() {
                first = Some(s);
            } else {
                s.steps = 0;
                self.stats.forks += 1;
                self.pending.push(s);
            }
        }
        *st = first.ok_or(Stop::Infeasible)?;
        Ok(())
    }

    fn feas1(&mut self, st: &State, e: Ex) -> R<(bool, bool)> {
        if let Some(k) = self.fixed(st, e) {
            return Ok((k & 1 == 1, k & 1 == 0));
        }
        let e = match self.settled(st, e) {
            V::I(k) => return Ok((k & 1 == 1, k & 1 == 0)),
            V::S(e) => e,
            _ => e,
        };
        let n = self.cx.n(e);
        if let Some(t) = &n.tab {
            let v = &st.vars[self.cx.vars[t.var as usize].ord as usize];
            let can_t = !dom_empty(&dom_and(&v.dom, &t.tset));
            let can_f = !dom_empty(&dom_andn(&v.dom, &t.tset));
            let mask = n.mask;
            let dom = v.dom;
            self.solver.confirm(&self.cx, e, mask.trailing_zeros(), dom, can_t, can_f).map_err(Stop::Error)?;
            if can_t && can_f && st.mcmask & mask != 0 {
                let a = self.solver.sat(&self.cx, st, Some((e, true))).map_err(Stop::Error)?;
                let b = self.solver.sat(&self.cx, st, Some((e, false))).map_err(Stop::Error)?;
                return Ok((a, b));
            }
            return Ok((can_t, can_f));
        }
        if st.mcs.contains(&e) {
            return Ok((true, false));
        }
        let a = self.solver.sat(&self.cx, st, Some((e, true))).map_err(Stop::Error)?;
        if !a {
            return Ok((false, true));
        }
        let b = self.solver.sat(&self.cx, st, Some((e, false))).map_err(Stop::Error)?;
        Ok((a, b))
    }

    /// Resolve a boolean; forks the state if both outcomes are possible.
    /// Must be called before the current instruction has had any effect.
    pub fn decide(&mut self, st: &mut State, c: &V) -> R<bool> {
        let e = match c {
            V::I(k) => return Ok(*k & 1 == 1),
            V::S(e) => *e,
            _ => return Err(Stop::Error("decide on aggregate".into())),
        };
        match self.feas(st, e)? {
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => Err(Stop::Infeasible),
            (true, true) => {
                let mut other = st.clone();
                self.stats.forks += 1;
                other.steps = 0;
                match self.assume(&mut other, e, false) {
                    Ok(()) => self.pending.push(other),
                    Err(Stop::Infeasible) => {}
                    Err(x) => return Err(x),
                }
                self.assume(st, e, true)?;
                Ok(true)
            }
        }
    }

    /// Condition that must hold on every path through here.
    fn must(&mut self, st: &mut State, c: &V, kind: &str, detail: &str, counted: bool) -> R<()> {
        let e = match c {
            V::I(k) => {
                if counted {
                    self.stats.asserts_concrete += 1;
                }
                return if *k & 1 == 1 { Ok(()) } else { Err(Stop::Violation(kind.into(), detail.into())) };
            }
            V::S(e) => *e,
            _ => return Err(Stop::Error("assert on aggregate".into())),
        };
        if counted {
            self.stats.asserts_solver += 1;
        }
        let (t, f) = self.feas(st, e)?;
        if f {
            if let Some(err) = self.report(st, Some((e, false)), kind.into(), detail.into()) {
                return Err(Stop::Error(err));
            }
        }
        if !t {
            return Err(Stop::Infeasible);
        }
        if f {
            self.assume(st, e, true)?;
        }
        Ok(())
    }

    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v {
            V::I(k) => return Ok(*k),
            V::S(e) => *e,
            _ => return Err(Stop::Error("concretize aggregate".into())),
        };
        if let Some(k) = self.fixed(st, e) {
            return Ok(k);
        }
        loop {
            let n = self.cx.n(e);
            let k = if let (Some(t), true) = (&n.tab, st.mcmask & n.mask == 0) {
                let var = &self.cx.vars[t.var as usize];
                let d = &st.vars[var.ord as usize].dom;
                t.vals[var.rank[dom_first(d) as usize] as usize]
            } else {
                let vals = match self.solver.model_slice(&self.cx, st, e) {
                    Err(m) if m == UNKNOWN => {
                        self.split_one(st, e)?;
                        match self.settled(st, e) {
                            V::I(k) => return Ok(k),
                            V::S(x) => return self.concretize(st, &V::S(x), w),
                            _ => return Err(Stop::Error("concretize".into())),
                        }
                    }
                    r => r.map_err(Stop::Error)?.ok_or(Stop::Infeasible)?,
                };
                let mut memo = Map::default();
                self.cx.eval(e, &|o| vals[o as usize], &mut memo) as u64
            };
            let c = self.cx.bin(Op::Eq, w, v, &V::I(k));
            if self.decide(st, &c)? {
                return Ok(k);
            }
        }
    }

    // --------------------------------------------------------------- memory

    fn obj<'a>(&'a mut self, st: &'a State, addr: u64, n: u64) -> R<(&'a Rc<Obj>, usize)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let o = if id >= STACK_BASE {
            st.stack.get((id - STACK_BASE) as usize)
        } else if id >= HEAP_BASE {
            match st.heap.get((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Some(o),
                Some(None) => return Err(Stop::Violation("memory".into(), "use after free".into())),
                None => None,
            }
        } else if id >= FN_BASE || id == 0 {
            None
        } else {
            if let Some(o) = st.gov.get(&(id as u32)) {
                Some(o)
            } else {
                let i = id as usize - 1;
                if i >= self.gobjs.len() {
                    None
                } else {
                    if self.gobjs[i].is_none() {
                        let data = (*self.m.global_init(i as u32)).clone();
                        self.gobjs[i] = Some(Rc::new(Obj { data, sym: None, ro: self.m.gvars[i].konst }));
                    }
                    self.gobjs[i].as_ref()
                }
            }
        };
        match o {
            Some(o) => {
                if off as u64 + n <= o.data.len() as u64 {
                    Ok((o, off))
                } else {
                    Err(Stop::Violation("memory".into(), format!("out-of-bounds access of {n} bytes at offset {off} of a {}-byte object", o.data.len())))
                }
            }
            None => Err(Stop::Violation("memory".into(), format!("invalid pointer {addr:#x}"))),
        }
    }

    fn obj_mut<'a>(&'a mut self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        let rc = if id >= STACK_BASE {
            st.stack.get_mut((id - STACK_BASE) as usize)
        } else if id >= HEAP_BASE {
            match st.heap.get_mut((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Some(o),
                Some(None) => return Err(Stop::Violation("memory".into(), "write after free".into())),
                None => None,
            }
        } else if id == 0 || id >= FN_BASE {
            None
        } else {
            if !st.gov.contains_key(&(id as u32)) {
                let o = self.obj(st, id << 32, 0)?.0.clone();
                st.gov.insert(id as u32, o);
            }
            st.gov.get_mut(&(id as u32))
        };
        match rc {
            Some(rc) => {
                if rc.ro {
                    return Err(Stop::Violation("memory".into(), "write to constant".into()));
                }
                if off as u64 + n > rc.data.len() as u64 {
                    return Err(Stop::Violation(
                        "memory".into(),
                        format!("out-of-bounds write of {n} bytes at offset {off} of a {}-byte object", rc.data.len()),
                    ));
                }
                Ok((Rc::make_mut(rc), off))
            }
            None => Err(Stop::Violation("memory".into(), format!("invalid pointer {addr:#x}"))),
        }
    }

    fn load_scalar(&mut self, st: &State, bits: u32, addr: u64) -> R<V> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = self.obj(st, addr, n as u64)?;
        let sym = match &o.sym {
            Some(s) => s[off..off + n].iter().any(|e| *e != 0),
            None => false,
        };
        if !sym {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::I(u64::from_le_bytes(b) & mask_w(bits)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(V::W(Rc::new(u128::from_le_bytes(b))));
        }
        let o = o.clone();
        let s = o.sym.as_ref().unwrap();
        if n == 1 {
            let v = V::S(s[off]);
            return Ok(if bits < 8 { self.cx.extract(&v, 0, bits) } else { v });
        }
        let parts: Vec<(V, u32)> = (off..off + n).map(|i| (if s[i] != 0 { V::S(s[i]) } else { V::I(o.data[i] as u64) }, 8)).collect();
        let v = self.cx.concat(&parts);
        Ok(if bits % 8 != 0 { self.cx.extract(&v, 0, bits) } else { v })
    }

    fn load_ty(&mut self, st: &State, ty: &Ty, addr: u64) -> R<V> {
        if ty.is_scalar() {
            return self.load_scalar(st, ty.bits(), addr);
        }
        let n = ty.nfields();
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            let (o, t) = ty.field(i);
            v.push(self.load_ty(st, &t, addr.wrapping_add(o))?);
        }
        Ok(V::A(Rc::new(v)))
    }

    fn load(&mut self, st: &mut State, ty: &Ty, addr: &V) -> R<V> {
        match addr {
            V::I(a) => self.load_ty(st, ty, *a),
            V::S(e) => {
                let v = self.split(st, *e)?;
                let e = match v {
                    V::I(k) => return self.load_ty(st, ty, k),
                    V::S(e) => e,
                    _ => return Err(Stop::Error("load address".into())),
                };
                if let Some(k) = self.fixed(st, e) {
                    return self.load_ty(st, ty, k);
                }
                let addr = &v;
                if ty.is_scalar() && ty.bits() <= 64 {
                    if let Some(t) = self.cx.n(e).tab.clone() {
                        let var = &self.cx.vars[t.var as usize];
                        let d = st.vars[var.ord as usize].dom;
                        let bytes = var.vals.clone();
                        let mut vals = vec![0u64; t.vals.len()];
                        let mut ok = true;
                        let mut last: Option<(u64, u64)> = None;
                        for (i, b) in bytes.iter().enumerate() {
                            if !dom_has(&d, *b) {
                                continue;
                            }
                            let a = t.vals[i];
                            if let Some((la, lv)) = last {
                                if la == a {
                                    vals[i] = lv;
                                    continue;
                                }
                            }
                            match self.load_scalar(st, ty.bits(), a) {
                                Ok(V::I(k)) => {
                                    vals[i] = k;
                                    last = Some((a, k));
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            return Ok(self.cx.lookup(t.var, ty.bits(), vals));
                        }
                    }
                }
                let a = self.concretize(st, addr, 64)?;
                self.load_ty(st, ty, a)
            }
            _ => Err(Stop::Error("load address".into())),
        }
    }

    fn store_byte(o: &mut Obj, off: usize, v: &V) {
        match v {
            V::I(k) => {
                o.data[off] = *k as u8;
                if let Some(s) = &mut o.sym {
                    s[off] = 0;
                }
            }
            V::S(e) => {
                let n = o.data.len();
                o.sym.get_or_insert_with(|| vec![0; n])[off] = *e;
            }
            _ => unreachable!(),
        }
    }

    fn store_ty(&mut self, st: &mut State, ty: &Ty, v: &V, addr: u64) -> R<()> {
        match v {
            V::I(_) | V::W(_) => {
                let n = ty.size() as usize;
                let b = match v {
                    V::I(k) => (*k as u128).to_le_bytes(),
                    V::W(k) => k.to_le_bytes(),
                    _ => unreachable!(),
                };
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
                Ok(())
            }
            V::S(_) => {
                let bits = ty.bits();
                let n = ((bits + 7) / 8) as usize;
                let v = if bits % 8 != 0 { self.cx.zext(v, bits, n as u32 * 8) } else { v.clone() };
                let bytes: Vec<V> = (0..n).map(|i| self.cx.extract(&v, 8 * i as u32, 8)).collect();
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for (i, b) in bytes.iter().enumerate() {
                    Self::store_byte(o, off + i, b);
                }
                Ok(())
            }
            V::A(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.store_ty(st, &t, x, addr.wrapping_add(o))?;
                }
                Ok(())
            }
        }
    }

    fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.obj(st, addr, n)?;
        Ok((off..off + n as usize)
            .map(|i| match &o.sym {
                Some(s) if s[i] != 0 => V::S(s[i]),
                _ => V::I(o.data[i] as u64),
            })
            .collect())
    }

    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, src, n)?;
        let so = so.clone();
        let n = n as usize;
        let (d, doff) = self.obj_mut(st, dst, n as u64)?;
        d.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        match (&so.sym, &mut d.sym) {
            (Some(s), Some(t)) => t[doff..doff + n].copy_from_slice(&s[soff..soff + n]),
            (Some(s), None) => {
                if s[soff..soff + n].iter().any(|e| *e != 0) {
                    let mut t = vec![0; d.data.len()];
                    t[doff..doff + n].copy_from_slice(&s[soff..soff + n]);
                    d.sym = Some(t);
                }
            }
            (None, Some(t)) => t[doff..doff + n].fill(0),
            (None, None) => {}
        }
        Ok(())
    }

    fn malloc(&mut self, st: &mut State, n: u64, fill: u8) -> u64 {
        if n > MAX_ALLOC {
            return 0;
        }
        st.heap.push(Some(Rc::new(Obj { data: vec![fill; n as usize], sym: None, ro: false })));
        (HEAP_BASE + st.heap.len() as u64 - 1) << 32
    }

    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = a >> 32;
        if a & 0xffff_ffff != 0 || id < HEAP_BASE || id >= STACK_BASE {
            return Err(Stop::Violation("memory".into(), "free of a non-heap pointer".into()));
        }
        match st.heap.get_mut((id - HEAP_BASE) as usize) {
            Some(x) if x.is_some() => {
                *x = None;
                Ok(())
            }
            _ => Err(Stop::Violation("memory".into(), "double free".into())),
        }
    }

    // ------------------------------------------------------------- execution

    #[inline]
    fn get(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::C(v) => v.clone(),
            Opd::R(r) => {
                let v = &st.top.regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(k) = self.fixed(st, *e) {
                        return V::I(k);
                    }
                }
                v.clone()
            }
        }
    }

    #[inline]
    fn set(st: &mut State, r: u32, v: V) {
        st.top.regs[r as usize] = v;
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.bb;
        let f = st.top.func.clone();
        let b = &f.blocks[to as usize];
        if !b.preds.is_empty() {
            let i = b.preds.iter().position(|p| *p == from).expect("phi predecessor");
            let mv = &b.phis[i];
            if mv.len() == 1 {
                let v = self.get(st, &mv[0].1);
                Self::set(st, mv[0].0, v);
            } else {
                let vs: Vec<V> = mv.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in mv.iter().zip(vs) {
                    Self::set(st, *d, v);
                }
            }
        }
        st.top.bb = to;
        st.top.ip = 0;
    }

    fn advance(&mut self, st: &mut State, c: &CallI) {
        match c.normal {
            Some(b) => self.jump(st, b),
            None => st.top.ip += 1,
        }
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let f = st.top.func.clone();
            let b = &f.blocks[st.top.bb as usize];
            match self.block(st, &f, b) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    /// run within a block until control leaves it
    fn block(&mut self, st: &mut State, _f: &Rc<Func>, b: &Block) -> R<()> {
        loop {
            let inst = &b.insts[st.top.ip as usize];
            st.steps += 1;
            if st.steps > self.max_steps {
                return Err(Stop::Violation("no termination".into(), format!("more than {} instructions on one path", self.max_steps)));
            }
            match inst {
                Inst::Bin(op, ty, x, y, d) => {
                    let (x, y) = (self.get(st, x), self.get(st, y));
                    let v = self.binop(st, *op, ty, &x, &y)?;
                    Self::set(st, *d, v);
                }
                Inst::Cmp(p, ty, x, y, d) => {
                    let (x, y) = (self.get(st, x), self.get(st, y));
                    let v = self.cmp(*p, ty, &x, &y)?;
                    Self::set(st, *d, v);
                }
                Inst::Cast(c, from, to, x, d) => {
                    let x = self.get(st, x);
                    let v = self.cast(*c, from, to, &x)?;
                    Self::set(st, *d, v);
                }
                Inst::Select(ty, c, x, y, d, vec) => {
                    let (c, x, y) = (self.get(st, c), self.get(st, x), self.get(st, y));
                    let v = if *vec {
                        match (&c, &x, &y) {
                            (V::A(c), V::A(x), V::A(y)) => {
                                let w = ty.field(0).1.bits();
                                V::A(Rc::new((0..c.len()).map(|i| self.cx.ite(&c[i], &x[i], &y[i], w)).collect()))
                            }
                            _ => return Err(Stop::Error("vector select".into())),
                        }
                    } else {
                        self.select(ty, &c, &x, &y)
                    };
                    Self::set(st, *d, v);
                }
                Inst::Gep(base, off, dynm, d) => {
                    let mut v = self.get(st, base);
                    if *off != 0 {
                        v = self.cx.bin(Op::Add, 64, &v, &V::I(*off));
                    }
                    for (o, w, scale) in dynm {
                        let i = self.get(st, o);
                        let i = self.cx.sext(&i, *w, 64);
                        let i = self.cx.bin(Op::Mul, 64, &i, &V::I(*scale));
                        v = self.cx.bin(Op::Add, 64, &v, &i);
                    }
                    Self::set(st, *d, v);
                }
                Inst::Load(ty, p, d) => {
                    let a = self.get(st, p);
                    let v = self.load(st, ty, &a)?;
                    Self::set(st, *d, v);
                }
                Inst::Store(ty, v, p) => {
                    let a = self.get(st, p);
                    let a = self.concretize(st, &a, 64)?;
                    let v = self.get(st, v);
                    self.store_ty(st, ty, &v, a)?;
                }
                Inst::Alloca(n, d) => {
                    st.stack.push(Rc::new(Obj { data: vec![0xAA; *n as usize], sym: None, ro: false }));
                    let a = (STACK_BASE + st.stack.len() as u64 - 1) << 32;
                    Self::set(st, *d, V::I(a));
                }
                Inst::Call(c) => {
                    if self.call(st, c)? {
                        return Ok(()); // new frame or jump
                    }
                    continue;
                }
                Inst::Br(t) => {
                    self.jump(st, *t);
                    return Ok(());
                }
                Inst::CondBr(c, t, f) => {
                    let c = self.get(st, c);
                    let r = self.decide(st, &c)?;
                    self.jump(st, if r { *t } else { *f });
                    return Ok(());
                }
                Inst::Switch(w, v, def, cases) => {
                    let v = self.get(st, v);
                    let t = self.switch(st, *w, &v, *def, cases)?;
                    self.jump(st, t);
                    return Ok(());
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|v| self.get(st, v));
                    st.stack.truncate(st.top.stack_base as usize);
                    match st.frames.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            let old = std::mem::replace(&mut st.top, fr);
                            if self.pool.len() < 64 {
                                self.pool.push(old.regs);
                            }
                            let f2 = st.top.func.clone();
                            if let Inst::Call(c) = &f2.blocks[st.top.bb as usize].insts[st.top.ip as usize] {
                                if let Some(v) = v {
                                    Self::set(st, c.dst, v);
                                }
                                self.advance(st, c);
                            } else {
                                return Err(Stop::Error("return into non-call".into()));
                            }
                            return Ok(());
                        }
                    }
                }
                Inst::Unreachable => return Err(Stop::Violation("undefined behaviour".into(), "unreachable code reached".into())),
                Inst::ExtractV(v, ix, d) => {
                    let mut v = self.get(st, v);
                    for i in ix {
                        v = match &v {
                            V::A(xs) => xs[*i as usize].clone(),
                            _ => return Err(Stop::Error("extractvalue".into())),
                        };
                    }
                    Self::set(st, *d, v);
                }
                Inst::InsertV(_ty, v, x, ix, d) => {
                    let v = self.get(st, v);
                    let x = self.get(st, x);
                    fn ins(v: &V, ix: &[u32], x: V) -> V {
                        if ix.is_empty() {
                            return x;
                        }
                        match v {
                            V::A(xs) => {
                                let mut n = (**xs).clone();
                                n[ix[0] as usize] = ins(&n[ix[0] as usize], &ix[1..], x);
                                V::A(Rc::new(n))
                            }
                            _ => panic!("insertvalue"),
                        }
                    }
                    Self::set(st, *d, ins(&v, ix, x));
                }
                Inst::ExtractE(v, i, d) => {
                    let v = self.get(st, v);
                    let i = self.get(st, i);
                    let i = self.concretize(st, &i, 64)?;
                    match &v {
                        V::A(xs) => Self::set(st, *d, xs[i as usize].clone()),
                        _ => return Err(Stop::Error("extractelement".into())),
                    }
                }
                Inst::InsertE(_, v, x, i, d) => {
                    let v = self.get(st, v);
                    let i = self.get(st, i);
                    let i = self.concretize(st, &i, 64)?;
                    let x = self.get(st, x);
                    match &v {
                        V::A(xs) => {
                            let mut n = (**xs).clone();
                            n[i as usize] = x;
                            Self::set(st, *d, V::A(Rc::new(n)));
                        }
                        _ => return Err(Stop::Error("insertelement".into())),
                    }
                }
                Inst::Shuffle(a, b, m, d) => {
                    let (a, b) = (self.get(st, a), self.get(st, b));
                    match (&a, &b) {
                        (V::A(x), V::A(y)) => {
                            let r = m
                                .iter()
                                .map(|i| {
                                    let i = *i as usize;
                                    if i < x.len() {
                                        x[i].clone()
                                    } else {
                                        y[i - x.len()].clone()
                                    }
                                })
                                .collect();
                            Self::set(st, *d, V::A(Rc::new(r)));
                        }
                        _ => return Err(Stop::Error("shufflevector".into())),
                    }
                }
                Inst::Rmw(op, ty, p, v, d) => {
                    let a = self.get(st, p);
                    let a = self.concretize(st, &a, 64)?;
                    let v = self.get(st, v);
                    let old = self.load_ty(st, ty, a)?;
                    let w = ty.bits();
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.cx.bin(Op::Add, w, &old, &v),
                        "sub" => self.cx.bin(Op::Sub, w, &old, &v),
                        "or" => self.cx.bin(Op::Or, w, &old, &v),
                        "and" => self.cx.bin(Op::And, w, &old, &v),
                        o => return Err(Stop::Error(format!("atomicrmw {o}"))),
                    };
                    self.store_ty(st, ty, &new, a)?;
                    Self::set(st, *d, old);
                }
                Inst::CmpXchg(ty, p, c, n, d) => {
                    let a = self.get(st, p);
                    let a = self.concretize(st, &a, 64)?;
                    let c = self.get(st, c);
                    let n = self.get(st, n);
                    let old = self.load_ty(st, ty, a)?;
                    let eq = self.cx.bin(Op::Eq, ty.bits(), &old, &c);
                    let eq = self.decide(st, &eq)?;
                    if eq {
                        self.store_ty(st, ty, &n, a)?;
                    }
                    Self::set(st, *d, V::A(Rc::new(vec![old, V::I(eq as u64)])));
                }
                Inst::Copy(v, d) => {
                    let v = self.get(st, v);
                    Self::set(st, *d, v);
                }
                Inst::Nop => {}
                Inst::Bad(s) => return Err(Stop::Error(format!("unsupported instruction: {s}"))),
            }
            st.top.ip += 1;
        }
    }

    fn switch(&mut self, st: &mut State, w: u32, v: &V, def: u32, cases: &Rc<Vec<(u64, u32)>>) -> R<u32> {
        match v {
            V::I(k) => Ok(cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(def)),
            V::S(_) => {
                // one condition per distinct target, so that cases sharing code share a path
                let mut targets: Vec<u32> = vec![];
                for c in cases.iter() {
                    if c.1 != def && !targets.contains(&c.1) {
                        targets.push(c.1);
                    }
                }
                for t in targets {
                    let mut cond = V::I(0);
                    for c in cases.iter().filter(|c| c.1 == t) {
                        let e = self.cx.bin(Op::Eq, w, v, &V::I(c.0));
                        cond = self.cx.bin(Op::Or, 1, &cond, &e);
                    }
                    if self.decide(st, &cond)? {
                        return Ok(t);
                    }
                }
                Ok(def)
            }
            _ => Err(Stop::Error("switch on aggregate".into())),
        }
    }

    fn select(&mut self, ty: &Ty, c: &V, x: &V, y: &V) -> V {
        match c {
            V::I(k) => {
                if *k & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            _ => {
                if ty.is_scalar() {
                    self.cx.ite(c, x, y, ty.bits())
                } else if let (V::A(a), V::A(b)) = (x, y) {
                    let r = (0..a.len()).map(|i| self.select(&ty.field(i as u64).1, c, &a[i], &b[i])).collect();
                    V::A(Rc::new(r))
                } else {
                    panic!("select")
                }
            }
        }
    }

    fn binop(&mut self, st: &mut State, op: BinOp, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = match (x, y) {
                (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                _ => return Err(Stop::Error("vector binop".into())),
            };
            let mut r = Vec::with_capacity(*n as usize);
            for i in 0..*n as usize {
                r.push(self.binop(st, op, t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = ty.bits();
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        if w > 64 {
            return self.wide(st, o, w, x, y);
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let nz = self.cx.bin(Op::Eq, w, y, &V::I(0));
            let nz = self.cx.not(&nz);
            self.must(st, &nz, "undefined behaviour", "division by zero", false)?;
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            // division of numbers that depend on several unknowns is what
            // solvers are worst at; make it depend on one
            if let (V::S(e), V::I(k)) = (x, y) {
                let n = self.cx.n(*e);
                if n.tab.is_none() && !k.is_power_of_two() {
                    let x = self.split(st, *e)?;
                    return Ok(self.cx.bin(o, w, &x, y));
                }
            }
        }
        Ok(self.cx.bin(o, w, x, y))
    }

    /// a number of more than 64 bits, one way for each value it may have
    fn concretize_wide(&mut self, st: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::W(k) => return Ok(**k),
            V::I(k) => return Ok(*k as u128),
            _ => {}
        }
        let l = self.cx.extract(v, 0, 64);
        let h = self.cx.extract(v, 64, w - 64);
        let l = self.concretize(st, &l, 64)?;
        let h = self.concretize(st, &h, w - 64)?;
        Ok((h as u128) << 64 | l as u128)
    }

    fn wide(&mut self, st: &mut State, o: Op, w: u32, x: &V, y: &V) -> R<V> {
        let m = !0u128 >> (128 - w);
        let cv = |v: &V| match v {
            V::W(k) => Some(**k),
            V::I(k) => Some(*k as u128),
            _ => None,
        };
        if let (Some(a), Some(b)) = (cv(x), cv(y)) {
            let r = match o {
                Op::Add => a.wrapping_add(b),
                Op::Sub => a.wrapping_sub(b),
                Op::Mul => a.wrapping_mul(b),
                Op::And => a & b,
                Op::Or => a | b,
                Op::Xor => a ^ b,
                Op::Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                Op::LShr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if b == 0 => return Err(Stop::Violation("undefined behaviour".into(), "division by zero".into())),
                Op::UDiv => a / b,
                Op::URem => a % b,
                _ => {
                    let sx = |k: u128| ((k << (128 - w)) as i128) >> (128 - w);
                    match o {
                        Op::SDiv => sx(a).wrapping_div(sx(b)) as u128,
                        Op::SRem => sx(a).wrapping_rem(sx(b)) as u128,
                        Op::AShr => (sx(a) >> b.min(w as u128 - 1)) as u128,
                        _ => return Err(Stop::Error(format!("wide op {o:?}"))),
                    }
                }
            };
            return Ok(V::W(Rc::new(r & m)));
        }
        match o {
            Op::And | Op::Or | Op::Xor => {
                let xl = self.cx.extract(x, 0, 64);
                let yl = self.cx.extract(y, 0, 64);
                let xh = self.cx.extract(x, 64, w - 64);
                let yh = self.cx.extract(y, 64, w - 64);
                let l = self.cx.bin(o, 64, &xl, &yl);
                let h = self.cx.bin(o, w - 64, &xh, &yh);
                Ok(self.cx.concat2(&h, w - 64, &l, 64))
            }
            Op::Shl | Op::LShr => {
                let k = self.concretize_wide(st, y, w)?;
                if k >= w as u128 {
                    return Ok(V::I(0));
                }
                let k = k as u32;
                if k == 0 {
                    return Ok(x.clone());
                }
                let mut parts = vec![];
                let zeros = |parts: &mut Vec<(V, u32)>, mut n: u32| {
                    while n > 0 {
                        let c = n.min(64);
                        parts.push((V::I(0), c));
                        n -= c;
                    }
                };
                if o == Op::Shl {
                    zeros(&mut parts, k);
                    parts.push((self.cx.extract(x, 0, w - k), w - k));
                } else {
                    parts.push((self.cx.extract(x, k, w - k), w - k));
                    zeros(&mut parts, k);
                }
                Ok(self.cx.concat(&parts))
            }
            Op::Add | Op::Sub => {
                let xl = self.cx.extract(x, 0, 64);
                let yl = self.cx.extract(y, 0, 64);
                let xh = self.cx.extract(x, 64, w - 64);
                let yh = self.cx.extract(y, 64, w - 64);
                let l = self.cx.bin(o, 64, &xl, &yl);
                let c = if o == Op::Add { self.cx.bin(Op::Ult, 64, &l, &xl) } else { self.cx.bin(Op::Ult, 64, &xl, &yl) };
                let c = self.cx.zext(&c, 1, w - 64);
                let h = self.cx.bin(o, w - 64, &xh, &yh);
                let h = self.cx.bin(o, w - 64, &h, &c);
                Ok(self.cx.concat2(&h, w - 64, &l, 64))
            }
            _ => {
                let a = self.concretize_wide(st, x, w)?;
                let b = self.concretize_wide(st, y, w)?;
                self.wide(st, o, w, &V::W(Rc::new(a)), &V::W(Rc::new(b)))
            }
        }
    }

    fn cmp(&mut self, p: Pred, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = match (x, y) {
                (V::A(x), V::A(y)) => (x.clone(), y.clone()),
                _ => return Err(Stop::Error("vector icmp".into())),
            };
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.cmp(p, t, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let w = ty.bits();
        if let (V::I(a), V::I(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            return Ok(V::I(match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            } as u64));
        }
        if w > 64 {
            let xl = self.cx.extract(x, 0, 64);
            let yl = self.cx.extract(y, 0, 64);
            let xh = self.cx.extract(x, 64, w - 64);
            let yh = self.cx.extract(y, 64, w - 64);
            let a = self.cx.bin(Op::Eq, 64, &xl, &yl);
            let b = self.cx.bin(Op::Eq, w - 64, &xh, &yh);
            let e = self.cx.bin(Op::And, 1, &a, &b);
            let (op, swap, neg) = match p {
                Pred::Eq => return Ok(e),
                Pred::Ne => return Ok(self.cx.not(&e)),
                Pred::Ult => (Op::Ult, false, false),
                Pred::Uge => (Op::Ult, false, true),
                Pred::Ugt => (Op::Ult, true, false),
                Pred::Ule => (Op::Ult, true, true),
                Pred::Slt => (Op::Slt, false, false),
                Pred::Sge => (Op::Slt, false, true),
                Pred::Sgt => (Op::Slt, true, false),
                Pred::Sle => (Op::Slt, true, true),
            };
            let (xl, xh, yl, yh) = if swap { (yl, yh, xl, xh) } else { (xl, xh, yl, yh) };
            let hl = self.cx.bin(op, w - 64, &xh, &yh);
            let ll = self.cx.bin(Op::Ult, 64, &xl, &yl);
            let t = self.cx.bin(Op::And, 1, &b, &ll);
            let r = self.cx.bin(Op::Or, 1, &hl, &t);
            return Ok(if neg { self.cx.not(&r) } else { r });
        }
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sge => (Op::Slt, false, true),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sle => (Op::Slt, true, true),
        };
        let r = if swap { self.cx.bin(op, w, y, x) } else { self.cx.bin(op, w, x, y) };
        Ok(if neg { self.cx.not(&r) } else { r })
    }

    fn cast(&mut self, c: CastOp, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(n, f), Ty::Vec(m, t)) = (from, to) {
            if c != CastOp::Bit || n == m {
                let xs = match x {
                    V::A(xs) => xs.clone(),
                    _ => return Err(Stop::Error("vector cast".into())),
                };
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.cast(c, f, t, &xs[i])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        if c == CastOp::Bit {
            if from.is_scalar() && to.is_scalar() {
                return Ok(x.clone());
            }
            // reinterpret through the flattened bit string
            let mut parts = vec![];
            match (from, x) {
                (Ty::Vec(_, t), V::A(xs)) => {
                    for v in xs.iter() {
                        parts.push((v.clone(), t.bits()));
                    }
                }
                (t, v) => parts.push((v.clone(), t.bits())),
            }
            return Ok(match to {
                Ty::Vec(n, t) => {
                    let w = t.bits();
                    let total: u32 = parts.iter().map(|p| p.1).sum();
                    if total > 128 {
                        return Err(Stop::Error("wide vector bitcast".into()));
                    }
                    let all = self.cx.concat(&parts);
                    V::A(Rc::new((0..*n as u32).map(|i| self.cx.extract(&all, i * w, w)).collect()))
                }
                _ => self.cx.concat(&parts),
            });
        }
        let (f, t) = (from.bits(), to.bits());
        Ok(match c {
            CastOp::Trunc => {
                if let V::I(k) = x {
                    V::I(k & mask_w(t))
                } else {
                    self.cx.extract(x, 0, t)
                }
            }
            CastOp::ZExt => self.cx.zext(x, f, t),
            CastOp::SExt => {
                if t > 64 && !matches!(x, V::I(_)) {
                    let l = self.cx.sext(x, f, 64);
                    let s = self.cx.bin(Op::AShr, 64, &l, &V::I(63));
                    let h = self.cx.extract(&s, 0, t - 64);
                    return Ok(self.cx.concat2(&h, t - 64, &l, 64));
                }
                self.cx.sext(x, f, t)
            }
            CastOp::Bit => unreachable!(),
        })
    }

    /// returns true if control moved (new frame / jump), false if the call completed in place
    /// (ip already advanced)
    fn call(&mut self, st: &mut State, c: &CallI) -> R<bool> {
        let idx = match &c.callee {
            Callee::Intr(n) => {
                let v = self.intrinsic(st, n, c)?;
                if let Some(v) = v {
                    Self::set(st, c.dst, v);
                }
                self.advance(st, c);
                return Ok(c.normal.is_some());
            }
            Callee::Func(i) => *i,
            Callee::Ptr(p) => {
                let a = self.get(st, p);
                let a = self.concretize(st, &a, 64)?;
                let id = a >> 32;
                if id < FN_BASE || id >= HEAP_BASE || a & 0xffff_ffff != 0 {
                    return Err(Stop::Violation("memory".into(), "call through invalid pointer".into()));
                }
                (id - FN_BASE) as u32
            }
        };
        let sp = self.special[idx as usize];
        if sp != Special::None {
            let v = self.external(st, idx, sp, c)?;
            if let Some(v) = v {
                Self::set(st, c.dst, v);
            }
            self.advance(st, c);
            return Ok(c.normal.is_some());
        }
        let f = self.m.func(idx).unwrap();
        self.funcs_used[idx as usize] = true;
        let mut regs = self.pool.pop().unwrap_or_default();
        if regs.len() < f.nregs as usize {
            regs.resize(f.nregs as usize, V::I(0));
        } else {
            regs.truncate(f.nregs as usize);
        }
        for (i, a) in c.args.iter().enumerate().take(f.nargs as usize) {
            regs[i] = self.get(st, a);
        }
        let depth = st.frames.len() as u32 + 1;
        if depth > st.maxdepth {
            st.maxdepth = depth;
            if depth > self.max_depth {
                return Err(Stop::Violation("stack".into(), format!("call depth exceeds {}", self.max_depth)));
            }
        }
        let fr = Frame { func: f, regs, bb: 0, ip: 0, stack_base: st.stack.len() as u32 };
        let old = std::mem::replace(&mut st.top, fr);
        st.frames.push(Rc::new(old));
        Ok(true)
    }

    fn arg(&self, st: &State, c: &CallI, i: usize) -> V {
        self.get(st, &c.args[i])
    }
    fn argc(&mut self, st: &mut State, c: &CallI, i: usize) -> R<u64> {
        let v = self.arg(st, c, i);
        let w = c.tys[i].bits();
        self.concretize(st, &v, w)
    }

    fn text(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        let b = self.read_bytes(st, a, n)?;
        let b: Vec<u8> = b.iter().map(|v| if let V::I(k) = v { *k as u8 } else { b'?' }).collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }

    fn external(&mut self, st: &mut State, idx: u32, sp: Special, c: &CallI) -> R<Option<V>> {
        match sp {
            Special::Panic => Err(Stop::Violation("panic".into(), short(&self.m.funcs[idx as usize].name))),
            Special::Abort => Err(Stop::Violation("abort".into(), "abort called".into())),
            Special::Malloc => {
                let n = self.argc(st, c, 0)?;
                Ok(Some(V::I(self.malloc(st, n, 0xAA))))
            }
            Special::Calloc => {
                let n = self.argc(st, c, 0)?;
                let k = self.argc(st, c, 1)?;
                Ok(Some(V::I(self.malloc(st, n.saturating_mul(k), 0))))
            }
            Special::PosixMemalign => {
                let p = self.argc(st, c, 0)?;
                let n = self.argc(st, c, 2)?;
                let a = self.malloc(st, n, 0xAA);
                self.store_ty(st, &Ty::Ptr, &V::I(a), p)?;
                Ok(Some(V::I(0)))
            }
            Special::Realloc => {
                let p = self.argc(st, c, 0)?;
                let n = self.argc(st, c, 1)?;
                let a = self.malloc(st, n, 0xAA);
                if p != 0 && a != 0 {
                    let old = {
                        let (o, _) = self.obj(st, p, 0)?;
                        o.data.len() as u64
                    };
                    self.memcpy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(Some(V::I(a)))
            }
            Special::Free => {
                let p = self.argc(st, c, 0)?;
                self.free(st, p)?;
                Ok(None)
            }
            Special::Bcmp | Special::Memcmp => {
                let a = self.argc(st, c, 0)?;
                let b = self.argc(st, c, 1)?;
                let n = self.argc(st, c, 2)?;
                let x = self.read_bytes(st, a, n)?;
                let y = self.read_bytes(st, b, n)?;
                // a difference in concrete bytes decides bcmp without looking at symbolic ones
                if sp == Special::Bcmp {
                    for i in 0..n as usize {
                        if let (V::I(p), V::I(q)) = (&x[i], &y[i]) {
                            if p != q {
                                return Ok(Some(V::I(1)));
                            }
                        }
                    }
                }
                for i in 0..n as usize {
                    let (p, q) = (&x[i], &y[i]);
                    let e = self.cx.bin(Op::Eq, 8, p, q);
                    if !self.decide(st, &e)? {
                        if sp == Special::Bcmp {
                            return Ok(Some(V::I(1)));
                        }
                        let l = self.cx.bin(Op::Ult, 8, p, q);
                        let l = self.decide(st, &l)?;
                        return Ok(Some(V::I(if l { 0xffff_ffff } else { 1 })));
                    }
                }
                Ok(Some(V::I(0)))
            }
            Special::Strlen => {
                let a = self.argc(st, c, 0)?;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(st, 8, a + n)?;
                    let z = self.cx.bin(Op::Eq, 8, &b, &V::I(0));
                    if self.decide(st, &z)? {
                        return Ok(Some(V::I(n)));
                    }
                    n += 1;
                }
            }
            Special::Getenv => Ok(Some(V::I(0))),
            // one sequence of random numbers
            Special::Getrandom => {
                let p = self.argc(st, c, 0)?;
                let n = self.argc(st, c, 1)?;
                if n > 0 {
                    let (o, off) = self.obj_mut(st, p, n)?;
                    for i in 0..n as usize {
                        Self::store_byte(o, off + i, &V::I((i as u64).wrapping_mul(0x9e37) >> 3 & 0xff));
                    }
                }
                Ok(Some(V::I(n)))
            }
            // threads do not end
            Special::Atexit => Ok(Some(V::I(0))),
            Special::SymByte => {
                let p = self.argc(st, c, 0)?;
                let mut dom = [0u64; 4];
                for (i, d) in dom.iter_mut().enumerate() {
                    match self.load_scalar(st, 64, p + 8 * i as u64)? {
                        V::I(k) => *d = k,
                        _ => return Err(Stop::Error("symbolic domain".into())),
                    }
                }
                Ok(Some(self.new_var(st, dom)?))
            }
            Special::SymChoice => {
                let n = self.argc(st, c, 0)?;
                if n == 0 || n > 256 {
                    return Err(Stop::Error("sym_choice range".into()));
                }
                let mut dom = [0u64; 4];
                if let (Some(k), 0) = (self.first_choice, st.vars.len()) {
                    dom[(k >> 6) as usize] = 1 << (k & 63);
                    return Ok(Some(self.new_var(st, dom)?));
                }
                for b in 0..n {
                    dom[(b >> 6) as usize] |= 1 << (b & 63);
                }
                // materialise all alternatives at once
                let v = self.new_var(st, dom)?;
                if let V::S(e) = v {
                    let ord = self.cx.n(e).mask.trailing_zeros();
                    for b in (1..n).rev() {
                        let mut o = st.clone();
                        o.steps = 0;
                        o.vars[ord as usize].dom = [0; 4];
                        o.vars[ord as usize].dom[(b >> 6) as usize] = 1 << (b & 63);
                        o.singles |= 1 << ord;
                        Self::set(&mut o, c.dst, V::I(b));
                        self.advance(&mut o, c);
                        self.stats.forks += 1;
                        self.pending.push(o);
                    }
                    st.vars[ord as usize].dom = [1, 0, 0, 0];
                    st.singles |= 1 << ord;
                    return Ok(Some(V::I(0)));
                }
                Ok(Some(v))
            }
            Special::SymAssume => {
                let v = self.arg(st, c, 0);
                match v {
                    V::I(k) => {
                        if k & 1 == 0 {
                            return Err(Stop::Infeasible);
                        }
                    }
                    V::S(e) => {
                        let (t, f) = self.feas(st, e)?;
                        if !t {
                            return Err(Stop::Infeasible);
                        }
                        if f {
                            self.assume(st, e, true)?;
                        }
                    }
                    _ => return Err(Stop::Error("assume".into())),
                }
                Ok(None)
            }
            Special::SymAssert => {
                let v = self.arg(st, c, 0);
                let p = self.argc(st, c, 1)?;
                let n = self.argc(st, c, 2)?;
                let tag = self.text(st, p, n)?;
                self.must(st, &v, "assertion", &tag, true)?;
                Ok(None)
            }
            Special::SymMark => {
                let k = self.argc(st, c, 0)?;
                self.stats.marks[k as usize & 7] += 1;
                Ok(None)
            }
            Special::SymObserve | Special::SymInput => {
                let p = self.argc(st, c, 0)?;
                let n = self.argc(st, c, 1)?;
                let b = self.read_bytes(st, p, n)?;
                if sp == Special::SymObserve {
                    st.obs.push(b);
                } else {
                    st.input.push(b);
                }
                Ok(None)
            }
            Special::Unknown | Special::None => Err(Stop::Error(format!("call of external function {}", self.m.funcs[idx as usize].name))),
        }
    }

    fn new_var(&mut self, st: &mut State, dom: Dom) -> R<V> {
        let ord = st.vars.len() as u32;
        if ord >= 128 {
            return Err(Stop::Error("more than 128 symbolic bytes on one path".into()));
        }
        if dom_empty(&dom) {
            return Err(Stop::Infeasible);
        }
        let (id, e) = self.cx.var(ord, dom);
        st.vars.push(VarSt { id, dom });
        if dom_count(&dom) == 1 {
            st.singles |= 1 << ord;
            return Ok(V::I(dom_first(&dom) as u64));
        }
        Ok(V::S(e))
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, c: &CallI) -> R<Option<V>> {
        let n = &name[5..];
        let base = n.split('.').next().unwrap();
        let starts = |p: &str| n.starts_with(p);
        if starts("lifetime") || starts("experimental.noalias") || starts("dbg") || starts("x86.sse2.pause") || starts("prefetch") || starts("donothing") || starts("pseudoprobe") {
            return Ok(None);
        }
        if starts("assume") {
            let v = self.arg(st, c, 0);
            self.must(st, &v, "undefined behaviour", "llvm.assume violated", false)?;
            return Ok(None);
        }
        if starts("memcpy") || starts("memmove") {
            let n = self.argc(st, c, 2)?;
            let d = self.argc(st, c, 0)?;
            let s = self.argc(st, c, 1)?;
            self.memcpy(st, d, s, n)?;
            return Ok(None);
        }
        if starts("memset") {
            let n = self.argc(st, c, 2)?;
            let d = self.argc(st, c, 0)?;
            let v = self.arg(st, c, 1);
            if n > 0 {
                let (o, off) = self.obj_mut(st, d, n)?;
                match v {
                    V::I(k) => {
                        o.data[off..off + n as usize].fill(k as u8);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n as usize].fill(0);
                        }
                    }
                    v => {
                        for i in 0..n as usize {
                            Self::store_byte(o, off + i, &v);
                        }
                    }
                }
            }
            return Ok(None);
        }
        if starts("trap") || starts("ubsantrap") {
            return Err(Stop::Violation("abort".into(), "trap".into()));
        }
        if starts("is.constant") {
            return Ok(Some(V::I(0)));
        }
        if starts("threadlocal.address") {
            return Ok(Some(self.arg(st, c, 0)));
        }
        if starts("expect") {
            return Ok(Some(self.arg(st, c, 0)));
        }
        if starts("load.relative") {
            let p = self.argc(st, c, 0)?;
            let o = self.arg(st, c, 1);
            let a = self.cx.bin(Op::Add, 64, &V::I(p), &o);
            let v = self.load(st, &Ty::Int(32), &a)?;
            let rel = self.m.rel.borrow();
            let tr = |k: u64| if k >= REL_TOKEN && k - REL_TOKEN < rel.len() as u64 { Some(rel[(k - REL_TOKEN) as usize]) } else { None };
            if let V::S(e) = &v {
                if let Some(t) = self.cx.n(*e).tab.clone() {
                    // entries outside the path's domain are arbitrary
                    let vals = t.vals.iter().map(|k| tr(*k).unwrap_or(0)).collect();
                    return Ok(Some(self.cx.lookup(t.var, 64, vals)));
                }
            }
            drop(rel);
            let k = self.concretize(st, &v, 32)?;
            let rel = self.m.rel.borrow();
            if k >= REL_TOKEN && k - REL_TOKEN < rel.len() as u64 {
                return Ok(Some(V::I(rel[(k - REL_TOKEN) as usize])));
            }
            return Err(Stop::Error("load.relative of an unknown entry".into()));
        }
        if let Ty::Vec(..) = c.ret {
            return self.vec_intr(st, n, base, c);
        }
        if starts("vector.reduce") {
            let v = self.arg(st, c, 0);
            let w = c.ret.bits();
            let op = match n.split('.').nth(2).unwrap() {
                "add" => Op::Add,
                "or" => Op::Or,
                "and" => Op::And,
                "xor" => Op::Xor,
                "mul" => Op::Mul,
                o @ ("umax" | "umin" | "smax" | "smin") => {
                    if let V::A(xs) = v {
                        let mut r = xs[0].clone();
                        for x in &xs[1..] {
                            r = self.scalar_intr(st, o, o, &[r, x.clone()], w, &c.ret)?;
                        }
                        return Ok(Some(r));
                    }
                    return Err(Stop::Error(format!("vector reduce {o}")));
                }
                o => return Err(Stop::Error(format!("vector reduce {o}"))),
            };
            if let V::A(xs) = v {
                let mut r = xs[0].clone();
                for x in &xs[1..] {
                    r = self.cx.bin(op, w, &r, x);
                }
                return Ok(Some(r));
            }
        }
        let args: Vec<V> = (0..c.args.len()).map(|i| self.arg(st, c, i)).collect();
        let w = c.tys.first().map(|t| t.bits()).unwrap_or(0);
        self.scalar_intr(st, n, base, &args, w, &c.ret).map(Some)
    }

    fn vec_intr(&mut self, st: &mut State, full: &str, base: &str, c: &CallI) -> R<Option<V>> {
        let (n, t) = match &c.ret {
            Ty::Vec(n, t) => (*n as usize, t.clone()),
            _ => unreachable!(),
        };
        let args: Vec<V> = (0..c.args.len()).map(|i| self.arg(st, c, i)).collect();
        let mut r = vec![];
        for i in 0..n {
            let a: Vec<V> = args
                .iter()
                .map(|v| match v {
                    V::A(xs) => xs[i].clone(),
                    v => v.clone(),
                })
                .collect();
            r.push(self.scalar_intr(st, full, base, &a, t.bits(), &t)?);
        }
        Ok(Some(V::A(Rc::new(r))))
    }

    /// intrinsics on numbers of more than 64 bits: one way for each value
    fn wide_intr(&mut self, st: &mut State, full: &str, base: &str, a: &[V], w: u32) -> R<V> {
        let m = !0u128 >> (128 - w);
        let sx = |k: u128| ((k << (128 - w)) as i128) >> (128 - w);
        let over = full.contains(".with.overflow");
        if over && matches!(base, "uadd" | "usub") {
            let r = self.wide(st, if base == "uadd" { Op::Add } else { Op::Sub }, w, &a[0], &a[1])?;
            let ty = Ty::Int(w);
            let o = if base == "uadd" { self.cmp(Pred::Ult, &ty, &r, &a[0])? } else { self.cmp(Pred::Ult, &ty, &a[0], &a[1])? };
            return Ok(V::A(Rc::new(vec![r, o])));
        }
        let x = self.concretize_wide(st, &a[0], w)?;
        let y = match a.get(1) {
            Some(v) => self.concretize_wide(st, v, w)?,
            None => 0,
        };
        let r = match base {
            "umax" => x.max(y),
            "umin" => x.min(y),
            "smax" => sx(x).max(sx(y)) as u128,
            "smin" => sx(x).min(sx(y)) as u128,
            "ctpop" => x.count_ones() as u128,
            "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
            "cttz" => x.trailing_zeros().min(w) as u128,
            "abs" => sx(x).unsigned_abs(),
            "bswap" if w == 128 => x.swap_bytes(),
            "umul" | "smul" | "sadd" | "ssub" if over && w == 128 => {
                let (r, o) = match base {
                    "umul" => x.overflowing_mul(y),
                    "smul" => {
                        let (r, o) = sx(x).overflowing_mul(sx(y));
                        (r as u128, o)
                    }
                    "sadd" => {
                        let (r, o) = sx(x).overflowing_add(sx(y));
                        (r as u128, o)
                    }
                    _ => {
                        let (r, o) = sx(x).overflowing_sub(sx(y));
                        (r as u128, o)
                    }
                };
                return Ok(V::A(Rc::new(vec![V::W(Rc::new(r)), V::I(o as u64)])));
            }
            "uadd" if full.contains(".sat") => x.checked_add(y).filter(|r| *r <= m).unwrap_or(m),
            "usub" if full.contains(".sat") => x.saturating_sub(y),
            _ => return Err(Stop::Error(format!("wide intrinsic {full}"))),
        };
        Ok(V::W(Rc::new(r & m)))
    }

    fn scalar_intr(&mut self, st: &mut State, full: &str, base: &str, a: &[V], w: u32, ret: &Ty) -> R<V> {
        if w > 64 {
            return self.wide_intr(st, full, base, a, w);
        }
        // where a formula would be of no use to the solver: one way for each value
        let mut a = a.to_vec();
        let apart = match base {
            "umul" => !matches!(a[0], V::I(_)) && !matches!(a[1], V::I(_)),
            "smul" => true,
            "fshl" | "fshr" => {
                a[2] = V::I(self.concretize(st, &a[2].clone(), w)?);
                false
            }
            _ => false,
        };
        if apart {
            a[1] = V::I(self.concretize(st, &a[1].clone(), w)?);
            if base == "smul" {
                a[0] = V::I(self.concretize(st, &a[0].clone(), w)?);
            }
        }
        let a = &a[..];
        let cx = &mut self.cx;
        match base {
            "sadd" | "ssub" if full.contains(".sat") => {
                let op = if base == "sadd" { Op::Add } else { Op::Sub };
                let s = cx.bin(op, w, &a[0], &a[1]);
                let sa = cx.extract(&a[0], w - 1, 1);
                let sb = cx.extract(&a[1], w - 1, 1);
                let sr = cx.extract(&s, w - 1, 1);
                let dab = cx.bin(Op::Xor, 1, &sa, &sb);
                let dar = cx.bin(Op::Xor, 1, &sa, &sr);
                let k = if base == "sadd" { cx.not(&dab) } else { dab };
                let o = cx.bin(Op::And, 1, &k, &dar);
                let m = cx.ite(&sa, &V::I(1 << (w - 1)), &V::I(mask_w(w - 1)), w);
                Ok(cx.ite(&o, &m, &s, w))
            }
            "umax" | "umin" | "smax" | "smin" => {
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = cx.bin(op, w, &a[0], &a[1]);
                Ok(if base.ends_with("max") { cx.ite(&lt, &a[1], &a[0], w) } else { cx.ite(&lt, &a[0], &a[1], w) })
            }
            "usub" | "uadd" if full.contains(".sat") => {
                if base == "usub" {
                    let lt = cx.bin(Op::Ult, w, &a[0], &a[1]);
                    let d = cx.bin(Op::Sub, w, &a[0], &a[1]);
                    Ok(cx.ite(&lt, &V::I(0), &d, w))
                } else {
                    let s = cx.bin(Op::Add, w, &a[0], &a[1]);
                    let lt = cx.bin(Op::Ult, w, &s, &a[0]);
                    Ok(cx.ite(&lt, &V::I(mask_w(w)), &s, w))
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (r, o) = match base {
                    "uadd" => {
                        let s = cx.bin(Op::Add, w, &a[0], &a[1]);
                        let o = cx.bin(Op::Ult, w, &s, &a[0]);
                        (s, o)
                    }
                    "usub" => {
                        let s = cx.bin(Op::Sub, w, &a[0], &a[1]);
                        let o = cx.bin(Op::Ult, w, &a[0], &a[1]);
                        (s, o)
                    }
                    "sadd" | "ssub" => {
                        let op = if base == "sadd" { Op::Add } else { Op::Sub };
                        let s = cx.bin(op, w, &a[0], &a[1]);
                        let sa = cx.extract(&a[0], w - 1, 1);
                        let sb = cx.extract(&a[1], w - 1, 1);
                        let sr = cx.extract(&s, w - 1, 1);
                        let dab = cx.bin(Op::Xor, 1, &sa, &sb);
                        let dar = cx.bin(Op::Xor, 1, &sa, &sr);
                        let k = if base == "sadd" { cx.not(&dab) } else { dab };
                        let o = cx.bin(Op::And, 1, &k, &dar);
                        (s, o)
                    }
                    "umul" => {
                        let p = cx.bin(Op::Mul, w, &a[0], &a[1]);
                        // overflow iff b != 0 and p / b != a; with a constant operand: a > MAX / k
                        let (x, k) = match (&a[0], &a[1]) {
                            (x, V::I(k)) => (x.clone(), *k),
                            (V::I(k), x) => (x.clone(), *k),
                            _ => return Err(Stop::Error("umul.with.overflow of two symbolic values".into())),
                        };
                        let o = if k == 0 { V::I(0) } else { cx.bin(Op::Ult, w, &V::I(mask_w(w) / k), &x) };
                        (p, o)
                    }
                    _ => match (&a[0], &a[1]) {
                        (V::I(x), V::I(y)) => {
                            let r = sx(*x, w) as i128 * sx(*y, w) as i128;
                            let t = sx(r as u64 & mask_w(w), w) as i128;
                            (V::I(r as u64 & mask_w(w)), V::I((r != t) as u64))
                        }
                        _ => return Err(Stop::Error("smul.with.overflow symbolic".into())),
                    },
                };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "fshl" | "fshr" => {
                let k = match &a[2] {
                    V::I(k) => (*k % w as u64) as u32,
                    _ => return Err(Stop::Error("funnel shift by symbolic amount".into())),
                };
                if k == 0 {
                    return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let k = if base == "fshl" { k } else { w - k };
                // (a << k) | (b >> (w-k))
                let hi = cx.extract(&a[0], 0, w - k);
                let lo = cx.extract(&a[1], w - k, k);
                Ok(cx.concat2(&hi, w - k, &lo, k))
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                let f = |x: u64| -> u64 {
                    match base {
                        "ctpop" => x.count_ones() as u64,
                        "ctlz" => (x.leading_zeros() - (64 - w)) as u64,
                        "cttz" => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        "bswap" => x.swap_bytes() >> (64 - w),
                        "bitreverse" => x.reverse_bits() >> (64 - w),
                        _ => sx(x, w).unsigned_abs() & mask_w(w),
                    }
                };
                match &a[0] {
                    V::I(k) => Ok(V::I(f(*k))),
                    V::S(e) => {
                        let e = *e;
                        if base == "bswap" {
                            let parts: Vec<(V, u32)> = (0..w / 8).rev().map(|i| (cx.extract(&V::S(e), 8 * i, 8), 8)).collect();
                            return Ok(cx.concat(&parts));
                        }
                        if base == "ctpop" {
                            let mut r = V::I(0);
                            for i in 0..w {
                                let b = cx.extract(&V::S(e), i, 1);
                                let b = cx.zext(&b, 1, w);
                                r = cx.bin(Op::Add, w, &r, &b);
                            }
                            return Ok(r);
                        }
                        if base == "ctlz" || base == "cttz" {
                            let mut r = V::I(w as u64);
                            for i in 0..w {
                                let bit = if base == "ctlz" { i } else { w - 1 - i };
                                let k = if base == "ctlz" { w - 1 - i } else { w - 1 - i };
                                let b = cx.extract(&V::S(e), bit, 1);
                                r = cx.ite(&b, &V::I(k as u64), &r, w);
                            }
                            return Ok(r);
                        }
                        if base == "abs" {
                            let neg = cx.bin(Op::Slt, w, &a[0], &V::I(0));
                            let minus = cx.bin(Op::Sub, w, &V::I(0), &a[0]);
                            return Ok(cx.ite(&neg, &minus, &a[0], w));
                        }
                        let k = self.concretize(st, &a[0], w)?;
                        Ok(V::I(f(k)))
                    }
                    _ => Err(Stop::Error(format!("intrinsic {full}"))),
                }
            }
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = ret.bits();
                let lt = cx.bin(op, w, &a[0], &a[1]);
                let gt = cx.bin(op, w, &a[1], &a[0]);
                let r = cx.ite(&gt, &V::I(1), &V::I(0), rw);
                Ok(cx.ite(&lt, &V::I(mask_w(rw)), &r, rw))
            }
            _ => Err(Stop::Error(format!("intrinsic llvm.{full}"))),
        }
    }
}

pub fn short(name: &str) -> String {
    crate::demangle_path(name)
}
