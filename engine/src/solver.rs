//! SMT back end: every feasibility question and every assertion ends up here.
use crate::ex::*;
use crate::exec::State;
use crate::z3::*;
use std::ffi::CString;
use std::time::Instant;

pub const UNKNOWN: &str = "solver answered unknown";

pub struct Solver {
    timeout_ms: u32,
    params: crate::z3::Params,
    ctx: Ctx,
    s: Solver_,
    asts: Map<Ex, Ast>,
    vars: Map<u32, Ast>,
    doms: Map<(u32, Dom), Ast>,
    cache: Map<Vec<u64>, bool>,
    confirmed: Map<(Ex, Dom), ()>,
    since: u64,
    now_ms: u32,
    pub queries: u64,
    pub cached: u64,
    pub confirms: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub unconfirmed: u64,
    pub time: f64,
    pub max_query: f64,
}
type Solver_ = crate::z3::Solver;

const T: i32 = 1;
const F: i32 = -1;

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let mut r = Solver {
                timeout_ms,
                params: p,
                ctx,
                s,
                asts: Map::default(),
                vars: Map::default(),
                doms: Map::default(),
                cache: Map::default(),
                confirmed: Map::default(),
                since: 0,
                now_ms: timeout_ms,
                queries: 0,
                cached: 0,
                confirms: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                unconfirmed: 0,
                time: 0.0,
                max_query: 0.0,
            };
            r.limit(timeout_ms);
            r
        }
    }

    fn limit(&mut self, ms: u32) {
        self.now_ms = ms;
        let k = CString::new("timeout").unwrap();
        unsafe {
            Z3_params_set_uint(self.ctx, self.params, Z3_mk_string_symbol(self.ctx, k.as_ptr()), ms);
            Z3_solver_set_params(self.ctx, self.s, self.params);
        }
    }

    /// Forget everything (the solver's memory only ever grows).
    fn refresh(&mut self) {
        self.since += 1;
        if self.since < 40_000 && self.cache.len() < 200_000 && self.confirmed.len() < 400_000 {
            return;
        }
        self.since = 0;
        self.asts = Map::default();
        self.vars = Map::default();
        self.doms = Map::default();
        self.cache = Map::default();
        self.confirmed = Map::default();
        unsafe {
            Z3_params_dec_ref(self.ctx, self.params);
            Z3_solver_dec_ref(self.ctx, self.s);
            Z3_del_context(self.ctx);
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            self.params = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, self.params);
        }
        self.limit(self.now_ms);
    }

    fn bv(&self, k: u64, w: u32) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.ctx, k, Z3_mk_bv_sort(self.ctx, w)) }
    }

    fn var(&mut self, ord: u32) -> Ast {
        if let Some(a) = self.vars.get(&ord) {
            return *a;
        }
        let n = CString::new(format!("b{ord}")).unwrap();
        let a = unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bv_sort(self.ctx, 8)) };
        self.vars.insert(ord, a);
        a
    }

    fn dom(&mut self, ord: u32, d: Dom) -> Ast {
        if let Some(a) = self.doms.get(&(ord, d)) {
            return *a;
        }
        let v = self.var(ord);
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 256 {
            if !dom_has(&d, i as u8) {
                i += 1;
                continue;
            }
            let st = i;
            while i < 256 && dom_has(&d, i as u8) {
                i += 1;
            }
            let en = i - 1;
            unsafe {
                let a = if st == en {
                    Z3_mk_eq(self.ctx, v, self.bv(st as u64, 8))
                } else {
                    let lo = Z3_mk_bvule(self.ctx, self.bv(st as u64, 8), v);
                    let hi = Z3_mk_bvule(self.ctx, v, self.bv(en as u64, 8));
                    let xs = [lo, hi];
                    Z3_mk_and(self.ctx, 2, xs.as_ptr())
                };
                parts.push(a);
            }
        }
        let r = unsafe { Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr()) };
        self.doms.insert((ord, d), r);
        r
    }

    fn b2v(&self, b: Ast) -> Ast {
        unsafe { Z3_mk_ite(self.ctx, b, self.bv(1, 1), self.bv(0, 1)) }
    }

    pub fn ast(&mut self, cx: &Cx, e: Ex) -> Ast {
        if let Some(a) = self.asts.get(&e) {
            return *a;
        }
        let n = cx.n(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => self.bv(n.k, w),
                Op::Var => self.var(cx.vars[n.k as usize].ord),
                Op::Lookup => {
                    let t = n.tab.clone().unwrap();
                    let ord = cx.vars[t.var as usize].ord;
                    // group by value
                    let mut groups: Vec<(u64, Dom)> = vec![];
                    for (i, b) in cx.vars[t.var as usize].vals.iter().enumerate() {
                        let k = t.vals[i];
                        let g = match groups.iter_mut().find(|g| g.0 == k) {
                            Some(g) => g,
                            None => {
                                groups.push((k, [0; 4]));
                                groups.last_mut().unwrap()
                            }
                        };
                        g.1[(*b >> 6) as usize] |= 1 << (*b & 63);
                    }
                    groups.sort_by_key(|g| dom_count(&g.1));
                    let mut r = self.bv(groups.pop().unwrap().0, w);
                    for (k, d) in groups.into_iter().rev() {
                        let d = self.dom(ord, d);
                        r = Z3_mk_ite(c, d, self.bv(k, w), r);
                    }
                    r
                }
                Op::Concat => {
                    let (a, b) = (self.ast(cx, n.a), self.ast(cx, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract => {
                    let a = self.ast(cx, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::SExt => {
                    let a = self.ast(cx, n.a);
                    Z3_mk_sign_ext(c, w - cx.n(n.a).w as u32, a)
                }
                Op::Ite => {
                    let (p, a, b) = (self.ast(cx, n.a), self.ast(cx, n.b), self.ast(cx, n.c));
                    Z3_mk_ite(c, Z3_mk_eq(c, p, self.bv(1, 1)), a, b)
                }
                op => {
                    let (a, b) = (self.ast(cx, n.a), self.ast(cx, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Eq => self.b2v(Z3_mk_eq(c, a, b)),
                        Op::Ult => self.b2v(Z3_mk_bvult(c, a, b)),
                        Op::Slt => self.b2v(Z3_mk_bvslt(c, a, b)),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.asts.insert(e, r);
        r
    }

    fn lit(&mut self, cx: &Cx, e: Ex, pos: bool) -> Ast {
        let a = self.ast(cx, e);
        unsafe { Z3_mk_eq(self.ctx, a, self.bv(pos as u64, 1)) }
    }

    fn check(&mut self) -> Result<bool, String> {
        let t = Instant::now();
        let r = unsafe { Z3_solver_check(self.ctx, self.s) };
        let d = t.elapsed().as_secs_f64();
        self.time += d;
        self.max_query = self.max_query.max(d);
        self.queries += 1;
        match r {
            T => {
                self.sat += 1;
                Ok(true)
            }
            F => {
                self.unsat += 1;
                Ok(false)
            }
            _ => {
                self.unknown += 1;
                Err(UNKNOWN.into())
            },
        }
    }

    /// Have the solver confirm a verdict that was read off a single-variable table.
    pub fn confirm(&mut self, cx: &Cx, e: Ex, ord: u32, dom: Dom, can_t: bool, can_f: bool) -> Result<(), String> {
        if self.confirmed.contains_key(&(e, dom)) {
            self.cached += 1;
            return Ok(());
        }
        self.confirms += 1;
        self.refresh();
        let d = self.dom(ord, dom);
        for (pos, want) in [(true, can_t), (false, can_f)] {
            let l = self.lit(cx, e, pos);
            unsafe {
                Z3_solver_push(self.ctx, self.s);
                Z3_solver_assert(self.ctx, self.s, d);
                Z3_solver_assert(self.ctx, self.s, l);
            }
            let r = self.check();
            unsafe { Z3_solver_pop(self.ctx, self.s, 1) };
            // (a verdict the solver cannot confirm in time stands on the table alone)
            if r.is_err() {
                self.unconfirmed += 1;
            } else if r? != want {
                return Err("internal: solver disagrees with constant folding".into());
            }
        }
        self.confirmed.insert((e, dom), ());
        Ok(())
    }

    /// Constraints transitively connected to the variables in `mask`.
    fn slice(cx: &Cx, st: &State, mut mask: u128) -> (u128, Vec<Ex>) {
        let mut take = vec![false; st.mcs.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.mcs.iter().enumerate() {
                let m = cx.n(*e).mask;
                if !take[i] && m & mask != 0 {
                    take[i] = true;
                    mask |= m;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<Ex> = st.mcs.iter().enumerate().filter(|(i, _)| take[*i]).map(|(_, e)| *e).collect();
        v.sort();
        (mask, v)
    }

    fn assert_slice(&mut self, cx: &Cx, st: &State, mask: u128, cs: &[Ex], extra: Option<(Ex, bool)>) {
        unsafe { Z3_solver_push(self.ctx, self.s) };
        for ord in 0..st.vars.len() as u32 {
            if mask >> ord & 1 == 1 {
                let d = self.dom(ord, st.vars[ord as usize].dom);
                unsafe { Z3_solver_assert(self.ctx, self.s, d) };
            }
        }
        for e in cs {
            let l = self.lit(cx, *e, true);
            unsafe { Z3_solver_assert(self.ctx, self.s, l) };
        }
        if let Some((e, p)) = extra {
            let l = self.lit(cx, e, p);
            unsafe { Z3_solver_assert(self.ctx, self.s, l) };
        }
    }

    pub fn sat(&mut self, cx: &Cx, st: &State, extra: Option<(Ex, bool)>) -> Result<bool, String> {
        let m0 = extra.map(|x| cx.n(x.0).mask).unwrap_or(!0);
        let (mask, cs) = Self::slice(cx, st, m0);
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + 12);
        if let Some((e, p)) = extra {
            key.push((e as u64) << 1 | p as u64);
        }
        for c in &cs {
            key.push(1 << 40 | *c as u64);
        }
        for ord in 0..st.vars.len() as u32 {
            if mask >> ord & 1 == 1 {
                let v = &st.vars[ord as usize];
                key.push(1 << 41 | (ord as u64) << 32 | v.id as u64);
                key.extend_from_slice(&v.dom);
            }
        }
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return Ok(*r);
        }
        self.refresh();
        self.assert_slice(cx, st, mask, &cs, extra);
        let r = self.check();
        unsafe { Z3_solver_pop(self.ctx, self.s, 1) };
        let r = r?;
        self.cache.insert(key, r);
        Ok(r)
    }

    fn solve(&mut self, cx: &Cx, st: &State, mask: u128, cs: &[Ex], extra: Option<(Ex, bool)>, out: &mut [u8]) -> Result<bool, String> {
        self.refresh();
        self.assert_slice(cx, st, mask, cs, extra);
        let r = self.check();
        if let Ok(true) = r {
            unsafe {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                for ord in 0..st.vars.len() as u32 {
                    if mask >> ord & 1 == 1 {
                        let v = self.var(ord);
                        let mut a: Ast = std::ptr::null_mut();
                        let mut k = 0u64;
                        if Z3_model_eval(self.ctx, m, v, true, &mut a) && Z3_get_numeral_uint64(self.ctx, a, &mut k) {
                            out[ord as usize] = k as u8;
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
        }
        unsafe { Z3_solver_pop(self.ctx, self.s, 1) };
        r
    }

    fn default_vals(st: &State, seed: u64) -> Vec<u8> {
        st.vars
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let n = dom_count(&v.dom) as u64;
                let mut h = Fx::default();
                use std::hash::Hasher;
                h.write_u64(seed);
                h.write_u64(i as u64);
                let k = if seed == 0 { 0 } else { (h.finish() >> 20) % n };
                if seed == 0 {
                    // prefer something printable in reports
                    for c in b"AXHxa@0" {
                        if dom_has(&v.dom, *c) {
                            return *c;
                        }
                    }
                }
                dom_iter(v.dom).nth(k as usize).unwrap()
            })
            .collect()
    }

    /// A complete assignment satisfying the path condition (and `extra`).
    pub fn model(&mut self, cx: &Cx, st: &State, extra: Option<(Ex, bool)>, seed: u64) -> Result<Option<Vec<u8>>, String> {
        let mut vals = Self::default_vals(st, seed);
        let mut mask = st.mcmask;
        if let Some((e, _)) = extra {
            mask |= cx.n(e).mask;
        }
        if mask != 0 {
            let cs = st.mcs.clone();
            self.limit(60_000);
            let r = self.solve(cx, st, mask, &cs, extra, &mut vals);
            self.limit(self.timeout_ms);
            if !r? {
                return Ok(None);
            }
        }
        Ok(Some(vals))
    }

    pub fn model_slice(&mut self, cx: &Cx, st: &State, e: Ex) -> Result<Option<Vec<u8>>, String> {
        let mut vals = Self::default_vals(st, 0);
        let (mask, cs) = Self::slice(cx, st, cx.n(e).mask);
        if !self.solve(cx, st, mask, &cs, None, &mut vals)? {
            return Ok(None);
        }
        Ok(Some(vals))
    }
}
