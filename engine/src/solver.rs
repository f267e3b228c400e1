//! Decides path conditions with Z3, with independence slicing and caching.
use crate::expr::*;
use crate::lia::Lia;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_empty(d: &Dom) -> bool { d.iter().all(|&x| x == 0) }
pub fn dom_has(d: &Dom, v: u8) -> bool { d[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_first(d: &Dom) -> Option<u8> {
    for i in 0..4 { if d[i] != 0 { return Some((i * 64) as u8 + d[i].trailing_zeros() as u8); } }
    None
}
pub fn dom_iter(d: Dom) -> impl Iterator<Item = u8> {
    (0..4usize).flat_map(move |i| { let mut x = d[i]; std::iter::from_fn(move || { if x == 0 { None } else { let t = x.trailing_zeros(); x &= x - 1; Some((i * 64) as u8 + t as u8) } }) })
}

#[derive(Clone, Debug)]
pub enum Res { Unsat, Sat(Rc<Vec<(u16, u8)>>), Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub single: u64,
    pub cache_hits: u64, pub solver_us: u64, pub max_us: u64, pub model_hits: u64, pub refinements: u64, pub confirmed: u64, pub unconfirmed: u64, pub linear: u64,
}

impl Stats {
    pub fn pairs(&self) -> Vec<(&'static str, u64)> {
        vec![("queries", self.queries), ("sat", self.sat), ("unsat", self.unsat), ("unknown", self.unknown), ("single", self.single), ("cache_hits", self.cache_hits), ("solver_us", self.solver_us), ("max_us", self.max_us), ("refinements", self.refinements), ("confirmed", self.confirmed), ("unconfirmed", self.unconfirmed), ("linear", self.linear)]
    }
}

pub struct Slv {
    ctx: Ctx, solver: Solver, bv: HashMap<u16, Sort>, memo: HashMap<E, Ast>, fdec: Decl, int: Sort, fdeci: Decl,
    cache: HashMap<Vec<u64>, Res>,
    seen: std::collections::HashSet<Vec<u64>>,
    pub st: Stats,
    pid: u32,
    asserted: u64,
}

extern "C" fn on_err(_c: Ctx, code: i32) { eprintln!("z3 error {}", code); std::process::exit(70); }

impl Slv {
    pub fn new() -> Self {
        Slv { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), bv: HashMap::new(), memo: HashMap::new(), fdec: std::ptr::null_mut(), int: std::ptr::null_mut(), fdeci: std::ptr::null_mut(), cache: HashMap::new(), seen: Default::default(), st: Stats::default(), pid: 0, asserted: 0 }
    }
    fn init(&mut self) {
        let pid = std::process::id();
        if !self.ctx.is_null() { return; } // a forked copy keeps using its copy of the context (no solver threads)
        self.pid = pid;
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            self.ctx = c;
            self.memo.clear();
            self.bv.clear();
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, sym(c, "rlimit"), 60_000_000);
            Z3_solver_set_params(c, s, p);
            self.solver = s;
            let d = [self.sort(64), self.sort(32)];
            self.fdec = Z3_mk_func_decl(c, sym(c, "f32dec"), 2, d.as_ptr(), self.sort(32));
            Z3_inc_ref(c, self.fdec);
            self.int = Z3_mk_int_sort(c);
            Z3_inc_ref(c, self.int);
            let d = [self.int, self.int];
            self.fdeci = Z3_mk_func_decl(c, sym(c, "f32deci"), 2, d.as_ptr(), self.int);
            Z3_inc_ref(c, self.fdeci);
        }
    }
    fn sort(&mut self, w: u16) -> Sort {
        let c = self.ctx;
        *self.bv.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as u32); Z3_inc_ref(c, s); s })
    }
    fn num(&mut self, v: u128, w: u16) -> Ast {
        let s = self.sort(w);
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else { let cs = std::ffi::CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.ctx, cs.as_ptr(), s) }
        }
    }
    fn tr(&mut self, x: &mut Exprs, e: E) -> Ast {
        if let Some(&a) = self.memo.get(&e) { return a; }
        let n = x.n(e);
        let c = self.ctx;
        let ar = Exprs::arity(n.op);
        let ch = [n.a, n.b, n.c];
        let mut v: [Ast; 3] = [std::ptr::null_mut(); 3];
        for j in 0..ar { v[j] = self.tr(x, ch[j]); unsafe { Z3_inc_ref(c, v[j]); } }
        let (a, b) = (v[0], v[1]);
        use Op::*;
        let r = unsafe {
            match n.op {
                Const => self.num(n.k, n.w),
                Var => { let s = self.sort(8); let nm = sym(c, &format!("b{}", n.k)); Z3_mk_const(c, nm, s) },
                Add => Z3_mk_bvadd(c, a, b), Sub => Z3_mk_bvsub(c, a, b), Mul => Z3_mk_bvmul(c, a, b),
                UDiv => Z3_mk_bvudiv(c, a, b), SDiv => Z3_mk_bvsdiv(c, a, b), URem => Z3_mk_bvurem(c, a, b), SRem => Z3_mk_bvsrem(c, a, b),
                And => Z3_mk_bvand(c, a, b), Or => Z3_mk_bvor(c, a, b), Xor => Z3_mk_bvxor(c, a, b),
                Shl => Z3_mk_bvshl(c, a, b), LShr => Z3_mk_bvlshr(c, a, b), AShr => Z3_mk_bvashr(c, a, b),
                Eq => { let t = Z3_mk_eq(c, a, b); self.b2v(t) },
                Ult => { let t = Z3_mk_bvult(c, a, b); self.b2v(t) },
                Ule => { let t = Z3_mk_bvule(c, a, b); self.b2v(t) },
                Slt => { let t = Z3_mk_bvslt(c, a, b); self.b2v(t) },
                Sle => { let t = Z3_mk_bvsle(c, a, b); self.b2v(t) },
                Concat => Z3_mk_concat(c, a, b),
                Extract => Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a),
                ZExt => Z3_mk_zero_ext(c, (n.w - x.w(n.a)) as u32, a),
                SExt => Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as u32, a),
                Ite => { let one = self.num(1, 1); let t = Z3_mk_eq(c, a, one); Z3_mk_ite(c, t, v[1], v[2]) },
                Tab => {
                    let t = x.tables[n.k as usize].clone();
                    self.tab_rest(&t, 255, a, n.w)
                },
                FAdd | FSub | FMul | FDiv => {
                    let s = self.fsort(n.w);
                    let (p, q) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op { FAdd => Z3_mk_fpa_add(c, rm, p, q), FSub => Z3_mk_fpa_sub(c, rm, p, q), FMul => Z3_mk_fpa_mul(c, rm, p, q), _ => Z3_mk_fpa_div(c, rm, p, q) };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                },
                FNeg => { let k = self.num(1u128 << (n.w - 1), n.w); Z3_mk_bvxor(c, a, k) },
                FOeq | FOlt | FOle => {
                    let s = self.fsort(x.w(n.a));
                    let (p, q) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                    let t = match n.op { FOeq => Z3_mk_fpa_eq(c, p, q), FOlt => Z3_mk_fpa_lt(c, p, q), _ => Z3_mk_fpa_leq(c, p, q) };
                    self.b2v(t)
                },
                FUno => {
                    let s = self.fsort(x.w(n.a));
                    let (p, q) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                    let l = [Z3_mk_fpa_is_nan(c, p), Z3_mk_fpa_is_nan(c, q)];
                    let t = Z3_mk_or(c, 2, l.as_ptr());
                    self.b2v(t)
                },
                SI2F => { let s = self.fsort(n.w); let t = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s); Z3_mk_fpa_to_ieee_bv(c, t) },
                UI2F => { let s = self.fsort(n.w); let t = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s); Z3_mk_fpa_to_ieee_bv(c, t) },
                FCvt => { let s0 = self.fsort(x.w(n.a)); let s = self.fsort(n.w); let p = Z3_mk_fpa_to_fp_bv(c, a, s0); let t = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), p, s); Z3_mk_fpa_to_ieee_bv(c, t) },
                F2SI | F2UI => {
                    // saturating conversion: guard with comparisons
                    let s0 = self.fsort(x.w(n.a));
                    let p = Z3_mk_fpa_to_fp_bv(c, a, s0);
                    let signed = n.op == F2SI;
                    let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(n.w as i32 - 1)), 2f64.powi(n.w as i32 - 1)) } else { (0.0, 2f64.powi(n.w as i32)) };
                    let fk = |me: &mut Self, v: f64| { let bits = if x.w(n.a) == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }; let k = me.num(bits, x.w(n.a)); Z3_mk_fpa_to_fp_bv(c, k, s0) };
                    let (l, h) = (fk(self, lo), fk(self, hi));
                    let conv = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), p, n.w as u32) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), p, n.w as u32) };
                    let (kmin, kmax) = if signed { (1u128 << (n.w - 1), (1u128 << (n.w - 1)) - 1) } else { (0, mask(n.w)) };
                    let (kmin, kmax, z) = (self.num(kmin, n.w), self.num(kmax, n.w), self.num(0, n.w));
                    let t1 = Z3_mk_ite(c, Z3_mk_fpa_leq(c, h, p), kmax, conv);
                    let t2 = Z3_mk_ite(c, Z3_mk_fpa_leq(c, p, l), kmin, t1);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, p), z, t2)
                },
                FDec => { let l = [a, b]; Z3_mk_app(c, self.fdec, 2, l.as_ptr()) },
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.memo.insert(e, r);
        r
    }
    fn tab_rest(&mut self, t: &[u64; 256], top: usize, a: Ast, w: u16) -> Ast {
        // value of the table for inputs <= top
        let mut runs: Vec<(usize, u64)> = vec![];
        let mut i = top as i64;
        while i >= 0 {
            let cur = t[i as usize];
            let mut j = i;
            while j > 0 && t[j as usize - 1] == cur { j -= 1; }
            runs.push((j as usize, cur));
            i = j - 1;
        }
        let mut acc = self.num(runs.last().unwrap().1 as u128, w);
        for &(j, v) in runs.iter().rev().skip(1) {
            unsafe {
                let kj = self.num(j as u128, 8);
                let cnd = Z3_mk_bvuge(self.ctx, a, kj);
                let kv = self.num(v as u128, w);
                acc = Z3_mk_ite(self.ctx, cnd, kv, acc);
            }
        }
        acc
    }
    fn fsort(&mut self, w: u16) -> Sort { unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.ctx) } else { Z3_mk_fpa_sort_64(self.ctx) } } }
    fn b2v(&mut self, t: Ast) -> Ast {
        let (o, z) = (self.num(1, 1), self.num(0, 1));
        unsafe { Z3_mk_ite(self.ctx, t, o, z) }
    }
    fn dom_ast(&mut self, x: &mut Exprs, v: u16, d: &Dom) -> Ast {
        let ve = x.var(v);
        let va = self.tr(x, ve);
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 256 {
            if !dom_has(d, i as u8) { i += 1; continue; }
            let s = i;
            while i < 256 && dom_has(d, i as u8) { i += 1; }
            let (lo, hi) = (self.num(s as u128, 8), self.num(i as u128 - 1, 8));
            unsafe {
                if s == i - 1 { parts.push(Z3_mk_eq(self.ctx, va, lo)); }
                else {
                    let l = [Z3_mk_bvuge(self.ctx, va, lo), Z3_mk_bvule(self.ctx, va, hi)];
                    parts.push(Z3_mk_and(self.ctx, 2, l.as_ptr()));
                }
            }
        }
        unsafe { if parts.is_empty() { Z3_mk_false(self.ctx) } else { Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr()) } }
    }
    pub fn confirm_seen(&mut self, e: E, doms: &[(u16, Dom)]) -> bool {
        let mut key = vec![e as u64];
        for (v, d) in doms { key.push(*v as u64); key.extend_from_slice(d); }
        !self.seen.insert(key)
    }
    /// Is the conjunction of `cs` and the domains of their variables satisfiable?
    pub fn check(&mut self, x: &mut Exprs, cs: &[E], doms: &[(u16, Dom)]) -> Res {
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + doms.len() * 5 + 1);
        let mut c2: Vec<E> = cs.to_vec();
        c2.sort_unstable();
        c2.dedup();
        for &c in &c2 { key.push(c as u64); }
        key.push(u64::MAX);
        for (v, d) in doms { key.push(*v as u64); key.extend_from_slice(d); }
        if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; return r.clone(); }
        self.init();
        self.asserted += 1;
        if self.memo.len() > 400_000 { self.memo.clear(); }
        let t0 = Instant::now();
        let lin = if c2.iter().any(|&e| wants_lia(x, e)) { self.check_lia(x, &c2, doms) } else { None };
        if lin.is_none() && std::env::var("ENGINE_LIA").is_ok() && c2.iter().any(|&e| wants_lia(x, e)) { eprintln!("no lia:"); for &e in &c2 { eprintln!("   {}", show(x, e, 12)); } }
        let xcheck = if lin.is_some() && std::env::var("ENGINE_XCHECK").is_ok() { lin.clone() } else { None };
        let res = if let (Some(r), None) = (lin, &xcheck) { self.st.linear += 1; r } else { unsafe {
            let c = self.ctx;
            Z3_solver_push(c, self.solver);
            for (v, d) in doms { if *d != FULL { let a = self.dom_ast(x, *v, d); Z3_solver_assert(c, self.solver, a); } }
            let one = self.num(1, 1);
            Z3_inc_ref(c, one);
            for &e in &c2 { let a = self.tr(x, e); let t = Z3_mk_eq(c, a, one); Z3_solver_assert(c, self.solver, t); }
            let mut rounds = 0;
            let r = loop {
                self.st.queries += 1;
                match Z3_solver_check(c, self.solver) {
                    -1 => { self.st.unsat += 1; break Res::Unsat; },
                    1 => {
                        self.st.sat += 1;
                        let m = Z3_solver_get_model(c, self.solver);
                        Z3_model_inc_ref(c, m);
                        let mut out = vec![];
                        let mut bytes = vec![0u8; MAXV];
                        for (v, _) in doms {
                            let ve = x.var(*v);
                            let a = self.tr(x, ve);
                            let mut o: Ast = std::ptr::null_mut();
                            Z3_model_eval(c, m, a, true, &mut o);
                            Z3_inc_ref(c, o);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, o, &mut u);
                            out.push((*v, u as u8));
                            bytes[*v as usize] = u as u8;
                        }
                        Z3_model_dec_ref(c, m);
                        // evaluate concretely; decimal conversion is uninterpreted in Z3
                        let bad = c2.iter().any(|&e| x.eval(e, &bytes) == 0);
                        if !bad { break Res::Sat(Rc::new(out)); }
                        let mut apps = vec![];
                        let mut seen = std::collections::HashSet::new();
                        for &e in &c2 { collect_fdec(x, e, &mut apps, &mut seen); }
                        if apps.is_empty() { eprintln!("engine: solver model does not satisfy the constraints"); std::process::exit(70); }
                        rounds += 1;
                        self.st.refinements += 1;
                        if rounds > 40 { self.st.unknown += 1; break Res::Unknown; }
                        for e in apps {
                            let n = x.n(e);
                            let (mv, ev) = (x.eval(n.a, &bytes), x.eval(n.b, &bytes));
                            let val = f32dec(mv as u64, sx(ev, 32) as i32);
                            let (ka, kb, kr) = (self.num(mv, 64), self.num(ev, 32), self.num(val as u128, 32));
                            let l = [ka, kb];
                            let app = Z3_mk_app(c, self.fdec, 2, l.as_ptr());
                            let eq = Z3_mk_eq(c, app, kr);
                            Z3_solver_assert(c, self.solver, eq);
                        }
                    },
                    _ => { self.st.unknown += 1; break Res::Unknown; },
                }
            };
            Z3_solver_pop(c, self.solver, 1);
            r
        } };
        if let Some(l) = xcheck { match (&l, &res) { (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => { eprintln!("engine: the two encodings disagree"); for &e in &c2 { eprintln!("   {}", show(x, e, 12)); } std::process::exit(70); }, _ => self.st.linear += 1 } }
        let us = t0.elapsed().as_micros() as u64;
        self.st.solver_us += us;
        if us > self.st.max_us { self.st.max_us = us; }
        if std::env::var("ENGINE_DUMP").is_ok() { eprintln!("Q {}us {:?} ncs={} {}", us, match res { Res::Unsat => "unsat", Res::Sat(_) => "sat", _ => "unk" }, cs.len(), show(x, cs[0], 7)); }
        if us > 2_000_000 && std::env::var("ENGINE_SLOW").is_ok() {
            eprintln!("slow query {}ms {:?}", us / 1000, match res { Res::Unsat => "unsat", Res::Sat(_) => "sat", _ => "unk" });
            for &e in &c2 { eprintln!("   {}", show(x, e, 12)); }
        }
        self.cache.insert(key, res.clone());
        res
    }
    fn check_lia(&mut self, x: &mut Exprs, c2: &[E], doms: &[(u16, Dom)]) -> Option<Res> {
        let c = self.ctx;
        let mut l = Lia { c, x, doms, int: self.int, fdec: self.fdeci, memo: HashMap::new(), bmemo: HashMap::new(), side: vec![], vars: HashMap::new(), fresh: 0, forms: HashMap::new(), boxes: HashMap::new(), facts: vec![] };
        for (v, _) in doms { l.var(*v); }
        let mut goals = vec![];
        for &e in c2 { goals.push(l.boolean(e)?); l.learn(e, true); }
        let mut out = None;
        unsafe {
            Z3_solver_push(c, self.solver);
            for &a in l.side.iter().chain(goals.iter()) { Z3_solver_assert(c, self.solver, a); }
            let mut rounds = 0;
            loop {
                self.st.queries += 1;
                match Z3_solver_check(c, self.solver) {
                    -1 => { self.st.unsat += 1; out = Some(Res::Unsat); break; },
                    1 => {
                        let m = Z3_solver_get_model(c, self.solver);
                        Z3_model_inc_ref(c, m);
                        let mut vals = vec![];
                        let mut bytes = vec![0u8; MAXV];
                        for (v, _) in doms {
                            let a = l.var(*v);
                            let mut o: Ast = std::ptr::null_mut();
                            Z3_model_eval(c, m, a, true, &mut o);
                            Z3_inc_ref(c, o);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(c, o, &mut u);
                            vals.push((*v, u as u8));
                            bytes[*v as usize] = u as u8;
                        }
                        Z3_model_dec_ref(c, m);
                        if !c2.iter().any(|&e| l.x.eval(e, &bytes) == 0) { self.st.sat += 1; out = Some(Res::Sat(Rc::new(vals))); break; }
                        let mut apps = vec![];
                        let mut seen = std::collections::HashSet::new();
                        for &e in c2 { collect_u2f(l.x, e, &mut apps, &mut seen); }
                        if apps.is_empty() { eprintln!("engine: integer model does not satisfy the constraints"); std::process::exit(70); }
                        rounds += 1;
                        self.st.refinements += 1;
                        if rounds > 40 { break; }
                        for e in apps {
                            let n = l.x.n(e);
                            let (mv, ev) = match n.op {
                                Op::UI2F => (l.x.eval(n.a, &bytes), 0),
                                Op::SI2F => { let v = l.x.eval(n.a, &bytes); (sx(v, l.x.w(n.a)).unsigned_abs(), 0) },
                                _ => (l.x.eval(n.a, &bytes), l.x.eval(n.b, &bytes)),
                            };
                            let val = f32dec(mv as u64, sx(ev, 32) as i32);
                            let (ka, kb, kr) = (l.k(mv as i128), l.k(ev as i128), l.k(val as i128));
                            let p = [ka, kb];
                            let app = Z3_mk_app(c, self.fdeci, 2, p.as_ptr());
                            Z3_inc_ref(c, app);
                            let eq = Z3_mk_eq(c, app, kr);
                            Z3_solver_assert(c, self.solver, eq);
                        }
                    },
                    _ => break,
                }
            }
            Z3_solver_pop(c, self.solver, 1);
        }
        out
    }
}
/// queries with arithmetic on several bytes are put as integer problems first
fn wants_lia(x: &Exprs, e: E) -> bool {
    fn go(x: &Exprs, e: E, seen: &mut std::collections::HashSet<E>) -> bool {
        if x.supp1[e as usize] != MULTI || !seen.insert(e) { return false; }
        let n = x.n(e);
        if n.w >= 8 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::FDec) { return true; }
        let ch = [n.a, n.b, n.c];
        ch[..Exprs::arity(n.op)].iter().any(|&c| go(x, c, seen))
    }
    go(x, e, &mut Default::default())
}
fn collect_fdec(x: &Exprs, e: E, out: &mut Vec<E>, seen: &mut std::collections::HashSet<E>) {
    if !seen.insert(e) { return; }
    let n = x.n(e);
    if n.op == Op::FDec { out.push(e); }
    let ch = [n.a, n.b, n.c];
    for &c in &ch[..Exprs::arity(n.op)] { collect_fdec(x, c, out, seen); }
}
fn collect_u2f(x: &Exprs, e: E, out: &mut Vec<E>, seen: &mut std::collections::HashSet<E>) {
    if !seen.insert(e) { return; }
    let n = x.n(e);
    if n.op == Op::FDec || (n.w == 32 && matches!(n.op, Op::UI2F | Op::SI2F)) { out.push(e); }
    let ch = [n.a, n.b, n.c];
    for &c in &ch[..Exprs::arity(n.op)] { collect_u2f(x, c, out, seen); }
}
pub fn show(x: &Exprs, e: E, d: u32) -> String {
    let n = x.n(e);
    match n.op {
        Op::Const => return format!("{:#x}:{}", n.k, n.w),
        Op::Var => return format!("b{}", n.k),
        _ => {},
    }
    if d == 0 { return "..".into(); }
    let ch = [n.a, n.b, n.c];
    let s: Vec<String> = ch[..Exprs::arity(n.op)].iter().map(|&c| show(x, c, d - 1)).collect();
    format!("{:?}{}({}{})", n.op, n.w, s.join(","), if n.k != 0 { format!(";{}", n.k) } else { String::new() })
}
