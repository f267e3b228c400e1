//! Symbolic execution of the parsed module.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub const FBASE: u64 = 1 << 60;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub fid: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub ret: u32,
    pub normal: u32,
    pub allocas: Vec<u64>,
}
#[derive(Clone, Copy)]
pub enum Choice { Var(u16), K(u32) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub doms: Rc<Vec<Dom>>,
    pub ent: Bits,
    pub cons: Rc<Vec<E>>,
    pub known: Rc<HashMap<E, bool>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u16,
    pub choices: Rc<Vec<Choice>>,
    pub obs: Rc<Vec<V>>,
    pub covers: u64,
    pub steps: u64,
    pub forks: u32,
    pub hash: u64,
}

#[derive(Debug, Clone)]
pub enum End { Ok, Yield, Infeasible, Fail(u32), Panic(String), Hang(String), Unsupported(String), Unknown(String) }

type R<T> = Result<T, End>;

#[derive(Clone)]
enum Target { Lazy, Def(Rc<Func>), Builtin(B), None }
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    SymByte, SymByteIn, SymByteSet, SymChoose, SymAssume, SymFail, SymCover, SymHash, SymObs, SymF32Dec, SymIsEngine, SymConcrete,
    Alloc, AllocZ, Dealloc, Realloc, Nop, Panic, HashOne, RandKeys, F32FromStr, F64FromStr, Bcmp, Memcmp, Strlen,
    StrDebug, NumFmt, RefNumFmt,
    Memcpy, Memset, Intr(u16),
}

pub struct Eng {
    pub m: Module,
    pub x: Exprs,
    pub s: Slv,
    pub fidx: HashMap<Rc<str>, u32>,
    targets: Vec<Target>,
    pub gaddr: HashMap<Rc<str>, u64>,
    pub mem0: Mem,
    pub executed: Vec<bool>,
    pub instrs: u64,
    pub branches: u64,
    pub forks: u64,
    pub ranged: u64,
    pub step_limit: u64,
    intr: Vec<String>,
    pub missing: BTreeSet<String>,
    f32sum: Option<u32>,
    real: HashMap<u32, Rc<Func>>,
    pub stubs_used: BTreeSet<String>,
}

fn m64(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
fn sx64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Eng {
    pub fn new(m: Module) -> Self {
        let mut fidx = HashMap::new();
        let mut targets = vec![];
        let mut intr = vec![];
        for (i, n) in m.fnames.iter().enumerate() {
            fidx.insert(n.clone(), i as u32);
            targets.push(Self::classify(n, m.fbody.contains_key(n), &mut intr));
        }
        let n = targets.len();
        let f32sum = fidx.get("h_f32_from_str").copied();
        let mut e = Eng { m, x: Exprs::new(), s: Slv::new(), fidx, targets, gaddr: HashMap::new(), mem0: Mem::default(), executed: vec![false; n], instrs: 0, branches: 0, forks: 0, ranged: 0, step_limit: 60_000_000, intr, missing: BTreeSet::new(), f32sum, real: HashMap::new(), stubs_used: BTreeSet::new() };
        e.init_globals();
        e
    }
    fn classify(n: &str, def: bool, intr: &mut Vec<String>) -> Target {
        let b = |b: B| Target::Builtin(b);
        if n.starts_with("__sym_") {
            return match n {
                "__sym_byte" => b(B::SymByte), "__sym_byte_in" => b(B::SymByteIn), "__sym_byte_set" => b(B::SymByteSet), "__sym_choose" => b(B::SymChoose),
                "__sym_assume" => b(B::SymAssume), "__sym_fail" => b(B::SymFail), "__sym_cover" => b(B::SymCover), "__sym_hash" => b(B::SymHash), "__sym_obs" => b(B::SymObs),
                "__sym_f32_dec" => b(B::SymF32Dec), "__sym_is_engine" => b(B::SymIsEngine), "__sym_concrete" => b(B::SymConcrete), _ => Target::None };
        }
        if let Some(r) = n.strip_prefix("llvm.") {
            if r.starts_with("memcpy") || r.starts_with("memmove") { return b(B::Memcpy); }
            if r.starts_with("memset") { return b(B::Memset); }
            if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg") || r.starts_with("donothing") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") { return b(B::Nop); }
            if r.starts_with("trap") { return b(B::Panic); }
            intr.push(r.to_string());
            return b(B::Intr(intr.len() as u16 - 1));
        }
        match n {
            "memcpy" | "memmove" => return b(B::Memcpy),
            "memset" => return b(B::Memset),
            "bcmp" => return b(B::Bcmp),
            "memcmp" => return b(B::Memcmp),
            "strlen" => return b(B::Strlen),
            "abort" => return b(B::Panic),
            _ => {},
        }
        if n.ends_with("__rust_alloc") || n.ends_with("11___rdl_alloc") { return b(B::Alloc); }
        if n.ends_with("__rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") { return b(B::AllocZ); }
        if n.ends_with("__rust_dealloc") || n.ends_with("___rdl_dealloc") { return b(B::Dealloc); }
        if n.ends_with("__rust_realloc") || n.ends_with("___rdl_realloc") { return b(B::Realloc); }
        if n.contains("__rust_no_alloc_shim_is_unstable") { return b(B::Nop); }
        if n.ends_with("9panicking9panic_fmt") || n.contains("panic_nounwind") || n.contains("rust_begin_unwind") || n.contains("panic_cannot_unwind") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("process5abort") || n.contains("rust_panic") || n.contains("abort_internal") { return b(B::Panic); }
        if n.contains("BuildHasher8hash_one") || n.contains("BuildHasher8hash_oneR") { return b(B::HashOne); }
        if n.ends_with("hashmap_random_keys") { return b(B::RandKeys); }
        if n.ends_with("FromStr8from_str") && n.contains("float_parsef") { return b(B::F32FromStr); }
        if n.ends_with("FromStr8from_str") && n.contains("float_parsed") { return b(B::F64FromStr); }
        if n.contains("4core3fmteNt") && n.ends_with("5Debug3fmt") { return b(B::StrDebug); }
        if (n.ends_with("5Debug3fmt") || n.ends_with("7Display3fmt")) && n.contains("3fmt5floatf") { return b(B::NumFmt); }
        if n.ends_with("5Debug3fmt") && n.contains("4core3fmt3num") { return b(B::NumFmt); }
        // <&i32 as Debug>::fmt and the like, which have the number's formatter inlined
        if n.contains("5Debug3fmt") && ["a", "h", "s", "t", "l", "m", "x", "y", "i", "j", "f", "d"].iter().any(|t| n.contains(&format!("4core3fmtR{}Nt", t))) { return b(B::RefNumFmt); }
        if def { Target::Lazy } else { Target::None }
    }
    fn init_globals(&mut self) {
        let gs = std::mem::take(&mut self.m.globals);
        let mut addrs = vec![];
        for g in &gs {
            let a = self.mem0.alloc_new(g.ty.size());
            self.gaddr.insert(g.name.clone(), a);
            addrs.push(a);
        }
        for (g, &a) in gs.iter().zip(&addrs) {
            if let Some(c) = &g.init {
                let mut buf = vec![0u8; g.ty.size() as usize];
                self.cst_bytes(&g.ty, c, &mut buf);
                let (o, _) = self.mem0.get_mut(a).unwrap();
                o.data = buf;
            }
            let (o, _) = self.mem0.get_mut(a).unwrap();
            o.ro = g.constant;
        }
        self.m.globals = gs;
    }
    fn cst_bytes(&self, ty: &Ty, c: &Cst, out: &mut [u8]) {
        match (ty, c) {
            (_, Cst::Zero) | (_, Cst::Undef) => {},
            (_, Cst::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (_, Cst::Agg(v)) => {
                for (i, (t, c)) in v.iter().enumerate() {
                    let (o, _) = ty.field(i);
                    let n = t.size() as usize;
                    self.cst_bytes(t, c, &mut out[o as usize..o as usize + n]);
                }
            },
            _ => { let v = self.cst_int(c); let n = ty.size() as usize; out[..n].copy_from_slice(&v.to_le_bytes()[..n]); },
        }
    }
    fn cst_int(&self, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(g) => self.gaddr.get(g).copied().or_else(|| self.fidx.get(g).map(|i| FBASE + *i as u64 * 16)).unwrap_or_else(|| { eprintln!("warning: unresolved global {}", g); 0xdead0000 }) as u128,
            Cst::Off(b, o) => (self.cst_int(b) as u64).wrapping_add(*o as u64) as u128,
            Cst::Cast(b) => self.cst_int(b),
            Cst::Bin(op, w, a, b) => { let (a, b) = (self.cst_int(a), self.cst_int(b)); (match op.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, _ => a | b }) & mask(*w) },
            _ => panic!("cst_int"),
        }
    }
    fn cst_v(&self, ty: &Ty, c: &Cst) -> V {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => {
                match c {
                    Cst::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cst_v(t, c)).collect())),
                    Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
                    _ => { let n = ty.nfields(); V::A(Rc::new((0..n).map(|i| { let t = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Array(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => unreachable!() }; self.cst_v(&t, &Cst::Zero) }).collect())) },
                }
            },
            Ty::Int(w) if *w > 64 => V::W(Rc::new(self.cst_int(c))),
            _ => V::C(self.cst_int(c) as u64),
        }
    }
    fn zero_v(&self, ty: &Ty) -> V { if *ty == Ty::Void { V::C(0) } else { self.cst_v(ty, &Cst::Zero) } }
    fn load_fn(&mut self, id: u32) -> Rc<Func> {
        let name = self.m.fnames[id as usize].clone();
        let mut f = parse_func(&self.m, &name);
        for b in f.blocks.iter_mut() {
            for i in b.ins.iter_mut() {
                each_opd(i, &mut |o| { if let Opd::C(t, c) = o { *o = Opd::K(self.cst_v(t, c)); } });
            }
            for (_, _, v) in b.phis.iter_mut() { for (_, o) in v { if let Opd::C(t, c) = o { *o = Opd::K(self.cst_v(t, c)); } } }
        }
        Rc::new(f)
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let id = *self.fidx.get(entry).unwrap_or_else(|| { eprintln!("no such harness {}", entry); std::process::exit(71) });
        let f = self.load_fn(id);
        self.executed[id as usize] = true;
        let regs = vec![V::C(0); f.nregs as usize];
        State {
            frames: vec![Frame { func: f, fid: id, block: 0, ip: 0, regs, ret: NONE, normal: NONE, allocas: vec![] }],
            mem: self.mem0.clone(), doms: Rc::new(vec![]), ent: [0; BW], cons: Rc::new(vec![]), known: Rc::new(HashMap::new()),
            model: Rc::new(vec![]), nvars: 0, choices: Rc::new(vec![]), obs: Rc::new(vec![]), covers: 0, steps: 0, forks: 0, hash: 0,
        }
    }

    // ---- values ----
    pub fn te(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(c) => self.x.k(w, *c as u128),
            V::W(c) => self.x.k(w, **c),
            V::S(e) => { debug_assert_eq!(self.x.w(*e), w); *e },
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    /// value of an expression under the path's domains
    fn norm(&mut self, st: &State, e: E) -> V {
        let n = self.x.n(e);
        if n.op == Op::Const { return if n.w <= 64 { V::C(n.k as u64) } else { V::W(Rc::new(n.k)) }; }
        let s = self.x.supp1[e as usize];
        if s != MULTI && n.w <= 64 {
            let d = &st.doms[s as usize];
            let c = dom_count(d);
            if c == 1 { let t = self.x.table(e); return V::C(t[dom_first(d).unwrap() as usize]); }
            if c <= 32 || n.w == 1 {
                let t = self.x.table(e);
                let mut it = dom_iter(*d);
                let f = t[it.next().unwrap() as usize];
                if it.all(|i| t[i as usize] == f) {
                    let d = *d;
                    self.confirm(e, f, &[(s, d)]);
                    return V::C(f);
                }
            }
        }
        V::S(e)
    }
    /// what tables and intervals decided is put to the solver as well
    fn confirm(&mut self, e: E, val: u64, doms: &[(u16, Dom)]) {
        if self.s.confirm_seen(e, doms) { return; }
        let w = self.x.w(e);
        let other = if w == 1 { if val != 0 { self.x.not(e) } else { e } } else { let k = self.x.k(w, val as u128); let q = self.x.raw(Op::Eq, 1, e, k, 0, 0); self.x.not(q) };
        match self.s.check(&mut self.x, &[other], doms) {
            Res::Unsat => self.s.st.confirmed += 1,
            Res::Unknown => self.s.st.unconfirmed += 1,
            Res::Sat(_) => { eprintln!("engine: the solver refutes a simplification: {} = {}", show(&self.x, e, 12), val); std::process::exit(70); },
        }
    }
    fn get<'a>(f: &'a Frame, o: &'a Opd) -> &'a V {
        match o { Opd::R(r) => &f.regs[*r as usize], Opd::K(v) => v, Opd::C(..) => unreachable!() }
    }

    // ---- path conditions ----
    fn slice(&self, st: &State, e: &[E]) -> (Vec<E>, Vec<(u16, Dom)>) {
        let mut sup = [0u64; BW];
        for &y in e { let s = self.x.support(y); for i in 0..BW { sup[i] |= s[i]; } }
        let mut cs: Vec<E> = e.to_vec();
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let s = self.x.support(c);
                if (0..BW).any(|j| s[j] & sup[j] != 0) { used[i] = true; cs.push(c); for j in 0..BW { sup[j] |= s[j]; } ch = true; }
            }
            if !ch { break; }
        }
        let mut doms = vec![];
        for v in 0..st.nvars { if sup[(v >> 6) as usize] >> (v & 63) & 1 == 1 { doms.push((v, st.doms[v as usize])); } }
        (cs, doms)
    }
    fn singletons(&self, st: &State, e: E) -> Option<Bits> {
        let s = self.x.support(e);
        let mut out = [0u64; BW];
        let mut any = false;
        for v in 0..st.nvars as usize {
            if s[v >> 6] >> (v & 63) & 1 == 1 && dom_count(&st.doms[v]) == 1 { out[v >> 6] |= 1 << (v & 63); any = true; }
        }
        if any { Some(out) } else { None }
    }
    fn var_mask(&mut self, e: E) -> Dom {
        let t = self.x.table(e);
        let mut d = [0u64; 4];
        for i in 0..256 { if t[i] != 0 { d[i >> 6] |= 1 << (i & 63); } }
        d
    }
    fn add(&mut self, st: &mut State, e: E, val: bool) {
        let c = if val { e } else { self.x.not(e) };
        let s = self.x.supp1[c as usize];
        if s == NOVAR { return; }
        if s != MULTI {
            let m = self.var_mask(c);
            let d = &mut Rc::make_mut(&mut st.doms)[s as usize];
            *d = dom_and(d, &m);
        } else {
            let b = self.x.support(c);
            for i in 0..BW { st.ent[i] |= b[i]; }
            // split conjunctions so that single-byte parts narrow domains
            let n = self.x.n(c);
            if n.op == Op::And && n.w == 1 { self.add(st, n.a, true); self.add(st, n.b, true); }
            else {
                Rc::make_mut(&mut st.cons).push(c);
                let k = Rc::make_mut(&mut st.known);
                k.insert(c, true);
                let nc = self.x.not(c);
                k.insert(nc, false);
            }
        }
    }
    /// remembers a fact that follows from the path condition
    fn implied(&mut self, st: &mut State, e: E, val: bool) {
        if self.x.supp1[e as usize] != MULTI { self.add(st, e, val); return; }
        let ne = self.x.not(e);
        let k = Rc::make_mut(&mut st.known);
        k.insert(e, val);
        k.insert(ne, !val);
    }
    fn set_model(&mut self, st: &mut State, m: &[(u16, u8)]) {
        let mm = Rc::make_mut(&mut st.model);
        for &(v, b) in m { mm[v as usize] = b; }
    }
    /// e reduced with the path's knowledge: constant if it is already decided without search
    fn reduce(&mut self, st: &State, e: E) -> E {
        if let Some(&b) = st.known.get(&e) { return self.x.k(1, b as u128); }
        let mut e = e;
        if self.x.supp1[e as usize] == MULTI {
            if let Some(sg) = self.singletons(st, e) {
                let vals: Vec<u8> = (0..st.nvars as usize).map(|v| dom_first(&st.doms[v]).unwrap_or(0)).collect();
                let mut memo = HashMap::new();
                e = self.x.subst(e, &sg, &vals, &mut memo);
                if let Some(&b) = st.known.get(&e) { return self.x.k(1, b as u128); }
            }
            // conjunction/disjunction parts decided by domains
            let n = self.x.n(e);
            if n.w == 1 && (n.op == Op::And || n.op == Op::Or) && self.x.supp1[e as usize] == MULTI {
                let a = self.reduce(st, n.a);
                let b = self.reduce(st, n.b);
                if a != n.a || b != n.b { e = self.x.bin(n.op, a, b); }
            }
        }
        match self.norm(st, e) { V::C(c) => self.x.k(1, c as u128), _ => e }
    }
    pub fn decide(&mut self, st: &mut State, e: E, out: &mut Vec<State>) -> R<bool> {
        let e = self.reduce(st, e);
        if let Some(c) = self.x.cv(e) { return Ok(c != 0); }
        self.branches += 1;
        if self.x.supp1[e as usize] == MULTI {
            let mut memo = HashMap::new();
            let r = self.rng(st, e, &mut memo);
            if r.0 == r.1 {
                self.ranged += 1;
                let sup = self.x.support(e);
                let doms: Vec<(u16, Dom)> = (0..st.nvars).filter(|&v| sup[(v >> 6) as usize] >> (v & 63) & 1 == 1).map(|v| (v, st.doms[v as usize])).collect();
                self.confirm(e, r.0, &doms);
                return Ok(r.0 != 0);
            }
        }
        let model = st.model.clone();
        let cur = self.x.eval(e, &model) != 0;
        self.s.st.model_hits += 1;
        let other = if cur { self.x.not(e) } else { e };
        // congruence: equality of the same function applied to provably equal arguments
        if let Some(v) = self.congruence(st, e) { if v { return Ok(true); } }
        let single = self.x.supp1[e as usize] != MULTI;
        let (cs, doms) = self.slice(st, &[other]);
        if single { self.s.st.single += 1; }
        let r = self.s.check(&mut self.x, &cs, &doms);
        if single && cs.len() == 1 {
            // cross-check the solver against the truth table
            let m = self.var_mask(other);
            let feas = !dom_empty(&dom_and(&m, &doms[0].1));
            match r { Res::Sat(_) if feas => {}, Res::Unsat if !feas => {}, _ => { eprintln!("engine: solver disagrees with truth table: {}", show(&self.x, other, 10)); std::process::exit(70); } }
        }
        match r {
            Res::Unsat => { self.implied(st, e, cur); Ok(cur) },
            Res::Unknown => Err(End::Unknown(format!("solver gave up on {}", show(&self.x, e, 6)))),
            Res::Sat(m) => {
                self.forks += 1;
                st.forks += 1;
                let mut sib = st.clone();
                self.add(&mut sib, e, !cur);
                self.set_model(&mut sib, &m);
                out.push(sib);
                self.add(st, e, cur);
                Ok(cur)
            },
        }
    }
    /// unsigned interval of an expression under the path's byte domains (64 bits at most)
    fn rng(&mut self, st: &State, e: E, memo: &mut HashMap<E, (u64, u64)>) -> (u64, u64) {
        if let Some(r) = memo.get(&e) { return *r; }
        let n = self.x.n(e);
        let full = (0u64, m64(n.w));
        if n.w > 64 { return (0, !0); }
        let r = if n.op == Op::Const { (n.k as u64, n.k as u64) }
        else if self.x.supp1[e as usize] != MULTI {
            let s = self.x.supp1[e as usize] as usize;
            let t = self.x.table(e);
            let (mut lo, mut hi) = (!0u64, 0u64);
            for i in dom_iter(st.doms[s]) { lo = lo.min(t[i as usize]); hi = hi.max(t[i as usize]); }
            if lo > hi { full } else { (lo, hi) }
        } else {
            let wide = (0..Exprs::arity(n.op)).any(|j| self.x.w([n.a, n.b, n.c][j]) > 64);
            if wide { full } else {
                let b = |k: bool| if k { (1, 1) } else { (0, 0) };
                match n.op {
                    Op::Concat => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); let s = self.x.w(n.b); (a.0 << s | c.0, a.1 << s | c.1) },
                    Op::ZExt => self.rng(st, n.a, memo),
                    Op::Extract if n.k == 0 => { let a = self.rng(st, n.a, memo); if a.1 <= full.1 { a } else { full } },
                    Op::LShr => { let a = self.rng(st, n.a, memo); match self.x.cv(n.b) { Some(k) if k < 64 => (a.0 >> k, a.1 >> k), _ => (0, a.1) } },
                    Op::And => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if n.w == 1 { (a.0 & c.0, a.1 & c.1) } else { (0, a.1.min(c.1)) } },
                    Op::Or => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); let m = a.1 | c.1; let h = if m == 0 { 0 } else { !0u64 >> m.leading_zeros() }; (a.0.max(c.0), h) },
                    Op::Xor if n.w == 1 => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if a.0 == a.1 && c.0 == c.1 { (a.0 ^ c.0, a.0 ^ c.0) } else { full } },
                    Op::Add => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); match a.1.checked_add(c.1) { Some(h) if h <= full.1 => (a.0 + c.0, h), _ => {
                        // adding a constant that wraps for every value
                        match a.0.checked_add(c.0) { Some(l) if l > full.1 && n.w < 64 && a.1 as u128 + c.1 as u128 <= 2 * full.1 as u128 + 1 => (l & full.1, (a.1 + c.1) & full.1), None if n.w == 64 => (a.0.wrapping_add(c.0), a.1.wrapping_add(c.1)), _ => full } } } },
                    Op::Sub => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if a.0 >= c.1 { (a.0 - c.1, a.1 - c.0) } else { full } },
                    Op::Mul => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); match a.1.checked_mul(c.1) { Some(h) if h <= full.1 => (a.0 * c.0, h), _ => full } },
                    Op::UDiv => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if c.0 > 0 { (a.0 / c.1, a.1 / c.0) } else { full } },
                    Op::Ite => { let (c, p, q) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo), self.rng(st, n.c, memo)); if c == (1, 1) { p } else if c == (0, 0) { q } else { (p.0.min(q.0), p.1.max(q.1)) } },
                    Op::Eq => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if a.1 < c.0 || c.1 < a.0 { b(false) } else if a.0 == a.1 && a == c { b(true) } else { full } },
                    Op::Ult => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if a.1 < c.0 { b(true) } else if a.0 >= c.1 { b(false) } else { full } },
                    Op::Ule => { let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); if a.1 <= c.0 { b(true) } else if a.0 > c.1 { b(false) } else { full } },
                    Op::Slt | Op::Sle => { let w = self.x.w(n.a); let (a, c) = (self.rng(st, n.a, memo), self.rng(st, n.b, memo)); let half = m64(w) >> 1;
                        if a.1 <= half && c.1 <= half || a.0 > half && c.0 > half { let (lt, ge) = if n.op == Op::Slt { (a.1 < c.0, a.0 >= c.1) } else { (a.1 <= c.0, a.0 > c.1) }; if lt { b(true) } else if ge { b(false) } else { full } }
                        else if a.1 <= half && c.0 > half { b(false) } else if a.0 > half && c.1 <= half { b(true) } else { full } },
                    _ => full,
                }
            }
        };
        memo.insert(e, r);
        r
    }
    fn congruence(&mut self, st: &State, e: E) -> Option<bool> {
        let n = self.x.n(e);
        if n.op == Op::Or && n.w == 1 {
            for q in [n.a, n.b] { if let Some(true) = self.congruence(st, q) { return Some(true); } }
            return None;
        }
        if n.op == Op::FOeq && n.w == 1 {
            // equality of two conversions of integers, or of their negations: none is a NaN
            let strip = |me: &Self, mut e: E| { let mut neg = false; loop { let n = me.x.n(e); if n.op == Op::FNeg { neg = !neg; e = n.a; } else { return (n, neg); } } };
            let ((a, na), (b, nb)) = (strip(self, n.a), strip(self, n.b));
            if !matches!(a.op, Op::SI2F | Op::UI2F) || !matches!(b.op, Op::SI2F | Op::UI2F) || a.w != b.w || self.x.w(a.a) != 64 || self.x.w(b.a) != 64 { return None; }
            // compare as signed integers; unsigned ones have to be below 2^63
            for t in [&a, &b] { if t.op == Op::UI2F && !self.below(st, t.a, 1 << 63) { return None; } }
            let other = if na == nb { b.a } else { let z = self.x.k(64, 0); self.x.bin(Op::Sub, z, b.a) };
            let q = self.x.bin(Op::Eq, a.a, other);
            let nq = self.x.not(q);
            let nq = self.reduce(st, nq);
            if let Some(c) = self.x.cv(nq) { return if c == 0 { Some(true) } else { None }; }
            let (cs, doms) = self.slice(st, &[nq]);
            return match self.s.check(&mut self.x, &cs, &doms) { Res::Unsat => Some(true), _ => None };
        }
        if n.op != Op::Eq || n.w != 1 { return None; }
        let (a, b) = (self.x.n(n.a), self.x.n(n.b));
        let f = |o: Op| matches!(o, Op::SI2F | Op::UI2F | Op::FDec | Op::FNeg | Op::FMul | Op::FDiv | Op::FAdd | Op::FSub | Op::FCvt);
        if !f(a.op) || !f(b.op) { return None; }
        // conversions of equal non-negative integers agree whatever their signedness
        let conv = |o: Op| matches!(o, Op::SI2F | Op::UI2F);
        if a.op != b.op && !(conv(a.op) && conv(b.op)) { return None; }
        let ar = Exprs::arity(a.op);
        let mut want = vec![];
        for (p, q) in [(a.a, b.a), (a.b, b.b)][..ar].iter() {
            if self.x.w(*p) != self.x.w(*q) { return None; }
            if p == q { continue; }
            let q = self.x.bin(Op::Eq, *p, *q);
            want.push(q);
        }
        if a.op != b.op {
            let z = self.x.k(self.x.w(a.a), 0);
            let neg = self.x.bin(Op::Slt, a.a, z);
            let nn = self.x.not(neg);
            want.push(nn);
        }
        for q in want {
            if let Some(true) = self.congruence(st, q) { continue; }
            let nq = self.x.not(q);
            let nq = self.reduce(st, nq);
            if let Some(c) = self.x.cv(nq) { if c == 0 { continue; } else { return Some(false); } }
            let (cs, doms) = self.slice(st, &[nq]);
            match self.s.check(&mut self.x, &cs, &doms) { Res::Unsat => {}, _ => return Some(false) }
        }
        Some(true)
    }
    /// decide the conditions of the selections inside an expression one by one
    fn resolve_ites(&mut self, st: &mut State, mut e: E, out: &mut Vec<State>) -> R<E> {
        loop {
            if self.x.cv(e).is_some() { return Ok(e); }
            let mut seen = std::collections::HashSet::new();
            let ite = match self.find_ite(e, &mut seen) { Some(i) => i, None => return Ok(e) };
            let n = self.x.n(ite);
            let k = self.decide(st, n.a, out)?;
            let mut memo = HashMap::new();
            memo.insert(ite, if k { n.b } else { n.c });
            e = self.replace(e, &mut memo);
        }
    }
    fn find_ite(&self, e: E, seen: &mut std::collections::HashSet<E>) -> Option<E> {
        if !seen.insert(e) { return None; }
        let n = self.x.n(e);
        let ch = [n.a, n.b, n.c];
        for &c in &ch[..Exprs::arity(n.op)] { if let Some(r) = self.find_ite(c, seen) { return Some(r); } }
        if n.op == Op::Ite { Some(e) } else { None }
    }
    fn replace(&mut self, e: E, memo: &mut HashMap<E, E>) -> E {
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.x.n(e);
        let ar = Exprs::arity(n.op);
        if ar == 0 { return e; }
        let ch = [n.a, n.b, n.c];
        let mut v = [0; 3];
        for j in 0..ar { v[j] = self.replace(ch[j], memo); }
        let r = if v[..ar] == ch[..ar] { e } else { self.x.rebuild(&n, v) };
        memo.insert(e, r);
        r
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u16, out: &mut Vec<State>) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                let mut e = *e;
                if let V::C(c) = self.norm(st, e) { return Ok(c); }
                if let Some(sg) = self.singletons(st, e) {
                    let vals: Vec<u8> = (0..st.nvars as usize).map(|v| dom_first(&st.doms[v]).unwrap_or(0)).collect();
                    let mut memo = HashMap::new();
                    e = self.x.subst(e, &sg, &vals, &mut memo);
                    if let V::C(c) = self.norm(st, e) { return Ok(c); }
                }
                e = self.resolve_ites(st, e, out)?;
                if let V::C(c) = self.norm(st, e) { return Ok(c); }
                loop {
                    let model = st.model.clone();
                    let c = self.x.eval(e, &model);
                    let k = self.x.k(w, c);
                    let q = self.x.bin(Op::Eq, e, k);
                    // decide() keeps the side of the current model, which is equality
                    if self.decide(st, q, out)? { return Ok(c as u64); }
                }
            },
            V::W(c) => Ok(**c as u64),
            V::A(_) => Err(End::Unsupported("concretize aggregate".into())),
        }
    }

    // ---- memory ----
    fn fault(&self, st: &State, what: &str, addr: u64, n: u64) -> End {
        End::Unsupported(format!("memory fault: {} of {} bytes at {:#x} in {}", what, n, addr, self.bt(st)))
    }
    pub fn bt(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().rev().take(12).map(|f| short(&f.func.name)).collect();
        v.dedup();
        v.join(" < ")
    }
    fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        // n <= 16; returns integer of n*8 bits
        let (o, off) = match st.mem.get(addr) { Some(x) => x, None => return Err(self.fault(st, "load", addr, n as u64)) };
        if off + n > o.data.len() { return Err(self.fault(st, "load", addr, n as u64)); }
        let anysym = match &o.sym { Some(s) => s[off..off + n].iter().any(|&e| e != 0), None => false };
        if !anysym {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(if n <= 8 { V::C(v as u64) } else { V::W(Rc::new(v)) });
        }
        let s = o.sym.as_ref().unwrap();
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = if s[off + i] != 0 { s[off + i] } else { self.x.k(8, o.data[off + i] as u128) };
            acc = Some(match acc { None => b, Some(a) => self.x.bin(Op::Concat, b, a) });
        }
        Ok(self.norm(st, acc.unwrap()))
    }
    fn store_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &V) -> R<()> {
        let ok = match st.mem.get(addr) { Some((o, off)) => off + n <= o.data.len() && !o.ro, None => false };
        if !ok { return Err(self.fault(st, "store", addr, n as u64)); }
        match v {
            V::C(_) | V::W(_) => {
                let c: u128 = match v { V::C(c) => *c as u128, V::W(c) => **c, _ => 0 };
                let (o, off) = st.mem.get_mut(addr).unwrap();
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
            },
            V::S(e) => {
                let mut bs = Vec::with_capacity(n);
                for i in 0..n {
                    let b = self.x.extract(*e, 8 * i as u16, 8);
                    bs.push(match self.norm(st, b) { V::C(c) => (0, c as u8), V::S(e) => (e, 0), _ => unreachable!() });
                }
                let (o, off) = st.mem.get_mut(addr).unwrap();
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for (i, (e, c)) in bs.into_iter().enumerate() { s[off + i] = e; o.data[off + i] = c; }
            },
            V::A(_) => unreachable!(),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.load_bytes(st, addr, n)?;
                if *w as usize == n * 8 { return Ok(v); }
                Ok(match v { V::C(c) => V::C(c & m64(*w)), V::S(e) => { let t = self.x.trunc(e, *w); self.norm(st, t) }, V::W(c) => V::W(Rc::new(*c & mask(*w))), a => a })
            },
            Ty::Float => self.load_bytes(st, addr, 4),
            Ty::Double | Ty::Ptr => self.load_bytes(st, addr, 8),
            // a vector of less than bytes is packed
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let it = Ty::Int(*n as u16 * t.bits());
                let v = self.load(st, &it, addr)?;
                self.bitcast(st, &it, ty, &v)
            },
            Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n { let (o, t) = ty.field(i); v.push(self.load(st, &t, addr + o)?); }
                Ok(V::A(Rc::new(v)))
            },
            _ => Err(End::Unsupported("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, addr: u64, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                if *w as usize == n * 8 { return self.store_bytes(st, addr, n, v); }
                let v2 = match v { V::S(e) => V::S(self.x.zext(*e, n as u16 * 8)), o => o.clone() };
                self.store_bytes(st, addr, n, &v2)
            },
            Ty::Float => self.store_bytes(st, addr, 4, v),
            Ty::Double | Ty::Ptr => self.store_bytes(st, addr, 8, v),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let it = Ty::Int(*n as u16 * t.bits());
                let v = self.bitcast(st, ty, &it, v)?;
                self.store(st, &it, addr, &v)
            },
            Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) => {
                let a = match v { V::A(a) => a.clone(), _ => return Err(End::Unsupported("store agg".into())) };
                for i in 0..ty.nfields() { let (o, t) = ty.field(i); self.store(st, &t, addr + o, &a[i])?; }
                Ok(())
            },
            _ => Err(End::Unsupported("store type".into())),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let n = n as usize;
        let (bytes, syms) = match st.mem.get(s) {
            Some((o, off)) if off + n <= o.data.len() => (o.data[off..off + n].to_vec(), o.sym.as_ref().and_then(|y| if y[off..off + n].iter().any(|&e| e != 0) { Some(y[off..off + n].to_vec()) } else { None })),
            _ => return Err(self.fault(st, "copy source", s, n as u64)),
        };
        match st.mem.get(d) { Some((o, off)) if off + n <= o.data.len() && !o.ro => {}, _ => return Err(self.fault(st, "copy destination", d, n as u64)) }
        let (o, off) = st.mem.get_mut(d).unwrap();
        o.data[off..off + n].copy_from_slice(&bytes);
        match syms {
            Some(y) => { let len = o.data.len(); let t = o.sym.get_or_insert_with(|| vec![0; len]); t[off..off + n].copy_from_slice(&y); },
            None => if let Some(t) = &mut o.sym { for x in &mut t[off..off + n] { *x = 0; } },
        }
        Ok(())
    }
    fn byte_at(&mut self, st: &State, addr: u64) -> R<E> {
        match self.load_bytes(st, addr, 1)? { V::C(c) => Ok(self.x.k(8, c as u128)), V::S(e) => Ok(e), _ => unreachable!() }
    }
    /// load through an address that depends on input bytes
    fn load_sym(&mut self, st: &mut State, ty: &Ty, e: E, out: &mut Vec<State>) -> R<V> {
        let s = self.x.supp1[e as usize];
        if s != MULTI && ty.scalar() && ty.bits() % 8 == 0 {
            let t = self.x.table(e);
            let d = st.doms[s as usize];
            let w = ty.bits();
            let mut tab = [0u64; 256];
            let mut ok = true;
            for i in dom_iter(d) {
                let good = match st.mem.get(t[i as usize]) { Some((o, off)) => off + (w as usize / 8) <= o.data.len(), None => false };
                if !good { ok = false; break; }
                match self.load_bytes(st, t[i as usize], w as usize / 8)? { V::C(c) => tab[i as usize] = c, _ => { ok = false; break; } }
            }
            if ok {
                let v = self.x.var(s);
                let r = self.x.tab(v, w, tab);
                return Ok(self.norm(st, r));
            }
        }
        let a = self.concretize(st, &V::S(e), 64, out)?;
        self.load(st, ty, a)
    }

    // ---- scalar operations ----
    fn bin(&mut self, st: &State, op: u8, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                0 => x.wrapping_add(y) & m, 1 => x.wrapping_sub(y) & m, 2 => x.wrapping_mul(y) & m,
                3 => if y == 0 { 0 } else { x / y }, 5 => if y == 0 { 0 } else { x % y },
                4 => { let (p, q) = (sx64(x, w), sx64(y, w)); if q == 0 { 0 } else { p.wrapping_div(q) as u64 & m } },
                6 => { let (p, q) = (sx64(x, w), sx64(y, w)); if q == 0 { 0 } else { p.wrapping_rem(q) as u64 & m } },
                7 => x & y, 8 => x | y, 9 => x ^ y,
                10 => if y >= w as u64 { 0 } else { (x << y) & m },
                11 => if y >= w as u64 { 0 } else { x >> y },
                12 => { let s = y.min(w as u64 - 1); (sx64(x, w) >> s) as u64 & m },
                _ => {
                    if w == 32 {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { 13 => p + q, 14 => p - q, 15 => p * q, 16 => p / q, _ => p % q }).to_bits() as u64
                    } else {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match op { 13 => p + q, 14 => p - q, 15 => p * q, 16 => p / q, _ => p % q }).to_bits()
                    }
                },
            };
            return V::C(r);
        }
        const OPS: [Op; 17] = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::FAdd, Op::FSub, Op::FMul, Op::FDiv];
        let (p, q) = (self.te(a, w), self.te(b, w));
        let r = self.x.bin(OPS[op as usize], p, q);
        self.norm(st, r)
    }
    fn icmp(&mut self, st: &State, p: u8, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { 0 => x == y, 1 => x != y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y,
                _ => { let (s, t) = (sx64(x, w), sx64(y, w)); match p { 6 => s > t, 7 => s >= t, 8 => s < t, _ => s <= t } } };
            return V::C(r as u64);
        }
        let (x, y) = (self.te(a, w), self.te(b, w));
        let e = match p {
            0 => self.x.bin(Op::Eq, x, y),
            1 => { let t = self.x.bin(Op::Eq, x, y); self.x.not(t) },
            2 => self.x.bin(Op::Ult, y, x), 3 => self.x.bin(Op::Ule, y, x), 4 => self.x.bin(Op::Ult, x, y), 5 => self.x.bin(Op::Ule, x, y),
            6 => self.x.bin(Op::Slt, y, x), 7 => self.x.bin(Op::Sle, y, x), 8 => self.x.bin(Op::Slt, x, y), _ => self.x.bin(Op::Sle, x, y),
        };
        self.norm(st, e)
    }
    fn fcmp(&mut self, st: &State, p: u8, w: u16, a: &V, b: &V) -> V {
        let (x, y) = (self.te(a, w), self.te(b, w));
        let uno = self.x.bin(Op::FUno, x, y);
        let oeq = self.x.bin(Op::FOeq, x, y);
        let e = match p {
            0 => self.x.k(1, 0), 15 => self.x.k(1, 1),
            1 => oeq,
            2 => self.x.bin(Op::FOlt, y, x), 3 => self.x.bin(Op::FOle, y, x), 4 => self.x.bin(Op::FOlt, x, y), 5 => self.x.bin(Op::FOle, x, y),
            6 => { let n = self.x.bin(Op::Or, uno, oeq); self.x.not(n) },
            7 => self.x.not(uno),
            8 => self.x.bin(Op::Or, uno, oeq),
            9 => { let t = self.x.bin(Op::FOle, x, y); self.x.not(t) },
            10 => { let t = self.x.bin(Op::FOlt, x, y); self.x.not(t) },
            11 => { let t = self.x.bin(Op::FOle, y, x); self.x.not(t) },
            12 => { let t = self.x.bin(Op::FOlt, y, x); self.x.not(t) },
            13 => self.x.not(oeq),
            _ => uno,
        };
        self.norm(st, e)
    }
    fn lanes1(&mut self, ty: &Ty, a: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V) -> V) -> V {
        if let (Ty::Vec(_, t), V::A(x)) = (ty, a) { let r = x.iter().map(|v| f(self, t, v)).collect(); V::A(Rc::new(r)) } else { f(self, ty, a) }
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V, &V) -> V) -> V {
        if let (Ty::Vec(_, t), V::A(x), V::A(y)) = (ty, a, b) { let r = x.iter().zip(y.iter()).map(|(p, q)| f(self, t, p, q)).collect(); V::A(Rc::new(r)) } else { f(self, ty, a, b) }
    }
    fn cast(&mut self, st: &State, k: u8, from: &Ty, to: &Ty, a: &V) -> V {
        let (wf, wt) = (from.bits(), to.bits());
        match k {
            0 => match a { V::C(c) => V::C(c & m64(wt)), V::W(c) => { let r = **c & mask(wt); if wt <= 64 { V::C(r as u64) } else { V::W(Rc::new(r)) } }, V::S(e) => { let r = self.x.trunc(*e, wt); self.norm(st, r) }, V::A(_) => unreachable!() },
            1 => match a { V::C(c) => if wt <= 64 { V::C(*c) } else { V::W(Rc::new(*c as u128)) }, V::S(e) => { let r = match self.affine(st, *e, wt, false) { Some(r) => r, None => self.x.zext(*e, wt) }; self.norm(st, r) }, o => o.clone() },
            2 => match a { V::C(c) => { if wt <= 64 { V::C(sx64(*c, wf) as u64 & m64(wt)) } else { V::W(Rc::new(sx64(*c, wf) as i128 as u128 & mask(wt))) } }, V::S(e) => { let r = match self.affine(st, *e, wt, true) { Some(r) => r, None => self.x.sext(*e, wt) }; self.norm(st, r) }, o => { let e = self.te(o, wf); let r = self.x.sext(e, wt); self.norm(st, r) } },
            9 | 10 | 11 | 12 | 13 => { if wf == wt { a.clone() } else if wt < wf { self.cast(st, 0, from, to, a) } else { self.cast(st, 1, from, to, a) } },
            _ => {
                let e = self.te(a, wf);
                let op = match k { 3 | 4 => Op::FCvt, 5 => Op::F2UI, 6 => Op::F2SI, 7 => Op::UI2F, _ => Op::SI2F };
                let (e, op) = if op == Op::SI2F && wf <= 64 && self.x.supp1[e as usize] != NOVAR {
                    let e = if wf == 64 { e } else { match self.affine(st, e, 64, true) { Some(r) => r, None => self.x.sext(e, 64) } };
                    (e, if self.below(st, e, 1 << 63) { Op::UI2F } else { op })
                } else { (e, op) };
                let r = self.x.un(op, e, wt);
                self.norm(st, r)
            },
        }
    }
    /// extension of a linear form, where the ranges of its parts rule out wrapping
    fn affine(&mut self, st: &State, e: E, w: u16, signed: bool) -> Option<E> {
        let s = self.x.supp1[e as usize];
        let we = self.x.w(e);
        if s == NOVAR || w > 64 || we < 8 { return None; }
        if s != MULTI {
            if signed { return None; }
            let d = st.doms[s as usize];
            if dom_count(&d) > 32 { return None; }
            let vals: Vec<u8> = dom_iter(d).collect();
            let r = self.x.affine_zext(e, w, &vals)?;
            let z = self.x.zext(e, w);
            if r == z { return Some(r); }
            let q = self.x.raw(Op::Eq, 1, z, r, 0, 0);
            self.confirm(q, 1, &[(s, d)]);
            return Some(r);
        }
        if !matches!(self.x.n(e).op, Op::Add | Op::Sub | Op::Mul) { return None; }
        let l = self.x.lin(e);
        let m = 1i128 << we;
        let sg = |v: u128| { let v = v as i128; if v >= m / 2 { v - m } else { v } };
        let (mut lo, mut hi) = (sg(l.1), sg(l.1));
        let mut memo = HashMap::new();
        for &(a, c) in &l.0 {
            let n = self.x.n(a);
            if n.op != Op::ZExt && self.x.supp1[a as usize] == MULTI { return None; }
            let r = self.rng(st, a, &mut memo);
            let c = sg(c);
            let (p, q) = (c.checked_mul(r.0 as i128)?, c.checked_mul(r.1 as i128)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        let off = if signed { m / 2 } else { 0 };
        let q = (lo + off).div_euclid(m);
        if (hi + off).div_euclid(m) != q { return None; }
        let mut r = self.x.k(w, (sg(l.1) - q * m) as u128);
        for &(a, c) in &l.0 {
            let n = self.x.n(a);
            let z = if n.op == Op::ZExt { self.x.zext(n.a, w) } else { let z = self.x.zext(a, w); z };
            let k = self.x.k(w, sg(c) as u128);
            let t = self.x.bin(Op::Mul, z, k);
            r = self.x.bin(Op::Add, r, t);
        }
        let z = if signed { self.x.sext(e, w) } else { self.x.zext(e, w) };
        if z != r {
            let q = self.x.raw(Op::Eq, 1, z, r, 0, 0);
            let sup = self.x.support(q);
            let doms: Vec<(u16, Dom)> = (0..st.nvars).filter(|&v| sup[(v >> 6) as usize] >> (v & 63) & 1 == 1).map(|v| (v, st.doms[v as usize])).collect();
            self.confirm(q, 1, &doms);
        }
        Some(r)
    }
    /// proves an upper bound from intervals; the solver confirms it
    fn below(&mut self, st: &State, e: E, bound: u64) -> bool {
        let mut memo = HashMap::new();
        let r = self.rng(st, e, &mut memo);
        if r.1 >= bound { return false; }
        if self.x.supp1[e as usize] != NOVAR {
            let k = self.x.k(self.x.w(e), bound as u128);
            let q = self.x.raw(Op::Ult, 1, e, k, 0, 0);
            let sup = self.x.support(e);
            let doms: Vec<(u16, Dom)> = (0..st.nvars).filter(|&v| sup[(v >> 6) as usize] >> (v & 63) & 1 == 1).map(|v| (v, st.doms[v as usize])).collect();
            if self.x.cv(q).is_none() { self.confirm(q, 1, &doms); }
        }
        true
    }
    fn bitcast(&mut self, st: &State, from: &Ty, to: &Ty, a: &V) -> R<V> {
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) { return Ok(self.cast(st, 11, from, to, a)); }
        // flatten
        let mut total = 0u16;
        let mut acc: Option<E> = None;
        match (from, a) {
            (Ty::Vec(_, t), V::A(x)) => for v in x.iter() { let w = t.bits(); let e = self.te(v, w); acc = Some(match acc { None => e, Some(p) => self.x.bin(Op::Concat, e, p) }); total += w; },
            _ => { total = from.bits(); acc = Some(self.te(a, total)); },
        }
        let e = acc.unwrap();
        Ok(match to {
            Ty::Vec(n, t) => { let w = t.bits(); let mut v = vec![]; for i in 0..*n as u16 { let l = self.x.extract(e, i * w, w); v.push(self.norm(st, l)); } V::A(Rc::new(v)) },
            _ => { let _ = total; self.norm(st, e) },
        })
    }
    fn merge_ite(&mut self, st: &State, c: E, ty: &Ty, a: &V, b: &V) -> Option<V> {
        match (a, b) {
            (V::C(x), V::C(y)) if x == y => return Some(a.clone()),
            (V::S(x), V::S(y)) if x == y => return Some(a.clone()),
            _ => {},
        }
        match ty {
            Ty::Int(w) => { let (p, q) = (self.te(a, *w), self.te(b, *w)); let r = self.x.ite(c, p, q); Some(self.norm(st, r)) },
            Ty::Float | Ty::Double => { let w = ty.bits(); let (p, q) = (self.te(a, w), self.te(b, w)); let r = self.x.ite(c, p, q); Some(self.norm(st, r)) },
            Ty::Vec(_, t) => {
                if let (V::A(x), V::A(y)) = (a, b) { let mut r = vec![]; for (p, q) in x.iter().zip(y.iter()) { r.push(self.merge_ite(st, c, t, p, q)?); } Some(V::A(Rc::new(r))) } else { None }
            },
            _ => None,
        }
    }

    // ---- main loop ----
    /// Runs a path to its end, or to its first fork when `yield_on_fork`; siblings go to `out`.
    pub fn run(&mut self, st: &mut State, out: &mut Vec<State>, yield_on_fork: bool) -> End {
        loop {
            match self.step(st, out) {
                Ok(()) => {
                    if yield_on_fork && !out.is_empty() { return End::Yield; }
                },
                Err(e) => return e,
            }
            st.steps += 1;
            self.instrs += 1;
            if st.steps > self.step_limit { return End::Hang(self.bt(st)); }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.block;
        let func = f.func.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, v) = &b.phis[0];
                let o = v.iter().find(|(p, _)| *p == from).map(|(_, o)| o).expect("phi edge");
                let x = Self::get(f, o).clone();
                f.regs[*d as usize] = x;
            } else {
                let vals: Vec<V> = b.phis.iter().map(|(_, _, v)| { let o = v.iter().find(|(p, _)| *p == from).map(|(_, o)| o).expect("phi edge"); Self::get(f, o).clone() }).collect();
                for ((d, _, _), x) in b.phis.iter().zip(vals) { f.regs[*d as usize] = x; }
            }
        }
        f.block = to;
        f.ip = 0;
    }
    fn addr(&mut self, st: &mut State, v: &V, out: &mut Vec<State>) -> R<u64> {
        match v { V::C(a) => Ok(*a), _ => self.concretize(st, v, 64, out) }
    }
    fn step(&mut self, st: &mut State, out: &mut Vec<State>) -> R<()> {
        let f = st.frames.last().unwrap();
        let func = f.func.clone();
        let ins = &func.blocks[f.block as usize].ins[f.ip as usize];
        macro_rules! g { ($o:expr) => { Self::get(st.frames.last().unwrap(), $o) }; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let f = st.frames.last_mut().unwrap(); f.regs[$d as usize] = v; f.ip += 1; }}; }
        match ins {
            Ins::Bin { op, ty, a, b, d } => {
                let f = st.frames.last().unwrap();
                if let (V::C(_), V::C(_), Ty::Int(w)) = (Self::get(f, a), Self::get(f, b), ty) {
                    let (p, q) = (Self::get(f, a).clone(), Self::get(f, b).clone());
                    let r = self.bin(st, *op, *w, &p, &q);
                    set!(*d, r);
                } else {
                    let (p, q) = (g!(a).clone(), g!(b).clone());
                    let o = *op;
                    let s2: &State = st;
                    let r = self.lanes2(ty, &p, &q, &mut |me, t, x, y| me.bin(s2, o, t.bits(), x, y));
                    set!(*d, r);
                }
            },
            Ins::FNeg { ty, a, d } => {
                let p = g!(a).clone();
                let s2: &State = st;
                let r = self.lanes1(ty, &p, &mut |me, t, x| { let e = me.te(x, t.bits()); let r = me.x.fneg(e); me.norm(s2, r) });
                set!(*d, r);
            },
            Ins::ICmp { p, ty, a, b, d } => {
                let (x, y) = (g!(a).clone(), g!(b).clone());
                let pr = *p;
                let s2: &State = st;
                let r = self.lanes2(ty, &x, &y, &mut |me, t, x, y| me.icmp(s2, pr, t.bits(), x, y));
                set!(*d, r);
            },
            Ins::FCmp { p, ty, a, b, d } => {
                let (x, y) = (g!(a).clone(), g!(b).clone());
                let pr = *p;
                let s2: &State = st;
                let r = self.lanes2(ty, &x, &y, &mut |me, t, x, y| me.fcmp(s2, pr, t.bits(), x, y));
                set!(*d, r);
            },
            Ins::Cast { k, from, to, a, d } => {
                let x = g!(a).clone();
                let r = if *k == 11 { self.bitcast(st, from, to, &x)? } else if let (Ty::Vec(_, tf), Ty::Vec(_, tt), V::A(v)) = (from, to, &x) {
                    let mut o = vec![]; for l in v.iter() { o.push(self.cast(st, *k, tf, tt, l)); } V::A(Rc::new(o))
                } else { self.cast(st, *k, from, to, &x) };
                set!(*d, r);
            },
            Ins::Select { cty, ty, c, a, b, d } => {
                let cv = g!(c).clone();
                if let (Ty::Vec(..), V::A(cs)) = (cty, &cv) {
                    let (x, y) = (g!(a).clone(), g!(b).clone());
                    let (xs, ys, et) = match (&x, &y, ty) { (V::A(x), V::A(y), Ty::Vec(_, t)) => (x.clone(), y.clone(), t.clone()), _ => return Err(End::Unsupported("vec select".into())) };
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(match &cs[i] { V::C(k) => if *k & 1 == 1 { xs[i].clone() } else { ys[i].clone() }, V::S(e) => match self.merge_ite(st, *e, &et, &xs[i], &ys[i]) { Some(v) => v, None => return Err(End::Unsupported("vec select".into())) }, _ => unreachable!() });
                    }
                    set!(*d, V::A(Rc::new(r)));
                    return Ok(());
                }
                match cv {
                    V::C(k) => { let v = if k & 1 == 1 { g!(a).clone() } else { g!(b).clone() }; set!(*d, v); },
                    V::S(e) => {
                        let e2 = self.reduce(st, e);
                        if let Some(k) = self.x.cv(e2) { let v = if k & 1 == 1 { g!(a).clone() } else { g!(b).clone() }; set!(*d, v); return Ok(()); }
                        let (x, y) = (g!(a).clone(), g!(b).clone());
                        if let Some(v) = self.merge_ite(st, e2, ty, &x, &y) { set!(*d, v); }
                        else { let k = self.decide(st, e2, out)?; let v = if k { x } else { y }; set!(*d, v); }
                    },
                    _ => return Err(End::Unsupported("select".into())),
                }
            },
            Ins::Load { ty, p, d } => {
                let a = g!(p).clone();
                let v = match a { V::C(a) => self.load(st, ty, a)?, V::S(e) => self.load_sym(st, ty, e, out)?, _ => unreachable!() };
                set!(*d, v);
            },
            Ins::Store { ty, v, p } => {
                let a = g!(p).clone();
                let a = self.addr(st, &a, out)?;
                let v = g!(v).clone();
                self.store(st, ty, a, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            },
            Ins::Alloca { size, n, d } => {
                let k = match g!(n) { V::C(k) => *k, _ => return Err(End::Unsupported("alloca".into())) };
                let a = st.mem.alloc_new(size * k);
                st.frames.last_mut().unwrap().allocas.push(a);
                set!(*d, V::C(a));
            },
            Ins::Gep { base, off, idx, d } => {
                let mut r = g!(base).clone();
                if let V::C(b) = r {
                    let mut acc = b.wrapping_add(*off as u64);
                    let mut sym = false;
                    for (o, w, s) in idx { if let V::C(i) = g!(o) { acc = acc.wrapping_add((sx64(*i, *w) as u64).wrapping_mul(*s)); } else { sym = true; } }
                    if !sym { set!(*d, V::C(acc)); return Ok(()); }
                }
                r = self.bin(st, 0, 64, &r, &V::C(*off as u64));
                for (o, w, s) in idx {
                    let i = g!(o).clone();
                    let i = if *w < 64 { self.cast(st, 2, &Ty::Int(*w), &Ty::Int(64), &i) } else { i };
                    let t = self.bin(st, 2, 64, &i, &V::C(*s));
                    r = self.bin(st, 0, 64, &r, &t);
                }
                set!(*d, r);
            },
            Ins::Call { f: callee, args, ret, d, normal } => {
                let fa = g!(callee).clone();
                let fa = match fa { V::C(a) => a, _ => self.concretize(st, &fa, 64, out)? };
                if fa < FBASE { return Err(End::Unsupported(format!("call of {:#x} in {}", fa, self.bt(st)))); }
                let id = ((fa - FBASE) / 16) as u32;
                let argv: Vec<V> = { let f = st.frames.last().unwrap(); args.iter().map(|(_, o)| Self::get(f, o).clone()).collect() };
                self.call(st, id, argv, args, ret, *d, *normal, out)?;
            },
            Ins::Br { t } => self.jump(st, *t),
            Ins::CondBr { c, t, f } => {
                let to = match g!(c) {
                    V::C(k) => if k & 1 == 1 { *t } else { *f },
                    V::S(e) => { let e = *e; if self.decide(st, e, out)? { *t } else { *f } },
                    _ => unreachable!(),
                };
                self.jump(st, to);
            },
            Ins::Switch { w, v, cases, def } => {
                let x = g!(v).clone();
                let to = match x {
                    V::C(k) => cases.iter().find(|(c, _)| *c as u64 == k).map(|(_, l)| *l).unwrap_or(*def),
                    V::S(e) => {
                        // group the cases by target
                        let mut targets: Vec<(u32, Vec<u128>)> = vec![];
                        for (c, l) in cases { if let Some(t) = targets.iter_mut().find(|(t, _)| t == l) { t.1.push(*c); } else { targets.push((*l, vec![*c])); } }
                        let mut dest = *def;
                        for (l, cs) in targets {
                            let mut cond = self.x.k(1, 0);
                            for c in cs { let k = self.x.k(*w, c); let q = self.x.bin(Op::Eq, e, k); cond = self.x.bin(Op::Or, cond, q); }
                            if self.decide(st, cond, out)? { dest = l; break; }
                        }
                        dest
                    },
                    V::W(k) => cases.iter().find(|(c, _)| *c == *k).map(|(_, l)| *l).unwrap_or(*def),
                    _ => unreachable!(),
                };
                self.jump(st, to);
            },
            Ins::Ret { v } => {
                let r = v.as_ref().map(|(_, o)| g!(o).clone());
                let f = st.frames.pop().unwrap();
                for a in &f.allocas { st.mem.dealloc(*a); }
                if st.frames.is_empty() { return Err(End::Ok); }
                let c = st.frames.last_mut().unwrap();
                if f.ret != NONE { c.regs[f.ret as usize] = r.unwrap_or(V::C(0)); }
                if f.normal != NONE { self.jump(st, f.normal); } else { c.ip += 1; }
            },
            Ins::Unreachable => return Err(End::Unsupported(format!("unreachable executed in {}", self.bt(st)))),
            Ins::ExtractValue { a, path, ty: _, d } => {
                let mut v = g!(a).clone();
                for &i in path { v = match v { V::A(x) => x[i as usize].clone(), _ => return Err(End::Unsupported("extractvalue".into())) }; }
                set!(*d, v);
            },
            Ins::InsertValue { a, v, path, ty: _, d } => {
                fn ins(a: &V, v: &V, p: &[u32]) -> V { if p.is_empty() { return v.clone(); } match a { V::A(x) => { let mut y = (**x).clone(); y[p[0] as usize] = ins(&y[p[0] as usize], v, &p[1..]); V::A(Rc::new(y)) }, o => o.clone() } }
                let r = ins(g!(a), g!(v), path);
                set!(*d, r);
            },
            Ins::ExtractElement { vty: _, a, i, d } => {
                let iv = g!(i).clone();
                let k = self.concretize(st, &iv, 64, out)?;
                let r = match g!(a) { V::A(x) => x[k as usize].clone(), _ => unreachable!() };
                set!(*d, r);
            },
            Ins::InsertElement { vty: _, a, v, i, d } => {
                let iv = g!(i).clone();
                let k = self.concretize(st, &iv, 64, out)?;
                let r = match g!(a) { V::A(x) => { let mut y = (**x).clone(); y[k as usize] = g!(v).clone(); V::A(Rc::new(y)) }, _ => unreachable!() };
                set!(*d, r);
            },
            Ins::Shuffle { vty, a, b, mask, d } => {
                let n = vty.nfields() as u32;
                let r = match (g!(a), g!(b)) { (V::A(x), V::A(y)) => V::A(Rc::new(mask.iter().map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect())), _ => unreachable!() };
                set!(*d, r);
            },
            Ins::AtomicRmw { op, ty, p, v, d } => {
                let a = g!(p).clone();
                let a = self.addr(st, &a, out)?;
                let old = self.load(st, ty, a)?;
                let v = g!(v).clone();
                let w = ty.bits();
                let new = match *op { 0 => v, 1 => self.bin(st, 0, w, &old, &v), 2 => self.bin(st, 1, w, &old, &v), 3 => self.bin(st, 7, w, &old, &v), 5 => self.bin(st, 8, w, &old, &v), 6 => self.bin(st, 9, w, &old, &v), _ => return Err(End::Unsupported("atomicrmw".into())) };
                self.store(st, ty, a, &new)?;
                set!(*d, old);
            },
            Ins::CmpXchg { ty, p, c, n, d } => {
                let a = g!(p).clone();
                let a = self.addr(st, &a, out)?;
                let old = self.load(st, ty, a)?;
                let c = g!(c).clone();
                let eq = self.icmp(st, 0, ty.bits(), &old, &c);
                let k = match eq { V::C(k) => k == 1, V::S(e) => self.decide(st, e, out)?, _ => unreachable!() };
                if k { let nv = g!(n).clone(); self.store(st, ty, a, &nv)?; }
                set!(*d, V::A(Rc::new(vec![old, V::C(k as u64)])));
            },
            Ins::Copy { a, d } => { let v = g!(a).clone(); set!(*d, v); },
            Ins::Nop => st.frames.last_mut().unwrap().ip += 1,
            Ins::Unsupported(s) => return Err(End::Unsupported(format!("{} in {}", s, self.bt(st)))),
        }
        Ok(())
    }

    fn finish(&mut self, st: &mut State, d: u32, normal: u32, v: V) {
        if d != NONE { st.frames.last_mut().unwrap().regs[d as usize] = v; }
        if normal != NONE { self.jump(st, normal); } else { st.frames.last_mut().unwrap().ip += 1; }
    }
    fn push_frame(&mut self, st: &mut State, id: u32, f: Rc<Func>, argv: Vec<V>, d: u32, normal: u32) -> R<()> {
        self.executed[id as usize] = true;
        if st.frames.len() > 400 { return Err(End::Hang(format!("recursion: {}", self.bt(st)))); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        if argv.len() != f.params.len() { return Err(End::Unsupported(format!("arity of {}", f.name))); }
        for (p, v) in f.params.iter().zip(argv) { regs[*p as usize] = v; }
        st.frames.push(Frame { func: f, fid: id, block: 0, ip: 0, regs, ret: d, normal, allocas: vec![] });
        Ok(())
    }
    fn has_sym(&self, st: &State, addr: u64, n: u64) -> bool {
        if n == 0 { return false; }
        match st.mem.get(addr) { Some((o, off)) => match &o.sym { Some(s) => s[off..(off + n as usize).min(s.len())].iter().any(|&e| e != 0), None => false }, None => false }
    }
    #[allow(clippy::too_many_arguments)]
    fn call(&mut self, st: &mut State, id: u32, argv: Vec<V>, args: &[(Ty, Opd)], ret: &Ty, d: u32, normal: u32, out: &mut Vec<State>) -> R<()> {
        let t = self.targets[id as usize].clone();
        let b = match t {
            Target::Lazy => { let f = self.load_fn(id); self.targets[id as usize] = Target::Def(f.clone()); return self.push_frame(st, id, f, argv, d, normal); },
            Target::Def(f) => return self.push_frame(st, id, f, argv, d, normal),
            Target::None => { let n = self.m.fnames[id as usize].to_string(); self.missing.insert(n.clone()); return Err(End::Unsupported(format!("call of external function {} in {}", short(&n), self.bt(st)))); },
            Target::Builtin(b) => b,
        };
        macro_rules! cc { ($i:expr) => {{ let v = argv[$i].clone(); self.concretize(st, &v, args[$i].0.bits(), out)? }}; }
        let r: V = match b {
            B::Nop => self.zero_v(ret),
            B::SymByte | B::SymByteIn | B::SymByteSet => {
                let dom: Dom = match b {
                    B::SymByte => FULL,
                    B::SymByteIn => { let (lo, hi) = (cc!(0) as u8, cc!(1) as u8); let mut m = [0u64; 4]; for v in lo..=hi { m[(v >> 6) as usize] |= 1 << (v & 63); } m },
                    _ => { let (p, n) = (cc!(0), cc!(1)); let mut m = [0u64; 4]; for i in 0..n { let e = self.byte_at(st, p + i)?; let v = self.x.cv(e).ok_or(End::Unsupported("symbolic set".into()))? as u8; m[(v >> 6) as usize] |= 1 << (v & 63); } m },
                };
                let i = st.nvars;
                if i as usize >= MAXV { return Err(End::Unsupported("too many symbolic bytes".into())); }
                st.nvars += 1;
                Rc::make_mut(&mut st.doms).push(dom);
                Rc::make_mut(&mut st.model).push(dom_first(&dom).unwrap());
                Rc::make_mut(&mut st.choices).push(Choice::Var(i));
                let e = self.x.var(i);
                self.norm(st, e)
            },
            B::SymChoose => {
                let n = cc!(0) as u32;
                if n == 0 { return Err(End::Infeasible); }
                if n == 1 { Rc::make_mut(&mut st.choices).push(Choice::K(0)); V::C(0) } else {
                    // a symbolic byte below n; one successor per value that the solver finds possible
                    if n > 256 { return Err(End::Unsupported("choice of more than 256".into())); }
                    let i = st.nvars;
                    if i as usize >= MAXV { return Err(End::Unsupported("too many symbolic bytes".into())); }
                    st.nvars += 1;
                    let mut dm = [0u64; 4];
                    for v in 0..n { dm[(v >> 6) as usize] |= 1 << (v & 63); }
                    Rc::make_mut(&mut st.doms).push(dm);
                    Rc::make_mut(&mut st.model).push(0);
                    Rc::make_mut(&mut st.choices).push(Choice::Var(i));
                    let ve = self.x.var(i);
                    for k in (0..n).rev() {
                        let kk = self.x.k(8, k as u128);
                        let q = self.x.bin(Op::Eq, ve, kk);
                        match self.s.check(&mut self.x, &[q], &[(i, dm)]) {
                            Res::Sat(_) => {},
                            Res::Unsat => continue,
                            Res::Unknown => return Err(End::Unknown("choice".into())),
                        }
                        if k == 0 { break; }
                        let mut s2 = st.clone();
                        self.add(&mut s2, q, true);
                        self.set_model(&mut s2, &[(i, k as u8)]);
                        self.forks += 1;
                        self.finish(&mut s2, d, normal, V::C(k as u64));
                        out.push(s2);
                    }
                    let kk = self.x.k(8, 0);
                    let q = self.x.bin(Op::Eq, ve, kk);
                    self.add(st, q, true);
                    V::C(0)
                }
            },
            B::SymAssume => {
                match &argv[0] {
                    V::C(c) => if c & 1 == 0 { return Err(End::Infeasible); },
                    V::S(e) => {
                        let w = self.x.w(*e);
                        let e1 = if w == 1 { *e } else { self.x.trunc(*e, 1) };
                        let e1 = self.reduce(st, e1);
                        match self.x.cv(e1) {
                            Some(0) => return Err(End::Infeasible),
                            Some(_) => {},
                            None => {
                                let model = st.model.clone();
                                if self.x.eval(e1, &model) == 0 {
                                    let (cs, doms) = self.slice(st, &[e1]);
                                    match self.s.check(&mut self.x, &cs, &doms) {
                                        Res::Unsat => return Err(End::Infeasible),
                                        Res::Unknown => return Err(End::Unknown("assume".into())),
                                        Res::Sat(m) => self.set_model(st, &m),
                                    }
                                }
                                self.add(st, e1, true);
                            },
                        }
                    },
                    _ => {},
                }
                V::C(0)
            },
            B::SymFail => { let c = cc!(0) as u32; return Err(End::Fail(c)); },
            B::SymHash => { st.hash = cc!(0); V::C(0) },
            B::SymCover => { let c = cc!(0); st.covers |= 1 << (c & 63); V::C(0) },
            B::SymObs => { Rc::make_mut(&mut st.obs).push(argv[0].clone()); V::C(0) },
            B::SymIsEngine => V::C(1),
            B::SymConcrete => { let (p, n) = (cc!(0), cc!(1)); V::C(!self.has_sym(st, p, n) as u64) },
            B::SymF32Dec => {
                let (m, nd, e) = (argv[0].clone(), cc!(1), argv[2].clone());
                let me = self.te(&m, 64);
                let ee = self.te(&e, 32);
                let _ = nd;
                // below 2^24 and for small powers of ten one IEEE operation gives the correctly rounded value
                let small = match self.x.cv(ee) { Some(c) => { let c = sx(c, 32); c.abs() <= 10 && self.below(st, me, 1 << 24) }, None => false };
                let r = if small {
                    let c = sx(self.x.cv(ee).unwrap(), 32) as i32;
                    let f = self.x.un(Op::UI2F, me, 32);
                    if c == 0 { f } else { let p = self.x.k(32, 10f32.powi(c.abs()).to_bits() as u128); self.x.bin(if c < 0 { Op::FDiv } else { Op::FMul }, f, p) }
                } else { self.x.bin(Op::FDec, me, ee) };
                self.norm(st, r)
            },
            B::Alloc | B::AllocZ => { let n = cc!(0); if n > (1 << SHIFT) - 64 { return Err(End::Panic(format!("allocation of {} bytes in {}", n, self.bt(st)))); } V::C(st.mem.alloc_new(n)) },
            B::Dealloc => { let p = cc!(0); if !st.mem.dealloc(p) { return Err(self.fault(st, "free", p, 0)); } V::C(0) },
            B::Realloc => { let (p, old, new) = (cc!(0), cc!(1), cc!(3)); if new > (1 << SHIFT) - 64 { return Err(End::Panic("allocation too large".into())); } let q = st.mem.alloc_new(new); self.copy(st, q, p, old.min(new))?; st.mem.dealloc(p); V::C(q) },
            B::Panic => return Err(End::Panic(self.bt(st))),
            B::HashOne => { self.stubs_used.insert("BuildHasher::hash_one -> one constant for all keys (the hash_* harnesses vary it, and with it the order of iteration)".into()); V::C(st.hash) },
            B::RandKeys => V::A(Rc::new(vec![V::C(1), V::C(2)])),
            B::F32FromStr => {
                let (p, n) = (cc!(0), cc!(1));
                if self.has_sym(st, p, n) {
                    self.stubs_used.insert("f32::from_str on symbolic text -> grammar summary with correctly rounded value".into());
                    let id2 = match self.f32sum { Some(i) => i, None => return Err(End::Unsupported("no f32 summary".into())) };
                    let f = self.load_real(id2);
                    return self.push_frame(st, id2, f, argv, d, normal);
                }
                let f = self.load_real(id);
                return self.push_frame(st, id, f, argv, d, normal);
            },
            B::F64FromStr => {
                let (p, n) = (cc!(0), cc!(1));
                if self.has_sym(st, p, n) { return Err(End::Unsupported("f64::from_str on symbolic text".into())); }
                let f = self.load_real(id);
                return self.push_frame(st, id, f, argv, d, normal);
            },
            B::StrDebug => {
                let (p, n) = (cc!(0), cc!(1));
                if self.has_sym(st, p, n) { self.stubs_used.insert("Debug formatting of symbolic text -> nothing".into()); V::C(0) }
                else { let f = self.load_real(id); return self.push_frame(st, id, f, argv, d, normal); }
            },
            B::NumFmt | B::RefNumFmt => {
                let mut p = cc!(0);
                if b == B::RefNumFmt { if let V::C(q) = self.load(st, &Ty::Int(64), p)? { p = q } }
                if self.has_sym(st, p, 8.min(self.obj_rest(st, p))) { self.stubs_used.insert("Debug formatting of symbolic numbers -> nothing".into()); V::C(0) }
                else { let f = self.load_real(id); return self.push_frame(st, id, f, argv, d, normal); }
            },
            B::Bcmp | B::Memcmp => {
                let (p, q, n) = (cc!(0), cc!(1), cc!(2));
                if b == B::Bcmp {
                    let mut all = self.x.k(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte_at(st, p + i)?, self.byte_at(st, q + i)?);
                        let e = self.x.bin(Op::Eq, x, y);
                        let e = match self.norm(st, e) { V::C(c) => self.x.k(1, c as u128), _ => e };
                        all = self.x.bin(Op::And, all, e);
                        if self.x.cv(all) == Some(0) { break; }
                    }
                    let ne = self.x.not(all);
                    let r = self.x.zext(ne, 32);
                    self.norm(st, r)
                } else {
                    let mut r = self.x.k(32, 0);
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte_at(st, p + i)?, self.byte_at(st, q + i)?);
                        let eq = self.x.bin(Op::Eq, x, y);
                        let lt = self.x.bin(Op::Ult, x, y);
                        let (m, o) = (self.x.k(32, 0xffff_ffff), self.x.k(32, 1));
                        let t = self.x.ite(lt, m, o);
                        r = self.x.ite(eq, r, t);
                    }
                    self.norm(st, r)
                }
            },
            B::Strlen => { let p = cc!(0); let mut i = 0; loop { let e = self.byte_at(st, p + i)?; match self.x.cv(e) { Some(0) => break, Some(_) => i += 1, None => return Err(End::Unsupported("strlen".into())) } } V::C(i) },
            B::Memcpy => { let (p, q, n) = (cc!(0), cc!(1), cc!(2)); self.copy(st, p, q, n)?; argv[0].clone() },
            B::Memset => {
                let (p, n) = (cc!(0), cc!(2));
                if n > 0 {
                    let ok = match st.mem.get(p) { Some((o, off)) => off + n as usize <= o.data.len() && !o.ro, None => false };
                    if !ok { return Err(self.fault(st, "memset", p, n)); }
                    match &argv[1] {
                        V::C(c) => { let (o, off) = st.mem.get_mut(p).unwrap(); for x in &mut o.data[off..off + n as usize] { *x = *c as u8; } if let Some(s) = &mut o.sym { for x in &mut s[off..off + n as usize] { *x = 0; } } },
                        v => { let v = match v { V::S(e) => V::S(self.x.trunc(*e, 8)), o => o.clone() }; for i in 0..n { self.store_bytes(st, p + i, 1, &v)?; } },
                    }
                }
                argv[0].clone()
            },
            B::Intr(k) => { let name = self.intr[k as usize].clone(); self.intrinsic(st, &name, &argv, args, ret, out)? },
        };
        self.finish(st, d, normal, r);
        Ok(())
    }
    fn obj_rest(&self, st: &State, p: u64) -> u64 { match st.mem.get(p) { Some((o, off)) => o.data.len() as u64 - off as u64, None => 0 } }
    fn intrinsic(&mut self, st: &mut State, name: &str, argv: &[V], args: &[(Ty, Opd)], ret: &Ty, out: &mut Vec<State>) -> R<V> {
        let _ = &out;
        let parts: Vec<&str> = name.split('.').collect();
        let ty = args.get(0).map(|a| a.0.clone()).unwrap_or(Ty::Void);
        // element-wise on vectors
        if let (Ty::Vec(n, t), false) = (&ty, name.starts_with("vector.reduce")) {
            if let Ty::Vec(_, rt) = ret {
                let mut r = vec![];
                for i in 0..*n as usize {
                    let av: Vec<V> = argv.iter().map(|v| match v { V::A(x) => x[i].clone(), o => o.clone() }).collect();
                    let at: Vec<(Ty, Opd)> = args.iter().map(|(ty, o)| (match ty { Ty::Vec(_, t) => (**t).clone(), o => o.clone() }, o.clone())).collect();
                    r.push(self.intrinsic(st, name, &av, &at, rt, out)?);
                }
                let _ = t;
                return Ok(V::A(Rc::new(r)));
            }
        }
        let w = if ty.scalar() { ty.bits() } else { 0 };
        match parts[0] {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match parts[0] { "umin" => 4, "umax" => 2, "smin" => 8, _ => 6 };
                let c = self.icmp(st, p, w, &argv[0], &argv[1]);
                Ok(match c { V::C(1) => argv[0].clone(), V::C(_) => argv[1].clone(), V::S(e) => self.merge_ite(st, e, &ty, &argv[0], &argv[1]).unwrap(), _ => unreachable!() })
            },
            "abs" => { let z = V::C(0); let z = if w > 64 { V::W(Rc::new(0)) } else { z }; let c = self.icmp(st, 8, w, &argv[0], &z); let n = self.bin(st, 1, w, &z, &argv[0]);
                Ok(match c { V::C(1) => n, V::C(_) => argv[0].clone(), V::S(e) => self.merge_ite(st, e, &ty, &n, &argv[0]).unwrap(), _ => unreachable!() }) },
            "ucmp" | "scmp" => {
                let s = parts[0] == "scmp";
                let lt = self.icmp(st, if s { 8 } else { 4 }, w, &argv[0], &argv[1]);
                let gt = self.icmp(st, if s { 6 } else { 2 }, w, &argv[0], &argv[1]);
                let rw = ret.bits();
                let (l, g) = (self.te(&lt, 1), self.te(&gt, 1));
                let (m, o, z) = (self.x.k(rw, mask(rw)), self.x.k(rw, 1), self.x.k(rw, 0));
                let t = self.x.ite(g, o, z);
                let r = self.x.ite(l, m, t);
                Ok(self.norm(st, r))
            },
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, b) = (self.te(&argv[0], w), self.te(&argv[1], w));
                let op = match &parts[0][1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let signed = parts[0].starts_with('s');
                let r = self.x.bin(op, a, b);
                let ov = if w * 2 <= 128 || op != Op::Mul {
                    let ww = if op == Op::Mul { w * 2 } else if w < 128 { w + 1 } else { 0 };
                    if ww == 0 {
                        // 128-bit add/sub
                        match (op, signed) { (Op::Add, false) => self.x.bin(Op::Ult, r, a), (Op::Sub, false) => self.x.bin(Op::Ult, a, b), _ => {
                            let (sa, sb, sr) = (self.x.extract(a, w - 1, 1), self.x.extract(b, w - 1, 1), self.x.extract(r, w - 1, 1));
                            let sb = if op == Op::Sub { self.x.not(sb) } else { sb };
                            let d1 = self.x.bin(Op::Eq, sa, sb); let d2 = self.x.bin(Op::Xor, sa, sr); self.x.bin(Op::And, d1, d2) } }
                    } else if let (Some(_), Some(_)) = (self.x.cv(a), self.x.cv(b)) {
                        let (p, q) = if signed { (self.x.sext(a, ww), self.x.sext(b, ww)) } else { (self.x.zext(a, ww), self.x.zext(b, ww)) };
                        let f = self.x.bin(op, p, q);
                        let back = if signed { self.x.sext(r, ww) } else { self.x.zext(r, ww) };
                        let e = self.x.bin(Op::Eq, f, back);
                        self.x.not(e)
                    } else if !signed && op == Op::Add { self.x.bin(Op::Ult, r, a) }
                    else if !signed && op == Op::Sub { self.x.bin(Op::Ult, a, b) }
                    else if !signed && op == Op::Mul && (self.x.cv(a).is_some() || self.x.cv(b).is_some()) {
                        let (k, y) = if let Some(k) = self.x.cv(a) { (k, b) } else { (self.x.cv(b).unwrap(), a) };
                        if k == 0 { self.x.k(1, 0) } else { let lim = self.x.k(w, mask(w) / k); self.x.bin(Op::Ult, lim, y) }
                    } else if signed && op == Op::Mul && w <= 64 && matches!((self.x.cv(a).or(self.x.cv(b))), Some(k) if k > 0 && k >> (w - 1) == 0) {
                        let (k, y) = if let Some(k) = self.x.cv(a) { (k, b) } else { (self.x.cv(b).unwrap(), a) };
                        let h = 1i128 << (w - 1);
                        let (lo, hi) = (-(h / k as i128), (h - 1) / k as i128);
                        let (lo, hi) = (self.x.k(w, lo as u128 & mask(w)), self.x.k(w, hi as u128));
                        let (p, q) = (self.x.bin(Op::Slt, y, lo), self.x.bin(Op::Slt, hi, y));
                        self.x.bin(Op::Or, p, q)
                    } else if signed && op == Op::Add && w <= 64 && self.below(st, b, 1 << (w - 1)) {
                        let h = self.x.k(w, (1u128 << (w - 1)) - 1);
                        let d = self.x.bin(Op::Sub, h, b);
                        self.x.bin(Op::Slt, d, a)
                    } else if signed && op == Op::Sub && w <= 64 && self.below(st, b, 1 << (w - 1)) {
                        let h = self.x.k(w, 1u128 << (w - 1));
                        let d = self.x.bin(Op::Add, h, b);
                        self.x.bin(Op::Slt, a, d)
                    } else {
                        let (p, q) = if signed { (self.x.sext(a, ww), self.x.sext(b, ww)) } else { (self.x.zext(a, ww), self.x.zext(b, ww)) };
                        let f = self.x.bin(op, p, q);
                        let back = if signed { self.x.sext(r, ww) } else { self.x.zext(r, ww) };
                        let e = self.x.bin(Op::Eq, f, back);
                        self.x.not(e)
                    }
                } else {
                    match (self.x.cv(a), self.x.cv(b)) { (Some(p), Some(q)) => { let o = if signed { (p as i128).checked_mul(q as i128).is_none() } else { p.checked_mul(q).is_none() }; self.x.k(1, o as u128) }, _ => return Err(End::Unsupported("128-bit multiply overflow".into())) }
                };
                if parts[1] == "with" { let (r, o) = (self.norm(st, r), self.norm(st, ov)); return Ok(V::A(Rc::new(vec![r, o]))); }
                if parts[1] == "sat" {
                    let sat = if !signed { self.x.k(w, if op == Op::Sub { 0 } else { mask(w) }) } else {
                        let neg = self.x.extract(a, w - 1, 1);
                        let (mn, mx) = (self.x.k(w, 1u128 << (w - 1)), self.x.k(w, (1u128 << (w - 1)) - 1));
                        self.x.ite(neg, mn, mx)
                    };
                    let e = self.x.ite(ov, sat, r);
                    return Ok(self.norm(st, e));
                }
                Err(End::Unsupported(name.into()))
            },
            "cttz" | "ctlz" | "ctpop" | "bswap" | "bitreverse" => {
                let e = self.te(&argv[0], w);
                if let Some(c) = self.x.cv(e) {
                    let r: u128 = match parts[0] {
                        "cttz" => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
                        "ctlz" => if c == 0 { w as u128 } else { (c.leading_zeros() - (128 - w as u32)) as u128 },
                        "ctpop" => c.count_ones() as u128,
                        "bswap" => c.swap_bytes() >> (128 - w),
                        _ => c.reverse_bits() >> (128 - w),
                    };
                    let k = self.x.k(w, r);
                    return Ok(self.norm(st, k));
                }
                let s = self.x.supp1[e as usize];
                let mut r;
                match parts[0] {
                    "cttz" => { r = self.x.k(w, w as u128); for i in (0..w).rev() { let bit = self.x.extract(e, i, 1); let k = self.x.k(w, i as u128); r = self.x.ite(bit, k, r); } },
                    "ctlz" => { r = self.x.k(w, w as u128); for i in 0..w { let bit = self.x.extract(e, i, 1); let k = self.x.k(w, (w - 1 - i) as u128); r = self.x.ite(bit, k, r); } },
                    "ctpop" => { r = self.x.k(w, 0); for i in 0..w { let bit = self.x.extract(e, i, 1); let z = self.x.zext(bit, w); r = self.x.bin(Op::Add, r, z); } },
                    "bswap" => { r = self.x.extract(e, 0, 8); for i in 1..w / 8 { let b = self.x.extract(e, i * 8, 8); r = self.x.bin(Op::Concat, r, b); } },
                    _ => { r = self.x.extract(e, 0, 1); for i in 1..w { let b = self.x.extract(e, i, 1); r = self.x.bin(Op::Concat, r, b); } },
                }
                let _ = s;
                Ok(self.norm(st, r))
            },
            "fshl" | "fshr" => {
                let k = match &argv[2] {
                    V::C(k) => (*k % w as u64) as u16,
                    V::A(_) => return Err(End::Unsupported("symbolic funnel shift".into())),
                    _ => {
                        if !w.is_power_of_two() { return Err(End::Unsupported("symbolic funnel shift".into())) }
                        // both shifts give 0 when the amount is the whole width
                        let (a, b, c) = (self.te(&argv[0], w), self.te(&argv[1], w), self.te(&argv[2], w));
                        let (m, ww) = (self.x.k(w, w as u128 - 1), self.x.k(w, w as u128));
                        let c = self.x.bin(Op::And, c, m);
                        let d = self.x.bin(Op::Sub, ww, c);
                        let (cl, cr) = if parts[0] == "fshl" { (c, d) } else { (d, c) };
                        let hi = self.x.bin(Op::Shl, a, cl);
                        let lo = self.x.bin(Op::LShr, b, cr);
                        let r = self.x.bin(Op::Or, hi, lo);
                        return Ok(self.norm(st, r));
                    },
                };
                let (a, b) = (self.te(&argv[0], w), self.te(&argv[1], w));
                let k = if parts[0] == "fshl" { k } else { if k == 0 { return Ok(argv[1].clone()); } w - k };
                if k == 0 { return Ok(argv[0].clone()); }
                let hi = self.x.extract(a, 0, w - k);
                let lo = self.x.extract(b, w - k, k);
                let r = self.x.bin(Op::Concat, hi, lo);
                Ok(self.norm(st, r))
            },
            "fabs" => { let e = self.te(&argv[0], w); let k = self.x.k(w, mask(w) >> 1); let r = self.x.bin(Op::And, e, k); Ok(self.norm(st, r)) },
            "fptosi" | "fptoui" => { let e = self.te(&argv[0], w); let r = self.x.un(if parts[0] == "fptosi" { Op::F2SI } else { Op::F2UI }, e, ret.bits()); Ok(self.norm(st, r)) },
            "expect" | "launder" | "threadlocal" | "ssa" | "arithmetic" => Ok(argv[0].clone()),
            "is" if parts.get(1) == Some(&"constant") => Ok(V::C(0)),
            "is" => { // is.fpclass: only NaN tests occur
                let cls = match &argv[1] { V::C(c) => *c, _ => 0 };
                if cls == 3 { let e = self.te(&argv[0], w); let r = self.x.bin(Op::FUno, e, e); return Ok(self.norm(st, r)); }
                Err(End::Unsupported(name.into()))
            },
            "ptrmask" => Ok(self.bin(st, 7, 64, &argv[0], &argv[1])),
            "vector" => {
                let op = parts[2];
                let (v, t) = match (&argv[0], &ty) { (V::A(v), Ty::Vec(_, t)) => (v.clone(), t.clone()), _ => return Err(End::Unsupported(name.into())) };
                let w = t.bits();
                let mut acc = v[0].clone();
                for x in v.iter().skip(1) {
                    acc = match op { "or" => self.bin(st, 8, w, &acc, x), "and" => self.bin(st, 7, w, &acc, x), "add" => self.bin(st, 0, w, &acc, x), "xor" => self.bin(st, 9, w, &acc, x),
                        "umax" | "umin" | "smax" | "smin" => { let at = vec![((*t).clone(), Opd::R(0)), ((*t).clone(), Opd::R(0))]; self.intrinsic(st, op, &[acc, x.clone()], &at, &t, out)? },
                        _ => return Err(End::Unsupported(name.into())) };
                }
                Ok(acc)
            },
            "x86" if name.contains("pmovmskb") => {
                let v = match &argv[0] { V::A(v) => v.clone(), _ => return Err(End::Unsupported(name.into())) };
                let mut r = self.x.k(32, 0);
                for (i, l) in v.iter().enumerate() { let e = self.te(l, 8); let b = self.x.extract(e, 7, 1); let z = self.x.zext(b, 32); let k = self.x.k(32, i as u128); let s = self.x.bin(Op::Shl, z, k); r = self.x.bin(Op::Or, r, s); }
                Ok(self.norm(st, r))
            },
            _ => Err(End::Unsupported(format!("intrinsic {}", name))),
        }
    }
    fn load_real(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.real.get(&id) { return f.clone(); }
        let f = self.load_fn(id);
        self.real.insert(id, f.clone());
        f
    }
}
pub fn short(n: &str) -> String { if n.len() > 160 { format!("{}..{}", &n[..60], &n[n.len() - 90..]) } else { n.to_string() } }
