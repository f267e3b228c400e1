//! Encoding of a query in linear integer arithmetic with uninterpreted functions. Every bit-vector
//! term becomes an integer term equal to its unsigned value; wrap-around is modelled by an explicit
//! multiple of the modulus unless the ranges of the operands rule it out. The encoding is exact
//! (decimal conversion stays uninterpreted, as in the bit-vector encoding); terms it does not
//! cover give `None` and the query is put as a bit-vector one.
use crate::expr::*;
use crate::solver::*;
use crate::z3::*;
use std::collections::HashMap;

type T = (Ast, i128, i128);
/// a linear form over the integer variables (by their terms)
#[derive(Clone, Default)]
pub struct Form { c: std::collections::BTreeMap<usize, i128>, k: i128 }

pub struct Lia<'a> {
    pub c: Ctx, pub x: &'a mut Exprs, pub doms: &'a [(u16, Dom)], pub int: Sort, pub fdec: Decl,
    pub memo: HashMap<E, Option<T>>, pub bmemo: HashMap<E, Option<Ast>>, pub side: Vec<Ast>, pub vars: HashMap<u16, Ast>, pub fresh: u32,
    pub forms: HashMap<usize, Form>, pub boxes: HashMap<usize, (i128, i128)>, pub facts: Vec<(Form, i128, i128)>,
}

impl<'a> Lia<'a> {
    fn keep(&mut self, a: Ast) -> Ast { unsafe { Z3_inc_ref(self.c, a); } a }
    pub fn k(&mut self, v: i128) -> Ast {
        let s = std::ffi::CString::new(v.to_string()).unwrap();
        let a = unsafe { Z3_mk_numeral(self.c, s.as_ptr(), self.int) };
        self.forms.insert(a as usize, Form { c: Default::default(), k: v });
        self.keep(a)
    }
    fn sum(&self, l: &[(Ast, i128)]) -> Option<Form> {
        let mut f = Form::default();
        for &(a, m) in l {
            let g = self.forms.get(&(a as usize))?;
            f.k = f.k.checked_add(g.k.checked_mul(m)?)?;
            for (&v, &c) in &g.c {
                let e = f.c.entry(v).or_insert(0);
                *e = e.checked_add(c.checked_mul(m)?)?;
                if *e == 0 { f.c.remove(&v); }
            }
        }
        Some(f)
    }
    fn boxed(&self, f: &Form) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (f.k, f.k);
        for (v, &c) in &f.c {
            let b = self.boxes.get(v)?;
            let (p, q) = (b.0.checked_mul(c)?, b.1.checked_mul(c)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    /// range of a form, given what the constraints put so far say about parts of it
    fn tight(&self, a: Ast) -> Option<(i128, i128)> {
        let f = self.forms.get(&(a as usize))?;
        let (mut lo, mut hi) = self.boxed(f)?;
        for (g, gl, gh) in &self.facts {
            let Some((v, &gc)) = g.c.iter().next() else { continue };
            let Some(&fc) = f.c.get(v) else { continue };
            if fc % gc != 0 { continue; }
            let m = fc / gc;
            if !g.c.iter().all(|(v, &c)| c.checked_mul(m).map_or(false, |x| f.c.get(v) == Some(&x))) { continue; }
            let mut rest = f.clone();
            rest.c.retain(|v, _| !g.c.contains_key(v));
            let Some((rl, rh)) = self.boxed(&rest) else { continue };
            let (Some(p), Some(q)) = (gl.checked_mul(m), gh.checked_mul(m)) else { continue };
            lo = lo.max(rl + p.min(q));
            hi = hi.min(rh + p.max(q));
        }
        if lo > hi { return None; }
        Some((lo, hi))
    }
    /// a term congruent to the form modulo m whose range, by what is known, is narrow
    fn rewrite(&mut self, f: &Form, m: i128) -> Option<T> {
        let mut best: Option<(Form, i128, i128)> = None;
        for (g, gl, gh) in &self.facts {
            let Some((v, &gc)) = g.c.iter().min_by_key(|t| t.1.abs()) else { continue };
            let Some(&fc) = f.c.get(v) else { continue };
            if fc % gc != 0 { continue; }
            let k = fc / gc;
            if !g.c.iter().all(|(v, &c)| c.checked_mul(k).map_or(false, |x| (x - f.c.get(v).copied().unwrap_or(0)).rem_euclid(m) == 0)) { continue; }
            let mut rest = f.clone();
            rest.c.retain(|v, _| !g.c.contains_key(v));
            let Some((rl, rh)) = self.boxed(&rest) else { continue };
            let (Some(p), Some(q)) = (gl.checked_mul(k), gh.checked_mul(k)) else { continue };
            let (lo, hi) = (rl + p.min(q), rh + p.max(q));
            if best.as_ref().map_or(true, |b| hi - lo < b.2 - b.1) {
                for (&v, &c) in &g.c { rest.c.insert(v, c * k); }
                best = Some((rest, lo, hi));
            }
        }
        let (g, lo, hi) = best?;
        if lo > hi { return None; }
        let mut parts = vec![self.k(g.k)];
        for (&v, &c) in &g.c { parts.push(self.mulk(v as Ast, c)); }
        Some((self.add(&parts), lo, hi))
    }
    /// a <= b + d holds
    fn fact(&mut self, a: Ast, b: Ast, d: i128) {
        let Some(f) = self.sum(&[(a, 1), (b, -1)]) else { return };
        let Some((lo, hi)) = self.boxed(&f) else { return };
        let (lo, hi) = (lo - f.k, hi.min(d) - f.k);
        if lo > hi || f.c.is_empty() { return; }
        self.facts.push((Form { c: f.c, k: 0 }, lo, hi));
    }
    /// takes down what a constraint says about linear forms, once it is put
    pub fn learn(&mut self, e: E, yes: bool) {
        let n = self.x.n(e);
        use Op::*;
        if n.w != 1 { return; }
        match n.op {
            Xor => { if let Some(k) = self.x.cv(n.b) { self.learn(n.a, yes ^ (k != 0)) } else if let Some(k) = self.x.cv(n.a) { self.learn(n.b, yes ^ (k != 0)) } },
            And if yes => { self.learn(n.a, true); self.learn(n.b, true) },
            Or if !yes => { self.learn(n.a, false); self.learn(n.b, false) },
            Ult | Ule | Slt | Sle => {
                let w = self.x.w(n.a);
                if w < 8 { return; }
                let s = matches!(n.op, Slt | Sle);
                let (Some(a), Some(b)) = (if s { (self.signed(n.a, w), self.signed(n.b, w)) } else { (self.int(n.a), self.int(n.b)) }) else { return };
                let strict = matches!(n.op, Ult | Slt) as i128;
                if yes { self.fact(a.0, b.0, -strict) } else { self.fact(b.0, a.0, strict - 1) }
            },
            Eq if yes && self.x.w(n.a) >= 8 => {
                let (Some(a), Some(b)) = (self.int(n.a), self.int(n.b)) else { return };
                self.fact(a.0, b.0, 0);
                self.fact(b.0, a.0, 0);
            },
            _ => {},
        }
    }
    fn add(&mut self, l: &[Ast]) -> Ast {
        let a = unsafe { Z3_mk_add(self.c, l.len() as u32, l.as_ptr()) };
        let t: Vec<(Ast, i128)> = l.iter().map(|&a| (a, 1)).collect();
        if let Some(f) = self.sum(&t) { self.forms.insert(a as usize, f); }
        self.keep(a)
    }
    fn mulk(&mut self, a: Ast, k: i128) -> Ast {
        if k == 1 { return a; }
        let kk = self.k(k);
        let l = [kk, a];
        let r = unsafe { Z3_mk_mul(self.c, 2, l.as_ptr()) };
        if let Some(f) = self.sum(&[(a, k)]) { self.forms.insert(r as usize, f); }
        self.keep(r)
    }
    fn addk(&mut self, a: Ast, k: i128) -> Ast { if k == 0 { return a; } let kk = self.k(k); self.add(&[a, kk]) }
    fn le(&mut self, a: Ast, b: Ast) -> Ast { let r = unsafe { Z3_mk_le(self.c, a, b) }; self.keep(r) }
    fn lt(&mut self, a: Ast, b: Ast) -> Ast { let r = unsafe { Z3_mk_lt(self.c, a, b) }; self.keep(r) }
    fn eq(&mut self, a: Ast, b: Ast) -> Ast { let r = unsafe { Z3_mk_eq(self.c, a, b) }; self.keep(r) }
    fn range(&mut self, a: Ast, lo: i128, hi: i128) {
        let (l, h) = (self.k(lo), self.k(hi));
        let (p, q) = (self.le(l, a), self.le(a, h));
        self.side.push(p);
        self.side.push(q);
    }
    fn new_int(&mut self, lo: i128, hi: i128) -> Ast {
        self.fresh += 1;
        let n = sym(self.c, &format!("n{}", self.fresh));
        let a = unsafe { Z3_mk_const(self.c, n, self.int) };
        self.keep(a);
        self.own(a, lo, hi);
        self.range(a, lo, hi);
        a
    }
    fn own(&mut self, a: Ast, lo: i128, hi: i128) {
        let mut f = Form::default();
        f.c.insert(a as usize, 1);
        self.forms.insert(a as usize, f);
        self.boxes.insert(a as usize, (lo, hi));
    }
    pub fn var(&mut self, v: u16) -> Ast {
        if let Some(&a) = self.vars.get(&v) { return a; }
        let n = sym(self.c, &format!("i{}", v));
        let a = unsafe { Z3_mk_const(self.c, n, self.int) };
        self.keep(a);
        self.vars.insert(v, a);
        let d = self.dom(v);
        let (lo, hi) = (dom_iter(d).min().unwrap_or(0), dom_iter(d).max().unwrap_or(0));
        self.own(a, lo as i128, hi as i128);
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 256 {
            if !dom_has(&d, i as u8) { i += 1; continue; }
            let s = i;
            while i < 256 && dom_has(&d, i as u8) { i += 1; }
            let (lo, hi) = (self.k(s as i128), self.k(i as i128 - 1));
            let l = [self.le(lo, a), self.le(a, hi)];
            let r = unsafe { Z3_mk_and(self.c, 2, l.as_ptr()) };
            parts.push(self.keep(r));
        }
        let r = unsafe { if parts.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()) } };
        let r = self.keep(r);
        self.side.push(r);
        a
    }
    fn dom(&self, v: u16) -> Dom { self.doms.iter().find(|d| d.0 == v).map(|d| d.1).unwrap_or(FULL) }
    /// value modulo 2^w of an integer term with the given range
    fn wrap(&mut self, a: Ast, lo: i128, hi: i128, w: u16) -> T {
        let m = 1i128 << w;
        let (lo, hi) = match self.tight(a) { Some(t) => (lo.max(t.0), hi.min(t.1)), None => (lo, hi) };
        let (kl, kh) = (lo.div_euclid(m), hi.div_euclid(m));
        if kl == kh { let r = self.addk(a, -kl * m); return (r, lo - kl * m, hi - kl * m); }
        let k = self.new_int(kl, kh);
        let km = self.mulk(k, -m);
        let r = self.add(&[a, km]);
        self.range(r, 0, m - 1);
        (r, 0, m - 1)
    }
    /// quotient and remainder by a positive constant
    fn divmod(&mut self, t: T, d: i128) -> (T, T) {
        let (a, lo, hi) = t;
        let (lo, hi) = match self.tight(a) { Some(t) => (lo.max(t.0), hi.min(t.1)), None => (lo, hi) };
        let (ql, qh) = (lo.div_euclid(d), hi.div_euclid(d));
        if ql == qh { let q = self.k(ql); let r = self.addk(a, -ql * d); return ((q, ql, ql), (r, lo - ql * d, hi - ql * d)); }
        let q = self.new_int(ql, qh);
        let qd = self.mulk(q, -d);
        let r = self.add(&[a, qd]);
        self.range(r, 0, d - 1);
        ((q, ql, qh), (r, 0, d - 1))
    }
    /// an integer congruent to a sum of several terms modulo 2^w
    fn raw(&mut self, e: E) -> Option<T> {
        let n = self.x.n(e);
        let w = n.w;
        if w > 64 || w < 8 || self.x.supp1[e as usize] != MULTI || !matches!(n.op, Op::Add | Op::Sub | Op::Mul) { return None; }
        let l = self.x.lin(e);
        if l.0.len() < 2 || l.0.iter().any(|t| t.0 == e) { return None; }
        let m = 1i128 << w;
        let sg = |v: u128| { let v = v as i128; if v >= m / 2 { v - m } else { v } };
        let mut f = Form { c: Default::default(), k: sg(l.1) };
        let mut parts = vec![self.k(sg(l.1))];
        let (mut lo, mut hi) = (f.k, f.k);
        let mut plain = true;
        for &(a, c) in &l.0 {
            let c = sg(c);
            let (t, tl, th) = self.int(a)?;
            let (p, q) = (tl.checked_mul(c)?, th.checked_mul(c)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
            parts.push(self.mulk(t, c));
            match self.forms.get(&(t as usize)) { Some(g) => { for (&v, &k) in &g.c { *f.c.entry(v).or_insert(0) += k * c; } f.k += g.k * c; }, None => plain = false }
        }
        if plain { if let Some(r) = self.rewrite(&f, m) { return Some(r); } }
        let s = self.add(&parts);
        Some(match self.tight(s) { Some(t) => (s, lo.max(t.0), hi.min(t.1)), None => (s, lo, hi) })
    }
    pub fn int(&mut self, e: E) -> Option<T> {
        if let Some(r) = self.memo.get(&e) { return *r; }
        let r = self.int1(e);
        if r.is_none() && std::env::var("ENGINE_LIA").is_ok() { eprintln!("  int: {}", show(self.x, e, 5)); }
        self.memo.insert(e, r);
        r
    }
    fn int1(&mut self, e: E) -> Option<T> {
        let n = self.x.n(e);
        let w = n.w;
        if n.op == Op::Const { if n.k >> 100 != 0 { return None; } let a = self.k(n.k as i128); return Some((a, n.k as i128, n.k as i128)); }
        if w > 64 { return None; }
        if w == 1 {
            let b = self.boolean(e)?;
            let (o, z) = (self.k(1), self.k(0));
            let r = unsafe { Z3_mk_ite(self.c, b, o, z) };
            return Some((self.keep(r), 0, 1));
        }
        let s1 = self.x.supp1[e as usize];
        if s1 != NOVAR && s1 != MULTI { return self.table(e, s1); }
        use Op::*;
        if let Some((a, lo, hi)) = self.raw(e) { return Some(self.wrap(a, lo, hi, w)); }
        match n.op {
            Add => { let (a, al, ah) = self.int(n.a)?; let (b, bl, bh) = self.int(n.b)?; let s = self.add(&[a, b]); Some(self.wrap(s, al + bl, ah + bh, w)) },
            Sub => { let (a, al, ah) = self.int(n.a)?; let (b, bl, bh) = self.int(n.b)?; let nb = self.mulk(b, -1); let s = self.add(&[a, nb]); Some(self.wrap(s, al - bh, ah - bl, w)) },
            Mul | Shl => {
                let kv = self.x.cv(n.b)?;
                let mut kk = if n.op == Shl { if kv >= w as u128 { return None; } 1i128 << kv } else { kv as i128 };
                if kk >= 1i128 << (w - 1) { kk -= 1i128 << w; }
                let (a, lo, hi) = self.int(n.a)?;
                let (p, q) = (lo.checked_mul(kk)?, hi.checked_mul(kk)?);
                let t = self.mulk(a, kk);
                Some(self.wrap(t, p.min(q), p.max(q), w))
            },
            UDiv | URem | LShr => {
                let kv = self.x.cv(n.b)?;
                let d = if n.op == LShr { if kv >= w as u128 { return None; } 1i128 << kv } else { kv as i128 };
                if d <= 0 { return None; }
                let t = self.int(n.a)?;
                let (q, r) = self.divmod(t, d);
                Some(if n.op == URem { r } else { q })
            },
            And => {
                let kv = self.x.cv(n.b)?;
                if kv & (kv + 1) != 0 { return None; }
                let t = self.int(n.a)?;
                Some(self.divmod(t, kv as i128 + 1).1)
            },
            ZExt => self.int(n.a),
            SExt => {
                let w0 = self.x.w(n.a);
                let (a, lo, hi) = self.signed(n.a, w0)?;
                Some(self.wrap(a, lo, hi, w))
            },
            Extract => {
                let t = self.int(n.a)?;
                let off = n.k as u32;
                let t = if off == 0 { t } else { self.divmod(t, 1i128 << off).0 };
                Some(self.divmod(t, 1i128 << w).1)
            },
            Concat => {
                let wb = self.x.w(n.b);
                let (a, al, ah) = self.int(n.a)?;
                let (b, bl, bh) = self.int(n.b)?;
                let t = self.mulk(a, 1i128 << wb);
                let s = self.add(&[t, b]);
                Some((s, (al << wb) + bl, (ah << wb) + bh))
            },
            Ite => {
                let b = self.boolean(n.a)?;
                let (p, pl, ph) = self.int(n.b)?;
                let (q, ql, qh) = self.int(n.c)?;
                let r = unsafe { Z3_mk_ite(self.c, b, p, q) };
                Some((self.keep(r), pl.min(ql), ph.max(qh)))
            },
            FNeg => {
                let (a, lo, hi) = self.int(n.a)?;
                let h = 1i128 << (w - 1);
                if hi < h { let r = self.addk(a, h); Some((r, lo + h, hi + h)) }
                else if lo >= h { let r = self.addk(a, -h); Some((r, lo - h, hi - h)) }
                else {
                    let hh = self.k(h);
                    let c = self.lt(a, hh);
                    let (p, q) = (self.addk(a, h), self.addk(a, -h));
                    let r = unsafe { Z3_mk_ite(self.c, c, p, q) };
                    Some((self.keep(r), 0, 2 * h - 1))
                }
            },
            UI2F if w == 32 => {
                let (a, lo, hi) = self.int(n.a)?;
                if lo < 0 || hi >> 64 != 0 { return None; }
                Some((self.u2f(a), 0, 0x7f80_0000))
            },
            SI2F if w == 32 => {
                let w0 = self.x.w(n.a);
                let (a, lo, hi) = self.signed(n.a, w0)?;
                if lo >= 0 { return Some((self.u2f(a), 0, 0x7f80_0000)); }
                let h = 1i128 << 31;
                let na = self.mulk(a, -1);
                let q = self.u2f(na);
                let q = self.addk(q, h);
                if hi < 0 { return Some((q, h, h + 0x7f80_0000)); }
                let p = self.u2f(a);
                let z = self.k(0);
                let c = self.lt(a, z);
                let r = unsafe { Z3_mk_ite(self.c, c, q, p) };
                Some((self.keep(r), 0, h + 0x7f80_0000))
            },
            FDec => {
                let (m, _, _) = self.int(n.a)?;
                let (ex, _, _) = self.int(n.b)?;
                let l = [m, ex];
                let r = unsafe { Z3_mk_app(self.c, self.fdec, 2, l.as_ptr()) };
                let r = self.keep(r);
                // a decimal is never negative or NaN
                self.range(r, 0, 0x7f80_0000);
                Some((r, 0, 0x7f80_0000))
            },
            _ => None,
        }
    }
    /// the bits of the single-precision number nearest to a non-negative whole number
    fn u2f(&mut self, a: Ast) -> Ast {
        let z = self.k(0);
        let l = [a, z];
        let r = unsafe { Z3_mk_app(self.c, self.fdec, 2, l.as_ptr()) };
        let r = self.keep(r);
        self.range(r, 0, 0x7f80_0000);
        r
    }
    fn signed(&mut self, e: E, w: u16) -> Option<T> {
        if let Some((a, lo, hi)) = self.raw(e) {
            let m = 1i128 << w;
            let q = (lo + m / 2).div_euclid(m);
            if (hi + m / 2).div_euclid(m) == q { let r = self.addk(a, -q * m); return Some((r, lo - q * m, hi - q * m)); }
        }
        let (a, lo, hi) = self.int(e)?;
        let (lo, hi) = match self.tight(a) { Some(t) => (lo.max(t.0), hi.min(t.1)), None => (lo, hi) };
        let h = 1i128 << (w - 1);
        if hi < h { return Some((a, lo, hi)); }
        if lo >= h { let r = self.addk(a, -2 * h); return Some((r, lo - 2 * h, hi - 2 * h)); }
        let hh = self.k(h);
        let c = self.lt(a, hh);
        let q = self.addk(a, -2 * h);
        let r = unsafe { Z3_mk_ite(self.c, c, a, q) };
        Some((self.keep(r), -h, h - 1))
    }
    /// a function of one byte: affine over its domain, or a case split
    fn table(&mut self, e: E, v: u16) -> Option<T> {
        let t = self.x.table(e);
        let d = self.dom(v);
        let vals: Vec<u8> = dom_iter(d).collect();
        let a = self.var(v);
        if vals.is_empty() { let z = self.k(0); return Some((z, 0, 0)); }
        let f = |b: u8| t[b as usize] as i128;
        let (lo, hi) = (vals.iter().map(|&b| f(b)).min().unwrap(), vals.iter().map(|&b| f(b)).max().unwrap());
        if lo == hi { let k = self.k(lo); return Some((k, lo, hi)); }
        let (b0, b1) = (vals[0], vals[vals.len() - 1]);
        let (dx, dy) = (b1 as i128 - b0 as i128, f(b1) - f(b0));
        if dy % dx == 0 {
            let s = dy / dx;
            if vals.iter().all(|&b| f(b) == f(b0) + s * (b as i128 - b0 as i128)) {
                let m = self.mulk(a, s);
                let r = self.addk(m, f(b0) - s * b0 as i128);
                return Some((r, lo, hi));
            }
        }
        // runs of equal values
        let mut acc: Option<Ast> = None;
        let mut runs = 0;
        let mut i = 0;
        while i < vals.len() {
            let y = f(vals[i]);
            let mut j = i;
            while j + 1 < vals.len() && f(vals[j + 1]) == y { j += 1; }
            let ky = self.k(y);
            acc = Some(match acc {
                None => ky,
                Some(p) => {
                    let kb = self.k(vals[i] as i128);
                    let c = self.lt(a, kb);
                    let r = unsafe { Z3_mk_ite(self.c, c, p, ky) };
                    self.keep(r)
                },
            });
            runs += 1;
            if runs > 40 { return None; }
            i = j + 1;
        }
        Some((acc.unwrap(), lo, hi))
    }
    pub fn boolean(&mut self, e: E) -> Option<Ast> {
        if let Some(r) = self.bmemo.get(&e) { return *r; }
        let r = self.boolean1(e);
        if r.is_none() && std::env::var("ENGINE_LIA").is_ok() { eprintln!("  bool: {}", show(self.x, e, 5)); }
        self.bmemo.insert(e, r);
        r
    }
    fn boolean1(&mut self, e: E) -> Option<Ast> {
        let n = self.x.n(e);
        use Op::*;
        let c = self.c;
        if n.op == Const { let r = unsafe { if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } }; return Some(self.keep(r)); }
        let s1 = self.x.supp1[e as usize];
        if s1 != NOVAR && s1 != MULTI {
            let (a, lo, hi) = self.table(e, s1)?;
            if lo == hi { let r = unsafe { if lo != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) } }; return Some(self.keep(r)); }
            let o = self.k(1);
            return Some(self.eq(a, o));
        }
        let r = unsafe {
            match n.op {
                Eq if self.x.w(n.a) == 1 => { let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?); Z3_mk_eq(c, a, b) },
                Eq => { let (a, b) = (self.int(n.a)?, self.int(n.b)?); Z3_mk_eq(c, a.0, b.0) },
                Ult => { let (a, b) = (self.int(n.a)?, self.int(n.b)?); Z3_mk_lt(c, a.0, b.0) },
                Ule => { let (a, b) = (self.int(n.a)?, self.int(n.b)?); Z3_mk_le(c, a.0, b.0) },
                Slt | Sle => {
                    let w = self.x.w(n.a);
                    if w == 1 { return None; }
                    let (a, b) = (self.signed(n.a, w)?, self.signed(n.b, w)?);
                    if n.op == Slt { Z3_mk_lt(c, a.0, b.0) } else { Z3_mk_le(c, a.0, b.0) }
                },
                And | Or | Xor => {
                    let l = [self.boolean(n.a)?, self.boolean(n.b)?];
                    match n.op { And => Z3_mk_and(c, 2, l.as_ptr()), Or => Z3_mk_or(c, 2, l.as_ptr()), _ => { let t = Z3_mk_eq(c, l[0], l[1]); self.keep(t); Z3_mk_not(c, t) } }
                },
                Ite => { let (p, q, s) = (self.boolean(n.a)?, self.boolean(n.b)?, self.boolean(n.c)?); Z3_mk_ite(c, p, q, s) },
                Extract => {
                    let t = self.int(n.a)?;
                    let t = if n.k == 0 { t } else { self.divmod(t, 1i128 << n.k).0 };
                    let r = self.divmod(t, 2).1;
                    let o = self.k(1);
                    Z3_mk_eq(c, r.0, o)
                },
                // comparison of floats: exact on the ordered bit patterns of non-negative numbers
                FOeq => {
                    let (a, b) = (self.float(n.a)?, self.float(n.b)?);
                    Z3_mk_eq(c, a, b)
                },
                FUno => { self.float(n.a)?; self.float(n.b)?; Z3_mk_false(c) },
                _ => return None,
            }
        };
        Some(self.keep(r))
    }
    /// A float that is certainly not NaN as an integer that orders and compares like it:
    /// the bit pattern of the magnitude, negated for negative numbers (both zeros give 0).
    fn float(&mut self, e: E) -> Option<Ast> {
        let w = self.x.w(e);
        let (inf, h) = match w { 32 => (0x7f80_0000i128, 1i128 << 31), 64 => (0x7ff0_0000_0000_0000i128, 1i128 << 63), _ => return None };
        let n = self.x.n(e);
        match n.op {
            Op::FNeg => { let a = self.float(n.a)?; return Some(self.mulk(a, -1)); },
            Op::SI2F if w == 32 => {
                let w0 = self.x.w(n.a);
                let (a, lo, hi) = self.signed(n.a, w0)?;
                if lo >= 0 { return Some(self.u2f(a)); }
                let na = self.mulk(a, -1);
                let q = self.u2f(na);
                let q = self.mulk(q, -1);
                if hi <= 0 { return Some(q); }
                let p = self.u2f(a);
                let z = self.k(0);
                let c = self.lt(a, z);
                let r = unsafe { Z3_mk_ite(self.c, c, q, p) };
                return Some(self.keep(r));
            },
            Op::Ite => {
                let b = self.boolean(n.a)?;
                let (p, q) = (self.float(n.b)?, self.float(n.c)?);
                let r = unsafe { Z3_mk_ite(self.c, b, p, q) };
                return Some(self.keep(r));
            },
            _ => {},
        }
        let (a, lo, hi) = self.int(e)?;
        if hi <= inf { return Some(a); }
        if lo >= h && hi <= h + inf { let t = self.mulk(a, -1); return Some(self.addk(t, h)); }
        None
    }
}
