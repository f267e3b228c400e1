//! Hash-consed bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite,
    /// arbitrary function of one byte given by a table; a = var expr, k = table id
    Tab,
    FAdd, FSub, FMul, FDiv, FNeg,
    /// comparisons; operand width from a
    FOeq, FOlt, FOle, FUno,
    SI2F, UI2F, FCvt,
    /// float to int, saturating (k = 1) or plain; width = result
    F2SI, F2UI,
    /// correctly rounded f32 of mant(a: 64 bit unsigned) * 10^exp(b: 32 bit signed)
    FDec,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const MAXV: usize = 1024;
pub const BW: usize = MAXV / 64;
pub type Bits = [u64; BW];
pub const NOVAR: u16 = 0xffff;
pub const MULTI: u16 = 0xfffe;

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub supp1: Vec<u16>,
    pub supp: HashMap<E, Bits>,
    map: HashMap<Node, E>,
    tabs: HashMap<E, Rc<[u64; 256]>>,
    canon: HashMap<(u16, u16, u64, u64), E>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tabmap: HashMap<(u64, u64), usize>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    lins: HashMap<E, Rc<(Vec<(E, u128)>, u128)>>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 { !0 } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn h2(t: &[u64; 256]) -> (u64, u64) {
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for &x in t.iter() {
        a = (a ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        b = (b.rotate_left(29) ^ x).wrapping_mul(0xBF58476D1CE4E5B9).wrapping_add(x >> 7);
    }
    (a, b)
}

pub fn f32dec(m: u64, e: i32) -> u32 {
    format!("{}e{}", m, e).parse::<f32>().unwrap().to_bits()
}

impl Exprs {
    pub fn new() -> Self {
        let mut x = Exprs {
            nodes: vec![], supp1: vec![], supp: HashMap::new(), map: HashMap::new(),
            tabs: HashMap::new(), canon: HashMap::new(), tables: vec![], tabmap: HashMap::new(),
            memo: vec![], epoch: 0, lins: HashMap::new(),
        };
        x.k(1, 0);
        x.k(1, 1);
        x
    }
    pub fn len(&self) -> usize { self.nodes.len() }
    pub fn k(&mut self, w: u16, v: u128) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, i: u16) -> E {
        assert!((i as usize) < MAXV);
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn arity(op: Op) -> usize {
        use Op::*;
        match op {
            Const | Var => 0,
            Extract | ZExt | SExt | Tab | FNeg | SI2F | UI2F | FCvt | F2SI | F2UI => 1,
            Ite => 3,
            _ => 2,
        }
    }
    pub fn support(&self, e: E) -> Bits {
        let s = self.supp1[e as usize];
        let mut b = [0u64; BW];
        if s == NOVAR { return b; }
        if s == MULTI { return self.supp[&e]; }
        b[(s >> 6) as usize] |= 1 << (s & 63);
        b
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as E;
        let ar = Self::arity(n.op);
        let mut s1 = NOVAR;
        let mut multi: Option<Bits> = None;
        if n.op == Op::Var { s1 = n.k as u16; }
        let ch = [n.a, n.b, n.c];
        for &c in &ch[..ar] {
            let cs = self.supp1[c as usize];
            if cs == NOVAR { continue; }
            if let Some(m) = &mut multi {
                let b = if cs == MULTI { self.supp[&c] } else { let mut b=[0u64;BW]; b[(cs>>6) as usize] |= 1<<(cs&63); b };
                for i in 0..BW { m[i] |= b[i]; }
                continue;
            }
            if s1 == NOVAR && cs != MULTI { s1 = cs; continue; }
            if cs == s1 { continue; }
            let mut b = [0u64; BW];
            if s1 != NOVAR { b[(s1 >> 6) as usize] |= 1 << (s1 & 63); }
            if cs == MULTI { let o = self.supp[&c]; for i in 0..BW { b[i] |= o[i]; } }
            else { b[(cs >> 6) as usize] |= 1 << (cs & 63); }
            s1 = MULTI;
            multi = Some(b);
        }
        self.nodes.push(n);
        self.supp1.push(s1);
        if let Some(m) = multi { self.supp.insert(id, m); }
        self.map.insert(n, id);
        // canonicalise functions of a single byte
        if s1 != NOVAR && s1 != MULTI && n.w <= 64 && n.op != Op::Var && n.op != Op::Const {
            let t = self.table(id);
            if t.iter().all(|&x| x == t[0]) {
                let kk = self.k(n.w, t[0] as u128);
                self.map.insert(n, kk);
                return kk;
            }
            let h = h2(&t);
            let key = (s1, n.w, h.0, h.1);
            if let Some(&c) = self.canon.get(&key) {
                self.map.insert(n, c);
                self.tabs.remove(&id);
                return c;
            }
            self.canon.insert(key, id);
        }
        id
    }
    /// truth table of a single-byte expression (width <= 64)
    pub fn table(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) { return t.clone(); }
        let n = self.n(e);
        let mut r = [0u64; 256];
        match n.op {
            Op::Const => { r = [n.k as u64; 256]; },
            Op::Var => { for i in 0..256 { r[i] = i as u64; } },
            _ => {
                let ar = Self::arity(n.op);
                let ch = [n.a, n.b, n.c];
                let wide = ch[..ar].iter().any(|&c| self.w(c) > 64);
                if wide {
                    let s = self.supp1[e as usize] as usize;
                    let mut m = vec![0u8; MAXV];
                    for i in 0..256 { m[s] = i as u8; r[i] = self.eval(e, &m) as u64; }
                } else {
                    let ts: Vec<Rc<[u64; 256]>> = ch[..ar].iter().map(|&c| self.table_or_const(c)).collect();
                    let ws: Vec<u16> = ch[..ar].iter().map(|&c| self.w(c)).collect();
                    for i in 0..256 {
                        let mut v = [0u128; 3];
                        for j in 0..ar { v[j] = ts[j][i] as u128; }
                        r[i] = self.apply(&n, v, &ws) as u64;
                    }
                }
            },
        }
        let rc = Rc::new(r);
        self.tabs.insert(e, rc.clone());
        rc
    }
    fn table_or_const(&mut self, e: E) -> Rc<[u64; 256]> {
        self.table(e)
    }
    fn apply(&self, n: &Node, v: [u128; 3], ws: &[u16]) -> u128 {
        use Op::*;
        let w = n.w;
        let m = mask(w);
        let (a, b, c) = (v[0], v[1], v[2]);
        let f = |x: u128, w: u16| -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } };
        match n.op {
            Const | Var => unreachable!(),
            Add => a.wrapping_add(b) & m,
            Sub => a.wrapping_sub(b) & m,
            Mul => a.wrapping_mul(b) & m,
            UDiv => if b == 0 { m } else { a / b },
            URem => if b == 0 { a } else { a % b },
            SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } },
            SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } },
            And => a & b, Or => a | b, Xor => a ^ b,
            Shl => if b >= w as u128 { 0 } else { (a << b) & m },
            LShr => if b >= w as u128 { 0 } else { a >> b },
            AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 & m },
            Eq => (a == b) as u128,
            Ult => (a < b) as u128,
            Ule => (a <= b) as u128,
            Slt => (sx(a, ws[0]) < sx(b, ws[0])) as u128,
            Sle => (sx(a, ws[0]) <= sx(b, ws[0])) as u128,
            Concat => (a << ws[1]) | b,
            Extract => (a >> n.k) & m,
            ZExt => a,
            SExt => sx(a, ws[0]) as u128 & m,
            Ite => if a != 0 { b } else { c },
            Tab => self.tables[n.k as usize][a as usize] as u128,
            FAdd | FSub | FMul | FDiv => {
                if w == 32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match n.op { FAdd => x + y, FSub => x - y, FMul => x * y, _ => x / y }).to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    (match n.op { FAdd => x + y, FSub => x - y, FMul => x * y, _ => x / y }).to_bits() as u128
                }
            },
            FNeg => a ^ (1u128 << (w - 1)),
            FOeq => (f(a, ws[0]) == f(b, ws[0])) as u128,
            FOlt => (f(a, ws[0]) < f(b, ws[0])) as u128,
            FOle => (f(a, ws[0]) <= f(b, ws[0])) as u128,
            FUno => (f(a, ws[0]).is_nan() || f(b, ws[0]).is_nan()) as u128,
            SI2F => { let x = sx(a, ws[0]); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } },
            UI2F => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
            FCvt => if w == 64 { (f32::from_bits(a as u32) as f64).to_bits() as u128 } else { (f64::from_bits(a as u64) as f32).to_bits() as u128 },
            F2SI => { let x = f(a, ws[0]); let lo = -(2f64.powi(w as i32 - 1)); let hi = 2f64.powi(w as i32 - 1);
                let r: i128 = if x.is_nan() { 0 } else if x <= lo { -(1i128 << (w - 1)) } else if x >= hi { (1i128 << (w - 1)) - 1 } else { x as i128 };
                r as u128 & m },
            F2UI => { let x = f(a, ws[0]); if x.is_nan() || x <= 0.0 { 0 } else if x >= 2f64.powi(w as i32) { m } else { x as u128 } },
            FDec => f32dec(a as u64, sx(b, 32) as i32) as u128,
        }
    }
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len() + 1024, (0, 0)); }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model[n.k as usize] as u128,
            _ => {},
        }
        if self.memo[e as usize].0 == self.epoch { return self.memo[e as usize].1; }
        let s = self.supp1[e as usize];
        if s != MULTI && s != NOVAR && n.w <= 64 {
            if let Some(t) = self.tabs.get(&e) { return t[model[s as usize] as usize] as u128; }
        }
        let ar = Self::arity(n.op);
        let ch = [n.a, n.b, n.c];
        let mut v = [0u128; 3];
        let mut ws = [0u16; 3];
        if n.op == Op::Ite {
            let c = self.ev(n.a, model);
            let r = self.ev(if c != 0 { n.b } else { n.c }, model);
            self.memo[e as usize] = (self.epoch, r);
            return r;
        }
        for j in 0..ar { v[j] = self.ev(ch[j], model); ws[j] = self.w(ch[j]); }
        let r = self.apply(&n, v, &ws);
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    pub fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }

    pub fn tab(&mut self, var: E, w: u16, t: [u64; 256]) -> E {
        let h = h2(&t);
        let id = if let Some(&i) = self.tabmap.get(&h) { i } else {
            let i = self.tables.len();
            self.tables.push(Rc::new(t));
            self.tabmap.insert(h, i);
            i
        };
        self.raw(Op::Tab, w, var, 0, 0, id as u128)
    }
    /// e as a linear form modulo 2^w
    pub fn lin(&mut self, e: E) -> Rc<(Vec<(E, u128)>, u128)> {
        if let Some(l) = self.lins.get(&e) { return l.clone(); }
        let n = self.n(e);
        let m = mask(n.w);
        if n.op == Op::Const { return Rc::new((vec![], n.k)); }
        let s = self.supp1[e as usize];
        let mut r = (vec![(e, 1)], 0);
        if s != MULTI {
            let t = self.table(e);
            let c = t[0] as u128;
            let d = (t[1] as u128).wrapping_sub(c) & m;
            if n.w >= 8 && (0..256usize).all(|i| t[i] as u128 == c.wrapping_add(d.wrapping_mul(i as u128)) & m) {
                let v = self.var(s);
                let z = self.zext(v, n.w);
                r = (vec![(z, d)], c);
            }
        }
        let r = Rc::new(r);
        self.lins.insert(e, r.clone());
        r
    }
    /// canonical sum for a linear form of several bytes
    fn linear(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 8 || w > 64 { return None; }
        let m = mask(w);
        let (la, lb) = (self.lin(a), self.lin(b));
        let mut t: Vec<(E, u128)>;
        let k;
        match op {
            Op::Mul => {
                let c = self.cv(b)?;
                t = la.0.iter().map(|&(x, y)| (x, y.wrapping_mul(c) & m)).collect();
                k = la.1.wrapping_mul(c) & m;
            },
            _ => {
                let neg = op == Op::Sub;
                let f = |y: u128| if neg { (0u128).wrapping_sub(y) & m } else { y };
                t = la.0.clone();
                for &(x, y) in lb.0.iter() { match t.iter_mut().find(|p| p.0 == x) { Some(p) => p.1 = p.1.wrapping_add(f(y)) & m, None => t.push((x, f(y))) } }
                k = la.1.wrapping_add(f(lb.1)) & m;
            },
        }
        t.retain(|p| p.1 != 0);
        if t.len() > 40 { return None; }
        t.sort_unstable();
        if t.is_empty() { return Some(self.k(w, k)); }
        let half = 1u128 << (w - 1);
        let mut acc: Option<E> = None;
        for neg in [false, true] {
            for &(x, y) in &t {
                if (y > half) != neg { continue; }
                let c = if neg { (0u128).wrapping_sub(y) & m } else { y };
                let term = if c == 1 { x } else { let kk = self.k(w, c); self.raw(Op::Mul, w, x, kk, 0, 0) };
                acc = Some(match acc {
                    None if neg => { let z = self.k(w, 0); self.raw(Op::Sub, w, z, term, 0, 0) },
                    None => term,
                    Some(p) => self.raw(if neg { Op::Sub } else { Op::Add }, w, p, term, 0, 0),
                });
            }
        }
        let mut r = acc.unwrap();
        if k != 0 { let kk = self.k(w, k); r = self.raw(Op::Add, w, r, kk, 0, 0); }
        if self.supp1[r as usize] == MULTI { self.lins.insert(r, Rc::new((t, k))); }
        Some(r)
    }
    pub fn not(&mut self, a: E) -> E {
        let one = self.k(1, 1);
        self.bin(Op::Xor, a, one)
    }
    /// generic constructor for one/two-operand operators of uniform width
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let wa = self.w(a);
        let cmp = matches!(op, Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle | FUno);
        let w = if cmp { 1 } else { wa };
        debug_assert!(op == Concat || op == FDec || self.w(a) == self.w(b), "{:?} {} {}", op, self.w(a), self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if op == Concat { let wb = self.w(b); return self.k(wa + wb, (x << wb) | y); }
            let ww = if op == FDec { 32 } else { w };
            let n = Node { op, w: ww, a, b, c: 0, k: 0 };
            let r = self.apply(&n, [x, y, 0], &[wa, wa]);
            return self.k(ww, r);
        }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let cb = self.cv(b);
        let ca = self.cv(a);
        let m = mask(wa);
        match op {
            Add => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    let n = self.n(a);
                    if n.op == Add { if let Some(c2) = self.cv(n.b) { let k = self.k(w, c.wrapping_add(c2)); return self.bin(Add, n.a, k); } }
                    if w == 1 { return self.bin(Xor, a, b); }
                }
                if let Some(r) = self.disjoint_or(a, b) { return r; }
            },
            Sub => {
                if a == b { return self.k(w, 0); }
                if let Some(c) = cb { let k = self.k(w, (0u128).wrapping_sub(c)); return self.bin(Add, a, k); }
            },
            Mul => if let Some(c) = cb {
                if c == 0 { return b; }
                if c == 1 { return a; }
                if c.is_power_of_two() { let k = self.k(w, c.trailing_zeros() as u128); return self.bin(Shl, a, k); }
            },
            UDiv => if let Some(c) = cb {
                if c == 1 { return a; }
                if c.is_power_of_two() { let k = self.k(w, c.trailing_zeros() as u128); return self.bin(LShr, a, k); }
                // narrow the division when high bits are known zero
                let n = self.n(a);
                if n.op == ZExt { let iw = self.w(n.a); if c <= mask(iw) { let k = self.k(iw, c); let d = self.bin(UDiv, n.a, k); return self.zext(d, w); } else { return self.k(w, 0); } }
            },
            URem => if let Some(c) = cb {
                if c == 1 { return self.k(w, 0); }
                if c.is_power_of_two() { let k = self.k(w, c - 1); return self.bin(And, a, k); }
                let n = self.n(a);
                if n.op == ZExt { let iw = self.w(n.a); if c <= mask(iw) { let k = self.k(iw, c); let d = self.bin(URem, n.a, k); return self.zext(d, w); } else { return a; } }
            },
            And => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == m { return a; }
                    if (c + 1).is_power_of_two() && c < m {
                        let bits = (c + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    let n = self.n(a);
                    if n.op == And { if let Some(c2) = self.cv(n.b) { let k = self.k(w, c & c2); return self.bin(And, n.a, k); } }
                    if n.op == ZExt {
                        let iw = self.w(n.a);
                        let k = self.k(iw, c);
                        let r = self.bin(And, n.a, k);
                        return self.zext(r, w);
                    }
                }
                if w == 1 { let na = self.not(a); if na == b { return self.k(1, 0); } }
                if let Some(r) = self.split_logic(op, a, b) { return r; }
            },
            Or => {
                if a == b { return a; }
                if let Some(c) = cb { if c == 0 { return a; } if c == m { return b; } }
                if w == 1 { let na = self.not(a); if na == b { return self.k(1, 1); } }
                if let Some(r) = self.split_logic(op, a, b) { return r; }
            },
            Xor => {
                if a == b { return self.k(w, 0); }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    let n = self.n(a);
                    if n.op == Xor { if let Some(c2) = self.cv(n.b) { let k = self.k(w, c ^ c2); return self.bin(Xor, n.a, k); } }
                    if w == 1 && n.op == Ult { return self.bin(Ule, n.b, n.a); }
                    if w == 1 && n.op == Ule { return self.bin(Ult, n.b, n.a); }
                    if w == 1 && n.op == Slt { return self.bin(Sle, n.b, n.a); }
                    if w == 1 && n.op == Sle { return self.bin(Slt, n.b, n.a); }
                }
                if let Some(r) = self.split_logic(op, a, b) { return r; }
            },
            Shl => if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= w as u128 { return self.k(w, 0); }
                let lo = self.extract(a, 0, w - c as u16);
                let z = self.k(c as u16, 0);
                return self.bin(Concat, lo, z);
            },
            LShr => if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= w as u128 { return self.k(w, 0); }
                let hi = self.extract(a, c as u16, w - c as u16);
                return self.zext(hi, w);
            },
            AShr => if let Some(c) = cb {
                if c == 0 { return a; }
                let c = if c >= w as u128 { w as u128 - 1 } else { c };
                let hi = self.extract(a, c as u16, w - c as u16);
                return self.sext(hi, w);
            },
            Eq => {
                if a == b { return self.k(1, 1); }
                if let Some(c) = cb {
                    if wa == 1 { return if c == 1 { a } else { self.not(a) }; }
                    let n = self.n(a);
                    match n.op {
                        ZExt => { let iw = self.w(n.a); if c > mask(iw) { return self.k(1, 0); } let k = self.k(iw, c); return self.bin(Eq, n.a, k); },
                        SExt => { let iw = self.w(n.a); let k = self.k(iw, c); let back = sx(c & mask(iw), iw) as u128 & m; if back != c { return self.k(1, 0); } return self.bin(Eq, n.a, k); },
                        Concat => {
                            let wl = self.w(n.b); let wh = self.w(n.a);
                            let kh = self.k(wh, c >> wl); let kl = self.k(wl, c);
                            let h = self.bin(Eq, n.a, kh); let l = self.bin(Eq, n.b, kl);
                            return self.bin(And, h, l);
                        },
                        Add => if let Some(c2) = self.cv(n.b) { let k = self.k(wa, c.wrapping_sub(c2)); return self.bin(Eq, n.a, k); },
                        Xor => if let Some(c2) = self.cv(n.b) { let k = self.k(wa, c ^ c2); return self.bin(Eq, n.a, k); },
                        Sub if c == 0 => return self.bin(Eq, n.a, n.b),
                        Xor if c == 0 => return self.bin(Eq, n.a, n.b),
                        Or if c == 0 => { let z = self.k(wa, 0); let x = self.bin(Eq, n.a, z); let y = self.bin(Eq, n.b, z); return self.bin(And, x, y); },
                        Ite => {
                            let (cx, cy) = (self.cv(n.b), self.cv(n.c));
                            if cx.is_some() || cy.is_some() {
                                let x = self.bin(Eq, n.b, b); let y = self.bin(Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        },
                        _ => {},
                    }
                } else if wa == 1 {
                    let x = self.bin(Xor, a, b);
                    return self.not(x);
                } else {
                    let (na, nb) = (self.n(a), self.n(b));
                    if na.op == ZExt && nb.op == ZExt {
                        let (x, y) = (self.w(na.a), self.w(nb.a));
                        let mw = x.max(y);
                        let (p, q) = (self.zext(na.a, mw), self.zext(nb.a, mw));
                        return self.bin(Eq, p, q);
                    }
                    if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                        let h = self.bin(Eq, na.a, nb.a); let l = self.bin(Eq, na.b, nb.b);
                        return self.bin(And, h, l);
                    }
                    if na.op == Add && nb.op == Add && na.b == nb.b { return self.bin(Eq, na.a, nb.a); }
                    if na.op == FNeg && nb.op == FNeg { return self.bin(Eq, na.a, nb.a); }
                }
            },
            Ult => {
                if a == b { return self.k(1, 0); }
                if let Some(c) = cb {
                    if c == 0 { return self.k(1, 0); }
                    if c == 1 { let z = self.k(wa, 0); return self.bin(Eq, a, z); }
                    let n = self.n(a);
                    if n.op == ZExt { let iw = self.w(n.a); if c > mask(iw) { return self.k(1, 1); } let k = self.k(iw, c); return self.bin(Ult, n.a, k); }
                }
                if let Some(c) = ca {
                    if c == m { return self.k(1, 0); }
                    let n = self.n(b);
                    if n.op == ZExt { let iw = self.w(n.a); if c >= mask(iw) { return self.k(1, 0); } let k = self.k(iw, c); return self.bin(Ult, k, n.a); }
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ult, na.a, nb.a); }
            },
            Ule => {
                if a == b { return self.k(1, 1); }
                if let Some(c) = cb { if c == m { return self.k(1, 1); } let k = self.k(wa, c + 1); return self.bin(Ult, a, k); }
                if let Some(c) = ca { if c == 0 { return self.k(1, 1); } let k = self.k(wa, c - 1); return self.bin(Ult, k, b); }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ule, na.a, nb.a); }
            },
            Slt | Sle => {
                if a == b { return self.k(1, (op == Sle) as u128); }
                let pos = |s: &Self, e: E| -> bool { if let Some(c) = s.cv(e) { return c >> (wa - 1) == 0; } s.n(e).op == ZExt };
                if pos(self, a) && pos(self, b) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                if op == Slt && cb == Some(0) { if self.n(a).op == ZExt { return self.k(1, 0); } return self.extract(a, wa - 1, 1); }
                if op == Slt && ca == Some(m) { let s = self.extract(b, wa - 1, 1); return self.not(s); }
                if op == Sle && ca == Some(0) { let s = self.extract(b, wa - 1, 1); return self.not(s); }
            },
            Concat => {
                let wb = self.w(b);
                if wa + wb > 128 { panic!("concat too wide"); }
                let (na, nb) = (self.n(a), self.n(b));
                if ca == Some(0) { return self.zext(b, wa + wb); }
                if nb.op == Concat {
                    // a ++ (b1 ++ b2): merge a with b1 when possible
                    if let Some(mg) = self.merge(a, nb.a) { return self.bin(Concat, mg, nb.b); }
                    return self.raw(Concat, wa + wb, a, b, 0, 0);
                }
                if na.op == Concat { let r = self.bin(Concat, na.b, b); return self.bin(Concat, na.a, r); }
                if nb.op == ZExt && na.op != Const {
                    let iw = self.w(nb.a);
                    let z = self.k(wb - iw, 0);
                    let lo = self.raw(Concat, wb, z, nb.a, 0, 0);
                    return self.raw(Concat, wa + wb, a, lo, 0, 0);
                }
                if na.op == ZExt {
                    let r = self.bin(Concat, na.a, b);
                    return self.zext(r, wa + wb);
                }
                if let Some(mg) = self.merge(a, b) { return mg; }
                return self.raw(Concat, wa + wb, a, b, 0, 0);
            },
            FAdd | FSub | FDiv => {},
            FMul => {
                let one = if wa == 32 { 1.0f32.to_bits() as u128 } else { 1.0f64.to_bits() as u128 };
                let mone = if wa == 32 { (-1.0f32).to_bits() as u128 } else { (-1.0f64).to_bits() as u128 };
                for (x, c) in [(a, cb), (b, ca)] {
                    if c == Some(one) { return x; }
                    if c == Some(mone) { return self.fneg(x); }
                }
            },
            FDec => {
                if cb == Some(0) { return self.un(UI2F, a, 32); }
                if let Some(c) = cb {
                    // exact fast path: mantissa below 2^24 and |exp| <= 10 gives a correctly
                    // rounded result with one IEEE operation
                    let n = self.n(a);
                    let e = sx(c, 32);
                    if n.op == ZExt && self.w(n.a) <= 24 && e.abs() <= 10 {
                        let p = self.k(32, (10f32.powi(e.abs() as i32)).to_bits() as u128);
                        let f = self.un(UI2F, a, 32);
                        return self.bin(if e < 0 { FDiv } else { FMul }, f, p);
                    }
                }
                return self.raw(FDec, 32, a, b, 0, 0);
            },
            _ => {},
        }
        if matches!(op, Add | Sub | Mul) {
            let (sa, sb) = (self.supp1[a as usize], self.supp1[b as usize]);
            if sa == MULTI || sb == MULTI || (sa != sb && sa != NOVAR && sb != NOVAR) { if let Some(r) = self.linear(op, a, b) { return r; } }
        }
        self.raw(op, w, a, b, 0, 0)
    }
    /// zero extension of a function of one byte that is affine over the byte's domain
    pub fn affine_zext(&mut self, a: E, w: u16, vals: &[u8]) -> Option<E> {
        let s = self.supp1[a as usize];
        let wa = self.w(a);
        if s == MULTI || s == NOVAR || vals.len() < 2 || w > 64 || wa < 8 || self.n(a).op == Op::Var { return None; }
        let t = self.table(a);
        let (b0, b1) = (vals[0], vals[vals.len() - 1]);
        let (dx, dy) = (b1 as i128 - b0 as i128, t[b1 as usize] as i128 - t[b0 as usize] as i128);
        if dy % dx != 0 { return None; }
        let d = dy / dx;
        let c = t[b0 as usize] as i128 - d * b0 as i128;
        if !vals.iter().all(|&b| t[b as usize] as i128 == c + d * b as i128) { return None; }
        let v = self.var(s);
        let z = self.zext(v, w);
        let (kd, kc) = (self.k(w, d as u128), self.k(w, c as u128));
        let p = self.bin(Op::Mul, z, kd);
        Some(self.bin(Op::Add, p, kc))
    }
    pub fn fneg(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cv(a) { return self.k(w, c ^ (1u128 << (w - 1))); }
        let n = self.n(a);
        if n.op == Op::FNeg { return n.a; }
        self.raw(Op::FNeg, w, a, 0, 0, 0)
    }
    pub fn un(&mut self, op: Op, a: E, w: u16) -> E {
        let wa = self.w(a);
        if let Some(c) = self.cv(a) {
            let n = Node { op, w, a, b: 0, c: 0, k: 0 };
            let r = self.apply(&n, [c, 0, 0], &[wa, wa, wa]);
            return self.k(w, r);
        }
        if op == Op::SI2F {
            // normalise to a 64-bit source
            if wa < 64 { let s = self.sext(a, 64); return self.un(op, s, w); }
            if self.n(a).op == Op::ZExt { return self.un(Op::UI2F, a, w); }
        }
        if op == Op::UI2F && wa < 64 { let s = self.zext(a, 64); return self.un(op, s, w); }
        if op == Op::FCvt && wa == w { return a; }
        self.raw(op, w, a, 0, 0, 0)
    }
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return Some(self.k(na.w + nb.w, (na.k << nb.w) | nb.k));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return Some(self.extract(na.a, nb.k as u16, na.w + nb.w));
        }
        // the two halves of a value whose low half was simplified to something else
        if na.op == Op::Extract && na.k == nb.w as u128 && nb.w >= 8 && na.a != b {
            let lo = self.extract(na.a, 0, nb.w);
            if lo == b { return Some(self.extract(na.a, 0, na.w + nb.w)); }
        }
        // the bytes of a choice between two values
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            if let Some(x) = self.merge(na.b, nb.b) { if let Some(y) = self.merge(na.c, nb.c) { return Some(self.ite(na.a, x, y)); } }
        }
        None
    }
    /// known-zero based or of disjoint operands written as an addition
    fn disjoint_or(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op != Op::Concat && nb.op != Op::Concat { return None; }
        if na.w > 64 { return None; }
        let (ma, mb) = (self.ones(a, 6), self.ones(b, 6));
        if ma & mb == 0 { return self.split_logic(Op::Or, a, b); }
        None
    }
    /// over-approximation of the bits that can be one
    pub fn ones(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        if d == 0 { return m; }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.ones(n.a, d - 1),
            Op::Concat => (self.ones(n.a, d - 1) << self.w(n.b)) | self.ones(n.b, d - 1),
            Op::And => self.ones(n.a, d - 1) & self.ones(n.b, d - 1),
            Op::Or | Op::Xor => self.ones(n.a, d - 1) | self.ones(n.b, d - 1),
            Op::Extract => (self.ones(n.a, d - 1) >> n.k) & m,
            Op::Ite => self.ones(n.b, d - 1) | self.ones(n.c, d - 1),
            _ => m,
        }
    }
    fn split_logic(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let st = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt | Op::Const);
        if !(st(&na) && st(&nb)) { return None; }
        if na.op == Op::Const || nb.op == Op::Const {
            // only split on concats
            if na.op != Op::Concat && nb.op != Op::Concat && na.op != Op::ZExt && nb.op != Op::ZExt { return None; }
        }
        let w = na.w;
        let sp = match (na.op, nb.op) {
            (Op::Concat, Op::Concat) => { let (x, y) = (self.w(na.b), self.w(nb.b)); x.min(y) },
            (Op::Concat, Op::ZExt) => { let (x, y) = (self.w(na.b), self.w(nb.a)); x.min(y) },
            (Op::ZExt, Op::Concat) => { let (x, y) = (self.w(na.a), self.w(nb.b)); x.min(y) },
            (Op::Concat, _) => self.w(na.b),
            (_, Op::Concat) => self.w(nb.b),
            (Op::ZExt, Op::ZExt) => { let (x, y) = (self.w(na.a), self.w(nb.a)); x.max(y) },
            (Op::ZExt, _) => self.w(na.a),
            (_, Op::ZExt) => self.w(nb.a),
            _ => return None,
        };
        if sp == 0 || sp >= w { return None; }
        let (ah, al) = (self.extract(a, sp, w - sp), self.extract(a, 0, sp));
        let (bh, bl) = (self.extract(b, sp, w - sp), self.extract(b, 0, sp));
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.bin(Op::Concat, h, l))
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        debug_assert!(w > wa);
        if let Some(c) = self.cv(a) { return self.k(w, c); }
        let n = self.n(a);
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.cv(a) { return self.k(w, sx(c, wa) as u128); }
        let n = self.n(a);
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E { self.extract(a, 0, w) }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if lo == 0 && w == wa { return a; }
        if let Some(c) = self.cv(a) { return self.k(w, c >> lo); }
        let n = self.n(a);
        match n.op {
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.bin(Op::Concat, h, l);
            },
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.k(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            },
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
            },
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            },
            Op::Add | Op::Sub | Op::Mul if lo == 0 && (w == 32 || w == 64 || self.supp1[a as usize] != MULTI) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            },
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            },
            _ => {},
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); },
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); },
                _ => {},
            }
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    /// rebuild an expression with some bytes replaced by constants
    pub fn subst(&mut self, e: E, sing: &Bits, vals: &[u8], memo: &mut HashMap<E, E>) -> E {
        let s = self.supp1[e as usize];
        if s == NOVAR { return e; }
        let sup = self.support(e);
        if (0..BW).all(|i| sup[i] & sing[i] == 0) { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.n(e);
        let r = if s != MULTI && n.w <= 64 {
            let t = self.table(e);
            self.k(n.w, t[vals[s as usize] as usize] as u128)
        } else {
            let ar = Self::arity(n.op);
            let ch = [n.a, n.b, n.c];
            let mut v = [0; 3];
            for j in 0..ar { v[j] = self.subst(ch[j], sing, vals, memo); }
            self.rebuild(&n, v)
        };
        memo.insert(e, r);
        r
    }
    pub fn rebuild(&mut self, n: &Node, v: [E; 3]) -> E {
        use Op::*;
        match n.op {
            Const => self.k(n.w, n.k),
            Var => self.var(n.k as u16),
            Extract => self.extract(v[0], n.k as u16, n.w),
            ZExt => self.zext(v[0], n.w),
            SExt => self.sext(v[0], n.w),
            Ite => self.ite(v[0], v[1], v[2]),
            FNeg => self.fneg(v[0]),
            SI2F | UI2F | FCvt | F2SI | F2UI => self.un(n.op, v[0], n.w),
            Tab => { if let Some(c) = self.cv(v[0]) { let x = self.tables[n.k as usize][c as usize]; self.k(n.w, x as u128) } else { self.raw(Tab, n.w, v[0], 0, 0, n.k) } },
            op => self.bin(op, v[0], v[1]),
        }
    }
}
