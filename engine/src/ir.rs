//! Parser for the textual LLVM IR that rustc/LLVM produce for this project.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Float, Double, Ptr, Label, Meta,
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Func,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a },
            Ty::Float => 4, Ty::Double | Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => { let b = *n as u64 * t.bits() as u64; ((b + 7) / 8).next_power_of_two() },
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut al = 1;
                for t in f.iter() { let a = if *packed { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a + t.size(); }
                (o + al - 1) / al * al
            },
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => if *w <= 8 { 1 } else if *w <= 16 { 2 } else if *w <= 32 { 4 } else if *w <= 64 { 8 } else { 16 },
            Ty::Float => 4, Ty::Double | Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Float => 32, Ty::Double | Ty::Ptr => 64, _ => panic!("bits of {:?}", self) }
    }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr) }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    o = (o + a - 1) / a * a;
                    if j == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            },
            Ty::Array(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * (t.bits() as u64 / 8), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 }
    }
}

/// constants, unresolved global addresses included
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Undef,
    Global(Rc<str>),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    /// base + offset
    Off(Box<Cst>, i64),
    /// trunc/zext/ptrtoint/inttoptr
    Cast(Box<Cst>),
    Bin(String, u16, Box<Cst>, Box<Cst>),
}

/// run-time values: concrete up to 64 bits, symbolic, wide concrete, aggregate/vector
#[derive(Clone, Debug)]
pub enum V { C(u64), S(crate::expr::E), W(Rc<u128>), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(Ty, Cst), K(V) }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: u8, ty: Ty, a: Opd, b: Opd, d: u32 },
    FNeg { ty: Ty, a: Opd, d: u32 },
    ICmp { p: u8, ty: Ty, a: Opd, b: Opd, d: u32 },
    FCmp { p: u8, ty: Ty, a: Opd, b: Opd, d: u32 },
    Cast { k: u8, from: Ty, to: Ty, a: Opd, d: u32 },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd, d: u32 },
    Load { ty: Ty, p: Opd, d: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { size: u64, n: Opd, d: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u16, u64)>, d: u32 },
    Call { f: Opd, args: Vec<(Ty, Opd)>, ret: Ty, d: u32, normal: u32 },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u16, v: Opd, cases: Vec<(u128, u32)>, def: u32 },
    Ret { v: Option<(Ty, Opd)> },
    Unreachable,
    ExtractValue { a: Opd, path: Vec<u32>, ty: Ty, d: u32 },
    InsertValue { a: Opd, v: Opd, path: Vec<u32>, ty: Ty, d: u32 },
    ExtractElement { vty: Ty, a: Opd, i: Opd, d: u32 },
    InsertElement { vty: Ty, a: Opd, v: Opd, i: Opd, d: u32 },
    Shuffle { vty: Ty, a: Opd, b: Opd, mask: Vec<u32>, d: u32 },
    AtomicRmw { op: u8, ty: Ty, p: Opd, v: Opd, d: u32 },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd, d: u32 },
    Copy { a: Opd, d: u32 },
    Nop,
    Unsupported(String),
}
pub const NONE: u32 = u32::MAX;

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, // dst, type, (pred block, value)
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}
pub struct Global { pub name: Rc<str>, pub ty: Ty, pub init: Option<Cst>, pub constant: bool }

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub fbody: HashMap<Rc<str>, (usize, usize)>, // line range of definition
    pub fnames: Vec<Rc<str>>,                    // definitions and declarations, in order
    pub lines: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok { W(String), G(String), L(String), N(String), S(Vec<u8>), M(String), P(char) }

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let quoted = |i: &mut usize| -> Vec<u8> {
        // b[*i] == '"'
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' {
                if b[*i + 1] == b'\\' { v.push(b'\\'); *i += 2; continue; }
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else { v.push(b[*i]); *i += 1; }
        }
        *i += 1;
        v
    };
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' { i += 1; continue; }
        if c == b';' { break; }
        if c == b'@' || c == b'%' {
            i += 1;
            let name = if i < b.len() && b[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else {
                let st = i; while i < b.len() && idc(b[i]) { i += 1; } s[st..i].to_string() };
            out.push(if c == b'@' { Tok::G(name) } else { Tok::L(name) });
            continue;
        }
        if c == b'"' { let v = quoted(&mut i); out.push(Tok::S(v)); continue; }
        if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' { i += 1; let v = quoted(&mut i); out.push(Tok::S(v)); continue; }
        if c == b'!' || c == b'#' { let st = i; i += 1; while i < b.len() && idc(b[i]) { i += 1; } out.push(Tok::M(s[st..i].to_string())); continue; }
        if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let st = i; i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i-1] == b'e' || b[i-1]==b'E') && !s[st..i].starts_with("0x"))) { i += 1; }
            out.push(Tok::N(s[st..i].to_string()));
            continue;
        }
        if (c == b'+' || c == b'-') && i + 1 < b.len() && b[i + 1].is_ascii_alphabetic() {
            let st = i; i += 1; while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; }
            if i < b.len() && b[i] == b'(' { while b[i] != b')' { i += 1; } i += 1; }
            out.push(Tok::N(s[st..i].to_string()));
            continue;
        }
        if c == b'+' && i + 1 < b.len() && b[i + 1].is_ascii_digit() { i += 1; continue; }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' {
            let st = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'$') { i += 1; }
            let w = &s[st..i];
            // f0x... floats
            if w.starts_with("f0x") { out.push(Tok::N(w.to_string())); } else { out.push(Tok::W(w.to_string())); }
            continue;
        }
        out.push(Tok::P(c as char));
        i += 1;
    }
    out
}

struct Ps<'a> { t: Vec<Tok>, i: usize, types: &'a HashMap<String, Ty>, line: &'a str }
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Tok { let t = self.t.get(self.i).cloned().unwrap_or(Tok::P('\0')); self.i += 1; t }
    fn is(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn eat(&mut self, c: char) { if !self.is(c) { self.fail(&format!("expected {}", c)); } self.i += 1; }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn fail(&self, m: &str) -> ! { eprintln!("IR parse error: {} at token {} in: {}", m, self.i, &self.line[..self.line.len().min(600)]); std::process::exit(71); }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } }, Tok::P('\0') => self.fail("paren"), _ => {} }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => matches!(w.as_str(), "void" | "float" | "double" | "ptr" | "half" | "label" | "metadata") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('{')) | Some(Tok::P('<')) | Some(Tok::P('[')) => true,
            Some(Tok::L(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let base = match self.next() {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void, "float" => Ty::Float, "double" => Ty::Double, "ptr" => { if self.isw("addrspace") { self.i += 1; self.skip_parens(); } Ty::Ptr }, "label" => Ty::Label, "metadata" => Ty::Meta, "half" => Ty::Int(16),
                _ => if w.starts_with('i') { Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))) } else { self.fail("type") },
            },
            Tok::L(n) => match self.types.get(&n) { Some(t) => t.clone(), None => self.fail("named type") },
            Tok::P('[') => { let n: u64 = self.num() as u64; if !self.eatw("x") { self.fail("x"); } let t = self.ty(); self.eat(']'); Ty::Array(n, Rc::new(t)) },
            Tok::P('{') => { let f = self.fields('}'); Ty::Struct(Rc::new(f), false) },
            Tok::P('<') => {
                if self.is('{') { self.i += 1; let f = self.fields('}'); self.eat('>'); Ty::Struct(Rc::new(f), true) }
                else { let n: u32 = self.num() as u32; if !self.eatw("x") { self.fail("x"); } let t = self.ty(); self.eat('>'); Ty::Vec(n, Rc::new(t)) }
            },
            _ => self.fail("type"),
        };
        base
    }
    fn num(&mut self) -> i128 { match self.next() { Tok::N(n) => n.parse().unwrap_or_else(|_| self.fail("num")), _ => self.fail("num") } }
    fn fields(&mut self, end: char) -> Vec<Ty> {
        let mut v = vec![];
        if self.is(end) { self.i += 1; return v; }
        loop { v.push(self.ty()); if self.is(',') { self.i += 1; continue; } self.eat(end); return v; }
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        match self.next() {
            Tok::N(n) => Cst::Int(self.pnum(&n, ty)),
            Tok::G(g) => Cst::Global(Rc::from(g.as_str())),
            Tok::S(b) => Cst::Bytes(b),
            Tok::W(w) => match w.as_str() {
                "true" => Cst::Int(1), "false" => Cst::Int(0), "null" | "zeroinitializer" | "none" => Cst::Zero, "undef" | "poison" => Cst::Undef,
                "splat" => { self.eat('('); let t = self.ty(); let c = self.cst(&t); self.eat(')'); let n = ty.nfields(); Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect()) },
                "getelementptr" => {
                    while !self.is('(') { self.i += 1; if let Some(Tok::P('(')) = self.peek() { if let Some(Tok::W(w)) = self.t.get(self.i - 1) { if w == "inrange" { self.skip_parens(); } } } }
                    self.eat('(');
                    let st = self.ty(); self.eat(',');
                    let _ = self.ty(); let base = self.cst(&Ty::Ptr);
                    let mut off = 0i64; let mut cur = st; let mut first = true;
                    while self.is(',') { self.i += 1; let it = self.ty(); let v = self.cst(&it);
                        let k = match v { Cst::Int(x) => crate::expr::sx(x, it.bits()) as i64, Cst::Zero => 0, _ => self.fail("gep const") };
                        if first { off += k * cur.size() as i64; first = false; } else { let (o, t) = if matches!(cur, Ty::Struct(..)) { cur.field(k as usize) } else { let (_, t) = cur.field(0); (((k) * t.size() as i64) as u64, t) }; off += o as i64; cur = t; } }
                    self.eat(')');
                    Cst::Off(Box::new(base), off)
                },
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "zext" | "trunc" => { self.eat('('); let t = self.ty(); let c = self.cst(&t); if !self.eatw("to") { self.fail("to"); } let _ = self.ty(); self.eat(')'); Cst::Cast(Box::new(c)) },
                "add" | "sub" | "mul" | "xor" | "and" | "or" => { while !self.is('(') { self.i += 1; } self.eat('('); let t = self.ty(); let a = self.cst(&t); self.eat(','); let t2 = self.ty(); let b = self.cst(&t2); self.eat(')'); Cst::Bin(w, t.bits(), Box::new(a), Box::new(b)) },
                "c" => self.fail("c string"),
                _ => self.fail(&format!("const word {}", w)),
            },
            Tok::P('[') => { let v = self.agg(']'); Cst::Agg(v) },
            Tok::P('{') => { let v = self.agg('}'); Cst::Agg(v) },
            Tok::P('<') => if self.is('{') { self.i += 1; let v = self.agg('}'); self.eat('>'); Cst::Agg(v) } else { let v = self.agg('>'); Cst::Agg(v) },
            _ => self.fail("const"),
        }
    }
    fn agg(&mut self, end: char) -> Vec<(Ty, Cst)> {
        let mut v = vec![];
        if self.is(end) { self.i += 1; return v; }
        loop { let t = self.ty(); let c = self.cst(&t); v.push((t, c)); if self.is(',') { self.i += 1; continue; } self.eat(end); return v; }
    }
    fn pnum(&self, n: &str, ty: &Ty) -> u128 {
        match ty {
            Ty::Int(w) => { let v: i128 = if let Ok(v) = n.parse::<i128>() { v } else { n.parse::<u128>().unwrap_or_else(|_| self.fail("int")) as i128 }; v as u128 & crate::expr::mask(*w) },
            Ty::Float | Ty::Double => {
                let dbl = *ty == Ty::Double;
                match n { "+inf" | "inf" => return if dbl { 0x7ff0 << 48 } else { 0x7f80_0000 }, "-inf" => return if dbl { 0xfff0 << 48 } else { 0xff80_0000 }, "+qnan" | "qnan" => return if dbl { 0x7ff8 << 48 } else { 0x7fc0_0000 }, "-qnan" => return if dbl { 0xfff8 << 48 } else { 0xffc0_0000 }, _ => {} }
                if let Some(k) = n.find("nan(0x") {
                    let pay = u128::from_str_radix(&n[k + 6..n.len() - 1], 16).unwrap();
                    let snan = n.contains("snan");
                    let neg = n.starts_with('-') as u128;
                    return if dbl { neg << 63 | 0x7ff << 52 | pay | if snan { 0 } else { 1 << 51 } } else { neg << 31 | 0xff << 23 | pay | if snan { 0 } else { 1 << 22 } };
                }
                if let Some(h) = n.strip_prefix("f0x") { return u128::from_str_radix(h, 16).unwrap(); }
                let d = if let Some(h) = n.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| self.fail("float"))) } else { n.parse::<f64>().unwrap_or_else(|_| self.fail("float")) };
                if *ty == Ty::Float { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }
            },
            _ => self.fail("number type"),
        }
    }
}

pub fn parse_module(text: String) -> Module {
    let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let mut types: HashMap<String, Ty> = HashMap::new();
    // named types may refer to later ones: iterate
    let mut pend: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].starts_with('%') && lines[i].contains(" = type ")).collect();
    for _ in 0..64 {
        if pend.is_empty() { break; }
        let mut rest = vec![];
        for &i in &pend {
            let l = &lines[i];
            let t = lex(l);
            let name = if let Tok::L(n) = &t[0] { n.clone() } else { continue };
            let ok = t[3..].iter().all(|x| if let Tok::L(n) = x { types.contains_key(n) } else { true });
            if !ok { rest.push(i); continue; }
            if matches!(&t[3], Tok::W(w) if w == "opaque") { types.insert(name, Ty::Struct(Rc::new(vec![]), false)); continue; }
            let mut p = Ps { t, i: 3, types: &types, line: l };
            let ty = p.ty();
            types.insert(name, ty);
        }
        pend = rest;
    }
    let mut globals = vec![];
    let mut fbody = HashMap::new();
    let mut fnames: Vec<Rc<str>> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        if l.starts_with('@') {
            let t = lex(l);
            let name: Rc<str> = if let Tok::G(n) = &t[0] { Rc::from(n.as_str()) } else { unreachable!() };
            // find 'global' or 'constant' or alias
            let pos = t.iter().position(|x| matches!(x, Tok::W(w) if w == "global" || w == "constant" || w == "alias"));
            let ext = t.iter().any(|x| matches!(x, Tok::W(w) if w == "external"));
            let pos = match pos { Some(p) => p, None => { i += 1; continue; } };
            let isalias = matches!(&t[pos], Tok::W(w) if w == "alias");
            let constant = matches!(&t[pos], Tok::W(w) if w == "constant");
            let mut p = Ps { t, i: pos + 1, types: &types, line: l };
            let ty = p.ty();
            if isalias { i += 1; continue; }
            if ty == Ty::Meta { i += 1; continue; }
            let init = if ext || p.is(',') || p.peek().is_none() { None } else { Some(p.cst(&ty)) };
            globals.push(Global { name, ty, init, constant });
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let t = lex(&l[at..l[at..].find('(').map(|x| x + at).unwrap_or(l.len())]);
            let name: Rc<str> = if let Tok::G(n) = &t[0] { Rc::from(n.as_str()) } else { unreachable!() };
            fnames.push(name.clone());
            if l.starts_with("define ") {
                let st = i;
                while lines[i] != "}" { i += 1; }
                fbody.insert(name, (st, i));
            }
        }
        i += 1;
    }
    Module { types, globals, fbody, fnames, lines }
}

pub const BINOPS: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"];
pub const ICMPS: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
pub const FCMPS: &[&str] = &["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
pub const CASTS: &[&str] = &["trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr"];
pub const RMWS: &[&str] = &["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"];

struct Fx<'a> { regs: HashMap<String, u32>, blocks: HashMap<String, u32>, m: &'a Module }
impl<'a> Fx<'a> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
}

pub fn parse_func(m: &Module, name: &str) -> Func {
    let (s, e) = m.fbody[name];
    let mut fx = Fx { regs: HashMap::new(), blocks: HashMap::new(), m };
    let head = &m.lines[s];
    let mut p = Ps { t: lex(head), i: 0, types: &m.types, line: head };
    while !matches!(p.peek(), Some(Tok::G(_))) { p.i += 1; }
    p.i += 1;
    p.eat('(');
    let mut params = vec![];
    let mut unnamed = 0;
    while !p.is(')') {
        if p.is(',') { p.i += 1; continue; }
        let _t = p.ty();
        // attributes
        loop {
            if p.is('(') { p.skip_parens(); continue; }
            match p.peek() {
                Some(Tok::W(_)) | Some(Tok::N(_)) | Some(Tok::S(_)) => { p.i += 1; },
                Some(Tok::L(n)) => { let n = n.clone(); p.i += 1; params.push(fx.reg(&n)); break; },
                _ => { params.push(fx.reg(&unnamed.to_string())); break; },
            }
        }
        unnamed += 1;
    }
    // split into blocks
    let mut raw: Vec<(String, Vec<String>)> = vec![];
    let mut i = s + 1;
    while i < e {
        let l = &m.lines[i];
        if l.trim().is_empty() || l.trim_start().starts_with("#dbg") { i += 1; continue; }
        if !l.starts_with(' ') {
            let lab = if l.starts_with('"') { let t = lex(l); if let Tok::S(b) = &t[0] { String::from_utf8_lossy(b).into_owned() } else { unreachable!() } } else { l[..l.find(':').unwrap()].to_string() };
            raw.push((lab, vec![]));
            i += 1;
            continue;
        }
        if raw.is_empty() { raw.push((format!("{}", unnamed), vec![])); }
        let mut line = l.trim().to_string();
        // joins
        if line.starts_with("switch ") && line.ends_with('[') {
            loop { i += 1; let x = m.lines[i].trim(); line.push(' '); line.push_str(x); if x.starts_with(']') { break; } }
        } else if line.contains("invoke ") && !line.contains(" unwind label ") {
            loop { i += 1; let x = m.lines[i].trim(); line.push(' '); line.push_str(x); if x.contains("unwind label") { break; } }
        } else if line.contains("landingpad") {
            while { let x = m.lines[i + 1].trim(); x.starts_with("cleanup") || x.starts_with("filter") || x.starts_with("catch") } { i += 1; }
        }
        raw.last_mut().unwrap().1.push(line);
        i += 1;
    }
    for (k, (n, _)) in raw.iter().enumerate() { fx.blocks.insert(n.clone(), k as u32); }
    let mut blocks = vec![];
    for (n, ls) in &raw {
        let mut b = Block { name: n.clone(), phis: vec![], ins: vec![] };
        for l in ls { parse_ins(&mut fx, l, &mut b); }
        blocks.push(b);
    }
    Func { name: Rc::from(name), params, nregs: fx.regs.len() as u32, blocks }
}

fn opd(p: &mut Ps, fx: &mut Fx, ty: &Ty) -> Opd {
    if let Some(Tok::L(n)) = p.peek() { let n = n.clone(); p.i += 1; return Opd::R(fx.reg(&n)); }
    let c = p.cst(ty);
    Opd::C(ty.clone(), c)
}
fn label(p: &mut Ps, fx: &Fx) -> u32 {
    if !p.eatw("label") { p.fail("label"); }
    match p.next() { Tok::L(n) => *fx.blocks.get(&n).unwrap_or_else(|| p.fail("unknown label")), _ => p.fail("label name") }
}

fn parse_ins(fx: &mut Fx, line: &str, b: &mut Block) {
    let m = fx.m;
    let mut p = Ps { t: lex(line), i: 0, types: &m.types, line };
    let mut d = NONE;
    if let Some(Tok::L(n)) = p.peek() { let n = n.clone(); p.i += 1; p.eat('='); d = fx.reg(&n); }
    let w = match p.next() { Tok::W(w) => w, _ => p.fail("opcode") };
    let flagw = |p: &mut Ps| { loop { match p.peek() { Some(Tok::W(w)) if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "nusw" | "weak") => { p.i += 1; }, Some(Tok::W(w)) if w == "inrange" => { p.i += 1; p.skip_parens(); }, _ => break } } };
    if let Some(op) = BINOPS.iter().position(|x| *x == w) {
        flagw(&mut p);
        let ty = p.ty(); let a = opd(&mut p, fx, &ty); p.eat(','); let bb = opd(&mut p, fx, &ty);
        b.ins.push(Ins::Bin { op: op as u8, ty, a, b: bb, d });
        return;
    }
    if let Some(k) = CASTS.iter().position(|x| *x == w) {
        flagw(&mut p);
        let from = p.ty(); let a = opd(&mut p, fx, &from); if !p.eatw("to") { p.fail("to"); } let to = p.ty();
        b.ins.push(Ins::Cast { k: k as u8, from, to, a, d });
        return;
    }
    let ins = match w.as_str() {
        "fneg" => { flagw(&mut p); let ty = p.ty(); let a = opd(&mut p, fx, &ty); Ins::FNeg { ty, a, d } },
        "icmp" => { flagw(&mut p); let pr = match p.next() { Tok::W(w) => w, _ => p.fail("pred") }; let ty = p.ty(); let a = opd(&mut p, fx, &ty); p.eat(','); let c = opd(&mut p, fx, &ty);
            Ins::ICmp { p: ICMPS.iter().position(|x| *x == pr).unwrap() as u8, ty, a, b: c, d } },
        "fcmp" => { flagw(&mut p); let pr = match p.next() { Tok::W(w) => w, _ => p.fail("pred") }; let ty = p.ty(); let a = opd(&mut p, fx, &ty); p.eat(','); let c = opd(&mut p, fx, &ty);
            Ins::FCmp { p: FCMPS.iter().position(|x| *x == pr).unwrap() as u8, ty, a, b: c, d } },
        "select" => { flagw(&mut p); let cty = p.ty(); let c = opd(&mut p, fx, &cty); p.eat(','); let ty = p.ty(); let a = opd(&mut p, fx, &ty); p.eat(','); let t2 = p.ty(); let bb = opd(&mut p, fx, &t2);
            Ins::Select { cty, ty, c, a, b: bb, d } },
        "load" => { flagw(&mut p); let ty = p.ty(); p.eat(','); let _ = p.ty(); let a = opd(&mut p, fx, &Ty::Ptr); Ins::Load { ty, p: a, d } },
        "store" => { flagw(&mut p); let ty = p.ty(); let v = opd(&mut p, fx, &ty); p.eat(','); let _ = p.ty(); let a = opd(&mut p, fx, &Ty::Ptr); Ins::Store { ty, v, p: a } },
        "alloca" => { let ty = p.ty(); let mut n = Opd::C(Ty::Int(64), Cst::Int(1)); if p.is(',') { p.i += 1; if p.is_type_start() { let t = p.ty(); n = opd(&mut p, fx, &t); } } Ins::Alloca { size: ty.size(), n, d } },
        "getelementptr" => {
            flagw(&mut p);
            let st = p.ty(); p.eat(','); let bt = p.ty(); let base = opd(&mut p, fx, &bt);
            if !matches!(bt, Ty::Ptr) { Ins::Unsupported("vector gep".into()) } else {
            let mut off = 0i64; let mut idx = vec![]; let mut cur = st; let mut first = true;
            while p.is(',') {
                p.i += 1;
                if !p.is_type_start() { break; }
                let it = p.ty(); let v = opd(&mut p, fx, &it);
                let (scale, nt) = if first { (cur.size(), cur.clone()) } else if let Ty::Struct(..) = cur {
                    let k = match &v { Opd::C(_, Cst::Int(x)) => *x as usize, Opd::C(_, Cst::Zero) => 0, _ => p.fail("struct idx") };
                    let (o, t) = cur.field(k); off += o as i64; cur = t; continue;
                } else { let (_, t) = cur.field(0); (t.size(), t) };
                first = false;
                match &v {
                    Opd::C(_, Cst::Int(x)) => off += crate::expr::sx(*x, it.bits()) as i64 * scale as i64,
                    Opd::C(_, Cst::Zero) => {},
                    _ => idx.push((v, it.bits(), scale)),
                }
                cur = nt;
            }
            Ins::Gep { base, off, idx, d } }
        },
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if w != "call" && w != "invoke" { p.i += 1; }
            // skip to the return type
            loop {
                if p.is('(') { p.skip_parens(); continue; }
                if p.is_type_start() { break; }
                match p.next() { Tok::W(_) | Tok::N(_) | Tok::S(_) => {}, _ => p.fail("call") }
            }
            let ret = p.ty();
            if p.is('(') { p.skip_parens(); } // function type of varargs
            if p.isw("asm") { b.ins.push(Ins::Unsupported(format!("inline asm: {}", line))); return; }
            let f = opd(&mut p, fx, &Ty::Ptr);
            p.eat('(');
            let mut args = vec![];
            while !p.is(')') {
                if p.is(',') { p.i += 1; continue; }
                let t = p.ty();
                if t == Ty::Meta { // skip metadata operand
                    while !p.is(',') && !p.is(')') { if p.is('(') { p.skip_parens(); } else { p.i += 1; } }
                    continue;
                }
                // attributes
                loop {
                    match p.peek() {
                        Some(Tok::W(w)) if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "trunc" | "zext") => break,
                        Some(Tok::W(w)) => { let al = w == "align"; p.i += 1; if al { if p.is('(') { p.skip_parens(); } else { p.i += 1; } } else if p.is('(') { p.skip_parens(); } },
                        Some(Tok::S(_)) if !matches!(t, Ty::Array(..)) => { p.i += 1; },
                        _ => break,
                    }
                }
                let v = opd(&mut p, fx, &t);
                args.push((t, v));
            }
            p.i += 1;
            let mut normal = NONE;
            if w == "invoke" {
                while !p.isw("to") { p.i += 1; if p.peek().is_none() { p.fail("invoke"); } }
                p.i += 1;
                normal = label(&mut p, fx);
            }
            Ins::Call { f, args, ret, d, normal }
        },
        "br" => {
            if p.isw("label") { Ins::Br { t: label(&mut p, fx) } } else {
                let _ = p.ty(); let c = opd(&mut p, fx, &Ty::Int(1)); p.eat(','); let t = label(&mut p, fx); p.eat(','); let f = label(&mut p, fx);
                Ins::CondBr { c, t, f } }
        },
        "switch" => {
            let ty = p.ty(); let v = opd(&mut p, fx, &ty); p.eat(','); let def = label(&mut p, fx); p.eat('[');
            let mut cases = vec![];
            while !p.is(']') { let t = p.ty(); let c = match p.cst(&t) { Cst::Int(x) => x, Cst::Zero => 0, _ => p.fail("case") }; p.eat(','); let l = label(&mut p, fx); cases.push((c, l)); }
            Ins::Switch { w: ty.bits(), v, cases, def }
        },
        "ret" => { let ty = p.ty(); if ty == Ty::Void { Ins::Ret { v: None } } else { let v = opd(&mut p, fx, &ty); Ins::Ret { v: Some((ty, v)) } } },
        "unreachable" => Ins::Unreachable,
        "resume" => Ins::Unsupported("resume".into()),
        "landingpad" => Ins::Unsupported("landingpad".into()),
        "fence" => Ins::Nop,
        "freeze" => { let ty = p.ty(); let a = opd(&mut p, fx, &ty); Ins::Copy { a, d } },
        "extractvalue" => { let ty = p.ty(); let a = opd(&mut p, fx, &ty); let mut path = vec![]; let mut cur = ty; while p.is(',') { p.i += 1; if let Some(Tok::N(_)) = p.peek() { let k = p.num() as u32; path.push(k); cur = cur.field(k as usize).1; } else { break; } } Ins::ExtractValue { a, path, ty: cur, d } },
        "insertvalue" => { let ty = p.ty(); let a = opd(&mut p, fx, &ty); p.eat(','); let vt = p.ty(); let v = opd(&mut p, fx, &vt); let mut path = vec![]; while p.is(',') { p.i += 1; if let Some(Tok::N(_)) = p.peek() { path.push(p.num() as u32); } else { break; } } Ins::InsertValue { a, v, path, ty, d } },
        "extractelement" => { let vty = p.ty(); let a = opd(&mut p, fx, &vty); p.eat(','); let it = p.ty(); let i = opd(&mut p, fx, &it); Ins::ExtractElement { vty, a, i, d } },
        "insertelement" => { let vty = p.ty(); let a = opd(&mut p, fx, &vty); p.eat(','); let et = p.ty(); let v = opd(&mut p, fx, &et); p.eat(','); let it = p.ty(); let i = opd(&mut p, fx, &it); Ins::InsertElement { vty, a, v, i, d } },
        "shufflevector" => { let vty = p.ty(); let a = opd(&mut p, fx, &vty); p.eat(','); let t2 = p.ty(); let bb = opd(&mut p, fx, &t2); p.eat(','); let mt = p.ty(); let mc = p.cst(&mt);
            let n = mt.nfields();
            let mask = match mc { Cst::Agg(v) => v.iter().map(|(_, c)| match c { Cst::Int(x) => *x as u32, _ => 0 }).collect(), _ => vec![0; n] };
            Ins::Shuffle { vty, a, b: bb, mask, d } },
        "atomicrmw" => { flagw(&mut p); let op = match p.next() { Tok::W(w) => w, _ => p.fail("rmw") }; let _ = p.ty(); let pt = opd(&mut p, fx, &Ty::Ptr); p.eat(','); let ty = p.ty(); let v = opd(&mut p, fx, &ty);
            Ins::AtomicRmw { op: RMWS.iter().position(|x| *x == op).unwrap() as u8, ty, p: pt, v, d } },
        "cmpxchg" => { flagw(&mut p); let _ = p.ty(); let pt = opd(&mut p, fx, &Ty::Ptr); p.eat(','); let ty = p.ty(); let c = opd(&mut p, fx, &ty); p.eat(','); let t2 = p.ty(); let n = opd(&mut p, fx, &t2); Ins::CmpXchg { ty, p: pt, c, n, d } },
        "phi" => {
            flagw(&mut p);
            let ty = p.ty();
            let mut v = vec![];
            loop {
                p.eat('[');
                let o = opd(&mut p, fx, &ty); p.eat(',');
                let l = match p.next() { Tok::L(n) => *fx.blocks.get(&n).unwrap_or_else(|| p.fail("phi label")), _ => p.fail("phi") };
                p.eat(']');
                v.push((l, o));
                if p.is(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('['))) { p.i += 1; continue; }
                break;
            }
            b.phis.push((d, ty, v));
            return;
        },
        "va_arg" => Ins::Unsupported(w),
        _ => p.fail(&format!("opcode {}", w)),
    };
    b.ins.push(ins);
}

pub fn each_opd(i: &mut Ins, f: &mut dyn FnMut(&mut Opd)) {
    use Ins::*;
    match i {
        Bin { a, b, .. } | ICmp { a, b, .. } | FCmp { a, b, .. } | Shuffle { a, b, .. } => { f(a); f(b) },
        FNeg { a, .. } | Cast { a, .. } | ExtractValue { a, .. } | Copy { a, .. } => f(a),
        Select { c, a, b, .. } => { f(c); f(a); f(b) },
        Load { p, .. } => f(p),
        Store { v, p, .. } => { f(v); f(p) },
        Alloca { n, .. } => f(n),
        Gep { base, idx, .. } => { f(base); for (o, _, _) in idx { f(o) } },
        Call { f: g, args, .. } => { f(g); for (_, o) in args { f(o) } },
        CondBr { c, .. } => f(c),
        Switch { v, .. } => f(v),
        Ret { v } => if let Some((_, o)) = v { f(o) },
        InsertValue { a, v, .. } => { f(a); f(v) },
        ExtractElement { a, i, .. } => { f(a); f(i) },
        InsertElement { a, v, i, .. } => { f(a); f(v); f(i) },
        AtomicRmw { p, v, .. } => { f(p); f(v) },
        CmpXchg { p, c, n, .. } => { f(p); f(c); f(n) },
        Br { .. } | Unreachable | Nop | Unsupported(_) => {},
    }
}
