//! Texts with symbolic parts, and the data that loading them has to give. Everything here is
//! written from the meaning of the two file formats; nothing is taken from the loader.
use crate::sym::*;
use nobject_rs::*;

/// A text under construction.
pub struct Txt { pub b: Vec<u8>, pub lay: bool, pub crlf: bool }

impl Txt {
    pub fn new() -> Self { Txt { b: Vec::with_capacity(256), lay: false, crlf: false } }
    pub fn s(&mut self, s: &str) -> &mut Self { self.b.extend_from_slice(s.as_bytes()); self }
    pub fn c(&mut self, b: u8) -> &mut Self { self.b.push(b); self }
    /// blank between two parts of a statement
    pub fn sp(&mut self) -> &mut Self {
        if self.lay { match choose(4) { 0 => self.s(" "), 1 => self.s("\t"), 2 => self.s("  "), _ => self.s(" \t ") } } else { self.s(" ") }
    }
    /// before a statement
    pub fn begin(&mut self) -> &mut Self {
        if self.lay { match choose(3) { 0 => {}, 1 => { self.s(" \t"); }, _ => { self.s("\t"); } } }
        self
    }
    /// end of a statement
    pub fn nl(&mut self) -> &mut Self {
        if self.lay { match choose(3) { 0 => {}, 1 => { self.s(" "); }, _ => { self.s("\t "); } } }
        if self.crlf { self.s("\r\n") } else { self.s("\n") }
    }
    pub fn kw(&mut self, k: &str) -> &mut Self { self.begin(); self.s(k) }
    /// ASCII text
    pub fn str(&self) -> &str { let s = unsafe { std::str::from_utf8_unchecked(&self.b) }; doc(s); s }
    /// text with free bytes: only valid UTF-8 is a text
    pub fn utf8(&self) -> &str {
        match std::str::from_utf8(&self.b) { Ok(s) => { doc(s); s }, Err(_) => { assume(false); "" } }
    }
    pub fn digit(&mut self) -> u64 { let d = byte_in(b'0', b'9'); self.c(d); (d - b'0') as u64 }
    pub fn digits(&mut self, n: u32) -> u64 { let mut m = 0; for _ in 0..n { m = m * 10 + self.digit(); } m }
}

/// The forms of a number: sign, digits before the point, point, digits after it, exponent.
#[derive(Clone, Copy)]
pub struct Form { pub sign: u8, pub int: u32, pub dot: bool, pub frac: u32, pub exp: u8, pub esign: u8, pub ed: u32 }
pub const fn form(sign: u8, int: u32, dot: bool, frac: u32) -> Form { Form { sign, int, dot, frac, exp: 0, esign: 0, ed: 0 } }
pub const fn eform(sign: u8, int: u32, dot: bool, frac: u32, exp: u8, esign: u8, ed: u32) -> Form { Form { sign, int, dot, frac, exp, esign, ed } }
pub const I1: Form = form(0, 1, false, 0);
pub const I2: Form = form(0, 2, false, 0);
pub const NI1: Form = form(b'-', 1, false, 0);
pub const F11: Form = form(0, 1, true, 1);
pub const NF12: Form = form(b'-', 1, true, 2);

/// writes a number with free digits; its value
pub fn num(t: &mut Txt, f: Form) -> f32 {
    if f.sign != 0 { t.c(f.sign); }
    let mut m = 0u64;
    for _ in 0..f.int { m = m * 10 + t.digit(); }
    if f.dot { t.c(b'.'); }
    for _ in 0..f.frac { m = m * 10 + t.digit(); }
    let mut e = 0i32;
    if f.exp != 0 {
        t.c(f.exp);
        if f.esign != 0 { t.c(f.esign); }
        for _ in 0..f.ed { e = e * 10 + t.digit() as i32; }
        if f.esign == b'-' { e = -e; }
    }
    let v = f32_dec(m, f.int + f.frac, e - f.frac as i32);
    if f.sign == b'-' { -v } else { v }
}
/// writes a whole number with free digits; its value
pub fn int(t: &mut Txt, neg: bool, n: u32) -> i32 {
    if neg { t.c(b'-'); }
    let v = t.digits(n) as i64;
    (if neg { -v } else { v }) as i32
}

pub fn eqf(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || a == b }
pub fn eqof(a: Option<f32>, b: Option<f32>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => eqf(a, b), _ => false }
}
pub fn o32(v: Option<f32>) -> u64 { match v { None => 1 << 40, Some(v) => v.to_bits() as u64 } }
pub fn oi(v: Option<i32>) -> u64 { match v { None => 1 << 40, Some(v) => v as u32 as u64 } }
pub fn ostr(s: &str) { obs(s.len() as u64); for b in s.bytes() { obs(b as u64); } }

/// What an OBJ text means.
pub struct Obj {
    pub t: Txt,
    pub v: Vec<Vertex>, pub n: Vec<Normal>, pub tc: Vec<Texture>,
    pub groups: Vec<(String, Group)>,
    pub faces: Vec<(String, Vec<Face>)>, pub lines: Vec<(String, Vec<Line>)>, pub points: Vec<(String, Vec<Point>)>,
    pub mlibs: Vec<String>, pub tlibs: Vec<String>, pub shadow: Option<String>, pub trace: Option<String>,
    pub cur: usize, pub smooth: i32,
}
fn entry<T>(l: &mut Vec<(String, Vec<T>)>, name: &str, x: T) {
    for (n, v) in l.iter_mut() { if n.as_str() == name { v.push(x); return; } }
    l.push((name.to_string(), vec![x]));
}
/// forms of a face element
#[derive(Clone, Copy, PartialEq)]
pub enum El { V, VT, VN, VTN }
pub const ELS: [El; 4] = [El::V, El::VT, El::VN, El::VTN];

impl Obj {
    pub fn new() -> Self {
        Obj { t: Txt::new(), v: vec![], n: vec![], tc: vec![], groups: vec![("default".to_string(), Group::default())], faces: vec![], lines: vec![], points: vec![], mlibs: vec![], tlibs: vec![], shadow: None, trace: None, cur: 0, smooth: 0 }
    }
    fn nums(&mut self, n: usize, f: &[Form]) -> [f32; 4] {
        let mut r = [0.0; 4];
        for i in 0..n { self.t.sp(); r[i] = num(&mut self.t, f[i % f.len()]); }
        r
    }
    pub fn v(&mut self, w: bool, f: &[Form]) {
        self.t.kw("v");
        let r = self.nums(if w { 4 } else { 3 }, f);
        self.v.push(Vertex { x: r[0], y: r[1], z: r[2], w: if w { Some(r[3]) } else { None } });
        self.t.nl();
    }
    pub fn vn(&mut self, f: &[Form]) {
        self.t.kw("vn");
        let r = self.nums(3, f);
        self.n.push(Normal { x: r[0], y: r[1], z: r[2] });
        self.t.nl();
    }
    pub fn vt(&mut self, n: usize, f: &[Form]) {
        self.t.kw("vt");
        let r = self.nums(n, f);
        self.tc.push(Texture { u: r[0], v: if n > 1 { Some(r[1]) } else { None }, w: if n > 2 { Some(r[2]) } else { None } });
        self.t.nl();
    }
    fn gname(&self) -> String { self.groups[self.cur].0.clone() }
    /// index with `nd` free digits
    fn idx(&mut self, neg: bool, nd: u32) -> i32 { int(&mut self.t, neg, nd) }
    pub fn f_with(&mut self, els: &[El], ix: &dyn Fn(&mut Txt, usize) -> i32) {
        self.t.kw("f");
        let mut elements = vec![];
        let mut k = 0;
        for e in els {
            self.t.sp();
            let mut x = FaceElement { vertex_index: ix(&mut self.t, k), texture_index: None, normal_index: None };
            k += 1;
            match e {
                El::V => {},
                El::VT => { self.t.c(b'/'); x.texture_index = Some(ix(&mut self.t, k)); k += 1; },
                El::VN => { self.t.s("//"); x.normal_index = Some(ix(&mut self.t, k)); k += 1; },
                El::VTN => {
                    self.t.c(b'/'); x.texture_index = Some(ix(&mut self.t, k)); k += 1;
                    self.t.c(b'/'); x.normal_index = Some(ix(&mut self.t, k)); k += 1;
                },
            }
            elements.push(x);
        }
        let face = Face { elements, smoothing_group: self.smooth };
        let g = self.gname();
        entry(&mut self.faces, &g, face);
        self.t.nl();
    }
    pub fn f(&mut self, els: &[El], neg: bool, nd: u32) { self.f_with(els, &|t, _| int(t, neg, nd)) }
    pub fn l_with(&mut self, els: &[bool], ix: &dyn Fn(&mut Txt, usize) -> i32) {
        self.t.kw("l");
        let mut elements = vec![];
        let mut k = 0;
        for e in els {
            self.t.sp();
            let mut x = LineElement { vertex_index: ix(&mut self.t, k), texture_index: None };
            k += 1;
            if *e { self.t.c(b'/'); x.texture_index = Some(ix(&mut self.t, k)); k += 1; }
            elements.push(x);
        }
        let g = self.gname();
        entry(&mut self.lines, &g, Line { elements });
        self.t.nl();
    }
    pub fn l(&mut self, els: &[bool], neg: bool, nd: u32) { self.l_with(els, &|t, _| int(t, neg, nd)) }
    pub fn p_with(&mut self, n: usize, ix: &dyn Fn(&mut Txt, usize) -> i32) {
        self.t.kw("p");
        let mut elements = vec![];
        for k in 0..n { self.t.sp(); elements.push(ix(&mut self.t, k)); }
        let g = self.gname();
        entry(&mut self.points, &g, Point { elements });
        self.t.nl();
    }
    pub fn p(&mut self, n: usize, neg: bool, nd: u32) { self.p_with(n, &|t, _| int(t, neg, nd)) }
    pub fn arg(&mut self, kw: &str, name: &str) { self.t.kw(kw); self.t.sp(); self.t.s(name); self.t.nl(); }
    pub fn g(&mut self, name: &str) {
        self.arg("g", name);
        self.set_group(name)
    }
    pub fn push_face(&mut self, f: Face) { let g = self.gname(); entry(&mut self.faces, &g, f); }
    pub fn push_line(&mut self, f: Line) { let g = self.gname(); entry(&mut self.lines, &g, f); }
    pub fn push_point(&mut self, f: Point) { let g = self.gname(); entry(&mut self.points, &g, f); }
    pub fn set_group(&mut self, name: &str) {
        for i in 0..self.groups.len() { if self.groups[i].0.as_str() == name { self.cur = i; return; } }
        self.groups.push((name.to_string(), Group::default()));
        self.cur = self.groups.len() - 1;
    }
    pub fn grp(&mut self) -> &mut Group { let c = self.cur; &mut self.groups[c].1 }
    pub fn o(&mut self, name: &str) { self.arg("o", name); }
    pub fn usemtl(&mut self, name: &str) { self.arg("usemtl", name); self.grp().material_name = name.to_string(); }
    pub fn usemap(&mut self, name: &str) { self.arg("usemap", name); self.grp().texture_map = Some(name.to_string()); }
    pub fn mtllib(&mut self, name: &str) { self.arg("mtllib", name); self.mlibs.push(name.to_string()); }
    pub fn maplib(&mut self, name: &str) { self.arg("maplib", name); self.tlibs.push(name.to_string()); }
    pub fn shadow(&mut self, name: &str) { self.arg("shadow_obj", name); self.shadow = Some(name.to_string()); }
    pub fn trace(&mut self, name: &str) { self.arg("trace_obj", name); self.trace = Some(name.to_string()); }
    pub fn s(&mut self, nd: u32) { self.t.kw("s"); self.t.sp(); self.smooth = self.idx(false, nd); self.t.nl(); }
    pub fn s_off(&mut self) { self.arg("s", "off"); self.smooth = 0; }
    pub fn bevel(&mut self, on: bool) { self.arg("bevel", if on { "on" } else { "off" }); self.grp().bevel = on; }
    pub fn c_interp(&mut self, on: bool) { self.arg("c_interp", if on { "on" } else { "off" }); self.grp().c_interp = on; }
    pub fn d_interp(&mut self, on: bool) { self.arg("d_interp", if on { "on" } else { "off" }); self.grp().d_interp = on; }
    pub fn lod(&mut self, nd: u32) { self.t.kw("lod"); self.t.sp(); let v = self.idx(false, nd); self.grp().lod = v as u8; self.t.nl(); }
    pub fn comment(&mut self, c: &str) { self.t.kw("#"); self.t.s(c); self.t.nl(); }
    pub fn blank(&mut self) { self.t.nl(); }

    pub fn load(&self) -> Model {
        match load_obj(self.t.str()) { Ok(m) => m, Err(_) => fail(1) }
    }
}

pub fn cmp_vertices(e: &[Vertex], m: &[Vertex]) {
    obs(m.len() as u64);
    if e.len() != m.len() { fail(10) }
    for i in 0..e.len() {
        let (a, b) = (&e[i], &m[i]);
        obs(b.x.to_bits() as u64); obs(b.y.to_bits() as u64); obs(b.z.to_bits() as u64); obs(o32(b.w));
        if !eqf(a.x, b.x) { fail(11) }
        if !eqf(a.y, b.y) { fail(12) }
        if !eqf(a.z, b.z) { fail(13) }
        if !eqof(a.w, b.w) { fail(14) }
    }
}
pub fn cmp_normals(e: &[Normal], m: &[Normal]) {
    obs(m.len() as u64);
    if e.len() != m.len() { fail(20) }
    for i in 0..e.len() {
        let (a, b) = (&e[i], &m[i]);
        obs(b.x.to_bits() as u64); obs(b.y.to_bits() as u64); obs(b.z.to_bits() as u64);
        if !eqf(a.x, b.x) { fail(21) }
        if !eqf(a.y, b.y) { fail(22) }
        if !eqf(a.z, b.z) { fail(23) }
    }
}
pub fn cmp_textures(e: &[Texture], m: &[Texture]) {
    obs(m.len() as u64);
    if e.len() != m.len() { fail(30) }
    for i in 0..e.len() {
        let (a, b) = (&e[i], &m[i]);
        obs(b.u.to_bits() as u64); obs(o32(b.v)); obs(o32(b.w));
        if !eqf(a.u, b.u) { fail(31) }
        if !eqof(a.v, b.v) { fail(32) }
        if !eqof(a.w, b.w) { fail(33) }
    }
}
fn cmp_face(a: &Face, b: &Face, smoothing: bool) {
    obs(b.elements.len() as u64);
    if a.elements.len() != b.elements.len() { fail(41) }
    for (x, y) in a.elements.iter().zip(b.elements.iter()) {
        obs(y.vertex_index as u32 as u64); obs(oi(y.texture_index)); obs(oi(y.normal_index));
        if x.vertex_index != y.vertex_index { fail(42) }
        if x.texture_index != y.texture_index { fail(43) }
        if x.normal_index != y.normal_index { fail(44) }
    }
    if smoothing {
        obs(b.smoothing_group as u32 as u64);
        if a.smoothing_group != b.smoothing_group { fail(45) }
    }
}
fn lookup<'a, T>(m: &'a std::collections::HashMap<String, Vec<T>>, name: &str) -> &'a [T] { match m.get(name) { Some(v) => v, None => &[] } }
/// elements of every group, and nothing under any other name
fn cmp_map<T>(e: &[(String, Vec<T>)], m: &std::collections::HashMap<String, Vec<T>>, code: u32, f: &dyn Fn(&T, &T)) {
    for (name, l) in e {
        let got = lookup(m, name);
        obs(got.len() as u64);
        if got.len() != l.len() { fail(code) }
        for (a, b) in l.iter().zip(got.iter()) { f(a, b); }
    }
    for (name, l) in m.iter() { if !l.is_empty() && !e.iter().any(|(n, _)| n == name) { fail(code + 1) } }
}
pub fn cmp_faces(o: &Obj, m: &Model, smoothing: bool) { cmp_map(&o.faces, &m.faces, 50, &|a, b| cmp_face(a, b, smoothing)) }
pub fn cmp_lines(o: &Obj, m: &Model) {
    cmp_map(&o.lines, &m.lines, 52, &|a: &Line, b: &Line| {
        obs(b.elements.len() as u64);
        if a.elements.len() != b.elements.len() { fail(54) }
        for (x, y) in a.elements.iter().zip(b.elements.iter()) {
            obs(y.vertex_index as u32 as u64); obs(oi(y.texture_index));
            if x.vertex_index != y.vertex_index { fail(55) }
            if x.texture_index != y.texture_index { fail(56) }
        }
    })
}
pub fn cmp_points(o: &Obj, m: &Model) {
    cmp_map(&o.points, &m.points, 57, &|a: &Point, b: &Point| {
        obs(b.elements.len() as u64);
        if a.elements.len() != b.elements.len() { fail(59) }
        for (x, y) in a.elements.iter().zip(b.elements.iter()) { obs(*y as u32 as u64); if x != y { fail(60) } }
    })
}
pub fn cmp_group_set(o: &Obj, m: &Model) {
    obs(m.groups.len() as u64);
    if m.groups.len() != o.groups.len() { fail(70) }
    for (n, _) in &o.groups { if !m.groups.contains_key(n) { fail(71) } }
}
fn got<'a>(m: &'a Model, n: &str) -> &'a Group { match m.groups.get(n) { Some(g) => g, None => fail(71) } }
pub fn cmp_group_materials(o: &Obj, m: &Model) {
    for (n, g) in &o.groups {
        let h = got(m, n);
        ostr(&h.material_name);
        if h.material_name != g.material_name { fail(72) }
        match &h.texture_map { Some(s) => ostr(s), None => obs(1 << 40) }
        if h.texture_map != g.texture_map { fail(73) }
    }
}
pub fn cmp_group_display(o: &Obj, m: &Model) {
    for (n, g) in &o.groups {
        let h = got(m, n);
        obs(h.bevel as u64 | (h.c_interp as u64) << 1 | (h.d_interp as u64) << 2 | (h.lod as u64) << 3);
        if h.bevel != g.bevel { fail(74) }
        if h.c_interp != g.c_interp { fail(75) }
        if h.d_interp != g.d_interp { fail(76) }
        if h.lod != g.lod { fail(77) }
    }
    if m.shadow_obj != o.shadow { fail(78) }
    if m.trace_obj != o.trace { fail(79) }
}
fn cmp_names(e: &[String], m: &[String], code: u32) {
    obs(m.len() as u64);
    if e.len() != m.len() { fail(code) }
    for (a, b) in e.iter().zip(m.iter()) { ostr(b); if a != b { fail(code + 1) } }
}
pub fn cmp_libs(o: &Obj, m: &Model) { cmp_names(&o.mlibs, &m.material_libs, 80); cmp_names(&o.tlibs, &m.texture_libs, 82); }
pub fn cmp_all(o: &Obj, m: &Model) {
    cmp_vertices(&o.v, &m.vertices);
    cmp_normals(&o.n, &m.normals);
    cmp_textures(&o.tc, &m.textures);
    cmp_faces(o, m, true);
    cmp_lines(o, m);
    cmp_points(o, m);
    cmp_group_set(o, m);
    cmp_group_materials(o, m);
    cmp_group_display(o, m);
    cmp_libs(o, m);
}
