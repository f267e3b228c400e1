//! MTL counterpart of `gen`.
use crate::gen::*;
use crate::sym::*;
use nobject_rs::*;

pub struct Mtl { pub t: Txt, pub m: Vec<Material> }

/// Keywords of the colour statements: 0 Ka, 1 Kd, 2 Ks, 3 Ke, 4 Tf.
pub const COLORS: [&str; 5] = ["Ka", "Kd", "Ks", "Ke", "Tf"];
/// Keywords of the map statements; the first three have colour correction.
pub const MAPS: [&str; 8] = ["map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal"];
pub const OPTS_CC: [&str; 9] = ["-blendu", "-blendv", "-clamp", "-mm", "-o", "-s", "-t", "-texres", "-cc"];
pub const OPTS_NC: [&str; 9] = ["-blendu", "-blendv", "-clamp", "-mm", "-o", "-s", "-t", "-texres", "-imfchan"];

/// The options of a map, common to both kinds.
#[derive(Default, Clone)]
pub struct Opts {
    pub file: String, pub bu: Option<bool>, pub bv: Option<bool>, pub cl: Option<bool>, pub mm: Option<(f32, f32)>,
    pub o: Option<(f32, Option<f32>, Option<f32>)>, pub s: Option<(f32, Option<f32>, Option<f32>)>, pub t: Option<(f32, Option<f32>, Option<f32>)>,
    pub res: Option<i32>, pub cc: Option<bool>, pub imf: Option<String>, pub bm: Option<f32>, pub ty: Option<String>,
}
impl Opts {
    pub fn cc(&self) -> ColorCorrectedMap {
        ColorCorrectedMap { file_name: self.file.clone(), blend_u: self.bu, blend_v: self.bv, color_correct: self.cc, clamp: self.cl, texture_range: self.mm, offset: self.o, scale: self.s, turbulance: self.t, texture_res: self.res }
    }
    pub fn nc(&self) -> NonColorCorrectedMap {
        NonColorCorrectedMap { file_name: self.file.clone(), blend_u: self.bu, blend_v: self.bv, clamp: self.cl, imf_chan: self.imf.clone(), texture_range: self.mm, offset: self.o, scale: self.s, turbulance: self.t, texture_res: self.res }
    }
}

impl Mtl {
    pub fn new() -> Self { Mtl { t: Txt::new(), m: vec![] } }
    pub fn last(&mut self) -> &mut Material { let n = self.m.len(); &mut self.m[n - 1] }
    pub fn newmtl(&mut self, name: &str) {
        self.t.kw("newmtl"); self.t.sp(); self.t.s(name); self.t.nl();
        self.m.push(Material { name: name.to_string(), ..Default::default() });
    }
    pub fn set_color(&mut self, which: usize, c: ColorType) {
        let m = self.last();
        match which { 0 => m.ambient = Some(c), 1 => m.diffuse = Some(c), 2 => m.specular = Some(c), 3 => m.emissive_coefficient = Some(c), _ => m.transmission_factor = Some(c) }
    }
    pub fn n(&mut self, f: Form) -> f32 { self.t.sp(); num(&mut self.t, f) }
    pub fn rgb(&mut self, which: usize, f: &[Form]) {
        self.t.kw(COLORS[which]);
        let (a, b, c) = (self.n(f[0]), self.n(f[1 % f.len()]), self.n(f[2 % f.len()]));
        self.t.nl();
        self.set_color(which, ColorType::Rgb(a, b, c));
    }
    pub fn xyz(&mut self, which: usize, n: usize, f: &[Form]) {
        self.t.kw(COLORS[which]); self.t.sp(); self.t.s("xyz");
        let a = self.n(f[0]);
        let b = if n > 1 { self.n(f[1 % f.len()]) } else { a };
        let c = if n > 2 { self.n(f[2 % f.len()]) } else { a };
        self.t.nl();
        self.set_color(which, ColorType::CieXyz(a, b, c));
    }
    pub fn spectral(&mut self, which: usize, file: &str, factor: Option<Form>) {
        self.t.kw(COLORS[which]); self.t.sp(); self.t.s("spectral"); self.t.sp(); self.t.s(file);
        let k = match factor { Some(f) => self.n(f), None => 1.0 };
        self.t.nl();
        self.set_color(which, ColorType::Spectral(file.to_string(), k));
    }
    /// 0 Ns, 1 Tr, 2 sharpness, 3 Ni, 4 d, 5 d -halo
    pub fn scalar(&mut self, which: usize, f: Form) {
        self.t.kw(["Ns", "Tr", "sharpness", "Ni", "d", "d"][which]);
        if which == 5 { self.t.sp(); self.t.s("-halo"); }
        let v = self.n(f);
        self.t.nl();
        let m = self.last();
        match which {
            0 => m.specular_exponent = Some(v), 1 => m.transparancy = Some(v), 2 => m.sharpness = Some(v), 3 => m.index_of_refraction = Some(v),
            4 => m.disolve = Some(DisolveType::Alpha(v)), _ => m.disolve = Some(DisolveType::Halo(v)),
        }
    }
    pub fn illum(&mut self, nd: u32) {
        self.t.kw("illum"); self.t.sp();
        let v = int(&mut self.t, false, nd);
        self.t.nl();
        self.last().illumination_mode = Some(v as u32);
    }
    pub fn aat(&mut self, on: bool) { self.t.kw("map_aat"); self.t.sp(); self.t.s(if on { "on" } else { "off" }); self.t.nl(); self.last().anti_alias_map = Some(on); }
    fn onoff(&mut self) -> bool { self.t.sp(); let on = choose(2) == 1; self.t.s(if on { "on" } else { "off" }); on }
    fn upto3(&mut self, f: Form) -> (f32, Option<f32>, Option<f32>) {
        let n = choose(3);
        let a = self.n(f);
        let b = if n > 0 { Some(self.n(f)) } else { None };
        let c = if n > 1 { Some(self.n(f)) } else { None };
        (a, b, c)
    }
    /// writes one option with its values
    pub fn opt(&mut self, x: &mut Opts, name: &str, f: Form) {
        self.t.sp(); self.t.s(name);
        match name {
            "-blendu" => x.bu = Some(self.onoff()),
            "-blendv" => x.bv = Some(self.onoff()),
            "-clamp" => x.cl = Some(self.onoff()),
            "-cc" => x.cc = Some(self.onoff()),
            "-mm" => { let a = self.n(f); let b = self.n(f); x.mm = Some((a, b)); },
            "-o" => x.o = Some(self.upto3(f)),
            "-s" => x.s = Some(self.upto3(f)),
            "-t" => x.t = Some(self.upto3(f)),
            "-texres" => { self.t.sp(); x.res = Some(int(&mut self.t, false, 2)); },
            "-imfchan" => { self.t.sp(); let c = byte_set(b"rgbmlz"); self.t.c(c); x.imf = Some((c as char).to_string()); },
            "-bm" => x.bm = Some(self.n(f)),
            _ => { self.t.sp(); let w = ["sphere", "cube_top", "cube_left"][choose(3) as usize]; self.t.s(w); x.ty = Some(w.to_string()); },
        }
    }
    pub fn file(&mut self, x: &mut Opts, name: &str) { self.t.sp(); self.t.s(name); x.file = name.to_string(); }
    pub fn set_map(&mut self, which: usize, x: &Opts) {
        let m = self.last();
        match which {
            0 => m.texture_map_ambient = Some(x.cc()), 1 => m.texture_map_diffuse = Some(x.cc()), 2 => m.texture_map_specular = Some(x.cc()),
            3 => m.shininess_map = Some(x.nc()), 4 => m.disolve_map = Some(x.nc()), 5 | 6 => m.displacement_map = Some(x.nc()), _ => m.decal = Some(x.nc()),
        }
    }
    pub fn map(&mut self, which: usize, opts: &[&str], file: &str, f: Form) {
        self.t.kw(MAPS[which]);
        let mut x = Opts::default();
        for o in opts { self.opt(&mut x, o, f); }
        self.file(&mut x, file);
        self.t.nl();
        self.set_map(which, &x);
    }
    pub fn bump(&mut self, opts: &[&str], file: &str, f: Form) {
        self.t.kw("bump");
        let mut x = Opts::default();
        for o in opts { self.opt(&mut x, o, f); }
        self.file(&mut x, file);
        self.t.nl();
        self.last().bump_map = Some(BumpMap { bump_multiplier: x.bm, map_settings: Some(x.nc()) });
    }
    pub fn refl(&mut self, opts: &[&str], file: &str, f: Form) {
        self.t.kw("refl");
        let mut x = Opts::default();
        for o in opts { self.opt(&mut x, o, f); }
        self.file(&mut x, file);
        self.t.nl();
        self.last().reflection_map = Some(ReflectionMap { reflection_type: x.ty.clone().unwrap_or_default(), map_settings: Some(x.cc()) });
    }
    pub fn comment(&mut self, c: &str) { self.t.kw("#"); self.t.s(c); self.t.nl(); }
    pub fn blank(&mut self) { self.t.nl(); }
    pub fn load(&self) -> Vec<Material> { match load_mtl(self.t.str()) { Ok(m) => m, Err(_) => fail(2) } }
}

fn eqt(a: Option<(f32, Option<f32>, Option<f32>)>, b: Option<(f32, Option<f32>, Option<f32>)>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => eqf(a.0, b.0) && eqof(a.1, b.1) && eqof(a.2, b.2), _ => false }
}
fn ot(a: &Option<(f32, Option<f32>, Option<f32>)>) { match a { None => obs(1 << 40), Some(a) => { obs(a.0.to_bits() as u64); obs(o32(a.1)); obs(o32(a.2)); } } }
fn ob(a: Option<bool>) -> u64 { match a { None => 2, Some(b) => b as u64 } }
fn eqmm(a: Option<(f32, f32)>, b: Option<(f32, f32)>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => eqf(a.0, b.0) && eqf(a.1, b.1), _ => false } }

pub fn cmp_color(a: &Option<ColorType>, b: &Option<ColorType>, code: u32) {
    match (a, b) {
        (None, None) => obs(0),
        (Some(ColorType::Rgb(p, q, r)), Some(ColorType::Rgb(x, y, z))) | (Some(ColorType::CieXyz(p, q, r)), Some(ColorType::CieXyz(x, y, z))) => {
            obs(x.to_bits() as u64); obs(y.to_bits() as u64); obs(z.to_bits() as u64);
            if !eqf(*p, *x) { fail(code + 1) }
            if !eqf(*q, *y) { fail(code + 2) }
            if !eqf(*r, *z) { fail(code + 3) }
        },
        (Some(ColorType::Spectral(n, k)), Some(ColorType::Spectral(m, l))) => {
            ostr(m); obs(l.to_bits() as u64);
            if n != m { fail(code + 4) }
            if !eqf(*k, *l) { fail(code + 5) }
        },
        _ => fail(code),
    }
}
pub fn cmp_cc(a: &Option<ColorCorrectedMap>, b: &Option<ColorCorrectedMap>, code: u32) {
    match (a, b) {
        (None, None) => obs(0),
        (Some(a), Some(b)) => {
            ostr(&b.file_name); obs(ob(b.blend_u)); obs(ob(b.blend_v)); obs(ob(b.color_correct)); obs(ob(b.clamp)); ot(&b.offset); ot(&b.scale); if let Some((p, q)) = b.texture_range { obs(p.to_bits() as u64); obs(q.to_bits() as u64) } ot(&b.turbulance); obs(oi(b.texture_res));
            if a.file_name != b.file_name { fail(code + 1) }
            if a.blend_u != b.blend_u { fail(code + 2) }
            if a.blend_v != b.blend_v { fail(code + 3) }
            if a.color_correct != b.color_correct { fail(code + 4) }
            if a.clamp != b.clamp { fail(code + 5) }
            if !eqmm(a.texture_range, b.texture_range) { fail(code + 6) }
            if !eqt(a.offset, b.offset) { fail(code + 7) }
            if !eqt(a.scale, b.scale) { fail(code + 8) }
            if !eqt(a.turbulance, b.turbulance) { fail(code + 9) }
            if a.texture_res != b.texture_res { fail(code + 10) }
        },
        _ => fail(code),
    }
}
pub fn cmp_nc(a: &Option<NonColorCorrectedMap>, b: &Option<NonColorCorrectedMap>, code: u32) {
    match (a, b) {
        (None, None) => obs(0),
        (Some(a), Some(b)) => {
            ostr(&b.file_name); obs(ob(b.blend_u)); obs(ob(b.blend_v)); obs(ob(b.clamp)); ot(&b.offset); ot(&b.scale); if let Some((p, q)) = b.texture_range { obs(p.to_bits() as u64); obs(q.to_bits() as u64) } ot(&b.turbulance); obs(oi(b.texture_res));
            if a.file_name != b.file_name { fail(code + 1) }
            if a.blend_u != b.blend_u { fail(code + 2) }
            if a.blend_v != b.blend_v { fail(code + 3) }
            if a.imf_chan != b.imf_chan { fail(code + 4) }
            if a.clamp != b.clamp { fail(code + 5) }
            if !eqmm(a.texture_range, b.texture_range) { fail(code + 6) }
            if !eqt(a.offset, b.offset) { fail(code + 7) }
            if !eqt(a.scale, b.scale) { fail(code + 8) }
            if !eqt(a.turbulance, b.turbulance) { fail(code + 9) }
            if a.texture_res != b.texture_res { fail(code + 10) }
        },
        _ => fail(code),
    }
}
pub fn cmp_colors(a: &Material, b: &Material) {
    cmp_color(&a.ambient, &b.ambient, 100);
    cmp_color(&a.diffuse, &b.diffuse, 110);
    cmp_color(&a.specular, &b.specular, 120);
    cmp_color(&a.emissive_coefficient, &b.emissive_coefficient, 130);
    cmp_color(&a.transmission_factor, &b.transmission_factor, 140);
}
pub fn cmp_scalars(a: &Material, b: &Material) {
    obs(o32(b.specular_exponent)); obs(o32(b.transparancy)); obs(o32(b.sharpness)); obs(o32(b.index_of_refraction));
    if !eqof(a.specular_exponent, b.specular_exponent) { fail(150) }
    if !eqof(a.transparancy, b.transparancy) { fail(151) }
    if !eqof(a.sharpness, b.sharpness) { fail(152) }
    if !eqof(a.index_of_refraction, b.index_of_refraction) { fail(153) }
    match (a.disolve, b.disolve) {
        (None, None) => {},
        (Some(DisolveType::Alpha(x)), Some(DisolveType::Alpha(y))) | (Some(DisolveType::Halo(x)), Some(DisolveType::Halo(y))) => { obs(y.to_bits() as u64); if !eqf(x, y) { fail(154) } },
        _ => fail(155),
    }
    match b.illumination_mode { Some(i) => obs(i as u64), None => obs(1 << 40) }
    if a.illumination_mode != b.illumination_mode { fail(156) }
    if a.anti_alias_map != b.anti_alias_map { fail(157) }
}
pub fn cmp_maps(a: &Material, b: &Material) {
    cmp_cc(&a.texture_map_ambient, &b.texture_map_ambient, 200);
    cmp_cc(&a.texture_map_diffuse, &b.texture_map_diffuse, 220);
    cmp_cc(&a.texture_map_specular, &b.texture_map_specular, 240);
    cmp_nc(&a.shininess_map, &b.shininess_map, 260);
    cmp_nc(&a.disolve_map, &b.disolve_map, 280);
    cmp_nc(&a.displacement_map, &b.displacement_map, 300);
    cmp_nc(&a.decal, &b.decal, 320);
}
pub fn cmp_bump_refl(a: &Material, b: &Material) {
    match (&a.bump_map, &b.bump_map) {
        (None, None) => {},
        (Some(x), Some(y)) => { obs(o32(y.bump_multiplier)); if !eqof(x.bump_multiplier, y.bump_multiplier) { fail(341) } cmp_nc(&x.map_settings, &y.map_settings, 342); },
        _ => fail(340),
    }
    match (&a.reflection_map, &b.reflection_map) {
        (None, None) => {},
        (Some(x), Some(y)) => { ostr(&y.reflection_type); if x.reflection_type != y.reflection_type { fail(361) } cmp_cc(&x.map_settings, &y.map_settings, 362); },
        _ => fail(360),
    }
}
pub fn cmp_material(a: &Material, b: &Material) {
    ostr(&b.name);
    if a.name != b.name { fail(90) }
    cmp_colors(a, b);
    cmp_scalars(a, b);
    cmp_maps(a, b);
    cmp_bump_refl(a, b);
}
pub fn cmp_count(a: &[Material], b: &[Material]) { obs(b.len() as u64); if a.len() != b.len() { fail(91) } }
pub fn cmp_names(a: &[Material], b: &[Material]) { cmp_count(a, b); for i in 0..a.len() { ostr(&b[i].name); if a[i].name != b[i].name { fail(90) } } }
pub fn cmp_materials(a: &[Material], b: &[Material]) { cmp_count(a, b); for i in 0..a.len() { cmp_material(&a[i], &b[i]); } }
