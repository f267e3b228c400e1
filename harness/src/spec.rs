//! What a text means, line by line, read off the two format descriptions. This is the oracle of
//! the harnesses whose texts have free bytes anywhere; it shares no code with the loader.
//! `Skip`: the properties leave the meaning of such a text open.
use crate::gen::*;
use crate::genm::*;
use crate::sym::*;
use nobject_rs::*;

pub enum Bad { Err, Skip }
pub type R<T> = Result<T, Bad>;

fn blank(b: u8) -> bool { b == b' ' || b == b'\t' }
fn digit(b: u8) -> bool { b.wrapping_sub(b'0') < 10 }
/// the lines of a text; a CR that does not belong to a line end is left open
pub fn lines(b: &[u8]) -> R<Vec<&[u8]>> {
    let mut v = vec![];
    let (mut s, mut i) = (0, 0);
    while i < b.len() {
        if b[i] == b'\n' {
            let e = if i > s && b[i - 1] == b'\r' { i - 1 } else { i };
            v.push(trim(&b[s..e]));
            s = i + 1;
        } else if b[i] == b'\r' && !(i + 1 < b.len() && b[i + 1] == b'\n') { return Err(Bad::Skip); }
        i += 1;
    }
    v.push(trim(&b[s..]));
    Ok(v)
}
fn trim(b: &[u8]) -> &[u8] {
    let (mut s, mut e) = (0, b.len());
    while s < e && blank(b[s]) { s += 1; }
    while e > s && blank(b[e - 1]) { e -= 1; }
    &b[s..e]
}
pub fn words(b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if blank(b[i]) { i += 1; continue; }
        let s = i;
        while i < b.len() && !blank(b[i]) { i += 1; }
        v.push(&b[s..i]);
    }
    v
}
pub fn is(w: &[u8], k: &str) -> bool {
    let k = k.as_bytes();
    if w.len() != k.len() { return false; }
    let mut i = 0;
    while i < k.len() { if w[i].to_ascii_lowercase() != k[i].to_ascii_lowercase() { return false; } i += 1; }
    true
}
fn find(w: &[u8], l: &[&str]) -> Option<usize> { let mut i = 0; while i < l.len() { if is(w, l[i]) { return Some(i); } i += 1; } None }
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }

/// a number: its value, and the whole number it is if it is written as one
pub struct N { pub f: f32, pub i: Option<i64> }
/// None: not a number
pub fn number(w: &[u8]) -> Option<N> {
    let n = w.len();
    let mut i = 0;
    let neg = n > 0 && w[0] == b'-';
    if neg || (n > 0 && w[0] == b'+') { i = 1; }
    let (mut m, mut nd, mut frac) = (0u64, 0u32, 0i32);
    while i < n && digit(w[i]) { m = m * 10 + (w[i] - b'0') as u64; nd += 1; i += 1; }
    let mut whole = true;
    if i < n && w[i] == b'.' {
        whole = false;
        i += 1;
        while i < n && digit(w[i]) { m = m * 10 + (w[i] - b'0') as u64; nd += 1; frac += 1; i += 1; }
    }
    if nd == 0 { return None; }
    if nd > 18 { fail(9002) }
    let mut e = 0i32;
    if i < n && (w[i] == b'e' || w[i] == b'E') {
        whole = false;
        i += 1;
        let eneg = i < n && w[i] == b'-';
        if eneg || (i < n && w[i] == b'+') { i += 1; }
        if i == n { return None; }
        while i < n && digit(w[i]) { if e < 100000 { e = e * 10 + (w[i] - b'0') as i32; } i += 1; }
        if i > 0 && !digit(w[i - 1]) { return None; }
        if eneg { e = -e; }
    }
    if i != n { return None; }
    let v = f32_dec(m, nd, e - frac);
    Some(N { f: if neg { -v } else { v }, i: if whole { Some(if neg { -(m as i64) } else { m as i64 }) } else { None } })
}
fn real(w: &[u8]) -> R<f32> { match number(w) { Some(n) => Ok(n.f), None => Err(open(w)) } }
/// a word that is not what it should be; with a # in it, it may be a comment after the statement
fn open(w: &[u8]) -> Bad { if w.contains(&b'#') { Bad::Skip } else { Bad::Err } }
fn whole(w: &[u8]) -> R<i32> {
    match number(w) {
        Some(N { i: Some(i), .. }) => if i >= i32::MIN as i64 && i <= i32::MAX as i64 { Ok(i as i32) } else { Err(Bad::Skip) },
        _ => Err(open(w)),
    }
}
fn onoff(w: &[u8]) -> R<bool> { if is(w, "on") { Ok(true) } else if is(w, "off") { Ok(false) } else { Err(open(w)) } }
fn surplus(a: &[&[u8]], from: usize) -> R<()> {
    if a.len() <= from { return Ok(()); }
    for w in a { if w.contains(&b'#') { return Err(Bad::Skip); } }
    Err(Bad::Err)
}
fn need(a: &[&[u8]], n: usize) -> R<()> {
    if a.len() >= n { Ok(()) } else if a.iter().any(|w| w.contains(&b'#')) { Err(Bad::Skip) } else { Err(Bad::Err) }
}
/// the parts of a word between its slashes
fn slashes(w: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..w.len() { if w[i] == b'/' { v.push(&w[s..i]); s = i + 1; } }
    v.push(&w[s..]);
    v
}

const NAMED: [&str; 8] = ["g", "usemtl", "usemap", "mtllib", "maplib", "shadow_obj", "trace_obj", "o"];
const OTHER: [&str; 11] = ["v", "vn", "vt", "f", "l", "p", "s", "bevel", "c_interp", "d_interp", "lod"];

/// The worst of the lines: an open one leaves the text open, otherwise a wrong one makes it wrong.
pub fn obj(b: &[u8]) -> R<Obj> {
    let mut o = Obj::new();
    let mut wrong = false;
    for l in lines(b)? {
        match obj_line(&mut o, l) { Ok(()) => {}, Err(Bad::Skip) => return Err(Bad::Skip), Err(Bad::Err) => wrong = true }
    }
    if wrong { Err(Bad::Err) } else { Ok(o) }
}
fn obj_line(o: &mut Obj, l: &[u8]) -> R<()> {
    if l.is_empty() || l[0] == b'#' { return Ok(()); }
    let mut k = 0;
    while k < l.len() && !blank(l[k]) { k += 1; }
    let (kw, rest) = (&l[..k], trim(&l[k..]));
    if let Some(i) = find(kw, &NAMED) {
        if rest.is_empty() { return Err(Bad::Err); }
        if rest[0] == b'#' { return Err(Bad::Skip); }
        let name = text(rest);
        match i {
            0 => o.set_group(&name),
            1 => o.grp().material_name = name,
            2 => { if is(rest, "off") { return Err(Bad::Skip); } o.grp().texture_map = Some(name) },
            3 => o.mlibs.push(name),
            4 => o.tlibs.push(name),
            5 => o.shadow = Some(name),
            6 => o.trace = Some(name),
            _ => {},
        }
        return Ok(());
    }
    let k = match find(kw, &OTHER) { Some(k) => k, None => return Err(open(kw)) };
    let a = words(rest);
    match k {
        0 => {
            need(&a, 3)?; surplus(&a, 4)?;
            let (x, y, z) = (real(a[0])?, real(a[1])?, real(a[2])?);
            let w = if a.len() > 3 { Some(real(a[3])?) } else { None };
            o.v.push(Vertex { x, y, z, w });
        },
        1 => { need(&a, 3)?; surplus(&a, 3)?; o.n.push(Normal { x: real(a[0])?, y: real(a[1])?, z: real(a[2])? }); },
        2 => {
            need(&a, 1)?; surplus(&a, 3)?;
            let u = real(a[0])?;
            let v = if a.len() > 1 { Some(real(a[1])?) } else { None };
            let w = if a.len() > 2 { Some(real(a[2])?) } else { None };
            o.tc.push(Texture { u, v, w });
        },
        3 => {
            need(&a, 1)?;
            let mut elements = vec![];
            // an open word leaves the statement open, whatever the others are
            let mut wrong = false;
            for w in &a { match face_el(w) { Ok(e) => elements.push(e), Err(Bad::Skip) => return Err(Bad::Skip), _ => wrong = true } }
            if wrong { return Err(Bad::Err); }
            let f = Face { elements, smoothing_group: o.smooth };
            o.push_face(f);
        },
        4 => {
            need(&a, 1)?;
            let mut elements = vec![];
            let mut wrong = false;
            for w in &a { match line_el(w) { Ok(e) => elements.push(e), Err(Bad::Skip) => return Err(Bad::Skip), _ => wrong = true } }
            if wrong { return Err(Bad::Err); }
            o.push_line(Line { elements });
        },
        5 => {
            need(&a, 1)?;
            let mut elements = vec![];
            let mut wrong = false;
            for w in &a { match whole(w) { Ok(e) => elements.push(e), Err(Bad::Skip) => return Err(Bad::Skip), _ => wrong = true } }
            if wrong { return Err(Bad::Err); }
            o.push_point(Point { elements });
        },
        6 => {
            need(&a, 1)?; surplus(&a, 1)?;
            if is(a[0], "off") { o.smooth = 0 } else if is(a[0], "on") { return Err(Bad::Skip) } else { o.smooth = whole(a[0])? }
        },
        7 => { need(&a, 1)?; surplus(&a, 1)?; o.grp().bevel = onoff(a[0])? },
        8 => { need(&a, 1)?; surplus(&a, 1)?; o.grp().c_interp = onoff(a[0])? },
        9 => { need(&a, 1)?; surplus(&a, 1)?; o.grp().d_interp = onoff(a[0])? },
        _ => {
            need(&a, 1)?; surplus(&a, 1)?;
            let n = whole(a[0])?;
            if n < 0 || n > 100 { return Err(Bad::Err); }
            o.grp().lod = n as u8;
        },
    }
    Ok(())
}
/// a slash at an end of a word, or alone: whether it joins the words around it is left open
fn loose(w: &[u8]) -> bool { w[0] == b'/' || w[w.len() - 1] == b'/' }
fn face_el(w: &[u8]) -> R<FaceElement> {
    if loose(w) { return Err(Bad::Skip); }
    let p = slashes(w);
    match p.len() {
        1 => Ok(FaceElement { vertex_index: whole(p[0])?, texture_index: None, normal_index: None }),
        2 => Ok(FaceElement { vertex_index: whole(p[0])?, texture_index: Some(whole(p[1])?), normal_index: None }),
        3 if p[1].is_empty() => Ok(FaceElement { vertex_index: whole(p[0])?, texture_index: None, normal_index: Some(whole(p[2])?) }),
        3 => Ok(FaceElement { vertex_index: whole(p[0])?, texture_index: Some(whole(p[1])?), normal_index: Some(whole(p[2])?) }),
        _ => Err(open(w)),
    }
}
fn line_el(w: &[u8]) -> R<LineElement> {
    if loose(w) { return Err(Bad::Skip); }
    let p = slashes(w);
    match p.len() {
        1 => Ok(LineElement { vertex_index: whole(p[0])?, texture_index: None }),
        2 => Ok(LineElement { vertex_index: whole(p[0])?, texture_index: Some(whole(p[1])?) }),
        _ => Err(open(w)),
    }
}

const MKW: [&str; 39] = ["newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Tr", "sharpness", "Ni", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl", "xyz", "spectral", "-halo", "-type", "-texres", "-blendu", "-blendv", "-boost", "-clamp", "-imfchan", "-bm", "-cc", "-mm", "-o", "-s", "-t"];
/// a file name: a word that is no number, option or keyword; whether such a word can also be a
/// file name is left open
fn fname(w: &[u8]) -> R<String> {
    let c = w[0];
    let letter = c >= 0x80 || c == b'_' || c.is_ascii_alphabetic();
    if !letter && (w.contains(&b'#') || c == b'-' || c == b'+' || number(w).is_some()) { return Err(Bad::Skip); }
    if find(w, &MKW).is_some() { return Err(Bad::Skip); }
    Ok(text(w))
}
pub fn mtl(b: &[u8]) -> R<Vec<Material>> {
    let mut o = Mtl::new();
    let (mut wrong, mut any) = (false, false);
    for l in lines(b)? {
        if l.is_empty() || l[0] == b'#' { continue; }
        any = true;
        match mtl_line(&mut o, l) { Ok(()) => {}, Err(Bad::Skip) => return Err(Bad::Skip), Err(Bad::Err) => wrong = true }
    }
    if wrong || !any { Err(Bad::Err) } else { Ok(o.m) }
}
fn mtl_line(o: &mut Mtl, l: &[u8]) -> R<()> {
    let a = words(l);
    let k = match find(a[0], &MKW[..23]) { Some(k) => k, None => return Err(open(a[0])) };
    let a = &a[1..];
    if k == 0 {
        need(a, 1)?;
        if a[0][0] == b'#' { return Err(Bad::Skip); }
        surplus(a, 1)?;
        o.m.push(Material { name: text(a[0]), ..Default::default() });
        return Ok(());
    }
    // a setting without a material is wrong, but it may also be left open
    let orphan = o.m.is_empty();
    if orphan { o.m.push(Material::default()); }
    let r = mtl_setting(o, k, a);
    if orphan { o.m.pop(); if r.is_ok() { return Err(Bad::Err); } }
    r
}
fn mtl_setting(o: &mut Mtl, k: usize, a: &[&[u8]]) -> R<()> {
    match k {
        1..=5 => {
            need(a, 1)?;
            let c = if is(a[0], "xyz") {
                need(a, 2)?; surplus(a, 4)?;
                let x = real(a[1])?;
                let y = if a.len() > 2 { real(a[2])? } else { x };
                let z = if a.len() > 3 { real(a[3])? } else { x };
                ColorType::CieXyz(x, y, z)
            } else if is(a[0], "spectral") {
                need(a, 2)?; surplus(a, 3)?;
                let f = fname(a[1])?;
                let k = if a.len() > 2 { real(a[2])? } else { 1.0 };
                ColorType::Spectral(f, k)
            } else {
                need(a, 3)?; surplus(a, 3)?;
                ColorType::Rgb(real(a[0])?, real(a[1])?, real(a[2])?)
            };
            o.set_color(k - 1, c);
        },
        6..=9 => { need(a, 1)?; surplus(a, 1)?; let v = real(a[0])?; let m = o.last(); match k { 6 => m.specular_exponent = Some(v), 7 => m.transparancy = Some(v), 8 => m.sharpness = Some(v), _ => m.index_of_refraction = Some(v) } },
        10 => {
            need(a, 1)?;
            if is(a[0], "-halo") { need(a, 2)?; surplus(a, 2)?; let v = real(a[1])?; o.last().disolve = Some(DisolveType::Halo(v)) }
            else { surplus(a, 1)?; let v = real(a[0])?; o.last().disolve = Some(DisolveType::Alpha(v)) }
        },
        11 => { need(a, 1)?; surplus(a, 1)?; let v = whole(a[0])?; if v < 0 { return Err(Bad::Err); } o.last().illumination_mode = Some(v as u32) },
        12 => { need(a, 1)?; surplus(a, 1)?; let v = onoff(a[0])?; o.last().anti_alias_map = Some(v) },
        _ => {
            let x = options(k, a)?;
            match k {
                21 => o.last().bump_map = Some(BumpMap { bump_multiplier: x.bm, map_settings: Some(x.nc()) }),
                22 => { let ty = match &x.ty { Some(t) => t.clone(), None => return Err(Bad::Skip) }; o.last().reflection_map = Some(ReflectionMap { reflection_type: ty, map_settings: Some(x.cc()) }) },
                _ => o.set_map(k - 13, &x),
            }
        },
    }
    Ok(())
}
/// options, then one file name
fn options(k: usize, a: &[&[u8]]) -> R<Opts> {
    let mut x = Opts::default();
    let mut i = 0;
    loop {
        if i >= a.len() { return Err(Bad::Err); }
        if a[i][0] != b'-' { break; }
        let n = match find(a[i], &MKW[25..]) { Some(n) => n + 25, None => return Err(Bad::Skip) };
        // -halo, -boost, and options that are not those of the statement, are left open
        let cc = k <= 15 || k == 22;
        if n == 25 || n == 30 || (n == 34 && !cc) || (n == 32 && cc) || (n == 33 && k != 21) || (n == 26 && k != 22) { return Err(Bad::Skip); }
        i += 1;
        need(&a[i..], 1)?;
        match n {
            28 => { x.bu = Some(onoff(a[i])?); i += 1 },
            29 => { x.bv = Some(onoff(a[i])?); i += 1 },
            31 => { x.cl = Some(onoff(a[i])?); i += 1 },
            34 => { x.cc = Some(onoff(a[i])?); i += 1 },
            27 => { x.res = Some(whole(a[i])?); i += 1 },
            33 => { x.bm = Some(real(a[i])?); i += 1 },
            35 => { need(&a[i..], 2)?; x.mm = Some((real(a[i])?, real(a[i + 1])?)); i += 2 },
            26 => { x.ty = Some(fname(a[i])?); i += 1 },
            32 => { if a[i].len() != 1 || !b"rgbmlz".contains(&a[i][0]) { return Err(Bad::Skip); } x.imf = Some(text(a[i])); i += 1 },
            _ => {
                let p = real(a[i])?;
                i += 1;
                let mut q = [None, None];
                for j in 0..2 { if i < a.len() { if let Some(n) = number(a[i]) { q[j] = Some(n.f); i += 1; } else { break; } } }
                let v = Some((p, q[0], q[1]));
                match n { 36 => x.o = v, 37 => x.s = v, _ => x.t = v }
            },
        }
    }
    x.file = fname(a[i])?;
    // options after the name are left open
    for w in &a[i + 1..] { if w[0] == b'-' { return Err(Bad::Skip); } }
    surplus(a, i + 1)?;
    Ok(x)
}

/// loads a text and compares with what it means; the outcome as a cover id
pub fn check_obj(t: &Txt) {
    let s = t.utf8();
    let r = load_obj(s);
    match (obj(s.as_bytes()), r) {
        (Err(Bad::Skip), _) => { cover(3); },
        (Ok(o), Ok(m)) => { cmp_all(&o, &m); cover(0) },
        (Err(Bad::Err), Err(_)) => { obs(1); cover(1) },
        (Ok(_), Err(_)) => fail(1),
        (Err(Bad::Err), Ok(_)) => fail(3),
    }
}
pub fn check_mtl(t: &Txt) {
    let s = t.utf8();
    let r = load_mtl(s);
    match (mtl(s.as_bytes()), r) {
        (Err(Bad::Skip), _) => { cover(3); },
        (Ok(o), Ok(m)) => { cmp_materials(&o, &m); cover(0) },
        (Err(Bad::Err), Err(_)) => { obs(1); cover(1) },
        (Ok(_), Err(_)) => fail(2),
        (Err(Bad::Err), Ok(_)) => fail(4),
    }
}
