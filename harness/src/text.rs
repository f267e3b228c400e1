//! Harnesses of the properties about numbers, layout, letter case, names and repeated loads. The
//! texts are read by the line-by-line oracle of `spec`, which has to give them a meaning.
use crate::both::{MKWS, MST, OKW, OST};
use crate::gen::*;
use crate::genm::*;
use crate::spec::*;
use crate::sym::*;
use nobject_rs::*;

/// the text loads, and as it is meant
fn good_obj(t: &Txt) {
    let s = t.utf8();
    let o = match obj(s.as_bytes()) { Ok(o) => o, _ => fail(9100) };
    match load_obj(s) { Ok(m) => cmp_all(&o, &m), Err(_) => fail(1) }
    cover(0)
}
fn good_mtl(t: &Txt) {
    let s = t.utf8();
    let o = match mtl(s.as_bytes()) { Ok(o) => o, _ => fail(9101) };
    match load_mtl(s) { Ok(m) => cmp_materials(&o, &m), Err(_) => fail(2) }
    cover(0)
}
/// a level of detail of three digits is at most 100
fn ost(k: u32) -> &'static str { if k == 32 { "LOD 07" } else { OST[k as usize] } }
fn free(t: &mut Txt, n: u32) { for _ in 0..n { let b = byte(); t.c(b); } }
fn put(t: &mut Txt, b: u8) { if b == b'0' { t.digit(); } else { t.c(b); } }

// ---- C05 numbers ----
const OREAL: [&str; 14] = ["v @ 1 2", "v 1 @ 2", "v 1 2 @", "v @ 1 2 3", "v 1 2 3 @", "vn @ 1 2", "vn 1 @ 2", "vn 1 2 @", "vt @", "vt @ 1", "vt 1 @", "vt @ 1 2", "vt 1 @ 2", "vt 1 2 @"];
const OINT: [&str; 18] = ["f @ 1 2", "f 1 @", "f @/1 2/3", "f 1/@ 2", "f 1//@ 2//3", "f @//1", "f @/1/2", "f 1/@/3", "f 1/2/@", "f 1 2/@/3 4", "l @ 1", "l 1 @", "l @/1 2/3", "l 1/2 3/@", "p @", "p 1 @", "s @\nf 1 2", "g a\np 1 2 @ 3"];
const MREAL: [&str; 44] = [
    "Ka @ 1 2", "Ka 1 @ 2", "Ka 1 2 @", "Kd @ 1 2", "Kd 1 @ 2", "Kd 1 2 @", "Ks @ 1 2", "Ke 1 @ 2", "Tf 1 2 @", "Ka xyz @", "Kd xyz 1 @", "Ks xyz 1 2 @", "Ke xyz @ 1 2", "Tf xyz @",
    "Ka spectral a.rfl @", "Tf spectral a.rfl @", "Ns @", "Tr @", "sharpness @", "Ni @", "d @", "d -halo @",
    "map_Ka -mm @ 1 a.png", "map_Kd -mm 1 @ a.png", "map_Ks -o @ a.png", "map_Ns -o 1 @ a.png", "map_d -o 1 2 @ a.png", "disp -s @ a.png", "decal -s 1 @ a.png", "map_disp -s 1 2 @ a.png", "bump -t @ a.png", "map_Ka -t 1 @ 2 a.png", "map_Kd -t @ 1 2 a.png",
    "bump -bm @ a.png", "bump -clamp on -bm @ -s 1 a.png", "refl -type sphere -mm @ 1 a.png", "refl -mm 1 @ -type sphere a.png", "refl -type sphere -o @ 1 a.png", "map_d -mm @ 1 a.png", "decal -mm 1 @ -clamp on a.png", "map_Ns -t 1 2 @ -o 1 a.png", "Ks 1 2 @", "Ke @ 1 2", "Tf 1 @ 2",
];
const MINT: [&str; 8] = ["illum @", "map_Ka -texres @ a.png", "map_d -texres @ -clamp on a.png", "bump -bm 1 -texres @ a.png", "refl -type sphere -texres @ a.png", "decal -texres @ a.png", "map_Ks -s 1 2 -texres @ a.png", "disp -clamp off -texres @ a.png"];
/// shapes of a number without sign: digits, point, digits, exponent letter, its sign, its digits
const SHAPES: [Form; 24] = [
    form(0, 1, false, 0), form(0, 2, false, 0), form(0, 3, false, 0), form(0, 9, false, 0), form(0, 10, false, 0), form(0, 11, false, 0),
    form(0, 1, true, 1), form(0, 0, true, 1), form(0, 1, true, 0), form(0, 3, true, 3), form(0, 0, true, 4), form(0, 2, true, 7), form(0, 5, true, 0),
    eform(0, 1, false, 0, b'e', 0, 1), eform(0, 1, false, 0, b'E', 0, 2), eform(0, 1, true, 1, b'e', b'-', 1), eform(0, 0, true, 2, b'E', b'+', 2), eform(0, 2, true, 0, b'e', 0, 1),
    eform(0, 1, false, 0, b'e', b'-', 2), eform(0, 2, false, 0, b'E', b'+', 1), eform(0, 3, true, 3, b'e', 0, 2), eform(0, 1, true, 2, b'E', b'-', 2), eform(0, 6, false, 0, b'E', b'-', 1), eform(0, 0, true, 3, b'e', b'-', 1),
];
const SHORT: [Form; 7] = [form(0, 1, false, 0), form(0, 1, true, 1), form(0, 0, true, 1), form(0, 2, true, 0), eform(0, 1, false, 0, b'e', b'-', 1), eform(0, 1, true, 1, b'E', 0, 1), form(0, 3, false, 0)];
fn signed(f: Form) -> Form { let mut f = f; f.sign = [0, b'-', b'+'][choose(3) as usize]; f }
/// a statement with a number of the given kind at every @
fn fill(t: &mut Txt, s: &str, n: &dyn Fn(&mut Txt)) { for b in s.bytes() { if b == b'@' { n(t) } else { t.c(b); } } }
fn shape(t: &mut Txt, l: &[Form]) { let f = signed(l[choose(l.len() as u32) as usize]); num(t, f); }
#[no_mangle]
pub fn h_c05_obj_real() { let mut t = Txt::new(); fill(&mut t, OREAL[choose(14) as usize], &|t| shape(t, &SHAPES)); good_obj(&t) }
#[no_mangle]
pub fn h_c05_mtl_real() { let mut t = Txt::new(); t.s("newmtl a\n"); fill(&mut t, MREAL[choose(44) as usize], &|t| shape(t, &SHAPES)); good_mtl(&t) }
/// numbers of every form side by side
#[no_mangle]
pub fn h_c05_side() { let mut t = Txt::new(); fill(&mut t, ["v @ @ @", "vn @ @ @", "vt @ @", "v 1 2 3\nvt @ @ 1"][choose(4) as usize], &|t| shape(t, &SHORT)); good_obj(&t) }
#[no_mangle]
pub fn h_c05_mtl_side() { let mut t = Txt::new(); t.s("newmtl a\n"); fill(&mut t, ["Ka @ @ 1", "Kd xyz @ @", "map_Kd -mm @ @ a.png", "map_d -o @ @ a.png", "d @\nNs @", "bump -bm @ -s @ a.png"][choose(6) as usize], &|t| shape(t, &SHORT)); good_mtl(&t) }
/// whole numbers of up to ten digits, over the whole signed 32-bit range
fn whole(t: &mut Txt, minus: bool) {
    let s = choose(if minus { 3 } else { 2 });
    match s { 0 => {}, 1 => { t.c(b'+'); }, _ => { t.c(b'-'); } }
    match choose(11) {
        0 => { t.s("1"); t.digits(9); },
        1 => { t.s("21474836"); let v = t.digits(2); assume(v <= 47 + (s == 2) as u64); },
        n => { t.digits(n - 1); },
    }
}
#[no_mangle]
pub fn h_c05_obj_int() { let mut t = Txt::new(); fill(&mut t, OINT[choose(18) as usize], &|t| whole(t, true)); good_obj(&t) }
#[no_mangle]
pub fn h_c05_mtl_int() { let mut t = Txt::new(); t.s("newmtl a\n"); let k = choose(8); fill(&mut t, MINT[k as usize], &|t| whole(t, k > 0)); good_mtl(&t) }
/// the ends of the range, and leading zeros, written out
#[no_mangle]
pub fn h_c05_ends() {
    const E: [&str; 10] = ["2147483647", "-2147483648", "+2147483647", "-2147483647", "0000000000012", "-000", "2147483646", "-00002147483648", "0", "+0"];
    let mut t = Txt::new();
    let e = E[choose(10) as usize];
    let d = byte_in(b'1', b'9');
    if choose(2) == 0 { fill(&mut t, OINT[choose(18) as usize], &|t| { t.s(e); }); t.s("\nv 1 2 ").c(d); good_obj(&t) }
    else { t.s("newmtl a\n"); fill(&mut t, MINT[choose(7) as usize + 1], &|t| { t.s(e); }); t.s("\nNs ").c(d); good_mtl(&t) }
}
/// numbers with more digits than a 32-bit integer holds, where a real number is expected
#[no_mangle]
pub fn h_c05_big() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    let n = choose(6) + 10;
    let sg = choose(3);
    let go = |t: &mut Txt| { match sg { 0 => {}, 1 => { t.c(b'-'); }, _ => { t.c(b'+'); } } t.digits(n); if n == 12 { t.s("."); } if n == 14 { t.s(".5"); } if n == 15 { t.s("e2"); } };
    if mtl { t.s("newmtl a\n"); fill(&mut t, ["Ka 1 @ 2", "Ns @", "d @", "map_Kd -mm 1 @ a.png", "bump -bm @ a.png", "Kd xyz @", "d -halo @", "map_d -s @ 1 a.png"][choose(8) as usize], &go); good_mtl(&t) }
    else { fill(&mut t, ["v @ 1 2", "v 1 2 3 @", "vn 1 @ 2", "vt @", "vt 1 2 @"][choose(5) as usize], &go); good_obj(&t) }
}
/// literals with the bits of the nearest single-precision number, worked out exactly by hand of a
/// separate program
const EXACT: [(&str, u32); 49] = [
    ("16777216", 0x4b800000),
    ("16777217", 0x4b800000),
    ("16777218", 0x4b800001),
    ("16777219", 0x4b800002),
    ("-16777217", 0xcb800000),
    ("33554433", 0x4c000000),
    ("2147483647", 0x4f000000),
    ("2147483648", 0x4f000000),
    ("-2147483649", 0xcf000000),
    ("4294967295", 0x4f800000),
    ("4294967297", 0x4f800000),
    ("9007199791611905", 0x5a000001),
    ("123456789012345678901234567890", 0x6fc77488),
    ("0.1", 0x3dcccccd),
    ("0.3", 0x3e99999a),
    ("1.1", 0x3f8ccccd),
    ("-0.7", 0xbf333333),
    ("3.14159265358979", 0x40490fdb),
    ("1.00000005960464477540", 0x3f800001),
    ("1.000000059604644775390625", 0x3f800000),
    ("1.00000017881393432617187499", 0x3f800001),
    ("1.00000017881393432617187500", 0x3f800002),
    ("8388608.5", 0x4b000000),
    ("8388609.5", 0x4b000002),
    ("0.00000000000000000000000000000000000000000000140129846", 0x00000001),
    ("1e-45", 0x00000001),
    ("1.4e-45", 0x00000001),
    ("7.0064923216240853e-46", 0x00000000),
    ("7.0064923216240854e-46", 0x00000001),
    ("1.17549435e-38", 0x00800000),
    ("1.17549421e-38", 0x007fffff),
    ("3.4028235e38", 0x7f7fffff),
    ("3.4028234663852886e38", 0x7f7fffff),
    ("1e38", 0x7e967699),
    ("1E+10", 0x501502f9),
    ("1e10", 0x501502f9),
    ("-2.5E-3", 0xbb23d70a),
    ("12e3", 0x463b8000),
    ("5e-1", 0x3f000000),
    (".5e1", 0x40a00000),
    ("5.e1", 0x42480000),
    ("000000000000000000001.5", 0x3fc00000),
    ("0.000001e6", 0x3f800000),
    ("1234567e-6", 0x3f9e064b),
    ("99999999e-8", 0x3f800000),
    ("0.99999999", 0x3f800000),
    ("0.999999970197678", 0x3f800000),
    ("-0.0", 0x80000000),
    ("1.5E2", 0x43160000),
];
#[no_mangle]
pub fn h_c05_exact() {
    let mut t = Txt::new();
    let (x, bits) = EXACT[choose(49) as usize];
    let want = f32::from_bits(bits);
    let d = byte_in(b'1', b'9');
    let p = choose(10);
    let st = ["v @ 1 2", "v 1 2 3 @", "vn 1 2 @", "vt 1 @", "vt 1 2 @", "Ka 1 @ 2", "Ns @", "bump -bm @ a.png", "map_Kd -t 1 @ a.png", "Kd xyz @"][p as usize];
    if p >= 5 { t.s("newmtl a\n"); }
    fill(&mut t, st, &|t| { t.s(x); });
    t.s("\n#").c(d);
    let got = if p < 5 {
        let m = match load_obj(t.str()) { Ok(m) => m, Err(_) => fail(1) };
        match p { 0 => m.vertices[0].x, 1 => match m.vertices[0].w { Some(w) => w, None => fail(3) }, 2 => m.normals[0].z, 3 => match m.textures[0].v { Some(w) => w, None => fail(3) }, _ => match m.textures[0].w { Some(w) => w, None => fail(3) } }
    } else {
        let m = match load_mtl(t.str()) { Ok(m) => m, Err(_) => fail(2) };
        let m = &m[0];
        let f = |o: Option<f32>| match o { Some(x) => x, None => fail(3) };
        match p {
            5 => match m.ambient { Some(ColorType::Rgb(_, y, _)) => y, _ => fail(3) },
            6 => f(m.specular_exponent),
            7 => f(m.bump_map.as_ref().and_then(|b| b.bump_multiplier)),
            8 => f(m.texture_map_diffuse.as_ref().and_then(|c| c.turbulance).and_then(|t| t.1)),
            _ => match m.diffuse { Some(ColorType::CieXyz(_, _, z)) => z, _ => fail(3) },
        }
    };
    obs(got.to_bits() as u64);
    if got.to_bits() != want.to_bits() && got != want { fail(4) }
    if want != 0.0 && got.to_bits() != want.to_bits() { fail(5) }
    cover(0)
}
#[no_mangle]
pub fn h_c05t_obj_two() { let mut t = Txt::new(); fill(&mut t, ["v @ 1 @", "vn @ @ 1", "vt @ @"][choose(3) as usize], &|t| shape(t, &SHAPES)); good_obj(&t) }
#[no_mangle]
pub fn h_c05t_mtl_two() { let mut t = Txt::new(); t.s("newmtl a\n"); fill(&mut t, ["Ka @ @ 1", "Kd xyz @ @", "map_Kd -mm @ @ a.png", "map_d -o @ @ a.png", "Ni @\nNs @"][choose(5) as usize], &|t| shape(t, &SHAPES)); good_mtl(&t) }
#[no_mangle]
pub fn h_c05t_side3() { let mut t = Txt::new(); fill(&mut t, ["vt @ @ @", "v @ @ @ 1", "v 1 @ @ @"][choose(3) as usize], &|t| shape(t, &SHORT)); good_obj(&t) }
#[no_mangle]
pub fn h_c05t_ints() { let mut t = Txt::new(); fill(&mut t, ["f @ @", "f @/@", "f @//@", "l @ @", "p @ @"][choose(5) as usize], &|t| whole(t, true)); good_obj(&t) }

// ---- C13, C24 layout ----
fn blanks(t: &mut Txt, n: u32) { for _ in 0..n { let b = byte_set(b" \t"); t.c(b); } }
const NAMED: [&str; 8] = ["g ", "o ", "usemtl ", "usemap ", "mtllib ", "maplib ", "shadow_obj ", "trace_obj "];
/// how many of the blanks of a statement lie between its parts
fn gaps(s: &str) -> usize {
    if s.starts_with('#') { return 0; }
    let n = s.bytes().filter(|b| *b == b' ').count();
    if NAMED.iter().any(|k| s.starts_with(k)) { 1 } else { n }
}
/// a statement with up to `more` further blanks or tabs in every gap
fn spread(t: &mut Txt, s: &str, more: u32) { spread_some(t, s, more, 9) }
/// the same in at most `some` of the gaps
fn spread_some(t: &mut Txt, s: &str, more: u32, some: u32) {
    let mut g = gaps(s);
    let mut some = some;
    for b in s.bytes() {
        if b == b' ' && g > 0 { g -= 1; let n = if some == 0 { 0 } else { choose(more + 1) }; if n > 0 { some -= 1; } blanks(t, n + 1); } else { put(t, b); }
    }
}
fn indent(t: &mut Txt) { let n = choose(3); blanks(t, n); }
fn eol(t: &mut Txt, k: u32) { if k == 0 { t.s("\n"); } else { t.s("\r\n"); } }
fn gaps_of(t: &mut Txt, s: &str, before: &str, after: &str) {
    let nl = choose(2);
    if choose(2) == 1 { t.s(before); eol(t, nl); }
    spread_some(t, s, 1, if gaps(s) > 4 { 2 } else { 9 });
    match choose(3) { 0 => eol(t, nl), 1 => {}, _ => { eol(t, nl); t.s(after); eol(t, nl); } }
}
fn edges_of(t: &mut Txt, s: &str, before: &str, after: &str) {
    let nl = choose(2);
    if choose(2) == 1 { indent(t); t.s(before); blanks(t, 1); eol(t, nl); }
    indent(t);
    for b in s.bytes() { put(t, b); }
    indent(t);
    match choose(3) { 0 => eol(t, nl), 1 => {}, _ => { eol(t, nl); indent(t); t.s(after); blanks(t, 1); } }
}
/// empty lines, lines of blanks and comments
fn filler(t: &mut Txt) {
    match choose(7) {
        0 => { t.s("\n"); }, 1 => { t.s("\r\n"); }, 2 => { blanks(t, 1); t.s("\n"); }, 3 => { blanks(t, 2); t.s("\r\n"); },
        4 => { t.s("#"); let b = byte_in(0x20, 0x7e); t.c(b); t.s("\n"); }, 5 => { blanks(t, 1); t.s("#v 1\r\n"); }, _ => { t.s("#\n"); },
    }
}
fn lines_of(t: &mut Txt, s: &str, a: &str, b: &str, most: u32) {
    let nl = choose(2);
    let place = choose(4);
    let n = choose(most) + 1;
    let mut i = 0;
    for l in [a, s, b] {
        if i == place { for _ in 0..n { filler(t); } }
        for b in l.bytes() { put(t, b); }
        i += 1;
        if i < 3 || place == 3 || choose(2) == 1 { eol(t, nl); }
    }
    if place == 3 { for _ in 0..n { filler(t); } }
}
/// a free byte of a comment: anything but the end of the line
fn cbytes(t: &mut Txt, n: u32) { for _ in 0..n { let b = byte(); assume(b != b'\n' && b != b'\r'); t.c(b); } }
const COMMENTS: [&str; 14] = ["v 1 2 3", " f 1 2 3", "#", "\\", " newmtl x", "\"quoted\"", "\u{e9}\u{2028}\u{1f600}", " 1/2/3 4//5", " g other", "Ka 1 1 1", "-halo 1 on off", " ends with backslash \\", "\u{b}\u{c}\u{85}\u{a0}", "/* c */ // x"];
fn comment_of(t: &mut Txt, a: &str, b: &str, fixed: bool, n: u32) {
    let nl = choose(2);
    let place = choose(3);
    for i in 0..3 {
        if i == place {
            indent(t);
            t.s("#");
            if fixed { t.s(COMMENTS[choose(14) as usize]); let x = byte_in(0x20, 0x7e); t.c(x); } else { cbytes(t, n); }
            if place == 2 && choose(2) == 1 { return; }
            eol(t, nl);
        }
        if i == 0 { t.s(a); eol(t, nl); }
        if i == 1 { t.s(b); eol(t, nl); }
    }
}
#[no_mangle]
pub fn h_c13_gaps() { let mut t = Txt::new(); gaps_of(&mut t, ost(choose(34)), "v 1 2 3", "f 1 2"); good_obj(&t) }
#[no_mangle]
pub fn h_c13_edges() { let mut t = Txt::new(); edges_of(&mut t, ost(choose(34)), "v 1 2 3", "f 1 2"); good_obj(&t) }
#[no_mangle]
pub fn h_c13_lines() { let mut t = Txt::new(); lines_of(&mut t, ost(choose(34)), "v 1 2 3", "f 1 2", 2); good_obj(&t) }
#[no_mangle]
pub fn h_c13_comment() { let mut t = Txt::new(); let n = choose(4); comment_of(&mut t, "g a b", "f 1 2", false, n); good_obj(&t) }
#[no_mangle]
pub fn h_c13_comments() { let mut t = Txt::new(); let s = OST[choose(30) as usize]; comment_of(&mut t, "g a b", s, true, 0); t.s("\nv 1 2 3"); good_obj(&t) }
/// every line of a longer text laid out in its own way
fn many_of(t: &mut Txt, lines: &[&str], at: usize) {
    for (i, l) in lines.iter().enumerate() {
        let last = i + 1 == lines.len();
        if i == at { spread_some(t, l, 1, 2); indent(t); eol(t, choose(2)); filler(t); }
        else { t.s(l); if !last { eol(t, (i % 2) as u32); } }
    }
}
const OFILE: [&str; 12] = ["mtllib a b.mtl", "o thing", "v 1 2 3", "vt .5 1", "vn 0 0 1", "g wing left", "usemtl red", "s 1", "f 1/1/1 2/2/2 3", "l 1 2/3", "p 1 -2", "f 1//2 3//4"];
const MFILE: [&str; 12] = ["newmtl a", "Ka 1 .5 0", "Kd xyz 1", "Ks spectral a.rfl 2", "Ns 1e2", "d -halo .5", "illum 2", "map_Kd -s 1 2 -clamp on a.png", "bump -bm 2 b.png", "newmtl b", "refl -type sphere c.png", "Tr 1"];
#[no_mangle]
pub fn h_c13_many() { let mut t = Txt::new(); many_of(&mut t, &OFILE, choose(12) as usize); good_obj(&t) }
#[no_mangle]
pub fn h_c13t_gaps3() { let mut t = Txt::new(); let s = ost(choose(34)); spread(&mut t, s, 2); indent(&mut t); eol(&mut t, 1); t.s("f 1 2"); good_obj(&t) }
#[no_mangle]
pub fn h_c13t_lines3() { let mut t = Txt::new(); lines_of(&mut t, ost(choose(34)), "v 1 2 3", "f 1 2", 3); good_obj(&t) }
#[no_mangle]
pub fn h_c13t_comment5() { let mut t = Txt::new(); comment_of(&mut t, "g a b", "f 1 2", false, 5); good_obj(&t) }
#[no_mangle]
pub fn h_c24_gaps() { let mut t = Txt::new(); t.s("newmtl a\n"); gaps_of(&mut t, MST[choose(46) as usize], "Ns 1", "Ka 1 2 3"); good_mtl(&t) }
#[no_mangle]
pub fn h_c24_edges() { let mut t = Txt::new(); t.s("newmtl a\n"); edges_of(&mut t, MST[choose(46) as usize], "Ns 1", "Ka 1 2 3"); good_mtl(&t) }
#[no_mangle]
pub fn h_c24_lines() { let mut t = Txt::new(); lines_of(&mut t, MST[choose(46) as usize], "newmtl a", "Ka 1 2 3", 2); good_mtl(&t) }
#[no_mangle]
pub fn h_c24_comment() { let mut t = Txt::new(); let n = choose(4); comment_of(&mut t, "newmtl a", "Ns 1", false, n); good_mtl(&t) }
#[no_mangle]
pub fn h_c24_comments() { let mut t = Txt::new(); let s = MST[choose(46) as usize]; comment_of(&mut t, "newmtl a", s, true, 0); t.s("\nNi 1"); good_mtl(&t) }
#[no_mangle]
pub fn h_c24_many() { let mut t = Txt::new(); many_of(&mut t, &MFILE, choose(12) as usize); good_mtl(&t) }
#[no_mangle]
pub fn h_c24t_gaps3() { let mut t = Txt::new(); t.s("newmtl a\n"); let s = MST[choose(46) as usize]; assume(gaps(s) < 7); spread(&mut t, s, 2); indent(&mut t); eol(&mut t, 1); t.s("Ka 1 2 3"); good_mtl(&t) }
#[no_mangle]
pub fn h_c24t_lines3() { let mut t = Txt::new(); lines_of(&mut t, MST[choose(46) as usize], "newmtl a", "Ka 1 2 3", 3); good_mtl(&t) }
#[no_mangle]
pub fn h_c24t_comment5() { let mut t = Txt::new(); comment_of(&mut t, "newmtl a", "Ns 1", false, 5); good_mtl(&t) }

// ---- C14 letter case and whole keywords ----
/// writes a word with every letter in either case
fn anycase(t: &mut Txt, w: &str) {
    for b in w.bytes() {
        if b.is_ascii_alphabetic() { let x = byte_set(&[b.to_ascii_lowercase(), b.to_ascii_uppercase()]); t.c(x); } else { put(t, b); }
    }
}
/// names in which letter case counts are written as they stand
fn fixed(w: &str) -> bool { w.contains('.') || ["wing", "left", "red", "bricks", "thing", "second", "sphere", "cube_top", "r", "z"].contains(&w) }
fn case_line(t: &mut Txt, s: &str) {
    let mut first = true;
    for w in s.split(' ') {
        if !first { t.s(" "); }
        if !first && (fixed(w) || s.starts_with('#')) { for b in w.bytes() { put(t, b); } } else { anycase(t, w); }
        first = false;
    }
}
#[no_mangle]
pub fn h_c14_obj() { let mut t = Txt::new(); let s = ost(choose(34)); case_line(&mut t, s); t.s("\nf 1 2"); good_obj(&t) }
#[no_mangle]
pub fn h_c14_mtl() { let mut t = Txt::new(); anycase(&mut t, "newmtl"); t.s(" a\n"); let s = MST[choose(46) as usize]; case_line(&mut t, s); t.s("\nNs 1"); good_mtl(&t) }
/// a keyword with something before or behind it, in front of arguments it would accept
#[no_mangle]
pub fn h_c14_obj_longer() {
    let mut t = Txt::new();
    let s = OST[choose(29) as usize];
    let k = s.find(' ').unwrap_or(s.len());
    if choose(2) == 1 { t.s("v 1 2 3\n"); }
    let front = choose(2) == 1;
    if front { let b = byte_in(0x21, 0x7e); t.c(b); }
    anycase(&mut t, &s[..k]);
    if !front { let b = byte_in(0x21, 0x7e); t.c(b); }
    for b in s[k..].bytes() { put(&mut t, b); }
    t.s("\nf 1 2");
    check_obj(&t)
}
#[no_mangle]
pub fn h_c14_mtl_longer() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    let s = MST[choose(46) as usize];
    assume(!s.is_empty() && !s.starts_with('#'));
    let k = s.find(' ').unwrap_or(s.len());
    let front = choose(2) == 1;
    if front { let b = byte_in(0x21, 0x7e); t.c(b); }
    for b in s[..k].bytes() { t.c(b); }
    if !front { let b = byte_in(0x21, 0x7e); t.c(b); }
    for b in s[k..].bytes() { put(&mut t, b); }
    t.s("\nNs 1");
    check_mtl(&t)
}
/// option words with a letter, digit or _ more are not the option
#[no_mangle]
pub fn h_c14_option_longer() {
    const O: [(&str, &str); 18] = [
        ("map_Kd -blendu", " on a.png"), ("map_Kd -blendv", " on a.png"), ("map_Kd -cc", " on a.png"), ("map_Kd -clamp", " on a.png"), ("map_Kd -mm", " 1 2 a.png"), ("map_Kd -o", " 1 a.png"), ("map_Kd -s", " 1 a.png"), ("map_Kd -t", " 1 a.png"), ("map_Kd -texres", " 1 a.png"),
        ("map_d -imfchan", " r a.png"), ("bump -bm", " 1 a.png"), ("refl -type", " sphere a.png"), ("d -halo", " 1"), ("Ka xyz", " 1 2 3"), ("Ka spectral", " a.rfl"), ("map_aat on", ""), ("map_aat off", ""), ("map_Kd -clamp on", " a.png"),
    ];
    let mut t = Txt::new();
    t.s("newmtl a\n");
    let k = choose(18) as usize;
    t.s(O[k].0);
    let b = byte_set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789");
    t.c(b);
    t.s(O[k].1);
    let r = load_mtl(t.str());
    cover(0);
    match r {
        Err(_) => obs(0),
        Ok(m) => {
            obs(1);
            let m = &m[0];
            if let Some(x) = &m.texture_map_diffuse { if x.blend_u.is_some() || x.blend_v.is_some() || x.color_correct.is_some() || x.clamp.is_some() || x.texture_range.is_some() || x.offset.is_some() || x.scale.is_some() || x.turbulance.is_some() || (x.texture_res.is_some() && b != b'_') { fail(1) } }
            if let Some(x) = &m.disolve_map { if x.imf_chan.is_some() { fail(2) } }
            if let Some(x) = &m.bump_map { if x.bump_multiplier.is_some() { fail(3) } }
            if let Some(x) = &m.reflection_map { if x.reflection_type == "sphere" { fail(4) } }
            if m.disolve.is_some() { fail(5) }
            if m.ambient.is_some() { fail(6) }
            if m.anti_alias_map.is_some() { fail(7) }
        },
    }
}
#[no_mangle]
pub fn h_c14_switch_longer() {
    let mut t = Txt::new();
    t.s(["bevel ", "c_interp ", "d_interp ", "s "][choose(4) as usize]).s(["on", "off"][choose(2) as usize]);
    let n = choose(2) + 1;
    for _ in 0..n { let b = byte_in(0x24, 0x7e); t.c(b); }
    match load_obj(t.str()) { Ok(_) => fail(1), Err(_) => cover(0) }
}
/// names that begin with a keyword, or are one, stay names
const INNAME: [&str; 24] = ["Ka", "d", "Ns", "map_Kd", "bump", "refl", "disp", "decal", "illum", "newmtl", "xyz", "spectral", "on", "off", "Tf", "Tr", "Ni", "sharpness", "map_aat", "map_d", "f", "v", "usemtl", "e"];
#[no_mangle]
pub fn h_c14_inname() {
    let mut t = Txt::new();
    let c = choose(7);
    t.s("newmtl a\n");
    t.s(["map_Kd ", "newmtl ", "Ka spectral ", "refl -type sphere ", "map_d -clamp on ", "bump -bm 1 ", "map_Ks -s 1 "][c as usize]);
    anycase(&mut t, INNAME[choose(24) as usize]);
    let b = byte_set(b"abcxyzAZ_.0123456789-/");
    t.c(b);
    t.s(".png\nNs 1");
    good_mtl(&t)
}
#[no_mangle]
pub fn h_c14_obj_inname() {
    const W: [&str; 20] = ["v", "vn", "vt", "f", "l", "p", "g", "s", "o", "usemtl", "usemap", "mtllib", "maplib", "bevel", "c_interp", "lod", "shadow_obj", "trace_obj", "off", "on"];
    let mut t = Txt::new();
    t.s(["g ", "o ", "usemtl ", "usemap ", "mtllib ", "maplib ", "shadow_obj ", "trace_obj "][choose(8) as usize]);
    anycase(&mut t, W[choose(20) as usize]);
    let b = byte_set(b"abcxyzAZ_.0123456789- ");
    t.c(b);
    t.s("1\nf 1 2");
    good_obj(&t)
}
#[no_mangle]
pub fn h_c14t_obj_longer2() {
    let mut t = Txt::new();
    let s = OST[choose(29) as usize];
    let k = s.find(' ').unwrap_or(s.len());
    anycase(&mut t, &s[..k]);
    for _ in 0..2 { let b = byte(); t.c(b); }
    for b in s[k..].bytes() { put(&mut t, b); }
    t.s("\nf 1 2");
    check_obj(&t)
}
#[no_mangle]
pub fn h_c14t_mtl_longer2() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    let s = MST[choose(46) as usize];
    assume(!s.is_empty() && !s.starts_with('#'));
    let k = s.find(' ').unwrap_or(s.len());
    for b in s[..k].bytes() { t.c(b); }
    for _ in 0..2 { let b = byte(); t.c(b); }
    for b in s[k..].bytes() { put(&mut t, b); }
    t.s("\nNs 1");
    check_mtl(&t)
}

// ---- C23 names ----
const ONAME: [&str; 8] = ["g ", "usemtl ", "usemap ", "mtllib ", "maplib ", "shadow_obj ", "trace_obj ", "o "];
/// free bytes that make up a name in an OBJ text: the rest of a line, not blank at its ends
fn oname(t: &mut Txt, n: u32) {
    for i in 0..n {
        let b = byte();
        assume(b != b'\n' && b != b'\r');
        if i == 0 || i + 1 == n { assume(b != b' ' && b != b'\t'); }
        if i == 0 { assume(b != b'#'); }
        t.c(b);
    }
}
/// free bytes of a word
fn mname(t: &mut Txt, n: u32) { for i in 0..n { let b = byte(); assume(b != b'\n' && b != b'\r' && b != b' ' && b != b'\t'); if i == 0 { assume(b != b'#'); } t.c(b); } }
#[no_mangle]
pub fn h_c23_obj() {
    let mut t = Txt::new();
    let k = ONAME[choose(8) as usize];
    t.s(k);
    let n = choose(4) + 1;
    oname(&mut t, n);
    t.s("\nf 1");
    check_obj(&t)
}
/// with fixed text around the free bytes, of every length
#[no_mangle]
pub fn h_c23_obj_long() {
    let mut t = Txt::new();
    t.s(ONAME[choose(8) as usize]);
    t.s(["a", "\u{e9}", "A b ", "1", "x#", "\"", "off", "C:\\x"][choose(8) as usize]);
    let n = choose(3);
    for _ in 0..n { let b = byte(); assume(b != b'\n' && b != b'\r'); t.c(b); }
    let m = [0, 1, 20, 70][choose(4) as usize];
    for i in 0..m { t.c(b'a' + (i % 26) as u8); }
    t.s(["z", "\u{1f600}", ".", "  #"][choose(4) as usize]);
    t.s(["\n", "\r\n", " \n", ""][choose(4) as usize]);
    good_obj(&t)
}
/// two names are the same only if they are written the same
#[no_mangle]
pub fn h_c23_two() {
    let mut t = Txt::new();
    let p = ["", "a", "left wing "][choose(3) as usize];
    t.s("g ").s(p);
    let n = choose(2) + 1;
    oname(&mut t, n);
    t.s("\nf 1\nusemtl x\ng ").s(p);
    let n = choose(2) + 1;
    oname(&mut t, n);
    t.s("\nf 2\n");
    good_obj(&t)
}
const PAIRS: [(&str, &str); 12] = [("wing", "Wing"), ("wing", "wing1"), ("\u{e9}", "e\u{301}"), ("a b", "a  b"), ("a b", "a\tb"), ("default", "Default"), ("1", "01"), ("K", "\u{212a}"), ("\u{df}", "ss"), ("a/b", "a\\b"), ("off", "OFF"), ("\u{130}", "i")];
#[no_mangle]
pub fn h_c23_pairs() {
    let mut t = Txt::new();
    let (a, b) = PAIRS[choose(12) as usize];
    let x = byte_in(b'0', b'9');
    t.s("g ").s(a).c(x).s("\nusemtl ").s(a).s("\nf 1\ng ").s(b).c(x).s("\nusemtl ").s(b).s("\np 1 2\nmtllib ").s(a).s("\nmtllib ").s(b).s("\ng ").s(a).c(x).s("\nl 1 2\nusemap ").s(b).s("x\nmaplib ").s(b).s("\n");
    good_obj(&t)
}
/// names after other statements, and before them
#[no_mangle]
pub fn h_c23_among() {
    let mut t = Txt::new();
    let s = ost(choose(34));
    for b in s.bytes() { put(&mut t, b); }
    t.s("\n");
    t.s(ONAME[choose(8) as usize]);
    t.s(["Mixed Case.Ext", "\u{65e5}\u{672c} \u{8a9e}", "-1.5 2/3", "f 1 2 3", "a # b", "on"][choose(6) as usize]);
    let b = byte_in(0x21, 0x7e);
    t.c(b);
    t.s("\nf 1 2");
    good_obj(&t)
}
#[no_mangle]
pub fn h_c23_mtl() {
    let mut t = Txt::new();
    t.s("newmtl ");
    let n = choose(5) + 1;
    mname(&mut t, n);
    t.s("\nNs 1");
    good_mtl(&t)
}
/// file names: a letter, _ or a byte of another script, then anything
const MFNAME: [&str; 12] = ["map_Ka ", "map_Kd -clamp on ", "map_Ks -s 1 2 ", "map_Ns -imfchan r ", "map_d -mm 1 2 ", "disp ", "map_disp ", "decal -texres 1 ", "bump -bm 1 ", "bump ", "refl -type sphere ", "Kd spectral "];
#[no_mangle]
pub fn h_c23_file() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    t.s(MFNAME[choose(12) as usize]);
    let b = byte();
    assume(b >= 0x80 || b == b'_' || b.is_ascii_alphabetic());
    t.c(b);
    let n = choose(3);
    for _ in 0..n { let b = byte(); assume(b != b'\n' && b != b'\r' && b != b' ' && b != b'\t'); t.c(b); }
    t.s("q.x");
    good_mtl(&t)
}
#[no_mangle]
pub fn h_c23_mtl_long() {
    let mut t = Txt::new();
    let c = choose(13) as usize;
    if c < 12 { t.s("newmtl a\n").s(MFNAME[c]); } else { t.s("newmtl "); }
    t.s(["T", "\u{e9}", "_1", "C:\\x\\", "Mixed-Case(2)", "a#", "\u{65e5}\u{672c}/"][choose(7) as usize]);
    let n = choose(2);
    for _ in 0..n { let b = byte(); assume(b != b'\n' && b != b'\r' && b != b' ' && b != b'\t'); t.c(b); }
    let m = [0, 30, 90][choose(3) as usize];
    for i in 0..m { t.c(b'a' + (i % 26) as u8); }
    t.s([".png", "\u{1f600}", "#"][choose(3) as usize]);
    t.s(["\n", "\r\n", ""][choose(3) as usize]);
    good_mtl(&t)
}
/// several materials with free names stay apart
#[no_mangle]
pub fn h_c23_mtl_two() {
    let mut t = Txt::new();
    for i in 0..2 { t.s("newmtl "); let n = choose(2) + 1; mname(&mut t, n); t.s("\nNs ").c(b'1' + i).s("\n"); }
    good_mtl(&t)
}
#[no_mangle]
pub fn h_c23_type() {
    let mut t = Txt::new();
    t.s("newmtl a\nrefl ");
    if choose(2) == 1 { t.s("-clamp on "); }
    t.s("-type ");
    let b = byte_set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_");
    t.c(b);
    let n = choose(3);
    for _ in 0..n { let b = byte_set(b"abcxyzABCXYZ_0123456789"); t.c(b); }
    t.s("_q a.png");
    good_mtl(&t)
}
#[no_mangle]
pub fn h_c23t_obj5() { let mut t = Txt::new(); t.s(ONAME[choose(8) as usize]); oname(&mut t, 5); t.s("\nf 1"); check_obj(&t) }
#[no_mangle]
pub fn h_c23t_two3() { let mut t = Txt::new(); t.s("g "); oname(&mut t, 2); t.s("\nf 1\ng "); oname(&mut t, 3); t.s("\nf 2\n"); good_obj(&t) }
#[no_mangle]
pub fn h_c23t_file4() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    t.s(MFNAME[choose(12) as usize]);
    let b = byte();
    assume(b >= 0x80 || b == b'_' || b.is_ascii_alphabetic());
    t.c(b);
    for _ in 0..4 { let b = byte(); assume(b != b'\n' && b != b'\r' && b != b' ' && b != b'\t'); t.c(b); }
    t.s("q.x");
    good_mtl(&t)
}

// ---- C02 the result depends on the text alone ----
const OTEXTS: [&str; 6] = [
    "v 1 2 3\ng wing\nusemtl red\ns 4\nf 1/2/3 4 5//6\nl 1 2\np 0",
    "mtllib a\nmaplib b\nusemap c\nbevel on\nlod 0\ng a\ng b\nf 0\nshadow_obj s",
    "g x\nf 0 1", "vn 1 2 0\nvt 0\nvt 1 2", "f 0 1 2\ns 0\nf 1\ng default\nf 2", "",
];
const MTEXTS: [&str; 5] = [
    "newmtl a\nKa 1 2 0\nKd xyz 1\nmap_Kd -s 1 0 -clamp on a.png\nbump -bm 0 b.png", "newmtl a\nNs 0\nnewmtl b\nd -halo 0\nillum 0",
    "newmtl a\nrefl -type sphere -o 0 c.png\nmap_aat on", "newmtl a\nmap_Ka a.png\nmap_d -mm 0 1 -imfchan r b.png", "newmtl a",
];
const WRONG: [&str; 14] = ["v 1 2", "f 1 x", "g", "s", "nonsense", "newmtl", "newmtl a\nKa 1", "newmtl a\nmap_Kd -s", "newmtl a\nrefl -type", "Ka 1 2 3", "bevel", "lod 101", "f 1/", "newmtl a\nillum -1"];
fn text(t: &mut Txt, s: &str) { for b in s.bytes() { put(t, b); } }
fn expect_obj(s: &str) -> Obj { match obj(s.as_bytes()) { Ok(o) => o, _ => fail(9102) } }
fn expect_mtl(s: &str) -> Vec<Material> { match mtl(s.as_bytes()) { Ok(o) => o, _ => fail(9103) } }
fn between(free_too: bool) {
    let mut b = Txt::new();
    match choose(if free_too { 6 } else { 5 }) {
        0 => text(&mut b, OTEXTS[choose(6) as usize]),
        1 => text(&mut b, MTEXTS[choose(5) as usize]),
        2 => { b.s(WRONG[choose(14) as usize]); },
        3 => { b.s("g other\ns 5\nusemtl blue\nf 7\ns 9\n").s(WRONG[choose(14) as usize]); },
        4 => { b.s("newmtl other\nNs 5\nKa 7 7 7\nmap_Kd -cc on x.png\n").s(WRONG[choose(14) as usize]); },
        _ => free(&mut b, 2),
    }
    let s = b.utf8();
    match load_obj(s) { Ok(mut m) => { obs(1); m.vertices.clear(); m.groups.clear(); m.faces.clear(); }, Err(_) => obs(0) }
    match load_mtl(s) { Ok(mut m) => { obs(1); m.clear(); }, Err(_) => obs(0) }
}
#[no_mangle]
pub fn h_c02_obj() {
    let mut t = Txt::new();
    text(&mut t, OTEXTS[choose(6) as usize]);
    let s = t.utf8();
    let o = expect_obj(s);
    let mut m = match load_obj(s) { Ok(m) => m, Err(_) => fail(1) };
    cmp_all(&o, &m);
    // the first result is changed; the second must not be
    m.vertices.push(Vertex { x: 9.0, y: 9.0, z: 9.0, w: None });
    m.material_libs.push("zzz".to_string());
    for g in m.groups.values_mut() { g.material_name.push_str("zzz"); g.lod = 99; }
    for f in m.faces.values_mut() { for x in f.iter_mut() { x.smoothing_group = 77; } }
    between(false);
    let m2 = match load_obj(s) { Ok(m) => m, Err(_) => fail(2) };
    cmp_all(&o, &m2);
    cover(0)
}
#[no_mangle]
pub fn h_c02_mtl() {
    let mut t = Txt::new();
    text(&mut t, MTEXTS[choose(5) as usize]);
    let s = t.utf8();
    let o = expect_mtl(s);
    let mut m = match load_mtl(s) { Ok(m) => m, Err(_) => fail(1) };
    cmp_materials(&o, &m);
    for x in m.iter_mut() { x.name.push_str("zzz"); x.ambient = None; if let Some(c) = &mut x.texture_map_diffuse { c.file_name.push_str("zzz"); } }
    m.pop();
    between(false);
    let m2 = match load_mtl(s) { Ok(m) => m, Err(_) => fail(2) };
    cmp_materials(&o, &m2);
    cover(0)
}
/// the first load of a text after others, which may have failed
#[no_mangle]
pub fn h_c02_after() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    text(&mut t, if mtl { MTEXTS[choose(5) as usize] } else { OTEXTS[choose(6) as usize] });
    between(true);
    if choose(2) == 1 { let w = ["f 1 x", "g zz\ns 8\nusemtl y\nf 3", "newmtl a\nKa 1", "newmtl zz\nNs 4"][choose(4) as usize]; let _ = load_obj(w); let _ = load_mtl(w); }
    if mtl { good_mtl(&t) } else { good_obj(&t) }
    cover(0)
}
fn model(m: &Model) -> Obj {
    let mut o = Obj::new();
    o.v = m.vertices.clone(); o.n = m.normals.clone(); o.tc = m.textures.clone();
    o.groups = m.groups.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    o.faces = m.faces.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    o.lines = m.lines.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    o.points = m.points.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    o.mlibs = m.material_libs.clone(); o.tlibs = m.texture_libs.clone(); o.shadow = m.shadow_obj.clone(); o.trace = m.trace_obj.clone();
    o
}
/// any text twice: equal results
fn twice_obj(s: &str, other: &str) {
    let a = load_obj(s);
    let c = load_obj(s);
    let _ = load_obj(other);
    let _ = load_mtl(other);
    match (a, load_obj(s), c) { (Ok(a), Ok(b), Ok(c)) => { let m = model(&a); cmp_all(&m, &b); cmp_all(&m, &c); cover(0) }, (Err(_), Err(_), Err(_)) => obs(0), _ => fail(3) }
}
fn twice_mtl(s: &str, other: &str) {
    let a = load_mtl(s);
    let c = load_mtl(s);
    let _ = load_mtl(other);
    let _ = load_obj(other);
    match (a, load_mtl(s), c) { (Ok(a), Ok(b), Ok(c)) => { cmp_materials(&a, &b); cmp_materials(&a, &c); cover(0) }, (Err(_), Err(_), Err(_)) => obs(0), _ => fail(4) }
}
/// a text with a statement of each kind, after another one that ends with a statement of each kind
#[no_mangle]
pub fn h_c02_pairs_obj() {
    let mut a = Txt::new();
    let group = choose(2) == 1;
    if group { a.s("g q\nf 1\ns 7\nv 9 9 9 9\nvn 9 9 9\nvt 9 9 9\n"); }
    text(&mut a, ost(choose(34)));
    a.s("\nf 1\n");
    let mut b = Txt::new();
    if group { b.s("v 1 2 3\ng q\n"); }
    text(&mut b, ost(choose(34)));
    b.s("\nf 1 2\nvn 1 2 3");
    if load_obj(a.utf8()).is_err() { fail(5) }
    good_obj(&b);
    cover(0)
}
#[no_mangle]
pub fn h_c02_pairs_mtl() {
    let mut a = Txt::new();
    a.s("newmtl p\nnewmtl q\n");
    text(&mut a, MST[choose(46) as usize]);
    let mut b = Txt::new();
    b.s("newmtl q\n");
    text(&mut b, MST[choose(46) as usize]);
    if load_mtl(a.utf8()).is_err() { fail(6) }
    good_mtl(&b);
    cover(0)
}
/// numbers and names with as many free bytes as a cache could tell apart
#[no_mangle]
pub fn h_c02_values() {
    let (mut a, mut b) = (Txt::new(), Txt::new());
    let k = choose(8);
    let form = [F11, form(0, 1, true, 8), form(0, 9, false, 0), eform(0, 1, true, 2, b'e', b'-', 2)][choose(4) as usize];
    for t in [&mut a, &mut b] {
        match k {
            0 => { t.s("v "); num(t, form); t.s(" 1 2"); },
            1 => { t.s("f "); t.digits(6); t.s(" 1/"); t.digits(3); },
            2 => { t.s("g n"); for _ in 0..8 { let c = byte_in(b'a', b'z'); t.c(c); } t.s("\nf 1"); },
            3 => { t.s("usemtl n"); for _ in 0..8 { let c = byte_in(b'a', b'z'); t.c(c); } },
            4 => { t.s("newmtl a\nKa 1 2 "); num(t, form); },
            5 => { t.s("newmtl n"); for _ in 0..8 { let c = byte_in(b'a', b'z'); t.c(c); } },
            6 => { t.s("newmtl a\nmap_Kd n"); for _ in 0..8 { let c = byte_in(b'a', b'z'); t.c(c); } },
            _ => { t.s("newmtl a\nmap_Kd -texres "); t.digits(6); t.s(" a.png"); },
        }
    }
    if k < 4 { good_obj(&a); good_obj(&b); good_obj(&a) } else { good_mtl(&a); good_mtl(&b); good_mtl(&a) }
    cover(0)
}
#[no_mangle]
pub fn h_c02_obj_twice() {
    let mut t = Txt::new();
    match choose(3) { 0 => free(&mut t, 3), 1 => { t.s(OKW[choose(20) as usize]); free(&mut t, 3); }, _ => { text(&mut t, ost(choose(34))); free(&mut t, 1); } }
    t.s("\nf 1");
    twice_obj(t.utf8(), "g other\ns 3\nf 1\nv 1 x");
    cover(0)
}
#[no_mangle]
pub fn h_c02_mtl_twice() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    match choose(3) { 0 => free(&mut t, 3), 1 => { t.s(MKWS[choose(22) as usize]); free(&mut t, 3); }, _ => { text(&mut t, MST[choose(46) as usize]); free(&mut t, 1); } }
    t.s("\nnewmtl z\n");
    twice_mtl(t.utf8(), "newmtl other\nKa 1 1 1\nmap_Kd -s 1 a.png\nd x");
    cover(0)
}
/// many loads in one process: the n-th is like the first
#[no_mangle]
pub fn h_c02_many() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    text(&mut t, if mtl { MTEXTS[choose(5) as usize] } else { OTEXTS[choose(6) as usize] });
    let wrong = WRONG[choose(14) as usize];
    let n = 12;
    for i in 0..n {
        if mtl { good_mtl(&t) } else { good_obj(&t) }
        if i % 3 == 1 { let _ = load_obj(wrong); let _ = load_mtl(wrong); }
    }
    cover(0)
}
/// whatever the order in which hash maps are iterated
#[no_mangle]
pub fn h_c02_hash() {
    hash(choose(8) as u64);
    let mut t = Txt::new();
    const H: [&str; 6] = [
        "f 1\ng a\nf 2\nusemtl m\ng b\nf 3\nusemtl n\ng a\nf 4\nlod 3\np 0", "g a b\nf 1\ng c\nf 2\ng a b\nbevel on\ng d\nl 1 0", "usemap q\ng z\ng y\ng x\nf 0\ns 2\ng default\nf 1\nusemap r",
        "g a\ng b\ng c\ng d\ng e\ng f\nf 0\ng a\nf 1\nusemtl u\ng c\np 1", "v 1 2 3\ng k\nv 4 5 6\nvn 1 2 3\ng l\nmtllib a\nmtllib b\nf 0", "g b\nf 1\ng a\nf 1\np 1\nl 1 2\ng c\nl 1 0\ng b\np 2",
    ];
    text(&mut t, H[choose(6) as usize]);
    good_obj(&t);
    cover(0)
}
#[no_mangle]
pub fn h_c02_hash_mtl() {
    hash(choose(8) as u64);
    let mut t = Txt::new();
    text(&mut t, MTEXTS[choose(5) as usize]);
    t.s("\nnewmtl z\nKa 1 2 3\nKd 4 5 6\nKs 7 8 9\nNs 1\nNi 2\nTr 3\nmap_Kd -o 1 2 3 -s 4 5 6 -t 7 8 9 -mm 1 2 -blendu on -cc off x.png\nnewmtl y\nd 1");
    good_mtl(&t);
    cover(0)
}
#[no_mangle]
pub fn h_c02t_after2() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    text(&mut t, if mtl { MTEXTS[choose(5) as usize] } else { OTEXTS[choose(6) as usize] });
    let mut b = Txt::new();
    if choose(2) == 1 { b.s(["g a\n", "newmtl a\n", "f ", "newmtl a\nmap_Kd "][choose(4) as usize]); }
    free(&mut b, 3);
    let s = b.utf8();
    let _ = load_obj(s);
    let _ = load_mtl(s);
    between(false);
    if mtl { good_mtl(&t) } else { good_obj(&t) }
    cover(0)
}
#[no_mangle]
pub fn h_c02t_obj_twice5() { let mut t = Txt::new(); match choose(2) { 0 => free(&mut t, 5), _ => { t.s(OKW[choose(20) as usize]); free(&mut t, 4); } } t.s("\nf 1"); twice_obj(t.utf8(), "g other\ns 3\nf 1\nv 1 x"); cover(0) }
#[no_mangle]
pub fn h_c02t_mtl_twice5() { let mut t = Txt::new(); t.s("newmtl a\n"); match choose(2) { 0 => free(&mut t, 5), _ => { t.s(MKWS[choose(22) as usize]); free(&mut t, 4); } } t.s("\nnewmtl z\n"); twice_mtl(t.utf8(), "newmtl other\nKa 1 1 1\nmap_Kd -s 1 a.png\nd x"); cover(0) }

// ---- C25, known finding: options of another kind of map ----
/// an option that the map does not have is not to be dropped silently
const FOREIGN: [(&str, &str); 28] = [("map_Ka", "-imfchan r"), ("map_Ka", "-bm 2"), ("map_Ka", "-type sphere"), ("map_Kd", "-imfchan r"), ("map_Kd", "-bm 2"), ("map_Kd", "-type sphere"), ("map_Ks", "-imfchan r"), ("map_Ks", "-bm 2"), ("map_Ks", "-type sphere"), ("map_Ns", "-cc on"), ("map_Ns", "-bm 2"), ("map_Ns", "-type sphere"), ("map_d", "-cc on"), ("map_d", "-bm 2"), ("map_d", "-type sphere"), ("disp", "-cc on"), ("disp", "-bm 2"), ("disp", "-type sphere"), ("map_disp", "-cc on"), ("map_disp", "-bm 2"), ("map_disp", "-type sphere"), ("decal", "-cc on"), ("decal", "-bm 2"), ("decal", "-type sphere"), ("bump", "-cc on"), ("bump", "-type sphere"), ("refl -type sphere", "-imfchan r"), ("refl -type sphere", "-bm 2")];
#[no_mangle]
pub fn h_c25k_foreign() {
    let mut t = Txt::new();
    let k = choose(29);
    let (map, o) = if k == 28 { ("decal", "-clamp on") } else { FOREIGN[k as usize] };
    t.s("newmtl a\n").s(map).s(" ").s(o).s(" -mm 0 ").digit();
    t.s(" a.png");
    let loads = load_mtl(t.utf8()).is_ok();
    if loads != (k == 28) { fail(500 + k) }
    if loads { cover(0) }
    obs(loads as u64)
}
