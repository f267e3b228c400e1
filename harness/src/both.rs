//! Harnesses of the properties that concern both formats.
use crate::gen::*;
use crate::genm::*;
use crate::spec::*;
use crate::sym::*;
use nobject_rs::*;

fn free(t: &mut Txt, n: u32) { for _ in 0..n { let b = byte(); t.c(b); } }

// ---- C01 no panic ----
fn returns_obj(t: &Txt) { match load_obj(t.utf8()) { Ok(m) => obs(m.vertices.len() as u64), Err(_) => obs(1 << 40) } cover(0) }
fn returns_mtl(t: &Txt) { match load_mtl(t.utf8()) { Ok(m) => obs(m.len() as u64), Err(_) => obs(1 << 40) } cover(0) }
pub const OKW: [&str; 20] = ["v", "vn", "vt", "vp", "f", "l", "p", "g", "s", "o", "usemtl", "usemap", "mtllib", "maplib", "bevel", "c_interp", "d_interp", "lod", "shadow_obj", "trace_obj"];
pub const MKWS: [&str; 22] = ["Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Tr", "sharpness", "Ni", "d", "illum", "map_aat", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl"];
/// statements of every kind; each 0 stands for a free digit
pub const OST: [&str; 34] = [
    "v 0.0 -0 +.0", "v 0 0 0 0.0", "vn 0 -0.0 0", "vt 0", "vt 0.0 0", "vt 0 0 -0", "f 0 0 0", "f 0/0 0/0", "f 0//0 -0//0 0", "f 0/0/0 0//0 0/0 0",
    "l 0 0", "l 0/0 -0", "p 0", "p 0 -0", "g wing", "g left wing", "usemtl red", "usemap bricks", "mtllib a.mtl", "maplib b.map",
    "o thing", "s 0", "s off", "bevel on", "c_interp off", "d_interp on", "lod 00", "shadow_obj s.obj", "trace_obj t.obj", "# v 0 0 0",
    "", "v 0e0 0.0E-0 0.", "lod 100", "o 0",
];
pub const MST: [&str; 46] = [
    "Ka 0 0.0 -.0", "Kd 0 0 0", "Ks 0 0 0", "Ke 0 0 0", "Tf 0 0 0", "Ka xyz 0 0 0", "Kd xyz 0", "Ks xyz 0 0", "Ke spectral a.rfl", "Tf spectral a.rfl 0.0",
    "Ns 0", "Tr 0.0", "sharpness 0", "Ni 0.0", "d 0.0", "d -halo 0", "illum 0", "map_aat on", "map_aat off", "map_Ka a.png",
    "map_Kd -clamp on b.png", "map_Ks -cc off -s 0 c.png", "map_Ns -imfchan r d.png", "map_d -mm 0 0 e.png", "disp -o 0 0 f.png", "map_disp -t 0 0 0 g.png", "decal -texres 00 h.png", "bump -bm 0.0 i.png", "bump j.png", "refl -type sphere k.png",
    "refl -mm 0 0 -type cube_top l.png", "map_Kd -blendu on -blendv off m.png", "newmtl second", "newmtl 0", "# Ka 0 0 0", "", "map_Ka -s 0 0 0 -o 0 n.png", "bump -s 0 0 -bm 0 -clamp off o.png", "map_Kd -texres 0 -mm 0 0 01_wood.png", "Ke xyz 0.0 0 0",
    "decal -blendv on p.png", "map_Ns -t 0.0 q.png", "map_d -blendu off r.png", "disp -imfchan z -clamp on s.png", "map_Ka -o -0 -0 -0 t.png", "illum 00",
];
fn push(t: &mut Txt, b: u8) { if b == b'0' { t.digit(); } else { t.c(b); } }
fn line(t: &mut Txt, s: &str) { for b in s.bytes() { push(t, b); } }

// ---- C01, continued ----
fn line_obj(k: usize) -> &'static str { OST[k] }
fn line_mtl(k: usize) -> &'static str { MST[k] }
/// every text of up to 6 bytes
#[no_mangle]
pub fn h_c01_obj_free() { let mut t = Txt::new(); let n = choose(7); free(&mut t, n); returns_obj(&t) }
#[no_mangle]
pub fn h_c01_mtl_free() { let mut t = Txt::new(); let n = choose(7); free(&mut t, n); returns_mtl(&t) }
/// a keyword of every kind, then 4 free bytes
#[no_mangle]
pub fn h_c01_obj_kw() { let mut t = Txt::new(); t.s(OKW[choose(20) as usize]); free(&mut t, 4); returns_obj(&t) }
#[no_mangle]
pub fn h_c01_mtl_kw() { let mut t = Txt::new(); t.s("newmtl a\n"); t.s(MKWS[choose(22) as usize]); free(&mut t, 4); returns_mtl(&t) }
/// every beginning of a statement of every kind, with 2 free bytes after it
#[no_mangle]
pub fn h_c01_obj_cut() { let mut t = Txt::new(); let s = line_obj(choose(34) as usize); let n = choose(s.len() as u32 + 1) as usize; line(&mut t, &s[..n]); free(&mut t, 2); returns_obj(&t) }
#[no_mangle]
pub fn h_c01_mtl_cut() { let mut t = Txt::new(); t.s("newmtl a\n"); let s = line_mtl(choose(46) as usize); let n = choose(s.len() as u32 + 1) as usize; line(&mut t, &s[..n]); free(&mut t, 2); returns_mtl(&t) }
/// numbers and things like numbers: 6 bytes of their alphabet
const NUMBYTES: &[u8] = b"0123456789+-.eE/# \t\n";
#[no_mangle]
pub fn h_c01_obj_number() {
    let mut t = Txt::new();
    t.s(["v 1 2 ", "f ", "vt ", "s "][choose(4) as usize]);
    for _ in 0..5 { let b = byte_set(NUMBYTES); t.c(b); }
    returns_obj(&t)
}
#[no_mangle]
pub fn h_c01_mtl_number() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    t.s(["Ka 1 ", "illum ", "Ns ", "map_d -texres "][choose(4) as usize]);
    for _ in 0..5 { let b = byte_set(NUMBYTES); t.c(b); }
    returns_mtl(&t)
}
/// long runs of digits, around every limit of the number types
#[no_mangle]
pub fn h_c01_digits() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    if mtl { t.s("newmtl a\n"); }
    let c = choose(6);
    t.s(if mtl { ["Ns ", "illum ", "d ", "map_d -texres ", "Ka 1 2 ", "bump -bm "][c as usize] } else { ["v 1 2 ", "f ", "s ", "lod ", "l 1/", "p 1 "][c as usize] });
    match choose(3) { 0 => {}, 1 => { t.s("-"); }, _ => { t.s("+"); } }
    let n = choose(18) + 1;
    t.digits(n);
    match choose(4) { 0 => {}, 1 => { t.s("."); }, 2 => { t.s("e9"); }, _ => { t.s(" "); } }
    if mtl { returns_mtl(&t) } else { returns_obj(&t) }
}
/// long concrete numbers, exponents at the edges
#[no_mangle]
pub fn h_c01_extremes() {
    const X: [&str; 22] = ["99999999999999999999", "123456789012345678901234567890123456789012345678901234567890", "0000000000000000000000000000000000000000000000001", "1e38", "3.5e38", "1e39", "1e-45", "1e-46", "1e400", "1e-400", "1e99999999999999999999", "-1e-99999999999999999999", "0.00000000000000000000000000000000000000000000000000001", "3.4028236e38", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "18446744073709551616"];
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    let d = t.digit();
    t.b.clear();
    let x = X[choose(22) as usize];
    if mtl {
        t.s("newmtl a\n");
        t.s(["Ns ", "illum ", "d -halo ", "map_d -texres ", "Kd xyz ", "bump -bm ", "refl -type sphere -mm 1 "][choose(7) as usize]).s(x);
        if choose(2) == 1 { t.s(" t.png"); }
    } else {
        t.s(["v ", "f ", "f 1/", "f 1//", "l ", "l 1/", "p ", "s ", "lod ", "vt ", "vn 1 2 "][choose(11) as usize]).s(x);
        if choose(2) == 1 { t.s(" ").s(x).s(" ").s(x); }
    }
    t.s(" #").c(b'0' + d as u8);
    if mtl { returns_mtl(&t) } else { returns_obj(&t) }
}
/// characters of every length where keywords, numbers and names stand
#[no_mangle]
pub fn h_c01_unicode() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    let c = choose(8);
    t.s(if mtl { ["", "newmtl ", "newmtl a\nmap_", "newmtl a\nKa ", "newmtl a\nmap_d ", "newmtl a\nmap_d -", "newmtl a\nrefl -type ", "newmtl a\nKa spectral "][c as usize] } else { ["", "v", "g ", "use", "f 1 ", "mtllib ", "#", "s o"][c as usize] });
    let n = choose(3);
    match n { 0 => { let a = byte_in(0xc2, 0xdf); t.c(a); }, 1 => { let a = byte_in(0xe0, 0xef); t.c(a); }, _ => { let a = byte_in(0xf0, 0xf4); t.c(a); } }
    for _ in 0..n + 1 { let a = byte_in(0x80, 0xbf); t.c(a); }
    match choose(5) { 0 => {}, 1 => { t.s(" 1 1 1"); }, 2 => { t.s("d 1"); }, 3 => { t.s("\u{212a}\n"); }, _ => { t.s("\r\n1"); } }
    if mtl { returns_mtl(&t) } else { returns_obj(&t) }
}
/// long lines, many lines, deep nesting of parts
#[no_mangle]
pub fn h_c01_big() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    if mtl { t.s("newmtl a\n"); }
    let n = [40, 150][choose(2) as usize];
    let d = t.digit();
    t.b.pop();
    let c = choose(9);
    for i in 0..n {
        match c {
            0 => { t.s("/"); }, 1 => { t.s(" "); }, 2 => { t.s("\n"); }, 3 => { t.s(if mtl { "Ns 1\n" } else { "v 1 2 3\n" }); },
            4 => { t.s(if mtl { "-clamp " } else { "f 1 " }); }, 5 => { t.s("x"); }, 6 => { t.s("1 "); }, 7 => { t.s("#\r\n"); }, _ => { t.s(if i == 0 { "g " } else { "\u{e9}" }); },
        }
    }
    t.c(b'0' + d as u8);
    if mtl { returns_mtl(&t) } else { returns_obj(&t) }
}
#[no_mangle]
pub fn h_c01t_obj_free7() { let mut t = Txt::new(); free(&mut t, 7); returns_obj(&t) }
#[no_mangle]
pub fn h_c01t_mtl_free7() { let mut t = Txt::new(); free(&mut t, 7); returns_mtl(&t) }
#[no_mangle]
pub fn h_c01t_obj_kw6() { let mut t = Txt::new(); t.s(OKW[choose(20) as usize]); free(&mut t, 6); returns_obj(&t) }
#[no_mangle]
pub fn h_c01t_mtl_kw6() { let mut t = Txt::new(); t.s("newmtl a\n"); t.s(MKWS[choose(22) as usize]); free(&mut t, 6); returns_mtl(&t) }
#[no_mangle]
pub fn h_c01t_obj_cut3() { let mut t = Txt::new(); let s = line_obj(choose(34) as usize); let n = choose(s.len() as u32 + 1) as usize; line(&mut t, &s[..n]); free(&mut t, 3); returns_obj(&t) }
#[no_mangle]
pub fn h_c01t_mtl_cut3() { let mut t = Txt::new(); t.s("newmtl a\n"); let s = line_mtl(choose(46) as usize); let n = choose(s.len() as u32 + 1) as usize; line(&mut t, &s[..n]); free(&mut t, 3); returns_mtl(&t) }
#[no_mangle]
pub fn h_c01t_big() {
    let mut t = Txt::new();
    let mtl = choose(2) == 1;
    if mtl { t.s("newmtl a\n"); }
    let n = 600;
    let d = t.digit();
    t.b.pop();
    let c = choose(5);
    for _ in 0..n { match c { 0 => { t.s(" \n"); }, 1 => { t.s("x"); }, 2 => { t.s("#\r\n"); }, 3 => { t.s("12"); }, _ => { t.s(if mtl { "d 1\n" } else { "s 1\n" }); } } }
    if c == 3 { t.s(" "); }
    t.c(b'0' + d as u8);
    if mtl { returns_mtl(&t) } else { returns_obj(&t) }
}

// ---- C16, C25: every statement counts, or the load fails ----
#[no_mangle]
pub fn h_c16_free() { let mut t = Txt::new(); let n = choose(6); free(&mut t, n); check_obj(&t) }
#[no_mangle]
pub fn h_c25_free() { let mut t = Txt::new(); let n = choose(6); t.s("newmtl a\n"); free(&mut t, n); check_mtl(&t) }
#[no_mangle]
pub fn h_c25_first() { let mut t = Txt::new(); let n = choose(7); if n == 6 { t.s("newmtl"); free(&mut t, 3); } else { free(&mut t, n); } check_mtl(&t) }
#[no_mangle]
pub fn h_c16_kw() { let mut t = Txt::new(); t.s(OKW[choose(20) as usize]); free(&mut t, 4); check_obj(&t) }
#[no_mangle]
pub fn h_c25_kw() { let mut t = Txt::new(); t.s("newmtl a\n"); t.s(MKWS[choose(22) as usize]); free(&mut t, 4); check_mtl(&t) }
/// free bytes between other statements
#[no_mangle]
pub fn h_c16_between() { let mut t = Txt::new(); t.s("v 1 2 3\n"); free(&mut t, 4); t.s("\nf 1 2\n"); check_obj(&t) }
#[no_mangle]
pub fn h_c25_between() { let mut t = Txt::new(); t.s("newmtl a\nNs 1\n"); free(&mut t, 4); t.s("\nKa 1 2 3"); check_mtl(&t) }
/// after part of a statement
#[no_mangle]
pub fn h_c16_args() {
    let mut t = Txt::new();
    t.s(["v 1 2 ", "v 1 2 3 ", "v 1 2 3 4", "vn 1 2 ", "vn 1 2 3", "vt 1 ", "vt 1 2 3", "f 1 2", "f 1/2", "f 1//2", "f 1/2/3", "f 1/", "l 1/2", "l 1 ", "p 1 ", "s o", "s 1", "lod 1", "lod 10", "bevel o", "g a", "usemtl a", "d_interp of", "usemap ", "o b"][choose(25) as usize]);
    free(&mut t, 3);
    check_obj(&t)
}
#[no_mangle]
pub fn h_c25_args() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    t.s(["Ka 1 2 ", "Kd 1 2 3", "Ks xyz", "Ks xyz 1 2 ", "Ke spectral ", "Ke spectral a.rfl ", "Ns 1", "d 1", "d -halo ", "illum 1", "map_aat o", "map_Kd -", "map_Kd -s 1 ", "map_Kd -mm 1 ", "map_Kd -clamp o", "map_Kd a.png", "bump -bm 1", "refl -type a", "refl -type a b", "map_d -texres 1", "newmtl b", "decal -o 1 2 3 "][choose(22) as usize]);
    free(&mut t, 3);
    check_mtl(&t)
}
/// one byte of a statement replaced, inserted or removed, at every place, with the statement first, between or last
fn mutate(t: &mut Txt, s: &str, free: u32) {
    let n = s.len() as u32;
    let op = choose(3);
    let at = choose(n + 1);
    assume(op == 1 || at < n);
    for (i, b) in s.bytes().enumerate() {
        if i as u32 == at {
            match op {
                0 => { for _ in 0..free { let x = byte(); t.c(x); } continue; },
                1 => for _ in 0..free { let x = byte(); t.c(x); },
                _ => continue,
            }
        }
        push(t, b);
    }
    if at == n { for _ in 0..free { let x = byte(); t.c(x); } }
}
#[no_mangle]
pub fn h_c16_mutate() {
    let mut t = Txt::new();
    let s = OST[choose(34) as usize];
    let pos = choose(3);
    if pos > 0 { t.s("v 1 2 3\n"); }
    mutate(&mut t, s, 1);
    if pos < 2 { t.s("\nf 1 2\n"); }
    check_obj(&t)
}
#[no_mangle]
pub fn h_c25_mutate() {
    let mut t = Txt::new();
    let s = MST[choose(46) as usize];
    t.s("newmtl a\n");
    let pos = choose(3);
    if pos > 0 { t.s("Ns 1\n"); }
    mutate(&mut t, s, 1);
    if pos < 2 { t.s("\nNi 2\n"); }
    check_mtl(&t)
}
/// one word of a statement removed, doubled, replaced, or the line broken or joined with the next there
const OWORDS: [&str; 12] = ["x", "0", "0.0", "v", "on", "off", "0/0", "-0", "f", "0e0", "\u{e9}", "g"];
const MWORDS: [&str; 12] = ["x", "0", "0.0", "Ka", "on", "off", "-clamp", "-0", "xyz", "d", "\u{e9}", "x.png"];
fn words_op(t: &mut Txt, s: &str, repl: &[&str; 12]) {
    let w: Vec<&str> = s.split(' ').collect();
    let op = choose(4 + 12 + 12);
    let at = choose(w.len() as u32) as usize;
    for i in 0..w.len() {
        if i > 0 { t.s(if op == 1 && i == at { "\n" } else { " " }); }
        if i == at {
            match op {
                0 => continue,
                1 => line(t, w[i]),
                2 => { line(t, w[i]); t.s(" "); line(t, w[i]); },
                3 => { line(t, w[i]); if i + 1 < w.len() { t.s(" "); line(t, w[i + 1]); } },
                4..=15 => line(t, repl[op as usize - 4]),
                _ => { line(t, w[i]); t.s(" "); line(t, repl[op as usize - 16]); },
            }
        } else { line(t, w[i]); }
    }
}
#[no_mangle]
pub fn h_c16_words() {
    let mut t = Txt::new();
    let s = OST[choose(34) as usize];
    let pos = choose(3);
    if pos > 0 { t.s("v 1 2 3\n"); }
    words_op(&mut t, s, &OWORDS);
    if pos < 2 { t.s("\nf 1 2\n"); }
    check_obj(&t)
}
#[no_mangle]
pub fn h_c25_words() {
    let mut t = Txt::new();
    let s = MST[choose(46) as usize];
    t.s("newmtl a\n");
    let pos = choose(3);
    if pos > 0 { t.s("Ns 1\n"); }
    words_op(&mut t, s, &MWORDS);
    if pos < 2 { t.s("\nNi 2\n"); }
    check_mtl(&t)
}
/// two statements on one line, with a free byte between
#[no_mangle]
pub fn h_c16_joined() {
    let mut t = Txt::new();
    line(&mut t, OST[choose(34) as usize]);
    let b = byte();
    t.c(b);
    line(&mut t, OST[choose(34) as usize]);
    check_obj(&t)
}
#[no_mangle]
pub fn h_c25_joined() {
    let mut t = Txt::new();
    t.s("newmtl a\n");
    line(&mut t, MST[choose(46) as usize]);
    let b = byte();
    t.c(b);
    line(&mut t, MST[choose(46) as usize]);
    check_mtl(&t)
}
/// an unknown word in front of good statements, at every line of a longer text
#[no_mangle]
pub fn h_c16_unknown() {
    let mut t = Txt::new();
    let at = choose(8);
    let n = choose(3) + 1;
    for i in 0..8 {
        if i == at { for _ in 0..n { let b = byte_in(b'a', b'z'); t.c(b); } t.s(["", " 1", " 1 2 3", " a.b"][choose(4) as usize]); t.s("\n"); }
        line(&mut t, OST[(i * 4 + at) as usize % 30]);
        t.s("\n");
    }
    check_obj(&t)
}
#[no_mangle]
pub fn h_c25_unknown() {
    let mut t = Txt::new();
    let at = choose(8);
    let n = choose(3) + 1;
    t.s("newmtl a\n");
    for i in 0..8 {
        if i == at { for _ in 0..n { let b = byte_in(b'a', b'z'); t.c(b); } t.s(["", " 1", " 1 2 3", " a.b"][choose(4) as usize]); t.s("\n"); }
        line(&mut t, MST[(i * 5 + at) as usize % 44]);
        t.s("\n");
    }
    check_mtl(&t)
}
#[no_mangle]
pub fn h_c16t_free6() { let mut t = Txt::new(); free(&mut t, 6); check_obj(&t) }
#[no_mangle]
pub fn h_c25t_free6() { let mut t = Txt::new(); t.s("newmtl a\n"); free(&mut t, 6); check_mtl(&t) }
#[no_mangle]
pub fn h_c16t_kw5() { let mut t = Txt::new(); t.s(OKW[choose(20) as usize]); free(&mut t, 5); check_obj(&t) }
#[no_mangle]
pub fn h_c25t_kw5() { let mut t = Txt::new(); t.s("newmtl a\n"); t.s(MKWS[choose(22) as usize]); free(&mut t, 5); check_mtl(&t) }
#[no_mangle]
pub fn h_c16t_mutate2() { let mut t = Txt::new(); let s = OST[choose(34) as usize]; if choose(2) == 1 { t.s("v 1 2 3\n"); } mutate(&mut t, s, 2); check_obj(&t) }
#[no_mangle]
pub fn h_c25t_mutate2() { let mut t = Txt::new(); let s = MST[choose(46) as usize]; t.s("newmtl a\n"); mutate(&mut t, s, 2); check_mtl(&t) }
#[no_mangle]
pub fn h_c16t_words2() { let mut t = Txt::new(); let s = OST[choose(34) as usize]; words_op(&mut t, s, &OWORDS); t.s("\n"); let s = OST[choose(34) as usize]; line(&mut t, s); t.s("\nvn 1 2 3"); check_obj(&t) }
#[no_mangle]
pub fn h_c25t_words2() { let mut t = Txt::new(); t.s("newmtl a\n"); let s = MST[choose(46) as usize]; words_op(&mut t, s, &MWORDS); t.s("\n"); let s = MST[choose(46) as usize]; line(&mut t, s); check_mtl(&t) }
