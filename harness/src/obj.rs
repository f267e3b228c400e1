//! Harnesses of the OBJ properties. `h_cNN_*` run in both tiers, `h_cNNt_*` in the thorough one.
use crate::gen::*;
use crate::sym::*;
use nobject_rs::*;

/// one statement of any other kind, with fixed arguments
pub fn other(o: &mut Obj, k: u32) {
    match k {
        0 => o.g("wing"),
        1 => o.f(&[El::V, El::VTN, El::VN], false, 1),
        2 => o.usemtl("steel"),
        3 => o.s(1),
        4 => o.comment(" v 9 9 9"),
        5 => o.l(&[false, true], false, 1),
        6 => o.p(2, false, 1),
        7 => o.o("thing"),
        8 => o.mtllib("a.mtl"),
        9 => o.usemap("bricks"),
        10 => o.bevel(true),
        11 => o.lod(2),
        12 => o.shadow("sh.obj"),
        13 => o.s_off(),
        14 => o.maplib("m.map"),
        15 => o.v(false, &[I1]),
        16 => o.vn(&[I1]),
        17 => o.vt(2, &[I1]),
        18 => o.trace("tr.obj"),
        19 => o.c_interp(true),
        20 => o.d_interp(true),
        _ => o.blank(),
    }
}
pub const OTHERS: u32 = 22;

// ---- C03 vertices ----
fn c03_end(o: Obj) { let m = o.load(); cmp_vertices(&o.v, &m.vertices); cover(0); }
const MIX: [Form; 4] = [form(b'-', 1, true, 1), form(0, 2, false, 0), form(0, 0, true, 2), form(0, 1, true, 0)];
/// every sequence of up to 4 statements: 3- and 4-component vertices, vn, vt, f
#[no_mangle]
pub fn h_c03_seq() {
    let mut o = Obj::new();
    let n = choose(5);
    for _ in 0..n {
        match choose(5) { 0 => o.v(false, &[NF12]), 1 => o.v(true, &[F11]), 2 => o.vn(&[F11]), 3 => o.vt(3, &[I1]), _ => o.f(&[El::V, El::VTN], false, 1) }
    }
    c03_end(o)
}
/// a vertex before and after each other kind of statement, in every number form per component
#[no_mangle]
pub fn h_c03_forms() {
    let f = [MIX[choose(4) as usize], MIX[choose(4) as usize], MIX[choose(4) as usize], MIX[choose(4) as usize]];
    let mut o = Obj::new();
    let w = choose(2) == 1;
    o.v(w, &f);
    o.v(!w, &[f[2], f[0], f[3], f[1]]);
    c03_end(o)
}
#[no_mangle]
pub fn h_c03_among() {
    let mut o = Obj::new();
    o.v(false, &[F11]);
    let k = choose(OTHERS);
    other(&mut o, k);
    o.v(true, &[NI1]);
    let k = choose(OTHERS);
    other(&mut o, k);
    o.v(false, &[I2]);
    c03_end(o)
}
/// many vertices
#[no_mangle]
pub fn h_c03_many() {
    let mut o = Obj::new();
    let n = [9, 17, 33, 70][choose(4) as usize];
    for i in 0..n { if i % 8 == 7 { o.v(true, &[I1]) } else if i % 16 == 3 { o.vn(&[I1]) } else { o.v(false, &[I1]) } }
    c03_end(o)
}
#[no_mangle]
pub fn h_c03t_seq6() {
    let mut o = Obj::new();
    for _ in 0..6 {
        match choose(5) { 0 => o.v(false, &[NF12]), 1 => o.v(true, &[F11]), 2 => o.vn(&[F11]), 3 => o.g("a"), _ => o.f(&[El::V, El::VTN], false, 1) }
    }
    c03_end(o)
}
#[no_mangle]
pub fn h_c03t_many() {
    let mut o = Obj::new();
    let n = [130, 270][choose(2) as usize];
    for i in 0..n { if i % 8 == 7 { o.v(true, &[I1]) } else { o.v(false, &[I1]) } }
    c03_end(o)
}
#[no_mangle]
pub fn h_c03t_among3() {
    let mut o = Obj::new();
    for _ in 0..3 { let k = choose(OTHERS); other(&mut o, k); let w = choose(2) == 1; o.v(w, &[F11]); }
    c03_end(o)
}

// ---- C04 normals, texture coordinates ----
fn c04_end(o: Obj) { let m = o.load(); cmp_normals(&o.n, &m.normals); cmp_textures(&o.tc, &m.textures); cover(0); }
#[no_mangle]
pub fn h_c04_seq() {
    let mut o = Obj::new();
    let n = choose(5);
    for _ in 0..n {
        match choose(5) { 0 => o.vn(&[NF12]), 1 => o.vt(1, &[F11]), 2 => o.vt(2, &[F11]), 3 => o.vt(3, &[I1]), _ => o.v(true, &[I1]) }
    }
    c04_end(o)
}
#[no_mangle]
pub fn h_c04_forms() {
    let f = [MIX[choose(4) as usize], MIX[choose(4) as usize], MIX[choose(4) as usize]];
    let mut o = Obj::new();
    let n = choose(3) as usize + 1;
    o.vt(n, &f);
    o.vn(&[f[1], f[2], f[0]]);
    o.vt(4 - n, &f);
    c04_end(o)
}
#[no_mangle]
pub fn h_c04_among() {
    let mut o = Obj::new();
    o.vn(&[F11]);
    let k = choose(OTHERS);
    other(&mut o, k);
    let n = choose(3) as usize + 1;
    o.vt(n, &[NI1]);
    let k = choose(OTHERS);
    other(&mut o, k);
    o.vn(&[I2]);
    c04_end(o)
}
#[no_mangle]
pub fn h_c04_many() {
    let mut o = Obj::new();
    let n = [9, 17, 33, 70][choose(4) as usize];
    for i in 0..n { match i % 5 { 0 => o.vt(1, &[I1]), 1 => o.vn(&[I1]), 2 => o.vt(3, &[I1]), 3 => o.vt(2, &[I1]), _ => o.vn(&[I1]) } }
    c04_end(o)
}
#[no_mangle]
pub fn h_c04t_seq6() {
    let mut o = Obj::new();
    for _ in 0..6 {
        match choose(5) { 0 => o.vn(&[NF12]), 1 => o.vt(1, &[F11]), 2 => o.vt(2, &[F11]), 3 => o.vt(3, &[I1]), _ => o.v(true, &[I1]) }
    }
    c04_end(o)
}
#[no_mangle]
pub fn h_c04t_many() {
    let mut o = Obj::new();
    for i in 0..270 { if i % 2 == 0 { o.vt(1 + i % 3, &[I1]) } else { o.vn(&[I1]) } }
    c04_end(o)
}

// ---- C06 faces ----
fn c06_end(o: Obj) { let m = o.load(); cmp_faces(&o, &m, false); cover(0); }
/// every face of 1 to 4 elements in any mix of the four forms
#[no_mangle]
pub fn h_c06_mix() {
    let n = choose(4) as usize + 1;
    let mut els = vec![];
    for _ in 0..n { els.push(ELS[choose(4) as usize]); }
    let mut o = Obj::new();
    o.f(&els, false, 2);
    c06_end(o)
}
/// each index of a face with its own sign and number of digits
#[no_mangle]
pub fn h_c06_values() {
    let a = ELS[choose(4) as usize];
    let b = ELS[choose(4) as usize];
    let mut o = Obj::new();
    o.f_with(&[a, b], &|t, k| {
        let c = if k < 4 { choose(3) } else { 2 };
        match c { 0 => int(t, false, 1), 1 => int(t, true, 1), _ => int(t, k % 2 == 1, 3) }
    });
    c06_end(o)
}
/// the full range of an index: up to 10 digits
#[no_mangle]
pub fn h_c06_range() {
    let e = ELS[choose(4) as usize];
    let nd = choose(9) + 1;
    let neg = choose(2) == 1;
    let mut o = Obj::new();
    o.f(&[e, El::V, e], neg, nd);
    c06_end(o)
}
/// several faces, in order
#[no_mangle]
pub fn h_c06_faces() {
    let mut o = Obj::new();
    let n = choose(4) + 1;
    for _ in 0..n {
        match choose(4) { 0 => o.f(&[El::V, El::V, El::V], false, 1), 1 => o.f(&[El::VTN, El::VT], true, 1), 2 => o.f(&[El::VN, El::VN, El::VN, El::VN], false, 2), _ => other(&mut o, 15) }
    }
    c06_end(o)
}
/// long faces
#[no_mangle]
pub fn h_c06_long() {
    let n = [5, 8, 9, 12, 16, 17, 25, 33, 65][choose(9) as usize];
    let e = ELS[choose(4) as usize];
    let mut o = Obj::new();
    let els: Vec<El> = (0..n).map(|i| if i % 7 == 6 { ELS[i % 4] } else { e }).collect();
    o.f_with(&els, &|t, k| int(t, k % 3 == 2, 1));
    c06_end(o)
}
#[no_mangle]
pub fn h_c06_many() {
    let mut o = Obj::new();
    let n = [20, 50][choose(2) as usize];
    for i in 0..n { o.f(&[ELS[i % 4], ELS[(i / 4) % 4], El::V], i % 5 == 0, 1); }
    c06_end(o)
}
#[no_mangle]
pub fn h_c06t_mix6() {
    let n = choose(2) as usize + 5;
    let mut els = vec![];
    for _ in 0..n { els.push(ELS[choose(4) as usize]); }
    let mut o = Obj::new();
    o.f(&els, true, 1);
    c06_end(o)
}
#[no_mangle]
pub fn h_c06t_long() {
    let n = [129, 260][choose(2) as usize];
    let e = ELS[choose(4) as usize];
    let mut o = Obj::new();
    let els: Vec<El> = (0..n).map(|_| e).collect();
    o.f(&els, false, 1);
    c06_end(o)
}
#[no_mangle]
pub fn h_c06t_values3() {
    let mut o = Obj::new();
    let els = [ELS[choose(4) as usize], ELS[choose(4) as usize], ELS[choose(4) as usize]];
    o.f_with(&els, &|t, k| { let neg = if k < 5 { choose(2) == 1 } else { false }; int(t, neg, 2) });
    c06_end(o)
}

// ---- C07 lines, points ----
fn c07_end(o: Obj) { let m = o.load(); cmp_lines(&o, &m); cmp_points(&o, &m); cover(0); }
#[no_mangle]
pub fn h_c07_lines() {
    let n = choose(5) as usize + 1;
    let mut els = vec![];
    for _ in 0..n { els.push(choose(2) == 1); }
    let neg = choose(2) == 1;
    let mut o = Obj::new();
    o.l(&els, neg, 2);
    c07_end(o)
}
#[no_mangle]
pub fn h_c07_points() {
    let n = choose(6) as usize + 1;
    let mut o = Obj::new();
    o.p_with(n, &|t, k| { let c = if k < 4 { choose(3) } else { 0 }; match c { 0 => int(t, false, 1), 1 => int(t, true, 2), _ => int(t, false, 3) } });
    c07_end(o)
}
#[no_mangle]
pub fn h_c07_range() {
    let nd = choose(9) + 1;
    let neg = choose(2) == 1;
    let mut o = Obj::new();
    match choose(3) { 0 => o.p(2, neg, nd), 1 => o.l(&[true, false], neg, nd), _ => o.l(&[false, true], neg, nd) }
    c07_end(o)
}
#[no_mangle]
pub fn h_c07_seq() {
    let mut o = Obj::new();
    let n = choose(4) + 1;
    for _ in 0..n {
        match choose(5) { 0 => o.l(&[false, false], false, 1), 1 => o.l(&[true, true, true], false, 1), 2 => o.p(1, false, 1), 3 => o.p(3, true, 1), _ => o.f(&[El::V, El::VT], false, 1) }
    }
    c07_end(o)
}
#[no_mangle]
pub fn h_c07_long() {
    let n = [7, 9, 16, 17, 33, 65][choose(6) as usize];
    let mut o = Obj::new();
    let k = choose(3);
    if k == 2 { o.p_with(n, &|t, k| int(t, k % 3 == 2, 1)) } else { let els: Vec<bool> = (0..n).map(|i| (i % 5 == 0) ^ (k == 0)).collect(); o.l_with(&els, &|t, k| int(t, k % 4 == 1, 1)) }
    c07_end(o)
}
#[no_mangle]
pub fn h_c07_many() {
    let mut o = Obj::new();
    for i in 0..40 { if i % 2 == 0 { o.l(&[i % 3 == 0, true], false, 1) } else { o.p(1 + i % 3, i % 4 == 1, 1) } }
    c07_end(o)
}
#[no_mangle]
pub fn h_c07t_long() {
    let n = [129, 260][choose(2) as usize];
    let mut o = Obj::new();
    let k = choose(3);
    if k == 2 { o.p(n, false, 1) } else { let els: Vec<bool> = (0..n).map(|_| k == 0).collect(); o.l(&els, false, 1) }
    c07_end(o)
}
#[no_mangle]
pub fn h_c07t_seq6() {
    let mut o = Obj::new();
    for _ in 0..6 {
        match choose(5) { 0 => o.l(&[false, false], false, 1), 1 => o.l(&[true, true, true], false, 1), 2 => o.p(1, false, 1), 3 => o.p(3, true, 1), _ => o.g("b") }
    }
    c07_end(o)
}

// ---- C08 group membership ----
fn c08_end(o: Obj) { let m = o.load(); cmp_group_set(&o, &m); cmp_faces(&o, &m, false); cmp_lines(&o, &m); cmp_points(&o, &m); cover(0); }
pub const GN: [&str; 4] = ["a", "wing left", "default", "B.1"];
fn elem(o: &mut Obj, k: u32) { match k { 0 => o.f(&[El::V, El::VN], false, 1), 1 => o.l(&[false, true], false, 1), _ => o.p(2, false, 1) } }
/// histories of 5 steps: two groups, default, and the three kinds of element
#[no_mangle]
pub fn h_c08_hist() {
    let mut o = Obj::new();
    for _ in 0..5 { let k = choose(5); if k < 3 { elem(&mut o, k) } else { o.g(GN[k as usize - 3]) } }
    c08_end(o)
}
/// group names of free letters, with returns to an earlier one
#[no_mangle]
pub fn h_c08_names() {
    let mut o = Obj::new();
    let mut names: Vec<String> = vec![];
    for _ in 0..3 {
        let n = choose(2) + 1;
        let mut s = String::new();
        for _ in 0..n { s.push(byte_set(b"aAb_") as char); }
        o.g(&s);
        let k = choose(3);
        elem(&mut o, k);
        names.push(s);
    }
    o.g(&names[0]);
    elem(&mut o, 0);
    o.g("default");
    elem(&mut o, 1);
    c08_end(o)
}
/// other statements never change membership
#[no_mangle]
pub fn h_c08_among() {
    let mut o = Obj::new();
    if choose(2) == 1 { o.g("a"); }
    elem(&mut o, 0);
    let k = choose(OTHERS);
    other(&mut o, k);
    elem(&mut o, 1);
    o.g("c");
    let k = choose(OTHERS);
    other(&mut o, k);
    elem(&mut o, 2);
    elem(&mut o, 0);
    c08_end(o)
}
/// a face element of each kind after every pair of group switches among four names
#[no_mangle]
pub fn h_c08_return() {
    let mut o = Obj::new();
    for _ in 0..4 { let g = choose(4); o.g(GN[g as usize]); elem(&mut o, g % 3); }
    c08_end(o)
}
#[no_mangle]
pub fn h_c08_many() {
    let mut o = Obj::new();
    let n = [10, 20, 40][choose(3) as usize];
    for i in 0..n {
        let mut s = String::from("grp");
        s.push((b'a' + (i % 13) as u8) as char);
        if i >= 26 { s.push_str("_2"); }
        o.g(&s);
        elem(&mut o, i % 3);
        if i % 7 == 3 { o.g("default"); elem(&mut o, 0); }
    }
    c08_end(o)
}
#[no_mangle]
pub fn h_c08t_hist7() {
    let mut o = Obj::new();
    for _ in 0..7 { let k = choose(4); match k { 0 => elem(&mut o, 0), 1 => elem(&mut o, 2), _ => o.g(GN[k as usize - 2]) } }
    c08_end(o)
}
#[no_mangle]
pub fn h_c08t_names3() {
    let mut o = Obj::new();
    for _ in 0..3 {
        let mut s = String::new();
        for _ in 0..3 { s.push(byte_set(b"aAbB_. ") as char); }
        assume(!s.starts_with(' ') && !s.ends_with(' '));
        o.g(&s);
        elem(&mut o, 0);
    }
    c08_end(o)
}

// ---- C09 smoothing ----
fn c09_end(o: Obj) { let m = o.load(); cmp_faces(&o, &m, true); cover(0); }
#[no_mangle]
pub fn h_c09_hist() {
    let mut o = Obj::new();
    for _ in 0..5 { match choose(5) { 0 => o.f(&[El::V], false, 1), 1 => o.s(2), 2 => o.s_off(), 3 => o.g("a"), _ => o.usemtl("b") } }
    o.f(&[El::V, El::V], false, 1);
    c09_end(o)
}
#[no_mangle]
pub fn h_c09_among() {
    let mut o = Obj::new();
    if choose(2) == 1 { o.s(1); }
    for _ in 0..2 { let k = choose(OTHERS); other(&mut o, k); o.f(&[El::V, El::VT], false, 1); }
    c09_end(o)
}
/// every non-negative number of up to 9 digits, and off in every letter case
#[no_mangle]
pub fn h_c09_values() {
    let mut o = Obj::new();
    o.f(&[El::V], false, 1);
    let nd = choose(9) + 1;
    o.s(nd);
    o.f(&[El::V], false, 1);
    o.t.kw("s ");
    let (a, b, c) = (byte_set(b"oO"), byte_set(b"fF"), byte_set(b"fF"));
    o.t.c(a).c(b).c(c).nl();
    o.smooth = 0;
    o.f(&[El::V], false, 1);
    c09_end(o)
}
#[no_mangle]
pub fn h_c09_many() {
    let mut o = Obj::new();
    for i in 0..24 { if i % 3 != 2 { o.s(1); } if i % 4 == 1 { o.g(GN[(i / 4) % 4]); } if i % 9 == 8 { o.s_off(); } o.f(&[El::V], false, 1); }
    c09_end(o)
}
#[no_mangle]
pub fn h_c09t_hist7() {
    let mut o = Obj::new();
    for _ in 0..7 { match choose(4) { 0 => o.f(&[El::V], false, 1), 1 => o.s(1), 2 => o.s_off(), _ => o.g("a") } }
    o.f(&[El::V, El::V], false, 1);
    c09_end(o)
}

// ---- C10 usemtl, usemap ----
fn c10_end(o: Obj) { let m = o.load(); cmp_group_materials(&o, &m); cover(0); }
const MN: [&str; 3] = ["steel", "Red Paint", "01-x"];
/// a name with a free letter
fn nm(base: &str) -> String { let mut s = base.to_string(); s.push(byte_in(b'A', b'z') as char); s }
#[no_mangle]
pub fn h_c10_hist() {
    let mut o = Obj::new();
    for _ in 0..5 {
        match choose(6) { 0 => o.g("a"), 1 => o.g("default"), 2 => { let n = nm(MN[0]); o.usemtl(&n) }, 3 => { let n = nm(MN[1]); o.usemtl(&n) }, 4 => { let n = nm("bricks"); o.usemap(&n) }, _ => { let n = nm("wood"); o.usemap(&n) } }
    }
    c10_end(o)
}
#[no_mangle]
pub fn h_c10_among() {
    let mut o = Obj::new();
    let n = nm("first"); o.usemtl(&n);
    let k = choose(OTHERS);
    other(&mut o, k);
    if choose(2) == 1 { let n = nm("tex"); o.usemap(&n); } else { let n = nm("second"); o.usemtl(&n); }
    let k = choose(OTHERS);
    other(&mut o, k);
    c10_end(o)
}
#[no_mangle]
pub fn h_c10_names() {
    let mut o = Obj::new();
    for i in 0..4u32 {
        let mut s = String::new();
        let n = choose(3) + 1;
        for _ in 0..n { s.push(byte_in(b'a', b'z') as char); }
        if i == 2 { o.g("other"); }
        if choose(2) == 1 { o.usemtl(&s) } else { o.usemap(&s) }
    }
    o.g("default");
    c10_end(o)
}
#[no_mangle]
pub fn h_c10_many() {
    let mut o = Obj::new();
    for i in 0..30usize {
        match i % 5 { 0 => o.g(GN[(i / 5) % 4]), 1 => { let n = nm(MN[i % 3]); o.usemtl(&n) }, 3 => { let n = nm(MN[(i / 2) % 3]); o.usemap(&n) }, _ => o.f(&[El::V, El::V, El::V], false, 1) }
    }
    c10_end(o)
}
#[no_mangle]
pub fn h_c10t_hist6() {
    let mut o = Obj::new();
    for _ in 0..6 {
        match choose(6) { 0 => o.g("a"), 1 => o.g("default"), 2 => { let n = nm(MN[0]); o.usemtl(&n) }, 3 => { let n = nm(MN[1]); o.usemtl(&n) }, 4 => { let n = nm("bricks"); o.usemap(&n) }, _ => o.f(&[El::V], false, 1) }
    }
    c10_end(o)
}
#[no_mangle]
pub fn h_c10t_groups() {
    let mut o = Obj::new();
    for _ in 0..4 { let g = choose(4); o.g(GN[g as usize]); match choose(3) { 0 => { let n = nm(MN[0]); o.usemtl(&n) }, 1 => { let n = nm(MN[1]); o.usemtl(&n) }, _ => { let n = nm(MN[2]); o.usemap(&n) } } }
    c10_end(o)
}

// ---- C11 libraries ----
fn c11_end(o: Obj) { let m = o.load(); cmp_libs(&o, &m); cover(0); }
fn word(n: u32) -> String { let mut s = String::new(); for _ in 0..n { s.push(byte_in(b'a', b'z') as char); } s }
#[no_mangle]
pub fn h_c11_seq() {
    let mut o = Obj::new();
    let n = choose(5);
    for _ in 0..n { match choose(4) { 0 => { let w = word(2); o.mtllib(&w) }, 1 => { let w = word(2); o.maplib(&w) }, 2 => o.v(false, &[I1]), _ => o.g("mtl") } }
    c11_end(o)
}
/// names that repeat, in both lists
#[no_mangle]
pub fn h_c11_same() {
    let mut o = Obj::new();
    for _ in 0..4 { let n = nm(["x.mtl", "X.mtl", "y y.mtl"][choose(3) as usize]); if choose(2) == 1 { o.mtllib(&n) } else { o.maplib(&n) } }
    c11_end(o)
}
#[no_mangle]
pub fn h_c11_among() {
    let mut o = Obj::new();
    let k = choose(OTHERS);
    other(&mut o, k);
    o.mtllib("one.mtl");
    let k = choose(OTHERS);
    other(&mut o, k);
    o.maplib("two.map");
    o.mtllib("three.mtl");
    c11_end(o)
}
#[no_mangle]
pub fn h_c11_many() {
    let mut o = Obj::new();
    let n = [9, 20, 40][choose(3) as usize];
    for i in 0..n { let mut w = word(1); w.push((b'a' + (i % 26) as u8) as char); if i % 3 == 2 { o.maplib(&w) } else { o.mtllib(&w) } }
    c11_end(o)
}
#[no_mangle]
pub fn h_c11t_seq6() {
    let mut o = Obj::new();
    for _ in 0..6 { match choose(4) { 0 => { let w = word(1); o.mtllib(&w) }, 1 => { let w = word(3); o.maplib(&w) }, 2 => o.usemtl("q"), _ => o.g("mtl") } }
    c11_end(o)
}
#[no_mangle]
pub fn h_c11t_among3() {
    let mut o = Obj::new();
    for i in 0..3 { let k = choose(OTHERS); other(&mut o, k); if i % 2 == 0 { o.mtllib("one.mtl") } else { o.maplib("two.map") } }
    c11_end(o)
}

// ---- C12 display attributes ----
fn c12_end(o: Obj) { let m = o.load(); cmp_group_display(&o, &m); cover(0); }
#[no_mangle]
pub fn h_c12_hist() {
    let mut o = Obj::new();
    for _ in 0..4 {
        match choose(8) { 0 => o.g("a"), 1 => o.g("default"), 2 => { let b = choose(2) == 1; o.bevel(b) }, 3 => { let b = choose(2) == 1; o.c_interp(b) }, 4 => { let b = choose(2) == 1; o.d_interp(b) }, 5 => o.lod(2), 6 => o.shadow("sh.obj"), _ => o.trace("tr.obj") }
    }
    c12_end(o)
}
/// every spelling of the switches, every level
#[no_mangle]
pub fn h_c12_spelling() {
    let mut o = Obj::new();
    let k = choose(3);
    o.t.kw(["bevel ", "c_interp ", "d_interp "][k as usize]);
    let on = choose(2) == 1;
    let a = byte_set(b"oO");
    o.t.c(a);
    if on { let b = byte_set(b"nN"); o.t.c(b); } else { let (b, c) = (byte_set(b"fF"), byte_set(b"fF")); o.t.c(b).c(c); }
    o.t.nl();
    let g = o.grp();
    match k { 0 => g.bevel = on, 1 => g.c_interp = on, _ => g.d_interp = on }
    c12_end(o)
}
#[no_mangle]
pub fn h_c12_lod() {
    let mut o = Obj::new();
    match choose(4) { 0 => o.lod(1), 1 => o.lod(2), 2 => { o.arg("lod", "100"); o.grp().lod = 100; }, _ => { o.lod(2); o.g("n"); o.lod(1); } }
    c12_end(o)
}
#[no_mangle]
pub fn h_c12_files() {
    let mut o = Obj::new();
    for _ in 0..3 { let w = word(2); match choose(3) { 0 => o.shadow(&w), 1 => o.trace(&w), _ => o.g(&w) } }
    c12_end(o)
}
#[no_mangle]
pub fn h_c12_among() {
    let mut o = Obj::new();
    o.bevel(true); o.lod(2);
    let k = choose(OTHERS);
    other(&mut o, k);
    o.shadow("one"); o.d_interp(true);
    let k = choose(OTHERS);
    other(&mut o, k);
    c12_end(o)
}
#[no_mangle]
pub fn h_c12t_hist5() {
    let mut o = Obj::new();
    for _ in 0..5 {
        match choose(8) { 0 => o.g("a"), 1 => o.g("default"), 2 => { let b = choose(2) == 1; o.bevel(b) }, 3 => { let b = choose(2) == 1; o.c_interp(b) }, 4 => { let b = choose(2) == 1; o.d_interp(b) }, 5 => o.lod(2), 6 => o.shadow("sh.obj"), _ => o.f(&[El::V], false, 1) }
    }
    c12_end(o)
}

// ---- C15 statements are independent; texts compose ----
/// the statements of a part, with free digits
fn part(o: &mut Obj, k: u32) {
    match k {
        0 => { o.v(false, &[F11]); },
        1 => { o.v(true, &[I1]); o.vt(1, &[I1]); },
        2 => { o.vt(2, &[F11]); },
        3 => { o.vn(&[NI1]); o.vt(3, &[I1]); },
        4 => { o.g("a"); o.f(&[El::V, El::VN], false, 1); },
        5 => { o.f(&[El::VTN], true, 1); },
        6 => { o.mtllib("one.mtl"); },
        7 => { o.maplib("two.map"); o.l(&[true, false], false, 1); },
        8 => { o.p(2, false, 1); },
        9 => { o.s(1); o.f(&[El::V], false, 1); },
        10 => { o.usemtl("m"); o.l(&[false], false, 1); },
        _ => { o.comment(" end"); },
    }
}
#[no_mangle]
pub fn h_c15_concat() {
    // the parts on their own
    let (a, b) = (choose(12), choose(12));
    let mut o = Obj::new();
    part(&mut o, a);
    let na = o.t.b.len();
    part(&mut o, b);
    let text = o.t.str();
    let (ta, tb) = (&text[..na], &text[na..]);
    let (ma, mb, m) = match (load_obj(ta), load_obj(tb), load_obj(text)) { (Ok(x), Ok(y), Ok(z)) => (x, y, z), _ => fail(1) };
    let mut v = ma.vertices.clone(); v.extend(mb.vertices); cmp_vertices(&v, &m.vertices);
    let mut v = ma.normals.clone(); v.extend(mb.normals); cmp_normals(&v, &m.normals);
    let mut v = ma.textures.clone(); v.extend(mb.textures); cmp_textures(&v, &m.textures);
    let mut v = ma.material_libs.clone(); v.extend(mb.material_libs); if v != m.material_libs { fail(80) }
    let mut v = ma.texture_libs.clone(); v.extend(mb.texture_libs); if v != m.texture_libs { fail(82) }
    cmp_faces(&o, &m, false);
    cmp_lines(&o, &m);
    cmp_points(&o, &m);
    cover(0);
}
/// what a statement yields after every pair of statements
#[no_mangle]
pub fn h_c15_context() {
    let mut o = Obj::new();
    let (a, b) = (choose(OTHERS), choose(OTHERS));
    other(&mut o, a);
    other(&mut o, b);
    match choose(6) { 0 => o.v(true, &[F11]), 1 => o.vn(&[F11]), 2 => o.vt(2, &[F11]), 3 => o.f(&[El::VTN, El::VT], false, 1), 4 => o.l(&[true, true], false, 1), _ => o.p(2, true, 1) }
    let m = o.load();
    cmp_vertices(&o.v, &m.vertices);
    cmp_normals(&o.n, &m.normals);
    cmp_textures(&o.tc, &m.textures);
    cmp_faces(&o, &m, false);
    cmp_lines(&o, &m);
    cmp_points(&o, &m);
    cmp_libs(&o, &m);
    cover(0);
}
/// a statement after many others
#[no_mangle]
pub fn h_c15_long() {
    let mut o = Obj::new();
    let k = choose(OTHERS - 1);
    let n = [8, 16, 31][choose(3) as usize];
    for _ in 0..n { other(&mut o, k); }
    o.v(true, &[F11]); o.f(&[El::VTN, El::V], false, 1); o.vt(1, &[I1]); o.p(1, false, 1); o.l(&[true], false, 1); o.vn(&[F11]);
    let m = o.load();
    cmp_vertices(&o.v, &m.vertices);
    cmp_normals(&o.n, &m.normals);
    cmp_textures(&o.tc, &m.textures);
    cmp_faces(&o, &m, false);
    cmp_lines(&o, &m);
    cmp_points(&o, &m);
    cmp_libs(&o, &m);
    cover(0);
}
#[no_mangle]
pub fn h_c15t_context3() {
    let mut o = Obj::new();
    for _ in 0..3 { let k = choose(OTHERS); other(&mut o, k); }
    o.v(true, &[F11]); o.f(&[El::VTN, El::VT], false, 1); o.vt(2, &[F11]); o.p(2, true, 1); o.l(&[true, true], false, 1); o.vn(&[F11]);
    let m = o.load();
    cmp_vertices(&o.v, &m.vertices);
    cmp_normals(&o.n, &m.normals);
    cmp_textures(&o.tc, &m.textures);
    cmp_faces(&o, &m, false);
    cmp_lines(&o, &m);
    cmp_points(&o, &m);
    cmp_libs(&o, &m);
    cover(0);
}
