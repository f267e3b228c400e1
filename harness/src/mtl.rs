//! Harnesses of the MTL properties. `h_cNN_*` run in both tiers, `h_cNNt_*` in the thorough one.
use crate::gen::*;
use crate::genm::*;
use crate::sym::*;
use nobject_rs::*;

pub const MIX: [Form; 4] = [form(b'-', 1, true, 1), form(0, 2, false, 0), form(0, 0, true, 2), form(b'+', 1, true, 0)];
pub fn mix() -> Form { MIX[choose(4) as usize] }
/// a word of free letters
pub fn word(n: u32) -> String { let mut s = String::new(); for _ in 0..n { s.push(byte_in(b'a', b'z') as char); } s }
/// a file name with free letters
pub fn file(n: u32) -> String { let mut s = word(n); s.push_str(".png"); s }

/// one setting statement of every kind and form, with free digits
pub fn setting(o: &mut Mtl, k: u32) {
    match k {
        0..=4 => o.rgb(k as usize, &[F11]),
        5..=9 => o.xyz(k as usize - 5, (k as usize - 5) % 3 + 1, &[I1]),
        10..=14 => { let f = file(1); let fac = if k % 2 == 0 { Some(F11) } else { None }; o.spectral(k as usize - 10, &f, fac) },
        15..=20 => o.scalar(k as usize - 15, F11),
        21 => o.illum(1),
        22 => o.aat(true),
        23 => o.map(0, &["-cc", "-s"], "a.png", I1),
        24 => o.map(1, &["-mm"], "b.png", I1),
        25 => o.map(2, &["-texres", "-clamp"], "c.png", I1),
        26 => o.map(3, &["-imfchan", "-o"], "d.png", I1),
        27 => o.map(4, &["-blendu", "-blendv"], "e.png", I1),
        28 => o.map(5, &["-t"], "f.png", I1),
        29 => o.map(6, &[], "g.png", I1),
        30 => o.map(7, &["-s", "-imfchan"], "h.png", I1),
        31 => o.bump(&["-bm", "-o"], "i.png", F11),
        32 => o.refl(&["-type", "-mm"], "j.png", I1),
        33 => o.comment(" newmtl x Ka 1 1 1"),
        _ => o.blank(),
    }
}
pub const SETTINGS: u32 = 35;
/// the same kinds of statement in another form: other options, none at all, or another colour type
pub fn setting2(o: &mut Mtl, k: u32) {
    match k {
        0..=4 => { let f = file(1); o.spectral(k as usize, &f, None) },
        5..=9 => o.rgb(k as usize - 5, &[I1]),
        10..=14 => o.xyz(k as usize - 10, 1, &[F11]),
        15..=18 => o.scalar(k as usize - 15, I2),
        19 => o.scalar(5, I2),
        20 => o.scalar(4, I2),
        21 => o.illum(2),
        22 => o.aat(false),
        23 => o.map(0, &["-blendu", "-texres"], "a2.png", I1),
        24 => o.map(1, &[], "b2.png", I1),
        25 => o.map(2, &["-t"], "c2.png", I1),
        26 => o.map(3, &["-s"], "d2.png", I1),
        27 => o.map(4, &[], "e2.png", I1),
        28 => o.map(6, &["-mm"], "f2.png", I1),
        29 => o.map(5, &["-imfchan"], "g2.png", I1),
        30 => o.map(7, &[], "h2.png", I1),
        31 => o.bump(&["-clamp"], "i2.png", F11),
        32 => o.refl(&["-type"], "j2.png", I1),
        33 => o.comment("#"),
        _ => o.blank(),
    }
}
fn end_all(o: Mtl) { let m = o.load(); cmp_materials(&o.m, &m); cover(0); }

// ---- C17 materials in order, settings belong to the nearest one ----
/// histories of materials with free names and settings
#[no_mangle]
pub fn h_c17_hist() {
    let mut o = Mtl::new();
    let w = word(2);
    o.newmtl(&w);
    for _ in 0..5 {
        match choose(5) { 0 => { let w = word(1); o.newmtl(&w) }, 1 => o.rgb(1, &[I1]), 2 => o.scalar(0, F11), 3 => o.aat(true), _ => o.map(1, &["-clamp"], "t.png", I1) }
    }
    end_all(o)
}
/// names that repeat
#[no_mangle]
pub fn h_c17_same() {
    let mut o = Mtl::new();
    for _ in 0..4 { o.newmtl(["red", "Red", "newmtl", "01"][choose(4) as usize]); if choose(2) == 1 { o.scalar(3, F11) } }
    end_all(o)
}
/// every kind of setting, in the first, second and third material
#[no_mangle]
pub fn h_c17_kinds() {
    let mut o = Mtl::new();
    let k = choose(SETTINGS);
    let at = choose(3);
    for i in 0..3 { o.newmtl(["a", "b", "c"][i]); if i as u32 == at { setting(&mut o, k) } else { o.illum(1) } }
    end_all(o)
}
/// a setting of any kind before the first newmtl is an error; so is a text without a statement
#[no_mangle]
pub fn h_c17_before() {
    let mut o = Mtl::new();
    o.m.push(Material::default());
    match choose(4) { 0 => o.comment(" x"), 1 => o.blank(), _ => {} }
    let k = choose(SETTINGS);
    setting(&mut o, k);
    let more = choose(3);
    if k < 33 || more == 2 {
        match more { 0 => { o.newmtl("late"); o.illum(1) }, 1 => o.newmtl("late"), _ => {} }
    }
    obs(o.t.b.len() as u64);
    match load_mtl(o.t.str()) { Ok(_) => fail(2), Err(_) => cover(0) }
}
#[no_mangle]
pub fn h_c17_empty() {
    let mut t = Txt::new();
    for _ in 0..choose(4) { match choose(5) { 0 => t.s("\n"), 1 => t.s("# newmtl a\n"), 2 => t.s("  \t"), 3 => t.s("\r\n"), _ => t.s("#") }; }
    match load_mtl(t.str()) { Ok(_) => fail(2), Err(_) => cover(0) }
}
#[no_mangle]
pub fn h_c17_many() {
    let mut o = Mtl::new();
    let n = [9, 20, 40][choose(3) as usize];
    for i in 0..n {
        let mut w = word(1);
        w.push((b'a' + (i % 26) as u8) as char);
        o.newmtl(&w);
        if i % 3 == 0 { o.scalar(i % 6, I1) }
        if i % 4 == 1 { o.rgb(i % 5, &[I1]) }
    }
    end_all(o)
}
#[no_mangle]
pub fn h_c17t_hist7() {
    let mut o = Mtl::new();
    o.newmtl("first");
    for _ in 0..7 {
        match choose(4) { 0 => { let w = word(1); o.newmtl(&w) }, 1 => o.rgb(1, &[I1]), 2 => o.scalar(0, F11), _ => o.map(1, &["-clamp"], "t.png", I1) }
    }
    end_all(o)
}
#[no_mangle]
pub fn h_c17t_pairs() {
    let mut o = Mtl::new();
    o.newmtl("first");
    let k = choose(SETTINGS); setting(&mut o, k);
    o.newmtl("second");
    let k = choose(SETTINGS); setting2(&mut o, k);
    end_all(o)
}
#[no_mangle]
pub fn h_c17t_many() {
    let mut o = Mtl::new();
    for i in 0..200usize { o.newmtl(["a", "b", "c", "a"][i % 4]); if i % 3 == 0 { o.scalar(i % 6, I1) } }
    end_all(o)
}

// ---- C18 colours ----
/// every keyword and form, each number in its own notation
#[no_mangle]
pub fn h_c18_rgb() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(5);
    let f = [mix(), mix(), mix()];
    o.rgb(k as usize, &f);
    end_all(o)
}
#[no_mangle]
pub fn h_c18_xyz() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(5);
    let n = choose(3) as usize + 1;
    let f = [mix(), mix(), F11];
    o.xyz(k as usize, n, &f);
    end_all(o)
}
#[no_mangle]
pub fn h_c18_spectral() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(5);
    let l = choose(2) + 1;
    let w = file(l);
    let c = choose(5);
    let fac = if c < 4 { Some(MIX[c as usize]) } else { None };
    o.spectral(k as usize, &w, fac);
    end_all(o)
}
/// the form keywords in any letter case
#[no_mangle]
pub fn h_c18_forms_case() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(5) as usize;
    o.t.kw(COLORS[k]);
    o.t.sp();
    if choose(2) == 1 {
        for c in b"xyz" { let b = byte_set(&[*c, *c - 32]); o.t.c(b); }
        let a = o.n(F11);
        o.t.nl();
        o.set_color(k, ColorType::CieXyz(a, a, a));
    } else {
        for c in b"spectral" { let b = byte_set(&[*c, *c - 32]); o.t.c(b); }
        o.t.s(" curve.rfl");
        let a = o.n(I1);
        o.t.nl();
        o.set_color(k, ColorType::Spectral("curve.rfl".to_string(), a));
    }
    end_all(o)
}
/// two colours of one material
#[no_mangle]
pub fn h_c18_two() {
    let mut o = Mtl::new();
    o.newmtl("m");
    for _ in 0..2 { let k = choose(15); setting(&mut o, k); }
    end_all(o)
}
/// all five, in every rotation and a form each
#[no_mangle]
pub fn h_c18_five() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let r = choose(5);
    for i in 0..5u32 {
        let k = ((i + r) % 5) as usize;
        match choose(3) { 0 => o.rgb(k, &[I1]), 1 => o.xyz(k, 2, &[I1]), _ => o.spectral(k, "s.rfl", Some(I1)) }
    }
    end_all(o)
}
#[no_mangle]
pub fn h_c18t_three() {
    let mut o = Mtl::new();
    o.newmtl("m");
    for _ in 0..3 { let k = choose(15); setting(&mut o, k); }
    end_all(o)
}

// ---- C19 scalar statements ----
#[no_mangle]
pub fn h_c19_values() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(6);
    let c = choose(7);
    let f = match c { 0..=3 => MIX[c as usize], 4 => form(0, 3, true, 3), 5 => eform(0, 1, true, 1, b'e', b'-', 1), _ => form(b'-', 3, false, 0) };
    o.scalar(k as usize, f);
    end_all(o)
}
#[no_mangle]
pub fn h_c19_illum() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let n = choose(9) + 1;
    o.illum(n);
    end_all(o)
}
/// the switch in every letter case
#[no_mangle]
pub fn h_c19_aat() {
    let mut o = Mtl::new();
    o.newmtl("m");
    o.t.kw("map_aat");
    o.t.sp();
    let on = choose(2) == 1;
    for c in if on { &b"on"[..] } else { &b"off"[..] } { let b = byte_set(&[*c, *c - 32]); o.t.c(b); }
    o.t.nl();
    o.last().anti_alias_map = Some(on);
    end_all(o)
}
/// every scalar statement among every other statement
#[no_mangle]
pub fn h_c19_among() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(SETTINGS);
    setting(&mut o, k);
    let k = 15 + choose(8);
    setting(&mut o, k);
    end_all(o)
}
#[no_mangle]
pub fn h_c19_after() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = 15 + choose(8);
    setting2(&mut o, k);
    let k = choose(SETTINGS);
    setting2(&mut o, k);
    end_all(o)
}
/// all of them, in every rotation
#[no_mangle]
pub fn h_c19_all() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let r = choose(8);
    let rev = choose(2) == 1;
    for i in 0..8 { let k = (i + r) % 8; setting(&mut o, 15 + if rev { 7 - k } else { k }); }
    end_all(o)
}
#[no_mangle]
pub fn h_c19t_three() {
    let mut o = Mtl::new();
    o.newmtl("m");
    for _ in 0..3 { let k = 15 + choose(8); setting(&mut o, k); }
    let k = choose(SETTINGS);
    setting(&mut o, k);
    end_all(o)
}

// ---- C20 texture maps ----
fn opts_of(which: usize) -> &'static [&'static str; 9] { if which < 3 { &OPTS_CC } else { &OPTS_NC } }
/// every map with every option, each value in every number form
#[no_mangle]
pub fn h_c20_one() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(8) as usize;
    let i = choose(10) as usize;
    let f = mix();
    let l = choose(2) + 1;
    let w = file(l);
    if i == 9 { o.map(k, &[], &w, f) } else { o.map(k, &[opts_of(k)[i]], &w, f) }
    end_all(o)
}
/// every map with every ordered pair of different options
#[no_mangle]
pub fn h_c20_two() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(8) as usize;
    let i = choose(9) as usize;
    let j = choose(9) as usize;
    assume(i != j);
    o.map(k, &[opts_of(k)[i], opts_of(k)[j]], "t.png", I1);
    end_all(o)
}
/// every subset of the options with one value, around one with several
#[no_mangle]
pub fn h_c20_subsets() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = if choose(2) == 1 { 1 } else { 4 };
    let mut l = vec![];
    for i in [0, 2, 3, 4, 5, 6, 7, 8] { if choose(2) == 1 { l.push(opts_of(k)[i]); } }
    let mut x = Opts::default();
    o.t.kw(MAPS[k]);
    for n in l { fixed_opt(&mut o, &mut x, n); }
    o.file(&mut x, "t.png");
    o.t.nl();
    o.set_map(k, &x);
    end_all(o)
}
/// an option with a fixed number of values
fn fixed_opt(o: &mut Mtl, x: &mut Opts, n: &str) {
    match n {
        "-o" => { o.t.s(" -o"); let (a, b) = (o.n(I1), o.n(I1)); x.o = Some((a, Some(b), None)); },
        "-s" => { o.t.s(" -s"); let (a, b, c) = (o.n(I1), o.n(I1), o.n(I1)); x.s = Some((a, Some(b), Some(c))); },
        "-t" => { o.t.s(" -t"); let a = o.n(I1); x.t = Some((a, None, None)); },
        "-blendu" => { o.t.s(" -blendu on"); x.bu = Some(true); },
        "-blendv" => { o.t.s(" -blendv off"); x.bv = Some(false); },
        "-clamp" => { o.t.s(" -clamp off"); x.cl = Some(false); },
        "-cc" => { o.t.s(" -cc on"); x.cc = Some(true); },
        _ => o.opt(x, n, I1),
    }
}
/// all options, in every rotation forwards and backwards
#[no_mangle]
pub fn h_c20_all() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(8) as usize;
    let r = choose(9) as usize;
    let rev = choose(2) == 1;
    let mut x = Opts::default();
    o.t.kw(MAPS[k]);
    for i in 0..9 { let j = (i + r) % 9; fixed_opt(&mut o, &mut x, opts_of(k)[if rev { 8 - j } else { j }]); }
    o.file(&mut x, "t.png");
    o.t.nl();
    o.set_map(k, &x);
    end_all(o)
}
/// a map among the other maps of the material
#[no_mangle]
pub fn h_c20_among() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(33);
    fixed_setting(&mut o, k);
    let k = choose(8) as usize;
    let f = file(1);
    o.map(k, &["-clamp"], &f, I1);
    let k = 23 + choose(10);
    fixed_setting(&mut o, k);
    end_all(o)
}
#[no_mangle]
pub fn h_c20t_three() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(8) as usize;
    let (a, b, c) = (choose(9) as usize, choose(9) as usize, choose(9) as usize);
    assume(a != b && b != c && a != c);
    let mut x = Opts::default();
    o.t.kw(MAPS[k]);
    for i in [a, b, c] { fixed_opt(&mut o, &mut x, opts_of(k)[i]); }
    o.file(&mut x, "t.png");
    o.t.nl();
    o.set_map(k, &x);
    end_all(o)
}
#[no_mangle]
pub fn h_c20t_subsets() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(8) as usize;
    let mut l = vec![];
    for i in 0..9 { if choose(2) == 1 { l.push(opts_of(k)[i]); } }
    let mut x = Opts::default();
    o.t.kw(MAPS[k]);
    for n in l { fixed_opt(&mut o, &mut x, n); }
    o.file(&mut x, "t.png");
    o.t.nl();
    o.set_map(k, &x);
    end_all(o)
}

// ---- C21 bump and reflection maps ----
const OPTS_B: [&str; 10] = ["-blendu", "-blendv", "-clamp", "-mm", "-o", "-s", "-t", "-texres", "-imfchan", "-bm"];
const OPTS_R: [&str; 10] = ["-blendu", "-blendv", "-clamp", "-mm", "-o", "-s", "-t", "-texres", "-cc", "-type"];
#[no_mangle]
pub fn h_c21_one() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let i = choose(11) as usize;
    let f = mix();
    let l = choose(2) + 1;
    let w = file(l);
    if choose(2) == 1 {
        if i == 10 { o.bump(&[], &w, f) } else { o.bump(&[OPTS_B[i]], &w, f) }
    } else {
        assume(i < 10);
        o.refl(if OPTS_R[i] == "-type" { &["-type"] } else { &[] }, &w, f);
    }
    end_all(o)
}
#[no_mangle]
pub fn h_c21_two() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let i = choose(10) as usize;
    let j = choose(10) as usize;
    assume(i != j);
    if choose(2) == 1 { o.bump(&[OPTS_B[i], OPTS_B[j]], "t.png", I1) } else {
        let l = if OPTS_R[i] == "-type" || OPTS_R[j] == "-type" { vec![OPTS_R[i], OPTS_R[j]] } else { vec![OPTS_R[i], "-type", OPTS_R[j]] };
        o.refl(&l, "t.png", I1)
    }
    end_all(o)
}
fn bfixed(o: &mut Mtl, x: &mut Opts, n: &str) {
    match n {
        "-bm" => { o.t.s(" -bm"); let a = o.n(F11); x.bm = Some(a); },
        "-type" => { o.t.s(" -type sphere"); x.ty = Some("sphere".to_string()); },
        _ => fixed_opt(o, x, n),
    }
}
fn b_or_r(bump: bool, idx: &[usize], o: &mut Mtl, name: &str) {
    let mut x = Opts::default();
    o.t.kw(if bump { "bump" } else { "refl" });
    for i in idx { bfixed(o, &mut x, if bump { OPTS_B[*i] } else { OPTS_R[*i] }); }
    o.file(&mut x, name);
    o.t.nl();
    if bump { o.last().bump_map = Some(BumpMap { bump_multiplier: x.bm, map_settings: Some(x.nc()) }) }
    else { o.last().reflection_map = Some(ReflectionMap { reflection_type: x.ty.clone().unwrap_or_default(), map_settings: Some(x.cc()) }) }
}
#[no_mangle]
pub fn h_c21_all() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let r = choose(10) as usize;
    let rev = choose(2) == 1;
    let mut l = vec![];
    for i in 0..10 { let j = (i + r) % 10; l.push(if rev { 9 - j } else { j }); }
    let bump = choose(2) == 1;
    let f = file(1);
    b_or_r(bump, &l, &mut o, &f);
    end_all(o)
}
/// every subset of the options
#[no_mangle]
pub fn h_c21_subsets() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let mut l = vec![];
    let bump = choose(2) == 1;
    for i in [2, 3, 5, 6, 7, 8] { if choose(2) == 1 { l.push(i); } }
    if !bump || choose(2) == 1 { l.insert(l.len() / 2, 9); }
    b_or_r(bump, &l, &mut o, "t.png");
    end_all(o)
}
/// both, among other statements
#[no_mangle]
pub fn h_c21_among() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let first = choose(2) == 1;
    b_or_r(first, &[9, 4], &mut o, "x.png");
    let k = choose(SETTINGS);
    setting2(&mut o, k);
    b_or_r(!first, &[9, 2], &mut o, "y.png");
    if choose(2) == 1 { o.newmtl("n"); b_or_r(first, &[9], &mut o, "z.png"); }
    end_all(o)
}
/// the type and the channel are free words
#[no_mangle]
pub fn h_c21_words() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let n = choose(3) + 1;
    let mut x = Opts::default();
    let bump = choose(2) == 1;
    if bump {
        o.t.kw("bump -imfchan ");
        let c = byte_set(b"rgbmlz");
        x.imf = Some((c as char).to_string());
        o.t.c(c);
    } else {
        let ty = ["sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right"][choose(7) as usize];
        o.t.kw("refl -type ");
        o.t.s(ty);
        x.ty = Some(ty.to_string());
    }
    let f = file(n);
    o.file(&mut x, &f);
    o.t.nl();
    if bump { o.last().bump_map = Some(BumpMap { bump_multiplier: None, map_settings: Some(x.nc()) }) }
    else { o.last().reflection_map = Some(ReflectionMap { reflection_type: x.ty.clone().unwrap_or_default(), map_settings: Some(x.cc()) }) }
    end_all(o)
}
#[no_mangle]
pub fn h_c21t_three() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let (a, b, c) = (choose(10) as usize, choose(10) as usize, choose(10) as usize);
    assume(a != b && b != c && a != c);
    let bump = choose(2) == 1;
    let l = if bump || a == 9 || b == 9 || c == 9 { vec![a, b, c] } else { vec![a, b, c, 9] };
    b_or_r(bump, &l, &mut o, "t.png");
    end_all(o)
}
#[no_mangle]
pub fn h_c21t_subsets() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let mut l = vec![];
    let bump = choose(2) == 1;
    for i in 0..9 { if choose(2) == 1 { l.push(i); } }
    if !bump || choose(2) == 1 { l.insert(0, 9); }
    b_or_r(bump, &l, &mut o, "t.png");
    end_all(o)
}

// ---- C22 repeated settings, order ----
/// the same setting twice, in the same or another form
#[no_mangle]
pub fn h_c22_twice() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(33);
    match choose(4) {
        0 => { setting(&mut o, k); setting(&mut o, k) },
        1 => { setting(&mut o, k); setting2(&mut o, k) },
        2 => { setting2(&mut o, k); setting(&mut o, k) },
        _ => { setting2(&mut o, k); setting2(&mut o, k) },
    }
    end_all(o)
}
/// a colour in any two of its forms, a dissolve, a displacement map by both of its names
#[no_mangle]
pub fn h_c22_forms() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let c = choose(5) as usize;
    for _ in 0..3 {
        match choose(4) { 0 => o.rgb(c, &[I1]), 1 => { let n = choose(3) as usize + 1; o.xyz(c, n, &[I1]) }, 2 => o.spectral(c, "s.rfl", None), _ => o.spectral(c, "t.rfl", Some(I1)) }
    }
    end_all(o)
}
/// two different settings in both orders, with free data
#[no_mangle]
pub fn h_c22_order() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(33);
    setting(&mut o, k);
    let k = choose(33);
    setting2(&mut o, k);
    end_all(o)
}
/// the last of a repeated option decides
#[no_mangle]
pub fn h_c22_options() {
    let mut o = Mtl::new();
    o.newmtl("m");
    match choose(4) {
        0 => { let i = choose(9) as usize; let f = opts_of(0)[i]; o.map(choose(3) as usize, &[f, f], "t.png", I1) },
        1 => { let i = choose(9) as usize; let f = opts_of(3)[i]; o.map(3 + choose(5) as usize, &[f, f], "t.png", I1) },
        2 => { let f = OPTS_B[choose(10) as usize]; o.bump(&[f, "-mm", f], "t.png", I1) },
        _ => { let f = OPTS_R[choose(10) as usize]; if f == "-type" { o.refl(&[f, "-mm", f], "t.png", I1) } else { o.refl(&["-type", f, f], "t.png", I1) } },
    }
    end_all(o)
}
/// a setting, others in between, and the setting again
#[no_mangle]
pub fn h_c22_apart() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(33);
    setting(&mut o, k);
    setting(&mut o, (k + 7) % 33);
    setting2(&mut o, (k + 20) % 33);
    setting2(&mut o, k);
    end_all(o)
}
/// long runs of the same setting
#[no_mangle]
pub fn h_c22_many() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let k = choose(33);
    for i in 0..6 { if i % 2 == 0 { setting2(&mut o, k) } else { fixed_setting(&mut o, k) } }
    end_all(o)
}
fn fixed_setting(o: &mut Mtl, k: u32) {
    match k { 0..=14 => o.rgb(k as usize % 5, &[I1]), 15..=20 => o.scalar(k as usize - 15, I1), 21 => o.illum(1), 22 => o.aat(true), 23..=30 => o.map(k as usize - 23, &[], "z.png", I1), 31 => o.bump(&[], "z.png", I1), _ => o.refl(&["-type"], "z.png", I1) }
}
#[no_mangle]
pub fn h_c22t_three() {
    let mut o = Mtl::new();
    o.newmtl("m");
    let (a, b) = (choose(33), choose(33));
    setting2(&mut o, a);
    fixed_setting(&mut o, b);
    setting2(&mut o, b);
    fixed_setting(&mut o, a);
    end_all(o)
}

// ---- C26 texts compose ----
fn mat(o: &mut Mtl, name: &str, k: u32) {
    o.newmtl(name);
    setting(o, k);
}
/// joined texts: the materials of the first, then those of the second
#[no_mangle]
pub fn h_c26_pairs() {
    let mut o = Mtl::new();
    let k = choose(SETTINGS);
    let w = word(1);
    mat(&mut o, &w, k);
    if choose(2) == 1 { o.t.nl(); }
    let k = choose(SETTINGS);
    let w = word(1);
    o.newmtl(&w);
    setting2(&mut o, k);
    end_all(o)
}
/// each material equals what loading its own text gives
#[no_mangle]
pub fn h_c26_alone() {
    let k = choose(SETTINGS);
    let l = choose(SETTINGS);
    let mut a = Mtl::new();
    mat(&mut a, "one", k);
    let mut b = Mtl::new();
    b.newmtl("two");
    setting2(&mut b, l);
    let (ma, mb) = (a.load(), b.load());
    let mut j = Txt::new();
    j.b.extend_from_slice(&a.t.b);
    j.b.extend_from_slice(&b.t.b);
    let m = match load_mtl(j.str()) { Ok(m) => m, Err(_) => fail(1) };
    let mut e = ma;
    e.extend(mb);
    cmp_materials(&e, &m);
    cover(0);
}
/// the same text twice, and the same name
#[no_mangle]
pub fn h_c26_same() {
    let mut o = Mtl::new();
    let k = choose(SETTINGS);
    let n = choose(3) + 2;
        for i in 0..n { if i == 1 { mat(&mut o, "same", k) } else { o.newmtl("same"); fixed_setting(&mut o, if k < 33 { k } else { 3 }) } }
    end_all(o)
}
/// an empty material between, before or after full ones
#[no_mangle]
pub fn h_c26_empty() {
    let mut o = Mtl::new();
    for _ in 0..4 { match choose(4) { 0 => o.newmtl("e"), 1 => { o.newmtl("f"); o.scalar(4, F11) }, 2 => { o.newmtl("g"); o.map(1, &[], "t.png", I1); o.rgb(0, &[I1]) }, _ => { o.newmtl("h"); o.bump(&["-bm"], "t.png", I1) } } }
    end_all(o)
}
#[no_mangle]
pub fn h_c26_many() {
    let mut o = Mtl::new();
    let s = choose(33);
    for i in 0..33 { o.newmtl("m"); fixed_setting(&mut o, (i + s) % 33); }
    end_all(o)
}
#[no_mangle]
pub fn h_c26t_triples() {
    let mut o = Mtl::new();
    for i in 0..3 { o.newmtl(["a", "b", "c"][i]); let k = choose(33); fixed_setting(&mut o, k); }
    end_all(o)
}
