//! Summary of `<f32 as FromStr>::from_str` used by the engine when the text has symbolic bytes:
//! the documented grammar, with the value left as the correctly rounded decimal.
use crate::sym;
use std::num::ParseFloatError;

#[inline(never)]
fn bad() -> Result<f32, ParseFloatError> { "x".parse::<f32>() }

#[no_mangle]
#[inline(never)]
pub fn h_f32_from_str(s: &str) -> Result<f32, ParseFloatError> {
    let b = s.as_bytes();
    let n = b.len();
    if n == 0 { return "".parse::<f32>(); }
    let mut i = 0;
    let neg = b[0] == b'-';
    if neg || b[0] == b'+' { i = 1; }
    if i == n { return bad(); }
    let mut m: u64 = 0;
    let (mut nd, mut frac, mut digits) = (0u32, 0i32, 0u32);
    while i < n && b[i].wrapping_sub(b'0') < 10 {
        m = m.wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
        nd += 1; digits += 1; i += 1;
    }
    if i < n && b[i] == b'.' {
        i += 1;
        while i < n && b[i].wrapping_sub(b'0') < 10 {
            m = m.wrapping_mul(10).wrapping_add((b[i] - b'0') as u64);
            nd += 1; digits += 1; frac += 1; i += 1;
        }
    }
    if digits == 0 {
        // inf, infinity, nan in any case
        let r = &b[i..];
        let low = |k: usize| r[k] | 0x20;
        let is = |w: &[u8]| r.len() == w.len() && { let mut k = 0; while k < w.len() && low(k) == w[k] { k += 1; } k == w.len() };
        let start = if neg || b[0] == b'+' { 1 } else { 0 };
        if i == start {
            if is(b"inf") || is(b"infinity") { return Ok(if neg { f32::NEG_INFINITY } else { f32::INFINITY }); }
            if is(b"nan") { return Ok(if neg { -f32::NAN } else { f32::NAN }); }
        }
        return bad();
    }
    let mut exp: i32 = 0;
    if i < n && (b[i] | 0x20) == b'e' {
        i += 1;
        let mut eneg = false;
        if i < n && (b[i] == b'-' || b[i] == b'+') { eneg = b[i] == b'-'; i += 1; }
        let from = i;
        while i < n && b[i].wrapping_sub(b'0') < 10 {
            if exp < 100000 { exp = exp * 10 + (b[i] - b'0') as i32; }
            i += 1;
        }
        if i == from { return bad(); }
        if eneg { exp = -exp; }
    }
    if i != n { return bad(); }
    // beyond 19 digits the 64-bit mantissa no longer holds the value
    if nd > 19 { sym::fail(9001) }
    let v = sym::f32_dec(m, nd, exp - frac);
    Ok(if neg { -v } else { v })
}
