//! Literals: a value first, then one of the ways to write it down.

use crate::raw::{Lit, Num};
use vpbt::Src;

/// One way to write an integer.
pub fn int_text(v: i128, src: &mut Src) -> String {
    let neg = v < 0;
    let mag = v.unsigned_abs();
    let sign = if neg {
        "-"
    } else if src.chance(1, 6) {
        "+"
    } else {
        ""
    };
    let zeros = if src.chance(1, 8) { "0".repeat(src.range(1, 20)) } else { String::new() };
    // i128::MIN has no hexadecimal form (its magnitude is no i128), and no sign of its own
    if src.chance(1, 4) && mag <= i128::MAX as u128 {
        let digits = match src.below(3) {
            0 => format!("{:x}", mag),
            1 => format!("{:X}", mag),
            _ => format!("{:x}", mag)
                .chars()
                .enumerate()
                .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c })
                .collect(),
        };
        format!("{}0{}{}{}", sign, if src.flag() { "X" } else { "x" }, zeros, digits)
    } else {
        format!("{}{}{}", sign, zeros, mag)
    }
}

pub fn int_lit(v: i128, src: &mut Src) -> Lit {
    Lit {
        num: Num::Int(v),
        text: int_text(v, src),
    }
}

pub fn any_int(src: &mut Src) -> i128 {
    match src.weighted(&[4, 3, 3, 1]) {
        0 => src.draw(300) as i128 - 40,
        1 => {
            let k = src.draw(64);
            let d = src.draw(3) as i128 - 1;
            let v = (1i128 << k) + d;
            if src.flag() {
                -v
            } else {
                v
            }
        }
        2 => src.draw(0) as i64 as i128,
        _ => {
            let hi = src.draw(0) as i64 as i128;
            let lo = src.draw(0) as i128;
            match src.below(4) {
                0 => i128::MAX,
                1 => i128::MIN,
                _ => hi << 64 | lo,
            }
        }
    }
}

/// A finite double.
pub fn any_f64(src: &mut Src) -> f64 {
    let v = match src.weighted(&[4, 3, 3, 2]) {
        0 => src.draw(2000) as f64 / 8.0 - 100.0,
        1 => *src.pick(&[
            0.0,
            -0.0,
            0.1,
            1e22,
            1e23,
            f64::MIN_POSITIVE,
            f64::MAX,
            -f64::MAX,
            f64::EPSILON,
            5e-324,
            2.2250738585072011e-308,
            9007199254740993.0,
            1.7976931348623157e308,
            0.3,
            1e300,
            123456789.125,
        ]),
        2 => f64::from_bits(src.draw(0)),
        _ => f32::from_bits(src.draw(1 << 32) as u32) as f64,
    };
    if v.is_finite() {
        v
    } else {
        1.5
    }
}

/// One way to write a float so that it denotes exactly this value.
pub fn float_text(v: f64, src: &mut Src) -> String {
    if v.is_nan() {
        return format!("{}nan", src.pick(&["", "+", "-"]));
    }
    let neg = v.is_sign_negative();
    let mag = v.abs();
    let sign = if neg {
        "-"
    } else if src.chance(1, 6) {
        "+"
    } else {
        ""
    };
    if v.is_infinite() {
        return format!("{}{}", sign, src.pick(&["inf", "infinity"]));
    }
    let body = match src.weighted(&[4, 2, 2, 1, 2, 2]) {
        // shortest
        0 => {
            let s = format!("{:?}", mag);
            fix_point(s)
        }
        // scientific
        1 => {
            let s = format!("{:e}", mag);
            let (m, e) = s.split_once('e').unwrap();
            let e: i32 = e.parse().unwrap();
            let m = if m.contains('.') {
                m.to_string()
            } else {
                match src.below(3) {
                    0 => m.to_string(),
                    1 => format!("{}.", m),
                    _ => format!("{}.0", m),
                }
            };
            let es = match (e < 0, src.below(3)) {
                (true, _) => format!("-{}", -e),
                (false, 0) => format!("+{}", e),
                (false, 1) => format!("{:03}", e),
                _ => e.to_string(),
            };
            format!("{}{}{}", m, if src.flag() { "E" } else { "e" }, es)
        }
        // many digits: 17 significant ones always suffice
        2 => {
            let s = format!("{:.*e}", src.range(16, 25), mag);
            s
        }
        // exact
        3 => {
            let s = format!("{:.1100}", mag);
            s.trim_end_matches('0').to_string()
        }
        // hexadecimal
        4 => hex_float(mag, src),
        // shortest, with the zero before or after the point left out
        _ => {
            let s = fix_point(format!("{:?}", mag));
            if s.contains(['e', 'E']) {
                s
            } else if let Some(t) = s.strip_prefix("0.") {
                format!(".{}", t)
            } else if let Some(t) = s.strip_suffix(".0") {
                format!("{}.", t)
            } else {
                s
            }
        }
    };
    format!("{}{}", sign, body)
}

fn fix_point(s: String) -> String {
    // {:?} gives 1e23 or 1.5; both are floats
    s
}

fn hex_float(mag: f64, src: &mut Src) -> String {
    let bits = mag.to_bits();
    let (mut m, mut e) = if bits >> 52 == 0 {
        (bits, -1074i64)
    } else {
        (bits & ((1 << 52) - 1) | 1 << 52, (bits >> 52) as i64 - 1075)
    };
    if m == 0 {
        e = 0;
    } else {
        // fewest digits
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
    }
    let x = if src.flag() { "X" } else { "x" };
    let p = if src.flag() { "P" } else { "p" };
    // move the point k hex digits to the left
    let k = src.below(4);
    let digits = if src.flag() { format!("{:x}", m) } else { format!("{:X}", m) };
    let exp = |e: i64, src: &mut Src| match (e < 0, src.flag()) {
        (true, _) => format!("-{}", -e),
        (false, true) => format!("+{}", e),
        (false, false) => e.to_string(),
    };
    if k == 0 {
        // one digit or more, exponent required
        let dot = src.flag();
        return format!("0{}{}{}{}{}", x, digits, if dot { "." } else { "" }, p, exp(e, src));
    }
    let d = format!("{:0>width$}", digits, width = k + src.below(2));
    let (a, b) = d.split_at(d.len() - k);
    format!("0{}{}.{}{}{}", x, a, b, p, exp(e + 4 * k as i64, src))
}

pub fn float_lit(v: f64, src: &mut Src) -> Lit {
    Lit {
        num: Num::Float(v),
        text: float_text(v, src),
    }
}

pub fn any_float(src: &mut Src) -> f64 {
    match src.weighted(&[10, 1]) {
        0 => any_f64(src),
        _ => *src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
    }
}

pub fn any_lit(src: &mut Src) -> Lit {
    match src.weighted(&[4, 4, 1]) {
        0 => {
            let v = any_int(src);
            int_lit(v, src)
        }
        1 => {
            let v = any_float(src);
            float_lit(v, src)
        }
        _ => {
            let b = src.flag();
            Lit {
                num: Num::Bool(b),
                text: b.to_string(),
            }
        }
    }
}
