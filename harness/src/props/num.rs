//! C10 text of numbers, C11 floats to text, C12 numbers to floats, C13 integers,
//! C14 number equality, C15 fixed point.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use json::number::{Number, NAN};
use json::JsonValue;
use std::cmp::Ordering;
use std::convert::TryFrom;

// ------------------------------------------------------------ C10

/// All the ways to make a number from parts (the value is the same for each).
fn number_ways(neg: bool, m: u64, e: i16) -> Vec<Number> {
    let mut v = vec![
        Number::from_parts(!neg, m, e),
        unsafe { Number::from_parts_unchecked(!neg, m, e) },
        -Number::from_parts(neg, m, e),
        -unsafe { Number::from_parts_unchecked(neg, m, e) },
    ];
    let (p, m2, e2) = v[0].as_parts();
    v.push(Number::from_parts(p, m2, e2));
    v
}

fn denotes(text: &str, want: &Dec, what: &str, parts: (bool, u64, i16)) -> R {
    match refparse(text, STRICT).result {
        Ok(M::Num(_)) => {}
        other => return Err(format!("{} of {:?} is {:?}, not a JSON number ({:?})", what, parts, clip(text, 100), other.is_ok())),
    }
    // no whitespace around
    let b = text.as_bytes();
    ensure!(b[0] == b'-' || b[0].is_ascii_digit(), "{} of {:?} is {:?}", what, parts, clip(text, 100));
    ensure!(b[b.len() - 1].is_ascii_digit(), "{} of {:?} is {:?}", what, parts, clip(text, 100));
    let got = Dec::from_literal(text);
    ensure!(got.same(want), "{} of {:?} (positive, mantissa, exponent) is {:?}", what, parts, clip(text, 100));
    Ok(())
}

fn check_text(neg: bool, m: u64, e: i16) -> R {
    let want = Dec::from_parts(neg, m, e as i64);
    for (i, n) in number_ways(neg, m, e).into_iter().enumerate() {
        let parts = (!neg, m, e);
        let (p2, m2, e2) = n.as_parts();
        ensure!(Dec::from_parts(!p2, m2, e2 as i64).same(&want), "as_parts of a number made (way {}) from {:?} gives {:?}", i, parts, (p2, m2, e2));
        ensure!(n.is_sign_positive() == !neg, "is_sign_positive of {:?} (way {})", parts, i);
        ensure!(!n.is_nan(), "is_nan of {:?} (way {})", parts, i);
        ensure!(n.is_zero() == (m == 0) && n.is_empty() == (m == 0), "is_zero/is_empty of {:?} (way {})", parts, i);
        let back = unsafe { Number::from_parts_unchecked(p2, m2, e2) };
        ensure!(back == n && n == back, "from_parts(as_parts()) differs from {:?} (way {})", parts, i);
        denotes(&n.to_string(), &want, "Display", parts)?;
        let v = JsonValue::Number(n);
        denotes(&v.dump(), &want, "dump", parts)?;
        let mut out = vec![];
        v.write(&mut out).map_err(|e| format!("write failed: {}", e))?;
        ensure!(out == v.dump().as_bytes(), "write of {:?} differs from dump", parts);
        ensure!(v.to_string() == v.dump(), "Display of the value {:?} differs from dump", parts);
        let x = -n;
        let (p3, m3, e3) = x.as_parts();
        ensure!(Dec::from_parts(!p3, m3, e3 as i64).same(&Dec::from_parts(!neg, m, e as i64)), "negation of {:?} gives {:?}", parts, (p3, m3, e3));
        denotes(&x.to_string(), &Dec::from_parts(!neg, m, e as i64), "Display of the negation", parts)?;
        let (p4, m4, e4) = (-x).as_parts();
        ensure!(Dec::from_parts(!p4, m4, e4 as i64).same(&want), "double negation of {:?} gives {:?}", parts, (p4, m4, e4));
    }
    Ok(())
}

pub fn c10(c: &mut Ctx) -> R {
    let (neg, m, e) = gen_parts(c);
    c.describe(|| format!("{}{}e{}", if neg { "-" } else { "" }, m, e));
    c.nt(hash_bytes(format!("{}{}e{}", neg, m, e).as_bytes()));
    c.f(if e == 0 { "exp_zero" } else if e > 0 { "exp_positive" } else { "exp_negative" });
    c.f(match m.to_string().len() { 1..=4 => "digits_1_4", 5..=9 => "digits_5_9", 10..=17 => "digits_10_17", _ => "digits_18_20" });
    check_text(neg, m, e)?;
    // inside a larger document
    if c.t.chance(1, 4) {
        let d = Dec::from_parts(neg, m, e as i64);
        let n = unsafe { Number::from_parts_unchecked(!neg, m, e) };
        let mut a = JsonValue::new_array();
        let _ = a.push(n);
        let _ = a.push(NAN);
        let _ = a.push(n);
        let t = a.dump();
        match refparse(&t, STRICT).result {
            Ok(M::Arr(v)) if v.len() == 3 => {
                ensure!(matches!(v[1], M::Null), "NaN in an array is not null: {}", t);
                for i in [0, 2] {
                    match &v[i] {
                        M::Num(g) => ensure!(g.same(&d), "{} in an array reads as {}", d.text(), g.text()),
                        _ => return Err(format!("number in an array is not a number: {}", t)),
                    }
                }
            }
            _ => return Err(format!("array of numbers dumps as {}", clip(&t, 200))),
        }
        c.f("in_array");
    }
    Ok(())
}

pub fn c10_enums() -> u64 {
    256 + 121 + 1
}
pub fn c10_enum(c: &mut Ctx, i: u64) -> R {
    const MS: &[u64] = &[0, 1, 7, 10, 42, 100, 999, 1000, 9999, 10000, 12345, 100000, 1234567, 99999999, 100000000, 1000000007, 123456789012, 9999999999999999, 10000000000000000, 12345678901234567,
        99999999999999999, 100000000000000000, 123456789012345678, 999999999999999999, 1000000000000000000, 1234567890123456789, 9999999999999999999, 10000000000000000000, 12345678901234567890, u64::MAX, 10000000000000000001];
    if i < 256 {
        // every exponent
        for lo in 0..256i64 {
            let e = (i as i64 * 256 + lo - 32768) as i16;
            for &m in &[0u64, 1, 10, 25, u64::MAX, 1000000000000000000] {
                check_text(lo % 2 == 0, m, e)?;
                c.evals += 1;
            }
        }
        c.f("enum_exponent_block");
    } else if i < 256 + 121 {
        let e = (i - 256) as i16 - 60;
        for &m in MS {
            for neg in [false, true] {
                check_text(neg, m, e)?;
                c.evals += 1;
            }
        }
        // random digits for every digit count
        let mut r = Rng::new(i);
        for k in 1..=20u32 {
            for _ in 0..6 {
                let lo = 10u64.pow(k - 1);
                let m = lo.wrapping_add(r.next() % lo.saturating_mul(9));
                check_text(r.chance(1, 2), m, e)?;
                c.evals += 1;
            }
        }
        c.f("enum_digits_block");
    } else {
        // NaN in all its forms
        for n in [NAN, -NAN, Number::from(f64::NAN), Number::from(f32::NAN), Number::from(f64::INFINITY), Number::from(f64::NEG_INFINITY), Number::from(f32::INFINITY), -Number::from(f32::NEG_INFINITY)] {
            ensure!(n.is_nan() && n.is_empty() && !n.is_zero(), "NaN predicates");
            let v = JsonValue::Number(n);
            ensure!(v.dump() == "null" && v.pretty(3) == "null", "NaN dumps as {}", v.dump());
            let mut out = vec![];
            v.write(&mut out).map_err(|e| e.to_string())?;
            ensure!(out == b"null", "NaN written as {}", String::from_utf8_lossy(&out));
            ensure!((-n).is_nan() && (-(-n)).is_nan(), "negated NaN is a number");
            c.evals += 1;
        }
        c.f("enum_nan");
    }
    Ok(())
}

// ------------------------------------------------------------ floats

pub fn gen_f64(c: &mut Ctx) -> f64 {
    match c.t.below(13) {
        0 => f64::from_bits(c.t.raw64()),
        1 => (c.t.below(2000) as f64 - 1000.0) / *c.t.pick(&[1.0, 10.0, 100.0, 1000.0, 3.0, 7.0, 8.0]),
        2 => {
            // around powers of two
            let e = c.t.below(2098) as i32 - 1074;
            let b = pow2(e);
            near(c, b)
        }
        3 => {
            // around powers of ten
            let e = c.t.below(634) as i32 - 324;
            let b: f64 = format!("1e{}", e).parse().unwrap();
            near(c, b)
        }
        4 => {
            let b = c.u64b() as f64;
            near(c, b)
        }
        5 => {
            // few decimal digits
            let m = c.u64b();
            let e = c.t.below(640) as i32 - 330;
            format!("{}e{}", m, e).parse().unwrap()
        }
        6 => f64::from_bits(c.t.raw64() & 0x800F_FFFF_FFFF_FFFF),
        7 => {
            let k = c.t.below(4);
            let b = *c.t.pick(&[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::from_bits(1), f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.7976931348623155e308, 5e-324, 2.2250738585072011e-308, 9007199254740992.0, 1e22, 1e23, 0.1, 0.3, 1.0 / 3.0]);
            if k == 0 { near(c, b) } else { b }
        }
        8 => f64::from(f32::from_bits(c.t.seed() as u32)),
        9 => {
            // sparse mantissas
            let m = (c.t.raw64() & c.t.raw64() & c.t.raw64()) >> 12;
            let e = c.t.below(2047) as u64;
            f64::from_bits(e << 52 | m)
        }
        10 => c.t.raw64() as i64 as f64,
        11 => {
            // integers of every length that are exact
            let x = (c.t.raw64() >> (11 + c.t.below(53))) as f64;
            if c.t.chance(1, 2) { -x } else { x }
        }
        _ => f64::from_bits((c.t.raw64() >> 12) | ((1023 - 40 + c.t.below(80) as u64) << 52)),
    }
}

fn pow2(e: i32) -> f64 {
    if e >= -1022 { f64::from_bits(((e.min(1023) + 1023) as u64) << 52) } else { f64::from_bits(1u64 << (e + 1074)) }
}

fn near(c: &mut Ctx, b: f64) -> f64 {
    let d = c.t.below(7) as i64 - 3;
    let x = f64::from_bits((b.to_bits() as i64).wrapping_add(d) as u64);
    if c.t.chance(1, 4) { -x } else { x }
}

pub fn gen_f32(c: &mut Ctx) -> f32 {
    match c.t.below(6) {
        0..=2 => f32::from_bits(c.t.raw64() as u32),
        3 => {
            let k = c.t.below(7) as i32 - 3;
            let b = *c.t.pick(&[0.0f32, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), 16777216.0, 1e10, 1e-10, 0.1, 0.3, f32::INFINITY, f32::NAN]);
            f32::from_bits((b.to_bits() as i32).wrapping_add(k) as u32)
        }
        4 => gen_f64(c) as f32,
        _ => {
            let e = c.t.below(254) as u32;
            let m = (c.t.raw64() & c.t.raw64()) as u32 & 0x7f_ffff;
            f32::from_bits(e << 23 | m)
        }
    }
}

// ------------------------------------------------------------ C11

fn float_text(t: &str) -> R {
    ensure!(matches!(refparse(t, STRICT).result, Ok(M::Num(_))), "text of a float is not a JSON number: {:?}", clip(t, 100));
    Ok(())
}

/// At most 17 significant digits; an integer below 2^53 is written as that integer value.
fn float_digits(t: &str, f: f64) -> R {
    let mant = t.split(|x| x == 'e' || x == 'E').next().unwrap_or("");
    let all: String = mant.chars().filter(|x| x.is_ascii_digit()).collect();
    let sig = all.trim_start_matches('0').trim_end_matches('0');
    ensure!(sig.len() <= 17, "text of {:?} has {} significant digits: {:?}", f, sig.len(), clip(t, 100));
    if f.fract() == 0.0 && f.abs() < 9007199254740992.0 {
        let mut want = crate::model::Dec::from_literal(&format!("{}", f.abs() as u64));
        want.neg = f.is_sign_negative();
        let got = crate::model::Dec::from_literal(t);
        ensure!(want.d == got.d && want.e == got.e && want.neg == got.neg, "the integer {:?} is written as {:?}", f, clip(t, 100));
    }
    Ok(())
}

fn check_f64_text(f: f64) -> R {
    let v = JsonValue::from(f);
    let t = v.dump();
    if !f.is_finite() {
        ensure!(t == "null", "{:?} dumps as {:?}", f, t);
        ensure!(json::stringify(f) == "null", "stringify({:?})", f);
        return Ok(());
    }
    float_text(&t)?;
    float_digits(&t, f)?;
    match t.parse::<f64>() {
        Ok(g) => ensure!(g.to_bits() == f.to_bits(), "f64 {:?} (bits {:016x}) has text {:?} which reads as bits {:016x}", f, f.to_bits(), clip(&t, 100), g.to_bits()),
        Err(_) => return Err(format!("text of {:?} is {:?}", f, t)),
    }
    ensure!(Number::from(f).to_string() == t && json::stringify(f) == t && v.pretty(2) == t && v.to_string() == t, "texts of {:?} differ from {:?}", f, t);
    Ok(())
}

fn check_f32_text(f: f32) -> R {
    let v = JsonValue::from(f);
    let t = v.dump();
    if !f.is_finite() {
        ensure!(t == "null", "{:?} dumps as {:?}", f, t);
        return Ok(());
    }
    float_text(&t)?;
    float_digits(&t, f as f64)?;
    match t.parse::<f32>() {
        Ok(g) => ensure!(g.to_bits() == f.to_bits(), "f32 {:?} (bits {:08x}) has text {:?} which reads as bits {:08x}", f, f.to_bits(), clip(&t, 100), g.to_bits()),
        Err(_) => return Err(format!("text of {:?} is {:?}", f, t)),
    }
    ensure!(json::stringify(f) == t && Number::from(f).to_string() == t, "texts of f32 {:?} differ", f);
    Ok(())
}

pub fn c11(c: &mut Ctx) -> R {
    let f = gen_f64(c);
    let g = gen_f32(c);
    c.describe(|| format!("{:?} (bits {:016x}), f32 {:?}", f, f.to_bits(), g));
    c.nt(f.to_bits() ^ ((g.to_bits() as u64) << 7));
    c.f(match f.classify() {
        std::num::FpCategory::Nan => "nan",
        std::num::FpCategory::Infinite => "infinite",
        std::num::FpCategory::Zero => "zero",
        std::num::FpCategory::Subnormal => "subnormal",
        std::num::FpCategory::Normal => "normal",
    });
    check_f64_text(f)?;
    check_f32_text(g)?;
    let (m, places, neg) = (c.t.raw64() % 10_000_000 / [1u64, 10, 100, 1000, 10000, 100000][c.t.below(6)], c.t.below(5), c.t.chance(1, 2));
    short_decimal(m, places, neg)?;
    c.evals += 1;
    Ok(())
}

/// every f64 binary exponent with mantissa patterns; a stride over all f32
pub fn c11_enums() -> u64 {
    512 + 256 + 256
}

/// Is the f64 nearest to m / 10^places written as that decimal?
fn short_decimal(m: u64, places: usize, neg: bool) -> R {
    let p = [1u64, 10, 100, 1000, 10000][places];
    // both are exact in an f64, so the quotient is the nearest
    let f = m as f64 / p as f64;
    let f = if neg { -f } else { f };
    let t = JsonValue::from(f).dump();
    let mut want = if places == 0 { format!("{}", m) } else { format!("{}.{:0w$}", m / p, m % p, w = places) };
    if neg {
        want.insert(0, '-');
    }
    if t != want {
        let (a, b) = (crate::model::Dec::from_literal(&t), crate::model::Dec::from_literal(&want));
        ensure!(a.neg == b.neg && a.d == b.d && (a.e == b.e || a.d.is_empty()), "the f64 nearest to {} is written as {:?}", want, clip(&t, 100));
    }
    Ok(())
}

pub fn c11_enum(c: &mut Ctx, i: u64) -> R {
    if i < 512 {
        let mut r = Rng::new(i);
        for k in 0..4 {
            let e = i * 4 + k;
            for p in 0..14 {
                let m: u64 = match p {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => (1 << 52) - 1,
                    4 => (1 << 52) - 2,
                    5 => 1 << 51,
                    6 => (1 << 51) - 1,
                    7 => 0x5555_5555_5555_5,
                    8 => 1 << r.below(52),
                    _ => r.next() & ((1 << 52) - 1),
                };
                let b = (e & 0x7ff) << 52 | m;
                check_f64_text(f64::from_bits(b))?;
                check_f64_text(f64::from_bits(b | 1 << 63))?;
                c.evals += 2;
            }
        }
        c.f("enum_f64_block");
    } else if i >= 768 {
        // all decimals of at most 7 digits with at most 4 places, in the release build
        let (a, b) = ((i - 768) * 10_000_000 / 256, (i - 767) * 10_000_000 / 256);
        let step = if c.variant == "release" { 1 } else { 37 };
        let mut m = a + if step > 1 { i % step } else { 0 };
        while m < b {
            for places in 0..5 {
                short_decimal(m, places, m % 5 == 1)?;
            }
            c.evals += 5;
            m += step;
        }
        c.f("enum_decimals_block");
    } else {
        let hi = (i - 512) as u32;
        for k in 0..512u32 {
            let b = hi << 24 | k << 15 | (k.wrapping_mul(2654435761) >> 17);
            check_f32_text(f32::from_bits(b))?;
            c.evals += 1;
        }
        c.f("enum_f32_block");
    }
    Ok(())
}

// ------------------------------------------------------------ C12

/// A small arbitrary precision natural number.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Nat(Vec<u32>);
impl Nat {
    fn from(v: u64) -> Nat {
        let mut n = Nat(vec![v as u32, (v >> 32) as u32]);
        n.trim();
        n
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    fn mul_small(&mut self, k: u32) {
        let mut carry = 0u64;
        for d in self.0.iter_mut() {
            let v = *d as u64 * k as u64 + carry;
            *d = v as u32;
            carry = v >> 32;
        }
        if carry != 0 {
            self.0.push(carry as u32);
        }
    }
    fn mul_pow10(&mut self, mut e: u32) {
        while e >= 9 {
            self.mul_small(1_000_000_000);
            e -= 9;
        }
        for _ in 0..e {
            self.mul_small(10);
        }
    }
    fn shl(&mut self, n: u32) {
        if self.0.is_empty() {
            return;
        }
        self.mul_small(1 << (n % 32).min(31));
        let words = (n / 32) as usize;
        if words > 0 {
            let mut v = vec![0; words];
            v.extend_from_slice(&self.0);
            self.0 = v;
        }
    }
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Compare m * 10^e with k * 2^q.
fn cmp_dec_bin(m: u64, e: i32, k: u64, q: i32) -> Ordering {
    let mut l = Nat::from(m);
    let mut r = Nat::from(k);
    if e > 0 { l.mul_pow10(e as u32) } else { r.mul_pow10((-e) as u32) }
    if q > 0 { r.shl(q as u32) } else { l.shl((-q) as u32) }
    l.cmp(&r)
}

/// Is a float given by (significand `sig`, exponent `q`; infinite when `None`)
/// the correct rounding of m * 10^e in a format of `p` bits, minimal exponent
/// `qmin` and maximal `qmax`?
fn correctly_rounded(m: u64, e: i32, f: Option<(u64, i32)>, p: u32, qmin: i32, qmax: i32) -> bool {
    if m == 0 {
        return f == Some((0, qmin));
    }
    if e > 400 {
        return f.is_none();
    }
    if e < -450 {
        return f == Some((0, qmin));
    }
    match f {
        None => cmp_dec_bin(m, e, (1 << (p + 1)) - 1, qmax - 1) != Ordering::Less,
        Some((sig, q)) => {
            let even = sig % 2 == 0;
            // upper midpoint
            let up = cmp_dec_bin(m, e, 2 * sig + 1, q - 1);
            let ok_up = up == Ordering::Less || (up == Ordering::Equal && even);
            let ok_lo = if sig == 0 {
                true
            } else if sig == 1 << (p - 1) && q > qmin {
                // the neighbour below is half as far away
                cmp_dec_bin(m, e, 4 * sig - 1, q - 2) != Ordering::Less
            } else {
                let lo = cmp_dec_bin(m, e, 2 * sig - 1, q - 1);
                lo == Ordering::Greater || (lo == Ordering::Equal && even)
            };
            ok_up && ok_lo
        }
    }
}

fn parts64(f: f64) -> Option<(u64, i32)> {
    let b = f.to_bits() & !(1 << 63);
    let e = (b >> 52) as i32;
    let m = b & ((1 << 52) - 1);
    match e {
        0x7ff => None,
        0 => Some((m, -1074)),
        _ => Some((m | 1 << 52, e - 1075)),
    }
}
fn parts32(f: f32) -> Option<(u64, i32)> {
    let b = f.to_bits() & !(1 << 31);
    let e = (b >> 23) as i32;
    let m = (b & ((1 << 23) - 1)) as u64;
    match e {
        0xff => None,
        0 => Some((m, -149)),
        _ => Some((m | 1 << 23, e - 150)),
    }
}

#[allow(clippy::cmp_owned)]
fn check_round(neg: bool, m: u64, e: i16, n: Number) -> R {
    let f = f64::from(n);
    let what = || format!("{}{}e{}", if neg { "-" } else { "" }, m, e);
    ensure!(!f.is_nan() && f.is_sign_negative() == neg && correctly_rounded(m, e as i32, parts64(f), 53, -1074, 971),
        "{} converts to f64 {:?} (bits {:016x}), not the nearest", what(), f, f.to_bits());
    let g = f32::from(n);
    ensure!(!g.is_nan() && g.is_sign_negative() == neg && correctly_rounded(m, e as i32, parts32(g), 24, -149, 104),
        "{} converts to f32 {:?} (bits {:08x}), not the nearest", what(), g, g.to_bits());
    let v = JsonValue::Number(n);
    ensure!(v.as_f64().map(f64::to_bits) == Some(f.to_bits()) && v.as_f32().map(f32::to_bits) == Some(g.to_bits()), "as_f64/as_f32 of {} differ from the number's", what());
    Ok(())
}

/// Comparisons of a number with floats agree with its conversion.
fn check_float_eq(n: Number, x: f64, y: f32) -> R {
    let v = JsonValue::Number(n);
    let r = &v;
    let want = f64::from(n) == x;
    let want32 = f32::from(n) == y;
    let p = n.as_parts();
    ensure!((n == x) == want && (x == n) == want && (v == x) == want && (x == v) == want && (r == x) == want,
        "number {:?} (nan {}) compared with {:?} disagrees with its conversion: {} {} {} {} {} instead of {}", p, n.is_nan(), x, n == x, x == n, v == x, x == v, r == x, want);
    ensure!((n == y) == want32 && (y == n) == want32 && (v == y) == want32 && (y == v) == want32 && (r == y) == want32,
        "number {:?} (nan {}) compared with f32 {:?} disagrees with its conversion", p, n.is_nan(), y);
    Ok(())
}

fn check_float_back(f: f64, g: f32) -> R {
    let n = Number::from(f);
    let b = f64::from(n);
    if f.is_finite() {
        ensure!(b.to_bits() == f.to_bits(), "f64 {:?} ({:016x}) put into a number comes back as {:?} ({:016x})", f, f.to_bits(), b, b.to_bits());
        ensure!(JsonValue::from(f).as_f64().map(f64::to_bits) == Some(f.to_bits()), "f64 {:?} put into a value comes back differently", f);
        ensure!(n == f && f == n && JsonValue::from(f) == f && f == JsonValue::from(f), "{:?} does not equal the value made from it", f);
    } else {
        ensure!(n.is_nan() && b.is_nan() && f32::from(n).is_nan(), "{:?} in a number converts to {:?}", f, b);
    }
    let n = Number::from(g);
    let b = f32::from(n);
    if g.is_finite() {
        ensure!(b.to_bits() == g.to_bits(), "f32 {:?} ({:08x}) put into a number comes back as {:?} ({:08x})", g, g.to_bits(), b, b.to_bits());
        ensure!(JsonValue::from(g).as_f32().map(f32::to_bits) == Some(g.to_bits()), "f32 {:?} put into a value comes back differently", g);
        ensure!(n == g && g == n && JsonValue::from(g) == g && g == JsonValue::from(g), "f32 {:?} does not equal the value made from it", g);
    } else {
        ensure!(n.is_nan() && b.is_nan(), "f32 {:?} in a number converts to {:?}", g, b);
    }
    Ok(())
}

/// Parts whose value is at or very near the midpoint of two floats.
fn gen_tie(c: &mut Ctx) -> (u64, i16) {
    let p = if c.t.chance(1, 2) { 54 } else { 25 };
    if c.t.chance(1, 3) {
        // exact ties: odd p-bit integers times 2^j 5^k 10^-k
        let mut m = (c.t.raw64() >> (64 - p)) | 1 | 1 << (p - 1);
        let k = c.t.below(17) as i16;
        let j = c.t.below(40);
        let mut e = 0;
        for _ in 0..k {
            if let Some(x) = m.checked_mul(5) {
                m = x;
                e -= 1;
            }
        }
        for _ in 0..j {
            if let Some(x) = m.checked_mul(2) {
                m = x;
            }
        }
        if e == 0 && c.t.chance(1, 3) {
            e = c.t.below(4) as i16;
        }
        let d = c.t.below(5) as i64 - 2;
        (if c.t.chance(1, 2) { m } else { m.wrapping_add(d as u64) }, e)
    } else {
        // the decimal nearest to a midpoint
        let (a, b) = if p == 54 {
            let f = gen_f64(c).abs();
            let f = if f.is_finite() && f < f64::MAX { f } else { 1.5 };
            (f, f64::from_bits(f.to_bits() + 1))
        } else {
            let g = gen_f32(c).abs();
            let g = if g.is_finite() && g < f32::MAX { g } else { 1.5 };
            (g as f64, f32::from_bits(g.to_bits() + 1) as f64)
        };
        let split = |x: f64| -> (u128, i32) {
            let s = format!("{:.36e}", x);
            let (m, e) = s.split_once('e').unwrap();
            (m.replace('.', "").parse().unwrap(), e.parse::<i32>().unwrap() - 36)
        };
        let (ma, ea) = split(a);
        let (mb, eb) = split(b);
        let mid = if ma == 0 { mb / 2 } else if ea == eb { ma / 2 + mb / 2 } else { ma };
        let e = if ma == 0 { eb } else { ea };
        let digits = 17 + c.t.below(4);
        let s = mid.to_string();
        let keep = digits.min(s.len());
        let m = s[..keep].parse::<u64>().unwrap_or(u64::MAX);
        let e2 = e + (s.len() - keep) as i32;
        let d = c.t.below(3) as i64 - 1;
        (m.wrapping_add(d as u64), e2 as i16)
    }
}

pub fn c12(c: &mut Ctx) -> R {
    let neg = c.t.chance(1, 3);
    let (m, e) = match c.t.below(6) {
        0..=2 => {
            c.f("near_tie");
            gen_tie(c)
        }
        3 => (c.u64b(), c.t.below(720) as i16 - 360),
        4 => {
            // the fast path's edges
            let m = c.u64b() >> *c.t.pick(&[0, 8, 10, 11, 12, 38, 40, 41]);
            (m, c.t.below(60) as i16 - 30)
        }
        _ => (c.u64b(), c.exp16()),
    };
    c.describe(|| format!("{}{}e{}", if neg { "-" } else { "" }, m, e));
    c.nt(hash_bytes(format!("{}{}e{}", neg, m, e).as_bytes()));
    for (i, n) in number_ways(neg, m, e).into_iter().enumerate() {
        if i < 2 || c.t.chance(1, 8) {
            check_round(neg, m, e, n)?;
        }
    }
    let n = unsafe { Number::from_parts_unchecked(!neg, m, e) };
    let f = f64::from(n);
    let g = f32::from(n);
    c.f(if f.is_infinite() { "to_infinity" } else if f == 0.0 { "to_zero" } else if f.is_normal() { "to_normal" } else { "to_subnormal" });
    // comparisons with the float itself, its neighbours, and others
    for d in [0i64, 1, -1] {
        check_float_eq(n, f64::from_bits((f.to_bits() as i64).wrapping_add(d) as u64), f32::from_bits((g.to_bits() as i32).wrapping_add(d as i32) as u32))?;
    }
    let x = gen_f64(c);
    let y = gen_f32(c);
    check_float_eq(n, x, y)?;
    check_float_eq(n, f64::NAN, f32::NAN)?;
    check_float_eq(n, -f, -g)?;
    check_float_eq(Number::from(x), x, y)?;
    check_float_eq(Number::from(y), x, y)?;
    check_float_eq(if c.t.chance(1, 2) { NAN } else { -NAN }, x, y)?;
    check_float_back(x, y)?;
    // values that are not numbers never equal a float
    if c.t.chance(1, 8) {
        for v in [JsonValue::Null, JsonValue::from("1.5"), JsonValue::from(true), json::array![1.5], json::object! { a: 1.5 }] {
            ensure!(v != x && x != v && &v != x && v != y && y != v && v.as_f64().is_none() && v.as_f32().is_none(), "{} compares equal to {:?}", v.dump(), x);
        }
    }
    c.evals += 9;
    Ok(())
}

pub fn c12_enums() -> u64 {
    // exponents -420..=420 with boundary mantissas; and the fast path grid
    841
}
pub fn c12_enum(c: &mut Ctx, i: u64) -> R {
    let e = i as i16 - 420;
    const P53: u64 = 1 << 53;
    const P24: u64 = 1 << 24;
    let ms = [0, 1, 3, 5, 9, 10, P24 - 1, P24, P24 + 1, P24 + 2, P24 + 3, 2 * P24 - 1, 2 * P24 + 1, P53 - 1, P53, P53 + 1, P53 + 2, P53 + 3, 2 * P53 - 1, 2 * P53 + 1, u64::MAX, u64::MAX - 1023, u64::MAX - 1024,
        17976931348623157, 1797693134862315807, 1797693134862315808, 17976931348623158079, 17976931348623158080, 4940656458412465441, 2470328229206232720, 2470328229206232721, 22250738585072014, 34028234663852886,
        3402823466385288598, 3402823567797336616, 14012984643248170709u64, 7006492321624085354];
    for &m in ms.iter() {
        for neg in [false, true] {
            check_round(neg, m, e, unsafe { Number::from_parts_unchecked(!neg, m, e) })?;
        }
        c.evals += 2;
    }
    c.f("enum_exponent");
    Ok(())
}

// ------------------------------------------------------------ C13

/// Mathematical value of a number when it is an integer of moderate size.
fn int_value(d: &Dec) -> Option<i128> {
    if d.is_zero() {
        return Some(0);
    }
    if d.e < 0 || d.order() > 36 {
        return None;
    }
    let mut v: i128 = 0;
    for &x in &d.d {
        v = v * 10 + (x - b'0') as i128;
    }
    for _ in 0..d.e {
        v *= 10;
    }
    Some(if d.neg { -v } else { v })
}

/// One conversion result against the rules of C13.
fn int_ok(got: Option<i128>, val: Option<i128>, exp0: bool, neg: bool, min: i128, max: i128, what: &str, n: &Number) -> R {
    let p = n.as_parts();
    match got {
        Some(g) => {
            ensure!(val == Some(g), "{} of number {:?} (nan {}) gives {}", what, p, n.is_nan(), g);
            ensure!(g >= min && g <= max, "{} of {:?} is {}, outside of the type", what, p, g);
            ensure!(!(min == 0 && neg && g != 0), "{} of the negative number {:?} gives {}", what, p, g);
        }
        None => {
            if let Some(v) = val {
                let must = exp0 && v >= min && v <= max && !(neg && min == 0);
                ensure!(!must, "{} of number {:?} gives None though it holds the integer {}", what, p, v);
            }
        }
    }
    Ok(())
}

fn check_ints(n: Number) -> R {
    let d = Dec::of(&n);
    let val = d.as_ref().and_then(int_value);
    let (pos, _, e) = n.as_parts();
    let neg = !pos;
    let exp0 = e == 0;
    let v = JsonValue::Number(n);
    macro_rules! one {
        ($t:ty, $as:ident) => {
            int_ok(v.$as().map(|x| x as i128), val, exp0, neg, <$t>::MIN as i128, <$t>::MAX as i128, stringify!($as), &n)?;
            int_ok(<$t>::try_from(n).ok().map(|x| x as i128), val, exp0, neg, <$t>::MIN as i128, <$t>::MAX as i128, concat!("TryFrom for ", stringify!($t)), &n)?;
        };
    }
    one!(u8, as_u8);
    one!(u16, as_u16);
    one!(u32, as_u32);
    one!(u64, as_u64);
    one!(usize, as_usize);
    one!(i8, as_i8);
    one!(i16, as_i16);
    one!(i32, as_i32);
    one!(i64, as_i64);
    one!(isize, as_isize);
    Ok(())
}

fn check_int_in(c: &mut Ctx, x: u64) -> R {
    macro_rules! one {
        ($t:ty, $as:ident) => {{
            let i = x as $t;
            let want = Dec::from_parts((i as i128) < 0, (i as i128).unsigned_abs() as u64, 0);
            let n = Number::from(i);
            ensure!(Dec::of(&n).map_or(false, |d| d.same(&want)), "{} {} turned into number {:?}", stringify!($t), i, n.as_parts());
            let v = JsonValue::from(i);
            check_same(&v, &M::Num(want.clone()), NumMode::Exact).map_err(|e| format!("{} {}: {}", stringify!($t), i, e))?;
            ensure!(<$t>::try_from(n).ok() == Some(i), "{} {} does not come back from a number", stringify!($t), i);
            ensure!(v.$as() == Some(i), "{} {} does not come back from a value: {:?}", stringify!($t), i, v.$as());
            ensure!(v.dump() == i.to_string() && json::stringify(i) == i.to_string() && v.to_string() == i.to_string(), "{} {} dumps as {}", stringify!($t), i, v.dump());
            ensure!(v == i && i == v && &v == i && n == i && i == n, "{} {} does not equal the value made from it", stringify!($t), i);
            check_ints(n)?;
            c.evals += 1;
        }};
    }
    one!(u8, as_u8);
    one!(u16, as_u16);
    one!(u32, as_u32);
    one!(u64, as_u64);
    one!(usize, as_usize);
    one!(i8, as_i8);
    one!(i16, as_i16);
    one!(i32, as_i32);
    one!(i64, as_i64);
    one!(isize, as_isize);
    Ok(())
}

pub fn c13(c: &mut Ctx) -> R {
    let (neg, m, e) = if c.t.chance(1, 2) { (c.t.chance(1, 2), c.u64b(), 0) } else { gen_parts(c) };
    c.describe(|| format!("{}{}e{}", if neg { "-" } else { "" }, m, e));
    c.nt(hash_bytes(format!("{}{}e{}", neg, m, e).as_bytes()));
    for n in number_ways(neg, m, e) {
        check_ints(n)?;
    }
    let x = c.u64b();
    let x = if c.t.chance(1, 2) { x } else { x.wrapping_neg() };
    check_int_in(c, x)?;
    // the same through text
    if c.t.chance(1, 3) {
        let n = Number::from_parts(!neg, m, e);
        if let Ok(JsonValue::Number(q)) = json::parse(&n.to_string()) {
            check_ints(q)?;
            c.f("parsed");
        }
    }
    if c.t.chance(1, 10) {
        for n in [NAN, -NAN, Number::from(f64::NAN), Number::from(f32::INFINITY)] {
            check_ints(n)?;
        }
        for v in [JsonValue::Null, JsonValue::from("7"), JsonValue::from(true), json::array![7], json::object! { a: 7 }, JsonValue::from("1".repeat(40))] {
            ensure!(v.as_u8().is_none() && v.as_u16().is_none() && v.as_u32().is_none() && v.as_u64().is_none() && v.as_usize().is_none()
                && v.as_i8().is_none() && v.as_i16().is_none() && v.as_i32().is_none() && v.as_i64().is_none() && v.as_isize().is_none(), "{} gives an integer", v.dump());
        }
        c.f("nan_and_others");
    }
    Ok(())
}

/// all 16-bit integers, and everything within 300 of each type boundary
pub fn c13_enums() -> u64 {
    256 + 12
}
pub fn c13_enum(c: &mut Ctx, i: u64) -> R {
    if i < 256 {
        for lo in 0..256 {
            check_int_in(c, i << 8 | lo)?;
            check_int_in(c, (i << 8 | lo).wrapping_neg())?;
        }
        c.f("enum_small");
    } else {
        let b = [0u64, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 1 << 63, u64::MAX, 10_000_000_000][(i - 256) as usize];
        for k in 0..601u64 {
            let x = b.wrapping_add(k).wrapping_sub(300);
            check_int_in(c, x)?;
            for neg in [false, true] {
                for e in [0i16, 1, -1, 256, -256, i16::MIN, i16::MAX] {
                    check_ints(unsafe { Number::from_parts_unchecked(!neg, x, e) })?;
                    c.evals += 1;
                }
            }
        }
        c.f("enum_boundary");
    }
    Ok(())
}

// ------------------------------------------------------------ C14

fn to_num(neg: bool, m: u64, e: i16) -> Number {
    unsafe { Number::from_parts_unchecked(!neg, m, e) }
}

/// Another way to write the same value, or nearly the same.
fn variant(c: &mut Ctx, neg: bool, m: u64, e: i16) -> (bool, u64, i16) {
    let mut m = m;
    let mut e = e;
    let k = *c.t.pick(&[0usize, 1, 2, 3, 5, 9, 15, 17, 18, 19, 20, 30]);
    if c.t.chance(1, 2) {
        for _ in 0..k {
            match m.checked_mul(10) {
                Some(x) if e > i16::MIN => {
                    m = x;
                    e -= 1;
                }
                _ => break,
            }
        }
    } else {
        for _ in 0..k {
            if m % 10 == 0 && e < i16::MAX {
                m /= 10;
                e += 1;
            }
        }
    }
    match c.t.below(12) {
        0 => (!neg, m, e),
        1 => (neg, m.wrapping_add(1), e),
        2 => (neg, m, e.wrapping_add(1)),
        3 => (neg, m.wrapping_sub(1), e),
        4 => (neg, m, e.wrapping_sub(*c.t.pick(&[1i16, 2, 19, 20, 21, 64, 256]))),
        5 => {
            // what a wrapped power would give
            let d = c.t.below(40) as u32;
            (neg, m.wrapping_mul(10u64.wrapping_pow(d)), e.wrapping_sub(d as i16))
        }
        6 => {
            let d = c.t.below(40) as u32;
            (neg, m.wrapping_mul(10u64.wrapping_pow(d)), e)
        }
        _ => (neg, m, e),
    }
}

pub fn c14(c: &mut Ctx) -> R {
    let (neg, m, e) = gen_parts(c);
    let mut all: Vec<(Option<Dec>, Number)> = vec![];
    let mut desc = format!("{}{}e{}", if neg { "-" } else { "" }, m, e);
    all.push((Some(Dec::from_parts(neg, m, e as i64)), to_num(neg, m, e)));
    for _ in 0..4 {
        let (n2, m2, e2) = if c.t.chance(1, 5) { gen_parts(c) } else { variant(c, neg, m, e) };
        desc.push_str(&format!(" {}{}e{}", if n2 { "-" } else { "" }, m2, e2));
        all.push((Some(Dec::from_parts(n2, m2, e2 as i64)), to_num(n2, m2, e2)));
        let x = Number::from_parts(!n2, m2, e2);
        if c.t.chance(1, 2) {
            all.push((Some(Dec::from_parts(n2, m2, e2 as i64)), x));
        }
    }
    if c.t.chance(1, 6) {
        all.push((None, NAN));
        all.push((None, -NAN));
    }
    if c.t.chance(1, 6) {
        all.push((Some(Dec::from_parts(false, 0, 0)), to_num(false, 0, c.exp16())));
        all.push((Some(Dec::from_parts(true, 0, 0)), to_num(true, 0, c.exp16())));
    }
    c.nt(hash_bytes(desc.as_bytes()));
    c.describe(|| desc);
    let mut equal = 0;
    for (i, (da, a)) in all.iter().enumerate() {
        for (j, (db, b)) in all.iter().enumerate() {
            let want = match (da, db) {
                (None, None) => true,
                (Some(x), Some(y)) => x.eq_num(y),
                _ => false,
            };
            ensure!((a == b) == want, "{:?} == {:?} (nan {} {}) is {}", a.as_parts(), b.as_parts(), a.is_nan(), b.is_nan(), a == b);
            ensure!((a != b) != want, "{:?} != {:?} is {}", a.as_parts(), b.as_parts(), a != b);
            let (va, vb) = (JsonValue::Number(*a), JsonValue::Number(*b));
            ensure!((va == vb) == want && (va == *b) == want && (*a == vb) == want && (&va == *b) == want, "values {:?} and {:?} compare differently from the numbers", a.as_parts(), b.as_parts());
            if want && i != j {
                equal += 1;
            }
            c.evals += 1;
        }
    }
    c.fn_("equal_pairs", equal);
    // against Rust integers, the number's own value among them
    let x = c.u64b();
    let x = if c.t.chance(1, 3) { x.wrapping_neg() } else { x };
    for (d, n) in &all {
        let own = d.as_ref().and_then(int_value).unwrap_or(3) as u64;
        for k in [x, own, own.wrapping_add(1), m, m.wrapping_neg()] {
            macro_rules! one {
                ($t:ty) => {{
                    let i = k as $t;
                    let want = d.as_ref().map_or(false, |d| int_value(d) == Some(i as i128));
                    let v = JsonValue::Number(*n);
                    ensure!((*n == i) == want && (i == *n) == want && (v == i) == want && (i == v) == want && (&v == i) == want,
                        "number {:?} (nan {}) compared with {} {}: {} {} {} {} {} instead of {}", n.as_parts(), n.is_nan(), i, stringify!($t), *n == i, i == *n, v == i, i == v, &v == i, want);
                }};
            }
            one!(u8);
            one!(u16);
            one!(u32);
            one!(u64);
            one!(usize);
            one!(i8);
            one!(i16);
            one!(i32);
            one!(i64);
            one!(isize);
            c.evals += 1;
        }
    }
    Ok(())
}

/// every power-of-ten split of boundary mantissas, against every other
pub fn c14_enums() -> u64 {
    64
}
pub fn c14_enum(c: &mut Ctx, i: u64) -> R {
    const MS: &[u64] = &[1, 2, 5, 8, 10, 100, 1u64 << 63, 1 << 62, 10_000_000_000_000_000_000, u64::MAX, 1_844_674_407_370_955_161, 15_511_210_043_330_985_984, 7_766_279_631_452_241_920];
    let mut nums = vec![];
    let base = [0i32, 1, -1, 20, -20, 300, -300, 32747][(i % 8) as usize];
    for &m in MS {
        let mut x = m;
        let mut e = base;
        while x % 10 == 0 {
            x /= 10;
            e += 1;
        }
        loop {
            if let Ok(e16) = i16::try_from(e) {
                nums.push((x, e16));
            }
            match x.checked_mul(10) {
                Some(y) => {
                    x = y;
                    e -= 1;
                }
                None => break,
            }
        }
    }
    let shift = (i / 8) as i16 * 9;
    for &(a, ea) in &nums {
        for &(b, eb) in &nums {
            let eb = match eb.checked_sub(shift) {
                Some(x) => x,
                None => continue,
            };
            let want = Dec::from_parts(false, a, ea as i64).eq_num(&Dec::from_parts(false, b, eb as i64));
            let (x, y) = (to_num(false, a, ea), to_num(false, b, eb));
            ensure!((x == y) == want && (y == x) == want, "{}e{} == {}e{} is {} / {}", a, ea, b, eb, x == y, y == x);
            ensure!((to_num(true, a, ea) == to_num(true, b, eb)) == want, "-{}e{} == -{}e{}", a, ea, b, eb);
            ensure!(to_num(true, a, ea) != y, "-{}e{} == {}e{}", a, ea, b, eb);
            c.evals += 1;
        }
    }
    c.f("enum_block");
    Ok(())
}

// ------------------------------------------------------------ C15

/// mant * 10^k truncated; None when it does not fit a u128 prefix.
fn fixed(m: u64, k: i64) -> Option<u128> {
    if m == 0 {
        return Some(0);
    }
    if k >= 0 {
        if k > 20 {
            return None;
        }
        let mut v = m as u128;
        for _ in 0..k {
            v = v.checked_mul(10)?;
        }
        Some(v)
    } else {
        // digit string: drop the last -k digits
        let s = m.to_string();
        let drop = (-k).min(100) as usize;
        if drop >= s.len() { Some(0) } else { s[..s.len() - drop].parse().ok() }
    }
}

fn check_fixed(c: &mut Ctx, neg: bool, m: u64, e: i16, p: u16, n: Number) -> R {
    let v = fixed(m, e as i64 + p as i64);
    let want_u = if neg { None } else { v.and_then(|x| u64::try_from(x).ok()) };
    let want_i = v.and_then(|x| {
        let x = i128::try_from(x).ok()?;
        i64::try_from(if neg { -x } else { x }).ok()
    });
    let what = || format!("of {}{}e{} at {}", if neg { "-" } else { "" }, m, e, p);
    ensure!(n.as_fixed_point_u64(p) == want_u, "as_fixed_point_u64 {} gives {:?} instead of {:?}", what(), n.as_fixed_point_u64(p), want_u);
    ensure!(n.as_fixed_point_i64(p) == want_i, "as_fixed_point_i64 {} gives {:?} instead of {:?}", what(), n.as_fixed_point_i64(p), want_i);
    let j = JsonValue::Number(n);
    ensure!(j.as_fixed_point_u64(p) == want_u && j.as_fixed_point_i64(p) == want_i, "fixed point of the value {} differs from the number's", what());
    c.f(match (want_u, want_i) {
        (Some(_), Some(_)) => "fits_both",
        (Some(_), None) => "fits_u64_only",
        (None, Some(_)) => "fits_i64_only",
        _ => "fits_none",
    });
    c.evals += 1;
    Ok(())
}

pub fn c15(c: &mut Ctx) -> R {
    let (neg, m, e) = gen_parts(c);
    let p = match c.t.below(5) {
        0 => c.t.below(6) as u16,
        1 => c.t.below(50) as u16,
        2 => c.t.raw64() as u16,
        3 => {
            // bring the result near a useful range
            let k = c.t.below(45) as i32 - 22;
            (k - e as i32).clamp(0, 65535) as u16
        }
        _ => *c.t.pick(&[0u16, 1, 2, 18, 19, 20, 21, 32767, 32768, 32769, 65535]),
    };
    c.describe(|| format!("{}{}e{} at {}", if neg { "-" } else { "" }, m, e, p));
    c.nt(hash_bytes(format!("{}{}e{} {}", neg, m, e, p).as_bytes()));
    for n in number_ways(neg, m, e) {
        check_fixed(c, neg, m, e, p, n)?;
    }
    if c.t.chance(1, 10) {
        for n in [NAN, -NAN, Number::from(f64::NAN)] {
            ensure!(n.as_fixed_point_u64(p).is_none() && n.as_fixed_point_i64(p).is_none(), "NaN has a fixed point");
        }
        for v in [JsonValue::Null, JsonValue::from("7"), JsonValue::from(true), json::array![7], json::object! { a: 7 }, JsonValue::from(f64::NAN)] {
            ensure!(v.as_fixed_point_u64(p).is_none() && v.as_fixed_point_i64(p).is_none(), "{} has a fixed point", v.dump());
        }
        c.f("nan_and_others");
    }
    Ok(())
}

pub fn c15_enums() -> u64 {
    91
}
pub fn c15_enum(c: &mut Ctx, i: u64) -> R {
    // every result scale -45..=45, over boundary mantissas and ways to split the scale
    let k = i as i32 - 45;
    const MS: &[u64] = &[0, 1, 9, 10, 15, 99, 922337203685477580, 922337203685477581, 9223372036854775807, 9223372036854775808, 9223372036854775809, 18446744073709551615, 1844674407370955161, 1844674407370955162, 1844674407370955160,
        999999999999999999, 1000000000000000000, 10000000000000000000, 92233720368547758, 184467440737095516];
    for &p in &[0u16, 1, 2, 5, 18, 19, 20, 21, 40, 300, 32767, 32768, 65535] {
        let e = k - p as i32;
        if e < i16::MIN as i32 || e > i16::MAX as i32 {
            continue;
        }
        for &m in MS {
            for neg in [false, true] {
                check_fixed(c, neg, m, e as i16, p, to_num(neg, m, e as i16))?;
            }
        }
    }
    c.f("enum_scale");
    Ok(())
}
