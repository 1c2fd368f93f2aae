//! The reference model: JSON values with exact decimals, an independent parser
//! with exact error positions, an independent pretty printer, and comparison of
//! the library's values with the model.

use crate::engine::R;
use crate::ensure;
use json::number::Number;
use json::JsonValue;

/// Exact decimal: (-1)^neg * d * 10^e, `d` ASCII digits without leading or
/// trailing zeros (empty for zero).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dec {
    pub neg: bool,
    pub d: Vec<u8>,
    pub e: i64,
    /// exponent of the last written digit (<= e); same as `e` unless read from text
    pub lo: i64,
    /// number of digits written, leading zeros excluded
    pub written: usize,
}

impl Dec {
    pub fn from_parts(neg: bool, mant: u64, exp: i64) -> Dec {
        Dec::from_digits(neg, mant.to_string().as_bytes(), exp)
    }
    /// `digits` times 10^lo
    pub fn from_digits(neg: bool, digits: &[u8], lo: i64) -> Dec {
        let start = digits.iter().position(|&c| c != b'0').unwrap_or(digits.len());
        let mut end = digits.len();
        while end > start && digits[end - 1] == b'0' {
            end -= 1;
        }
        let d = digits[start..end].to_vec();
        let e = if d.is_empty() { 0 } else { lo + (digits.len() - end) as i64 };
        Dec { neg, written: digits.len() - start, d, e, lo }
    }
    pub fn of(n: &Number) -> Option<Dec> {
        if n.is_nan() {
            return None;
        }
        let (pos, m, e) = n.as_parts();
        Some(Dec::from_parts(!pos, m, e as i64))
    }
    pub fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
    /// Equal as exact values *and* in sign (so 0 and -0 differ).
    pub fn same(&self, o: &Dec) -> bool {
        self.neg == o.neg && self.d == o.d && (self.d.is_empty() || self.e == o.e)
    }
    /// Equal as numbers (0 == -0).
    pub fn eq_num(&self, o: &Dec) -> bool {
        if self.is_zero() || o.is_zero() {
            return self.is_zero() && o.is_zero();
        }
        self.same(o)
    }
    /// The value is in [10^(order-1), 10^order)
    pub fn order(&self) -> i64 {
        self.e + self.d.len() as i64
    }
    pub fn fits_u64(&self) -> bool {
        fits_u64(&self.d)
    }
    pub fn mant(&self) -> u64 {
        std::str::from_utf8(&self.d).unwrap().parse().unwrap_or(if self.d.is_empty() { 0 } else { u64::MAX })
    }
    pub fn text(&self) -> String {
        let z = if self.d.is_empty() { "0".into() } else { String::from_utf8_lossy(&self.d).into_owned() };
        format!("{}{}e{}", if self.neg { "-" } else { "" }, z, self.e)
    }
    /// Parse a JSON number literal (already validated).
    pub fn from_literal(lit: &str) -> Dec {
        let b = lit.as_bytes();
        let neg = b[0] == b'-';
        let b = if neg { &b[1..] } else { b };
        let epos = b.iter().position(|&c| c == b'e' || c == b'E').unwrap_or(b.len());
        let (num, ex) = (&b[..epos], &b[epos..]);
        let mut digits = vec![];
        let mut frac = 0i64;
        let mut dot = false;
        for &c in num {
            if c == b'.' {
                dot = true;
            } else {
                digits.push(c);
                if dot {
                    frac += 1;
                }
            }
        }
        let mut wexp = 0i64;
        if !ex.is_empty() {
            let ex = &ex[1..];
            let (eneg, ds) = match ex[0] {
                b'-' => (true, &ex[1..]),
                b'+' => (false, &ex[1..]),
                _ => (false, ex),
            };
            for &c in ds {
                wexp = (wexp * 10 + (c - b'0') as i64).min(1_000_000_000_000);
            }
            if eneg {
                wexp = -wexp;
            }
        }
        Dec::from_digits(neg, &digits, wexp - frac)
    }
}

pub fn fits_u64(d: &[u8]) -> bool {
    const MAX: &[u8] = b"18446744073709551615";
    d.len() < MAX.len() || (d.len() == MAX.len() && d <= MAX)
}

#[derive(Clone, Debug)]
pub enum M {
    Null,
    Bool(bool),
    Num(Dec),
    NaN,
    Str(String),
    Arr(Vec<M>),
    Obj(Vec<(String, M)>),
}

impl M {
    pub fn int(v: i64) -> M {
        M::Num(Dec::from_parts(v < 0, v.unsigned_abs(), 0))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            M::Null => "null",
            M::Bool(_) => "bool",
            M::Num(_) | M::NaN => "number",
            M::Str(_) => "string",
            M::Arr(_) => "array",
            M::Obj(_) => "object",
        }
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            M::Arr(v) => v.iter().map(|x| x.nodes()).sum(),
            M::Obj(v) => v.iter().map(|x| x.1.nodes()).sum(),
            _ => 0,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            M::Arr(v) if !v.is_empty() => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            M::Obj(v) if !v.is_empty() => 1 + v.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn has_nan(&self) -> bool {
        match self {
            M::NaN => true,
            M::Arr(v) => v.iter().any(|x| x.has_nan()),
            M::Obj(v) => v.iter().any(|x| x.1.has_nan()),
            _ => false,
        }
    }
    /// NaN becomes null, as in JSON text.
    pub fn denan(&self) -> M {
        match self {
            M::NaN => M::Null,
            M::Arr(v) => M::Arr(v.iter().map(|x| x.denan()).collect()),
            M::Obj(v) => M::Obj(v.iter().map(|(k, x)| (k.clone(), x.denan())).collect()),
            x => x.clone(),
        }
    }
    /// Equality of values as the library documents it.
    pub fn eq_val(&self, o: &M) -> bool {
        match (self, o) {
            (M::Null, M::Null) => true,
            (M::NaN, M::NaN) => true,
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Num(a), M::Num(b)) => a.eq_num(b),
            (M::Str(a), M::Str(b)) => a == b,
            (M::Arr(a), M::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_val(y)),
            (M::Obj(a), M::Obj(b)) => {
                a.len() == b.len() && {
                    let m: std::collections::HashMap<&str, &M> = b.iter().map(|(k, v)| (k.as_str(), v)).collect();
                    a.iter().all(|(k, v)| m.get(k.as_str()).map_or(false, |w| v.eq_val(w)))
                }
            }
            _ => false,
        }
    }
    /// A short rendering for reports.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        if s.len() > 1500 {
            s.push_str("..");
            return;
        }
        match self {
            M::Null => s.push_str("null"),
            M::NaN => s.push_str("NaN"),
            M::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            M::Num(d) => s.push_str(&d.text()),
            M::Str(x) => s.push_str(&crate::engine::clip(&crate::engine::jstr(x), 200)),
            M::Arr(v) => {
                s.push('[');
                for x in v {
                    x.show_into(s);
                    s.push(',');
                    if s.len() > 1500 {
                        break;
                    }
                }
                s.push(']');
            }
            M::Obj(v) => {
                s.push('{');
                for (k, x) in v {
                    s.push_str(&crate::engine::clip(&crate::engine::jstr(k), 100));
                    s.push(':');
                    x.show_into(s);
                    s.push(',');
                    if s.len() > 1500 {
                        break;
                    }
                }
                s.push('}');
            }
        }
    }
    pub fn hash(&self) -> u64 {
        fn go(m: &M, h: &mut u64) {
            fn mix(h: &mut u64, v: u64) {
                *h = (*h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                *h ^= *h >> 31;
            }
            match m {
                M::Null => mix(h, 1),
                M::NaN => mix(h, 2),
                M::Bool(b) => mix(h, 3 + *b as u64),
                M::Num(d) => {
                    mix(h, 5 + d.neg as u64);
                    mix(h, crate::engine::hash_bytes(&d.d));
                    mix(h, d.e as u64);
                }
                M::Str(s) => {
                    mix(h, 7);
                    mix(h, crate::engine::hash_bytes(s.as_bytes()));
                }
                M::Arr(v) => {
                    mix(h, 8 + ((v.len() as u64) << 8));
                    for x in v {
                        go(x, h);
                    }
                }
                M::Obj(v) => {
                    mix(h, 9 + ((v.len() as u64) << 8));
                    for (k, x) in v {
                        mix(h, crate::engine::hash_bytes(k.as_bytes()));
                        go(x, h);
                    }
                }
            }
        }
        let mut h = 17;
        go(self, &mut h);
        h
    }
}

// ------------------------------------------------------------ comparison

#[derive(Clone, Copy, PartialEq)]
pub enum NumMode {
    /// numbers must have exactly the modelled value and sign
    Exact,
    /// numbers were read from a literal: C05's rules
    Literal,
    /// numbers are only required to be numbers
    Any,
}

/// C05: may a number literal of value `lit` be read as `n`?
pub fn literal_ok(n: &Number, lit: &Dec) -> R {
    ensure!(!n.is_nan(), "number literal {} read as NaN", lit.text());
    let (pos, mant, exp) = n.as_parts();
    ensure!(pos != lit.neg, "sign of literal {} lost: read ({},{},{})", lit.text(), pos, mant, exp);
    let got = Dec::from_parts(!pos, mant, exp as i64);
    if lit.is_zero() {
        ensure!(mant == 0, "zero literal read as {}", got.text());
        return Ok(());
    }
    ensure!(mant != 0, "non-zero literal {} read as zero", lit.text());
    let imin = i16::MIN as i64;
    let imax = i16::MAX as i64;
    if lit.fits_u64() && lit.lo >= imin && lit.e <= imax {
        ensure!(got.same(lit), "literal {} read as {}", lit.text(), got.text());
        return Ok(());
    }
    // the exponents the mantissa kept may end up with
    let elo = if lit.written <= 19 { lit.lo } else { lit.lo.max(lit.order() - 20) };
    let ehi = if lit.d.len() <= 19 { lit.e } else { lit.order() - 19 };
    if elo >= imin && ehi <= imax {
        ensure!(close(lit, &got), "literal {} read as {} (relative error above 1e-18)", crate::engine::clip(&lit.text(), 200), got.text());
    } else if elo > imax {
        ensure!(exp as i64 == imax, "literal with exponent beyond the range ({}) read as {}", crate::engine::clip(&lit.text(), 200), got.text());
    } else if ehi < imin {
        ensure!(exp as i64 == imin, "literal with exponent below the range ({}) read as {}", crate::engine::clip(&lit.text(), 200), got.text());
    } else {
        // either representable or saturated
        ensure!(close(lit, &got) || exp as i64 == imax || exp as i64 == imin,
            "literal {} at the edge of the exponent range read as {}", crate::engine::clip(&lit.text(), 200), got.text());
    }
    Ok(())
}

fn close(a: &Dec, b: &Dec) -> bool {
    // bring both to 30 significant digits with a common exponent
    let base = a.order() - 30;
    let scale = |d: &Dec| -> Option<u128> {
        let mut v: u128 = 0;
        let mut e = d.e;
        let mut digits = &d.d[..];
        // drop digits beyond the common precision
        while e < base && !digits.is_empty() {
            digits = &digits[..digits.len() - 1];
            e += 1;
        }
        for &c in digits {
            v = v.checked_mul(10)?.checked_add((c - b'0') as u128)?;
        }
        while e > base {
            v = v.checked_mul(10)?;
            e -= 1;
        }
        Some(v)
    };
    match (scale(a), scale(b)) {
        (Some(x), Some(y)) => {
            let diff = if x > y { x - y } else { y - x };
            // x is in [1e29, 1e30): 1e-18 * x
            diff <= x / 1_000_000_000_000_000_000 + 2
        }
        _ => false,
    }
}

pub fn check_same(v: &JsonValue, m: &M, mode: NumMode) -> R {
    check_at(v, m, mode, &mut String::new())
}

fn check_at(v: &JsonValue, m: &M, mode: NumMode, path: &mut String) -> R {
    match (v, m) {
        (JsonValue::Null, M::Null) => Ok(()),
        (JsonValue::Boolean(a), M::Bool(b)) if a == b => Ok(()),
        (JsonValue::Number(n), M::NaN) => {
            ensure!(n.is_nan() || mode == NumMode::Any, "at {}: expected NaN, found {:?}", path, n.as_parts());
            Ok(())
        }
        (JsonValue::Number(n), M::Num(d)) => match mode {
            NumMode::Any => Ok(()),
            NumMode::Literal => literal_ok(n, d).map_err(|e| format!("at {}: {}", path, e)),
            NumMode::Exact => {
                let got = Dec::of(n);
                ensure!(got.as_ref().map_or(false, |g| g.same(d)), "at {}: expected number {}, found {}", path, d.text(),
                    got.map_or("NaN".into(), |g| g.text()));
                Ok(())
            }
        },
        (JsonValue::Short(s), M::Str(t)) => str_same(s.as_str(), t, path),
        (JsonValue::String(s), M::Str(t)) => str_same(s, t, path),
        (JsonValue::Array(a), M::Arr(b)) => {
            ensure!(a.len() == b.len(), "at {}: array of {} items, expected {}", path, a.len(), b.len());
            let l = path.len();
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                path.push_str(&format!("[{}]", i));
                check_at(x, y, mode, path)?;
                path.truncate(l);
            }
            Ok(())
        }
        (JsonValue::Object(o), M::Obj(b)) => {
            ensure!(o.len() == b.len(), "at {}: object of {} entries, expected {}", path, o.len(), b.len());
            let l = path.len();
            let mut it = b.iter();
            let mut n = 0;
            for (k, x) in o.iter() {
                let (ek, ev) = match it.next() {
                    Some(p) => p,
                    None => return Err(format!("at {}: iterator yields more than len() entries", path)),
                };
                ensure!(k.as_bytes() == ek.as_bytes(), "at {}: entry {} has key {}, expected {}", path, n,
                    crate::engine::clip(&format!("{:?}", k.as_bytes()), 300), crate::engine::clip(&format!("{:?}", ek.as_bytes()), 300));
                path.push_str(&format!(".{}", crate::engine::clip(ek, 40)));
                check_at(x, ev, mode, path)?;
                match o.get(ek) {
                    Some(g) => ensure!(std::ptr::eq(g, x), "at {}: get finds a different entry than iteration", path),
                    None => return Err(format!("at {}: get does not find a key that iteration shows", path)),
                }
                path.truncate(l);
                n += 1;
            }
            ensure!(n == b.len(), "at {}: iterator yields {} entries, expected {}", path, n, b.len());
            Ok(())
        }
        _ => Err(format!("at {}: expected {}, found {}", path, crate::engine::clip(&m.show(), 200), kind_of(v))),
    }
}

fn str_same(a: &str, b: &str, path: &str) -> R {
    ensure!(a.as_bytes() == b.as_bytes(), "at {}: string differs: got {} expected {}", path,
        crate::engine::clip(&format!("{:?}", String::from_utf8_lossy(a.as_bytes())), 300), crate::engine::clip(&format!("{:?}", b), 300));
    ensure!(std::str::from_utf8(a.as_bytes()).is_ok(), "at {}: not UTF-8", path);
    Ok(())
}

pub fn kind_of(v: &JsonValue) -> String {
    match v {
        JsonValue::Null => "null".into(),
        JsonValue::Short(s) => format!("short string {:?}", String::from_utf8_lossy(s.as_str().as_bytes())),
        JsonValue::String(s) => format!("string {:?}", crate::engine::clip(&String::from_utf8_lossy(s.as_bytes()), 100)),
        JsonValue::Number(n) => format!("number {:?} nan={}", n.as_parts(), n.is_nan()),
        JsonValue::Boolean(b) => format!("{}", b),
        JsonValue::Object(o) => format!("object of {}", o.len()),
        JsonValue::Array(a) => format!("array of {}", a.len()),
    }
}

/// Read a library value into a model (exact numbers).
pub fn model_of(v: &JsonValue) -> M {
    match v {
        JsonValue::Null => M::Null,
        JsonValue::Short(s) => M::Str(s.as_str().to_string()),
        JsonValue::String(s) => M::Str(s.clone()),
        JsonValue::Number(n) => Dec::of(n).map_or(M::NaN, M::Num),
        JsonValue::Boolean(b) => M::Bool(*b),
        JsonValue::Object(o) => M::Obj(o.iter().map(|(k, v)| (k.to_string(), model_of(v))).collect()),
        JsonValue::Array(a) => M::Arr(a.iter().map(model_of).collect()),
    }
}

// ------------------------------------------------------------ reference parser

#[derive(Clone, Debug, PartialEq)]
pub enum RefErr {
    /// no valid document starts with text[..= the character at this offset]
    Unexpected(usize),
    /// the text is a proper prefix of a valid document
    Eof,
    /// more than 512 open non-empty containers
    Depth,
    /// a \u escape that is not a scalar value
    Surrogate,
}

pub struct RefOut {
    pub result: Result<M, RefErr>,
    /// a number with more digits than the library promises to take appeared
    pub big: bool,
}

#[derive(Clone, Copy)]
pub struct Grammar {
    /// accept vertical tab and form feed as whitespace
    pub vt_ff: bool,
    pub depth: usize,
}
pub const LIB: Grammar = Grammar { vt_ff: true, depth: 512 };
pub const STRICT: Grammar = Grammar { vt_ff: false, depth: usize::MAX };

struct P<'a> {
    s: &'a [u8],
    i: usize,
    g: Grammar,
    big: bool,
}

type PR<T> = Result<T, RefErr>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn unexpected<T>(&self) -> PR<T> {
        if self.i >= self.s.len() { Err(RefErr::Eof) } else { Err(RefErr::Unexpected(self.i)) }
    }
    fn ws(&mut self) {
        while let Some(c) = self.peek() {
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                0x0b | 0x0c if self.g.vt_ff => self.i += 1,
                _ => break,
            }
        }
    }
    fn lit(&mut self, w: &str) -> PR<()> {
        for &c in w.as_bytes() {
            if self.peek() != Some(c) {
                return self.unexpected();
            }
            self.i += 1;
        }
        Ok(())
    }
    fn value(&mut self, open: usize) -> PR<M> {
        self.ws();
        match self.peek() {
            Some(b'n') => self.lit("null").map(|_| M::Null),
            Some(b't') => self.lit("true").map(|_| M::Bool(true)),
            Some(b'f') => self.lit("false").map(|_| M::Bool(false)),
            Some(b'"') => self.string().map(M::Str),
            Some(b'-') | Some(b'0'..=b'9') => self.number().map(M::Num),
            Some(b'[') => {
                self.i += 1;
                self.ws();
                let mut v = vec![];
                match self.peek() {
                    Some(b']') => {
                        self.i += 1;
                        return Ok(M::Arr(v));
                    }
                    None => return Err(RefErr::Eof),
                    Some(_) => {}
                }
                if open == self.g.depth {
                    return Err(RefErr::Depth);
                }
                loop {
                    v.push(self.value(open + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(M::Arr(v));
                        }
                        _ => return self.unexpected(),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                self.ws();
                let mut v: Vec<(String, M)> = vec![];
                let mut index: std::collections::HashMap<String, usize> = Default::default();
                match self.peek() {
                    Some(b'}') => {
                        self.i += 1;
                        return Ok(M::Obj(v));
                    }
                    None => return Err(RefErr::Eof),
                    Some(_) => {}
                }
                if open == self.g.depth {
                    return Err(RefErr::Depth);
                }
                loop {
                    self.ws();
                    if self.peek() != Some(b'"') {
                        return self.unexpected();
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') {
                        return self.unexpected();
                    }
                    self.i += 1;
                    let x = self.value(open + 1)?;
                    match index.get(&k) {
                        Some(&j) => v[j].1 = x,
                        None => {
                            index.insert(k.clone(), v.len());
                            v.push((k, x));
                        }
                    }
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(M::Obj(v));
                        }
                        _ => return self.unexpected(),
                    }
                }
            }
            _ => self.unexpected(),
        }
    }
    fn hex4(&mut self) -> PR<u32> {
        let mut v = 0;
        for _ in 0..4 {
            match self.peek().and_then(|c| (c as char).to_digit(16)) {
                Some(d) => v = v * 16 + d,
                None => return self.unexpected(),
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> PR<String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.peek() {
                None => return Err(RefErr::Eof),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8(out).expect("HARNESS reference string"));
                }
                Some(0..=0x1f) => return self.unexpected(),
                Some(b'\\') => {
                    self.i += 1;
                    let c = match self.peek() {
                        None => return Err(RefErr::Eof),
                        Some(c) => c,
                    };
                    let plain = match c {
                        b'"' | b'\\' | b'/' => Some(c),
                        b'b' => Some(8),
                        b'f' => Some(12),
                        b'n' => Some(10),
                        b'r' => Some(13),
                        b't' => Some(9),
                        b'u' => None,
                        _ => return self.unexpected(),
                    };
                    self.i += 1;
                    if let Some(c) = plain {
                        out.push(c);
                        continue;
                    }
                    let a = self.hex4()?;
                    let cp = match a {
                        0xd800..=0xdbff => {
                            for w in [b'\\', b'u'] {
                                match self.peek() {
                                    None => return Err(RefErr::Eof),
                                    Some(c) if c == w => self.i += 1,
                                    Some(_) => return Err(RefErr::Surrogate),
                                }
                            }
                            let b = match self.hex4() {
                                Ok(b) => b,
                                Err(RefErr::Eof) => return Err(RefErr::Eof),
                                Err(_) => return Err(RefErr::Surrogate),
                            };
                            if !(0xdc00..=0xdfff).contains(&b) {
                                return Err(RefErr::Surrogate);
                            }
                            0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
                        }
                        0xdc00..=0xdfff => return Err(RefErr::Surrogate),
                        x => x,
                    };
                    let ch = char::from_u32(cp).expect("HARNESS scalar");
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                Some(c) => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn number(&mut self) -> PR<Dec> {
        let st = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        let ist = self.i;
        match self.peek() {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                while matches!(self.peek(), Some(b'0'..=b'9')) {
                    self.i += 1;
                }
            }
            _ => return self.unexpected(),
        }
        if self.i - ist > 32780 {
            self.big = true;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            if !matches!(self.peek(), Some(b'0'..=b'9')) {
                return self.unexpected();
            }
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
        }
        if matches!(self.peek(), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+') | Some(b'-')) {
                self.i += 1;
            }
            if !matches!(self.peek(), Some(b'0'..=b'9')) {
                return self.unexpected();
            }
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
        }
        Ok(Dec::from_literal(std::str::from_utf8(&self.s[st..self.i]).expect("HARNESS ascii")))
    }
}

pub fn refparse(text: &str, g: Grammar) -> RefOut {
    let mut p = P { s: text.as_bytes(), i: 0, g, big: false };
    let mut r = p.value(0);
    if r.is_ok() {
        p.ws();
        if p.i < p.s.len() {
            r = Err(RefErr::Unexpected(p.i));
        }
    }
    RefOut { result: r, big: p.big }
}

/// (character, line, column) of the character at byte offset `at`.
pub fn position(text: &str, at: usize) -> (char, usize, usize) {
    let mut line = 1;
    let mut col = 1;
    for (i, ch) in text.char_indices() {
        if i == at {
            return (ch, line, col);
        }
        if ch == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    ('\u{fffd}', line, col)
}

/// The documented layout, computed from compact JSON text.
pub fn ref_pretty(compact: &str, unit: &str) -> String {
    let b = compact.as_bytes();
    let mut o: Vec<u8> = Vec::with_capacity(b.len() * 2);
    let mut depth = 0usize;
    let mut i = 0;
    let nl = |o: &mut Vec<u8>, depth: usize| {
        o.push(b'\n');
        for _ in 0..depth {
            o.extend_from_slice(unit.as_bytes());
        }
    };
    while i < b.len() {
        let c = b[i];
        match c {
            b'"' => {
                let st = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i += 1;
                o.extend_from_slice(&b[st..i.min(b.len())]);
                continue;
            }
            b'[' | b'{' => {
                if i + 1 < b.len() && b[i + 1] == c + 2 {
                    o.push(c);
                    o.push(c + 2);
                    i += 2;
                    continue;
                }
                o.push(c);
                depth += 1;
                nl(&mut o, depth);
            }
            b']' | b'}' => {
                depth = depth.saturating_sub(1);
                nl(&mut o, depth);
                o.push(c);
            }
            b',' => {
                o.push(c);
                nl(&mut o, depth);
            }
            b':' => o.extend_from_slice(b": "),
            _ => o.push(c),
        }
        i += 1;
    }
    String::from_utf8(o).expect("HARNESS pretty text")
}

/// Insert a space after each colon of an entry.
pub fn ref_colons(compact: &str) -> String {
    let b = compact.as_bytes();
    let mut o: Vec<u8> = Vec::with_capacity(b.len() * 2);
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            let st = i;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            o.extend_from_slice(&b[st..i.min(b.len())]);
            continue;
        }
        o.push(b[i]);
        if b[i] == b':' {
            o.push(b' ');
        }
        i += 1;
    }
    String::from_utf8(o).expect("HARNESS text")
}

/// The compact text a value must have, given how each number is spelled.
pub fn ref_string(s: &str, o: &mut String) {
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
