//! Workload generators: strings, keys, numbers, values, documents, and the
//! construction of library values along many different paths.

use crate::engine::*;
use crate::model::*;
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;

/// Pairs of strings with equal 64-bit FNV-1a hashes. Appending the same suffix
/// to both sides of a pair gives another pair.
pub const COLLIDING: &[(&str, &str)] =
    &[("8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"), ("gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf")];

const UNI: &[char] = &[
    'é', 'ß', '\u{80}', '\u{7ff}', '\u{800}', '€', '日', '本', '\u{ffff}', '\u{fffe}', '\u{fffd}', '\u{10000}', '😎', '\u{10ffff}', '\u{d7ff}', '\u{e000}',
    '\u{2028}', '\u{2029}', '\u{feff}', '\u{7f}', '\u{85}', '\u{a0}', 'ı', 'Σ', '\u{300}',
];

pub fn gen_char(c: &mut Ctx, class: usize) -> char {
    match class {
        0 => (b'a' + c.t.below(26) as u8) as char,
        1 => (0x20 + c.t.below(95) as u8) as char,
        2 => c.t.below(32) as u8 as char,
        3 => *c.t.pick(UNI),
        4 => *c.t.pick(&['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1f}', ' ', '\u{7f}', '\'', 'u', 'b']),
        5 => {
            let v = match c.t.below(4) {
                0 => c.t.below(0x80),
                1 => 0x80 + c.t.below(0x780),
                2 => 0x800 + c.t.below(0xf800),
                _ => 0x10000 + c.t.below(0x100000),
            };
            char::from_u32(v as u32).unwrap_or('x')
        }
        6 => *c.t.pick(&['{', '}', '[', ']', ',', ':', '"', '\\', '0', '-', 'e', '.', 't', ' ', '\n']),
        _ => {
            let k = c.t.below(7);
            gen_char(c, k)
        }
    }
}

/// A string of about `n` bytes, filled from a seed.
pub fn fill_string(n: usize, class: usize, r: &mut Rng) -> String {
    let mut s = String::with_capacity(n + 4);
    let specials: &[char] = &['"', '\\', '\n', '\u{1}', 'é', '😎', '\u{1f}', '/', '\t', '€'];
    let special_at = if class == 1 || class == 3 { r.below(n + 1) } else { usize::MAX };
    while s.len() < n {
        let left = n - s.len();
        let ch = match class {
            0 | 1 => (b'a' + r.below(26) as u8) as char,
            2 => match r.below(4) {
                0 => specials[r.below(specials.len())],
                1 => UNI[r.below(UNI.len())],
                2 => (r.below(0x80) as u8) as char,
                _ => 'q',
            },
            3 => (0x20 + r.below(95) as u8) as char,
            4 => ['"', '\\', '\n', '\u{1}', '\u{1f}'][r.below(5)],
            _ => ['日', 'é', '😎', '\u{ffff}'][r.below(4)],
        };
        let ch = if s.len() >= special_at && s.len() < special_at.saturating_add(4) { specials[r.below(specials.len())] } else { ch };
        if ch.len_utf8() > left {
            s.push('x');
        } else {
            s.push(ch);
        }
    }
    s
}

pub fn gen_string(c: &mut Ctx, max: usize) -> String {
    match c.t.below(16) {
        0 => String::new(),
        1..=8 => {
            // per-character choices
            let n = c.size(max.min(40));
            let class = c.t.below(9);
            let mut s = String::new();
            for _ in 0..n {
                s.push(gen_char(c, class));
            }
            s
        }
        9..=11 => {
            // exact byte lengths around the inline limits
            let n = *c.t.pick(&[28usize, 29, 30, 31, 32, 33, 34, 35, 63, 64, 65, 60, 61, 62]);
            let class = c.t.below(6);
            let s = c.t.seed();
            fill_string(n.min(max), class, &mut Rng::new(s))
        }
        12 if !c.dict.strs.is_empty() => {
            let k = c.t.below(c.dict.strs.len());
            let mut s = c.dict.strs[k].clone();
            if c.t.chance(1, 3) {
                let class = c.t.below(7);
                let ch = gen_char(c, class);
                s.push(ch);
            }
            s
        }
        _ => {
            let n = c.size(max);
            let class = c.t.below(6);
            let s = c.t.seed();
            fill_string(n, class, &mut Rng::new(s))
        }
    }
}

pub fn gen_key(c: &mut Ctx) -> String {
    match c.t.below(12) {
        0 => String::new(),
        1 | 2 => {
            let n = 1 + c.t.below(3);
            (0..n).map(|_| (b'a' + c.t.below(3) as u8) as char).collect()
        }
        3 => {
            let n = c.size(6000);
            format!("k{}", n)
        }
        4 | 5 => {
            // lengths around the inline key buffer, sharing a long prefix
            let n = *c.t.pick(&[30usize, 31, 32, 33, 34, 31, 32, 33]);
            let mut s = "p".repeat(n - 1);
            s.push((b'a' + c.t.below(4) as u8) as char);
            s
        }
        6 | 7 => {
            let p = *c.t.pick(COLLIDING);
            let mut s = if c.t.chance(1, 2) { p.0.to_string() } else { p.1.to_string() };
            match c.t.below(6) {
                0 => s.push_str("-suffix-beyond-32"),
                1 => s.push_str("012345678901"),
                2 => s.push_str("0123456789012"),
                3 => s.push((b'a' + c.t.below(3) as u8) as char),
                _ => {}
            }
            s
        }
        8 if !c.dict.strs.is_empty() => {
            let k = c.t.below(c.dict.strs.len());
            c.dict.strs[k].clone()
        }
        9 => {
            let n = *c.t.pick(&[29usize, 30, 31, 32, 33, 34, 64, 65, 255, 256, 257]);
            let cl = c.t.below(6);
            let s = c.t.below(4) as u64;
            fill_string(n, cl, &mut Rng::new(s))
        }
        _ => gen_string(c, 80),
    }
}

pub fn gen_parts(c: &mut Ctx) -> (bool, u64, i16) {
    let neg = c.t.chance(1, 3);
    let m = c.u64b();
    let e = c.exp16();
    (neg, m, e)
}

pub fn gen_num(c: &mut Ctx) -> M {
    match c.t.below(12) {
        0..=4 => {
            let v = c.t.below(200) as i64 - 50;
            M::int(v)
        }
        5 if c.t.chance(1, 3) => M::NaN,
        _ => {
            let (n, m, e) = gen_parts(c);
            M::Num(Dec::from_parts(n, m, e as i64))
        }
    }
}

/// Digits of a number literal.
fn gen_digits(c: &mut Ctx, max: usize) -> String {
    let n = match c.t.below(10) {
        0..=4 => 1 + c.t.below(6),
        5 | 6 => 15 + c.t.below(9),
        7 => 1 + c.t.below(45),
        8 => 1 + c.size(max),
        _ => 19 + c.t.below(3),
    };
    let mut s = String::new();
    if n <= 64 {
        let style = c.t.below(6);
        for i in 0..n {
            let d = match style {
                0 => 0,
                1 => 9,
                2 => [0, 0, 0, 1, 9, 5][c.t.below(6)],
                3 => {
                    if i == 0 { 1 + c.t.below(9) } else { 0 }
                }
                _ => c.t.below(10),
            };
            s.push((b'0' + d as u8) as char);
        }
        if style == 5 {
            // around u64::MAX and the precision threshold
            let base = *c.t.pick(&["18446744073709551615", "1844674407370955161", "576460752303423500", "57646075230342350", "57646075230342349", "9223372036854775807", "99999999999999999999", "9007199254740993"]);
            s = base.to_string();
            let k = c.t.below(4);
            for _ in 0..k {
                s.push((b'0' + c.t.below(10) as u8) as char);
            }
            if c.t.chance(1, 3) {
                let last = s.pop().unwrap() as u8;
                s.push(if last == b'9' { '8' } else { (last + 1) as char });
            }
        }
    } else {
        let sd = c.t.seed();
        let mut r = Rng::new(sd);
        let style = r.below(4);
        for i in 0..n {
            let d = match style {
                0 => 0,
                1 => 9,
                2 => if i + 1 == n { 7 } else { 0 },
                _ => r.below(10),
            };
            s.push((b'0' + d as u8) as char);
        }
    }
    s
}

pub fn gen_numlit(c: &mut Ctx, max_digits: usize) -> String {
    let mut s = String::new();
    if c.t.chance(1, 3) {
        s.push('-');
    }
    if c.t.chance(1, 3) {
        s.push('0');
    } else {
        let d = gen_digits(c, max_digits);
        let d = d.trim_start_matches('0');
        s.push_str(if d.is_empty() { "0" } else { d });
    }
    if c.t.chance(1, 2) {
        s.push('.');
        if c.t.chance(1, 4) {
            let z = c.size(max_digits);
            for _ in 0..z {
                s.push('0');
            }
        }
        let d = gen_digits(c, max_digits);
        s.push_str(&d);
        if c.t.chance(1, 5) {
            let z = c.size(60);
            for _ in 0..z {
                s.push('0');
            }
        }
    }
    if c.t.chance(1, 2) {
        s.push(*c.t.pick(&['e', 'E']));
        match c.t.below(4) {
            0 => s.push('+'),
            1 | 2 => s.push('-'),
            _ => {}
        }
        let z = if c.t.chance(1, 6) { c.size(40) } else { 0 };
        for _ in 0..z {
            s.push('0');
        }
        let e = match c.t.below(8) {
            0..=3 => c.t.below(40) as u64,
            4 => c.exp16().unsigned_abs() as u64,
            5 => 32768 + c.t.below(80) as u64 - 40,
            6 => *c.t.pick(&[65535u64, 65536, 65537, 65540, 131072, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 5, i64::MAX as u64, u64::MAX, 99999, 32767, 32768, 32769]),
            _ => c.u64b(),
        };
        s.push_str(&e.to_string());
        if c.t.chance(1, 12) {
            let z = c.size(30);
            for _ in 0..z {
                s.push((b'0' + c.t.below(10) as u8) as char);
            }
        }
    }
    s
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub nodes: usize,
    pub depth: usize,
    pub strlen: usize,
    pub nan: bool,
}
pub const SMALL: Shape = Shape { nodes: 40, depth: 6, strlen: 300, nan: true };

pub fn gen_value(c: &mut Ctx, sh: Shape) -> M {
    let sh = if c.small { Shape { nodes: sh.nodes.min(10), depth: sh.depth.min(4), strlen: sh.strlen.min(70), nan: sh.nan } } else { sh };
    let mut budget = sh.nodes as isize;
    let m = match c.t.below(24) {
        0 => {
            // a chain of containers
            let d = c.size(if sh.nodes >= 40 { 500 } else { sh.depth });
            let mut m = gen_leaf(c, sh);
            let k = c.t.below(3);
            for i in 0..d {
                m = if k == 0 || (k == 2 && i % 2 == 0) { M::Arr(vec![m]) } else { M::Obj(vec![("k".into(), m)]) };
            }
            m
        }
        1 if sh.nodes >= 40 => {
            // many entries
            let n = c.size(sh.nodes * 8);
            wide_object(c, n)
        }
        2 if sh.nodes >= 40 => {
            let n = c.size(sh.nodes * 16);
            let s = c.t.seed();
            let mut r = Rng::new(s);
            let style = r.below(4);
            M::Arr((0..n).map(|i| match style {
                0 => M::int(i as i64),
                1 => M::Arr(vec![]),
                2 => M::Str(fill_string(r.below(70), 2, &mut r)),
                _ => [M::Null, M::Bool(true), M::Obj(vec![]), M::Str("x".into()), M::int(-1)][r.below(5)].clone(),
            }).collect())
        }
        _ => gen_rec(c, sh, sh.depth, &mut budget),
    };
    if sh.nan { m } else { m.denan() }
}

pub fn wide_object(c: &mut Ctx, n: usize) -> M {
    let s = c.t.seed();
    let mut r = Rng::new(s);
    let style = r.below(6);
    // all integers, or values of every kind, nulls among them
    let plain = r.chance(1, 3);
    let mut out: Vec<(String, M)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let k = match style {
            0 => format!("{}", i),
            1 => format!("key-{:06}", n - i),
            2 => "x".repeat(i % 70) + &i.to_string(),
            3 => fill_string(r.below(70), 2, &mut r),
            4 => {
                let p = COLLIDING[(i / 2) % 2];
                format!("{}{}", if i % 2 == 0 { p.0 } else { p.1 }, i / 4)
            }
            _ => fill_string(30 + r.below(5), 0, &mut r),
        };
        if seen.insert(k.clone()) {
            let x = if plain {
                M::int(i as i64)
            } else {
                match r.below(9) {
                    0 | 1 => M::Null,
                    2 => M::Bool(i % 2 == 0),
                    3 => M::Arr(vec![M::Null; r.below(3)]),
                    4 => M::Obj(if r.chance(1, 2) { vec![] } else { vec![(i.to_string(), M::Null)] }),
                    5 => M::Str(String::new()),
                    6 => M::Str(fill_string(r.below(70), 2, &mut r)),
                    7 => M::int(-(i as i64)),
                    _ => M::int(0),
                }
            };
            out.push((k, x));
        }
    }
    M::Obj(out)
}

pub fn gen_leaf(c: &mut Ctx, sh: Shape) -> M {
    match c.t.below(10) {
        0 => M::Null,
        1 => M::Bool(c.t.chance(1, 2)),
        2..=4 => gen_num(c),
        5 => if c.t.chance(1, 2) { M::Arr(vec![]) } else { M::Obj(vec![]) },
        _ => M::Str(gen_string(c, sh.strlen)),
    }
}

fn gen_rec(c: &mut Ctx, sh: Shape, depth: usize, budget: &mut isize) -> M {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || c.t.chance(1, 4) {
        return gen_leaf(c, sh);
    }
    let n = c.size(12);
    if c.t.chance(1, 2) {
        let mut v = vec![];
        for _ in 0..n {
            if *budget <= 0 {
                break;
            }
            v.push(gen_rec(c, sh, depth - 1, budget));
        }
        M::Arr(v)
    } else {
        let mut v: Vec<(String, M)> = vec![];
        for _ in 0..n {
            if *budget <= 0 {
                break;
            }
            let k = gen_key(c);
            if v.iter().any(|x| x.0 == k) {
                continue;
            }
            let x = gen_rec(c, sh, depth - 1, budget);
            v.push((k, x));
        }
        M::Obj(v)
    }
}

/// A larger value, now and then.
pub fn gen_big(c: &mut Ctx) -> M {
    match c.t.below(5) {
        0 => {
            let n = c.size(5000);
            wide_object(c, n)
        }
        1 => {
            let n = c.size(120_000);
            let cl = c.t.below(6);
            let s = c.t.seed();
            M::Str(fill_string(n, cl, &mut Rng::new(s)))
        }
        2 => {
            let n = c.size(20_000);
            let s = c.t.seed();
            let mut r = Rng::new(s);
            let st = r.below(3);
            M::Arr((0..n).map(|i| match st { 0 => M::Null, 1 => M::int(i as i64), _ => M::Arr(vec![M::Str("ab\"".into())]) }).collect())
        }
        3 => {
            // many strings that need escapes
            let n = c.size(1500);
            let s = c.t.seed();
            let mut r = Rng::new(s);
            M::Arr((0..n).map(|_| {
                let l = r.below(60);
                M::Str(fill_string(l, 2, &mut r))
            }).collect())
        }
        _ => gen_value(c, Shape { nodes: 600, depth: 12, strlen: 2000, nan: true }),
    }
}

pub fn any_value(c: &mut Ctx) -> M {
    if c.t.chance(1, 120) { gen_big(c) } else { gen_value(c, SMALL) }
}

// ------------------------------------------------------------ documents

/// Emit a model as JSON text in varied spelling. Returns the text and the model
/// it must be read as (numbers carry their literal's exact value).
pub struct Emit {
    pub r: Rng,
    pub out: String,
    pub ws: usize,
    pub esc: usize,
    pub dups: bool,
}

pub fn emit(c: &mut Ctx, m: &M) -> (String, M) {
    let s = c.t.seed();
    let ws = c.t.below(5);
    let esc = c.t.below(5);
    let dups = c.t.chance(1, 3);
    let mut e = Emit { r: Rng::new(s), out: String::new(), ws, esc, dups };
    e.space();
    let m2 = e.value(m);
    e.space();
    (e.out, m2)
}

impl Emit {
    fn space(&mut self) {
        let n = match self.ws {
            0 | 1 => 0,
            2 => self.r.below(2),
            _ => self.r.below(4),
        };
        let pool: &[char] = if self.ws == 4 { &[' ', '\n', '\t', '\r', '\u{b}', '\u{c}'] } else { &[' ', '\n', '\t', '\r'] };
        for _ in 0..n {
            let ch = pool[self.r.below(pool.len())];
            self.out.push(ch);
        }
        if self.ws == 3 && self.r.chance(1, 200) {
            self.out.push_str(&" ".repeat(self.r.below(70)));
        }
    }
    fn uesc(&mut self, u: u16) {
        let s = if self.r.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) };
        self.out.push_str(&s);
    }
    pub fn string(&mut self, s: &str) {
        self.out.push('"');
        let esc = if self.esc == 4 { self.r.below(4) } else { self.esc };
        for ch in s.chars() {
            let must = matches!(ch, '"' | '\\') || (ch as u32) < 0x20;
            let do_esc = must || match esc {
                0 => false,
                1 => self.r.chance(1, 8),
                2 => true,
                _ => ch as u32 > 0x7e || self.r.chance(1, 30),
            };
            if !do_esc {
                self.out.push(ch);
                continue;
            }
            let two = match ch {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match two {
                Some(x) if self.r.chance(3, 4) => {
                    self.out.push('\\');
                    self.out.push(x);
                }
                _ => {
                    let mut b = [0u16; 2];
                    for &u in ch.encode_utf16(&mut b).iter() {
                        self.uesc(u);
                    }
                }
            }
        }
        self.out.push('"');
    }
    fn number(&mut self, d: &Dec) -> Dec {
        let start = self.out.len();
        let s = respell(d, &mut self.r);
        self.out.push_str(&s);
        Dec::from_literal(&self.out[start..])
    }
    fn scalar(&mut self) -> M {
        [M::Null, M::Bool(false), M::int(7), M::Str("dup\n".into()), M::Arr(vec![]), M::Arr(vec![M::int(1)]), M::Obj(vec![("a".into(), M::Null)])][self.r.below(7)].clone()
    }
    pub fn value(&mut self, m: &M) -> M {
        match m {
            M::Null | M::NaN => {
                self.out.push_str("null");
                M::Null
            }
            M::Bool(b) => {
                self.out.push_str(if *b { "true" } else { "false" });
                M::Bool(*b)
            }
            M::Num(d) => M::Num(self.number(d)),
            M::Str(s) => {
                self.string(s);
                m.clone()
            }
            M::Arr(v) => {
                self.out.push('[');
                let mut o = Vec::with_capacity(v.len());
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.space();
                    o.push(self.value(x));
                    self.space();
                }
                if v.is_empty() {
                    self.space();
                }
                self.out.push(']');
                M::Arr(o)
            }
            M::Obj(v) => {
                self.out.push('{');
                let mut o: Vec<(String, M)> = Vec::with_capacity(v.len());
                let mut first = true;
                let mut later: Vec<usize> = vec![];
                for (i, (k, x)) in v.iter().enumerate() {
                    let dup = self.dups && self.r.chance(1, 5);
                    let val = if dup { self.scalar() } else { x.clone() };
                    let got = self.entry(k, &val, &mut first);
                    o.push((k.clone(), got));
                    if dup {
                        later.push(i);
                    }
                    // overwrite an earlier key now
                    if !later.is_empty() && self.r.chance(1, 2) {
                        let j = later.swap_remove(self.r.below(later.len()));
                        let (k, x) = (&v[j].0, &v[j].1);
                        let got = self.entry(k, x, &mut first);
                        o[j].1 = got;
                    }
                }
                for j in later {
                    if self.r.chance(1, 3) {
                        let s = self.scalar();
                        self.entry(&v[j].0, &s, &mut first);
                    }
                    let got = self.entry(&v[j].0, &v[j].1, &mut first);
                    o[j].1 = got;
                }
                if first {
                    self.space();
                }
                self.out.push('}');
                M::Obj(o)
            }
        }
    }
    fn entry(&mut self, k: &str, x: &M, first: &mut bool) -> M {
        if !*first {
            self.out.push(',');
        }
        *first = false;
        self.space();
        self.string(k);
        self.space();
        self.out.push(':');
        self.space();
        let g = self.value(x);
        self.space();
        g
    }
}

/// One of many spellings of the same decimal.
pub fn respell(d: &Dec, r: &mut Rng) -> String {
    let sign = if d.neg { "-" } else { "" };
    let digits = if d.d.is_empty() { "0".to_string() } else { String::from_utf8_lossy(&d.d).into_owned() };
    let e = d.e;
    let n = digits.len() as i64;
    match r.below(5) {
        // plain, if not too long
        0 | 1 if e >= 0 && e <= 25 => {
            let z = if d.d.is_empty() { 0 } else { e as usize };
            format!("{}{}{}", sign, digits, "0".repeat(z))
        }
        0 | 1 if e < 0 && e > -40 => {
            let f = (-e) as usize;
            if (f as i64) < n {
                format!("{}{}.{}", sign, &digits[..digits.len() - f], &digits[digits.len() - f..])
            } else {
                format!("{}0.{}{}", sign, "0".repeat(f - digits.len()), digits)
            }
        }
        2 => {
            // scientific with a fraction
            if n == 1 {
                format!("{}{}e{}", sign, digits, e)
            } else {
                let z = "0".repeat(if r.chance(1, 4) { r.below(5) } else { 0 });
                format!("{}{}.{}{}E{}{}", sign, &digits[..1], &digits[1..], z, if e + n - 1 >= 0 && r.chance(1, 2) { "+" } else { "" }, e + n - 1)
            }
        }
        3 => {
            let z = r.below(4);
            format!("{}0.{}{}e{}", sign, "0".repeat(z), digits, e + n + z as i64)
        }
        _ => format!("{}{}{}{}", sign, digits, if r.chance(1, 2) { "e" } else { "E" }, e),
    }
}

/// Break a text in one or a few places.
pub fn mutate_text(c: &mut Ctx, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = 1 + c.t.below(2);
    for _ in 0..n {
        let at = if v.is_empty() { 0 } else { c.t.below(v.len() + 1) };
        match c.t.below(12) {
            0 | 1 => v.truncate(at),
            2 => {
                let ch = gen_char(c, 6);
                v.insert(at, ch);
            }
            3 => {
                if at < v.len() {
                    v.remove(at);
                }
            }
            4 => {
                if at < v.len() {
                    v[at] = gen_char(c, 6);
                }
            }
            5 => {
                if at < v.len() {
                    v[at] = gen_char(c, 7);
                }
            }
            6 => {
                let ch = gen_char(c, 7);
                v.insert(at, ch);
            }
            7 => {
                let w = *c.t.pick(&["null", "true", "tru", "fals", "nul", "01", "-", "1.", ".5", "1e", "1e+", "\"\\x\"", "\\u12", "\\ud800", "\\ud83d\\ude0e", "//", "/*", "NaN", "Infinity", "'a'", "\u{feff}", "\"", "\"\t\"", "[]", "{}", ",,", "[,", "{,", ":", "+1", "0x1", "1_0", "\u{a0}", "\u{85}", "\u{2028}", "\0", "\\u00zz", "e5", "E", "--1", "00", "-a", "\\"]);
                for (i, ch) in w.chars().enumerate() {
                    v.insert(at + i, ch);
                }
            }
            8 => {
                if at + 1 < v.len() {
                    v.swap(at, at + 1);
                }
            }
            9 => {
                let n = c.size(40);
                let e = (at + n).min(v.len());
                if at < e {
                    v.drain(at..e);
                }
            }
            10 => {
                let n = 1 + c.t.below(12);
                let e = (at + n).min(v.len());
                if at < e {
                    let chunk: Vec<char> = v[at..e].to_vec();
                    let to = c.t.below(v.len() + 1);
                    for (i, ch) in chunk.into_iter().enumerate() {
                        v.insert(to + i, ch);
                    }
                }
            }
            _ => {
                // line structure before the error
                let w = *c.t.pick(&["\n", "\r\n", "\n\n", " \n\t", "\r", "\u{b}", "\u{c}"]);
                for (i, ch) in w.chars().enumerate() {
                    v.insert(at.min(v.len()) + i, ch);
                }
            }
        }
    }
    v.into_iter().collect()
}

// ------------------------------------------------------------ construction

/// Number with the given exact value, in one of its representations.
pub fn build_num(d: &Dec, r: &mut Rng) -> Number {
    if d.d.is_empty() {
        let e = [0i16, 5, -5, i16::MAX, i16::MIN, 300][r.below(6)];
        return if r.chance(1, 2) { unsafe { Number::from_parts_unchecked(!d.neg, 0, e) } } else { Number::from_parts(!d.neg, 0, e.max(-100)) };
    }
    let mut mant = d.mant();
    let mut e = d.e;
    // shift digits into the mantissa
    let k = match r.below(4) { 0 => 0, 1 => 20, _ => r.below(20) };
    let target_zero = r.chance(1, 3);
    for _ in 0..k {
        if target_zero && e == 0 {
            break;
        }
        match mant.checked_mul(10) {
            Some(m) if e - 1 >= i16::MIN as i64 => {
                mant = m;
                e -= 1;
            }
            _ => break,
        }
    }
    while e > i16::MAX as i64 {
        match mant.checked_mul(10) {
            Some(m) => {
                mant = m;
                e -= 1;
            }
            None => break,
        }
    }
    let e16 = e as i16;
    if e == 0 && r.chance(1, 2) {
        if !d.neg {
            if mant <= i64::MAX as u64 && r.chance(1, 2) {
                return Number::from(mant as i64);
            }
            return Number::from(mant);
        } else if mant <= i64::MAX as u64 {
            return Number::from(-(mant as i64));
        }
    }
    if r.chance(1, 2) {
        Number::from_parts(!d.neg, mant, e16)
    } else if r.chance(1, 2) {
        -Number::from_parts(d.neg, mant, e16)
    } else {
        unsafe { Number::from_parts_unchecked(!d.neg, mant, e16) }
    }
}

pub fn build_str(s: &str, r: &mut Rng) -> JsonValue {
    match r.below(6) {
        0 => JsonValue::from(s),
        1 => JsonValue::from(s.to_string()),
        2 => JsonValue::String(s.to_string()),
        3 if s.len() <= json::short::MAX_LEN => JsonValue::Short(unsafe { Short::from_slice(s) }),
        4 => JsonValue::from(Some(s)),
        _ => s.into(),
    }
}

pub fn build_obj(v: &[(String, M)], r: &mut Rng) -> Object {
    match r.below(6) {
        0 => v.iter().map(|(k, x)| (k.as_str(), build(x, r))).collect(),
        1 => {
            let mut o = Object::with_capacity(r.below(v.len() + 3));
            for (k, x) in v {
                o.insert(k, build(x, r));
            }
            o
        }
        2 => {
            let mut o = Object::new();
            for (k, x) in v {
                o[k.as_str()] = build(x, r);
            }
            o
        }
        3 if v.len() < 200 => {
            // with a detour: extra keys come and go
            let mut o = Object::new();
            let x1 = format!("~extra{}", r.below(1000));
            let x2 = format!("~extra-with-a-long-key-so-that-it-is-on-the-heap{}", r.below(1000));
            let at = r.below(v.len() + 1);
            for (i, (k, x)) in v.iter().enumerate() {
                if i == at {
                    o.insert(&x1, 1.into());
                    o.insert(&x2, "x".into());
                }
                o.insert(k, JsonValue::Null);
                o.insert(k, build(x, r));
            }
            if !v.iter().any(|(k, _)| *k == x1) {
                o.remove(&x1);
            }
            if !v.iter().any(|(k, _)| *k == x2) {
                o.remove(&x2);
            }
            o
        }
        4 => {
            let mut o = Object::new();
            for (k, x) in v {
                o.insert(k, build(x, r));
            }
            o.clone()
        }
        _ => {
            let mut o = Object::new();
            for (k, x) in v {
                o.insert(k.as_str(), build(x, r));
            }
            o
        }
    }
}

/// Build a library value equal to the model along a random path.
pub fn build(m: &M, r: &mut Rng) -> JsonValue {
    match m {
        M::Null => if r.chance(1, 2) { JsonValue::Null } else { JsonValue::from(None::<bool>) },
        M::Bool(b) => JsonValue::from(*b),
        M::NaN => match r.below(5) {
            0 => JsonValue::from(f64::NAN),
            1 => JsonValue::from(f64::INFINITY),
            2 => JsonValue::Number(-json::number::NAN),
            3 => JsonValue::from(f32::NEG_INFINITY),
            _ => JsonValue::Number(json::number::NAN),
        },
        M::Num(d) => JsonValue::Number(build_num(d, r)),
        M::Str(s) => build_str(s, r),
        M::Arr(v) => match r.below(4) {
            0 => {
                let mut a = JsonValue::new_array();
                for x in v {
                    let _ = a.push(build(x, r));
                }
                a
            }
            1 => {
                let mut a = JsonValue::new_array();
                for (i, x) in v.iter().enumerate() {
                    a[i] = build(x, r);
                }
                a
            }
            2 => {
                let w: Vec<JsonValue> = v.iter().map(|x| build(x, r)).collect();
                JsonValue::from(w)
            }
            _ => JsonValue::Array(v.iter().map(|x| build(x, r)).collect()),
        },
        M::Obj(v) => match r.below(3) {
            0 => {
                let mut o = JsonValue::new_object();
                for (k, x) in v {
                    let _ = o.insert(k, build(x, r));
                }
                o
            }
            _ => JsonValue::Object(build_obj(v, r)),
        },
    }
}

/// Change a model in exactly one place (or in representation only).
pub fn tweak(m: &M, r: &mut Rng) -> M {
    match m {
        M::Null => [M::Bool(false), M::int(0), M::Str("null".into()), M::Arr(vec![]), M::NaN][r.below(5)].clone(),
        M::NaN => [M::Null, M::int(0)][r.below(2)].clone(),
        M::Bool(b) => if r.chance(3, 4) { M::Bool(!b) } else { M::Str(if *b { "true" } else { "false" }.into()) },
        M::Num(d) => {
            let mut x = d.clone();
            match r.below(5) {
                _ if x.e > i16::MAX as i64 => x.neg = !x.neg,
                0 => x.neg = !x.neg,
                1 if !x.d.is_empty() => {
                    let i = r.below(x.d.len());
                    let c = x.d[i];
                    x.d[i] = if c == b'9' { b'1' } else { c + 1 };
                    if !x.fits_u64() {
                        x.d = vec![b'3'];
                    }
                    if let Some(l) = x.d.last() {
                        if *l == b'0' {
                            let n = x.d.len();
                            x.d[n - 1] = b'1';
                        }
                    }
                    if x.d[0] == b'0' {
                        x.d[0] = b'1';
                    }
                }
                2 if !x.d.is_empty() => x.e = if x.e > 0 { x.e - 1 } else { x.e + 1 },
                3 if !x.d.is_empty() => {
                    x = Dec::from_parts(x.neg, 0, 0);
                }
                _ => x = Dec::from_parts(x.neg, x.mant() ^ 1, x.e),
            }
            x.lo = x.e;
            M::Num(x)
        }
        M::Str(s) => {
            let mut v: Vec<char> = s.chars().collect();
            match r.below(5) {
                0 => v.push('x'),
                1 if !v.is_empty() => {
                    v.pop();
                }
                2 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = if v[i] == 'y' { 'z' } else { 'y' };
                }
                3 => v.push('\0'),
                _ => {
                    let i = r.below(v.len() + 1);
                    v.insert(i, 'q');
                }
            }
            M::Str(v.into_iter().collect())
        }
        M::Arr(v) => {
            let mut v = v.clone();
            match r.below(4) {
                0 => v.push(M::Null),
                1 if !v.is_empty() => {
                    v.pop();
                }
                2 if v.len() > 1 => {
                    let i = r.below(v.len() - 1);
                    v.swap(i, i + 1);
                }
                _ if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = tweak(&v[i], r);
                }
                _ => v.push(M::Bool(false)),
            }
            M::Arr(v)
        }
        M::Obj(v) => {
            let mut v = v.clone();
            match r.below(5) {
                0 => {
                    let k = format!("new{}", r.below(100));
                    if !v.iter().any(|x| x.0 == k) {
                        v.push((k, M::Null));
                    }
                }
                1 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v.remove(i);
                }
                2 if !v.is_empty() => {
                    // same number of entries, another key
                    let i = r.below(v.len());
                    let k = format!("{}~", v[i].0);
                    if !v.iter().any(|x| x.0 == k) {
                        v[i].0 = k;
                    }
                }
                3 if v.len() > 1 => {
                    let i = r.below(v.len() - 1);
                    v.swap(i, i + 1);
                }
                _ if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i].1 = tweak(&v[i].1, r);
                }
                _ => {}
            }
            M::Obj(v)
        }
    }
}
