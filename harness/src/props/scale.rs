//! C28: what an operation costs, in work (executed edges of the library),
//! memory and processor time, when the value grows.
//! C29: what the documentation says about allocations.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::big::cpu_ns;
use crate::rt;
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::hint::black_box;

#[derive(Clone, Copy, Default)]
struct Cost {
    steps: u64,
    bytes: u64,
    blocks: u64,
    ns: u64,
    /// bytes that stay allocated
    held: i64,
}

/// Measures the code between `go` and `done`; what lies outside is preparation.
#[derive(Default)]
struct Meter {
    c: Cost,
    at: (u64, u64, u64, i64, u64),
}

impl Meter {
    fn go(&mut self) {
        self.at = (rt::steps(), rt::total() as u64, rt::allocs() as u64, rt::live().0 as i64, cpu_ns());
    }
    fn done(&mut self) {
        let ns = cpu_ns();
        self.c.ns += ns - self.at.4;
        self.c.steps += rt::steps() - self.at.0;
        self.c.bytes += rt::total() as u64 - self.at.1;
        self.c.blocks += rt::allocs() as u64 - self.at.2;
        self.c.held += rt::live().0 as i64 - self.at.3;
    }
}

// ------------------------------------------------------------ keys

pub const KEYS: usize = 20;

/// Key number `i` of a family, distinct for distinct `i`.
fn key(fam: usize, i: usize, n: usize) -> String {
    match fam {
        0 => format!("{}", i),
        1 => format!("{:08}", i),
        2 => format!("{}{}", "p".repeat(100), i),
        3 => format!("{}{}", i, "s".repeat(80)),
        4 => {
            let mut r = Rng::new(i as u64);
            format!("{:016x}{:x}", r.next(), i)
        }
        5 => {
            let (mut s, mut k) = (String::new(), i + 1);
            while k > 0 {
                s.push((b'a' + (k % 26) as u8) as char);
                k /= 26;
            }
            s
        }
        6 => format!("user[{}].name", i),
        7 => format!("2020-{:02}-{:02}T{:02}:{:02}:{:02}Z", i / 2_419_200 % 12 + 1, i / 86_400 % 28 + 1, i / 3600 % 24, i / 60 % 60, i % 60),
        8 => format!("{}{:06}", "/a/common/path/that/is/quite/long/and/shared/by/all/of/them/", i),
        9 => format!("{:032}", i),
        10 => format!("ключ {} 日本", i),
        11 => format!("{:08}", i).chars().rev().collect(),
        12 => format!("{:024b}", i),
        13 => format!("{:x}{}", i, "z".repeat(i % 70)),
        14 => format!("{:07}", n - i),
        15 => format!("{}", i * 1024),
        16 => format!("{}", i as f64 / 1000.0),
        17 => format!("{:x}x", i),
        18 => format!("{:40}", i),
        _ => format!("{}{:05}{}", "k".repeat(16), i, "k".repeat(16)),
    }
}

fn keys(fam: usize, n: usize) -> Vec<String> {
    (0..n).map(|i| key(fam, i, n)).collect()
}

fn object(k: &[String]) -> Object {
    let mut o = Object::new();
    for (i, k) in k.iter().enumerate() {
        o.insert(k, JsonValue::from(i));
    }
    o
}

pub const KEYED: usize = 24;
const KEYED_NAMES: [&str; KEYED] = [
    "insert", "insert through a value", "assign by index", "collect", "parse", "get", "has_key of present and absent keys", "get_mut", "overwrite", "clone", "compare with a clone",
    "compare with an object in another order", "dump", "write_pretty", "iterate", "drop", "insert with capacity", "convert a HashMap and a BTreeMap", "index by present and absent keys",
    "clear and fill again", "parse with every key twice", "remove three entries", "iterate mutably", "compare with an object that differs last",
];

/// One operation on an object with the keys `k`.
fn keyed(op: usize, k: &[String], m: &mut Meter) -> R {
    let n = k.len();
    let text = |twice: bool| {
        let mut s = String::from("{");
        for r in 0..1 + twice as usize {
            for (i, k) in k.iter().enumerate() {
                s.push_str(&format!("{}\"{}\":{}", if s.len() > 1 { "," } else { "" }, k, i + r));
            }
        }
        s.push('}');
        s
    };
    match op {
        0 => {
            m.go();
            let mut o = Object::new();
            for k in k {
                o.insert(k, JsonValue::Null);
            }
            m.done();
            ensure!(o.len() == n, "{} of {} keys inserted", o.len(), n);
        }
        1 => {
            m.go();
            let mut o = JsonValue::new_object();
            for k in k {
                o.insert(k, 1).map_err(|e| e.to_string())?;
            }
            m.done();
            ensure!(o.len() == n, "{} of {} keys inserted", o.len(), n);
        }
        2 => {
            m.go();
            let mut o = JsonValue::new_object();
            for (i, k) in k.iter().enumerate() {
                o[k.as_str()] = i.into();
            }
            m.done();
            ensure!(o.len() == n, "{} of {} keys inserted", o.len(), n);
        }
        3 => {
            m.go();
            let o: Object = k.iter().map(|k| (k, true)).collect();
            m.done();
            ensure!(o.len() == n, "{} of {} keys collected", o.len(), n);
        }
        4 | 20 => {
            let t = text(op == 20);
            m.go();
            let v = json::parse(&t);
            m.done();
            ensure!(v.map_or(0, |v| v.len()) == n, "not all keys parsed");
        }
        5 => {
            let o = object(k);
            m.go();
            let f = k.iter().filter(|k| o.get(k).is_some()).count();
            m.done();
            ensure!(f == n, "{} of {} keys found", f, n);
        }
        6 => {
            let o = JsonValue::Object(object(k));
            let absent: Vec<String> = k.iter().map(|k| format!("{}!", k)).collect();
            m.go();
            let f = k.iter().filter(|k| o.has_key(k)).count() + absent.iter().filter(|k| o.has_key(k)).count();
            m.done();
            ensure!(f == n, "{} of {} keys found", f, n);
        }
        7 => {
            let mut o = object(k);
            m.go();
            for k in k {
                if let Some(v) = o.get_mut(k) {
                    *v = JsonValue::Null;
                }
            }
            m.done();
        }
        8 => {
            let mut o = object(k);
            m.go();
            for k in k {
                o.insert(k, JsonValue::Null);
            }
            m.done();
            ensure!(o.len() == n, "overwriting {} keys gives {}", n, o.len());
        }
        9 => {
            let o = object(k);
            m.go();
            let p = o.clone();
            m.done();
            ensure!(p.len() == n, "clone of {} keys has {}", n, p.len());
        }
        10 => {
            let o = object(k);
            let p = o.clone();
            m.go();
            let e = o == p;
            m.done();
            ensure!(e, "clone differs");
        }
        11 => {
            let o = object(k);
            let mut p = Object::new();
            for (i, k) in k.iter().enumerate().rev() {
                p.insert(k, JsonValue::from(i));
            }
            let (o, p) = (JsonValue::Object(o), JsonValue::Object(p));
            m.go();
            let e = o == p && p == o;
            m.done();
            ensure!(e, "object in another order differs");
        }
        12 => {
            let o = object(k);
            m.go();
            let d = o.dump();
            m.done();
            ensure!(d.len() > 2 * n, "dump is too short");
        }
        13 => {
            let o = JsonValue::Object(object(k));
            let mut out: Vec<u8> = Vec::new();
            m.go();
            o.write_pretty(&mut out, 2).map_err(|e| e.to_string())?;
            m.done();
            ensure!(out.len() > 2 * n, "text is too short");
        }
        14 => {
            let o = JsonValue::Object(object(k));
            m.go();
            let l = o.entries().map(|(k, _)| k.len()).sum::<usize>() + o.entries().rev().map(|(k, _)| k.len()).sum::<usize>();
            m.done();
            ensure!(l == 2 * k.iter().map(|k| k.len()).sum::<usize>(), "iteration sees other keys");
        }
        15 => {
            let o = object(k);
            m.go();
            drop(o);
            m.done();
        }
        16 => {
            m.go();
            let mut o = Object::with_capacity(n);
            for k in k {
                o.insert(k, JsonValue::Null);
            }
            m.done();
            ensure!(o.len() == n, "{} of {} keys inserted", o.len(), n);
        }
        17 => {
            let h: HashMap<String, usize> = k.iter().cloned().zip(0..).collect();
            let b: BTreeMap<String, usize> = k.iter().cloned().zip(0..).collect();
            m.go();
            let (h, b) = (JsonValue::from(h), JsonValue::from(b));
            m.done();
            ensure!(h.len() == n && b.len() == n, "conversions lose keys");
        }
        18 => {
            let o = JsonValue::Object(object(k));
            let absent: Vec<String> = k.iter().map(|k| format!("{}0", k)).collect();
            m.go();
            for (k, a) in k.iter().zip(&absent) {
                black_box(&o[k.as_str()]);
                black_box(&o[a]);
            }
            m.done();
        }
        19 => {
            let mut o = object(k);
            m.go();
            o.clear();
            for k in k {
                o.insert(k, JsonValue::Null);
            }
            m.done();
            ensure!(o.len() == n, "{} of {} keys inserted", o.len(), n);
        }
        21 => {
            let mut o = JsonValue::Object(object(k));
            m.go();
            for i in [0, n / 2, n - 1] {
                black_box(o.remove(&k[i]));
            }
            m.done();
            ensure!(o.len() == n - 3, "three removals leave {} of {} keys", o.len(), n);
        }
        22 => {
            let mut o = JsonValue::Object(object(k));
            m.go();
            for (_, v) in o.entries_mut() {
                *v = JsonValue::Boolean(true);
            }
            m.done();
        }
        _ => {
            let o = object(k);
            let mut p = o.clone();
            p.insert(&k[n - 1], JsonValue::Null);
            m.go();
            let e = o == p;
            m.done();
            ensure!(!e, "objects that differ compare as equal");
        }
    }
    Ok(())
}

// ------------------------------------------------------------ values

pub const VALUES: usize = 23;

/// A value of about `n` nodes, or a string of about `8 * n` bytes.
fn value(fam: usize, n: usize) -> JsonValue {
    let arr = |f: &mut dyn FnMut(usize) -> JsonValue| JsonValue::Array((0..n).map(|i| f(i)).collect());
    match fam {
        0 => arr(&mut |i| i.into()),
        1 => arr(&mut |i| unsafe { Number::from_parts_unchecked(i % 2 == 0, i as u64 * 7919 + 1, (i % 600) as i16 - 300) }.into()),
        2 => arr(&mut |i| format!("s{}", i).into()),
        3 => arr(&mut |i| format!("{:060}", i).into()),
        4 => arr(&mut |i| format!("\"{}\"\n\u{1}", i).into()),
        5 => JsonValue::from("x".repeat(8 * n)),
        6 => JsonValue::from("ab\n\"\u{2}\\cd".repeat(n)),
        7 => arr(&mut |i| json::object! { "id" => i, "name" => "n", "a longer key than fits in the inline buffer" => true }),
        8 => JsonValue::Array((0..n / 11 + 1).map(|_| JsonValue::Array((0..10).map(|i| JsonValue::from(i)).collect())).collect()),
        9 => {
            let mut v = JsonValue::from(1);
            for _ in 0..n.min(6_000) {
                v = JsonValue::Array(vec![v]);
            }
            v
        }
        10 => {
            let mut v = JsonValue::from("leaf");
            for i in 0..n.min(6_000) {
                let mut o = Object::new();
                o.insert(if i % 2 == 0 { "k" } else { "a longer key than fits in the inline buffer" }, v);
                v = JsonValue::Object(o);
            }
            v
        }
        11 => arr(&mut |i| if i % 2 == 0 { JsonValue::new_array() } else { JsonValue::new_object() }),
        12 => arr(&mut |i| [JsonValue::Null, true.into(), false.into()][i % 3].clone()),
        13 => arr(&mut |i| "日é😎".repeat(i % 9).into()),
        14 => arr(&mut |i| (i as f64 * 0.37e-5).into()),
        15 => JsonValue::from("日é😎\t".repeat(n)),
        16 => arr(&mut |i| if i % 2 == 0 { JsonValue::String(format!("{}", i)) } else { JsonValue::from("") }),
        17 => JsonValue::from("\n".repeat(8 * n)),
        18 => JsonValue::from("\u{1}".repeat(4 * n)),
        19 => JsonValue::from(format!("\t{}", "x".repeat(8 * n))),
        20 => arr(&mut |i| "\\".repeat(1 + i % 50).into()),
        21 => arr(&mut |i| [i16::MIN, i16::MAX][i % 2].into()),
        _ => arr(&mut |i| JsonValue::Array(vec![JsonValue::from(vec![Some(i), None]), JsonValue::from("b"), JsonValue::Null])),
    }
}

pub const PLAIN: usize = 30;
const PLAIN_NAMES: [&str; PLAIN] = [
    "dump", "pretty", "write", "write_pretty", "to_string", "format {:#}", "clone", "compare with a clone", "drop", "parse the dump", "visit all members", "contains", "index all",
    "convert a Vec", "convert a slice", "push all", "pop all", "append by index", "array_remove three", "stringify", "take all members", "clear", "compare with a copy that differs last",
    "take and take_string", "as_str, len and is_empty", "compare with strings", "parse with every character spelled \\uXXXX", "parse with escapes in every key",
    "parse the pretty text", "parse a text that is wrong at its end",
];

fn deep(fam: usize) -> bool {
    fam == 9 || fam == 10
}

fn plain(op: usize, fam: usize, n: usize, m: &mut Meter) -> R {
    let v = value(fam, n);
    let items = |v: JsonValue| match v {
        JsonValue::Array(a) => a,
        v => vec![v],
    };
    match op {
        0 => {
            m.go();
            let s = v.dump();
            m.done();
            ensure!(s.len() > 1, "no text");
        }
        1 | 3 | 5 if deep(fam) => {
            // the pretty text itself is quadratic in the depth
            let mut out = Vec::new();
            m.go();
            v.write_pretty(&mut out, 0).map_err(|e| e.to_string())?;
            m.done();
        }
        1 => {
            m.go();
            let s = v.pretty(3);
            m.done();
            ensure!(s.len() > 1, "no text");
        }
        2 => {
            let mut out = Vec::new();
            m.go();
            v.write(&mut out).map_err(|e| e.to_string())?;
            m.done();
        }
        3 => {
            let mut out = Vec::new();
            m.go();
            v.write_pretty(&mut out, 4).map_err(|e| e.to_string())?;
            m.done();
        }
        4 => {
            m.go();
            let s = v.to_string();
            m.done();
            ensure!(s.len() > 0, "no text");
        }
        5 => {
            m.go();
            let s = format!("{:#}", v);
            m.done();
            ensure!(s.len() > 1, "no text");
        }
        6 => {
            m.go();
            let w = v.clone();
            m.done();
            ensure!(w.len() == v.len(), "clone has another length");
        }
        7 => {
            let w = v.clone();
            m.go();
            let e = v == w;
            m.done();
            ensure!(e, "clone differs");
        }
        8 => {
            m.go();
            drop(v);
            m.done();
        }
        9 => {
            let t = v.dump();
            m.go();
            let p = json::parse(&t);
            m.done();
            ensure!(p.is_ok() || deep(fam), "own dump is not accepted");
        }
        10 => {
            m.go();
            let k = v.members().filter(|x| x.is_null()).count() + v.members().rev().filter(|x| x.is_string()).count();
            black_box(k);
            m.done();
        }
        11 => {
            m.go();
            let f = [v.contains("no such string"), v.contains(true), v.contains(-1.5f64)];
            black_box(f);
            m.done();
        }
        12 => {
            let l = v.len();
            m.go();
            for i in 0..l + 3 {
                black_box(&v[i]);
            }
            m.done();
        }
        13 => {
            let a = items(v);
            m.go();
            let w = JsonValue::from(a);
            m.done();
            ensure!(!w.is_null(), "no value");
        }
        14 => {
            let a = items(v);
            m.go();
            let w = JsonValue::from(&a[..]);
            m.done();
            ensure!(w.len() == a.len(), "slice of {} gives {}", a.len(), w.len());
        }
        15 => {
            let a = items(v);
            let n = a.len();
            let mut w = JsonValue::new_array();
            m.go();
            for x in a {
                w.push(x).map_err(|e| e.to_string())?;
            }
            m.done();
            ensure!(w.len() == n, "{} pushes give {}", n, w.len());
        }
        16 => {
            let mut w = v;
            let n = w.len();
            m.go();
            for _ in 0..n.min(1 << 20) {
                black_box(w.pop());
            }
            m.done();
        }
        17 => {
            let a = items(v);
            let n = a.len();
            let mut w = JsonValue::new_array();
            m.go();
            for (i, x) in a.into_iter().enumerate() {
                w[i] = x;
            }
            m.done();
            ensure!(w.len() == n, "{} assignments give {}", n, w.len());
        }
        18 => {
            let mut w = v;
            m.go();
            for i in [0, n / 2, n.saturating_sub(3)] {
                black_box(w.array_remove(i));
            }
            m.done();
        }
        19 => {
            m.go();
            let s = json::stringify(v);
            m.done();
            ensure!(s.len() > 1, "no text");
        }
        20 => {
            let mut w = v;
            m.go();
            for x in w.members_mut() {
                black_box(x.take());
            }
            m.done();
        }
        21 => {
            let mut w = v;
            m.go();
            w.clear();
            m.done();
            ensure!(w.is_empty(), "not empty after clear");
        }
        22 => {
            let mut w = v.clone();
            match &mut w {
                JsonValue::Array(a) => {
                    if let Some(l) = a.last_mut() {
                        *l = "other".into();
                    }
                }
                JsonValue::String(s) => s.push('x'),
                w => *w = JsonValue::Null,
            }
            m.go();
            let e = v == w;
            m.done();
            ensure!(!e, "values that differ compare as equal");
        }
        23 => {
            let mut w = v;
            m.go();
            for x in w.members_mut() {
                black_box(x.take_string());
            }
            let mut t = w.take();
            black_box(t.take_string());
            m.done();
        }
        24 => {
            // each of these is a single step, however long the value
            m.go();
            for _ in 0..8 {
                black_box((v.as_str().map(|s| s.len()), v.len(), v.is_empty(), v.is_array(), v.as_number(), v.has_key("k")));
            }
            m.done();
        }
        26 | 27 => {
            let mut t = String::from(if op == 26 { "[" } else { "{" });
            for (i, x) in items(v).into_iter().enumerate() {
                let s = match &x {
                    _ if deep(fam) => format!("{:0w$}", 7, w = n),
                    JsonValue::String(s) => s.clone(),
                    x => x.as_str().map_or_else(|| x.dump(), |s| s.to_string()),
                };
                t.push_str(if i > 0 { ",\"" } else { "\"" });
                if op == 27 {
                    t.push_str(&format!("\\u006b{:x}\\n", i));
                }
                for u in s.encode_utf16() {
                    t.push_str(&format!("\\u{:04x}", u));
                }
                t.push_str(if op == 27 { "\\t\":\"\\r\"" } else { "\"" });
            }
            t.push(if op == 26 { ']' } else { '}' });
            m.go();
            let p = json::parse(&t);
            m.done();
            ensure!(p.is_ok(), "escaped text is not accepted");
        }
        28 => {
            let t = v.pretty(if deep(fam) { 0 } else { 9 });
            m.go();
            let p = json::parse(&t);
            m.done();
            ensure!(p.is_ok() || deep(fam), "own pretty text is not accepted");
        }
        29 => {
            let mut t = v.pretty(0);
            t.push_str("\n\n}");
            m.go();
            let p = json::parse(&t);
            m.done();
            ensure!(p.is_err(), "a closing brace too many is accepted");
        }
        _ => {
            let s = v.as_str().map(|s| s.to_string()).unwrap_or_else(|| "x".repeat(n));
            m.go();
            black_box((v == s, v == s.as_str(), s == v, *s.as_str() == v));
            m.done();
        }
    }
    Ok(())
}

// ------------------------------------------------------------ the check

fn run_one(c: &Ctx, kd: bool, op: usize, fam: usize, n: usize) -> Result<Cost, String> {
    let _ = c;
    let mut m = Meter::default();
    if kd {
        keyed(op, &keys(fam, n), &mut m)?;
    } else {
        plain(op, fam, n, &mut m)?;
    }
    Ok(m.c)
}

fn what(kd: bool, op: usize, fam: usize) -> String {
    if kd {
        format!("{} with keys like {:?}", KEYED_NAMES[op], clip(&key(fam, 7, 1000), 40))
    } else {
        format!("{} of {}", PLAIN_NAMES[op], clip(&value(fam, 3).dump(), 50))
    }
}

/// Work and memory at `n` and at `k * n`.
fn grows(c: &mut Ctx, kd: bool, op: usize, fam: usize, n: usize, k: usize) -> R {
    let a = run_one(c, kd, op, fam, n)?;
    let b = run_one(c, kd, op, fam, k * n)?;
    c.evals += 2;
    let kk = k as u64;
    // keys cost more in a larger object (up to its height); nothing else does
    let f = if kd { 10 } else { 4 };
    let bound = f * kk * a.steps + 3000;
    if b.steps > bound {
        return Err(format!("{}: {} edges of the library for {}, {} for {} ({} times as many elements)", what(kd, op, fam), a.steps, n, b.steps, k * n, k));
    }
    let bound = 5 * kk * a.bytes + 300_000;
    if b.bytes > bound {
        return Err(format!("{}: {} bytes allocated for {}, {} for {} ({} times as many elements)", what(kd, op, fam), a.bytes, n, b.bytes, k * n, k));
    }
    c.fn_("library_edges_counted", b.steps);
    c.fn_("bytes_allocated", b.bytes);
    c.f(if kd { "keyed_growth" } else { "value_growth" });
    if rt::has_cov() && b.steps == 0 {
        c.f("growth_without_edges");
    }
    Ok(())
}

/// Processor time, for the work done outside of the library's own code.
fn takes(c: &mut Ctx, kd: bool, op: usize, fam: usize) -> R {
    let (n0, n1) = if kd { (500usize, 64_000usize) } else { (2_000, 64_000) };
    let k = (n1 / n0) as u64;
    let f = if kd { 60 } else { 4 };
    let mut last = (0, 0);
    for attempt in 0..12 {
        let mut t0 = u64::MAX;
        for _ in 0..5 {
            t0 = t0.min(run_one(c, kd, op, fam, n0)?.ns);
        }
        let bound = f * k * t0 + 4_000_000;
        let mut t1 = u64::MAX;
        for _ in 0..2 + attempt {
            t1 = t1.min(run_one(c, kd, op, fam, n1)?.ns);
            if t1 <= bound || t1 > 30 * bound {
                break;
            }
        }
        last = (t0, t1);
        c.evals += 1;
        if t1 <= bound {
            c.f("timed_growth");
            c.fn_("timed_micros", t1 / 1000);
            return Ok(());
        }
        if attempt >= 1 && t1 > 10 * bound || attempt >= 3 && t1 > 3 * bound {
            break;
        }
    }
    Err(format!("{}: {} us for {}, {} us for {}", what(kd, op, fam), last.0 / 1000, n0, last.1 / 1000, n1))
}

/// The memory an object or array holds is a small multiple of what is in it.
fn holds(c: &mut Ctx, fam: usize, n: usize) -> R {
    let k = keys(fam % KEYS, n);
    let len: usize = k.iter().map(|k| k.len()).sum();
    let unit = std::mem::size_of::<JsonValue>();
    let cap = |n: usize, extra: usize| 8 * (n + 4) * unit + 4 * extra + 4096;
    let check = |c: &mut Ctx, what: &str, held: i64, cap: usize| -> R {
        c.evals += 1;
        c.f("held_memory_checks");
        ensure!(held <= cap as i64, "{} of {} elements and {} bytes of keys holds {} bytes", what, n, len, held);
        Ok(())
    };
    let l0 = rt::live().0 as i64;
    let o = object(&k);
    // a node is a key buffer, a value and some words
    check(c, "object", rt::live().0 as i64 - l0, cap(2 * n, len))?;
    let l1 = rt::live().0 as i64;
    let p = o.clone();
    check(c, "clone of an object", rt::live().0 as i64 - l1, cap(2 * n, len))?;
    drop(p);
    let t = o.dump();
    let l2 = rt::live().0 as i64;
    let p = json::parse(&t);
    check(c, "parsed object", rt::live().0 as i64 - l2, cap(2 * n, len))?;
    drop(p);
    let t = JsonValue::from(k.iter().map(|s| s.as_str()).collect::<Vec<_>>()).dump();
    let l3 = rt::live().0 as i64;
    let p = json::parse(&t);
    check(c, "parsed array of strings", rt::live().0 as i64 - l3, cap(n, len))?;
    let l4 = rt::live().0 as i64;
    let q = p.map(|p| p.clone());
    check(c, "clone of an array of strings", rt::live().0 as i64 - l4 + (l4 - l3), 2 * cap(n, len))?;
    drop(q);
    // clones of clones hold no more than the first
    let l6 = rt::live().0 as i64;
    let mut p = o.clone();
    for _ in 0..40 {
        p = p.clone();
    }
    check(c, "clone of 40 clones", rt::live().0 as i64 - l6, cap(2 * n, len))?;
    drop(p);
    // documents of many small containers: a few entries' worth each
    let l7 = rt::live().0 as i64;
    let one = Object::with_capacity(1);
    let node = (rt::live().0 as i64 - l7).max(64) as usize;
    drop(one);
    for (what, t, each) in [
        ("parsed array of objects of one entry", format!("[{}{{}}]", "{\"a\":1},".repeat(n)), 3 * node),
        ("parsed array of arrays of one item", format!("[{}[]]", "[1],".repeat(n)), 2 * unit),
        ("parsed array of empty containers", format!("[{}[]]", "{},[ ],".repeat(n / 2)), 0),
    ] {
        let l8 = rt::live().0 as i64;
        let p = json::parse(&t);
        check(c, what, rt::live().0 as i64 - l8, cap(n, 0) + 4 * n * each)?;
        let l9 = rt::live().0 as i64;
        let q = p.as_ref().map(|p| p.clone()).ok();
        check(c, what, rt::live().0 as i64 - l9, cap(n, 0) + 4 * n * each)?;
        drop(q);
        drop(p);
    }
    // a large text read once is not kept by a small part of it
    let t = format!("{{\"keep\":\"{}\",\"rest\":[{}0]}}", "k".repeat(40), "\"some string that is dropped later\",".repeat(n));
    let l5 = rt::live().0 as i64;
    let keep = json::parse(&t).map(|mut v| v["keep"].take());
    check(c, "one string kept from a document", rt::live().0 as i64 - l5, cap(4, 40))?;
    drop(keep);
    Ok(())
}

/// Any operation on one number is a bounded amount of work.
fn numbers(c: &mut Ctx) -> R {
    let exps = [i16::MIN, -32767, -1000, -309, -100, -19, -1, 0, 1, 19, 100, 309, 1000, 32767];
    let mants = [0u64, 1, 9, 10, 12345, 10_000_000_000_000_000_000, u64::MAX, 1 << 63, (1 << 53) + 1];
    for &e in &exps {
        for &m in &mants {
            for s in [true, false] {
                let x = unsafe { Number::from_parts_unchecked(s, m, e) };
                let v = JsonValue::from(x);
                let mut most = 0;
                let mut step = |name: &str, f: &mut dyn FnMut()| -> R {
                    let (s0, b0) = (rt::steps(), rt::total());
                    f();
                    let (s, b) = (rt::steps() - s0, rt::total() - b0);
                    most = most.max(s);
                    ensure!(s <= 10_000 && b <= 20_000, "{} of the number {:?} takes {} edges of the library and {} bytes", name, x.as_parts(), s, b);
                    Ok(())
                };
                step("conversion to floats", &mut || { black_box((f64::from(x), f32::from(x), v.as_f64())); })?;
                step("conversion to integers", &mut || { black_box((v.as_u64(), v.as_i64(), v.as_u8(), v.as_i8(), v.as_usize())); })?;
                step("dump", &mut || { black_box(v.dump()); })?;
                step("Display", &mut || { black_box((x.to_string(), format!("{:?}", x))); })?;
                for p in [0u16, 1, 19, 20, 300, 65535] {
                    step("as_fixed_point", &mut || { black_box((v.as_fixed_point_u64(p), v.as_fixed_point_i64(p))); })?;
                }
                for &e2 in &exps {
                    let y = unsafe { Number::from_parts_unchecked(s, if e2 % 2 == 0 { m } else { m / 10 }, e2) };
                    step("comparison", &mut || { black_box((x == y, y == x, x == 1, x == 1.5, v == 10u64)); })?;
                }
                for t in ["", "0", "000000"] {
                    let t = format!("{}{}e{}{}", if s { "" } else { "-" }, m, if e < 0 { "-" } else { "" }, format!("{}{}", t, (e as i64).abs()));
                    step("parse", &mut || { black_box(json::parse(&t).is_ok()); })?;
                }
                c.evals += 1;
                c.f("numbers_within_bounds");
            }
        }
    }
    Ok(())
}

pub fn c28_enums() -> u64 {
    (KEYED * KEYS + PLAIN * VALUES + KEYS + 1 + PLAIN) as u64
}

/// One operation on every kind of value, on threads with small stacks: what an
/// ordinary thread has for values as deep as the parser makes them, much less
/// for flat ones. An overflow ends the process and is seen from outside.
fn on_small_stack(c: &mut Ctx, op: usize) -> R {
    if c.variant == "cov" {
        // the address sanitizer makes every frame larger
        return Ok(());
    }
    let (fast, n) = (c.variant == "release", 20_000);
    for fam in 0..VALUES {
        let (stack, n) = if deep(fam) { (2 << 20, 511) } else { (256 << 10, if fast { n } else { n / 2 }) };
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || -> R {
                plain(op, fam, n, &mut Meter::default())?;
                if op == 0 {
                    let v = value(fam, n);
                    ensure!(!format!("{:?}", v).is_empty(), "empty Debug output");
                }
                Ok(())
            })
            .map_err(|e| format!("HARNESS {}", e))?
            .join()
            .unwrap_or_else(|_| Err(thread_panic()))
            .map_err(|e| format!("{} on a small stack: {}", what(false, op, fam), e))?;
        c.evals += 1;
        c.f("small_stack_operations");
    }
    Ok(())
}

pub fn c28_enum(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    let i = i as usize;
    c.nt(hash_bytes(format!("enum {}", i).as_bytes()));
    if i >= KEYED * KEYS + PLAIN * VALUES {
        let j = i - KEYED * KEYS - PLAIN * VALUES;
        if j > KEYS {
            c.describe(|| format!("{} on small stacks", PLAIN_NAMES[j - KEYS - 1]));
            return on_small_stack(c, j - KEYS - 1);
        }
        c.describe(|| if j == KEYS { "numbers".into() } else { format!("memory held with keys like {:?}", key(j, 7, 1000)) });
        return if j == KEYS { numbers(c) } else { holds(c, j, 3000) };
    }
    let kd = i < KEYED * KEYS;
    let (op, fam) = if kd { (i % KEYED, i / KEYED) } else { ((i - KEYED * KEYS) % PLAIN, (i - KEYED * KEYS) / PLAIN) };
    c.describe(|| what(kd, op, fam));
    grows(c, kd, op, fam, 500, if c.variant == "cov" { 32 } else { 16 })?;
    if c.variant == "release" {
        takes(c, kd, op, fam)?;
    }
    Ok(())
}

/// Keys put together at random: a family of the user's making.
fn any_keys(c: &mut Ctx, n: usize) -> Vec<String> {
    let pre = { let l = c.size(120); let s = c.t.seed(); let k = c.t.below(3); fill_string(l, k, &mut Rng::new(s)) };
    let suf = { let l = c.size(120); let s = c.t.seed(); let k = c.t.below(3); fill_string(l, k, &mut Rng::new(s)) };
    let (radix, width, stride) = (c.t.below(6), c.t.below(24), 1 + c.t.below(5000));
    let start = c.t.raw64() % 1_000_000_000;
    (0..n as u64)
        .map(|i| {
            let v = start + i * stride as u64;
            let d = match radix {
                0 => format!("{:0w$x}", v, w = width),
                1 => format!("{:0w$b}", v, w = width),
                2 => format!("{:w$}", v, w = width),
                3 => format!("{:0w$}", v, w = width).chars().rev().collect(),
                _ => format!("{:0w$}", v, w = width),
            };
            format!("{}{}{}", pre, d, suf)
        })
        .collect()
}

/// After any history a value holds no more than a multiple of the most that was in it.
fn held_after(c: &mut Ctx) -> R {
    let seed = c.t.seed();
    let mut r = Rng::new(seed);
    let long = c.t.chance(1, 2);
    let rounds = 1 + c.t.below(6);
    let mut v = if c.t.chance(1, 2) { JsonValue::new_object() } else { JsonValue::new_array() };
    // entries and bytes of keys and strings, counted from above
    let (mut most, mut bytes) = (4usize, 64usize);
    let universe = 1 + r.below(60);
    let mut trace = String::new();
    for _ in 0..rounds {
        let op = r.below(14);
        let times = 1 + r.below(if op < 6 { 200 } else { 24 });
        trace.push_str(&format!("{}x{} ", op, times));
        let mut text = |r: &mut Rng| { let l = if long && r.chance(1, 4) { r.below(400) } else { r.below(40) }; "v".repeat(l) };
        let mut most_now = v.len();
        for i in 0..times {
            match op {
                // few keys, overwritten again and again
                0 | 1 => {
                    let k = format!("key {:0w$}", r.below(universe), w = if long { 60 } else { 3 });
                    let x = if r.chance(1, 2) { JsonValue::from(i) } else { JsonValue::from(text(&mut r)) };
                    let _ = v.insert(&k, x);
                }
                2 => {
                    let _ = v.push(text(&mut r));
                }
                3 => {
                    let _ = v.push(i);
                    black_box(v.pop());
                }
                4 => {
                    let k = format!("key {:0w$}", r.below(universe), w = if long { 60 } else { 3 });
                    black_box(v.remove(&k));
                    let _ = v.insert(&k, text(&mut r));
                }
                5 => {
                    black_box(v.array_remove(r.below(v.len() + 1)));
                    let _ = v.push(i);
                }
                6 => v = v.clone(),
                7 => v = json::parse(&v.dump()).map_err(|e| format!("own dump is not read back: {}", e))?,
                8 => v = v.take(),
                9 => {
                    for (_, x) in v.entries_mut() {
                        black_box(x.take_string());
                    }
                    for x in v.members_mut() {
                        black_box(x.take_string());
                    }
                }
                10 => {
                    let n = v.len();
                    let o = v.take();
                    v = match o {
                        JsonValue::Object(o) => JsonValue::Object(o.iter().map(|(k, x)| (k, x.clone())).collect()),
                        JsonValue::Array(a) => JsonValue::from(a),
                        o => o,
                    };
                    ensure!(v.len() == n, "collecting {} entries gives {}", n, v.len());
                }
                11 => {
                    for x in v.members_mut() {
                        *x = "t".into();
                    }
                }
                12 => {
                    let mut w = JsonValue::new_array();
                    for x in v.members() {
                        let _ = w.push(x.clone());
                    }
                    if v.is_array() {
                        v = w;
                    }
                }
                _ => v.clear(),
            }
            most_now = most_now.max(v.len());
        }
        most = most.max(most_now);
        let now: usize = v.entries().map(|(k, x)| k.len() + x.as_str().map_or(0, |s| s.len())).sum::<usize>() + v.members().map(|x| x.as_str().map_or(0, |s| s.len())).sum::<usize>();
        // strings overwritten in between may have been longer
        bytes = bytes.max(now);
    }
    c.describe(|| format!("memory held after {}", trace));
    c.nt(hash_bytes(trace.as_bytes()));
    let unit = std::mem::size_of::<JsonValue>();
    let (l, n) = (v.len(), most);
    let before = rt::live().0;
    drop(v);
    let held = before - rt::live().0;
    c.evals += 1;
    c.f("histories_of_held_memory");
    ensure!(held <= 16 * (n + 4) * unit + 4 * bytes + 2048, "a value of {} entries, at most {} and {} bytes of text before, holds {} bytes", l, n, bytes, held);
    Ok(())
}

pub fn c28(c: &mut Ctx) -> R {
    if c.small {
        return Ok(());
    }
    if c.t.chance(3, 4) {
        return held_after(c);
    }
    let kd = c.t.chance(3, 5);
    let op = c.t.below(if kd { KEYED } else { PLAIN });
    let n = 200 + c.t.below(400);
    let k = 8 + c.t.below(9);
    if kd {
        let all: Vec<String> = any_keys(c, k * n).into_iter().map(|s| s.replace(|ch: char| ch < ' ' || ch == '"' || ch == '\\', "_")).collect();
        c.describe(|| format!("{} with {} and {} keys like {:?}", KEYED_NAMES[op], n, k * n, clip(&all[7], 60)));
        c.nt(hash_bytes(format!("{} {} {} {}", op, n, k, all[7]).as_bytes()));
        let (mut a, mut b) = (Meter::default(), Meter::default());
        keyed(op, &all[..n], &mut a)?;
        keyed(op, &all, &mut b)?;
        let (a, b) = (a.c, b.c);
        c.evals += 2;
        c.f("keyed_growth");
        c.fn_("library_edges_counted", b.steps);
        ensure!(b.steps <= 10 * k as u64 * a.steps + 3000, "{}: {} edges of the library for {}, {} for {}", KEYED_NAMES[op], a.steps, n, b.steps, k * n);
        ensure!(b.bytes <= 5 * k as u64 * a.bytes + 300_000, "{}: {} bytes allocated for {}, {} for {}", KEYED_NAMES[op], a.bytes, n, b.bytes, k * n);
    } else {
        let fam = c.t.below(VALUES);
        c.describe(|| format!("{} at {} and {}", what(kd, op, fam), n, k * n));
        c.nt(hash_bytes(format!("{} {} {} {}", op, n, k, fam).as_bytes()));
        grows(c, false, op, fam, n, k)?;
    }
    Ok(())
}

// ------------------------------------------------------------ C29

/// Runs `f` and checks what it asked of the allocator.
fn asks<T>(c: &mut Ctx, name: &str, most: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let (t0, a0) = (rt::total(), rt::allocs());
    let r = f();
    let (t, a) = (rt::total() - t0, rt::allocs() - a0);
    c.evals += 1;
    ensure!(t <= most && (most > 0 || a == 0), "{} allocates {} bytes ({} requests), expected at most {}", name, t, a, most);
    Ok(r)
}

fn empties(c: &mut Ctx) -> R {
    let o = asks(c, "Object::new", 0, Object::new)?;
    asks(c, "new_object", 0, JsonValue::new_object)?;
    asks(c, "new_array", 0, JsonValue::new_array)?;
    asks(c, "object!{}", 0, || json::object! {})?;
    asks(c, "array![]", 0, || json::array![])?;
    asks(c, "with_capacity(0)", 0, || Object::with_capacity(0))?;
    asks(c, "reading an empty object", 0, || black_box((o.get("x").is_none(), o.len(), o.is_empty(), o.iter().count(), o["k"].is_null())))?;
    asks(c, "cloning an empty object", 0, || o.clone())?;
    c.f("empty_containers_without_memory");
    Ok(())
}

pub fn c29(c: &mut Ctx) -> R {
    let mut h = 0u64;
    for _ in 0..1 + c.t.below(4) {
        let k = c.t.below(8);
        h = h.wrapping_mul(31).wrapping_add(k as u64);
        match k {
            0 => empties(c)?,
            1 | 2 => h ^= capacity(c)?,
            3 => {
                let x = gen_num(c);
                if let M::Num(d) = &x {
                    let s = c.t.seed();
                    let n = build_num(d, &mut Rng::new(s));
                    asks(c, "a value made from a number", 0, || JsonValue::from(n))?;
                }
                let u = c.u64b();
                asks(c, "values made from primitives", 0, || (JsonValue::from(u), JsonValue::from(u as i8), JsonValue::from(f64::from_bits(u)), JsonValue::from(u % 2 == 0), JsonValue::Null, JsonValue::from(None::<bool>)))?;
                c.f("primitives_without_memory");
            }
            4 => {
                let s = gen_string(c, 40);
                h ^= hash_bytes(s.as_bytes());
                if s.len() <= 30 {
                    let v = asks(c, "a value made from a short str", 0, || JsonValue::from(s.as_str()))?;
                    let w = asks(c, "cloning a short string", 0, || v.clone())?;
                    asks(c, "reading a short string", 0, || black_box((v.as_str().map(|x| x.len()), v == w, v == s.as_str(), v.len())))?;
                    let mut w = w;
                    let t = asks(c, "take_string of a short string", s.len(), || w.take_string())?;
                    ensure!(t.as_deref() == Some(&s[..]) && w.is_null(), "take_string of {:?} gives {:?}", s, t);
                    c.f("short_strings_without_memory");
                } else {
                    asks(c, "a value made from a str", s.len(), || JsonValue::from(s.as_str()))?;
                }
            }
            5 => {
                // owned strings are moved in and out, buffer and capacity included
                let mut s = gen_string(c, 3000);
                h ^= hash_bytes(s.as_bytes());
                s.reserve(c.t.below(3) * 50);
                let (p, l) = (s.as_ptr() as usize, s.len());
                let heap = s.capacity() > 0;
                let mut v = JsonValue::String(s);
                let nest = c.t.below(3);
                if nest > 0 {
                    v = JsonValue::Array(vec![JsonValue::Null, v]);
                }
                let taken = if nest == 2 {
                    let mut w = asks(c, "take", 0, || v[1].take())?;
                    ensure!(v[1].is_null(), "take leaves something behind");
                    asks(c, "take_string", 0, || w.take_string())?
                } else if nest == 1 {
                    asks(c, "take_string", 0, || v[1].take_string())?
                } else {
                    asks(c, "take_string", 0, || v.take_string())?
                };
                let t = taken.ok_or("take_string of a string gives None")?;
                ensure!(t.len() == l && (!heap || t.as_ptr() as usize == p), "take_string copies the string");
                c.f("strings_moved_out");
            }
            6 => {
                let sh = Shape { nodes: 30, depth: 5, strlen: 60, nan: true };
                let m = gen_value(c, sh);
                h ^= m.hash();
                let s = c.t.seed();
                let mut v = JsonValue::Array(vec![build(&m, &mut Rng::new(s)), JsonValue::Null]);
                let t = asks(c, "take", 0, || v[0].take())?;
                ensure!(v[0].is_null(), "take leaves something behind");
                check_same(&t, &m, NumMode::Exact)?;
                asks(c, "push", 4096, || v.push(t))?.map_err(|e| e.to_string())?;
                let t = asks(c, "pop", 0, || v.pop())?;
                let mut t = t;
                let not_string = !t.is_string();
                if not_string {
                    let r = asks(c, "take_string of something else", 0, || t.take_string())?;
                    ensure!(r.is_none(), "take_string of something else gives {:?}", r);
                }
                if not_string {
                    check_same(&t, &m, NumMode::Exact)?;
                }
                c.f("values_moved");
            }
            _ => {
                // an owned string or key-value list is not kept twice
                let s = gen_string(c, 3000);
                let n = s.len();
                h ^= hash_bytes(s.as_bytes());
                let v = asks(c, "a value made from an owned string", 0, || JsonValue::from(s))?;
                ensure!(v.as_str().map(|s| s.len()) == Some(n), "string of {} bytes reads as {:?}", n, v.as_str().map(|s| s.len()));
                c.f("strings_moved_in");
            }
        }
    }
    c.nt(h);
    c.describe(|| format!("allocations {:x}", h));
    Ok(())
}

const STRINGS: [usize; 12] = [0, 1, 30, 31, 32, 1000, 4096, 65_535, 65_536, 100_001, 1 << 20, 5_000_000];
const ROOM: [usize; 14] = [0, 1, 2, 3, 4, 5, 255, 256, 257, 1000, 4096, 65_535, 65_537, 100_000];

pub fn c29_enums() -> u64 {
    (STRINGS.len() * 3 + 2 * ROOM.len()) as u64
}

/// Arrays with and without spare room, filled and emptied.
fn c29_array(c: &mut Ctx, n: usize) -> R {
    for spare in [0, 1, 1000] {
        let mut v = Vec::with_capacity(n + spare);
        v.resize(n, JsonValue::from(true));
        let room = v.capacity();
        let mut a = JsonValue::Array(v);
        for pushes in 0..3 {
            if pushes > 0 {
                asks(c, "push into an array with room", 0, || {
                    for j in 0..n {
                        let _ = a.push(if pushes == 1 { JsonValue::from(j) } else { JsonValue::from("short") });
                    }
                })?;
            }
            if n > 0 {
                asks(c, "reading and overwriting items", 0, || {
                    a[n / 2] = JsonValue::Null;
                    a[n - 1] = JsonValue::from(1.5);
                    black_box((a[n].is_null(), a["x"].is_null(), a.len(), a.contains(1), a.members().rev().filter(|x| x.is_null()).count(), a.has_key("x"), a.entries().count()));
                    for x in a.members_mut() {
                        *x = JsonValue::from(1);
                    }
                })?;
            }
            // all but the last way of emptying keeps the room
            if pushes == 1 {
                asks(c, "clear of an array", 0, || a.clear())?;
            } else {
                asks(c, "pop", 0, || {
                    for _ in 0..n + 2 {
                        black_box(a.pop());
                    }
                })?;
            }
            ensure!(a.is_empty() && a.len() == 0, "{} items after removing {}", a.len(), n);
        }
        match a {
            JsonValue::Array(v) => ensure!(v.capacity() == room, "an array with room for {} has room for {} after pop, clear and push", room, v.capacity()),
            v => return Err(format!("an array turns into {:?}", v)),
        }
        // remove from the middle
        let mut a = JsonValue::Array((0..n.min(300)).map(JsonValue::from).collect());
        asks(c, "array_remove", 0, || {
            for j in (0..n.min(300)).rev() {
                black_box(a.array_remove(j / 2));
            }
        })?;
        ensure!(a.is_empty(), "{} items after removing all", a.len());
    }
    c.f("arrays_filled_and_emptied");
    Ok(())
}

/// Strings, objects and arrays of every size.
pub fn c29_enum(c: &mut Ctx, i: u64) -> R {
    let i = i as usize;
    if c.small && (i >= 18 || i >= STRINGS.len() * 3) {
        return Ok(());
    }
    c.nt(hash_bytes(format!("enum {}", i).as_bytes()));
    if i >= STRINGS.len() * 3 {
        let i = i - STRINGS.len() * 3;
        let n = ROOM[i % ROOM.len()];
        if i >= ROOM.len() {
            c.describe(|| format!("an array of {}", n));
            return c29_array(c, n);
        }
        c.describe(|| format!("an object with room for {}", n));
        room(c, n)?;
        return Ok(());
    }
    let (n, spare) = (STRINGS[i / 3], [0, 1, 5000][i % 3]);
    c.describe(|| format!("a string of {} bytes and room for {} more", n, spare));
    let mut s = String::with_capacity(n + spare);
    s.push_str(&"é-".repeat(n / 3));
    s.push_str(&"x".repeat(n - s.len()));
    let (p, heap, cap) = (s.as_ptr() as usize, s.capacity() > 0, s.capacity());
    let v = asks(c, "a value made from an owned string", 0, || JsonValue::from(s))?;
    let v = asks(c, "a value made from an optional value", 0, || JsonValue::from(Some(v)))?;
    let mut a = JsonValue::Array(Vec::with_capacity(2));
    asks(c, "push into reserved room", 0, || (a.push(v), a.push(1)))?;
    asks(c, "reading a string", 0, || black_box((a[0].as_str().map(|s| s.len()), a[0].is_empty(), a[0] == "x", a[0].len(), a[0].is_string(), a[0].as_f64())))?;
    let mut v = asks(c, "take", 0, || a[0].take())?;
    asks(c, "pop", 0, || (a.pop(), a.pop()))?;
    let mut o = Object::with_capacity(1);
    asks(c, "inserting a string", 0, || {
        o.insert("k", v.take());
        o.insert("k", 1.into());
    })?;
    ensure!(v.is_null() && o["k"] == 1, "the string is still there");
    let mut s = String::with_capacity(n + spare);
    s.push_str(&"y".repeat(n));
    let (p2, cap2) = (s.as_ptr() as usize, s.capacity());
    let _ = (p, cap);
    o.insert("k", s.into());
    let s = asks(c, "take_string", 0, || o["k"].take_string())?.ok_or("take_string of a string gives None")?;
    ensure!(s.len() == n && (!heap || s.as_ptr() as usize == p2 && s.capacity() == cap2), "take_string of {} bytes copies the string", n);
    let mut o2 = JsonValue::Object(o);
    o2["k"] = s.into();
    let mut t = o2.remove("k");
    let s = asks(c, "take_string", 0, || t.take_string())?.ok_or("take_string of a removed string gives None")?;
    ensure!(s.len() == n && (!heap || s.as_ptr() as usize == p2 && s.capacity() == cap2), "remove and take_string of {} bytes copy the string", n);
    c.f("strings_of_every_size");
    Ok(())
}

/// An object made with a capacity takes that many entries, and again after `clear`.
fn capacity(c: &mut Ctx) -> Result<u64, String> {
    let n = c.size(300);
    room(c, n)
}

fn room(c: &mut Ctx, n: usize) -> Result<u64, String> {
    let mut o = Object::with_capacity(n);
    let long = c.t.chance(1, 3);
    let seed = c.t.seed();
    let mut r = Rng::new(seed);
    let rounds = 1 + c.t.below(4);
    for round in 0..rounds {
        let m = if round == 0 || r.chance(1, 2) { n } else { r.below(n + 1) };
        let mut ks: Vec<String> = Vec::with_capacity(m);
        for i in 0..m {
            let pad = if long && r.chance(1, 4) { r.below(80) } else { r.below(28) };
            ks.push(format!("{:x}{}", i, "-".repeat(pad)));
        }
        let bytes: usize = ks.iter().map(|k| k.len()).sum::<usize>();
        let short = ks.iter().all(|k| k.len() <= 32);
        let what = format!("inserting {} keys into an object with room for {} (round {})", m, n, round);
        asks(c, &what, if short { 0 } else { bytes }, || {
            for k in &ks {
                o.insert(k, JsonValue::Null);
            }
        })?;
        ensure!(o.len() == m, "{} of {} keys inserted", o.len(), m);
        let some: Vec<&String> = ks.iter().filter(|_| r.chance(1, 3)).collect();
        asks(c, "overwriting and reading entries", 0, || {
            for k in &some {
                o.insert(k, JsonValue::Boolean(true));
                o[k.as_str()] = JsonValue::from(1);
                black_box(o.get(k).is_some());
                black_box(o.get_mut(k).is_some());
                // every type of key
                black_box((o[k.as_str()].is_null(), o[*k].is_null()));
                o[*k] = JsonValue::from(2.5);
            }
            for (_, v) in o.iter_mut() {
                *v = JsonValue::Null;
            }
            black_box((o.iter().rev().filter(|(k, v)| k.is_empty() || v.is_string()).count(), o.len(), o.is_empty(), o.get("absent").is_some(), o["absent"].is_null()));
        })?;
        let mut v = JsonValue::Object(o);
        asks(c, "overwriting and reading entries through a value", 0, || {
            for k in &some {
                let _ = v.insert(k, 7);
                v[k.as_str()] = JsonValue::from(true);
                v[*k] = JsonValue::from("short");
                black_box((v[k.as_str()].is_null(), v[*k].is_null(), v.has_key(k)));
            }
            for (_, v) in v.entries_mut() {
                *v = JsonValue::Null;
            }
            black_box((v.entries().filter(|(k, v)| k.is_empty() || v.is_string()).count(), v.len(), v.is_empty(), v["absent"].is_null(), v[0].is_null(), v.members().count()));
            black_box(v.pop());
        })?;
        let mut owned: Vec<String> = some.iter().map(|k| k.to_string()).collect();
        asks(c, "reading by owned keys", 0, || {
            while let Some(k) = owned.pop() {
                black_box(v[k].is_null());
            }
        })?;
        o = match v {
            JsonValue::Object(o) => o,
            v => return Err(format!("an object turns into {:?}", v)),
        };
        asks(c, "clear", 0, || o.clear())?;
        ensure!(o.len() == 0 && o.is_empty() && o.iter().next().is_none(), "not empty after clear");
        c.f("preallocated_rounds");
    }
    // the same through a value
    let mut v = JsonValue::Object(o);
    asks(c, "refilling through a value", 0, || {
        for i in 0..n.min(10) {
            v[["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][i]] = JsonValue::from(i);
        }
        v.clear();
        for i in 0..n.min(10) {
            let _ = v.insert(["k", "l", "m", "n", "o", "p", "q", "r", "s", "t"][i], i);
        }
    })?;
    ensure!(v.len() == n.min(10), "{} keys after refilling with {}", v.len(), n.min(10));
    Ok(seed ^ n as u64)
}
