//! C24 conversions into JSON values, C25 reading.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::num::{gen_f32, gen_f64};
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};

fn show(t: &str) -> String {
    clip(&jstr(t), 200)
}

// ------------------------------------------------------------ C24

fn check_string(v: &JsonValue, s: &str, how: &str) -> R {
    ensure!(v.is_string(), "{}: {} becomes {}", how, show(s), kind_of(v));
    ensure!(v.as_str() == Some(s), "{}: {} reads back as {:?}", how, show(s), v.as_str().map(show));
    ensure!(v.to_string() == s, "{}: Display of {} is {}", how, show(s), show(&v.to_string()));
    ensure!(*v == s && *v == *s && *v == s.to_string() && s == *v && s.to_string() == *v, "{}: {} does not equal its value", how, show(s));
    let mut w = v.clone();
    ensure!(w.take_string().as_deref() == Some(s), "{}: take_string of {} differs", how, show(s));
    ensure!(w.is_null(), "{}: take_string leaves {}", how, kind_of(&w));
    ensure!(v.is_empty() == s.is_empty(), "{}: is_empty of {}", how, show(s));
    check_same(v, &M::Str(s.to_string()), NumMode::Exact).map_err(|e| format!("{}: {}", how, e))
}

fn conv_strings(c: &mut Ctx) -> R {
    let s = if c.t.chance(1, 10) {
        let n = c.size(100_000);
        let k = c.t.below(6);
        let sd = c.t.seed();
        fill_string(n, k, &mut Rng::new(sd))
    } else {
        gen_string(c, 400)
    };
    c.describe(|| format!("string of {} bytes: {}", s.len(), show(&s)));
    c.nt(hash_bytes(s.as_bytes()));
    c.f(if s.len() > 30 { "string_heap" } else { "string_inline" });
    check_string(&JsonValue::from(s.as_str()), &s, "from &str")?;
    check_string(&JsonValue::from(s.clone()), &s, "from String")?;
    check_string(&json::from(s.as_str()), &s, "json::from")?;
    check_string(&JsonValue::from(Some(s.as_str())), &s, "from Some(&str)")?;
    check_string(&JsonValue::from(Some(s.clone())), &s, "from Some(String)")?;
    // spare capacity, and a slice out of the middle of another string
    let mut t = String::with_capacity(s.len() + 50);
    t.push_str(&s);
    check_string(&JsonValue::from(t), &s, "from a String with spare capacity")?;
    let u = format!("<<{}>>", s);
    check_string(&JsonValue::from(&u[2..u.len() - 2]), &s, "from a slice")?;
    let mut a = JsonValue::new_array();
    a.push(s.as_str()).map_err(|e| e.to_string())?;
    a.push(s.clone()).map_err(|e| e.to_string())?;
    a[5] = s.as_str().into();
    for i in 0..3 {
        check_string(&a[i], &s, "pushed")?;
    }
    let mut o = JsonValue::new_object();
    o.insert(&s, s.as_str()).map_err(|e| e.to_string())?;
    o["other"] = s.clone().into();
    check_string(&o[s.as_str()], &s, "inserted")?;
    let want = if s == "other" { 1 } else { 2 };
    ensure!(o.len() == want && o.entries().next().map(|e| e.0) == Some(s.as_str()), "key {} is stored as {:?}", show(&s), o.entries().next().map(|e| show(e.0)));
    check_string(&o["other"], &s, "assigned")?;
    if s.len() <= json::short::MAX_LEN {
        let sh = unsafe { json::short::Short::from_slice(&s) };
        check_string(&JsonValue::Short(sh), &s, "Short")?;
        ensure!(String::from(sh) == s && sh.as_str() == s && sh.len() == s.len() && sh.to_string() == s && format!("{:?}", sh) == format!("{:?}", s), "Short of {}", show(&s));
    }
    Ok(())
}

/// A Rust value of some type together with what it stands for.
macro_rules! same {
    ($v:expr, $m:expr, $how:expr) => {
        check_same(&$v, &$m, NumMode::Exact).map_err(|e| format!("{}: {}", $how, e))?
    };
}

fn dec_f64(f: f64) -> M {
    if f.is_finite() {
        // the decimal is C11's business; here the content must be the float
        M::Num(Dec::from_literal(&JsonValue::from(f).dump()))
    } else {
        M::NaN
    }
}

fn conv_containers(c: &mut Ctx) -> R {
    // the case is one random list of leaves of each type
    let n = c.size(40);
    let strs: Vec<String> = (0..n).map(|_| gen_string(c, 60)).collect();
    let ints: Vec<i64> = (0..n).map(|_| c.u64b() as i64).collect();
    let opts: Vec<Option<u32>> = (0..n).map(|_| if c.t.chance(1, 3) { None } else { Some(c.u64b() as u32) }).collect();
    let ms: Vec<M> = (0..n.min(12)).map(|_| gen_value(c, Shape { nodes: 6, depth: 3, strlen: 50, nan: true })).collect();
    c.describe(|| format!("{} items: {:?} {:?} {:?}", n, &strs.iter().take(3).map(|s| show(s)).collect::<Vec<_>>(), &ints[..n.min(4)], &opts[..n.min(4)]));
    c.nt(hash_bytes(format!("{:?}{:?}{:?}", strs, ints, opts).as_bytes()));
    let mstr = M::Arr(strs.iter().map(|s| M::Str(s.clone())).collect());
    let mint = M::Arr(ints.iter().map(|&i| M::int(i)).collect());
    let mopt = M::Arr(opts.iter().map(|o| o.map_or(M::Null, |x| M::int(x as i64))).collect());
    let refs: Vec<&str> = strs.iter().map(|s| s.as_str()).collect();
    same!(JsonValue::from(strs.clone()), mstr, "Vec<String>");
    same!(JsonValue::from(refs.clone()), mstr, "Vec<&str>");
    same!(JsonValue::from(&strs[..]), mstr, "&[String]");
    same!(JsonValue::from(&refs[..]), mstr, "&[&str]");
    same!(JsonValue::from(ints.clone()), mint, "Vec<i64>");
    same!(JsonValue::from(&ints[..]), mint, "&[i64]");
    same!(JsonValue::from(opts.clone()), mopt, "Vec<Option<u32>>");
    same!(JsonValue::from(&opts[..]), mopt, "&[Option<u32>]");
    same!(JsonValue::from(Some(opts.clone())), mopt, "Option<Vec<Option<u32>>>");
    same!(JsonValue::from(vec![strs.clone(), vec![], strs.clone()]), M::Arr(vec![mstr.clone(), M::Arr(vec![]), mstr.clone()]), "Vec<Vec<String>>");
    same!(JsonValue::from(None::<Vec<String>>), M::Null, "None");
    same!(JsonValue::from(Some(Some(true))), M::Bool(true), "Some(Some(bool))");
    same!(JsonValue::from(None::<Option<bool>>), M::Null, "None of Option");
    same!(JsonValue::from(Some(None::<bool>)), M::Null, "Some(None)");
    let vals: Vec<JsonValue> = ms.iter().map(|m| build(m, &mut Rng::new(9))).collect();
    same!(JsonValue::from(vals.clone()), M::Arr(ms.clone()), "Vec<JsonValue>");
    same!(JsonValue::from(&vals[..]), M::Arr(ms.clone()), "&[JsonValue]");
    same!(JsonValue::Array(vals.clone()), M::Arr(ms.clone()), "JsonValue::Array");
    same!(json::from(vals.clone()), M::Arr(ms.clone()), "json::from");
    // arrays of all integer types
    macro_rules! ints {
        ($($t:ty)*) => {$({
            let v: Vec<$t> = ints.iter().map(|&i| i as $t).collect();
            let m = M::Arr(v.iter().map(|&i| M::Num(Dec::from_parts((i as i128) < 0, (i as i128).unsigned_abs() as u64, 0))).collect());
            same!(JsonValue::from(v.clone()), m, concat!("Vec<", stringify!($t), ">"));
            same!(JsonValue::from(&v[..]), m, concat!("&[", stringify!($t), "]"));
        })*};
    }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    let bools: Vec<bool> = ints.iter().map(|i| i & 1 == 1).collect();
    same!(JsonValue::from(bools.clone()), M::Arr(bools.iter().map(|&b| M::Bool(b)).collect()), "Vec<bool>");
    let floats: Vec<f64> = (0..n.min(8)).map(|_| gen_f64(c)).collect();
    let v = JsonValue::from(floats.clone());
    same!(v, M::Arr(floats.iter().map(|&f| dec_f64(f)).collect()), "Vec<f64>");
    for (f, x) in floats.iter().zip(v.members()) {
        ensure!(!f.is_finite() || x.as_f64().map(f64::to_bits) == Some(f.to_bits()), "float {:?} in a Vec becomes {:?}", f, x.as_f64());
    }
    let f32s: Vec<f32> = (0..n.min(8)).map(|_| gen_f32(c)).collect();
    for (f, x) in f32s.iter().zip(JsonValue::from(f32s.clone()).members()) {
        ensure!(!f.is_finite() || x.as_f32().map(f32::to_bits) == Some(f.to_bits()), "f32 {:?} in a Vec becomes {:?}", f, x.as_f32());
        ensure!(f.is_finite() || x.as_number().map_or(false, |n| n.is_nan()), "f32 {:?} in a Vec becomes {}", f, x.dump());
    }
    // maps
    let mut hm: HashMap<String, i64> = HashMap::new();
    let mut bm: BTreeMap<String, Option<u32>> = BTreeMap::new();
    let mut nested: BTreeMap<String, Vec<Option<String>>> = BTreeMap::new();
    let keys: Vec<String> = (0..n).map(|i| if i % 3 == 0 { strs[i].clone() } else { gen_key(c) }).collect();
    for i in 0..n {
        hm.insert(keys[i].clone(), ints[i]);
        bm.insert(keys[i].clone(), opts[i]);
        nested.insert(keys[i].clone(), vec![Some(strs[i].clone()), None]);
    }
    let v = JsonValue::from(hm.clone());
    ensure!(v.is_object() && v.len() == hm.len(), "HashMap of {} entries becomes {} with {}", hm.len(), kind_of(&v), v.len());
    for (k, i) in &hm {
        same!(v[k], M::int(*i), format!("HashMap entry {}", show(k)));
    }
    let mut seen = std::collections::HashSet::new();
    for (k, x) in v.entries() {
        ensure!(seen.insert(k.to_string()), "HashMap entry {} twice", show(k));
        match hm.get(k) {
            Some(i) => same!(x, M::int(*i), "HashMap iteration"),
            None => return Err(format!("HashMap gains the key {}", show(k))),
        }
    }
    ensure!(seen.len() == hm.len(), "HashMap entries lost");
    let hr: HashMap<&str, JsonValue> = hm.iter().map(|(k, i)| (k.as_str(), JsonValue::from(*i))).collect();
    let v2 = JsonValue::from(hr);
    ensure!(v2 == v && v == v2, "HashMap<&str, JsonValue> differs from HashMap<String, i64>");
    let m = M::Obj(bm.iter().map(|(k, o)| (k.clone(), o.map_or(M::Null, |x| M::int(x as i64)))).collect());
    same!(JsonValue::from(bm.clone()), m, "BTreeMap");
    let br: BTreeMap<&str, Option<u32>> = bm.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    same!(JsonValue::from(br), m, "BTreeMap<&str, _>");
    same!(JsonValue::from(Some(bm)), m, "Option<BTreeMap>");
    let m = M::Obj(nested.iter().map(|(k, v)| (k.clone(), M::Arr(v.iter().map(|o| o.as_ref().map_or(M::Null, |s| M::Str(s.clone()))).collect()))).collect());
    same!(JsonValue::from(nested), m, "BTreeMap of Vec of Option<String>");
    // pairs: order of first appearance, last value
    let mut want: Vec<(String, M)> = vec![];
    for i in 0..n {
        crate::props::obj::put(&mut want, &keys[i], M::int(ints[i]));
    }
    let o: Object = keys.iter().zip(&ints).map(|(k, i)| (k.as_str(), *i)).collect();
    crate::props::obj::check_map(&o, &want).map_err(|e| format!("from an iterator of pairs: {}", e))?;
    let o2: Object = keys.iter().cloned().zip(ints.iter().cloned()).filter(|_| true).collect();
    crate::props::obj::check_map(&o2, &want).map_err(|e| format!("from an iterator of pairs without size hint: {}", e))?;
    same!(JsonValue::from(o), M::Obj(want), "Object");
    c.fn_("items", n as u64);
    Ok(())
}

pub fn c24(c: &mut Ctx) -> R {
    match c.t.below(3) {
        0 | 1 => conv_strings(c),
        _ => conv_containers(c),
    }
}

const COUNTS: [usize; 40] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1023, 1024, 4096, 65_537,
];

/// Collections of `n` items that repeat each other in some way.
fn c24_repeats(c: &mut Ctx, n: usize) -> R {
    if c.small && n > 12 {
        return Ok(());
    }
    c.describe(|| format!("{} items", n));
    for pat in 0..8usize {
        let ids: Vec<u32> = (0..n)
            .map(|j| match pat {
                0 => 7,
                1 => 0,
                2 => j as u32 % 2,
                3 => j as u32,
                4 => (j + 1 == n) as u32,
                5 => (j == 0) as u32,
                6 => j as u32 / 2,
                _ => (n - j) as u32 % 3,
            })
            .collect();
        let name = |k: u32| if k % 2 == 0 { format!("{}", k) } else { format!("{} in more than thirty characters of text", k) };
        macro_rules! all {
            ($t:ty, $f:expr, $g:expr) => {{
                let v: Vec<$t> = ids.iter().map($f).collect();
                let m = M::Arr(ids.iter().map($g).collect());
                let how = format!("{} items in pattern {}, ", n, pat);
                same!(JsonValue::from(&v[..]), m, format!("{}&[{}]", how, stringify!($t)));
                same!(JsonValue::from(Some(v.clone())), m, format!("{}Option<Vec<{}>>", how, stringify!($t)));
                same!(JsonValue::from(v), m, format!("{}Vec<{}>", how, stringify!($t)));
            }};
        }
        all!(u32, |&k| k, |&k| M::int(k as i64));
        all!(i8, |&k| -((k % 100) as i8), |&k| M::int(-((k % 100) as i64)));
        all!(bool, |&k| k % 2 == 1, |&k| M::Bool(k % 2 == 1));
        all!(Option<u64>, |&k| if k == 0 { None } else { Some(k as u64) }, |&k| if k == 0 { M::Null } else { M::int(k as i64) });
        all!(f64, |&k| k as f64 + 0.5, |&k| M::Num(Dec::from_parts(false, k as u64 * 10 + 5, -1)));
        if n < 5000 {
            all!(String, |&k| name(k), |&k| M::Str(name(k)));
            all!(JsonValue, |&k| if k == 0 { JsonValue::new_object() } else { name(k).into() }, |&k| if k == 0 { M::Obj(vec![]) } else { M::Str(name(k)) });
            all!(Vec<u32>, |&k| vec![k; k as usize % 3], |&k| M::Arr(vec![M::int(k as i64); k as usize % 3]));
            let mut want: Vec<(String, M)> = vec![];
            let mut at = HashMap::new();
            for (j, &k) in ids.iter().enumerate() {
                let e = *at.entry(k).or_insert_with(|| {
                    want.push((name(k), M::Null));
                    want.len() - 1
                });
                want[e].1 = M::int(j as i64);
            }
            let o: Object = ids.iter().enumerate().map(|(j, &k)| (name(k), j)).collect();
            crate::props::obj::check_map(&o, &want).map_err(|e| format!("{} pairs in pattern {}: {}", n, pat, e))?;
            // one content under different keys
            let b: BTreeMap<String, u32> = ids.iter().enumerate().map(|(j, &k)| (format!("{:06}", j), k)).collect();
            let m = M::Obj(b.iter().map(|(k, &x)| (k.clone(), M::int(x as i64))).collect());
            same!(JsonValue::from(b), m, format!("BTreeMap of {} items in pattern {}", n, pat));
            let h: HashMap<String, u32> = ids.iter().enumerate().map(|(j, &k)| (format!("{:06}", j), k)).collect();
            let v = JsonValue::from(h.clone());
            ensure!(v.len() == n && h.iter().all(|(k, &x)| v[k] == x), "HashMap of {} items in pattern {}", n, pat);
        }
        c.evals += 1;
    }
    c.f("enum_repeats");
    Ok(())
}

/// strings of every length 0..=130 in 6 classes, collections of items that repeat each other
pub fn c24_enums() -> u64 {
    131 + COUNTS.len() as u64
}
pub fn c24_enum(c: &mut Ctx, i: u64) -> R {
    if i > 130 {
        return c24_repeats(c, COUNTS[i as usize - 131]);
    }
    for class in 0..6 {
        let s = fill_string(i as usize, class, &mut Rng::new(i));
        check_string(&JsonValue::from(s.as_str()), &s, "from &str")?;
        check_string(&JsonValue::from(s.clone()), &s, "from String")?;
        check_string(&json::array![s.as_str()][0], &s, "array!")?;
        let mut o = Object::new();
        o.insert(&s, s.as_str().into());
        o.insert("x", s.clone().into());
        for (k, v) in o.clone().iter() {
            check_string(v, &s, "in an object")?;
            ensure!(k == s || k == "x", "key {} becomes {}", show(&s), show(k));
        }
        c.evals += 1;
    }
    c.f("enum_length");
    Ok(())
}

// ------------------------------------------------------------ C25

/// One step of a program over an iterator.
#[derive(Clone, Copy, Debug)]
pub enum It {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Hint,
}

/// A program: some steps, and a way to use up the rest.
pub fn gen_iter_program(c: &mut Ctx, n: usize) -> (Vec<It>, usize, usize) {
    let k = c.t.below(6);
    let mut p = vec![];
    for _ in 0..k {
        let j = if n > 10 && c.t.chance(1, 3) { c.t.below(n + 2) } else { c.t.below(4) };
        p.push([It::Next, It::Back, It::Nth(j), It::NthBack(j), It::Hint][c.t.below(5)]);
    }
    (p, c.t.below(16), c.t.below(n + 2))
}

/// Run it; everything the iterator answers, as numbers.
pub fn run_iter<I, T, F>(mut it: I, f: F, prog: &(Vec<It>, usize, usize)) -> Vec<usize>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    F: Fn(T) -> usize,
{
    const NONE: usize = usize::MAX;
    let mut out = vec![];
    let id = |x: Option<T>| x.map_or(NONE, &f);
    for s in &prog.0 {
        match *s {
            It::Next => out.push(id(it.next())),
            It::Back => out.push(id(it.next_back())),
            It::Nth(k) => out.push(id(it.nth(k))),
            It::NthBack(k) => out.push(id(it.nth_back(k))),
            It::Hint => {
                let h = it.size_hint();
                out.extend([h.0, h.1.unwrap_or(NONE), it.len()]);
            }
        }
    }
    let j = prog.2;
    match prog.1 {
        0 => out.push(it.count()),
        1 => out.push(id(it.last())),
        2 => it.for_each(|x| out.push(f(x))),
        3 => it.rev().for_each(|x| out.push(f(x))),
        4 => {
            let i = it.skip(j);
            out.push(i.len());
            out.extend(i.map(&f));
        }
        5 => {
            let i = it.take(j);
            out.push(i.len());
            out.extend(i.map(&f));
        }
        6 => {
            let i = it.step_by(j % 5 + 1);
            out.push(i.len());
            out.extend(i.map(&f));
        }
        7 => {
            let i = it.zip(0..j);
            out.push(i.len());
            out.extend(i.map(|(x, k)| f(x) ^ k));
        }
        8 => {
            let i = it.enumerate().rev();
            out.push(i.len());
            out.extend(i.map(|(k, x)| f(x) ^ k));
        }
        9 => {
            let mut i = it.peekable();
            out.push(i.len());
            out.push(i.peek().is_some() as usize);
            out.push(i.len());
            out.extend(i.map(&f));
        }
        10 => {
            let i = it.skip(j).rev();
            out.extend(i.map(&f));
        }
        11 => {
            let i = it.rev().skip(j).step_by(2);
            out.push(i.len());
            out.extend(i.map(&f));
        }
        12 => {
            let v: Vec<usize> = it.map(&f).collect();
            out.extend(v);
        }
        13 => out = it.rfold(out, |mut o, x| {
            o.push(f(x));
            o
        }),
        14 => out.push(it.map(&f).position(|x| x == j).unwrap_or(NONE)),
        _ => {
            // fused: once empty, always empty
            while let Some(x) = it.next() {
                out.push(f(x));
            }
            out.extend([id(it.next()), id(it.next_back()), it.len(), id(it.nth(j)), it.size_hint().0]);
        }
    }
    out
}

/// Check every read-only operation of one node against the model.
pub fn check_reads(c: &mut Ctx, v: &JsonValue, m: &M) -> R {
    let k = m.kind();
    let preds = [v.is_string(), v.is_number(), v.is_boolean(), v.is_null(), v.is_object(), v.is_array()];
    let want = [k == "string", k == "number", k == "bool", k == "null", k == "object", k == "array"];
    ensure!(preds == want, "is_* of {} are {:?}", k, preds);
    let empty = match m {
        M::Null | M::NaN => true,
        M::Bool(b) => !b,
        M::Num(d) => d.is_zero(),
        M::Str(s) => s.is_empty(),
        M::Arr(a) => a.is_empty(),
        M::Obj(o) => o.is_empty(),
    };
    ensure!(v.is_empty() == empty, "is_empty of {} is {}", clip(&m.show(), 100), !empty);
    ensure!(v.as_bool() == if let M::Bool(b) = m { Some(*b) } else { None }, "as_bool of {}", clip(&m.show(), 100));
    ensure!(v.as_str() == if let M::Str(s) = m { Some(s.as_str()) } else { None }, "as_str of {}", clip(&m.show(), 100));
    match (m, v.as_number()) {
        (M::Num(d), Some(n)) => ensure!(Dec::of(&n).map_or(false, |x| x.same(d)), "as_number of {}", d.text()),
        (M::NaN, Some(n)) => ensure!(n.is_nan(), "as_number of NaN"),
        (_, got) => ensure!(got.is_none(), "as_number of {} is {:?}", k, got.map(|n| n.as_parts())),
    }
    if k != "number" {
        ensure!(v.as_f64().is_none() && v.as_f32().is_none() && v.as_u64().is_none() && v.as_u32().is_none() && v.as_u16().is_none() && v.as_u8().is_none() && v.as_usize().is_none()
            && v.as_i64().is_none() && v.as_i32().is_none() && v.as_i16().is_none() && v.as_i8().is_none() && v.as_isize().is_none()
            && v.as_fixed_point_u64(2).is_none() && v.as_fixed_point_i64(2).is_none(), "{} gives a number", k);
    } else {
        let _ = (v.as_u64(), v.as_i64(), v.as_u8(), v.as_i8(), v.as_u16(), v.as_i16(), v.as_u32(), v.as_i32(), v.as_usize(), v.as_isize());
        let p = c.t.below(40) as u16;
        let _ = (v.as_fixed_point_u64(p), v.as_fixed_point_i64(p));
        ensure!(v.as_f64().is_some() && v.as_f32().is_some(), "as_f64 of a number is None");
    }
    let items: &[M] = if let M::Arr(a) = m { a } else { &[] };
    let entries: &[(String, M)] = if let M::Obj(o) = m { o } else { &[] };
    ensure!(v.len() == items.len() + entries.len(), "len of {} is {}", clip(&m.show(), 100), v.len());
    // members: forwards, and from both ends
    ensure!(v.members().len() == items.len(), "members().len() of {} is {}", k, v.members().len());
    let mut n = 0;
    for (i, x) in v.members().enumerate() {
        ensure!(i < items.len(), "too many members");
        ensure!(std::ptr::eq(x, &v[i]), "member {} is not v[{}]", i, i);
        n += 1;
    }
    ensure!(n == items.len(), "members yields {} of {}", n, items.len());
    let (mut lo, mut hi) = (0, items.len());
    let mut it = v.members();
    while lo < hi {
        let back = c.t.chance(1, 2);
        let got = if back { hi -= 1; (it.next_back(), hi) } else { lo += 1; (it.next(), lo - 1) };
        ensure!(got.0.map_or(false, |x| std::ptr::eq(x, &v[got.1])), "members from both ends: item {}", got.1);
        ensure!(it.len() == hi - lo, "members from both ends: len {} with {} left", it.len(), hi - lo);
        if items.len() > 60 && c.t.chance(1, 30) {
            lo = hi;
            it = v.members();
            it.nth(items.len() - 1);
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "members yields more");
    // entries
    ensure!(v.entries().len() == entries.len(), "entries().len() of {} is {}", k, v.entries().len());
    n = 0;
    for (i, (gk, x)) in v.entries().enumerate() {
        ensure!(i < entries.len() && gk == entries[i].0, "entry {} has key {}", i, show(gk));
        ensure!(std::str::from_utf8(gk.as_bytes()).is_ok(), "key {} is not UTF-8", i);
        ensure!(std::ptr::eq(x, &v[gk]) && std::ptr::eq(x, &v[gk.to_string()]) && std::ptr::eq(x, &v[&gk.to_string()]), "entry {} is not v[key]", i);
        ensure!(v.has_key(gk), "has_key({}) is false", show(gk));
        n += 1;
    }
    ensure!(n == entries.len(), "entries yields {} of {}", n, entries.len());
    let (mut lo, mut hi) = (0, entries.len());
    let mut it = v.entries();
    while lo < hi {
        let back = c.t.chance(1, 2);
        let got = if back { hi -= 1; (it.next_back(), hi) } else { lo += 1; (it.next(), lo - 1) };
        ensure!(got.0.map_or(false, |(gk, _)| gk == entries[got.1].0), "entries from both ends: entry {}", got.1);
        ensure!(it.len() == hi - lo, "entries from both ends: len {} with {} left", it.len(), hi - lo);
        if entries.len() > 60 && c.t.chance(1, 30) {
            break;
        }
    }
    if lo >= hi {
        ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "entries yields more");
    }
    // programs over the iterators answer like a slice of the addresses does
    let at: Vec<usize> = (0..items.len()).map(|i| &v[i] as *const JsonValue as usize).collect();
    let of: Vec<usize> = entries.iter().map(|e| &v[e.0.as_str()] as *const JsonValue as usize).collect();
    let p = gen_iter_program(c, items.len().max(entries.len()).min(5_000));
    let want = run_iter(at.iter(), |x| *x, &p);
    let got = run_iter(v.members(), |x| x as *const JsonValue as usize, &p);
    ensure!(got == want, "members() of {} items under {:?} gives {:x?}, expected {:x?}", items.len(), p, got, want);
    let want = run_iter(of.iter(), |x| *x, &p);
    let got = run_iter(v.entries(), |(gk, x)| if std::str::from_utf8(gk.as_bytes()).is_ok() { x as *const JsonValue as usize } else { 1 }, &p);
    ensure!(got == want, "entries() of {} entries under {:?} gives {:x?}, expected {:x?}", entries.len(), p, got, want);
    c.fn_("iterator_programs", 2);
    // indexing out of range, by missing keys, and of other types
    for i in [items.len(), items.len() + 1, usize::MAX, c.u64b() as usize] {
        if i >= items.len() {
            ensure!(v[i].is_null(), "[{}] of {} is {}", i, clip(&m.show(), 100), kind_of(&v[i]));
            ensure!(v[i][i]["x"][0].is_null(), "indexing the null at [{}]", i);
        }
    }
    for j in 0..3 {
        let key = if j == 0 && !entries.is_empty() {
            // a near miss
            let e = c.t.below(entries.len());
            format!("{}{}", entries[e].0, if c.t.chance(1, 2) { "\0" } else { "x" })
        } else {
            gen_key(c)
        };
        let there = entries.iter().any(|e| e.0 == key);
        ensure!(v.has_key(&key) == there, "has_key({}) of {} is {}", show(&key), clip(&m.show(), 100), !there);
        if !there {
            ensure!(v[key.as_str()].is_null() && v[&key].is_null() && v[key.clone()].is_null() && v[key.as_str()]["y"][3].is_null(), "[{}] of {} is not null", show(&key), clip(&m.show(), 100));
            if let JsonValue::Object(o) = v {
                ensure!(o.get(&key).is_none() && o[key.as_str()].is_null(), "get({}) finds something", show(&key));
            }
            c.f("missing_key");
        }
    }
    // contains
    let x = c.t.below(4) as i64;
    let want = items.iter().any(|i| i.eq_val(&M::int(x)));
    ensure!(v.contains(x) == want, "contains({}) of {}", x, clip(&m.show(), 100));
    let s = *c.t.pick(&["", "a", "x", "null"]);
    let want = items.iter().any(|i| matches!(i, M::Str(t) if t == s));
    ensure!(v.contains(s) == want, "contains({:?}) of {}", s, clip(&m.show(), 100));
    ensure!(v.contains(JsonValue::Null) == items.iter().any(|i| matches!(i, M::Null)), "contains(null) of {}", clip(&m.show(), 100));
    if let (JsonValue::Array(a), true) = (v, !items.is_empty()) {
        let i = c.t.below(items.len());
        let mut p = a.clone();
        let mark = format!("only here {}", items.len());
        let there = items.iter().any(|x| matches!(x, M::Str(t) if *t == mark));
        p[i] = mark.as_str().into();
        let p = JsonValue::Array(p);
        ensure!(v.contains(mark.as_str()) == there && p.contains(mark.as_str()) && p.contains(&*mark), "contains does not find item {} of {}", i, items.len());
        c.f("contains_each");
    }
    c.f(k);
    c.evals += 1;
    // children
    let lim = 30;
    for (i, x) in items.iter().enumerate().take(lim) {
        check_reads(c, &v[i], x)?;
    }
    for (key, x) in entries.iter().take(lim) {
        check_reads(c, &v[key.as_str()], x)?;
    }
    Ok(())
}

pub fn c25(c: &mut Ctx) -> R {
    let m = if c.t.chance(1, 6) { any_value(c) } else { gen_value(c, Shape { nodes: 20, depth: 4, strlen: 60, nan: true }) };
    let s = c.t.seed();
    let mut v = build(&m, &mut Rng::new(s));
    c.describe(|| clip(&m.show(), 300));
    c.nt(m.hash());
    let before = if m.nodes() < 500 { format!("{:?}", v) } else { v.dump() };
    check_reads(c, &v, &m)?;
    let _ = (v.dump(), v.to_string(), v.pretty(1), v == v.clone(), v.is_empty());
    let after = if m.nodes() < 500 { format!("{:?}", v) } else { v.dump() };
    ensure!(before == after, "reading changed the value from {} to {}", show(&before), show(&after));
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after reading: {}", e))?;
    // the mutable iterators reach the same members
    let addr: Vec<usize> = v.members().chain(v.entries().map(|e| e.1)).map(|x| x as *const JsonValue as usize).collect();
    let keys: Vec<String> = v.entries().map(|e| e.0.to_string()).collect();
    let n = v.members_mut().len() + v.entries_mut().len();
    ensure!(n == addr.len(), "mutable iterators have {} members, the others {}", n, addr.len());
    let a1: Vec<usize> = v.members_mut().map(|x| x as *const JsonValue as usize).collect();
    let (k2, a2): (Vec<String>, Vec<usize>) = v.entries_mut().map(|(k, x)| (k.to_string(), x as *const JsonValue as usize)).unzip();
    ensure!([a1, a2].concat() == addr && k2 == keys, "mutable iterators reach other members");
    let mut r1: Vec<usize> = v.members_mut().rev().map(|x| x as *const JsonValue as usize).collect();
    r1.extend(v.entries_mut().rev().map(|(_, x)| x as *const JsonValue as usize));
    r1.reverse();
    ensure!(r1 == addr, "mutable iterators backwards reach other members");
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after mutable iteration: {}", e))?;
    let n = v.members().len();
    for _ in 0..3 {
        let p = gen_iter_program(c, addr.len().min(5_000));
        let want = run_iter(addr[..n].iter(), |x| *x, &p);
        let got = run_iter(v.members_mut(), |x| x as *const JsonValue as usize, &p);
        ensure!(got == want, "members_mut() of {} items under {:?} gives {:x?}, expected {:x?}", n, p, got, want);
        let want = run_iter(addr[n..].iter(), |x| *x, &p);
        let got = run_iter(v.entries_mut(), |(_, x)| x as *const JsonValue as usize, &p);
        ensure!(got == want, "entries_mut() of {} entries under {:?} gives {:x?}, expected {:x?}", addr.len() - n, p, got, want);
        c.fn_("iterator_programs", 2);
    }
    let p = gen_iter_program(c, 3);
    let want = run_iter([].iter(), |x: &usize| *x, &p);
    ensure!(run_iter(json::iterators::Entries::empty(), |_| 0, &p) == want && run_iter(json::iterators::EntriesMut::empty(), |_| 0, &p) == want, "empty() under {:?}", p);
    // empty iterators
    let (mut a, mut b) = (json::iterators::Entries::empty(), json::iterators::EntriesMut::empty());
    ensure!(a.next().is_none() && a.next_back().is_none() && a.len() == 0 && b.next().is_none() && b.next_back().is_none() && b.len() == 0, "empty() is not empty");
    Ok(())
}
