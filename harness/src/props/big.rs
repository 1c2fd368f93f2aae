//! Sizes beyond every 8- and 16-bit counter: the same monitors on values of
//! 66 000 and more entries, items, bytes, escapes, and on deep nesting.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::obj::check_map;
use crate::props::ser::{check_dump_text, Act, Faulty};
use crate::rt;
use json::number::Number;
use json::codegen::Generator;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};

/// More than 16 bits can count.
pub const N: usize = 66_000;

/// Positions whose neighbourhood is looked at again one by one.
pub const EDGES: &[usize] = &[0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, N - 2, N - 1];

pub fn key(style: usize, i: usize) -> String {
    match style {
        0 => format!("{}", i),
        1 => format!("a key that does not fit in the inline buffer {:06}", N - i),
        // every length from 1 to 70
        2 => format!("{}{:x}", "é".repeat((i % 70) / 2), i),
        // exactly 32 and 33 bytes in turn: the inline limit
        _ => format!("{:0w$}", i, w = 32 + i % 2),
    }
}

pub fn big_object(style: usize) -> M {
    M::Obj((0..N).map(|i| (key(style, i), M::int(i as i64))).collect())
}

pub const SHAPES: u64 = 24;

/// One of the large values.
pub fn big_value(i: u64) -> M {
    let mut r = Rng::new(i);
    match i {
        0..=3 => big_object(i as usize),
        4 => M::Arr((0..N).map(|i| M::int(i as i64)).collect()),
        5 => M::Arr((0..N).map(|i| M::Str(fill_string(i % 45, i % 6, &mut r))).collect()),
        6 => M::Arr((0..N).map(|i| match i % 5 { 0 => M::Arr(vec![]), 1 => M::Obj(vec![]), 2 => M::Arr(vec![M::Null]), 3 => M::Obj(vec![("k".into(), M::Bool(i % 2 == 0))]), _ => M::Null }).collect()),
        // one string or key of each class with more than 65536 bytes
        7..=12 => M::Str(fill_string([65_535, 65_536, 65_537, 131_072, 70_001, 200_003][i as usize - 7], i as usize - 7, &mut r)),
        13 => M::Str(["\n", "\"", "\u{1}", "\\"].concat().repeat(N / 3)),
        14 => M::Obj((0..4).map(|k| (fill_string(65_535 + k, k, &mut r), M::Str(fill_string(65_536 - k, 3 - k, &mut r)))).collect()),
        15 => M::Obj((0..300).map(|a| (format!("outer {}", a), M::Obj((0..300).map(|b| (format!("inner {}", b), M::int((a * b) as i64))).collect()))).collect()),
        // deep, with siblings before and after the deep part
        16 => {
            let mut m = M::Str("leaf".into());
            for d in 0..500 {
                m = if d % 2 == 0 {
                    M::Arr(vec![M::int(d), m, M::Arr(vec![]), M::Str("after".into())])
                } else {
                    M::Obj(vec![("before".into(), M::Obj(vec![])), (format!("deep{}", d), m), ("after\n".into(), M::int(-d))])
                };
            }
            m
        }
        17 => {
            let mut m = M::Obj(vec![]);
            for d in 0..510 {
                m = M::Obj(vec![(format!("{}", d), m)]);
            }
            m
        }
        18 => {
            let mut m = M::Arr(vec![]);
            for _ in 0..510 {
                m = M::Arr(vec![m]);
            }
            m
        }
        // block sizes of buffers, one byte to either side
        19 => M::Arr([255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537]
            .iter()
            .flat_map(|&n| (0..3).map(move |k| (n, k)))
            .map(|(n, k)| {
                let mut s = "x".repeat(n - 1);
                s.insert_str([0, n / 2, n - 1][k], ["\"", "\n", "\\"][k]);
                M::Str(s)
            })
            .collect()),
        20 => M::Arr((0..N).map(|i| M::Num(Dec::from_parts(i % 3 == 0, (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), (i % 41) as i64 - 20))).collect()),
        21 => M::Arr((0..260).map(|i| M::Arr((0..260).map(|j| M::Str(format!("{}/{}", i, j))).collect())).collect()),
        22 => M::Obj((0..258).map(|i| ("k".repeat(i), M::Arr((0..i).map(|j| M::int(j as i64)).collect()))).collect()),
        // longer than 24 bits can count
        _ => {
            let mut s = "0123456789abcdef".repeat((1 << 20) + 3);
            s.push_str("\u{1}end\"é");
            M::Str(s)
        }
    }
}

/// Text of a model: plain spelling, or with spaces and \u escapes.
fn text_of(m: &M, airy: bool, o: &mut String) {
    match m {
        M::Null | M::NaN => o.push_str("null"),
        M::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        M::Num(d) => o.push_str(&d.text()),
        M::Str(s) => ref_string(s, o),
        M::Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(if airy { " ,\n" } else { "," });
                }
                text_of(x, airy, o);
            }
            o.push_str(if airy { " ]" } else { "]" });
        }
        M::Obj(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(if airy { "\t," } else { "," });
                }
                if airy {
                    o.push(' ');
                }
                ref_string(k, o);
                o.push_str(if airy { " : " } else { ":" });
                text_of(x, airy, o);
            }
            o.push('}');
        }
    }
}

fn skip(c: &Ctx, i: u64) -> bool {
    // interpreters are too slow; the 16 MB string is for the fast build only
    c.small || (i == SHAPES - 1 && c.variant != "release")
}

fn note(c: &mut Ctx, i: u64, what: &str) {
    c.f("enum_big");
    c.nt(hash_bytes(format!("big {} {}", i, what).as_bytes()));
    c.describe(|| format!("large value number {} ({})", i, what));
}

pub fn n_shapes() -> u64 {
    SHAPES
}

// ------------------------------------------------------------ C02

pub fn c02_n() -> u64 {
    SHAPES + 4
}
pub fn c02(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "parse");
    if i < SHAPES {
        let m = big_value(i);
        for airy in [false, true] {
            let mut t = String::new();
            text_of(&m, airy, &mut t);
            let v = json::parse(&t).map_err(|e| format!("large document {} refused: {:?}", i, e))?;
            check_same(&v, &m, NumMode::Any)?;
            c.fn_("bytes_checked", t.len() as u64);
        }
        return Ok(());
    }
    // many keys, then some of them again: the last value counts, at the first place
    let style = (i - SHAPES) as usize;
    let mut m: Vec<(String, M)> = (0..N).map(|j| (key(style, j), M::int(j as i64))).collect();
    let mut t = String::new();
    text_of(&M::Obj(m.clone()), false, &mut t);
    t.pop();
    for &e in EDGES {
        m[e].1 = M::Str(format!("again {}", e));
        t.push(',');
        ref_string(&m[e].0, &mut t);
        t.push(':');
        text_of(&m[e].1, false, &mut t);
    }
    t.push_str(",\"new\":true}");
    m.push(("new".into(), M::Bool(true)));
    let v = json::parse(&t).map_err(|e| format!("large object refused: {:?}", e))?;
    check_same(&v, &M::Obj(m), NumMode::Any)?;
    c.f("repeated_keys");
    Ok(())
}

// ------------------------------------------------------------ C06 C07 C08 C09 C26

pub fn c06(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "dump");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    let text = v.dump();
    check_dump_text(&text, &m)?;
    ensure!(v.dump() == text, "second dump differs");
    c.fn_("bytes_checked", text.len() as u64);
    Ok(())
}

pub fn c07(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "round trip");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    let text = v.dump();
    let back = json::parse(&text).map_err(|e| format!("own dump refused: {:?}", e))?;
    ensure!(back == v, "parse(dump(v)) != v");
    check_same(&back, &m, NumMode::Exact).map_err(|e| format!("parse(dump(v)): {}", e))?;
    ensure!(back.dump() == text, "dump(parse(dump(v))) differs");
    let pretty = v.pretty(2);
    let back = json::parse(&pretty).map_err(|e| format!("own pretty refused: {:?}", e))?;
    ensure!(back == v && back.dump() == text, "parse(pretty(v)) != v");
    check_same(&back, &m, NumMode::Exact).map_err(|e| format!("parse(pretty(v)): {}", e))?;
    Ok(())
}

/// Built by hand, values can be nested deeper than a text that parses: deeper
/// than 16 bits can count, shown without indentation on a large stack.
fn c08_deep(arrays: bool) -> R {
    const D: usize = 70_000;
    let mut v = JsonValue::from(1);
    let (mut text, mut compact) = (String::new(), String::new());
    for _ in 0..D {
        text.push_str(if arrays { "[\n" } else { "{\n\"k\": " });
        compact.push_str(if arrays { "[" } else { "{\"k\":" });
        v = match arrays {
            true => JsonValue::Array(vec![v]),
            false => {
                let mut o = Object::new();
                o.insert("k", v);
                JsonValue::Object(o)
            }
        };
    }
    text.push('1');
    compact.push('1');
    text.push_str(&(if arrays { "\n]" } else { "\n}" }).repeat(D));
    compact.push_str(&(if arrays { "]" } else { "}" }).repeat(D));
    let mut out = vec![];
    ensure!(v.write_pretty(&mut out, 0).is_ok() && out == text.as_bytes(), "write_pretty(0) of a value {} levels deep differs", D);
    ensure!(v.pretty(0) == text, "pretty(0) of a value {} levels deep differs", D);
    ensure!(v.dump() == compact, "dump of a value {} levels deep differs", D);
    Ok(())
}

pub fn c08_n() -> u64 {
    SHAPES + 2
}

pub fn c08(c: &mut Ctx, i: u64) -> R {
    if i >= SHAPES {
        if c.small {
            return Ok(());
        }
        note(c, i, "pretty deep");
        let arrays = i == SHAPES;
        c.evals += 3;
        return match std::thread::Builder::new().stack_size(2 << 30).spawn(move || c08_deep(arrays)) {
            Ok(h) => h.join().unwrap_or_else(|_| Err("a value 70000 levels deep cannot be shown: it panics".into())),
            // no room for such a stack here: nothing to judge
            Err(_) => Ok(()),
        };
    }
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "pretty");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    let text = v.dump();
    // deep ones are also shown with wide indentation
    let widths: &[usize] = match (16..=18).contains(&i) {
        true if c.variant == "cov" => &[0, 3, 131],
        true => &[0, 1, 3, 8, 131, 256],
        false => &[0, 3],
    };
    for &w in widths {
        let want = ref_pretty(&text, &" ".repeat(w));
        let got = v.pretty(w as u16);
        if got != want {
            let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(format!("pretty({}) of large value {} differs from the layout at byte {} (lengths {} and {})", w, i, at, got.len(), want.len()));
        }
        if let JsonValue::Object(o) = &v {
            ensure!(o.pretty(w as u16) == want, "Object::pretty differs");
        }
        let mut out = vec![];
        v.write_pretty(&mut out, w as u16).map_err(|e| format!("write_pretty failed: {}", e))?;
        ensure!(out == want.as_bytes(), "write_pretty differs");
        c.fn_("bytes_checked", want.len() as u64);
    }
    let disp = v.to_string();
    match &m {
        M::Str(s) => ensure!(disp == *s, "Display of a large string differs from it"),
        _ => ensure!(disp == text, "Display of large value {} differs from its dump", i),
    }
    Ok(())
}

fn first_difference(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("byte {} (lengths {} and {})", at, got.len(), want.len())
}

pub fn c09(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "writers");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    for pretty in [None, Some(1u16)] {
        let want = match pretty {
            None => v.dump(),
            Some(n) => v.pretty(n),
        }
        .into_bytes();
        let run = |f: &mut Faulty| match pretty {
            None => v.write(f),
            Some(n) => v.write_pretty(f, n),
        };
        let mk = |rest| Faulty { script: vec![], at: 0, rest, got: vec![], calls: 0, failed: None, after_failure: 0, interrupts: 0 };
        for rest in [Act::Full, Act::Short(1), Act::Short(4096), Act::Short(65_535)] {
            let mut f = mk(rest);
            run(&mut f).map_err(|e| format!("write returned {:?} though the writer never failed", e))?;
            ensure!(f.got == want, "writer with {:?} received something else: {}", rest, first_difference(&f.got, &want));
        }
        // a writer that is full after so many bytes
        for at in [want.len() - 1, want.len() / 2, 65_536, 65_535, 8_192, 1] {
            if at >= want.len() {
                continue;
            }
            let mut f = Full { left: at, got: vec![], after: 0, failed: false };
            let r = match pretty {
                None => v.write(&mut f),
                Some(n) => v.write_pretty(&mut f, n),
            };
            ensure!(r.is_err(), "write returned Ok though the writer took {} of {} bytes", at, want.len());
            ensure!(f.got == want[..at] && f.after == 0, "delivered bytes are not the first {}: {}; {} later writes", at, first_difference(&f.got, &want), f.after);
            c.f("fault_points");
        }
    }
    Ok(())
}

struct Full {
    left: usize,
    got: Vec<u8>,
    after: usize,
    failed: bool,
}
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
            return Ok(b.len());
        }
        if self.left == 0 {
            self.failed = true;
            return Err(std::io::Error::from(std::io::ErrorKind::OutOfMemory));
        }
        let n = b.len().min(self.left);
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Tabs {
    out: Vec<u8>,
    level: usize,
}
impl Generator for Tabs {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write_min(&mut self, slice: &[u8], _min: u8) -> std::io::Result<()> {
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn new_line(&mut self) -> std::io::Result<()> {
        self.out.push(b'\n');
        self.out.extend(std::iter::repeat(b'\t').take(self.level));
        Ok(())
    }
    fn indent(&mut self) {
        self.level += 1;
    }
    fn dedent(&mut self) {
        self.level -= 1;
    }
}

pub fn c26(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "generators");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    let want = ref_pretty(&v.dump(), "\t");
    let mut g = Tabs { out: vec![], level: 0 };
    g.write_json(&v).map_err(|e| format!("generator failed: {}", e))?;
    ensure!(g.out == want.as_bytes(), "own generator wrote something else: {}", first_difference(&g.out, want.as_bytes()));
    ensure!(g.level == 0, "indent and dedent are not balanced");
    Ok(())
}

// ------------------------------------------------------------ C16

pub fn c16_n() -> u64 {
    8
}
pub fn c16(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    note(c, i, "map");
    let style = (i % 4) as usize;
    let mut m: Vec<(String, M)> = (0..N).map(|j| (key(style, j), M::int(j as i64))).collect();
    let fresh = |x: &M| build(x, &mut Rng::new(1));
    let mut o = if i < 4 { Object::new() } else { Object::with_capacity(N) };
    for (j, (k, x)) in m.iter().enumerate() {
        o.insert(k, fresh(x));
        ensure!(o.len() == j + 1, "len() is {} after {} insertions", o.len(), j + 1);
        if EDGES.contains(&j) {
            for &e in EDGES.iter().filter(|&&e| e <= j) {
                ensure!(o.get(&m[e].0).map_or(false, |v| *v == e), "entry {} is not found with {} entries", e, j + 1);
            }
            ensure!(o.get("absent").is_none() && o["absent"].is_null(), "an absent key is found");
            ensure!(o.iter().next_back().map_or(false, |(g, v)| g == k && *v == j), "the last of {} entries is another one", j + 1);
        }
    }
    check_map(&o, &m)?;
    // write again what is there
    for &e in EDGES {
        for how in 0..3 {
            m[e].1 = M::Str(format!("again {}, {}", e, how));
            match how {
                0 => o.insert(&m[e].0, fresh(&m[e].1)),
                1 => o[m[e].0.as_str()] = fresh(&m[e].1),
                _ => *o.get_mut(&m[e].0).ok_or("get_mut does not find an entry")? = fresh(&m[e].1),
            }
            ensure!(o.get(&m[e].0).map_or(false, |v| *v == format!("again {}, {}", e, how)), "entry {} written again in way {} is not found", e, how);
        }
        ensure!(o.len() == N, "writing entry {} again makes len() {}", e, o.len());
    }
    check_map(&o, &m)?;
    let cl = o.clone();
    check_map(&cl, &m).map_err(|e| format!("clone: {}", e))?;
    ensure!(cl == o && o == cl, "a clone differs");
    // backwards, and from both ends
    let mut j = N;
    for (k, v) in o.iter().rev() {
        j -= 1;
        ensure!(k == m[j].0 && (v.is_string() || *v == j), "backwards: entry {} is {:?}", j, clip(k, 60));
    }
    ensure!(j == 0, "backwards iteration ends {} early", j);
    for (j, (k, v)) in o.iter_mut().enumerate() {
        ensure!(k == m[j].0, "iter_mut: entry {} is {:?}", j, clip(k, 60));
        if EDGES.contains(&j) {
            *v = JsonValue::from(-1);
            m[j].1 = M::int(-1);
        }
    }
    // remove from the front, the 16-bit border, the middle and the end
    for e in [65_536usize, 65_535, 32_768, 255, 0, N - 6] {
        let (k, want) = m.remove(e);
        let got = o.remove(&k);
        ensure!(got.is_some(), "remove of entry {} finds nothing", e);
        check_same(&got.unwrap_or(JsonValue::Null), &want, NumMode::Exact).map_err(|x| format!("removed entry {}: {}", e, x))?;
        ensure!(o.get(&k).is_none() && o.len() == m.len() && o.remove(&k).is_none(), "entry {} is still there", e);
    }
    check_map(&o, &m)?;
    o.insert("one more", JsonValue::Null);
    m.push(("one more".into(), M::Null));
    check_map(&o, &m)?;
    let q: Object = m.iter().rev().map(|(k, x)| (k.as_str(), fresh(x))).collect();
    ensure!(q == o && o == q, "object differs from itself in the opposite insertion order");
    ensure!(q != cl && cl != q, "object equals one with other entries");
    o.clear();
    check_map(&o, &[])?;
    for &e in EDGES {
        ensure!(o.get(&key(style, e)).is_none(), "entry {} found after clear", e);
        o.insert(&key(style, e), e.into());
    }
    let m: Vec<(String, M)> = EDGES.iter().map(|&e| (key(style, e), M::int(e as i64))).collect();
    check_map(&o, &m).map_err(|e| format!("after clear and refilling: {}", e))?;
    check_map(&cl, &{
        let mut w: Vec<(String, M)> = (0..N).map(|j| (key(style, j), M::int(j as i64))).collect();
        for &e in EDGES {
            w[e].1 = M::Str(format!("again {}, 2", e));
        }
        w
    })
    .map_err(|e| format!("clone after the original was changed: {}", e))
}

// ------------------------------------------------------------ C17

pub fn c17_n() -> u64 {
    4
}
pub fn c17(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    note(c, i, "document");
    let item = |j: usize| -> M {
        match i {
            0 => M::int(j as i64),
            1 => M::Str(format!("item {}", j)),
            2 => M::Str(format!("an item on the heap, as it is longer than that {}", j)),
            _ => M::Arr(vec![M::int(j as i64)]),
        }
    };
    let mut v = if i % 2 == 0 { JsonValue::new_array() } else { JsonValue::Null };
    let mut m: Vec<M> = vec![];
    for j in 0..N {
        let x = item(j);
        if j % 3 == 0 {
            v[j + j % 2] = build(&x, &mut Rng::new(0));
        } else {
            v.push(build(&x, &mut Rng::new(0))).map_err(|e| format!("push {}: {}", j, e))?;
        }
        m.push(x);
    }
    check_same(&v, &M::Arr(m.clone()), NumMode::Exact)?;
    for &e in EDGES.iter().rev() {
        let got = v.array_remove(e);
        let want = m.remove(e);
        check_same(&got, &want, NumMode::Exact).map_err(|x| format!("array_remove({}): {}", e, x))?;
        v[e.min(m.len() - 1)] = JsonValue::from("written");
        let k = e.min(m.len() - 1);
        m[k] = M::Str("written".into());
    }
    ensure!(v.array_remove(m.len()).is_null() && v.array_remove(usize::MAX).is_null(), "array_remove past the end gives something");
    check_same(&v, &M::Arr(m.clone()), NumMode::Exact)?;
    for (j, x) in v.members_mut().enumerate() {
        if j % 1000 == 536 {
            *x = JsonValue::from(true);
            m[j] = M::Bool(true);
        }
    }
    check_same(&v, &M::Arr(m.clone()), NumMode::Exact)?;
    while let Some(w) = m.pop() {
        let g = v.pop();
        if m.len() % 500 == 0 || EDGES.contains(&m.len()) {
            check_same(&g, &w, NumMode::Exact).map_err(|x| format!("pop at {}: {}", m.len(), x))?;
        }
        ensure!(v.len() == m.len(), "len is {} after pop, expected {}", v.len(), m.len());
    }
    ensure!(v.pop().is_null() && v.is_array() && v.is_empty(), "array is not empty after all pops");
    Ok(())
}

// ------------------------------------------------------------ C18 C19

/// Change the last leaf only.
fn change_last(m: &M) -> M {
    match m {
        M::Arr(v) if !v.is_empty() => {
            let mut v = v.clone();
            let l = v.len() - 1;
            v[l] = change_last(&v[l]);
            M::Arr(v)
        }
        M::Obj(v) if !v.is_empty() => {
            let mut v = v.clone();
            let l = v.len() - 1;
            v[l].1 = change_last(&v[l].1);
            M::Obj(v)
        }
        M::Str(s) => {
            let mut t = s.clone();
            t.pop();
            t.push('~');
            if t == *s {
                t.push('~');
            }
            M::Str(t)
        }
        M::Num(_) => M::Bool(true),
        _ => M::Str("changed".into()),
    }
}

fn reversed(m: &M) -> M {
    match m {
        M::Arr(v) => M::Arr(v.iter().map(reversed).collect()),
        M::Obj(v) => M::Obj(v.iter().rev().map(|(k, x)| (k.clone(), reversed(x))).collect()),
        x => x.clone(),
    }
}

const PREFIX: &[usize] = &[0, 1, 2, 3, 5, 8, 16, 29, 30, 31, 32, 33, 64, 255, 256, 257];
const LONGER: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 16, 32, 63, 64, 100, 128, 224, 226, 255, 256, 257, 512, 768, 1024, 4096, 32768, 65535, 65536, 65537, 131072];

pub fn c18_n() -> u64 {
    SHAPES + PREFIX.len() as u64
}

/// Two strings of which one may be the start of the other, in every form they can have.
fn same_strings(c: &mut Ctx, x: &str, y: &str) -> R {
    let want = x == y;
    let mut vs = vec![JsonValue::String(x.to_string()), JsonValue::from(x)];
    let mut ws = vec![JsonValue::String(y.to_string()), JsonValue::from(y)];
    {
        let mut big = String::with_capacity(x.len() + 100);
        big.push_str(x);
        vs.push(JsonValue::String(big));
        let mut big = String::with_capacity(y.len() + 100);
        big.push_str(y);
        ws.push(JsonValue::String(big));
    }
    let what = || format!("strings of {} and {} bytes, one the start of the other", x.len(), y.len());
    for a in &vs {
        for b in &ws {
            ensure!((a == b) == want && (b == a) == want && (a != b) != want, "{}: == is {} and {}", what(), a == b, b == a);
            let (p, q) = (JsonValue::Array(vec![a.clone()]), JsonValue::Array(vec![b.clone()]));
            ensure!((p == q) == want && (q == p) == want, "{}: == of arrays with them is {} and {}", what(), p == q, q == p);
            ensure!(p.contains(b.clone()) == want, "{}: contains of an array with one says {}", what(), !want);
            let (mut p, mut q) = (Object::new(), Object::new());
            p.insert("k", a.clone());
            q.insert("k", b.clone());
            ensure!((p == q) == want && (q == p) == want, "{}: == of objects with them is {} and {}", what(), p == q, q == p);
            c.evals += 8;
        }
        ensure!((*a == *y) == want && (*y == *a) == want && (*a == y) == want && (y == *a) == want, "{}: a value compared with a str", what());
        let z = y.to_string();
        ensure!((*a == z) == want && (z == *a) == want, "{}: a value compared with a String", what());
        if let JsonValue::Short(sh) = a {
            ensure!((*sh == *y) == want && (*y == *sh) == want && (*sh == z) == want && (z == *sh) == want, "{}: a Short compared", what());
        }
        c.evals += 6;
    }
    // as keys
    let (mut p, mut q) = (Object::new(), Object::new());
    p.insert(x, 1.into());
    q.insert(y, 1.into());
    ensure!((p == q) == want && (q == p) == want, "{}: == of objects with them as keys is {} and {}", what(), p == q, q == p);
    Ok(())
}

fn c18_prefixes(c: &mut Ctx, k: usize) -> R {
    let l = PREFIX[k];
    c.f("enum_prefixes");
    c.nt(hash_bytes(format!("prefix {}", l).as_bytes()));
    c.describe(|| format!("values of length {} compared with longer ones that start with them", l));
    for filler in ["a", "\0", "ab"] {
        let x: String = filler.chars().cycle().take(l).collect();
        for &d in LONGER {
            if d > 5000 && (filler != "a" || c.variant != "release") {
                continue;
            }
            let y: String = filler.chars().cycle().take(l + d).collect();
            same_strings(c, &x, &y)?;
            same_strings(c, &y, &x)?;
        }
    }
    for &d in LONGER {
        if c.variant != "release" && d > 5000 {
            continue;
        }
        // arrays
        let item = |i: usize| if i % 3 == 0 { JsonValue::Null } else { JsonValue::from(i % 2) };
        let a = JsonValue::Array((0..l).map(item).collect());
        let b = JsonValue::Array((0..l + d).map(item).collect());
        let want = d == 0;
        ensure!((a == b) == want && (b == a) == want && (a != b) != want, "arrays of {} and {} items, one the start of the other: == is {} and {}", l, l + d, a == b, b == a);
        // objects, in the same and in the opposite order
        let (mut p, mut q, mut r) = (Object::new(), Object::new(), Object::new());
        for i in 0..l {
            p.insert(&i.to_string(), item(i));
        }
        for i in 0..l + d {
            q.insert(&i.to_string(), item(i));
        }
        for i in (0..l + d).rev() {
            r.insert(&i.to_string(), item(i));
        }
        ensure!(q == r && r == q, "objects with the same {} entries in opposite order differ", l + d);
        ensure!((p == q) == want && (q == p) == want && (p == r) == want && (r == p) == want, "objects of {} and {} entries, one part of the other: == is {} and {}", l, l + d, p == q, q == p);
        c.evals += 6;
    }
    // numbers that agree in all bits but one
    let base = [1u64, 0x0123_4567_89ab_cdef, u64::MAX / 3, 10_000_000_000_000_000_000][k % 4];
    for bit in 0..64 {
        for e in [0i16, -1, 7, i16::MIN, i16::MAX] {
            let (m, n) = (base, base ^ (1 << bit));
            if m == 0 || n == 0 {
                continue;
            }
            let (x, y) = unsafe { (Number::from_parts_unchecked(true, m, e), Number::from_parts_unchecked(true, n, e)) };
            ensure!(x != y && y != x && x == x && JsonValue::Number(x) != JsonValue::Number(y), "{}e{} equals {}e{}", m, e, n, e);
            c.evals += 4;
        }
    }
    for bit in 0..15 {
        let m = 1_000_000_007u64 + k as u64;
        for e in [0i16, -1, 5, -300, 0x5555] {
            let (x, y) = unsafe { (Number::from_parts_unchecked(true, m, e), Number::from_parts_unchecked(true, m, e ^ (1 << bit))) };
            ensure!(x != y && y != x && JsonValue::Number(x) != JsonValue::Number(y), "{}e{} equals {}e{}", m, e, m, e ^ (1 << bit));
            c.evals += 3;
        }
    }
    Ok(())
}

pub fn c18(c: &mut Ctx, i: u64) -> R {
    if i >= SHAPES {
        return if c.small { Ok(()) } else { c18_prefixes(c, (i - SHAPES) as usize) };
    }
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "equality");
    let m = big_value(i);
    let a = build(&m, &mut Rng::new(1));
    let b = build(&reversed(&m), &mut Rng::new(2));
    let d = build(&change_last(&m), &mut Rng::new(3));
    ensure!(a == a && a == b && b == a && !(a != b), "large value {} differs from itself in another key order", i);
    ensure!(a != d && d != a && !(a == d) && b != d && d != b, "large value {} equals one that differs in the last leaf", i);
    // one entry more or less
    match (&m, &a) {
        (M::Obj(v), JsonValue::Object(o)) => {
            let mut p = o.clone();
            p.insert("one more than there was", JsonValue::Null);
            ensure!(p != *o && *o != p, "object equals one with an entry more");
            let mut p = o.clone();
            p.remove(&v[v.len() - 1].0);
            ensure!(p != *o && *o != p, "object equals one with an entry less");
            p.insert("instead", o[v[v.len() - 1].0.as_str()].clone());
            ensure!(p != *o && *o != p, "object equals one with another key");
        }
        (M::Arr(v), JsonValue::Array(x)) => {
            let mut p = a.clone();
            p.pop();
            ensure!(p != a && a != p, "array equals one with an item less");
            for &e in EDGES {
                if e < x.len() {
                    let mut p = a.clone();
                    p[e] = JsonValue::from("another");
                    ensure!(p != a && a != p, "array equals one with another item {}", e);
                    if let M::Num(_) = v[e] {
                        ensure!(a.contains(x[e].clone()), "contains does not find item {}", e);
                    }
                    c.evals += 1;
                }
            }
            ensure!(!a.contains("another"), "contains finds an item that is not there");
        }
        (M::Str(s), _) => {
            ensure!(a == s.as_str() && a == *s && s.as_str() == a && *s == a, "large string differs from its own text");
            let t = format!("{}x", s);
            ensure!(a != t.as_str() && t != a, "large string equals a longer one");
            if i < SHAPES - 1 {
                for &e in EDGES {
                    let mut b = s.clone().into_bytes();
                    if e < b.len() && b[e] < 0x80 {
                        b[e] = if b[e] == b'#' { b'$' } else { b'#' };
                        if let Ok(t) = String::from_utf8(b) {
                            ensure!(a != t.as_str() && a != JsonValue::from(t), "large string equals one that differs in byte {}", e);
                            c.evals += 1;
                        }
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn c19(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "independence");
    let m = big_value(i);
    let mut a = build(&m, &mut Rng::new(i));
    let mut b = a.clone();
    check_same(&b, &m, NumMode::Exact).map_err(|e| format!("clone: {}", e))?;
    fn spoil(v: &mut JsonValue) {
        match v {
            JsonValue::Array(a) => {
                for x in a.iter_mut() {
                    spoil(x);
                }
                a.pop();
            }
            JsonValue::Object(o) => {
                for (_, x) in o.iter_mut() {
                    spoil(x);
                }
                let k = o.iter().next().map(|e| e.0.to_string());
                if let Some(k) = k {
                    o.remove(&k);
                }
                for k in 0..5 {
                    o.insert(&format!("spoiled with a key that does not fit in the buffer {}", k), JsonValue::Null);
                }
            }
            JsonValue::String(s) => {
                s.truncate(0);
                s.push_str("spoiled");
            }
            x => *x = JsonValue::from("spoiled too"),
        }
    }
    spoil(&mut b);
    check_same(&a, &m, NumMode::Exact).map_err(|e| format!("the original after its clone was changed: {}", e))?;
    drop(b);
    check_same(&a, &m, NumMode::Exact).map_err(|e| format!("the original after its clone was dropped: {}", e))?;
    let b = a.take();
    ensure!(a.is_null(), "take leaves {}", kind_of(&a));
    check_same(&b, &m, NumMode::Exact).map_err(|e| format!("taken value: {}", e))?;
    let mut d = b.clone();
    if let (JsonValue::Object(x), JsonValue::Object(y)) = (&mut d, &b) {
        // onto an object with the same keys, and onto one with others
        x.clone_from(y);
        ensure!(x == y, "clone_from of a large object differs");
        x.clear();
        for i in 0..50 {
            x.insert(&format!("{} replaced by what is cloned", i), i.into());
        }
        x.clone_from(y);
    }
    drop(b);
    check_same(&d, &m, NumMode::Exact).map_err(|e| format!("the clone after its original was dropped: {}", e))
}

// ------------------------------------------------------------ C22

pub fn c22(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "release");
    let m = big_value(i);
    let mut t = String::new();
    text_of(&m, false, &mut t);
    // everything the ledger should not see exists before
    let mut cut = t.len() / 2;
    while !t.is_char_boundary(cut) {
        cut -= 1;
    }
    let (b0, n0) = rt::live();
    let total0 = rt::total();
    {
        let v = build(&m, &mut Rng::new(i));
        let w = v.clone();
        let d = w.dump();
        let p = json::parse(&t);
        let q = json::parse(&t[..cut]);
        let _ = (p.is_ok(), q.is_ok(), d.len(), v == w);
        let mut w = w;
        w.clear();
        let mut o = Object::new();
        o.insert("value", v);
        o.insert("value", w);
        let mut x = JsonValue::from(o);
        x["value"] = p.unwrap_or(JsonValue::Null);
        x.remove("value");
    }
    let (b1, n1) = rt::live();
    c.fn_("bytes_allocated_and_released", (rt::total() - total0) as u64);
    ensure!(b0 == b1 && n0 == n1, "after dropping everything made from large value {}, {} bytes in {} blocks remain allocated", i, b1 as i64 - b0 as i64, n1 as i64 - n0 as i64);
    Ok(())
}

// ------------------------------------------------------------ C24

pub fn c24_n() -> u64 {
    12
}
pub fn c24(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    note(c, i, "conversion");
    macro_rules! same {
        ($v:expr, $m:expr, $how:expr) => {
            check_same(&$v, &$m, NumMode::Exact).map_err(|e| format!("{} of {} items: {}", $how, N, e))?
        };
    }
    let ints: Vec<u32> = (0..N as u32).collect();
    let style = (i % 4) as usize;
    match i {
        0 => {
            let m = M::Arr(ints.iter().map(|&x| M::int(x as i64)).collect());
            same!(JsonValue::from(ints.clone()), m, "Vec<u32>");
            same!(JsonValue::from(&ints[..]), m, "&[u32]");
            same!(JsonValue::from(Some(ints.clone())), m, "Option<Vec<u32>>");
            let b: Vec<bool> = ints.iter().map(|x| x % 3 == 0).collect();
            same!(JsonValue::from(b.clone()), M::Arr(b.iter().map(|&x| M::Bool(x)).collect()), "Vec<bool>");
        }
        1 => {
            let s: Vec<String> = ints.iter().map(|&x| "s".repeat(x as usize % 40) + &x.to_string()).collect();
            let m = M::Arr(s.iter().map(|x| M::Str(x.clone())).collect());
            same!(JsonValue::from(&s[..]), m, "&[String]");
            let r: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
            same!(JsonValue::from(r.clone()), m, "Vec<&str>");
            same!(JsonValue::from(&r[..]), m, "&[&str]");
            same!(JsonValue::from(s), m, "Vec<String>");
        }
        2 => {
            let s: Vec<Option<u32>> = ints.iter().map(|&x| if x % 7 == 0 { None } else { Some(x) }).collect();
            let m = M::Arr(s.iter().map(|x| x.map_or(M::Null, |x| M::int(x as i64))).collect());
            same!(JsonValue::from(&s[..]), m, "&[Option<u32>]");
            same!(JsonValue::from(s), m, "Vec<Option<u32>>");
        }
        3 => {
            let h: HashMap<String, u32> = ints.iter().map(|&x| (key(1, x as usize), x)).collect();
            let v = JsonValue::from(h.clone());
            ensure!(v.is_object() && v.len() == N && v.entries().count() == N, "HashMap of {} entries becomes one of {}", N, v.len());
            for (k, x) in &h {
                ensure!(v[k] == *x, "HashMap entry {:?} is {}", k, v[k].dump());
            }
            for (k, x) in v.entries() {
                ensure!(h.get(k).map_or(false, |y| *x == *y), "HashMap gains {:?}", clip(k, 60));
            }
        }
        4..=7 => {
            let b: BTreeMap<String, u32> = ints.iter().map(|&x| (key(style, x as usize), x)).collect();
            let m = M::Obj(b.iter().map(|(k, &x)| (k.clone(), M::int(x as i64))).collect());
            same!(JsonValue::from(b), m, "BTreeMap");
        }
        _ => {
            // pairs with and without size hint, some keys again at the end
            let mut pairs: Vec<(String, u32)> = ints.iter().map(|&x| (key(style, x as usize), x)).collect();
            let mut m: Vec<(String, M)> = pairs.iter().map(|(k, x)| (k.clone(), M::int(*x as i64))).collect();
            for &e in EDGES {
                pairs.push((key(style, e), 9_000_000 + e as u32));
                m[e].1 = M::int(9_000_000 + e as i64);
            }
            let o: Object = pairs.iter().map(|(k, x)| (k.as_str(), *x)).collect();
            check_map(&o, &m).map_err(|e| format!("from {} pairs: {}", pairs.len(), e))?;
            let o: Object = pairs.iter().filter(|_| true).map(|(k, x)| (k.clone(), *x)).collect();
            check_map(&o, &m).map_err(|e| format!("from {} pairs without size hint: {}", pairs.len(), e))?;
            let mut it = pairs.iter();
            let o: Object = std::iter::from_fn(|| it.next().map(|(k, x)| (k.as_str(), *x))).collect();
            check_map(&o, &m).map_err(|e| format!("from {} pairs of an unknown number: {}", pairs.len(), e))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C25

pub fn c25(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "reading");
    let m = big_value(i);
    let v = build(&m, &mut Rng::new(i));
    match &m {
        M::Arr(w) => {
            ensure!(v.len() == w.len() && v.members().len() == w.len(), "len is {} / {} of {}", v.len(), v.members().len(), w.len());
            let base: Vec<*const JsonValue> = v.members().map(|x| x as *const JsonValue).collect();
            ensure!(base.len() == w.len(), "members yields {} of {}", base.len(), w.len());
            for (j, p) in base.iter().enumerate() {
                ensure!(std::ptr::eq(*p, &v[j]), "v[{}] is not member {}", j, j);
            }
            for p in [0usize, 1, 256, 65_536, 65_537, 1 << 17, usize::MAX - w.len() + 1] {
                let k = w.len().wrapping_add(p);
                if k >= w.len() {
                    ensure!(v[k].is_null(), "v[{}] of {} items is not null", k, w.len());
                }
            }
            for (j, x) in v.members().rev().enumerate() {
                ensure!(std::ptr::eq(base[w.len() - 1 - j], x), "members backwards: item {}", j);
            }
            let mut p = v.clone();
            ensure!(!p.contains("only here"), "contains finds an item that is not there");
            for e in EDGES.iter().copied().filter(|e| *e < w.len()).chain([0, w.len() / 2, w.len() - 1]) {
                let old = std::mem::replace(&mut p[e], JsonValue::from("only here"));
                ensure!(p.contains("only here"), "contains does not find item {} of {}", e, w.len());
                p[e] = old;
                c.evals += 1;
            }
        }
        M::Obj(w) => {
            ensure!(v.len() == w.len() && v.entries().len() == w.len(), "len is {} / {} of {}", v.len(), v.entries().len(), w.len());
            let mut n = 0;
            for ((k, x), (wk, _)) in v.entries().zip(w) {
                ensure!(k == wk && v.has_key(wk) && std::ptr::eq(x, &v[wk.as_str()]), "entry {} is not v[key]", n);
                n += 1;
            }
            ensure!(n == w.len(), "entries yields {} of {}", n, w.len());
            for (k, _) in w {
                let l = format!("{}?", k);
                ensure!(!v.has_key(&l) && v[l.as_str()].is_null(), "the missing key {:?} is found", clip(&l, 80));
            }
            for ((k, _), (wk, _)) in v.entries().rev().zip(w.iter().rev()) {
                ensure!(k == wk, "entries backwards: {:?} instead of {:?}", clip(k, 60), clip(wk, 60));
            }
        }
        M::Str(s) => {
            ensure!(v.as_str() == Some(s.as_str()) && v.is_string() && !v.is_empty() && v.len() == 0 && v[0].is_null() && v["x"].is_null(), "reading a large string");
        }
        _ => {}
    }
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after reading: {}", e))
}

// ------------------------------------------------------------ C01 C04

/// Long prefixes, each of which leaves the parser expecting another item.
fn long_prefix(k: u64, n: usize) -> (String, &'static str) {
    match k {
        0 => (format!("[{}", "1,".repeat(n)), "]"),
        1 => (format!("[{}", "\n".repeat(n)), "]"),
        2 => (format!("[{}", " ".repeat(n)), "]"),
        3 => (format!("[\"{}\",", "é".repeat(n)), "]"),
        4 => (format!("[\"{}\",", "\\n".repeat(n)), "]"),
        5 => (format!("[{}", "\"日\",\n".repeat(n)), "]"),
        6 => (format!("{{{}\"x\":", (0..n).map(|i| format!("\"{}\":{},", i, i % 10)).collect::<String>()), "}"),
        7 => (format!("{{\"{}\":", "k".repeat(n)), "}"),
        8 => (format!("[{}", "[],{},".repeat(n)), "]"),
        9 => (format!("[{}", "\r\n\t ".repeat(n)), "]"),
        10 => (format!("[{},", "7".repeat(n.min(30_000))), "]"),
        _ => (format!("[0.{}1e{}5,", "0".repeat(n), "0".repeat(n)), "]"),
    }
}
const PREFIXES: u64 = 12;
const AFTER: &[&str] = &["1", "\"a\"", "[]", "{\"a\":null}", "true", "-0.5e-3", "\"\\ud83d\\ude0e\"", "", "x", "]", "}", ",", "01", "+1", "1.", "\"\n\"", "\"\\x\"", "\"\\ud800\"", "nul", "tru\u{e9}", "1 2", "é", "[", "{", "\"a", "{\"a\"}", "{\"a\":1,}", "[1,]", "{1:2}", "\u{feff}", "\0", "-", "1e", "1e+"];

pub fn texts_n() -> u64 {
    PREFIXES * 3
}
fn texts(c: &mut Ctx, i: u64, f: fn(&mut Ctx, &str) -> R) -> R {
    if c.small {
        return Ok(());
    }
    note(c, i, "texts");
    let n = [N, 260, 4_100][(i / PREFIXES) as usize];
    let (pre, post) = long_prefix(i % PREFIXES, n);
    for (k, a) in AFTER.iter().enumerate() {
        // the long ones take turns
        if n == N && c.variant == "cov" && (k as u64 + i) % 3 != 0 {
            continue;
        }
        f(c, &format!("{}{}{}", pre, a, post))?;
        c.evals += 1;
    }
    f(c, &pre)?;
    f(c, &format!("{}1{} x", pre, post))?;
    f(c, &format!("{}1{}{}\u{e9}", pre, post, "\n ".repeat(n)))
}
pub fn c01(c: &mut Ctx, i: u64) -> R {
    texts(c, i, crate::props::parse::check_accept)
}
pub fn c04(c: &mut Ctx, i: u64) -> R {
    texts(c, i, crate::props::parse::check_error)
}

// ------------------------------------------------------------ C05

pub fn c05_n() -> u64 {
    12 + 4
}
pub fn c05(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    note(c, i, "literals");
    if i >= 12 {
        // an exponent of as many digits as it takes to bring the point back
        let n: usize = match i {
            12 => 330_000,
            13 => 1_100_000,
            14 => 10_100_000,
            _ if c.variant == "release" => 100_100_000,
            _ => 3_300_000,
        };
        c.evals += 1;
        return crate::props::parse::check_literal(c, &format!("0.{}5e{}", "0".repeat(n), n + 1));
    }
    for n in [255usize, 256, 257, 1000, 4096, 32_766, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000] {
        let z = "0".repeat(n);
        let lit = match i {
            0 => format!("0.{}1", z),
            1 => format!("0.{}123456789012345678901", z),
            2 => format!("1.{}", z),
            3 => format!("1.{}1", z),
            4 => format!("5{}e-{}", z, n),
            5 => format!("0.{}5e{}", z, n + 1),
            6 => format!("7e{}12", z),
            7 => format!("7e-{}12", z),
            8 => format!("-0.{}e{}3", z, z),
            9 => format!("{}.{}", "9".repeat(n), "9".repeat(n)),
            10 => format!("18446744073709551615{}e-{}", z, n),
            _ => format!("0.{}18446744073709551615e{}", z, n + 20),
        };
        crate::props::parse::check_literal(c, &lit)?;
        c.evals += 1;
    }
    Ok(())
}

// ------------------------------------------------------------ C21

/// Under the address sanitizer and the poisoning allocator: every path over a
/// large value.
pub fn c21(c: &mut Ctx, i: u64) -> R {
    if skip(c, i) {
        return Ok(());
    }
    note(c, i, "memory");
    let m = big_value(i);
    let mut v = build(&m, &mut Rng::new(i));
    let mut n = 0;
    let d = v.dump();
    let b: Box<str> = d.clone().into_boxed_str();
    let p = json::parse(&b).map_err(|e| format!("own dump refused: {:?}", e))?;
    drop(b);
    crate::props::mem::walk_utf8(&p, &mut n)?;
    let w = v.clone();
    ensure!(w == v && p.dump() == d, "clone or reparsed value differs");
    let _ = (v.pretty(2), v.to_string());
    if let JsonValue::Object(o) = &mut v {
        let keys: Vec<String> = o.iter().map(|e| e.0.to_string()).collect();
        for e in [keys.len() - 1, keys.len() / 2, 0] {
            o.remove(&keys[e]);
            o.insert(&keys[e], JsonValue::Null);
            o.insert(&format!("{} and more than that for the heap", keys[e]), JsonValue::Null);
        }
        for (_, x) in o.iter_mut().rev().take(10) {
            x.take();
        }
        crate::props::mem::walk_utf8(&JsonValue::from(o.clone()), &mut n)?;
    }
    drop(v);
    crate::props::mem::walk_utf8(&w, &mut n)?;
    check_same(&w, &m, NumMode::Exact)?;
    drop(w);
    check_same(&p, &m, NumMode::Exact)?;
    c.fn_("strings_checked", n);
    Ok(())
}

// ------------------------------------------------------------ C03: how the time grows

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
pub fn cpu_ns() -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.ns as u64
}

const FAMILIES: u64 = 28;

/// A text of about `n` bytes, of one family.
fn family(k: u64, n: usize) -> String {
    let rep = |s: &str| s.repeat(n / s.len());
    match k {
        0 => format!("\"{}\"", rep("\\n")),
        1 => format!("\"{}\"", rep("\\u00e9x")),
        2 => format!("\"{}\"", rep("\\ud83d\\ude0e")),
        3 => format!("\"{}", rep("\\\"\\\\")),
        4 => format!("[{}0]", rep("\"\\n\",")),
        5 => format!("[{}0]", rep("\"a longer string \\t with escapes in it\",")),
        6 => format!("[{}0]", rep("1.25e3,")),
        7 => rep("9"),
        8 => format!("0.{}", rep("0")),
        9 => format!("0.{}1", rep("123456789")),
        10 => format!("1e{}", rep("0")),
        11 => rep(" "),
        12 => format!("[{}", rep("\n")),
        13 => format!("[{}x", rep("\n")),
        14 => format!("[{}", rep("[],")),
        15 => format!("[{}", rep("{},")),
        16 => rep("["),
        17 => rep("{\"a\":"),
        18 => format!("{{{}\"z\":1}}", rep("\"a\":1,")),
        19 => format!("{{{}\"z\":1}}", (0..n / 12).map(|i| format!("\"{:07}\":1,", i)).collect::<String>()),
        20 => format!("{{{}\"z\":1}}", (0..n / 60).map(|i| format!("\"{:050}\":true,", i)).collect::<String>()),
        21 => format!("{{{}\"z\":1}}", (0..n / 14).map(|i| format!("\"\\t{:06}\":1,", n - i)).collect::<String>()),
        22 => format!("[{}0]", rep("null,true,false,")),
        23 => format!("[{}0]", rep("{\"a\":[{\"b\":\"\\n\"}]},")),
        24 => format!("\"{}\"", rep("日é😎a")),
        25 => format!("[\"{}\", x", rep("é")),
        26 => format!("[{}1]", rep("[[[[]]]],")),
        _ => format!("{{\"{}\":1}}", rep("key\\/")),
    }
}

pub fn c03_n() -> u64 {
    FAMILIES * 2
}

/// Any text is parsed, and its value dropped, on the stack a spawned thread
/// gets by default; a stack overflow ends the process and is seen from outside.
fn on_small_stack(c: &mut Ctx, k: u64) -> R {
    if c.variant == "cov" {
        // the address sanitizer makes every frame larger
        return Ok(());
    }
    note(c, k, "stack");
    let mut texts = vec![family(k, 3_000), family(k, 700_000)];
    if k < 8 {
        let (o, e) = [("[", "]"), ("{\"a\":", "}"), ("[[],", "]"), ("{\"b\":[],\"a\":", "}")][k as usize % 4];
        for d in [400, 511, 512, 513, 3_000] {
            let d = if k % 2 == 1 { d } else { d.min(4_000) };
            texts.push(format!("{}{}{}", o.repeat(d), if k < 4 { "1" } else { "[{\"x\":[]}]" }, e.repeat(d)));
        }
        // arrays and objects in turn
        texts.push(format!("{}1{}", "[{\"a\":".repeat(256), "}]".repeat(256)));
    }
    c.evals += texts.len() as u64;
    let n = texts.len() as u64;
    let r = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || -> R {
            for t in &texts {
                let v = json::parse(t);
                if let Ok(v) = v {
                    let w = v.clone();
                    ensure!(v == w, "clone differs");
                    let d = v.dump();
                    ensure!(json::parse(&d).map_or(false, |p| p == v), "own dump of {} is not read back", clip(t, 60));
                }
            }
            Ok(())
        })
        .map_err(|e| format!("HARNESS {}", e))?
        .join()
        .unwrap_or_else(|_| Err(thread_panic()));
    c.fn_("small_stack_texts", n);
    r
}

/// The time of a parse grows like the text, not like its square. Work that is
/// done in the standard library (copies, validation, comparisons) has no edges
/// to count, so it is the thread's processor time that is measured.
pub fn c03(c: &mut Ctx, k: u64) -> R {
    if c.small {
        return Ok(());
    }
    if k >= FAMILIES {
        return on_small_stack(c, k - FAMILIES);
    }
    if c.variant != "release" {
        return Ok(());
    }
    note(c, k, "time");
    let (n0, n1) = (20_000usize, 640_000usize);
    let (a, b) = (family(k, n0), family(k, n1));
    let time = |t: &str| {
        let s = cpu_ns();
        let r = json::parse(t);
        let e = cpu_ns() - s;
        drop(r);
        e
    };
    let mut last = (0, 0);
    // the best of several tries counts, and there are many
    for attempt in 0..12 {
        let t0 = (0..5).map(|_| time(&a)).min().unwrap_or(0);
        // 32 times the text may take 130 times as long, plus a constant
        let bound = (130 * t0 + 4_000_000).min(3_000 * n1 as u64);
        let mut t1 = u64::MAX;
        for _ in 0..2 + attempt {
            t1 = t1.min(time(&b));
            if t1 <= bound || t1 > 30 * bound {
                break;
            }
        }
        last = (t0, t1);
        c.evals += 1;
        if attempt >= 1 && t1 > 10 * bound || attempt >= 3 && t1 > 3 * bound {
            break;
        }
        if t1 <= bound {
            c.f("scaling_families");
            c.fn_("scaling_micros", t1 / 1000);
            return Ok(());
        }
    }
    Err(format!("parsing {} bytes takes {} us, parsing {} bytes takes {} us: {}", a.len(), last.0 / 1000, b.len(), last.1 / 1000, clip(&a, 60)))
}
