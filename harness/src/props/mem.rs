//! C21 memory safety of mixed histories, C22 conservation of memory.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::obj::*;
use crate::props::parse::gen_text;
use crate::rt;
use json::codegen::{DumpGenerator, Generator, PrettyGenerator};
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// ------------------------------------------------------------ C21

/// Every str reachable in a value is valid UTF-8 (and readable).
pub fn walk_utf8(v: &JsonValue, n: &mut u64) -> R {
    match v {
        JsonValue::Short(s) => {
            *n += 1;
            ensure!(std::str::from_utf8(s.as_str().as_bytes()).is_ok(), "short string is not UTF-8: {:?}", s.as_bytes());
        }
        JsonValue::String(s) => {
            *n += 1;
            ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "string is not UTF-8: {:?}", &s.as_bytes()[..s.len().min(80)]);
        }
        JsonValue::Array(a) => {
            for x in a {
                walk_utf8(x, n)?;
            }
        }
        JsonValue::Object(o) => {
            for (k, x) in o.iter() {
                *n += 1;
                ensure!(std::str::from_utf8(k.as_bytes()).is_ok(), "key is not UTF-8: {:?}", &k.as_bytes()[..k.len().min(80)]);
                walk_utf8(x, n)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn text_ok(s: &str, what: &str) -> R {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "{} is not UTF-8: {:?}", what, clip(&String::from_utf8_lossy(s.as_bytes()), 200));
    Ok(())
}

/// Serialize in all ways, checking the strings that come out.
fn outputs(c: &mut Ctx, v: &JsonValue) -> R {
    let d = v.dump();
    text_ok(&d, "dump")?;
    text_ok(&v.pretty(c.t.below(9) as u16), "pretty")?;
    text_ok(&v.to_string(), "Display")?;
    let mut out = vec![];
    v.write(&mut out).map_err(|e| e.to_string())?;
    ensure!(out == d.as_bytes(), "write differs from dump");
    Ok(())
}

pub fn c21(c: &mut Ctx) -> R {
    let mut seen = 0;
    let mut h = 0;
    let rounds = if c.small { 1 } else { 1 + c.t.below(3) };
    for _ in 0..rounds {
        match c.t.below(7) {
            6 => {
                // any bytes written to a generator
                h ^= any_bytes(c)?;
                c.f("bytes_to_generators");
            }
            0 => {
                // a map history, with keys held across reads and clones
                let n = 1 + c.t.below(10);
                let keys: Vec<String> = (0..n).map(|_| gen_key(c)).collect();
                let mut x = Map { o: Object::with_capacity(c.t.below(6)), m: vec![] };
                let steps = 1 + c.size(40);
                for _ in 0..steps {
                    map_op(c, &mut x, &keys)?;
                    if c.t.chance(1, 4) {
                        hold_keys(c, &x)?;
                    }
                }
                check_map(&x.o, &x.m)?;
                let v = JsonValue::Object(x.o);
                walk_utf8(&v, &mut seen)?;
                outputs(c, &v)?;
                h ^= M::Obj(x.m).hash();
                c.f("map_history");
            }
            1 => {
                // a document history
                let mut m = gen_value(c, SMALL);
                let s = c.t.seed();
                let mut v = build(&m, &mut Rng::new(s));
                let steps = 1 + c.size(30);
                for _ in 0..steps {
                    doc_step(c, &mut v, &mut m)?;
                    if m.nodes() > 2000 {
                        break;
                    }
                }
                check_same(&v, &m, NumMode::Exact)?;
                walk_utf8(&v, &mut seen)?;
                outputs(c, &v)?;
                h ^= m.hash();
                c.f("document_history");
            }
            2 | 3 => {
                // any text, exactly sized so that reads past its end show
                let t = gen_text(c);
                h ^= hash_bytes(t.as_bytes());
                let boxed: Box<str> = t.clone().into_boxed_str();
                let r = json::parse(&boxed);
                drop(boxed);
                match r {
                    Ok(v) => {
                        walk_utf8(&v, &mut seen)?;
                        outputs(c, &v)?;
                        let w = v.clone();
                        drop(v);
                        walk_utf8(&w, &mut seen)?;
                        c.f("parsed");
                    }
                    Err(e) => {
                        text_ok(&e.to_string(), "error text")?;
                        text_ok(&format!("{:?}", e), "error debug")?;
                        c.f("parse_failed");
                    }
                }
            }
            4 => {
                // a document read from text, then mutated
                let m0 = gen_value(c, Shape { nodes: 30, depth: 5, strlen: 100, nan: false });
                let (t, _) = emit(c, &m0);
                let mut v = match json::parse(&t) {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                drop(t);
                let mut m = model_of(&v);
                let steps = 1 + c.size(20);
                for _ in 0..steps {
                    doc_step(c, &mut v, &mut m)?;
                    if m.nodes() > 2000 {
                        break;
                    }
                }
                check_same(&v, &m, NumMode::Exact)?;
                walk_utf8(&v, &mut seen)?;
                outputs(c, &v)?;
                h ^= m.hash();
                c.f("parsed_and_mutated");
            }
            _ => {
                // parts taken out of a value outlive it
                let m = gen_value(c, SMALL);
                let s = c.t.seed();
                let mut v = build(&m, &mut Rng::new(s));
                let mut parts = vec![];
                let ms: Vec<(JsonValue, M)> = match &m {
                    M::Arr(a) => v.members_mut().zip(a).map(|(x, y)| (x.take(), y.clone())).collect(),
                    M::Obj(o) => v.entries_mut().zip(o).map(|((_, x), y)| (x.take(), y.1.clone())).collect(),
                    _ => vec![(v.take(), m.clone())],
                };
                parts.extend(ms);
                let cl = v.clone();
                drop(v);
                for (x, y) in &parts {
                    check_same(x, y, NumMode::Exact)?;
                    walk_utf8(x, &mut seen)?;
                }
                walk_utf8(&cl, &mut seen)?;
                h ^= m.hash();
                c.f("taken_parts");
            }
        }
    }
    c.fn_("strings_inspected", seen);
    c.describe(|| format!("{} rounds, {} strings inspected", rounds, seen));
    c.nt(h);
    Ok(())
}

/// Anyone may write anything to a generator, but what it gives back is a String.
fn any_bytes(c: &mut Ctx) -> Result<u64, String> {
    let m = gen_value(c, SMALL);
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    let mut d = DumpGenerator::new();
    let mut p = PrettyGenerator::new(c.t.below(5) as u16);
    let mut valid = Vec::new();
    let mut h = 0;
    let n = 1 + c.t.below(6);
    for _ in 0..n {
        let t = gen_string(c, 40);
        let mut b = t.clone().into_bytes();
        match c.t.below(5) {
            0 => b.truncate(c.t.below(b.len() + 1)),
            1 => b.push(c.t.raw64() as u8),
            2 if !b.is_empty() => {
                let i = c.t.below(b.len()).min(b.len() - 1);
                b[i] ^= 0x80;
            }
            _ => {}
        }
        h ^= hash_bytes(&b);
        let how = c.t.below(6);
        let r = match how {
            0 => d.write(&b).and_then(|_| p.write(&b)),
            1 => d.get_writer().write_all(&b).and_then(|_| p.get_writer().write_all(&b)),
            2 => b.iter().try_for_each(|&x| d.write_char(x).and_then(|_| p.write_char(x))),
            3 => d.write_min(&b, *b.first().unwrap_or(&b'x')).and_then(|_| p.write_min(&b, 0xC3)),
            4 => d.write_string(&t).and_then(|_| p.write_string(&t)),
            _ => d.write_json(&v).and_then(|_| p.write_json(&v)),
        };
        ensure!(r.is_ok(), "writing to memory fails");
        valid = d.get_writer().clone();
    }
    let bytes = p.get_writer().clone();
    for (name, bytes, text) in [("DumpGenerator", valid, d.consume()), ("PrettyGenerator", bytes, p.consume())] {
        text_ok(&text, "what consume returns")?;
        if let Ok(want) = std::str::from_utf8(&bytes) {
            ensure!(text == want, "{}::consume returns {} for {}", name, clip(&jstr(&text), 200), clip(&jstr(want), 200));
            c.f("consumed_valid");
        } else {
            c.f("consumed_not_utf8");
        }
    }
    Ok(h)
}

/// Hold references into an object while everything readable is read around them.
fn hold_keys(c: &mut Ctx, x: &Map) -> R {
    let held: Vec<(&str, &JsonValue)> = x.o.iter().collect();
    let copies: Vec<String> = held.iter().map(|h| h.0.to_string()).collect();
    let cl = x.o.clone();
    let _ = (cl.dump(), cl == x.o, x.o == cl);
    let moved = Box::new(cl);
    for (i, (k, v)) in held.iter().enumerate() {
        ensure!(copies[i] == *k && x.m[i].0 == *k, "held key {} changed", i);
        ensure!(moved.get(k).is_some() && x.o.get(k).map_or(false, |g| std::ptr::eq(g, *v)), "held key {} no longer found", i);
    }
    drop(moved);
    for (i, (k, _)) in held.iter().enumerate() {
        ensure!(copies[i] == *k, "held key {} changed when a clone was dropped", i);
    }
    c.fn_("held_keys", held.len() as u64);
    Ok(())
}

// ------------------------------------------------------------ C22

struct Bomb {
    fuse: bool,
    payload: String,
}
fn boom() -> ! {
    // no panic hook, no message: only unwinding
    resume_unwind(Box::new(7u8))
}
impl From<Bomb> for JsonValue {
    fn from(b: Bomb) -> JsonValue {
        let v: JsonValue = b.payload.as_str().into();
        if b.fuse {
            boom();
        }
        v
    }
}
#[derive(Clone)]
struct CloneBomb(std::rc::Rc<std::cell::Cell<usize>>, String);
impl From<CloneBomb> for JsonValue {
    fn from(b: CloneBomb) -> JsonValue {
        let n = b.0.get();
        b.0.set(n.wrapping_sub(1));
        if n == 0 {
            boom();
        }
        b.1.into()
    }
}
#[derive(PartialEq, Eq, Hash, PartialOrd, Ord)]
struct KeyBomb {
    key: String,
    fuse: bool,
}
impl AsRef<str> for KeyBomb {
    fn as_ref(&self) -> &str {
        if self.fuse {
            boom();
        }
        &self.key
    }
}
struct EqBomb(usize);
impl PartialEq<JsonValue> for EqBomb {
    fn eq(&self, o: &JsonValue) -> bool {
        if *o == self.0 {
            boom();
        }
        false
    }
}
pub struct WriteBomb {
    left: usize,
    got: Vec<u8>,
    fail: bool,
}
impl Write for WriteBomb {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.fail {
                return Err(io::Error::new(io::ErrorKind::Other, "a boxed error"));
            }
            boom();
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct GenBomb {
    out: Vec<u8>,
    left: usize,
}
impl Generator for GenBomb {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        if self.left == 0 {
            boom();
        }
        self.left -= 1;
        self.out.push(min);
        Ok(())
    }
}

fn unwinds(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// User code that panics in the middle of library operations.
pub fn panicking(c: &mut Ctx) -> R {
    let m0 = gen_value(c, Shape { nodes: 20, depth: 4, strlen: 80, nan: true });
    let s = c.t.seed();
    let mut v = build(&m0, &mut Rng::new(s));
    let payload = gen_string(c, 80);
    let n = c.size(20);
    let k = c.t.below(n + 1);
    match c.t.below(11) {
        0 => {
            // Into panics in push and insert
            let key = gen_key(c);
            let mut a = json::array![1, "two"];
            ensure!(unwinds(|| { let _ = a.push(Bomb { fuse: true, payload: payload.clone() }); }), "a conversion that panics was not run");
            check_same(&a, &M::Arr(vec![M::int(1), M::Str("two".into())]), NumMode::Exact).map_err(|e| format!("after a panic in push: {}", e))?;
            let mut o = json::object! { a: 1 };
            ensure!(unwinds(|| { let _ = o.insert(&key, Bomb { fuse: true, payload: payload.clone() }); }), "a conversion that panics was not run");
            check_same(&o, &M::Obj(vec![("a".into(), M::int(1))]), NumMode::Exact).map_err(|e| format!("after a panic in insert: {}", e))?;
            let _ = o.insert(&key, Bomb { fuse: false, payload: payload.clone() });
            ensure!(o[key.as_str()] == payload, "insert after a panic");
            c.f("panic_in_into");
        }
        1 => {
            let w: Vec<Bomb> = (0..n).map(|i| Bomb { fuse: i == k, payload: payload.clone() }).collect();
            ensure!(!unwinds(|| drop(JsonValue::from(w))) || k < n, "the library panicked: bomb in a Vec");
            c.f("panic_in_vec");
        }
        2 => {
            let fuse = std::rc::Rc::new(std::cell::Cell::new(k));
            let w: Vec<CloneBomb> = (0..n).map(|_| CloneBomb(fuse.clone(), payload.clone())).collect();
            ensure!(!unwinds(|| drop(JsonValue::from(&w[..]))) || k < n, "the library panicked: bomb in a slice");
            c.f("panic_in_slice");
        }
        3 => {
            let w: HashMap<String, Bomb> = (0..n).map(|i| (format!("{}{}", payload, i), Bomb { fuse: i == k, payload: payload.clone() })).collect();
            ensure!(!unwinds(|| drop(JsonValue::from(w))) || k < n, "the library panicked: bomb in a HashMap");
            c.f("panic_in_map");
        }
        4 => {
            let w: BTreeMap<KeyBomb, String> = (0..n).map(|i| (KeyBomb { key: format!("{}{}", payload, i), fuse: i == k }, payload.clone())).collect();
            ensure!(!unwinds(|| drop(JsonValue::from(w))) || k < n, "the library panicked: bomb in a key");
            c.f("panic_in_key");
        }
        5 => {
            // the iterator itself panics, with various size hints
            let hint = c.t.below(3);
            let it = (0..n).map(|i| {
                if i == k {
                    boom();
                }
                (format!("{}{}", payload, i % 7), JsonValue::from(payload.as_str()))
            });
            let u = match hint {
                0 => unwinds(|| drop(it.collect::<Object>())),
                1 => unwinds(|| drop(it.filter(|_| true).collect::<Object>())),
                _ => unwinds(|| drop(it.chain((0..3).map(|i| (i.to_string(), JsonValue::Null))).collect::<Object>())),
            };
            ensure!(!u || k < n, "the library panicked: iterator bomb");
            c.f("panic_in_iterator");
        }
        6 => {
            let len = v.dump().len();
            let left = c.t.below(len + 1);
            let fail = c.t.chance(1, 2);
            let mut w = WriteBomb { left, got: vec![], fail };
            let u = unwinds(|| {
                let r = v.write(&mut w);
                if fail && left < len && r.is_ok() {
                    boom();
                }
            });
            ensure!(u == (left < len && !fail), "writer bomb after {} of {} bytes (fail {}): unwound {}", left, len, fail, u);
            let mut w = WriteBomb { left, got: vec![], fail };
            let _ = unwinds(|| { let _ = v.write_pretty(&mut w, 3); });
            c.f("panic_in_writer");
        }
        7 => {
            let mut g = GenBomb { out: vec![], left: k };
            let _ = unwinds(|| { let _ = g.write_json(&v); });
            c.f("panic_in_generator");
        }
        8 => {
            let a = JsonValue::from((0..n).collect::<Vec<usize>>());
            ensure!(!unwinds(|| { a.contains(EqBomb(k)); }) || k < n, "the library panicked: eq bomb");
            c.f("panic_in_eq");
        }
        9 => {
            #[allow(deprecated)]
            let u = unwinds(|| {
                let mut a = JsonValue::new_array();
                let mut o = Object::with_capacity(2);
                for i in 0..n {
                    o.insert(&format!("{}{}", payload, i), Bomb { fuse: i == k, payload: payload.clone() }.into());
                    a[i] = Bomb { fuse: false, payload: payload.clone() }.into();
                }
            });
            ensure!(!u || k < n, "the library panicked: object bomb");
            c.f("panic_while_building");
        }
        _ => {
            let _ = unwinds(|| drop(json::array![1, [payload.as_str(), Bomb { fuse: k % 2 == 0, payload: payload.clone() }], { a: payload.clone(), b: Bomb { fuse: true, payload: payload.clone() } }]));
            let _ = unwinds(|| drop(json::object! { a: payload.clone(), "b": [payload.clone(), { c: Bomb { fuse: true, payload: payload.clone() } }] }));
            c.f("panic_in_macro");
        }
    }
    check_same(&v, &m0, NumMode::Exact).map_err(|e| format!("a bystander changed: {}", e))?;
    let _ = v.take();
    Ok(())
}

fn traffic(c: &mut Ctx) -> R {
    match c.t.below(9) {
        0 => {
            let t = gen_text(c);
            match json::parse(&t) {
                Ok(v) => drop(v),
                Err(e) => drop(e),
            }
            c.f("parse");
        }
        1 => {
            // failures at every point of a document
            let m = gen_value(c, Shape { nodes: 12, depth: 4, strlen: 60, nan: false });
            let (t, _) = emit(c, &m);
            let cut: Vec<usize> = t.char_indices().map(|x| x.0).collect();
            let lo = if cut.len() <= 120 { 0 } else { c.t.below(cut.len() - 100) };
            for &i in cut.iter().skip(lo).take(120) {
                drop(json::parse(&t[..i]));
                let mut bad = t[..i].to_string();
                bad.push('\u{1}');
                drop(json::parse(&bad));
                c.f("parse_cut");
            }
        }
        2 => {
            let n = 1 + c.t.below(8);
            let keys: Vec<String> = (0..n).map(|_| gen_key(c)).collect();
            let mut x = Map { o: Object::with_capacity(c.t.below(6)), m: vec![] };
            let steps = 1 + c.size(40);
            for _ in 0..steps {
                map_op(c, &mut x, &keys)?;
            }
            c.f("map_history");
        }
        3 => {
            let mut m = gen_value(c, SMALL);
            let s = c.t.seed();
            let mut v = build(&m, &mut Rng::new(s));
            let steps = 1 + c.size(30);
            for _ in 0..steps {
                doc_step(c, &mut v, &mut m)?;
                if m.nodes() > 2000 {
                    break;
                }
            }
            c.f("document_history");
        }
        4 => {
            // partial iteration, then drop; collect owned parts
            let m = gen_value(c, SMALL);
            let s = c.t.seed();
            let mut v = build(&m, &mut Rng::new(s));
            let k = c.t.below(6);
            let mut it = v.entries_mut();
            for _ in 0..k {
                if let Some((_, x)) = it.next_back() {
                    *x = JsonValue::from("replaced by a string longer than thirty bytes");
                }
            }
            let mut it = v.members_mut();
            for _ in 0..k {
                if let Some(x) = it.next() {
                    let _ = x.take();
                }
            }
            let part: Vec<JsonValue> = v.members().take(2).cloned().collect();
            let keys: Vec<&str> = v.entries().map(|e| e.0).take(3).collect();
            drop(keys);
            drop(v);
            drop(part);
            if let JsonValue::Array(a) = build(&m, &mut Rng::new(s)) {
                // consume half of it
                let mut it = a.into_iter();
                let _ = it.next();
            }
            c.f("partial_iteration");
        }
        5 => {
            let m = gen_value(c, SMALL);
            let s = c.t.seed();
            let v = build(&m, &mut Rng::new(s));
            let (a, b) = (v.clone(), v.clone());
            let _ = (a == b, a.dump(), b.pretty(2), a.to_string(), format!("{:?}", b));
            let _ = json::stringify(a);
            let _ = json::stringify_pretty(b, 2);
            let mut x = v;
            let _ = x.take_string();
            x.clear();
            c.f("clone_and_print");
        }
        _ => panicking(c)?,
    }
    Ok(())
}

/// The body runs once to choose, then again from the recorded choices while
/// the allocator's ledger is watched.
pub fn c22(c: &mut Ctx) -> R {
    let start = c.t.position();
    traffic(c)?;
    let end = c.t.position();
    let slice = c.t.data[start.min(c.t.data.len())..end.min(c.t.data.len())].to_vec();
    c.nt(hash_bytes(&slice));
    c.describe(|| format!("tape of {} bytes: {}", slice.len(), clip(&hex(&slice), 200)));
    let mut outer = Tape::new(slice, None);
    std::mem::swap(&mut c.t, &mut outer);
    let desc = c.desc.take();
    let mut res = Ok(());
    for round in 0..2 {
        c.t.rewind();
        let (b0, n0) = rt::live();
        let t0 = rt::total();
        let r = traffic(c);
        if r.is_err() {
            res = r;
            break;
        }
        let (b1, n1) = rt::live();
        if round == 0 {
            // one-time allocations of the runtime are allowed in the first run
            continue;
        }
        if b0 != b1 || n0 != n1 {
            res = Err(format!("after dropping everything {} bytes in {} blocks remain allocated (live before {} bytes {} blocks, after {} bytes {} blocks)",
                b1 as i64 - b0 as i64, n1 as i64 - n0 as i64, b0, n0, b1, n1));
            break;
        }
        let moved = rt::total() - t0;
        c.fn_("bytes_allocated_and_released", moved as u64);
    }
    std::mem::swap(&mut c.t, &mut outer);
    c.desc = desc;
    res
}
