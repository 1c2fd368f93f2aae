//! C27: no call leaves a trace. The result of an operation depends on its
//! arguments only, not on what was done before it, on which thread, how often,
//! or how that ended.
//! C31: nor on the platform or the build.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::num::gen_f64;
use crate::props::obj::{doc_step, map_op, Map};
use crate::props::parse::gen_text;
use crate::props::ser::{Act, Faulty};
use json::codegen::Generator;
use json::object::Object;
use json::JsonValue;
use std::cell::RefCell;
use std::fmt;
use std::io::{self, Write};
use std::rc::Rc;

pub const KINDS: usize = 16;
const NAMES: [&str; KINDS] = [
    "op_parse", "op_parse_truncated", "op_print", "op_failing_writer", "op_number", "op_map_history", "op_document_history", "op_strings", "op_display",
    "op_failing_generator", "op_compare", "op_panicking_code", "op_clone_take", "op_containers", "op_deep", "op_error",
];

struct Failing {
    out: Vec<u8>,
    left: usize,
}
impl Generator for Failing {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write(&mut self, slice: &[u8]) -> io::Result<()> {
        if self.left == 0 {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        self.left -= 1;
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn write_min(&mut self, slice: &[u8], _: u8) -> io::Result<()> {
        self.write(slice)
    }
}

fn result_of(t: &str) -> String {
    result_as(false, t)
}

fn result_as(few: bool, t: &str) -> String {
    match json::parse(t) {
        Ok(v) => format!("Ok {} {}", v.dump(), debug(few, &v)),
        Err(e) => format!("Err {} {}", debug(few, &e), e),
    }
}

/// What Debug writes is a matter of the implementation and of the standard
/// library; where it may differ, nothing.
fn debug<T: std::fmt::Debug>(without: bool, x: &T) -> String {
    if without { String::new() } else { format!("{:?}", x) }
}

/// One operation, chosen by kind and seed alone; gives back all that it returned.
/// Which NaN it is says nothing.
fn bits(f: f64) -> u64 {
    if f.is_nan() { 1 } else { f.to_bits() }
}

fn perform(kind: usize, seed: u64, variant: &str) -> String {
    let mut c = new_ctx(Dict::default(), variant);
    let c = &mut c;
    c.t = Tape::new(vec![], Some(Rng::new(seed.wrapping_mul(1000).wrapping_add(kind as u64))));
    let few = variant == "miri-few";
    let shape = if few { Shape { nodes: 7, depth: 3, strlen: 30, nan: true } } else { Shape { nodes: 12, depth: 4, strlen: 60, nan: true } };
    let times = if few { 1 } else { 4 };
    let mut o = String::new();
    match kind {
        0 => {
            let t = gen_text(c);
            o = result_as(few, &t);
        }
        1 => {
            let m = gen_value(c, Shape { nan: false, ..shape });
            let (t, _) = emit(c, &m);
            for _ in 0..times.min(3) {
                let mut k = c.t.below(t.len() + 1).min(t.len());
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                o += &result_as(few, &t[..k]);
            }
        }
        2 => {
            let m = gen_value(c, shape);
            let v = build(&m, &mut Rng::new(seed));
            let w = c.t.below(9) as u16;
            o = v.dump() + &v.pretty(w) + &json::stringify(v.clone()) + &json::stringify_pretty(v, w);
        }
        3 => {
            let m = gen_value(c, shape);
            let v = build(&m, &mut Rng::new(seed));
            let n = c.t.below(12);
            let mut script: Vec<Act> = (0..n).map(|_| *c.t.pick(&[Act::Full, Act::Short(1), Act::Interrupted, Act::Short(3)])).collect();
            script.push(*c.t.pick(&[Act::Zero, Act::Fail(io::ErrorKind::BrokenPipe), Act::Full]));
            for pretty in [false, true] {
                let mut f = Faulty { script: script.clone(), at: 0, rest: Act::Full, got: vec![], calls: 0, failed: None, after_failure: 0, interrupts: 0 };
                let r = if pretty { v.write_pretty(&mut f, 2) } else { v.write(&mut f) };
                o += &format!("{:?} {:?} {};", r.map_err(|e| e.kind()), f.got, f.after_failure);
            }
        }
        4 => {
            for _ in 0..times {
                let f = gen_f64(c);
                let (n, m, e) = gen_parts(c);
                for v in [JsonValue::from(f), JsonValue::from(f as f32), JsonValue::Number(json::number::Number::from_parts(n, m, e)), JsonValue::from(m), JsonValue::from(m as i64)] {
                    o += &format!("{} {:?} {:?} {:?} {:?} {:?} {:?} {:?};", v, v.as_f64().map(bits), v.as_f32().map(|x| bits(x as f64)), v.as_u64(), v.as_i64(), v.as_u8(), v.as_i16(), v.as_fixed_point_u64(2));
                }
            }
        }
        5 => {
            let n = 1 + c.t.below(8);
            let keys: Vec<String> = (0..n).map(|_| gen_key(c)).collect();
            let mut x = Map { o: Object::new(), m: vec![] };
            for _ in 0..12 {
                if let Err(e) = map_op(c, &mut x, &keys) {
                    o += &e;
                }
            }
            o += &x.o.dump();
        }
        6 => {
            let mut m = gen_value(c, shape);
            let mut v = build(&m, &mut Rng::new(seed));
            for _ in 0..8 {
                match doc_step(c, &mut v, &mut m) {
                    Ok(n) => o += n,
                    Err(e) => {
                        o += &e;
                        break;
                    }
                }
            }
            o += &v.dump();
        }
        7 => {
            for _ in 0..times {
                let s = gen_string(c, if few { 40 } else { 100 });
                let mut v = build_str(&s, &mut Rng::new(seed));
                o += &format!("{} {} {} ", v.dump(), v.as_str().map_or("None".into(), jstr), v);
                o += &format!("{} {};", v.take_string().map_or("None".into(), |s| jstr(&s)), debug(few, &v));
            }
        }
        8 => {
            let m = gen_value(c, shape);
            let v = build(&m, &mut Rng::new(seed));
            o = format!("{} {:#} {} {:>5} {:<7}|", v, v, debug(few, &v), v["missing"], v[0]);
        }
        9 => {
            let m = gen_value(c, shape);
            let v = build(&m, &mut Rng::new(seed));
            let mut g = Failing { out: vec![], left: c.t.below(30) };
            let r = g.write_json(&v);
            o = format!("{:?} {:?}", r.map_err(|e| e.kind()), g.out);
        }
        10 => {
            let m = gen_value(c, shape);
            let n = tweak(&m, &mut Rng::new(seed));
            let (v, w) = (build(&m, &mut Rng::new(1)), build(&n, &mut Rng::new(2)));
            o = format!("{} {} {} {} {}", v == w, w == v, v == v, v.contains(w.clone()), v.contains("x"));
        }
        11 => {
            if let Err(e) = crate::props::mem::panicking(c) {
                o = e;
            }
        }
        12 => {
            let m = gen_value(c, shape);
            let mut v = build(&m, &mut Rng::new(seed));
            let w = v.clone();
            let t = v.take();
            o = format!("{} {} {}", v.dump(), w.dump(), t.dump());
        }
        13 => {
            let n = c.t.below(20);
            let s: Vec<String> = (0..n).map(|_| gen_string(c, 50)).collect();
            let b: std::collections::BTreeMap<&str, usize> = s.iter().enumerate().map(|(i, k)| (k.as_str(), i)).collect();
            let p: Object = s.iter().map(|k| (k.as_str(), Some(k.as_str()))).collect();
            o = JsonValue::from(&s[..]).dump() + &JsonValue::from(b).dump() + &p.dump();
        }
        14 => {
            let d = [3, 100, 511, 512, 513, 700][c.t.below(if c.small { 1 } else { 6 })];
            let t = crate::props::parse::deep_text(c, d);
            o = result_as(few, &t);
        }
        _ => {
            let m = gen_value(c, Shape { nan: false, ..shape });
            let (t, _) = emit(c, &m);
            for _ in 0..times.min(3) {
                let bad = mutate_text(c, &t);
                o += &result_as(few, &bad);
                if let Err(e) = json::parse(&bad) {
                    o += &error_text(few, e);
                }
            }
            // calls refused for the type of their value
            let mut v = [JsonValue::Null, 7.into(), "text".into(), true.into(), JsonValue::new_object()][c.t.below(5)].clone();
            v.push(1).map_err(|e| error_text(few, e)).map_or_else(|e| o += &e, |_| ());
            let mut v = [JsonValue::Null, 7.into(), "text".into(), true.into(), JsonValue::new_array()][c.t.below(5)].clone();
            v.insert("key", 1).map_err(|e| error_text(few, e)).map_or_else(|e| o += &e, |_| ());
        }
    }
    o
}

/// Everything an error says about itself.
#[allow(deprecated)]
fn error_text(few: bool, e: json::Error) -> String {
    let d: &dyn std::error::Error = &e;
    format!("{} {} {} {} {};", e, debug(few, &e), d.description(), d.source().is_some(), e == e)
}

/// Done on a thread of its own, which has done nothing before.
fn alone(kind: usize, seed: u64, variant: &str) -> Result<String, String> {
    let v = variant.to_string();
    let stack = if variant.starts_with("miri") { 4 << 20 } else { 64 << 20 };
    let b = std::thread::Builder::new().stack_size(stack);
    let b = match seed % 3 {
        0 => b,
        1 => b.name("main".into()),
        _ => b.name(format!("thread-{}", seed)),
    };
    b.spawn(move || perform(kind, seed, &v))
        .map_err(|e| format!("HARNESS {}", e))?
        .join()
        .map_err(|_| thread_panic())
}

fn same(kind: usize, seed: u64, got: &str, want: &str, after: &[usize]) -> R {
    ensure!(got == want, "{} (seed {}) gives {} after {:?}, but {} on a fresh thread", NAMES[kind], seed, clip(&jstr(got), 300), after.iter().map(|&k| NAMES[k]).collect::<Vec<_>>(), clip(&jstr(want), 300));
    Ok(())
}

pub fn c27(c: &mut Ctx) -> R {
    if c.t.chance(1, 3) {
        return during(c);
    }
    let variant = c.variant.clone();
    let n = if c.small { 2 } else { 2 + c.t.below(7) };
    let ops: Vec<(usize, u64)> = (0..n).map(|_| (c.t.below(KINDS), c.t.seed())).collect();
    c.describe(|| format!("{:?}", ops.iter().map(|o| (NAMES[o.0], o.1)).collect::<Vec<_>>()));
    let mut want = vec![];
    for &(k, s) in &ops {
        want.push(alone(k, s, &variant)?);
        c.f(NAMES[k]);
    }
    c.nt(hash_bytes(want.concat().as_bytes()));
    // in any order, again and again
    let mut done: Vec<usize> = vec![];
    let rounds = if c.small { n } else { n * 2 + c.t.below(6) };
    for _ in 0..rounds {
        let i = c.t.below(n);
        let (k, s) = ops[i];
        let got = perform(k, s, &variant);
        same(k, s, &got, &want[i], &done[done.len().saturating_sub(6)..])?;
        done.push(k);
    }
    c.fn_("repetitions", rounds as u64);
    // backwards, each twice in a row
    for (i, &(k, s)) in ops.iter().enumerate().rev() {
        for _ in 0..2 {
            let got = perform(k, s, &variant);
            same(k, s, &got, &want[i], &done[done.len().saturating_sub(6)..])?;
            done.push(k);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ while another call is under way

/// What the user's code does when the library calls it.
struct Inner {
    ops: Vec<(usize, u64, String)>,
    at: usize,
    /// runs left; none in the reference run
    left: usize,
    every: usize,
    calls: usize,
    /// run the operation on another thread and wait for it
    elsewhere: bool,
    variant: String,
    bad: Option<String>,
    runs: u64,
}
type Shared = Rc<RefCell<Inner>>;

fn tick(s: &Shared) {
    let (kind, seed, want, elsewhere, variant) = {
        let mut i = s.borrow_mut();
        i.calls += 1;
        if i.left == 0 || i.calls % i.every != 0 || i.ops.is_empty() {
            return;
        }
        i.left -= 1;
        i.at = (i.at + 1) % i.ops.len();
        let o = i.ops[i.at].clone();
        (o.0, o.1, o.2, i.elsewhere, i.variant.clone())
    };
    let got = if elsewhere { alone(kind, seed, &variant).unwrap_or_else(|e| e) } else { perform(kind, seed, &variant) };
    let mut i = s.borrow_mut();
    i.runs += 1;
    if got != want && i.bad.is_none() {
        i.bad = Some(format!("{} (seed {}) gives {} when it runs {} another call is under way, but {} alone", NAMES[kind], seed, clip(&jstr(&got), 300), if elsewhere { "on another thread while" } else { "while" }, clip(&jstr(&want), 300)));
    }
}

struct BusyWriter(Shared, Vec<u8>);
impl Write for BusyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        tick(&self.0);
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl fmt::Write for BusyWriter {
    fn write_str(&mut self, b: &str) -> fmt::Result {
        tick(&self.0);
        self.1.extend_from_slice(b.as_bytes());
        tick(&self.0);
        Ok(())
    }
}
struct BusyGenerator(BusyWriter);
impl Generator for BusyGenerator {
    type T = BusyWriter;
    fn get_writer(&mut self) -> &mut BusyWriter {
        &mut self.0
    }
    fn write_min(&mut self, slice: &[u8], _: u8) -> io::Result<()> {
        Write::write_all(&mut self.0, slice)
    }
    fn new_line(&mut self) -> io::Result<()> {
        tick(&(self.0).0);
        Ok(())
    }
    fn indent(&mut self) {
        tick(&(self.0).0);
    }
    fn dedent(&mut self) {
        tick(&(self.0).0);
    }
}
#[derive(Clone)]
struct Busy(Shared, JsonValue);
impl From<Busy> for JsonValue {
    fn from(b: Busy) -> JsonValue {
        tick(&b.0);
        b.1
    }
}
impl PartialEq<JsonValue> for Busy {
    fn eq(&self, o: &JsonValue) -> bool {
        tick(&self.0);
        self.1 == *o
    }
}
#[derive(Clone)]
struct BusyKey(Shared, String);
impl AsRef<str> for BusyKey {
    fn as_ref(&self) -> &str {
        tick(&self.0);
        &self.1
    }
}
impl PartialEq for BusyKey {
    fn eq(&self, o: &BusyKey) -> bool {
        self.1 == o.1
    }
}
impl Eq for BusyKey {}
impl PartialOrd for BusyKey {
    fn partial_cmp(&self, o: &BusyKey) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BusyKey {
    fn cmp(&self, o: &BusyKey) -> std::cmp::Ordering {
        self.1.cmp(&o.1)
    }
}

const OUTER: usize = 11;
const OUTER_NAMES: [&str; OUTER] = [
    "during_write", "during_write_pretty", "during_generator", "during_display", "during_push_insert", "during_vec_slice", "during_map_keys", "during_collect",
    "during_contains", "during_macros", "during_built_in_generator",
];

/// One operation that calls back into the user's code.
fn outer(kind: usize, seed: u64, s: &Shared, variant: &str) -> String {
    let mut c = new_ctx(Dict::default(), variant);
    let c = &mut c;
    c.t = Tape::new(vec![], Some(Rng::new(seed)));
    let m = gen_value(c, Shape { nodes: 14, depth: 4, strlen: 60, nan: true });
    let v = build(&m, &mut Rng::new(seed));
    let n = c.t.below(12);
    let strs: Vec<String> = (0..n).map(|_| gen_string(c, 50)).collect();
    let busy = |i: usize| Busy(s.clone(), if i % 2 == 0 { JsonValue::from(strs[i].as_str()) } else { v.clone() });
    let mut w = BusyWriter(s.clone(), vec![]);
    let end = |w: BusyWriter| String::from_utf8_lossy(&w.1).into_owned();
    match kind {
        0 => {
            let r = v.write(&mut w).is_ok();
            format!("{} {}", r, end(w))
        }
        1 => {
            let r = v.write_pretty(&mut w, 3).is_ok();
            format!("{} {}", r, end(w))
        }
        2 => {
            let mut g = BusyGenerator(w);
            let r = g.write_json(&v).is_ok();
            format!("{} {}", r, end(g.0))
        }
        3 => {
            let r = fmt::Write::write_fmt(&mut w, format_args!("{} {:#} {}", v, v, v["missing"])).is_ok();
            format!("{} {}", r, end(w))
        }
        4 => {
            let mut a = JsonValue::new_array();
            let mut o = JsonValue::new_object();
            for i in 0..n {
                let _ = a.push(busy(i));
                let _ = o.insert(&strs[(i * 7) % n], busy(i));
                a[i * 2 % 9] = busy(i).into();
            }
            a.dump() + &o.dump()
        }
        5 => {
            let w: Vec<Busy> = (0..n).map(busy).collect();
            JsonValue::from(&w[..]).dump() + &JsonValue::from(w).dump() + &JsonValue::from(Some(Busy(s.clone(), v.clone()))).dump()
        }
        6 => {
            let w: std::collections::BTreeMap<BusyKey, Busy> = (0..n).map(|i| (BusyKey(s.clone(), strs[i].clone()), busy(i))).collect();
            JsonValue::from(w).dump()
        }
        7 => {
            let it = (0..n).map(|i| {
                tick(s);
                (BusyKey(s.clone(), strs[i].clone()), busy(i))
            });
            it.collect::<Object>().dump()
        }
        8 => {
            let a = JsonValue::Array((0..n).map(|i| busy(i).1).collect());
            format!("{} {}", a.contains(Busy(s.clone(), JsonValue::Null)), a.contains(Busy(s.clone(), v.clone())))
        }
        9 => {
            let x = || Busy(s.clone(), v.clone());
            let y = json::array![x(), [x(), "a"], { "k": x(), "l": [x()] }];
            let z = json::object! { a: x(), "b": { c: x() }, [BusyKey(s.clone(), "key".into()).as_ref()]: x() };
            y.dump() + &z.dump()
        }
        _ => {
            let r = {
                let mut g = json::codegen::PrettyWriterGenerator::new(&mut w, 2);
                let a = g.write_json(&v).is_ok();
                a && g.write_json(&v).is_ok()
            };
            let q = {
                let mut g = json::codegen::WriterGenerator::new(&mut w);
                g.write_json(&v).is_ok()
            };
            format!("{} {} {}", r, q, end(w))
        }
    }
}

/// The user's code runs operations of the library while the library waits for it.
fn during(c: &mut Ctx) -> R {
    let variant = c.variant.clone();
    let n = 1 + c.t.below(if c.small { 1 } else { 4 });
    let mut ops = vec![];
    for _ in 0..n {
        let (k, s) = (c.t.below(KINDS), c.t.seed());
        ops.push((k, s, alone(k, s, &variant)?));
    }
    let (kind, seed) = (c.t.below(OUTER), c.t.seed());
    let (every, left, elsewhere) = (1 + c.t.below(5), 1 + c.t.below(6), c.t.chance(1, 4));
    during_one(c, kind, seed, ops, every, left, elsewhere)
}

fn during_one(c: &mut Ctx, kind: usize, seed: u64, ops: Vec<(usize, u64, String)>, every: usize, left: usize, elsewhere: bool) -> R {
    let variant = c.variant.clone();
    c.describe(|| format!("{:?} {} (seed {}), elsewhere {}", ops.iter().map(|o| (NAMES[o.0], o.1)).collect::<Vec<_>>(), OUTER_NAMES[kind], seed, elsewhere));
    let stack = if variant.starts_with("miri") { 4 << 20 } else { 64 << 20 };
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || -> Result<(u64, u64), String> {
            let mk = |left| Rc::new(RefCell::new(Inner { ops: ops.clone(), at: 0, left, every, calls: 0, elsewhere, variant: variant.clone(), bad: None, runs: 0 }));
            let quiet = mk(0);
            let want = outer(kind, seed, &quiet, &variant);
            let s = mk(left);
            let got = outer(kind, seed, &s, &variant);
            let again = outer(kind, seed, &quiet, &variant);
            let _ = tx.send(());
            let i = s.borrow();
            if let Some(b) = &i.bad {
                return Err(format!("{}: {}", OUTER_NAMES[kind], b));
            }
            ensure!(got == want, "{} (seed {}) gives {} when the user's code runs other operations meanwhile, but {} when it does not", OUTER_NAMES[kind], seed, clip(&jstr(&got), 300), clip(&jstr(&want), 300));
            ensure!(again == want, "{} (seed {}) gives {} after operations ran inside another call, {} before", OUTER_NAMES[kind], seed, clip(&jstr(&again), 300), clip(&jstr(&want), 300));
            Ok((hash_bytes(got.as_bytes()), i.runs))
        })
        .map_err(|e| format!("HARNESS {}", e))?;
    if !c.small {
        // these take milliseconds; nothing else than a lock that is never released takes minutes
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(std::time::Duration::from_secs(150)) {
            eprintln!("{} does not end while the user's code runs operations", OUTER_NAMES[kind]);
            std::process::exit(79);
        }
    }
    let (h, runs) = t.join().unwrap_or_else(|_| Err(thread_panic()))?;
    c.nt(h ^ runs.rotate_left(40) ^ seed);
    c.f(OUTER_NAMES[kind]);
    c.fn_("operations_inside_others", runs);
    Ok(())
}

/// The same operation very often: counters inside the library would wrap or fill up.
fn very_often(c: &mut Ctx, what: u64) -> R {
    let reps = match c.variant.as_str() {
        "release" => 300_000usize,
        "checked" => 140_000,
        _ => 70_000,
    };
    c.describe(|| format!("operation {} {} times", what, reps));
    let text = "{\"a\":[1,-2.5e3,\"\\u00e9\\n\"],\"some longer key than is kept inline\":{\"b\":null}}";
    let v = json::parse(text).map_err(|e| e.to_string())?;
    let mut kept = Object::new();
    let mut arr = JsonValue::new_array();
    let mut first = String::new();
    for i in 0..reps {
        let got = match what {
            0 => result_of(text),
            1 => result_of("[1,\n {\"a\" 2}]"),
            2 => v.dump(),
            3 => v.pretty(2),
            4 => {
                let mut f = Faulty { script: vec![Act::Full, Act::Fail(io::ErrorKind::BrokenPipe)], at: 0, rest: Act::Full, got: vec![], calls: 0, failed: None, after_failure: 0, interrupts: 0 };
                format!("{:?} {:?}", v.write(&mut f).map_err(|e| e.kind()), f.got)
            }
            5 => format!("{} {:?} {:?}", JsonValue::from(0.1f64 + 0.2), JsonValue::from(1e300).as_f32(), json::number::Number::from(300u16).as_fixed_point_u64(3)),
            6 => {
                // one object used all along
                kept.insert("x", 1.into());
                kept.insert("a key that is kept on the heap, so it is long", 2.into());
                let t = kept.dump();
                kept.remove("x");
                if i % 3 == 0 {
                    kept.clear();
                }
                t.replace("{\"a key that is kept on the heap, so it is long\":2,\"x\":1}", "{\"x\":1,\"a key that is kept on the heap, so it is long\":2}")
            }
            7 => {
                // one array
                let _ = arr.push("item");
                let _ = arr.push(7);
                let t = format!("{} {}", arr.pop(), arr.len());
                arr.array_remove(0);
                t
            }
            8 => {
                let w = v.clone();
                format!("{} {}", w == v, w["a"][2])
            }
            9 => {
                let mut w = v.clone();
                let t = w["a"].take();
                format!("{} {}", t.dump(), w.dump())
            }
            10 => result_of("\"unterminated"),
            _ => {
                let mut s = JsonValue::from("a string that is a little longer than thirty bytes");
                format!("{:?} {:?} {}", s.take_string(), s, v.contains("x"))
            }
        };
        if i == 0 {
            first = got;
        } else {
            ensure!(got == first, "repetition {} gives {}, the first {}", i, clip(&jstr(&got), 300), clip(&jstr(&first), 300));
        }
    }
    c.fn_("very_often", reps as u64);
    Ok(())
}
const OFTEN: u64 = 12;

/// Every kind of operation after every other.
pub fn c27_enums() -> u64 {
    (KINDS * KINDS + KINDS * OUTER) as u64 + OFTEN
}
pub fn c27_enum(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    let variant = c.variant.clone();
    let pairs = (KINDS * KINDS) as u64;
    if i >= pairs + (KINDS * OUTER) as u64 {
        return very_often(c, i - pairs - (KINDS * OUTER) as u64);
    }
    if i >= pairs {
        let (k, o) = ((i - pairs) as usize / OUTER, (i - pairs) as usize % OUTER);
        for s in 0..6u64 {
            let ops = vec![(k, s, alone(k, s, &variant)?), (k, s + 50, alone(k, s + 50, &variant)?)];
            during_one(c, o, s + 9, ops, 1 + s as usize % 3, 4, s % 3 == 2)?;
            c.evals += 1;
        }
        c.f("enum_kinds_inside_calls");
        return Ok(());
    }
    let (a, b) = (i as usize / KINDS, i as usize % KINDS);
    for s in 0..12u64 {
        let want = alone(b, s, &variant)?;
        let other = perform(a, s + 100, &variant);
        let got = perform(b, s, &variant);
        same(b, s, &got, &want, &[a])?;
        let want2 = alone(a, s + 100, &variant)?;
        same(a, s + 100, &other, &want2, &[])?;
        // both on one thread that did neither before
        let v = variant.clone();
        let got = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                perform(a, s + 100, &v);
                perform(a, s + 101, &v);
                perform(b, s, &v)
            })
            .map_err(|e| format!("HARNESS {}", e))?
            .join()
            .map_err(|_| thread_panic())?;
        same(b, s, &got, &want, &[a, a])?;
        c.evals += 1;
    }
    c.f("enum_pairs_of_kinds");
    c.describe(|| format!("{} after {}", NAMES[b], NAMES[a]));
    Ok(())
}

// ------------------------------------------------------------ C31

const PORTABLE: u64 = KINDS as u64 + 3;

/// Result number `i`: everything an operation returns, as text, of a size an
/// interpreter can manage. The same on every platform.
fn portable(base: u64, i: u64) -> String {
    let (kind, seed) = (i % PORTABLE, base.wrapping_mul(1_000_003).wrapping_add(i / PORTABLE));
    if kind < KINDS as u64 {
        return perform(kind as usize, seed, "miri-few");
    }
    let mut c = new_ctx(Dict::default(), "miri-few");
    let c = &mut c;
    c.t = Tape::new(vec![], Some(Rng::new(seed.wrapping_mul(77).wrapping_add(kind))));
    let mut o = String::new();
    match kind - KINDS as u64 {
        0 => {
            // numbers in every direction
            let (p, m, e) = gen_parts(c);
            let (q, n, g) = if c.t.chance(1, 3) { (p, m / 10, e.wrapping_add(1)) } else { gen_parts(c) };
            let (x, y) = (json::number::Number::from_parts(p, m, e), json::number::Number::from_parts(q, n, g));
            let v = JsonValue::Number(x);
            o += &format!("{} {} {} {:?} {:?} {} ", x, y, x == y, x.as_parts(), y.as_parts(), -x);
            o += &format!("{:x} {:x} ", bits(x.into()), bits(f32::from(x) as f64));
            o += &format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} ", v.as_u8(), v.as_u16(), v.as_u32(), v.as_u64(), v.as_i8(), v.as_i16(), v.as_i32(), v.as_i64());
            for pt in [0, 1, 2, 9, 18, 19, 20, 400, u16::MAX] {
                o += &format!("{:?} {:?} ", x.as_fixed_point_u64(pt), x.as_fixed_point_i64(pt));
            }
            o += &format!("{} {} {} {}", v == m, v == m as i64, v == m as f64, v == m as u8);
        }
        1 => {
            // sizes: what a usize or isize holds is a matter of the platform, the rule is not
            let x = c.u64b();
            let e = if c.t.chance(1, 4) { c.exp16() } else { 0 };
            let v = JsonValue::Number(json::number::Number::from_parts(c.t.chance(2, 3), x, e));
            let u = v.as_u64().filter(|&u| u <= usize::MAX as u64).map(|u| u as usize);
            let s = v.as_i64().filter(|&s| s >= isize::MIN as i64 && s <= isize::MAX as i64).map(|s| s as isize);
            o += &format!("{} {} ", v.as_usize() == u, v.as_isize() == s);
            let k = (x as usize, x as isize);
            o += &format!("{} {} ", JsonValue::from(k.0).as_usize() == Some(k.0), JsonValue::from(k.1).as_isize() == Some(k.1));
            o += &format!("{} {} ", JsonValue::from(k.0) == JsonValue::from(k.0 as u64), JsonValue::from(k.1) == JsonValue::from(k.1 as i64));
            o += &format!("{} {}", JsonValue::from(k.0) == k.0, JsonValue::from(k.1) == k.1);
            let a = JsonValue::from((0..10u8).collect::<Vec<_>>());
            o += &format!(" {} {} {}", a[k.0 | 16], a[usize::MAX], a[(x % 10) as usize]);
            let mut b = a.clone();
            o += &format!(" {} {} {}", b.array_remove(k.0 | 16), b.array_remove(usize::MAX), b.array_remove((x % 10) as usize));
        }
        _ => {
            // literals
            let n = 1 + c.t.below(3);
            for _ in 0..n {
                let t = gen_numlit(c, 60);
                o += &result_as(true, &t);
                if let Ok(v) = json::parse(&t) {
                    o += &format!(" {:x};", v.as_f64().map_or(0, bits));
                }
            }
        }
    }
    o
}

fn portable_hash(base: u64, i: u64) -> u64 {
    let r = std::panic::catch_unwind(|| portable(base, i));
    match r {
        Ok(s) => hash_bytes(s.as_bytes()),
        Err(_) => 0,
    }
}

/// The results of this build, for the others to compare theirs with: 17 bytes each after the first line of 40.
pub fn transcript(base: u64, count: u64, path: &str) -> i32 {
    let mut o = format!("{:<39}\n", format!("{} {}", base, count));
    for i in 0..count {
        o += &format!("{:016x}\n", portable_hash(base, i));
    }
    if std::fs::write(path, o).is_ok() { 0 } else { 3 }
}

pub fn transcript_line(base: u64, i: u64) -> i32 {
    println!("{}", portable(base, i));
    0
}

/// (base, count, the file) of the reference, named by the environment
fn reference() -> &'static (u64, u64, Vec<u8>) {
    static R: std::sync::OnceLock<(u64, u64, Vec<u8>)> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let b = std::env::var("MON_REF").ok().and_then(|p| std::fs::read(p).ok()).unwrap_or_default();
        let head: Vec<u64> = String::from_utf8_lossy(&b[..b.len().min(40)]).split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if head.len() == 2 { (head[0], head[1], b) } else { (0, 0, vec![]) }
    })
}

pub fn c31_enums() -> u64 {
    reference().1
}

pub fn c31_enum(c: &mut Ctx, i: u64) -> R {
    let (base, _, file) = reference();
    let at = 40 + 17 * i as usize;
    let want = file.get(at..at + 16).and_then(|b| std::str::from_utf8(b).ok()).and_then(|s| u64::from_str_radix(s, 16).ok());
    let want = want.ok_or("HARNESS reference transcript")?;
    c.describe(|| format!("result {} of base {}", i, base));
    let got = portable_hash(*base, i);
    if got != want {
        let text = std::panic::catch_unwind(|| portable(*base, i)).unwrap_or_else(|_| "a panic".into());
        return Err(format!("result {} of base {} on this platform and build ({}-bit, {} endian, {}) differs from the 64-bit release build's: {}", i, base, usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }, c.variant, clip(&jstr(&text), 600)));
    }
    c.nt(got);
    c.f(match (usize::BITS, cfg!(target_endian = "big")) {
        (64, false) => "results_64_little",
        (64, true) => "results_64_big",
        (32, false) => "results_32_little",
        (32, true) => "results_32_big",
        _ => "results_other",
    });
    Ok(())
}

pub fn c31(c: &mut Ctx) -> R {
    let n = reference().1;
    ensure!(n > 0, "HARNESS no reference transcript");
    let i = c.t.raw64() % n;
    c31_enum(c, i)
}
