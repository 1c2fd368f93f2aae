//! C32: a panic in the user's code passes through the library and leaves every
//! value as it was.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::obj::{doc_step, put, walk};
use json::codegen::{Generator, PrettyWriterGenerator, WriterGenerator};
use json::JsonValue;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::io::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// What the user's code throws.
struct Token(u64);

thread_local! {
    static NEXT: Cell<u64> = Cell::new(1);
}

/// One panic to come, and what became of the items made for it.
struct Fuse {
    token: u64,
    /// calls of user code until the panic; none after it
    left: Cell<usize>,
    blown: Cell<bool>,
    /// calls of user code that came after the panic
    after: Cell<usize>,
    drops: RefCell<Vec<u32>>,
    /// what the user's code runs before it panics
    busy: usize,
}
type F = Rc<Fuse>;

fn fuse(left: usize, busy: usize) -> F {
    let token = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    Rc::new(Fuse { token, left: Cell::new(left), blown: Cell::new(false), after: Cell::new(0), drops: RefCell::new(vec![]), busy })
}

impl Fuse {
    fn blow(&self) -> ! {
        self.blown.set(true);
        match self.busy {
            1 => {
                let v = json::parse("{\"some\\n\":[1.5e3,\"text that is not short at all\\t\"]}");
                let _ = v.map(|v| (v.dump(), v.pretty(2), v.to_string()));
            }
            2 => drop(json::parse("[1,{\"a\":\"\\u00")),
            3 => {
                // a panic inside, caught there
                let f = fuse(0, 0);
                let mut a = json::array![];
                let w = catch_unwind(AssertUnwindSafe(|| a.push(Item::new(&f, JsonValue::Null))));
                if w.is_ok() || a.len() != 0 {
                    self.after.set(1000);
                }
            }
            _ => {}
        }
        resume_unwind(Box::new(Token(self.token)))
    }
    fn tick(&self) {
        if self.blown.get() {
            self.after.set(self.after.get() + 1);
            return;
        }
        match self.left.get() {
            0 => self.blow(),
            n => self.left.set(n - 1),
        }
    }
    /// Run until the panic. Gives whether there was one.
    fn run(&self, what: &str, f: impl FnOnce()) -> Result<bool, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(()) => {
                ensure!(!self.blown.get(), "{}: the panic of the user's code does not reach the caller", what);
                self.all_dropped(what)?;
                Ok(false)
            }
            Err(p) => match p.downcast::<Token>() {
                Ok(t) => {
                    ensure!(t.0 == self.token, "{}: the panic that reaches the caller is not the one of the user's code", what);
                    ensure!(self.after.get() == 0, "{}: the user's code is called {} times after it panicked", what, self.after.get());
                    self.all_dropped(what)?;
                    Ok(true)
                }
                Err(p) => {
                    let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    Err(format!("{}: the caller sees another panic ({}) than the one of the user's code", what, clip(&s, 200)))
                }
            },
        }
    }
    fn all_dropped(&self, what: &str) -> R {
        for (i, d) in self.drops.borrow().iter().enumerate() {
            ensure!(*d == 1, "{}: item {} of {} is dropped {} times", what, i, self.drops.borrow().len(), d);
        }
        Ok(())
    }
}

/// A value to convert, counted when dropped.
struct Item {
    f: F,
    v: JsonValue,
    id: usize,
}
impl Item {
    fn new(f: &F, v: JsonValue) -> Item {
        let mut d = f.drops.borrow_mut();
        d.push(0);
        Item { f: f.clone(), v, id: d.len() - 1 }
    }
}
impl Drop for Item {
    fn drop(&mut self) {
        self.f.drops.borrow_mut()[self.id] += 1;
    }
}
impl Clone for Item {
    fn clone(&self) -> Item {
        Item::new(&self.f, self.v.clone())
    }
}
impl From<Item> for JsonValue {
    fn from(mut i: Item) -> JsonValue {
        i.f.tick();
        i.v.take()
    }
}
impl PartialEq<JsonValue> for Item {
    fn eq(&self, _: &JsonValue) -> bool {
        self.f.tick();
        false
    }
}
struct Key(F, String);
impl AsRef<str> for Key {
    fn as_ref(&self) -> &str {
        self.0.tick();
        &self.1
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.1 == o.1
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        self.1.cmp(&o.1)
    }
}
impl std::hash::Hash for Key {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.1.hash(h)
    }
}

/// Takes `left` bytes, then panics.
struct Out {
    f: F,
    left: usize,
    piece: usize,
    got: Vec<u8>,
}
impl Out {
    fn take(&mut self, b: &[u8]) -> usize {
        if self.f.blown.get() {
            self.f.tick();
            return b.len();
        }
        if b.is_empty() {
            return 0;
        }
        if self.left == 0 {
            self.f.blow();
        }
        let n = b.len().min(self.left).min(self.piece);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        n
    }
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(self.take(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.f.blown.get() {
            self.f.tick();
        }
        Ok(())
    }
}
impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        while !b.is_empty() {
            let n = self.take(b);
            b = &b[n..];
        }
        Ok(())
    }
}
/// Counts down over every method.
struct Gen(F, Vec<u8>);
impl Generator for Gen {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        self.0.tick();
        &mut self.1
    }
    fn write(&mut self, b: &[u8]) -> io::Result<()> {
        self.0.tick();
        self.1.extend_from_slice(b);
        Ok(())
    }
    fn write_char(&mut self, b: u8) -> io::Result<()> {
        self.0.tick();
        self.1.push(b);
        Ok(())
    }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> {
        self.0.tick();
        self.1.push(min);
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        self.0.tick();
        Ok(())
    }
    fn indent(&mut self) {
        self.0.tick();
    }
    fn dedent(&mut self) {
        self.0.tick();
    }
}

const WRITES: usize = 8;
const WRITE_NAMES: [&str; WRITES] = ["write", "write_pretty", "display", "alternate_display", "debug", "writer_generator", "pretty_writer_generator", "number_display"];

/// The text that way of writing gives, as the library itself gives it.
fn text_of(way: usize, v: &JsonValue, spaces: u16) -> String {
    match way {
        0 | 5 => v.dump(),
        1 | 6 => v.pretty(spaces),
        2 => format!("{}", v),
        3 => format!("{:#}", v),
        4 => format!("{:?}", v),
        _ => format!("{} {}", v.as_number().unwrap_or_else(|| 0.into()), v),
    }
}
fn write_as(way: usize, v: &JsonValue, spaces: u16, w: &mut Out) {
    match way {
        0 => drop(v.write(w)),
        1 => drop(v.write_pretty(w, spaces)),
        2 => drop(fmt::Write::write_fmt(w, format_args!("{}", v))),
        3 => drop(fmt::Write::write_fmt(w, format_args!("{:#}", v))),
        4 => drop(fmt::Write::write_fmt(w, format_args!("{:?}", v))),
        5 => drop(WriterGenerator::new(w).write_json(v)),
        6 => drop(PrettyWriterGenerator::new(w, spaces).write_json(v)),
        _ => drop(fmt::Write::write_fmt(w, format_args!("{} {}", v.as_number().unwrap_or_else(|| 0.into()), v))),
    }
}

/// Write to a writer that panics after `left` bytes, then to one that does not.
fn write_case(way: usize, v: &JsonValue, spaces: u16, left: usize, piece: usize, busy: usize) -> R {
    let want = text_of(way, v, spaces);
    let f = fuse(usize::MAX, busy);
    let mut w = Out { f: f.clone(), left, piece, got: vec![] };
    let what = WRITE_NAMES[way];
    let u = f.run(what, || write_as(way, v, spaces, &mut w))?;
    ensure!(u == (left < want.len()), "{}: a writer that panics after {} of {} bytes: {}", what, left, want.len(), if u { "panicked" } else { "never reached" });
    let n = left.min(want.len());
    ensure!(w.got == want.as_bytes()[..n], "{}: the writer that panics after {} bytes got {} instead of a prefix of {}", what, left, clip(&jstr(&String::from_utf8_lossy(&w.got)), 200), clip(&jstr(&want), 200));
    let mut w = Out { f: fuse(usize::MAX, 0), left: usize::MAX, piece, got: vec![] };
    write_as(way, v, spaces, &mut w);
    ensure!(w.got == want.as_bytes(), "{} after a panic gives {} instead of {}", what, clip(&jstr(&String::from_utf8_lossy(&w.got)), 200), clip(&jstr(&want), 200));
    Ok(())
}

fn same(v: &JsonValue, m: &M, what: &str) -> R {
    check_same(v, m, NumMode::Exact).map_err(|e| format!("after a panic in {}: {}", what, e))
}

const COLLECTIONS: usize = 10;
const COLLECTION_NAMES: [&str; COLLECTIONS] = ["vec", "slice", "hash_map", "btree_map", "btree_map_keys", "iterator", "iterator_keys", "iterator_items", "option", "macros"];

/// Convert `n` items, where the user's code panics the `k`th time it is called.
fn collection_case(kind: usize, n: usize, k: usize, busy: usize, key: &str, x: &JsonValue, mx: &M) -> R {
    let what = COLLECTION_NAMES[kind];
    let name = |i: usize| format!("{}{}", key, i);
    for round in 0..2 {
        // the second time there is no panic
        let f = fuse(if round == 0 { k } else { usize::MAX }, busy);
        let quiet = fuse(usize::MAX, 0);
        let item = |i: usize| Item::new(&f, if i % 2 == 0 { x.clone() } else { JsonValue::from(i) });
        let quiet_item = |i: usize| Item::new(&quiet, if i % 2 == 0 { x.clone() } else { JsonValue::from(i) });
        let mut calls = n;
        let mut got: Option<JsonValue> = None;
        let u = match kind {
            0 => {
                let w: Vec<Item> = (0..n).map(item).collect();
                f.run(what, || got = Some(w.into()))?
            }
            1 => {
                let w: Vec<Item> = (0..n).map(item).collect();
                let mut w = Some(w);
                f.run(what, || {
                    let w = w.take();
                    got = w.as_ref().map(|w| w[..].into());
                })?
            }
            2 => {
                let w: HashMap<String, Item> = (0..n).map(|i| (name(i), item(i))).collect();
                f.run(what, || got = Some(w.into()))?
            }
            3 => {
                let w: BTreeMap<String, Item> = (0..n).map(|i| (name(i), item(i))).collect();
                f.run(what, || got = Some(w.into()))?
            }
            4 => {
                // keys that panic when read; how often they are read is not said
                let w: BTreeMap<Key, Item> = (0..n).map(|i| (Key(f.clone(), name(i)), quiet_item(i))).collect();
                f.run(what, || got = Some(w.into()))?
            }
            5 => {
                let it = (0..n).map(|i| {
                    f.tick();
                    (name(i), quiet_item(i))
                });
                f.run(what, || got = Some(JsonValue::Object(it.collect())))?
            }
            6 => {
                let it = (0..n).map(|i| (Key(f.clone(), name(i)), quiet_item(i)));
                f.run(what, || got = Some(JsonValue::Object(it.filter(|_| true).collect())))?
            }
            7 => {
                let w: Vec<(String, Item)> = (0..n).map(|i| (name(i), item(i))).collect();
                f.run(what, || got = Some(JsonValue::Object(w.into_iter().collect())))?
            }
            8 => {
                calls = 1;
                f.run(what, || got = Some(Some(item(0)).into()))?
            }
            _ => {
                calls = 7;
                f.run(what, || {
                    let a = json::array![item(0), [item(1), "text"], { "a": item(2), "b": [item(3)] }];
                    let o = json::object! { a: item(4), "b": { c: item(5) }, [key]: item(6) };
                    got = Some(json::array![a, o]);
                })?
            }
        };
        quiet.all_dropped(what)?;
        let want = round == 0 && k < calls;
        if !matches!(kind, 4 | 6) {
            ensure!(u == want, "{}: a conversion of {} items whose user code panics at call {}: {}", what, n, k, if u { "panicked" } else { "never reached" });
        }
        ensure!(u != got.is_some(), "{}: a panic and a result", what);
        if let Some(v) = got {
            let at = |i: usize| if i % 2 == 0 { mx.clone() } else { M::int(i as i64) };
            match kind {
                0 | 1 => check_same(&v, &M::Arr((0..n).map(at).collect()), NumMode::Exact)?,
                2 => {
                    ensure!(v.len() == n, "{}: {} entries instead of {}", what, v.len(), n);
                    for i in 0..n {
                        check_same(&v[name(i)], &at(i), NumMode::Exact)?;
                    }
                }
                5..=7 => check_same(&v, &M::Obj((0..n).map(|i| (name(i), at(i))).collect()), NumMode::Exact)?,
                3 | 4 => {
                    let mut w: Vec<(String, M)> = (0..n).map(|i| (name(i), at(i))).collect();
                    w.sort_by(|a, b| a.0.cmp(&b.0));
                    check_same(&v, &M::Obj(w), NumMode::Exact)?;
                }
                8 => check_same(&v, mx, NumMode::Exact)?,
                _ => {}
            }
        }
    }
    check_same(x, mx, NumMode::Exact).map_err(|e| format!("after a panic in {}: the value the items were copied from: {}", what, e))
}

/// Give a node to user code that panics, and see that it is as before.
fn bomb<'a>(c: &mut Ctx, root: &'a mut JsonValue, mroot: &'a mut M) -> Result<&'static str, String> {
    let (v, m) = walk(c, root, mroot)?;
    let busy = c.t.below(4);
    let nv = gen_value(c, Shape { nodes: 6, depth: 2, strlen: 60, nan: true });
    let s = c.t.seed();
    let mut r = Rng::new(s);
    Ok(match c.t.below(12) {
        0..=2 => {
            // push
            let f = fuse(0, busy);
            let u = f.run("push", || drop(v.push(Item::new(&f, build(&nv, &mut r)))))?;
            same(v, m, "push")?;
            if let M::Arr(a) = m {
                ensure!(u, "push on an array never converts its argument");
                if c.t.chance(1, 2) {
                    ensure!(v.push(Item::new(&fuse(9, 0), build(&nv, &mut r))).is_ok(), "push after a panic in push fails");
                    a.push(nv);
                }
            }
            "push"
        }
        3..=5 => {
            // insert
            let key = match m {
                M::Obj(o) if !o.is_empty() && c.t.chance(2, 3) => {
                    let i = c.t.below(o.len());
                    o[i].0.clone()
                }
                _ => gen_key(c),
            };
            let f = fuse(0, busy);
            let u = f.run("insert", || drop(v.insert(&key, Item::new(&f, build(&nv, &mut r)))))?;
            same(v, m, "insert")?;
            if let M::Obj(o) = m {
                ensure!(u, "insert into an object never converts its argument");
                let there = o.iter().any(|x| x.0 == key);
                ensure!(v.has_key(&key) == there, "after a panic in insert: has_key({:?}) is {}", clip(&key, 60), !there);
                if c.t.chance(1, 2) {
                    ensure!(v.insert(&key, Item::new(&fuse(9, 0), build(&nv, &mut r))).is_ok(), "insert after a panic in insert fails");
                    put(o, &key, nv);
                }
            }
            "insert"
        }
        6 => {
            let n = if let M::Arr(a) = m { a.len() } else { 0 };
            let k = c.t.below(n + 1);
            let f = fuse(k, busy);
            let item = Item::new(&f, JsonValue::Null);
            let u = f.run("contains", || drop(v.contains(item)))?;
            ensure!(u == (k < n), "contains: user code that panics at comparison {} of {}: {}", k, n, if u { "panicked" } else { "never reached" });
            same(v, m, "contains")?;
            "contains"
        }
        7 => {
            let f = fuse(c.t.below(60), busy);
            let mut g = Gen(f.clone(), vec![]);
            let u = f.run("generator", || drop(g.write_json(v)))?;
            let want = v.dump();
            ensure!(if u { want.as_bytes().starts_with(&g.1) } else { want.as_bytes() == &g.1[..] }, "a generator that panics got {} of {}", clip(&jstr(&String::from_utf8_lossy(&g.1)), 200), clip(&want, 200));
            same(v, m, "a generator")?;
            "generator"
        }
        8 => {
            let kind = c.t.below(COLLECTIONS);
            let n = c.size(40);
            let k = c.t.below(n + 2);
            let key = gen_string(c, 40);
            if m.nodes() < 60 {
                collection_case(kind, n, k, busy, &key, v, m)?;
            }
            COLLECTION_NAMES[kind]
        }
        _ => {
            let way = c.t.below(WRITES);
            let spaces = c.t.below(6) as u16;
            if m.nodes() > 300 {
                return Ok("skipped");
            }
            let len = text_of(way, v, spaces).len();
            let left = match c.t.below(4) {
                0 => len.saturating_sub(1 + c.t.below(3)),
                1 => c.t.below(12),
                _ => c.t.below(len + 2),
            };
            let piece = *c.t.pick(&[1, 2, 7, usize::MAX, usize::MAX]);
            write_case(way, v, spaces, left, piece, busy)?;
            same(v, m, WRITE_NAMES[way])?;
            WRITE_NAMES[way]
        }
    })
}

pub fn c32(c: &mut Ctx) -> R {
    let mut m = gen_value(c, Shape { nodes: 20, depth: 4, strlen: 60, nan: true });
    let s = c.t.seed();
    let mut v = build(&m, &mut Rng::new(s));
    let n = 1 + c.size(24);
    let mut by: Vec<(JsonValue, M)> = vec![(v.clone(), m.clone())];
    let mut trail: Vec<&'static str> = vec![];
    let mut h = m.hash();
    for i in 0..n {
        let name = if c.t.chance(1, 3) {
            doc_step(c, &mut v, &mut m)?;
            "step"
        } else {
            let x = bomb(c, &mut v, &mut m).map_err(|e| format!("operation {} after {:?}: {}", i, &trail[trail.len().saturating_sub(6)..], e))?;
            c.f(x);
            x
        };
        trail.push(name);
        h = h.rotate_left(7) ^ hash_bytes(name.as_bytes());
        check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after operation {} ({:?}): {}", i, &trail[trail.len().saturating_sub(6)..], e))?;
        if by.len() < 4 && c.t.chance(1, 4) {
            by.push((v.clone(), m.clone()));
        }
        if m.nodes() > 1500 {
            break;
        }
    }
    for (j, (v, m)) in by.iter().enumerate() {
        check_same(v, m, NumMode::Exact).map_err(|e| format!("bystander {} changed: {}", j, e))?;
    }
    c.describe(|| format!("{:?} -> {}", &trail[..trail.len().min(12)], clip(&m.show(), 200)));
    c.nt(h);
    Ok(())
}

// enumerated: every byte of some texts, every call of conversions of up to
// twelve items and some of large ones

fn sample(i: usize) -> M {
    let long = "a string of more than thirty bytes with \u{1} and \"\u{e9}\"\n";
    match i {
        0 => M::Arr(vec![M::Null, M::Bool(true), M::int(-12), M::Str("short".into()), M::Arr(vec![]), M::Obj(vec![])]),
        1 => M::Obj(vec![("a".into(), M::int(5)), ("b\n".into(), M::Obj(vec![("c".into(), M::Str(long.into())), ("d".into(), M::Arr(vec![M::NaN, M::int(-7)]))])), (long.into(), M::Bool(false))]),
        _ => M::Str(long.into()),
    }
}
const SAMPLES: usize = 3;
const SMALL_N: usize = 12;

pub fn c32_enums() -> u64 {
    (SAMPLES * WRITES + COLLECTIONS * (SMALL_N + 1) + COLLECTIONS + 3) as u64
}
pub fn c32_enum(c: &mut Ctx, i: u64) -> R {
    let mut i = i as usize;
    if i < SAMPLES * WRITES {
        let (m, way) = (sample(i / WRITES), i % WRITES);
        let v = build(&m, &mut Rng::new(i as u64));
        let len = text_of(way, &v, 2).len();
        let step = if c.small { 7 } else { 1 };
        for left in (0..=len).step_by(step) {
            for (busy, piece) in [(0, usize::MAX), (1, 1), (3, usize::MAX)] {
                write_case(way, &v, 2, left, piece, busy)?;
                c.evals += 1;
            }
        }
        same(&v, &m, WRITE_NAMES[way])?;
        c.fn_("writer_positions", len as u64);
        return Ok(());
    }
    i -= SAMPLES * WRITES;
    let mx = sample(1);
    let x = build(&mx, &mut Rng::new(7));
    if i < COLLECTIONS * (SMALL_N + 1) {
        let (kind, n) = (i % COLLECTIONS, i / COLLECTIONS);
        for k in 0..=2 * n + 1 {
            collection_case(kind, n, k, k % 4, "key", &x, &mx)?;
            c.evals += 1;
        }
        c.f("conversions_enumerated");
        return Ok(());
    }
    i -= COLLECTIONS * (SMALL_N + 1);
    if c.small {
        return Ok(());
    }
    if i < COLLECTIONS {
        let one = JsonValue::from("some text");
        for n in [33usize, 300, 70_000] {
            for k in [0, 1, 31, 32, 33, 255, 256, 65_535, 65_536, n - 1] {
                if k < n && (n < 1000 || k > 200) {
                    collection_case(i, n, k, 0, "k", &one, &M::Str("some text".into()))?;
                    c.evals += 1;
                }
            }
        }
        c.f("large_conversions");
        return Ok(());
    }
    i -= COLLECTIONS;
    let n = 70_000;
    match i {
        0 => {
            // a large array: push and contains
            let m = M::Arr((0..n).map(|i| M::int(i as i64)).collect());
            let mut v = build(&m, &mut Rng::new(1));
            let f = fuse(0, 1);
            f.run("push", || drop(v.push(Item::new(&f, "x".into()))))?;
            for k in [0, 1, 255, 256, 65_535, 65_536, n - 1] {
                let f = fuse(k, 0);
                let item = Item::new(&f, JsonValue::Null);
                ensure!(f.run("contains", || drop(v.contains(item)))?, "contains over {} items never compares item {}", n, k);
                c.evals += 1;
            }
            same(&v, &m, "push")?;
        }
        1 => {
            // large objects: insert of old and new keys, at every size where they may grow
            let mut m: Vec<(String, M)> = vec![];
            let mut v = JsonValue::new_object();
            for i in 0..5000 {
                let key = format!("key {}", i);
                if i < 70 || (i as u64).is_power_of_two() || (i as u64 + 1).is_power_of_two() {
                    let old = if i == 0 { String::new() } else { format!("key {}", i / 2) };
                    for k in [&key, &old] {
                        let f = fuse(0, 0);
                        ensure!(f.run("insert", || drop(v.insert(k, Item::new(&f, "x".into()))))?, "insert never converts its argument");
                        ensure!(v.len() == i && v.has_key(k) == (m.iter().any(|e| e.0 == *k)), "after a panic in insert of {:?} into {} entries: {} entries, has_key is {}", k, i, v.len(), v.has_key(k));
                        c.evals += 1;
                    }
                    if i < 300 {
                        check_same(&v, &M::Obj(m.clone()), NumMode::Exact).map_err(|e| format!("after a panic in insert: {}", e))?;
                    }
                }
                ensure!(v.insert(&key, i).is_ok(), "insert fails");
                m.push((key, M::int(i as i64)));
            }
            same(&v, &M::Obj(m), "insert")?;
        }
        _ => {
            // large texts
            let s: String = (0..100_000).map(|i| if i % 1000 == 999 { '\n' } else { 'x' }).collect();
            let m = M::Arr(vec![M::Str(s), M::Arr((0..20_000).map(|i| M::int(i as i64)).collect())]);
            let v = build(&m, &mut Rng::new(1));
            for way in 0..WRITES {
                let len = text_of(way, &v, 1).len();
                for left in [0, 1, 4095, 4096, 8191, 8192, 8193, 65_535, 65_536, 99_999, 100_110, len - 1, len] {
                    write_case(way, &v, 1, left, usize::MAX, 0)?;
                    c.evals += 1;
                }
            }
            same(&v, &m, "write")?;
        }
    }
    c.f("large_documents");
    Ok(())
}
