//! C20 sharing between and moving to threads.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::obj::doc_step;
use json::JsonValue;
use std::sync::atomic::{AtomicUsize, Ordering::*};

/// The check that JsonValue is Send and Sync is made separately (a probe
/// program), so that this harness compiles either way.
pub struct Any<T>(pub T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

/// One read-only operation on a shared value, reduced to a number.
fn read_op(v: &JsonValue, op: usize, keys: &[String]) -> u64 {
    match op % 12 {
        0 => hash_bytes(v.dump().as_bytes()),
        1 => hash_bytes(v.pretty(3).as_bytes()),
        2 => {
            let mut h = 1u64;
            for k in keys {
                h = h.rotate_left(3) ^ v.has_key(k) as u64 ^ hash_bytes(v[k.as_str()].dump().as_bytes());
            }
            h
        }
        3 => {
            let mut h = 3u64;
            for (k, x) in v.entries() {
                h = h.rotate_left(5) ^ hash_bytes(k.as_bytes()) ^ x.len() as u64;
            }
            for x in v.members() {
                h = h.rotate_left(5) ^ x.is_string() as u64 ^ hash_bytes(x.as_str().unwrap_or("").as_bytes());
            }
            h
        }
        4 => {
            let c = v.clone();
            (c == *v) as u64 ^ hash_bytes(c.dump().as_bytes())
        }
        5 => {
            let mut h = 5u64;
            for (k, _) in v.entries().rev() {
                h = h.rotate_left(7) ^ hash_bytes(k.as_bytes());
                if let JsonValue::Object(o) = v {
                    h ^= o.get(k).map_or(0, |x| hash_bytes(x.dump().as_bytes()));
                }
            }
            h
        }
        6 => {
            let mut out = vec![];
            let _ = v.write(&mut out);
            hash_bytes(&out)
        }
        7 => (v == v) as u64 + 2 * v.contains("x") as u64 + 4 * v.contains(3) as u64 + 8 * v.len() as u64,
        8 => {
            let mut h = 8u64;
            for i in 0..v.len() + 2 {
                h = h.rotate_left(3) ^ hash_bytes(v[i].to_string().as_bytes()) ^ v[i].as_f64().map_or(0, f64::to_bits) ^ v[i].as_i64().unwrap_or(0) as u64;
            }
            h
        }
        9 => hash_bytes(v.to_string().as_bytes()),
        10 => hash_bytes(format!("{:?}", v).as_bytes()),
        _ => model_of(v).hash(),
    }
}

/// What one thread does on its own.
fn own_work(seed: u64, small: bool) -> u64 {
    let mut c = new_ctx(Dict::default(), if small { "miri" } else { "" });
    c.t = Tape::new(vec![], Some(Rng::new(seed)));
    let m = gen_value(&mut c, Shape { nodes: if small { 3 } else { 12 }, depth: 4, strlen: if small { 34 } else { 60 }, nan: false });
    let (t, _) = emit(&mut c, &m);
    let bad = mutate_text(&mut c, &t);
    let mut h = 0;
    if let Ok(v) = json::parse(&t) {
        h ^= hash_bytes(v.dump().as_bytes()) ^ model_of(&v).hash();
    }
    h = h.rotate_left(9);
    h ^= match json::parse(&bad) {
        Ok(v) => hash_bytes(v.pretty(2).as_bytes()),
        Err(e) => hash_bytes(format!("{:?} {}", e, e).as_bytes()),
    };
    let v = build(&m, &mut Rng::new(seed));
    h.rotate_left(9) ^ hash_bytes(v.dump().as_bytes()) ^ hash_bytes(v.pretty(1).as_bytes())
}

/// Mutate a value that came from another thread; its model goes along.
fn mutate_own(v: &mut JsonValue, m: &mut M, seed: u64, steps: usize) -> R {
    let mut c = new_ctx(Dict::default(), if steps == 1 { "miri" } else { "" });
    c.t = Tape::new(vec![], Some(Rng::new(seed)));
    for _ in 0..steps {
        doc_step(&mut c, v, m)?;
        if m.nodes() > 500 {
            break;
        }
    }
    check_same(v, m, NumMode::Exact)
}

struct Gate(AtomicUsize, usize);
impl Gate {
    /// Spin until all threads are here, so that they run together.
    fn wait(&self) {
        self.0.fetch_add(1, SeqCst);
        let mut n = 0;
        while self.0.load(SeqCst) < self.1 {
            n += 1;
            if n > 50 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

pub fn c20(c: &mut Ctx) -> R {
    let small = c.small;
    let m = gen_value(c, if small { Shape { nodes: 3, depth: 2, strlen: 36, nan: true } } else { Shape { nodes: 30, depth: 4, strlen: 80, nan: true } });
    // objects whose keys moved through reallocations are the interesting ones
    let m = match (c.t.below(3), m) {
        (0, m) => m,
        (_, m) => {
            let n = if small { 1 + c.t.below(2) } else { c.size(40) };
            let mut o = vec![("value".to_string(), m)];
            for i in 0..n {
                let k = if i % 5 == if small { 1 } else { 4 } { format!("a key of more than thirty-two bytes {}", i) } else { format!("k{}", i) };
                o.push((k, M::Arr(vec![M::int(i as i64), M::Str("x".into())])));
            }
            M::Obj(o)
        }
    };
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| clip(&m.show(), 300));
    let mut keys: Vec<String> = v.entries().take(6).map(|e| e.0.to_string()).collect();
    keys.push("missing".into());
    let nthreads = if small { 2 } else { 2 + c.t.below(5) };
    let rounds = if small { 1 } else { 4 };
    // what a single thread sees; every operation is first done by threads on a
    // value nobody has read yet in half of the cases (lazy state shows there)
    let fresh_first = c.t.chance(1, 2);
    let twin = build(&m, &mut Rng::new(s));
    let plan: Vec<Vec<usize>> = (0..nthreads).map(|_| (0..rounds).map(|_| { let op = c.t.below(12); if small && op >= 9 { op - 9 } else { op } }).collect()).collect();
    let used = |op: usize| !small || plan.iter().any(|p| p.contains(&op));
    let want: Vec<u64> = (0..12).map(|op| if used(op) { read_op(&twin, op, &keys) } else { 0 }).collect();
    if !fresh_first {
        for op in 0..12 {
            ensure!(!used(op) || read_op(&v, op, &keys) == want[op], "reading operation {} differs between equal values", op);
        }
    }
    let own: Vec<u64> = (0..nthreads).map(|_| c.t.seed()).collect();
    let own_want: Vec<u64> = own.iter().map(|&s| own_work(s, small)).collect();
    c.nt(m.hash() ^ hash_bytes(format!("{:?}", plan).as_bytes()));

    let shared = Any(&v);
    let gate = Gate(AtomicUsize::new(0), nthreads);
    let results: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (shared, gate, plan, keys, want, own, own_want) = (&shared, &gate, &plan, &keys, &want, &own, &own_want);
                spawn_named(sc, t, move || -> R {
                    gate.wait();
                    for &op in &plan[t] {
                        let got = read_op(shared.get(), op, keys);
                        ensure!(got == want[op], "thread {} of {}: reading operation {} gives another result than alone", t, plan.len(), op);
                    }
                    ensure!(own_work(own[t], small) == own_want[t], "thread {}: parsing and serializing gives another result than alone (seed {})", t, own[t]);
                    let got = read_op(shared.get(), plan[t][0], keys);
                    ensure!(got == want[plan[t][0]], "thread {}: reading operation {} changes later", t, plan[t][0]);
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(thread_panic()))).collect()
    });
    for r in results {
        r?;
    }
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after reading in threads: {}", e))?;
    c.fn_("shared_reads", (nthreads * (rounds + 1)) as u64);

    // clones move to other threads, are mutated and dropped there, or come back
    let steps = if small { 1 } else { 1 + c.t.below(12) };
    let seeds: Vec<u64> = (0..nthreads).map(|_| c.t.seed()).collect();
    let gate = Gate(AtomicUsize::new(0), nthreads);
    let items: Vec<Any<(JsonValue, M)>> = (0..nthreads).map(|_| Any((v.clone(), m.clone()))).collect();
    let results: Vec<Result<Any<(JsonValue, M)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = items
            .into_iter()
            .zip(seeds)
            .enumerate()
            .map(|(t, (item, seed))| {
                let (gate, shared) = (&gate, &shared);
                spawn_named(sc, t, move || -> Result<Any<(JsonValue, M)>, String> {
                    gate.wait();
                    let (mut x, mut mx) = item.into();
                    mutate_own(&mut x, &mut mx, seed, steps).map_err(|e| format!("mutation in a thread: {}", e))?;
                    let y: JsonValue = JsonValue::clone(shared.get());
                    drop(x);
                    let mut my = model_of(&y);
                    let mut y = y;
                    mutate_own(&mut y, &mut my, seed ^ 99, steps).map_err(|e| format!("mutation of a clone in a thread: {}", e))?;
                    Ok(Any((y, my)))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(thread_panic()))).collect()
    });
    for r in results {
        let (x, mx) = r?.into();
        check_same(&x, &mx, NumMode::Exact).map_err(|e| format!("a value from another thread: {}", e))?;
        c.f("moved_between_threads");
    }
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("the original after its clones were mutated in threads: {}", e))?;
    // the last owner drops elsewhere
    let last = Any(v);
    let ok = std::thread::scope(|sc| sc.spawn(move || drop(last.into())).join().is_ok());
    ensure!(ok, "{} (dropping)", thread_panic());
    Ok(())
}

/// Threads differ in whether and how they are named, as those of real programs do.
pub fn spawn_named<'s, 'e, T: Send + 's>(sc: &'s std::thread::Scope<'s, 'e>, t: usize, f: impl FnOnce() -> T + Send + 's) -> std::thread::ScopedJoinHandle<'s, T> {
    let b = std::thread::Builder::new();
    let b = match t % 4 {
        0 => b,
        1 => b.name("main".into()),
        _ => b.name(format!("worker-{}{}", "x".repeat(t), t)),
    };
    b.spawn_scoped(sc, f).expect("spawning a thread")
}

// ------------------------------------------------------------ hammers

/// Many threads do the same short operations over and over at the same time,
/// each knowing what a single thread gets. State that calls share in secret
/// (a memo, a scratch buffer, a cache) is torn sooner or later.
pub fn c20_enums() -> u64 {
    20
}

fn hammer(c: &mut Ctx, name: &'static str, weight: u64, f: &(dyn Fn(usize, u64) -> R + Sync)) -> R {
    // weight: roughly the cost of one call in 50 ns
    let budget: u64 = match c.variant.as_str() {
        "tsan" => 40_000,
        "cov" => 60_000,
        "checked" => 100_000,
        _ => 2_000_000,
    };
    let iters = budget / weight;
    let n = if c.variant == "tsan" { 4 } else { 8 };
    let gate = Gate(AtomicUsize::new(0), n);
    let stop = AtomicUsize::new(0);
    let results: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (gate, stop) = (&gate, &stop);
                spawn_named(sc, t, move || -> R {
                    gate.wait();
                    for i in 0..iters {
                        if stop.load(Relaxed) != 0 {
                            break;
                        }
                        if let Err(e) = f(t, i) {
                            stop.store(1, Relaxed);
                            return Err(format!("{} (thread {} of {}, repetition {})", e, t, n, i));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(thread_panic()))).collect()
    });
    for r in results {
        r?;
    }
    c.f(name);
    c.fn_("hammered_operations", iters * n as u64);
    Ok(())
}

fn step(t: usize, i: u64) -> u64 {
    let mut r = Rng(i.wrapping_mul(31).wrapping_add(t as u64));
    r.next()
}

/// Texts and what becomes of them.
fn text_table(kind: u64) -> Vec<String> {
    let mut r = Rng::new(77 + kind);
    let mut out = vec![];
    match kind {
        0 => {
            for i in 0..40usize {
                out.push(format!("[\"{}\\n{}\\u00e{:x}\\ud83d\\ude0e\"]", fill_string(i, 0, &mut r), fill_string(40 - i, 0, &mut r), i % 16));
            }
        }
        1 => {
            for i in 0..60u64 {
                out.push(format!("[{},-{}.{}e{},{}e-{}]", r.next() >> (i % 64), i, r.next() >> (i % 50), i % 30, i * i, i % 33));
            }
        }
        2 => {
            for i in 0..40usize {
                out.push(format!("{{\"{}\":{},\"{}\":[{{\"{}\":null}}]}}", "a".repeat(i), i, "b".repeat(40 - i), "c".repeat(i / 2)));
            }
        }
        _ => {
            for i in 0..60usize {
                out.push(format!("[{}\"{}\",{}]", "\n ".repeat(i % 7), "é".repeat(i % 11), ["x", "tru", "01", "\"\\q\"", "\"\\ud800\"", "1.", "nulL", "-", "{1", "\u{1}"][i % 10]));
                out.push(format!("[{}", "[".repeat(i)));
            }
        }
    }
    out
}

fn outcome(t: &str) -> String {
    match json::parse(t) {
        Ok(v) => v.dump(),
        Err(e) => format!("{:?} / {}", e, e),
    }
}

pub fn c20_enum(c: &mut Ctx, i: u64) -> R {
    if c.small {
        return Ok(());
    }
    c.describe(|| format!("hammer number {}", i));
    c.nt(hash_bytes(format!("hammer {}", i).as_bytes()));
    match i {
        // lookups, keys of one length at a time, each twice in a row
        0..=5 => {
            let lens: Vec<usize> = (1..=40).chain([63, 64, 65, 255, 256, 300]).filter(|l| *l as u64 % 6 == i).collect();
            for &l in &lens {
                let mut o = json::object::Object::new();
                let keys: Vec<String> = (0..6u8).map(|k| format!("{}{}", (b'a' + k) as char, fill_string(l - 1, 0, &mut Rng::new(k as u64 * 100 + l as u64)))).collect();
                for (k, key) in keys.iter().enumerate() {
                    o.insert(key, k.into());
                }
                let v = JsonValue::Object(o.clone());
                let (vs, os) = (Any(&v), Any(&o));
                hammer(c, "lookup", 20, &|t, n| {
                    let (v, o): (&JsonValue, &json::object::Object) = (vs.get(), os.get());
                    let k = (step(t, n) % keys.len() as u64) as usize;
                    for _ in 0..2 {
                        ensure!(v[keys[k].as_str()] == k && o.get(&keys[k]).map_or(false, |x| *x == k) && v.has_key(&keys[k]), "key {:?} finds {} instead of {}", clip(&keys[k], 50), v[keys[k].as_str()].dump(), k);
                    }
                    Ok(())
                })?;
            }
            Ok(())
        }
        // own objects, inserted to and removed from
        6 | 7 => {
            let keys: Vec<String> = (0..48).map(|k| if i == 6 { format!("{:08}", k) } else { "x".repeat(k + 1) }).collect();
            hammer(c, "own_object", 400, &|t, n| {
                let mut o = json::object::Object::new();
                let a = step(t, n) as usize;
                for j in 0..6 {
                    o.insert(&keys[(a + j * 7) % 48], j.into());
                }
                o.remove(&keys[(a + 14) % 48]);
                o.insert(&keys[(a + 7) % 48], "again".into());
                let want = [0usize, 1, 3, 4, 5];
                ensure!(o.len() == 5, "own object has {} entries", o.len());
                for ((k, x), j) in o.iter().zip(want) {
                    ensure!(k == keys[(a + j * 7) % 48] && if j == 1 { *x == "again" } else { *x == j }, "own object: entry {} is {:?} {}", j, clip(k, 50), x.dump());
                    ensure!(o.get(k).map_or(false, |y| std::ptr::eq(x, y)), "own object: get of {:?}", clip(k, 50));
                }
                Ok(())
            })
        }
        // numbers to text
        8 | 9 => {
            let mut r = Rng::new(i);
            let nums: Vec<JsonValue> = (0..64)
                .map(|k| match k % 4 {
                    0 => JsonValue::from(r.next() >> (k % 64)),
                    1 => JsonValue::from(f64::from_bits(r.next() & !(1 << 62))),
                    2 => JsonValue::from((r.next() >> 40) as f64 / 1000.0),
                    _ => JsonValue::Number(json::number::Number::from_parts(k % 8 < 4, r.next() >> (k % 60), (k as i16) - 32)),
                })
                .collect();
            let want: Vec<String> = nums.iter().map(|x| x.dump()).collect();
            let all = JsonValue::Array(nums.clone());
            let all_want = all.dump();
            let (ns, al) = (Any(&nums), Any(&all));
            hammer(c, "numbers_to_text", 20, &|t, n| {
                let k = (step(t, n) % 64) as usize;
                let x: &JsonValue = &ns.get()[k];
                let got = if i == 8 { x.dump() } else { x.to_string() };
                ensure!(got == want[k], "number {} written as {}", want[k], got);
                if n % 64 == 0 {
                    let d = al.get().dump();
                    ensure!(d == all_want, "array of numbers written as {}", clip(&d, 300));
                }
                Ok(())
            })
        }
        // numbers to and from machine numbers
        10 => {
            let mut r = Rng::new(i);
            let fl: Vec<f64> = (0..64).map(|k| if k % 2 == 0 { f64::from_bits(r.next() & !(1 << 62)) } else { (r.next() >> 30) as f64 / 4096.0 }).collect();
            let want: Vec<_> = fl.iter().map(|&f| { let v = JsonValue::from(f); (v.as_number().map(|n| n.as_parts()), v.as_f64().map(f64::to_bits), v.as_f32().map(f32::to_bits), v.as_u64(), v.as_i32(), v.as_fixed_point_u64(3)) }).collect();
            hammer(c, "numbers_converted", 10, &|t, n| {
                let k = (step(t, n) % 64) as usize;
                let v = JsonValue::from(fl[k]);
                let got = (v.as_number().map(|n| n.as_parts()), v.as_f64().map(f64::to_bits), v.as_f32().map(f32::to_bits), v.as_u64(), v.as_i32(), v.as_fixed_point_u64(3));
                ensure!(got == want[k], "{:?} converted to {:?}, alone to {:?}", fl[k], got, want[k]);
                Ok(())
            })
        }
        // parsing
        11..=14 => {
            let texts = text_table(i - 11);
            let want: Vec<String> = texts.iter().map(|t| outcome(t)).collect();
            hammer(c, "parsed", 60, &|t, n| {
                let k = (step(t, n) % texts.len() as u64) as usize;
                let got = outcome(&texts[k]);
                ensure!(got == want[k], "{} gives {}, alone {}", jstr(&texts[k]), clip(&got, 200), clip(&want[k], 200));
                Ok(())
            })
        }
        // strings to text, and the layouts
        15 | 16 => {
            let mut r = Rng::new(i);
            let vals: Vec<JsonValue> = (0..48)
                .map(|k| if i == 15 { JsonValue::from(fill_string(k, 2, &mut r)) } else { let s = fill_string(k, 3, &mut r); json::array![s.as_str(), json::object! { "k": s.clone(), "n": k, "a": [[], [k, s.as_str()]] }] })
                .collect();
            let want: Vec<(String, String, String)> = vals.iter().map(|v| (v.dump(), v.pretty(3), v.to_string())).collect();
            let vs = Any(&vals);
            hammer(c, "written", 60, &|t, n| {
                let k = (step(t, n) % 48) as usize;
                let v: &JsonValue = &vs.get()[k];
                let (name, got, w) = match n % 3 {
                    0 => ("dump", v.dump(), &want[k].0),
                    1 => ("pretty", v.pretty(3), &want[k].1),
                    _ => ("to_string", v.to_string(), &want[k].2),
                };
                ensure!(got == *w, "{} gives {}, alone {}", name, clip(&jstr(&got), 200), clip(&jstr(w), 200));
                Ok(())
            })
        }
        // clones, comparisons, reads of one shared document
        17 => {
            let m = M::Obj((0..30usize).map(|k| (if k % 3 == 0 { format!("a key longer than thirty-two bytes, number {}", k) } else { format!("k{}", k) }, M::Arr(vec![M::int(k as i64), M::Str("v".repeat(k + 10)), M::Obj(vec![("x".into(), M::Null)])]))).collect());
            let v = build(&m, &mut Rng::new(4));
            let w = build(&m, &mut Rng::new(5));
            let want = v.dump();
            let (vs, ws) = (Any(&v), Any(&w));
            hammer(c, "cloned_and_compared", 600, &|_, n| {
                let (v, w): (&JsonValue, &JsonValue) = (vs.get(), ws.get());
                let x = v.clone();
                ensure!(x == *w && *v == *w, "equal values differ");
                if n % 4 == 0 {
                    ensure!(x.dump() == want, "the clone is {}", clip(&x.dump(), 300));
                }
                Ok(())
            })?;
            check_same(&v, &m, NumMode::Exact)
        }
        // conversions of text
        18 => {
            let mut r = Rng::new(i);
            let strs: Vec<String> = (0..64).map(|k| fill_string(k, 5 * (k % 2), &mut r)).collect();
            hammer(c, "strings_converted", 12, &|t, n| {
                let k = (step(t, n) % 64) as usize;
                let mut v = if n % 2 == 0 { JsonValue::from(strs[k].as_str()) } else { JsonValue::from(strs[k].clone()) };
                ensure!(v.as_str() == Some(&strs[k]) && v == strs[k].as_str(), "{:?} becomes {:?}", strs[k], v.as_str());
                let got = v.take_string();
                ensure!(got.as_ref() == Some(&strs[k]), "take_string of {:?} gives {:?}", strs[k], got);
                Ok(())
            })
        }
        // every thread something else
        _ => {
            let tables: Vec<Vec<String>> = (0..4).map(text_table).collect();
            let want: Vec<Vec<String>> = tables.iter().map(|t| t.iter().map(|x| outcome(x)).collect()).collect();
            let strs: Vec<String> = (0..48).map(|k| fill_string(k, 2, &mut Rng::new(k as u64))).collect();
            let esc: Vec<String> = strs.iter().map(|s| JsonValue::from(s.as_str()).dump()).collect();
            let fl: Vec<f64> = (0..48).map(|k| 1.1f64.powi(k * 20 - 400)).collect();
            let txt: Vec<String> = fl.iter().map(|&f| JsonValue::from(f).to_string()).collect();
            hammer(c, "mixed", 60, &|t, n| {
                let x = step(t, n);
                match t % 6 {
                    k @ 0..=3 => {
                        let j = (x % tables[k].len() as u64) as usize;
                        ensure!(outcome(&tables[k][j]) == want[k][j], "{} gives {}, alone {}", jstr(&tables[k][j]), outcome(&tables[k][j]), want[k][j]);
                    }
                    4 => {
                        let j = (x % 48) as usize;
                        let d = JsonValue::from(strs[j].as_str()).dump();
                        ensure!(d == esc[j], "{:?} written as {}", strs[j], d);
                    }
                    _ => {
                        let j = (x % 48) as usize;
                        let d = JsonValue::from(fl[j]).to_string();
                        ensure!(d == txt[j], "{:?} written as {}", fl[j], d);
                    }
                }
                Ok(())
            })
        }
    }
}
