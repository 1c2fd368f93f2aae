//! C16 Object as an ordered map, C17 document mutation, C18 equality, C19 independence.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use json::number::Number;
use json::object::Object;
use json::JsonValue;

// ------------------------------------------------------------ C16

pub struct Map {
    pub o: Object,
    pub m: Vec<(String, M)>,
}

impl Map {
    pub fn find(&self, k: &str) -> Option<usize> {
        self.m.iter().position(|x| x.0 == k)
    }
    pub fn put(&mut self, k: &str, v: M) {
        match self.find(k) {
            Some(i) => self.m[i].1 = v,
            None => self.m.push((k.to_string(), v)),
        }
    }
}

pub fn check_map(o: &Object, m: &[(String, M)]) -> R {
    ensure!(o.len() == m.len(), "len() is {}, the map has {} entries", o.len(), m.len());
    ensure!(o.is_empty() == m.is_empty(), "is_empty() is {}", o.is_empty());
    let mut it = o.iter();
    ensure!(it.len() == m.len(), "iterator len() is {}", it.len());
    for (i, (k, v)) in m.iter().enumerate() {
        match it.next() {
            None => return Err(format!("iteration ends after {} of {} entries", i, m.len())),
            Some((gk, gv)) => {
                ensure!(gk == k, "entry {} has key {:?}, expected {:?}", i, clip(gk, 100), clip(k, 100));
                check_same(gv, v, NumMode::Exact).map_err(|e| format!("entry {} ({:?}): {}", i, clip(k, 60), e))?;
                match o.get(k) {
                    None => return Err(format!("get does not find key {:?} (entry {})", clip(k, 100), i)),
                    Some(g) => ensure!(std::ptr::eq(g, gv), "get of key {:?} finds another entry than number {}", clip(k, 100), i),
                }
            }
        }
    }
    ensure!(it.next().is_none() && it.next().is_none() && it.len() == 0, "iteration yields more than {} entries", m.len());
    Ok(())
}

fn small_val(c: &mut Ctx) -> M {
    match c.t.below(8) {
        0 => M::Str(gen_string(c, 50)),
        1 => M::Arr(vec![M::int(1), M::Str("in an array".into())]),
        2 => M::Obj(vec![("inner".into(), M::Bool(true)), ("a key that is longer than thirty-two bytes".into(), M::Null)]),
        3 => M::Null,
        _ => M::int(c.t.below(256) as i64),
    }
}

fn fresh_val(m: &M) -> JsonValue {
    build(m, &mut Rng::new(5))
}

pub fn map_op(c: &mut Ctx, x: &mut Map, keys: &[String]) -> R {
    let k = if keys.is_empty() || c.t.chance(1, 12) { gen_key(c) } else { keys[c.t.below(keys.len())].clone() };
    let op = c.t.below(26);
    match op {
        0..=5 => {
            let v = small_val(c);
            x.o.insert(&k, fresh_val(&v));
            if x.find(&k).is_some() { c.f("overwrite") } else { c.f("insert") }
            x.put(&k, v);
        }
        6 | 7 => {
            let v = small_val(c);
            match c.t.below(3) {
                0 => x.o[k.as_str()] = fresh_val(&v),
                1 => x.o[k.clone()] = fresh_val(&v),
                _ => x.o[&k] = fresh_val(&v),
            }
            x.put(&k, v);
            c.f("index_assign");
        }
        8..=11 => {
            // removal, mostly of a key that is there
            let k = if !x.m.is_empty() && c.t.chance(2, 3) {
                let i = match c.t.below(4) {
                    0 => 0,
                    1 => x.m.len() - 1,
                    _ => c.t.below(x.m.len()),
                };
                x.m[i].0.clone()
            } else {
                k
            };
            let got = x.o.remove(&k);
            match (x.find(&k), got) {
                (None, None) => c.f("remove_absent"),
                (Some(i), Some(g)) => {
                    let (_, want) = x.m.remove(i);
                    check_same(&g, &want, NumMode::Exact).map_err(|e| format!("removed value: {}", e))?;
                    c.f("remove");
                }
                (None, Some(_)) => return Err(format!("remove of the absent key {:?} returns a value", clip(&k, 100))),
                (Some(_), None) => return Err(format!("remove of the present key {:?} returns None", clip(&k, 100))),
            }
            ensure!(x.o.get(&k).is_none(), "key {:?} found after its removal", clip(&k, 100));
        }
        12 => {
            let i = x.find(&k);
            match (x.o.get_mut(&k), i) {
                (None, None) => c.f("get_mut_absent"),
                (Some(g), Some(i)) => {
                    check_same(g, &x.m[i].1, NumMode::Exact).map_err(|e| format!("get_mut: {}", e))?;
                    let v = small_val(c);
                    *g = fresh_val(&v);
                    x.m[i].1 = v;
                    c.f("get_mut");
                }
                (g, i) => return Err(format!("get_mut of {:?} finds {} but the map says {}", clip(&k, 100), g.is_some(), i.is_some())),
            }
        }
        13 | 14 => {
            let got = x.o.get(&k);
            match x.find(&k) {
                None => {
                    ensure!(got.is_none(), "get finds the absent key {:?}", clip(&k, 100));
                    ensure!(x.o[k.as_str()].is_null() && x.o[&k].is_null() && x.o[k.clone()].is_null(), "indexing by the absent key {:?}", clip(&k, 100));
                }
                Some(i) => {
                    let g = match got {
                        Some(g) => g,
                        None => return Err(format!("get does not find the present key {:?}", clip(&k, 100))),
                    };
                    check_same(g, &x.m[i].1, NumMode::Exact)?;
                    ensure!(std::ptr::eq(g, &x.o[k.as_str()]) && std::ptr::eq(g, &x.o[&k]) && std::ptr::eq(g, &x.o[k.clone()]), "indexing by {:?} differs from get", clip(&k, 100));
                }
            }
            c.f("get");
        }
        15 => {
            // iterate from both ends
            let n = x.m.len();
            let (mut lo, mut hi) = (0, n);
            let mut it = x.o.iter();
            while lo < hi {
                ensure!(it.len() == hi - lo && it.size_hint() .0 <= hi - lo, "iterator len() is {} with {} left", it.len(), hi - lo);
                let back = c.t.chance(1, 2);
                let got = if back { it.next_back() } else { it.next() };
                let i = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                match got {
                    None => return Err(format!("iteration from both ends stops early at {} of {}", i, n)),
                    Some((gk, gv)) => {
                        ensure!(gk == x.m[i].0, "iteration {} entry {}: key {:?}, expected {:?}", if back { "backwards" } else { "forwards" }, i, clip(gk, 80), clip(&x.m[i].0, 80));
                        check_same(gv, &x.m[i].1, NumMode::Exact)?;
                    }
                }
                if n > 40 && c.t.chance(1, 20) {
                    break;
                }
            }
            if lo >= hi {
                ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "iterator yields entries after the end");
            }
            c.f("iter_both_ends");
            if n <= 40 || c.t.chance(1, 8) {
                // any program over an iterator answers as the list of the entries does
                let ident = |k: &str, v: *const JsonValue| k.bytes().fold(v as usize, |h, b| (h ^ b as usize).wrapping_mul(0x0100_0193)) | 1;
                let list: Vec<(&str, *const JsonValue)> = x.m.iter().map(|e| (e.0.as_str(), &x.o[e.0.as_str()] as *const JsonValue)).collect();
                let p = super::val::gen_iter_program(c, n.min(5_000));
                let want = super::val::run_iter(list.iter(), |e| ident(e.0, e.1), &p);
                let got = super::val::run_iter(x.o.iter(), |(k, v)| ident(k, v), &p);
                ensure!(got == want, "iter() of {} entries under {:?} differs from the list of the entries", n, p);
                let got = super::val::run_iter(x.o.iter_mut(), |(k, v)| ident(k, v), &p);
                ensure!(got == want, "iter_mut() of {} entries under {:?} differs from the list of the entries", n, p);
                c.fn_("iterator_programs", 2);
            }
        }
        16 => {
            // mutate through the iterator, from both ends
            let n = x.m.len();
            let (mut lo, mut hi) = (0, n);
            let stop = if n > 40 { 40 } else { n };
            let mut it = x.o.iter_mut();
            for s in 0..stop {
                ensure!(it.len() == hi - lo, "iter_mut len() is {} with {} left", it.len(), hi - lo);
                let back = c.t.chance(1, 2);
                let got = if back { it.next_back() } else { it.next() };
                let i = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                match got {
                    None => return Err(format!("iter_mut stops early at {} of {}", i, n)),
                    Some((gk, gv)) => {
                        ensure!(gk == x.m[i].0, "iter_mut {} entry {}: key {:?}, expected {:?}", if back { "backwards" } else { "forwards" }, i, clip(gk, 80), clip(&x.m[i].0, 80));
                        check_same(gv, &x.m[i].1, NumMode::Exact)?;
                        if c.t.chance(1, 3) {
                            let v = M::int(1000 + s as i64);
                            *gv = fresh_val(&v);
                            x.m[i].1 = v;
                        }
                    }
                }
            }
            if lo >= hi {
                ensure!(it.next().is_none() && it.next_back().is_none(), "iter_mut yields entries after the end");
            }
            c.f("iter_mut_both_ends");
        }
        17 => {
            if c.t.chance(1, 3) {
                x.o.clear();
                x.m.clear();
                ensure!(x.o.len() == 0 && x.o.is_empty() && x.o.iter().next().is_none() && x.o.get(&k).is_none(), "entries after clear");
                c.f("clear");
            }
        }
        18 | 19 => {
            // continue with a clone, or drop one
            let cl = x.o.clone();
            check_map(&cl, &x.m).map_err(|e| format!("clone: {}", e))?;
            if c.t.chance(2, 3) {
                let old = std::mem::replace(&mut x.o, cl);
                if c.t.chance(1, 2) {
                    // the old one is still intact
                    drop(x.o.remove(&k));
                    check_map(&old, &x.m).map_err(|e| format!("original after the clone was changed: {}", e))?;
                    x.o = old;
                }
            }
            c.f("clone");
        }
        20 => {
            // move it around in memory
            let o = std::mem::replace(&mut x.o, Object::new());
            let b = Box::new(o);
            let mut v = vec![Object::new(), *b];
            for _ in 0..8 {
                v.push(Object::new());
            }
            x.o = v.swap_remove(1);
            c.f("moved");
        }
        21 => {
            // rebuild from an iterator, with repeated keys
            let mut pairs: Vec<(String, M)> = x.m.clone();
            let extra = small_val(c);
            if !pairs.is_empty() {
                let i = c.t.below(pairs.len());
                let k = pairs[i].0.clone();
                pairs[i].1 = M::Null;
                pairs.push((k, extra.clone()));
                x.m[i].1 = extra;
            }
            // size hints may be anything
            x.o = match c.t.below(3) {
                0 => pairs.iter().map(|(k, v)| (k.as_str(), fresh_val(v))).collect(),
                1 => pairs.iter().filter(|_| true).map(|(k, v)| (k.clone(), fresh_val(v))).collect(),
                _ => {
                    let mut o = Object::with_capacity(c.size(300));
                    for (k, v) in &pairs {
                        o.insert(k, fresh_val(v));
                    }
                    o
                }
            };
            c.f("from_iter");
        }
        22 => {
            // equality with itself in another order, and with a changed one
            let seed = c.t.seed();
            let mut r = Rng::new(seed);
            let mut p: Vec<&(String, M)> = x.m.iter().collect();
            for i in (1..p.len()).rev() {
                p.swap(i, r.below(i + 1));
            }
            let mut q: Object = p.iter().map(|(k, v)| (k.as_str(), fresh_val(v))).collect();
            ensure!(x.o == q && q == x.o && x.o == x.o, "object differs from itself in another insertion order");
            if !p.is_empty() {
                let k = &p[r.below(p.len())].0;
                match r.below(3) {
                    0 => {
                        q.insert(k, "something else entirely".into());
                    }
                    1 => {
                        q.remove(k);
                    }
                    _ => {
                        q.remove(k);
                        q.insert("a key that is certainly not in there", JsonValue::Null);
                    }
                }
                ensure!(x.o != q && q != x.o, "object equals one with another content at {:?}", clip(k, 80));
            }
            c.f("eq");
        }
        23 => {
            #[allow(deprecated)]
            x.o.override_last(JsonValue::from(77));
            if let Some(l) = x.m.last_mut() {
                l.1 = M::int(77);
            }
        }
        24 => {
            // through text and back
            if !x.m.iter().any(|e| e.1.has_nan()) {
                let t = x.o.dump();
                match json::parse(&t) {
                    Ok(JsonValue::Object(o)) => x.o = o,
                    _ => return Err(format!("the dump of an object does not parse as one: {}", clip(&t, 300))),
                }
                c.f("reparsed");
            }
        }
        _ => {
            // many at once
            let n = c.size(120);
            for i in 0..n {
                let k = format!("bulk{}", i);
                x.o.insert(&k, i.into());
                x.put(&k, M::int(i as i64));
            }
            c.fn_("bulk", n as u64);
        }
    }
    Ok(())
}

fn key_universe(c: &mut Ctx) -> Vec<String> {
    let n = match c.t.below(4) {
        0 => 1 + c.t.below(4),
        1 => 1 + c.t.below(12),
        2 => 1 + c.size(40),
        _ => 6,
    };
    let mut keys: Vec<String> = (0..n).map(|_| gen_key(c)).collect();
    if c.t.chance(1, 4) {
        // colliding keys for certain, with the same suffixes
        let suf = *c.t.pick(&["", "!", "-suffix-beyond-32", "012345678901", "0123456789012"]);
        for p in COLLIDING {
            keys.push(format!("{}{}", p.0, suf));
            keys.push(format!("{}{}", p.1, suf));
        }
    }
    keys
}

pub fn c16(c: &mut Ctx) -> R {
    let keys = key_universe(c);
    let mut x = Map { o: if c.t.chance(1, 2) { Object::new() } else { Object::with_capacity(c.t.below(20)) }, m: vec![] };
    if c.t.chance(1, 25) {
        let n = c.size(2500);
        if let M::Obj(v) = wide_object(c, n) {
            for (k, m) in &v {
                x.o.insert(k, fresh_val(m));
            }
            x.m = v;
            c.f("large_start");
        }
    }
    let n = 1 + c.size(60);
    let mut trail = String::new();
    for i in 0..n {
        map_op(c, &mut x, &keys)?;
        ensure!(x.o.len() == x.m.len(), "after operation {}: len() is {}, the map has {}", i, x.o.len(), x.m.len());
        if x.m.len() <= 60 || c.t.chance(1, 8) {
            check_map(&x.o, &x.m).map_err(|e| format!("after operation {}: {}", i, e))?;
        }
        if trail.len() < 300 {
            trail.push_str(&format!("{} ", x.m.len()));
        }
    }
    check_map(&x.o, &x.m)?;
    c.fn_("operations", n as u64);
    c.describe(|| format!("{} operations over keys {:?}, sizes {}; final {}", n, keys.iter().take(6).map(|k| clip(k, 40)).collect::<Vec<_>>(), trail, clip(&M::Obj(x.m.clone()).show(), 300)));
    c.nt(M::Obj(x.m.clone()).hash() ^ hash_bytes(trail.as_bytes()));
    Ok(())
}

/// every history of length 5 over 3 keys with insert/remove/index/clear/clone
pub fn c16_enums() -> u64 {
    4 * 81
}
pub fn c16_enum(c: &mut Ctx, i: u64) -> R {
    let sets: [[String; 3]; 4] = [
        ["".into(), "a".into(), "b".into()],
        [COLLIDING[0].0.into(), COLLIDING[0].1.into(), "x".repeat(33)],
        [format!("{}0123456789012", COLLIDING[1].0), format!("{}0123456789012", COLLIDING[1].1), format!("{}012345678901", COLLIDING[1].0)],
        ["k".repeat(31), "k".repeat(32), "k".repeat(33)],
    ];
    let keys = &sets[(i / 81) as usize];
    const OPS: u64 = 9;
    let first = i % 81;
    for rest in 0..OPS * OPS * OPS {
        let mut x = Map { o: Object::new(), m: vec![] };
        let mut code = first + rest * 81;
        for step in 0..5 {
            let op = (code % OPS) as usize;
            code /= OPS;
            let k = &keys[op % 3];
            match op / 3 {
                0 => {
                    let v = M::int(step);
                    x.o.insert(k, fresh_val(&v));
                    x.put(k, v);
                }
                1 => {
                    let got = x.o.remove(k);
                    let want = x.find(k).map(|i| x.m.remove(i).1);
                    ensure!(got.is_some() == want.is_some(), "remove({:?}) returns {:?}", k, got.is_some());
                    if let (Some(g), Some(w)) = (&got, &want) {
                        check_same(g, w, NumMode::Exact)?;
                    }
                }
                _ => match op {
                    6 => {
                        let v = M::Str(format!("s{}", step));
                        x.o[keys[2].as_str()] = fresh_val(&v);
                        x.put(&keys[2], v);
                    }
                    7 => x.o = x.o.clone(),
                    _ => {
                        if let Some(g) = x.o.get_mut(&keys[0]) {
                            *g = JsonValue::Boolean(true);
                        }
                        if let Some(i) = x.find(&keys[0]) {
                            x.m[i].1 = M::Bool(true);
                        }
                    }
                },
            }
            for k in keys {
                ensure!(x.o.get(k).is_some() == x.find(k).is_some(), "history {} step {}: get({:?}) is {}", first + rest * 81, step, k, x.o.get(k).is_some());
            }
        }
        check_map(&x.o, &x.m).map_err(|e| format!("history {} over {:?}: {}", first + rest * 81, keys, e))?;
        c.evals += 1;
    }
    c.f("enum_history_block");
    Ok(())
}

// ------------------------------------------------------------ documents

/// One mutable step on a node and on its model. Returns a name for the step.
pub fn node_op(c: &mut Ctx, v: &mut JsonValue, m: &mut M) -> Result<&'static str, String> {
    let nv = match c.t.below(3) {
        0 => M::int(c.t.below(256) as i64),
        1 => gen_value(c, Shape { nodes: 6, depth: 2, strlen: 60, nan: true }),
        _ => small_val(c),
    };
    let seed = c.t.seed();
    let mut r = Rng::new(seed);
    let op = c.t.below(30);
    Ok(match op {
        0..=3 => {
            // push
            let res = v.push(build(&nv, &mut r));
            match m {
                M::Arr(a) => {
                    ensure!(res.is_ok(), "push on an array fails: {:?}", res);
                    a.push(nv);
                    "push"
                }
                _ => {
                    ensure!(matches!(res, Err(json::Error::WrongType(_))), "push on {}: {:?}", m.kind(), res);
                    ensure!(res.map_err(|e| e.to_string().is_empty()) == Err(false), "push on {}: the error says nothing", m.kind());
                    "push_refused"
                }
            }
        }
        4 | 5 => {
            let got = v.pop();
            let want = match m {
                M::Arr(a) => a.pop().unwrap_or(M::Null),
                _ => M::Null,
            };
            check_same(&got, &want, NumMode::Exact).map_err(|e| format!("pop returns the wrong value: {}", e))?;
            "pop"
        }
        6..=8 => {
            let k = doc_key(c, m);
            let res = v.insert(&k, build(&nv, &mut r));
            match m {
                M::Obj(o) => {
                    ensure!(res.is_ok(), "insert into an object fails: {:?}", res);
                    put(o, &k, nv);
                    "insert"
                }
                _ => {
                    ensure!(matches!(res, Err(json::Error::WrongType(_))), "insert on {}: {:?}", m.kind(), res);
                    "insert_refused"
                }
            }
        }
        9..=11 => {
            let k = doc_key(c, m);
            let got = v.remove(&k);
            let want = match m {
                M::Obj(o) => match o.iter().position(|x| x.0 == k) {
                    Some(i) => o.remove(i).1,
                    None => M::Null,
                },
                _ => M::Null,
            };
            check_same(&got, &want, NumMode::Exact).map_err(|e| format!("remove({:?}) returns the wrong value: {}", clip(&k, 60), e))?;
            "remove"
        }
        12 | 13 => {
            let n = len_of(m);
            let i = pick_index(c, n);
            let got = v.array_remove(i);
            let want = match m {
                M::Arr(a) if i < a.len() => a.remove(i),
                _ => M::Null,
            };
            check_same(&got, &want, NumMode::Exact).map_err(|e| format!("array_remove({}) returns the wrong value: {}", i, e))?;
            "array_remove"
        }
        14 => {
            v.clear();
            *m = match m {
                M::Arr(_) => M::Arr(vec![]),
                M::Obj(_) => M::Obj(vec![]),
                M::Str(_) => M::Str(String::new()),
                _ => M::Null,
            };
            "clear"
        }
        15 => {
            let got = v.take();
            check_same(&got, m, NumMode::Exact).map_err(|e| format!("take returns the wrong value: {}", e))?;
            ensure!(v.is_null(), "take leaves {}", kind_of(v));
            if c.t.chance(1, 2) {
                *v = got;
            } else {
                *m = M::Null;
            }
            "take"
        }
        16 | 17 => {
            let got = v.take_string();
            match m {
                M::Str(s) => {
                    ensure!(got.as_deref() == Some(s.as_str()), "take_string returns {:?}", got);
                    ensure!(v.is_null(), "take_string leaves {}", kind_of(v));
                    *m = M::Null;
                    "take_string"
                }
                _ => {
                    ensure!(got.is_none(), "take_string on {} returns {:?}", m.kind(), got);
                    "take_string_none"
                }
            }
        }
        18..=21 => {
            // assignment through an index
            let n = len_of(m);
            let i = pick_index(c, n);
            v[i] = build(&nv, &mut r);
            match m {
                M::Arr(a) if i < a.len() => {
                    a[i] = nv;
                    "index_assign"
                }
                M::Arr(a) => {
                    a.push(nv);
                    "index_append"
                }
                _ => {
                    // replaced by an array that ends in the new value
                    let n = match v {
                        JsonValue::Array(a) => a.len(),
                        _ => return Err(format!("indexed assignment into {} leaves {}", m.kind(), kind_of(v))),
                    };
                    ensure!(n >= 1 && n - 1 <= i, "assigning [{}] of {} leaves {} items", i, m.kind(), n);
                    let mut a = vec![M::Null; n - 1];
                    a.push(nv);
                    *m = M::Arr(a);
                    "index_replace"
                }
            }
        }
        22..=26 => {
            let k = doc_key(c, m);
            match c.t.below(3) {
                0 => v[k.as_str()] = build(&nv, &mut r),
                1 => v[&k] = build(&nv, &mut r),
                _ => v[k.clone()] = build(&nv, &mut r),
            }
            match m {
                M::Obj(o) => {
                    put(o, &k, nv);
                    "key_assign"
                }
                _ => {
                    *m = M::Obj(vec![(k, nv)]);
                    "key_replace"
                }
            }
        }
        27 => {
            // a chain of mutable indexes
            let k1 = doc_key(c, m);
            let k2 = gen_key(c);
            v[k1.as_str()][k2.as_str()] = build(&nv, &mut r);
            if !matches!(m, M::Obj(_)) {
                *m = M::Obj(vec![]);
            }
            if let M::Obj(o) = m {
                match o.iter_mut().find(|x| x.0 == k1) {
                    Some((_, M::Obj(p))) => put(p, &k2, nv),
                    Some((_, x)) => *x = M::Obj(vec![(k2, nv)]),
                    None => o.push((k1, M::Obj(vec![(k2, nv)]))),
                }
            }
            "key_chain"
        }
        28 => {
            // through the mutable iterators
            match m {
                M::Arr(a) => {
                    ensure!(v.members_mut().len() == a.len(), "members_mut has {} items, expected {}", v.members_mut().len(), a.len());
                    ensure!(v.entries_mut().next().is_none(), "entries of an array");
                    let back = c.t.chance(1, 2);
                    let n = a.len();
                    for (s, x) in v.members_mut().enumerate() {
                        if (s % 3 == 1) != back {
                            *x = JsonValue::from(s);
                            a[s] = M::int(s as i64);
                        }
                    }
                    if let Some(x) = v.members_mut().next_back() {
                        *x = JsonValue::from("last");
                        a[n - 1] = M::Str("last".into());
                    }
                }
                M::Obj(o) => {
                    ensure!(v.entries_mut().len() == o.len(), "entries_mut has {} items, expected {}", v.entries_mut().len(), o.len());
                    ensure!(v.members_mut().next().is_none(), "members of an object");
                    for (s, ((gk, x), (k, y))) in v.entries_mut().rev().zip(o.iter_mut().rev()).enumerate() {
                        ensure!(gk == k, "entries_mut backwards: key {:?}, expected {:?}", clip(gk, 60), clip(k, 60));
                        if s % 2 == 0 {
                            *x = JsonValue::from(s);
                            *y = M::int(s as i64);
                        }
                    }
                    if let Some((_, x)) = v.entries_mut().next() {
                        *x = JsonValue::from("first");
                        o[0].1 = M::Str("first".into());
                    }
                }
                _ => ensure!(v.members_mut().next().is_none() && v.entries_mut().next().is_none() && v.entries_mut().len() == 0, "{} has members", m.kind()),
            }
            "iter_mut"
        }
        _ => {
            // replace the node outright
            *v = build(&nv, &mut r);
            *m = nv;
            "assign"
        }
    })
}

pub fn put(o: &mut Vec<(String, M)>, k: &str, v: M) {
    match o.iter_mut().find(|x| x.0 == k) {
        Some(x) => x.1 = v,
        None => o.push((k.to_string(), v)),
    }
}

fn len_of(m: &M) -> usize {
    match m {
        M::Arr(a) => a.len(),
        M::Obj(o) => o.len(),
        _ => 0,
    }
}

fn pick_index(c: &mut Ctx, n: usize) -> usize {
    match c.t.below(6) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(1),
        3 => *c.t.pick(&[usize::MAX, 1usize.checked_shl(32).unwrap_or(70_000), 1000, 3, 2, 1]),
        _ => c.t.below(n.max(1)),
    }
}

fn doc_key(c: &mut Ctx, m: &M) -> String {
    if let M::Obj(o) = m {
        if !o.is_empty() && c.t.chance(1, 2) {
            let i = c.t.below(o.len());
            return o[i].0.clone();
        }
    }
    gen_key(c)
}

/// Walk to a node along mutable access paths.
pub fn walk<'a>(c: &mut Ctx, mut v: &'a mut JsonValue, mut m: &'a mut M) -> Result<(&'a mut JsonValue, &'a mut M), String> {
    let mut depth = 0;
    loop {
        let inner = match m {
            M::Arr(a) => !a.is_empty(),
            M::Obj(o) => !o.is_empty(),
            _ => false,
        };
        if !inner || depth > 12 || c.t.chance(1, 4) {
            return Ok((v, m));
        }
        depth += 1;
        let (v2, m2): (&'a mut JsonValue, &'a mut M) = match m {
            M::Arr(a) => {
                let i = c.t.below(a.len());
                let nv = match c.t.below(3) {
                    0 => &mut v[i],
                    1 => v.members_mut().nth(i).ok_or("members_mut stops early")?,
                    _ => match v {
                        JsonValue::Array(x) => &mut x[i],
                        _ => return Err("array changed its type".into()),
                    },
                };
                (nv, &mut a[i])
            }
            M::Obj(o) => {
                let i = c.t.below(o.len());
                let k = &o[i].0;
                let nv = match c.t.below(5) {
                    0 => &mut v[k.as_str()],
                    1 => &mut v[k],
                    2 => v.entries_mut().nth(i).ok_or("entries_mut stops early")?.1,
                    3 => {
                        let n = o.len();
                        v.entries_mut().rev().nth(n - 1 - i).ok_or("entries_mut backwards stops early")?.1
                    }
                    _ => match v {
                        JsonValue::Object(x) => x.get_mut(k).ok_or_else(|| format!("get_mut does not find key {:?}", clip(k, 60)))?,
                        _ => return Err("object changed its type".into()),
                    },
                };
                (nv, &mut o[i].1)
            }
            _ => return Err("unreachable".into()),
        };
        v = v2;
        m = m2;
    }
}

/// Walk to a node, then apply one operation there.
pub fn doc_step(c: &mut Ctx, v: &mut JsonValue, m: &mut M) -> Result<&'static str, String> {
    let (v, m) = walk(c, v, m)?;
    node_op(c, v, m)
}

// ------------------------------------------------------------ C17

pub fn c17(c: &mut Ctx) -> R {
    let mut m = gen_value(c, SMALL);
    let s = c.t.seed();
    let mut v = build(&m, &mut Rng::new(s));
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("before any operation: {}", e))?;
    let n = 1 + c.size(50);
    let mut trail: Vec<&str> = vec![];
    for i in 0..n {
        let name = doc_step(c, &mut v, &mut m).map_err(|e| format!("operation {} after {:?}: {}", i, &trail[trail.len().saturating_sub(6)..], e))?;
        c.f(name);
        trail.push(name);
        if m.nodes() < 300 || c.t.chance(1, 6) {
            check_same(&v, &m, NumMode::Exact).map_err(|e| format!("after operation {} ({:?}): {}", i, &trail[trail.len().saturating_sub(6)..], e))?;
        }
        if m.nodes() > 3000 {
            break;
        }
    }
    check_same(&v, &m, NumMode::Exact).map_err(|e| format!("at the end ({:?}): {}", &trail[trail.len().saturating_sub(6)..], e))?;
    c.describe(|| format!("{:?} -> {}", &trail[..trail.len().min(12)], clip(&m.show(), 300)));
    c.nt(m.hash() ^ trail.len() as u64);
    Ok(())
}

// ------------------------------------------------------------ C18

/// Numbers shown by another spelling, objects in another order.
fn permute(m: &M, r: &mut Rng) -> M {
    match m {
        M::Arr(v) => M::Arr(v.iter().map(|x| permute(x, r)).collect()),
        M::Obj(v) => {
            let mut w: Vec<(String, M)> = v.iter().map(|(k, x)| (k.clone(), permute(x, r))).collect();
            if r.chance(2, 3) {
                for i in (1..w.len()).rev() {
                    w.swap(i, r.below(i + 1));
                }
            }
            M::Obj(w)
        }
        M::Num(d) if d.is_zero() && r.chance(1, 2) => M::Num(Dec { neg: !d.neg, ..d.clone() }),
        x => x.clone(),
    }
}

macro_rules! both_ways {
    ($v:expr, $p:expr, $want:expr, $what:expr) => {{
        let v: &JsonValue = $v;
        let p = $p;
        let want: bool = $want;
        ensure!((*v == p) == want && (p == *v) == want && (v == p) == want && (*v != p) != want && (p != *v) != want,
            "{} compared with {}: value == it is {}, it == value is {}, expected {}", clip(&v.dump(), 200), $what, *v == p, p == *v, want);
    }};
}

fn check_prims(c: &mut Ctx, v: &JsonValue, m: &M) -> R {
    // strings
    let s = match m {
        M::Str(s) if c.t.chance(2, 3) => s.clone(),
        M::Str(s) => {
            let x = s.clone();
            match tweak(&M::Str(x), &mut Rng::new(c.t.seed())) {
                M::Str(t) => t,
                _ => String::new(),
            }
        }
        _ => gen_string(c, 50),
    };
    let want = matches!(m, M::Str(x) if *x == s);
    both_ways!(v, s.as_str(), want, "a str");
    ensure!((*v == *s) == want && (*s == *v) == want, "comparison with str by value: {} {}", *v == *s, *s == *v);
    both_ways!(v, s.clone(), want, "a String");
    ensure!((JsonValue::from(s.as_str()) == *v) == want && (*v == JsonValue::String(s.clone())) == want, "comparison with the value made from the string");
    if let JsonValue::Short(sh) = v {
        ensure!((*sh == *s) == want && (*s == *sh) == want && (*sh == s) == want && (s == *sh) == want, "Short compared with {:?}", s);
        ensure!(want == (sh.as_str() == s) && (&**sh == s.as_str()) == want, "Short contents");
        if s.len() <= json::short::MAX_LEN {
            let other = unsafe { json::short::Short::from_slice(&s) };
            ensure!((*sh == other) == want && (other == *sh) == want, "Short compared with Short");
        }
    }
    // booleans
    for b in [false, true] {
        both_ways!(v, b, matches!(m, M::Bool(x) if *x == b), "a bool");
    }
    // numbers
    let d = match m {
        M::Num(d) if c.t.chance(2, 3) => d.clone(),
        M::Num(_) => match tweak(m, &mut Rng::new(c.t.seed())) {
            M::Num(x) => x,
            _ => Dec::from_parts(false, 1, 0),
        },
        _ => {
            let (n, mm, e) = gen_parts(c);
            Dec::from_parts(n, mm, e as i64)
        }
    };
    let sd = c.t.seed();
    let n = build_num(&d, &mut Rng::new(sd));
    let want = matches!(m, M::Num(x) if x.eq_num(&d));
    both_ways!(v, n, want, "a Number");
    let isnan = matches!(m, M::NaN);
    both_ways!(v, json::number::NAN, isnan, "NaN");
    ensure!(*v != f64::NAN && f64::NAN != *v, "equal to the float NaN");
    macro_rules! ints {
        ($($t:ty)*) => {$({
            let i = c.t.below(256) as $t;
            let i = match m {
                M::Num(d) if d.e == 0 && d.d.len() < 19 && c.t.chance(2, 3) => (if d.neg { (d.mant() as i64).wrapping_neg() } else { d.mant() as i64 }) as $t,
                _ => i,
            };
            let want = matches!(m, M::Num(d) if d.eq_num(&Dec::from_parts((i as i128) < 0, (i as i128).unsigned_abs() as u64, 0)));
            both_ways!(v, i, want, stringify!($t));
            ensure!((JsonValue::from(i) == *v) == want, "comparison with the value made from {}", i);
        })*};
    }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    // objects
    let o = match m {
        M::Obj(o) => build_obj(o, &mut Rng::new(c.t.seed())),
        _ => Object::new(),
    };
    both_ways!(v, o, matches!(m, M::Obj(_)), "an Object");
    Ok(())
}

pub fn c18(c: &mut Ctx) -> R {
    let a = if c.t.chance(1, 60) { any_value(c) } else { gen_value(c, Shape { nodes: 24, depth: 5, strlen: 70, nan: true }) };
    let seed = c.t.seed();
    let mut r = Rng::new(seed);
    let b = match c.t.below(6) {
        0 | 1 => permute(&a, &mut r),
        2 => gen_value(c, Shape { nodes: 10, depth: 3, strlen: 40, nan: true }),
        _ => tweak(&permute(&a, &mut r), &mut r),
    };
    let d = if r.chance(1, 2) { permute(&b, &mut r) } else { tweak(&a, &mut r) };
    c.describe(|| format!("{} vs {}", clip(&a.show(), 200), clip(&b.show(), 200)));
    c.nt(a.hash() ^ b.hash().rotate_left(17));
    let ms = [&a, &b, &d];
    let vs: Vec<JsonValue> = ms.iter().map(|m| build(m, &mut r)).collect();
    let ws: Vec<JsonValue> = ms.iter().map(|m| build(m, &mut r)).collect();
    for i in 0..3 {
        for j in 0..3 {
            let want = ms[i].eq_val(ms[j]);
            c.f(if want { "equal_pairs" } else { "unequal_pairs" });
            for (x, y) in [(&vs[i], &vs[j]), (&vs[i], &ws[j]), (&ws[i], &vs[j])] {
                ensure!((x == y) == want && (y == x) == want && (x != y) != want, "{} == {} is {} / {}, expected {}", clip(&x.dump(), 200), clip(&y.dump(), 200), x == y, y == x, want);
                if let (JsonValue::Object(p), JsonValue::Object(q)) = (x, y) {
                    ensure!((p == q) == want && (p != q) != want, "Objects compare differently from the values");
                    ensure!((*x == *q) == want && (*q == *x) == want && (x == *q) == want, "value and Object");
                }
                if let (JsonValue::Number(p), JsonValue::Number(q)) = (x, y) {
                    ensure!((p == q) == want && (p != q) != want && (*x == *q) == want && (*q == *x) == want, "Numbers compare differently from the values");
                }
                c.evals += 1;
            }
        }
    }
    // items of the same containers compared without the value around them
    match (&vs[0], &ws[1]) {
        (JsonValue::Array(p), JsonValue::Array(q)) => ensure!((p == q) == a.eq_val(&b) && (p != q) != a.eq_val(&b), "lists of items compare differently from the arrays"),
        (JsonValue::Short(p), JsonValue::Short(q)) => ensure!((p == q) == a.eq_val(&b) && (p != q) != a.eq_val(&b), "Shorts compare differently from the values"),
        _ => {}
    }
    // numbers whose exponents differ by as much as they can
    {
        let m = c.u64b() >> c.t.below(64);
        let (lo, hi) = (c.t.below(40) as i32 - 32768, 32767 - c.t.below(40) as i32);
        let k = r.below(19) as u32;
        let (e1, e2) = if r.chance(1, 2) { (lo, hi) } else { (c.u64b() as i16 as i32, c.u64b() as i16 as i32) };
        let m2 = match m.checked_mul(10u64.pow(k)) {
            Some(x) if r.chance(3, 4) => x,
            _ => m,
        };
        let neg = r.chance(1, 2);
        let (x, y) = (M::Num(Dec::from_parts(neg, m, e1 as i64)), M::Num(Dec::from_parts(neg, m2, e2 as i64)));
        let want = x.eq_val(&y);
        let (x, y) = (Number::from_parts(!neg, m, e1 as i16), Number::from_parts(!neg, m2, e2 as i16));
        let (v, w) = (JsonValue::Number(x), JsonValue::Number(y));
        ensure!((v == w) == want && (w == v) == want && (v != w) != want && (v == y) == want && (x == w) == want && (y == v) == want && (w == x) == want && JsonValue::Array(vec![v]).contains(w) == want,
            "{}{}e{} and {}{}e{} compare as {}, expected {}", if neg { "-" } else { "" }, m, e1, if neg { "-" } else { "" }, m2, e2, !want, want);
        c.f("far_exponents");
    }
    // parsed back
    if !a.has_nan() && a.depth() < 500 {
        if let Ok(p) = json::parse(&vs[0].dump()) {
            ensure!(p == vs[0] && ws[0] == p, "value differs from its parsed dump {}", clip(&vs[0].dump(), 300));
        }
    }
    // contains
    if let (JsonValue::Array(items), M::Arr(ma)) = (&vs[0], &a) {
        for (y, m) in [(&vs[1], &b), (&vs[2], &d)] {
            let want = ma.iter().any(|x| x.eq_val(m));
            ensure!(vs[0].contains(y.clone()) == want, "contains({}) is {}", clip(&y.dump(), 100), !want);
        }
        if !items.is_empty() {
            let i = c.t.below(items.len());
            let (it, mi) = (&ws[0][i], &ma[i]);
            ensure!(vs[0].contains(it.clone()), "contains does not find item {}", i);
            match mi {
                M::Str(s) => ensure!(vs[0].contains(s.as_str()) && vs[0].contains(s.clone()), "contains does not find the string {:?}", clip(s, 60)),
                M::Bool(b) => ensure!(vs[0].contains(*b), "contains does not find {}", b),
                M::Num(d) => {
                    let n = Number::from_parts(!d.neg, d.mant(), d.e.clamp(-32768, 32767) as i16);
                    if d.e <= 32767 {
                        ensure!(vs[0].contains(n), "contains does not find the number {}", d.text());
                    }
                }
                _ => {}
            }
        }
        let s = gen_string(c, 40);
        let want = ma.iter().any(|x| matches!(x, M::Str(t) if *t == s));
        ensure!(vs[0].contains(s.as_str()) == want, "contains({:?})", s);
        let k = c.t.below(256) as i64;
        let want = ma.iter().any(|x| x.eq_val(&M::int(k)));
        ensure!(vs[0].contains(k) == want && vs[0].contains(k as u16) == want, "contains({})", k);
        let want = ma.iter().any(|x| x.eq_val(&M::Bool(true)));
        ensure!(vs[0].contains(true) == want, "contains(true)");
        c.f("contains");
    } else {
        ensure!(!vs[0].contains(1) && !vs[0].contains("a") && !vs[0].contains(vs[0].clone()) && !vs[0].contains(JsonValue::Null), "{} contains something", m_kind(&a));
    }
    check_prims(c, &vs[0], &a)?;
    check_prims(c, &ws[1], &b)?;
    let leaf = gen_leaf(c, Shape { nodes: 3, depth: 1, strlen: 40, nan: true });
    let lv = build(&leaf, &mut r);
    check_prims(c, &lv, &leaf)
}

fn m_kind(m: &M) -> &'static str {
    m.kind()
}

// ------------------------------------------------------------ C19

pub fn c19(c: &mut Ctx) -> R {
    let m0 = if c.t.chance(1, 50) { any_value(c) } else { gen_value(c, SMALL) };
    let s = c.t.seed();
    // pool of values that must all stay as their models say
    let mut pool: Vec<(JsonValue, M)> = vec![(build(&m0, &mut Rng::new(s)), m0.clone())];
    c.describe(|| clip(&m0.show(), 300));
    let n = 2 + c.size(30);
    let mut h = m0.hash();
    for step in 0..n {
        let i = c.t.below(pool.len());
        let what;
        match c.t.below(10) {
            0..=1 => {
                let x = pool[i].0.clone();
                ensure!(x == pool[i].0 && (pool[i].1.has_nan() || x.dump() == pool[i].0.dump()), "a clone differs from its original");
                let m = pool[i].1.clone();
                check_same(&x, &m, NumMode::Exact).map_err(|e| format!("clone: {}", e))?;
                pool.push((x, m));
                what = "clone";
            }
            2 => {
                // clone onto a value that has contents of its own, or onto a variation of the original
                let mut r = Rng::new(c.t.seed());
                let m = pool[i].1.clone();
                let own = match c.t.below(4) {
                    0 => permute(&m, &mut r),
                    1 => tweak(&permute(&m, &mut r), &mut r),
                    2 => pool[c.t.below(pool.len())].1.clone(),
                    _ => gen_value(c, SMALL),
                };
                let mut x = build(&own, &mut r);
                match (&mut x, &pool[i].0) {
                    (JsonValue::Object(p), JsonValue::Object(q)) if c.t.chance(3, 4) => p.clone_from(q),
                    (JsonValue::Array(p), JsonValue::Array(q)) if c.t.chance(3, 4) => p.clone_from(q),
                    (JsonValue::String(p), JsonValue::String(q)) if c.t.chance(1, 2) => p.clone_from(q),
                    (JsonValue::Short(p), JsonValue::Short(q)) if c.t.chance(1, 2) => p.clone_from(q),
                    (JsonValue::Number(p), JsonValue::Number(q)) if c.t.chance(1, 2) => p.clone_from(q),
                    (p, q) => p.clone_from(q),
                }
                ensure!(x == pool[i].0 && (m.has_nan() || x.dump() == pool[i].0.dump()), "clone_from onto {} gives something else than the original", clip(&own.show(), 200));
                check_same(&x, &m, NumMode::Exact).map_err(|e| format!("clone_from onto {}: {}", clip(&own.show(), 200), e))?;
                pool.push((x, m));
                what = "clone_from";
            }
            3 => {
                // clone only a part of it
                let k = pool[i].0.members().len();
                let ek = pool[i].0.entries().len();
                if k > 0 {
                    let j = c.t.below(k);
                    let x = pool[i].0[j].clone();
                    if let M::Arr(a) = &pool[i].1 {
                        let m = a[j].clone();
                        pool.push((x, m));
                    }
                } else if ek > 0 {
                    let j = c.t.below(ek);
                    if let M::Obj(o) = &pool[i].1 {
                        let (key, m) = o[j].clone();
                        let x = pool[i].0[&key].clone();
                        pool.push((x, m));
                    }
                }
                what = "clone_part";
            }
            4 | 5 => {
                // take the whole or a part
                let (v, m) = &mut pool[i];
                let got = match m {
                    M::Arr(a) if !a.is_empty() && c.t.chance(2, 3) => {
                        let j = c.t.below(a.len());
                        let x = v[j].take();
                        ensure!(v[j].is_null(), "take leaves {}", kind_of(&v[j]));
                        (x, std::mem::replace(&mut a[j], M::Null))
                    }
                    M::Obj(o) if !o.is_empty() && c.t.chance(2, 3) => {
                        let j = c.t.below(o.len());
                        let x = v[&o[j].0].take();
                        ensure!(v[&o[j].0].is_null(), "take leaves {}", kind_of(&v[&o[j].0]));
                        (x, std::mem::replace(&mut o[j].1, M::Null))
                    }
                    _ => {
                        let x = v.take();
                        ensure!(v.is_null(), "take leaves {}", kind_of(v));
                        (x, std::mem::replace(m, M::Null))
                    }
                };
                pool.push(got);
                what = "take";
            }
            6 => {
                if pool.len() > 1 {
                    drop(pool.swap_remove(i));
                }
                what = "drop";
            }
            _ => {
                let mut ops = 1 + c.t.below(4);
                while ops > 0 {
                    let (v, m) = &mut pool[i];
                    let nm = doc_step(c, v, m).map_err(|e| format!("step {}: {}", step, e))?;
                    c.f(nm);
                    ops -= 1;
                }
                what = "mutate";
            }
        }
        c.f(what);
        h = h.rotate_left(5) ^ hash_bytes(what.as_bytes());
        let total: usize = pool.iter().map(|x| x.1.nodes()).sum();
        if total < 600 || step + 1 == n || c.t.chance(1, 5) {
            for (j, (v, m)) in pool.iter().enumerate() {
                check_same(v, m, NumMode::Exact).map_err(|e| format!("after step {} ({} on value {}) value {} changed: {}", step, what, i, j, e))?;
            }
        }
        if total > 4000 || pool.len() > 40 {
            break;
        }
    }
    c.fn_("values_watched", pool.len() as u64);
    c.nt(h);
    Ok(())
}
