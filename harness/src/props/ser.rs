//! C06 dump, C07 round trips, C08 pretty layout, C09 writers, C26 custom generators.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use json::codegen::Generator;
use json::JsonValue;
use std::io::{self, Write};

fn show(t: &str) -> String {
    clip(&jstr(t), 400)
}

/// Does the model read from text equal the model (exact numbers, ordered keys)?
pub fn models_same(a: &M, b: &M, path: &str) -> R {
    match (a, b) {
        (M::Null, M::Null) => Ok(()),
        (M::Bool(x), M::Bool(y)) if x == y => Ok(()),
        (M::Num(x), M::Num(y)) => {
            ensure!(x.same(y), "{}: number written as {} but is {}", path, clip(&x.text(), 100), y.text());
            Ok(())
        }
        (M::Str(x), M::Str(y)) => {
            ensure!(x == y, "{}: string written as {} but is {}", path, show(x), show(y));
            Ok(())
        }
        (M::Arr(x), M::Arr(y)) => {
            ensure!(x.len() == y.len(), "{}: {} items written, has {}", path, x.len(), y.len());
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                models_same(p, q, if path.len() < 60 { "$.." } else { path }).map_err(|e| format!("[{}]{}", i, e))?;
            }
            Ok(())
        }
        (M::Obj(x), M::Obj(y)) => {
            ensure!(x.len() == y.len(), "{}: {} entries written, has {}", path, x.len(), y.len());
            for ((k, p), (l, q)) in x.iter().zip(y) {
                ensure!(k == l, "{}: key written as {} but is {}", path, show(k), show(l));
                models_same(p, q, path)?;
            }
            Ok(())
        }
        _ => Err(format!("{}: written as {} but is {}", path, clip(&a.show(), 200), clip(&b.show(), 200))),
    }
}

/// The monitor of C06: one compact strict JSON text denoting `want`.
pub fn check_dump_text(text: &str, want: &M) -> R {
    ensure!(std::str::from_utf8(text.as_bytes()).is_ok(), "output is not UTF-8");
    let r = refparse(text, STRICT);
    match r.result {
        Err(e) => return Err(format!("output is not strict JSON ({:?}): {}", e, show(text))),
        Ok(m) => models_same(&m, &want.denan(), "$").map_err(|e| format!("{} in {}", e, show(text)))?,
    }
    // compact, and only what must be escaped is escaped
    let mut it = text.char_indices();
    let mut instr = false;
    while let Some((i, ch)) = it.next() {
        if !instr {
            ensure!(!ch.is_whitespace(), "insignificant whitespace at {} in {}", i, show(text));
            if ch == '"' {
                instr = true;
            }
        } else if ch == '"' {
            instr = false;
        } else if ch == '\\' {
            match it.next() {
                Some((_, 'u')) => {
                    let h: String = it.by_ref().take(4).map(|x| x.1).collect();
                    let v = u32::from_str_radix(&h, 16).unwrap_or(0xffff);
                    ensure!(v < 0x20 || v == 0x22 || v == 0x5c, "character U+{:04X} escaped at {} in {}", v, i, show(text));
                }
                Some((_, '/')) => return Err(format!("solidus escaped at {} in {}", i, show(text))),
                _ => {}
            }
        } else {
            ensure!(ch as u32 >= 0x20, "raw control character at {} in {}", i, show(text));
        }
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) -> R {
    let m = any_value(c);
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| m.show());
    if m.nodes() > 1 || matches!(m, M::Str(_)) {
        c.nt(m.hash());
    }
    let text = v.dump();
    check_dump_text(&text, &m)?;
    c.fn_("bytes_checked", text.len() as u64);
    if m.has_nan() {
        c.f("with_nan");
    }
    // dump is a function of the value
    ensure!(v.dump() == text, "second dump differs: {}", show(&text));
    if let JsonValue::Object(o) = &v {
        check_dump_text(&o.dump(), &m)?;
        c.f("object_dump");
    }
    Ok(())
}

/// every character at every alignment and length around the block sizes
pub fn c06_enums() -> u64 {
    0x200 + 64
}
pub fn c06_enum(c: &mut Ctx, i: u64) -> R {
    if i < 0x200 {
        let ch = char::from_u32(i as u32).unwrap_or('x');
        for pad in 0..40usize {
            for after in [0usize, 1, 2, 31] {
                let s = format!("{}{}{}", "a".repeat(pad), ch, "b".repeat(after));
                check_dump_text(&JsonValue::from(s.as_str()).dump(), &M::Str(s.clone()))?;
                if after == 1 {
                    let o = M::Obj(vec![(s.clone(), M::Str(format!("{}{}", s, s)))]);
                    let v = build(&o, &mut Rng::new(pad as u64));
                    check_dump_text(&v.dump(), &o)?;
                }
                c.evals += 1;
            }
        }
        c.f("enum_char_alignments");
    } else {
        // two special characters at all distances
        let k = (i - 0x200) as usize;
        let sp = ['"', '\\', '\n', '\u{1}', '\u{7f}', 'é', '\u{1f}', '/'];
        let a = sp[k % 8];
        let b = sp[k / 8];
        for d in 0..70usize {
            let s = format!("{}{}{}", a, "x".repeat(d), b);
            check_dump_text(&JsonValue::from(s.as_str()).dump(), &M::Str(s.clone()))?;
            let s = format!("{}{}{}{}", "é".repeat(d % 5), a, b, "y".repeat(d));
            check_dump_text(&JsonValue::from(s.as_str()).dump(), &M::Str(s.clone()))?;
            c.evals += 2;
        }
        c.f("enum_char_pairs");
    }
    Ok(())
}

// ------------------------------------------------------------ C07

fn keys_in_order(a: &JsonValue, b: &JsonValue) -> bool {
    match (a, b) {
        (JsonValue::Object(x), JsonValue::Object(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((k, v), (l, w))| k == l && keys_in_order(v, w)),
        (JsonValue::Array(x), JsonValue::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| keys_in_order(v, w)),
        _ => true,
    }
}

pub fn c07(c: &mut Ctx) -> R {
    let m = any_value(c).denan();
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| m.show());
    if m.nodes() > 1 || matches!(m, M::Str(_) | M::Num(_)) {
        c.nt(m.hash());
    }
    if m.depth() > 512 {
        return Ok(());
    }
    let text = v.dump();
    let back = json::parse(&text).map_err(|e| format!("own dump refused: {:?} {}", e, show(&text)))?;
    ensure!(back == v && v == back, "parse(dump(v)) != v: {}", show(&text));
    ensure!(keys_in_order(&back, &v), "key order changed by dump and parse: {}", show(&text));
    check_same(&back, &m, NumMode::Exact).map_err(|e| format!("parse(dump(v)): {} in {}", e, show(&text)))?;
    let text2 = back.dump();
    ensure!(text2 == text, "dump(parse(dump(v))) differs from dump(v): {} vs {}", show(&text2), show(&text));
    // pretty, any width that keeps the text small
    let w = if m.nodes() * (m.depth() + 1) < 400 { c.size(65535).min(4000) } else if m.nodes() * (m.depth() + 1) < 20_000 { c.size(40) } else { c.t.below(2) };
    let pretty = v.pretty(w as u16);
    c.fn_("bytes_checked", (text.len() + pretty.len()) as u64);
    let back = json::parse(&pretty).map_err(|e| format!("own pretty({}) refused: {:?} {}", w, e, show(&pretty)))?;
    ensure!(back == v && v == back, "parse(pretty({},v)) != v: {}", w, show(&pretty));
    ensure!(keys_in_order(&back, &v), "key order changed by pretty and parse: {}", show(&pretty));
    ensure!(back.dump() == text, "dump after pretty({}) and parse differs: {} vs {}", w, show(&back.dump()), show(&text));
    ensure!(back.pretty(w as u16) == pretty, "pretty({}) is not stable", w);
    let mut out = vec![];
    v.write(&mut out).map_err(|e| format!("write to a Vec failed: {}", e))?;
    ensure!(out == text.as_bytes(), "write differs from dump: {}", show(&text));
    // from text first
    if c.t.chance(1, 3) {
        let (t, _) = emit(c, &m);
        if let Ok(p) = json::parse(&t) {
            let d = p.dump();
            let q = json::parse(&d).map_err(|e| format!("dump of a parsed text refused: {:?} {}", e, show(&d)))?;
            ensure!(p == q, "dump and parse changed a parsed document: {}", show(&t));
            ensure!(q.dump() == d, "dump of a parsed document is not stable: {}", show(&d));
            c.f("from_text");
        }
    }
    // after a mutation
    if c.t.chance(1, 3) {
        if let JsonValue::Object(_) = v {
            let mut v2 = v.clone();
            let mut m2 = m.clone();
            if let M::Obj(o) = &mut m2 {
                if !o.is_empty() {
                    let i = c.t.below(o.len());
                    let (k, _) = o.remove(i);
                    v2.remove(&k);
                }
            }
            let t = v2.dump();
            let b = json::parse(&t).map_err(|e| format!("dump after removal refused: {:?} {}", e, show(&t)))?;
            check_same(&b, &m2, NumMode::Exact).map_err(|e| format!("after removal: {} in {}", e, show(&t)))?;
            c.f("after_removal");
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C08

pub fn c08(c: &mut Ctx) -> R {
    let m = any_value(c);
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| m.show());
    if m.nodes() > 1 {
        c.nt(m.hash());
    }
    let text = v.dump();
    let cost = m.nodes().max(1) * (m.depth() + 1);
    let max = (3_000_000 / cost).min(65535);
    let w = match c.t.below(4) {
        0 => c.t.below(9).min(max),
        1 => 4.min(max),
        _ => {
            let x = c.size(65535);
            x.min(max)
        }
    } as u16;
    let unit = " ".repeat(w as usize);
    let want = ref_pretty(&text, &unit);
    let got = v.pretty(w);
    c.fn_("bytes_checked", got.len() as u64);
    if w > 255 {
        c.f("wide_indent");
    }
    if w as usize * m.depth() > 65535 {
        c.f("indent_over_65535");
    }
    ensure!(got == want, "pretty({}) is {} but the layout of the dump is {}", w, show(&got), show(&want));
    let mut out = vec![];
    v.write_pretty(&mut out, w).map_err(|e| format!("write_pretty to a Vec failed: {}", e))?;
    ensure!(out == want.as_bytes(), "write_pretty({}) differs from the layout: {}", w, show(&String::from_utf8_lossy(&out)));
    ensure!(json::stringify(v.clone()) == text, "stringify differs from dump");
    ensure!(json::stringify_pretty(v.clone(), w) == want, "stringify_pretty({}) differs", w);
    if let JsonValue::Object(o) = &v {
        ensure!(o.dump() == text, "Object::dump differs from dump: {}", show(&o.dump()));
        ensure!(o.pretty(w) == want, "Object::pretty({}) differs: {}", w, show(&o.pretty(w)));
        c.f("object");
    }
    if cost < 400_000 {
        let alt = format!("{:#}", v);
        ensure!(alt == ref_pretty(&text, "    "), "{{:#}} is not pretty(4): {}", show(&alt));
    }
    let disp = format!("{}", v);
    match &m {
        M::NaN => {}
        M::Str(s) => ensure!(disp == *s, "Display of a string: {} for {}", show(&disp), show(s)),
        _ => ensure!(disp == text, "Display {} differs from dump {}", show(&disp), show(&text)),
    }
    ensure!(disp == v.to_string(), "to_string differs from Display");
    Ok(())
}

// ------------------------------------------------------------ C09

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Full,
    Short(usize),
    Interrupted,
    Zero,
    Fail(io::ErrorKind),
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::OutOfMemory, io::ErrorKind::WriteZero,
];

/// A writer that follows a script and records what happened.
pub struct Faulty {
    pub script: Vec<Act>,
    pub at: usize,
    /// act for all calls after the script
    pub rest: Act,
    pub got: Vec<u8>,
    pub calls: usize,
    pub failed: Option<io::ErrorKind>,
    pub after_failure: usize,
    pub interrupts: usize,
}

impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.failed.is_some() {
            self.after_failure += 1;
            // be accepting: a second write after the failure must not be hidden
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let a = if self.at < self.script.len() { self.script[self.at] } else { self.rest };
        self.at += 1;
        match a {
            Act::Full => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            Act::Short(n) => {
                let n = n.max(1).min(b.len());
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Act::Interrupted => {
                self.interrupts += 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            Act::Zero => {
                self.failed = Some(io::ErrorKind::WriteZero);
                Ok(0)
            }
            Act::Fail(k) => {
                self.failed = Some(k);
                Err(io::Error::from(k))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn faulty(script: Vec<Act>, rest: Act) -> Faulty {
    Faulty { script, at: 0, rest, got: vec![], calls: 0, failed: None, after_failure: 0, interrupts: 0 }
}

fn check_write(c: &mut Ctx, v: &JsonValue, want: &[u8], pretty: Option<u16>, script: Vec<Act>, rest: Act) -> R {
    let mut w = faulty(script, rest);
    let r = match pretty {
        None => v.write(&mut w),
        Some(n) => v.write_pretty(&mut w, n),
    };
    c.fn_("writer_calls", w.calls as u64);
    c.fn_("interrupts_injected", w.interrupts as u64);
    let what = || format!("{:?} script {:?}", pretty, &w.script[..w.script.len().min(12)]);
    match (w.failed, r) {
        (None, Ok(())) => {
            c.f("delivered");
            ensure!(w.got == want, "writer received {} instead of {} ({})", show(&String::from_utf8_lossy(&w.got)), show(&String::from_utf8_lossy(want)), what());
        }
        (None, Err(e)) => return Err(format!("write returned {:?} though the writer never failed ({})", e, what())),
        (Some(k), Ok(())) => return Err(format!("write returned Ok though the writer failed with {:?} ({})", k, what())),
        (Some(k), Err(e)) => {
            c.f("failed");
            ensure!(e.kind() == k, "writer failed with {:?}, write returned {:?} ({})", k, e.kind(), what());
            ensure!(w.after_failure == 0, "{} writes after the failure ({})", w.after_failure, what());
            ensure!(want.starts_with(&w.got), "delivered bytes are not a prefix: {} of {}", show(&String::from_utf8_lossy(&w.got)), show(&String::from_utf8_lossy(want)));
        }
    }
    Ok(())
}

#[allow(deprecated)]
pub fn c09(c: &mut Ctx) -> R {
    let m = if c.t.chance(1, 60) { any_value(c) } else { gen_value(c, Shape { nodes: 20, depth: 5, strlen: 120, nan: true }) };
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| m.show());
    c.nt(m.hash() ^ s);
    let pretty = if c.t.chance(1, 2) { None } else { Some(c.t.below(12) as u16) };
    let want = match pretty {
        None => v.dump(),
        Some(n) => v.pretty(n),
    }
    .into_bytes();
    // how often does a plain writer get called?
    let mut plain = faulty(vec![], Act::Full);
    let r = match pretty {
        None => v.write(&mut plain),
        Some(n) => v.write_pretty(&mut plain, n),
    };
    ensure!(r.is_ok() && plain.got == want, "plain writer received {} instead of {}", show(&String::from_utf8_lossy(&plain.got)), show(&String::from_utf8_lossy(&want)));
    let calls = plain.calls;
    // one byte at a time
    check_write(c, &v, &want, pretty, vec![], Act::Short(1))?;
    // random schedule without failure
    let n = c.size(60);
    let mut script = vec![];
    for _ in 0..n {
        script.push(match c.t.below(4) {
            0 => Act::Full,
            1 => Act::Interrupted,
            2 => Act::Short(1 + c.t.below(3)),
            _ => Act::Short(1 + c.t.below(30)),
        });
    }
    let rest = *c.t.pick(&[Act::Full, Act::Short(3), Act::Short(1)]);
    check_write(c, &v, &want, pretty, script.clone(), rest)?;
    // a failure at a random point of that schedule
    let k = *c.t.pick(KINDS);
    let bad = if c.t.chance(1, 5) { Act::Zero } else { Act::Fail(k) };
    script.push(bad);
    check_write(c, &v, &want, pretty, script, Act::Full)?;
    // a failure at every call (all calls of small values, a window of large ones)
    let lo = if calls <= 60 { 0 } else { c.t.below(calls - 50) };
    for i in lo..calls.min(lo + 60) {
        let mut script = vec![Act::Full; i];
        script.push(bad);
        check_write(c, &v, &want, pretty, script, Act::Full)?;
        let mut script = vec![Act::Full; i];
        script.push(Act::Interrupted);
        script.push(Act::Short(1));
        script.push(bad);
        check_write(c, &v, &want, pretty, script, Act::Full)?;
        c.evals += 2;
    }
    // a failure at every byte
    let lo = if want.len() <= 60 { 0 } else { c.t.below(want.len() - 50) };
    for i in lo..want.len().min(lo + 60) {
        let mut w = ByteLimit { left: i, got: vec![], failed: false, after: 0, kind: k };
        let r = match pretty {
            None => v.write(&mut w),
            Some(n) => v.write_pretty(&mut w, n),
        };
        match r {
            Ok(()) => return Err(format!("write returned Ok though the writer took {} of {} bytes", i, want.len())),
            Err(e) => ensure!(e.kind() == k, "writer failed with {:?} after {} bytes, write returned {:?}", k, i, e.kind()),
        }
        ensure!(w.got == want[..i] && w.after == 0, "after {} bytes: delivered {} writes after failure {}", i, show(&String::from_utf8_lossy(&w.got)), w.after);
        c.evals += 1;
    }
    c.fn_("fault_points", (calls.min(lo + 60) + want.len().min(lo + 60)) as u64);
    // Display to a sink that fails
    let disp = v.to_string();
    let alt = if m.nodes() < 300 { format!("{:#}", v) } else { disp.clone() };
    for _ in 0..4 {
        let left = c.t.below(6);
        let cap = if c.t.chance(1, 3) { disp.len() } else { c.t.below(disp.len() + 1) };
        for alternate in [false, true] {
            let want = if alternate { &alt } else { &disp };
            let mut s = Sink { left, cap, got: String::new(), failed: false, after: 0 };
            use std::fmt::Write;
            let r = if alternate { write!(s, "{:#}", v) } else { write!(s, "{}", v) };
            if alternate && m.nodes() >= 300 {
                continue;
            }
            ensure!(r.is_err() == s.failed, "formatting returned {:?} though the sink failed: {}", r, s.failed);
            ensure!(s.after == 0 && want.starts_with(&s.got) && (s.failed || *want == s.got), "the sink received {} of {} ({} calls after its failure)", show(&s.got), show(want), s.after);
            c.f(if s.failed { "sink_failed" } else { "sink_delivered" });
        }
    }
    // the deprecated interface
    let mut out = vec![];
    v.to_writer(&mut out);
    ensure!(out == v.dump().as_bytes(), "to_writer differs from dump");
    Ok(())
}

/// A formatting sink that takes so many calls and bytes.
struct Sink {
    left: usize,
    cap: usize,
    got: String,
    failed: bool,
    after: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
        }
        if !s.is_empty() && (self.left == 0 || self.got.len() + s.len() > self.cap) {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left = self.left.saturating_sub(1);
        self.got.push_str(s);
        Ok(())
    }
}

/// Accepts exactly `left` bytes, then fails.
struct ByteLimit {
    left: usize,
    got: Vec<u8>,
    failed: bool,
    after: usize,
    kind: io::ErrorKind,
}
impl Write for ByteLimit {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
            return Ok(b.len());
        }
        if self.left == 0 {
            self.failed = true;
            return Err(io::Error::from(self.kind));
        }
        let n = b.len().min(self.left);
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------ C26

/// Only the two required methods.
struct Minimal {
    out: Vec<u8>,
    spaced: bool,
}
impl Generator for Minimal {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        &mut self.out
    }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
        if self.spaced { self.out.write_all(slice) } else { self.out.write_all(&[min]) }
    }
}

/// Everything the trait lets one override, with a trace and a failure point.
struct Tracing {
    out: Vec<u8>,
    unit: &'static str,
    level: isize,
    min_level: isize,
    calls: usize,
    fail_at: usize,
    failed: bool,
    after: usize,
    bad_min: bool,
    indents: usize,
    dedents: usize,
    newlines: usize,
    kind: io::ErrorKind,
}
impl Tracing {
    fn tick(&mut self) -> io::Result<()> {
        if self.failed {
            self.after += 1;
        }
        if self.calls == self.fail_at {
            self.calls += 1;
            self.failed = true;
            return Err(io::Error::from(self.kind));
        }
        self.calls += 1;
        Ok(())
    }
}
impl Generator for Tracing {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> {
        if self.failed {
            self.after += 1;
        }
        &mut self.out
    }
    fn write(&mut self, slice: &[u8]) -> io::Result<()> {
        self.tick()?;
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn write_char(&mut self, ch: u8) -> io::Result<()> {
        self.tick()?;
        self.out.push(ch);
        Ok(())
    }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
        self.tick()?;
        // the two spellings differ in whitespace only
        let s: Vec<u8> = slice.iter().copied().filter(|b| *b != b' ').collect();
        if s != [min] {
            self.bad_min = true;
        }
        self.out.extend_from_slice(slice);
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        self.tick()?;
        self.newlines += 1;
        self.out.push(b'\n');
        for _ in 0..self.level.max(0) {
            self.out.extend_from_slice(self.unit.as_bytes());
        }
        Ok(())
    }
    fn indent(&mut self) {
        self.indents += 1;
        self.level += 1;
    }
    fn dedent(&mut self) {
        self.dedents += 1;
        self.level -= 1;
        self.min_level = self.min_level.min(self.level);
    }
}

pub fn c26(c: &mut Ctx) -> R {
    let m = if c.t.chance(1, 60) { any_value(c) } else { gen_value(c, Shape { nodes: 24, depth: 6, strlen: 120, nan: true }) };
    let s = c.t.seed();
    let v = build(&m, &mut Rng::new(s));
    c.describe(|| m.show());
    if m.nodes() > 1 {
        c.nt(m.hash());
    }
    let text = v.dump();
    for spaced in [false, true] {
        let mut g = Minimal { out: vec![], spaced };
        g.write_json(&v).map_err(|e| format!("minimal generator failed: {}", e))?;
        let want = if spaced { ref_colons(&text) } else { text.clone() };
        ensure!(g.out == want.as_bytes(), "minimal generator (spaced {}) wrote {} instead of {}", spaced, show(&String::from_utf8_lossy(&g.out)), show(&want));
    }
    let unit = *c.t.pick(&["\t", "", "  ", "->", "\t "]);
    let kind = *c.t.pick(KINDS);
    let mk = |fail_at| Tracing { out: vec![], unit, level: 0, min_level: 0, calls: 0, fail_at, failed: false, after: 0, bad_min: false, indents: 0, dedents: 0, newlines: 0, kind };
    let mut g = mk(usize::MAX);
    g.write_json(&v).map_err(|e| format!("generator failed: {}", e))?;
    let want = ref_pretty(&text, unit);
    ensure!(g.out == want.as_bytes(), "tracing generator wrote {} instead of {}", show(&String::from_utf8_lossy(&g.out)), show(&want));
    ensure!(g.indents == g.dedents && g.level == 0 && g.min_level >= 0, "indent/dedent not balanced: {} / {}, level {} min {}", g.indents, g.dedents, g.level, g.min_level);
    ensure!(!g.bad_min, "write_min was given two different tokens");
    c.fn_("trait_calls", g.calls as u64);
    c.fn_("indents", g.indents as u64);
    let calls = g.calls;
    // the parts of a value through the same trait
    match &v {
        JsonValue::Object(o) => {
            let mut g = mk(usize::MAX);
            g.write_object(o).map_err(|e| format!("write_object failed: {}", e))?;
            ensure!(g.out == want.as_bytes(), "write_object wrote {}", show(&String::from_utf8_lossy(&g.out)));
        }
        JsonValue::Number(n) => {
            let mut g = mk(usize::MAX);
            g.write_number(n).map_err(|e| format!("write_number failed: {}", e))?;
            ensure!(g.out == want.as_bytes(), "write_number wrote {}", show(&String::from_utf8_lossy(&g.out)));
        }
        JsonValue::String(_) | JsonValue::Short(_) => {
            let mut g = mk(usize::MAX);
            g.write_string(v.as_str().unwrap_or("")).map_err(|e| format!("write_string failed: {}", e))?;
            ensure!(g.out == want.as_bytes(), "write_string wrote {}", show(&String::from_utf8_lossy(&g.out)));
        }
        _ => {}
    }
    // failure at every trait call
    let lo = if calls <= 80 { 0 } else { c.t.below(calls - 70) };
    for i in lo..calls.min(lo + 80) {
        let mut g = mk(i);
        match g.write_json(&v) {
            Ok(()) => return Err(format!("error at trait call {} swallowed", i)),
            Err(e) => ensure!(e.kind() == kind, "error at trait call {} changed to {:?}", i, e.kind()),
        }
        ensure!(g.after == 0, "{} trait calls after the error at call {}", g.after, i);
        ensure!(want.as_bytes().starts_with(&g.out), "output before the error at call {} is not a prefix", i);
        c.evals += 1;
        c.f("fault_points");
    }
    Ok(())
}
