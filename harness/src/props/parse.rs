//! C01 acceptance, C02 content, C03 totality and cost, C04 error reports, C05 number literals.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::rt;
use json::{Error, JsonValue};

// ------------------------------------------------------------ C01

fn show(t: &str) -> String {
    clip(&jstr(t), 400)
}

/// Accept/reject oracle, with the content checked loosely.
pub fn check_accept(c: &mut Ctx, text: &str) -> R {
    let r = refparse(text, LIB);
    let got = json::parse(text);
    match (&r.result, &got) {
        (Ok(_), Ok(_)) => c.f("accepted"),
        (Ok(_), Err(e)) => {
            ensure!(r.big, "valid document refused with {:?}: {}", e, show(text));
            c.f("big_number_refused");
        }
        (Err(e), Ok(v)) => return Err(format!("invalid document accepted ({:?}) as {}: {}", e, kind_of(v), show(text))),
        (Err(e), Err(_)) => c.f(match e {
            RefErr::Unexpected(_) => "rejected_unexpected",
            RefErr::Eof => "rejected_truncated",
            RefErr::Depth => "rejected_depth",
            RefErr::Surrogate => "rejected_surrogate",
        }),
    }
    Ok(())
}

/// A text: a document in varied spelling, or something derived from one.
pub fn gen_text(c: &mut Ctx) -> String {
    match c.t.below(10) {
        0 => {
            // deep nesting around the limit
            let d = match c.t.below(4) {
                _ if c.small => c.size(20),
                0 => 505 + c.t.below(16),
                1 => 512 + c.t.below(3) - 1,
                2 => c.size(1200),
                _ => c.size(600),
            };
            deep_text(c, d)
        }
        1 => {
            // token soup
            let n = c.size(24);
            let mut s = String::new();
            for _ in 0..n {
                match c.t.below(5) {
                    0 | 1 => s.push_str(*c.t.pick(&["{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "-0", "true", "false", "null", " ", "\n", "[]", "{}", "\"a\":", "[1,", "{\"a\":1,"])),
                    2 => {
                        let l = gen_numlit(c, 40);
                        s.push_str(&l);
                    }
                    3 => {
                        let k = c.t.below(8);
                        let ch = gen_char(c, k);
                        s.push(ch);
                    }
                    _ => {
                        s.push('"');
                        let n = c.t.below(6);
                        for _ in 0..n {
                            match c.t.below(5) {
                                0 => s.push_str(*c.t.pick(&["\\n", "\\\"", "\\\\", "\\/", "\\u0041", "\\ud83d\\ude0e", "\\uD800", "\\udc00", "\\u12", "\\x", "\\u00e9", "\\uFFFF", "\\b", "\\f", "\\r", "\\t", "\\ud83d", "\\ud83d\\u0041", "\\ud83d\\ud83d", "\\U0041"])),
                                _ => {
                                    let ch = gen_char(c, 7);
                                    s.push(ch);
                                }
                            }
                        }
                        if !c.t.chance(1, 8) {
                            s.push('"');
                        }
                    }
                }
            }
            s
        }
        2 => {
            let l = gen_numlit(c, 60);
            if c.t.chance(1, 3) { mutate_text(c, &l) } else { l }
        }
        3 | 4 => {
            let m = any_value(c);
            emit(c, &m).0
        }
        _ => {
            let m = if c.t.chance(1, 40) { any_value(c) } else { gen_value(c, Shape { nodes: 14, depth: 5, strlen: 60, nan: false }) };
            let t = emit(c, &m).0;
            if t.len() > 20_000 { t } else { mutate_text(c, &t) }
        }
    }
}

pub fn deep_text(c: &mut Ctx, d: usize) -> String {
    let style = c.t.below(6);
    let leaf = *c.t.pick(&["1", "[]", "{}", "null", "\"x\"", "", "[ ]", "{\n}", "-"]);
    let close = c.t.below(8);
    let ws = c.t.chance(1, 4);
    let mut s = String::new();
    let mut stack = vec![];
    for i in 0..d {
        let obj = match style {
            0 | 4 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => i % 2 == 1,
            _ => (i / 7) % 2 == 0,
        };
        if obj {
            s.push_str("{\"a\":");
        } else {
            s.push('[');
            if style == 4 && i % 50 == 3 {
                s.push_str("[],{},[1],");
            }
        }
        if ws {
            s.push(' ');
        }
        stack.push(obj);
    }
    s.push_str(leaf);
    let drop = if close == 0 { c.size(d) } else { 0 };
    for obj in stack.into_iter().rev().take(d - drop) {
        if ws {
            s.push('\n');
        }
        s.push(if obj { '}' } else { ']' });
    }
    if close == 1 {
        s.push(']');
    }
    s
}

pub fn c01(c: &mut Ctx) -> R {
    let t = gen_text(c);
    c.describe(|| jstr(&t));
    c.nt(hash_bytes(t.as_bytes()));
    check_accept(c, &t)?;
    // every one-character neighbourhood of short texts: truncations and appended bytes
    if t.len() <= 60 && c.t.chance(1, 6) {
        for (i, _) in t.char_indices() {
            check_accept(c, &t[..i])?;
            c.evals += 1;
        }
        for x in ["}", "]", ",", " ", "\"", "0", "e", "\u{b}", "\u{c}", "\u{a0}", "x", "\0", ".", "-"] {
            let y = format!("{}{}", t, x);
            check_accept(c, &y)?;
            c.evals += 1;
        }
    }
    Ok(())
}

// Exhaustive parts: (a) every string over the number alphabet up to length 6,
// (b) every character up to U+02FF and some beyond after each parser state,
// (c) every escape letter, every \uXXXX in blocks, every surrogate pair block.

const NUMALPHA: &[u8] = b"01-+.eE";
const NLEN: u32 = 6;
fn numstrings() -> u64 {
    let b = NUMALPHA.len() as u64;
    (1..=NLEN).map(|l| b.pow(l)).sum()
}
fn numstring(mut i: u64) -> String {
    let b = NUMALPHA.len() as u64;
    let mut l = 1;
    while i >= b.pow(l) {
        i -= b.pow(l);
        l += 1;
    }
    let mut s = String::new();
    for _ in 0..l {
        s.push(NUMALPHA[(i % b) as usize] as char);
        i /= b;
    }
    s
}

pub const STATES: &[&str] = &[
    "", " ", "[", "[ ", "[1", "[1 ", "[1,", "[1, ", "[[]", "[[],", "{", "{ ", "{\"", "{\"a", "{\"a\"", "{\"a\" ", "{\"a\":", "{\"a\": ", "{\"a\":1",
    "{\"a\":1 ", "{\"a\":1,", "{\"a\":1, ", "{\"a\":{}", "{\"a\":[]", "\"", "\"a", "\"\\", "\"\\u", "\"\\u0", "\"\\u00", "\"\\u004", "\"\\u0041", "\"\\n", "\"\\na",
    "\"\\ud83d", "\"\\ud83d\\", "\"\\ud83d\\u", "\"\\ud83d\\ude0", "\"é", "t", "tr", "tru", "true", "f", "fa", "fal", "fals", "false", "n", "nu", "nul", "null", "-", "-0", "-1",
    "0", "0.", "0.0", "0.5", "0e", "0e+", "0e-", "0e1", "1", "12", "1.", "1.5", "1.5e", "1.5e+", "1.5e1", "1e", "1e-", "1e-5", "18446744073709551615", "576460752303423500",
    "5764607523034235001", "184467440737095516150", "184467440737095516150.", "184467440737095516150.1", "184467440737095516150e", "184467440737095516150e1", "[]", "{}", "\"\"", "1 ", "[] ", "null\n", "true\t", "{\"a\":\"",
    "{\"a\":\"\\", "{\"\\", "{\"\\u", "{\"\\n\"", "[\"", "[\"\\", "[\"a\"", "[true", "[null", "[-", "[0", "[0.", "[1e", "[1.5", "[0.5e1",
];
const CHARS: u64 = 0x300 + 16;
fn statechar(k: u64) -> char {
    if k < 0x300 {
        char::from_u32(k as u32).unwrap()
    } else {
        ['\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{1f60e}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{1680}', '\u{205f}', '\u{2000}'][(k - 0x300) as usize]
    }
}
const TAILS: &[&str] = &["", "\"", "]", "}", "0", "0\"", "\"}", "1]", ":1}", "u0041\"", "\":1}", "41\""];

/// number strings, one case per 7^3 block; states x chars, one case per state; \u blocks of 256
pub fn c01_enums() -> u64 {
    numstrings() / 343 + 1 + STATES.len() as u64 * 8 + 256 + 64
}
pub fn c01_enum(c: &mut Ctx, i: u64) -> R {
    let n1 = numstrings() / 343 + 1;
    let n2 = STATES.len() as u64 * 8;
    if i < n1 {
        for j in i * 343..((i + 1) * 343).min(numstrings()) {
            let s = numstring(j);
            for t in [s.clone(), format!("[{}]", s), format!("{{\"a\":{} }}", s)] {
                check_accept(c, &t)?;
                c.evals += 1;
            }
        }
        c.f("enum_number_block");
        return Ok(());
    }
    let i = i - n1;
    if i < n2 {
        let st = STATES[(i / 8) as usize];
        let part = i % 8;
        let mut k = part;
        while k < CHARS {
            let ch = statechar(k);
            for tail in TAILS {
                let t = format!("{}{}{}", st, ch, tail);
                check_accept(c, &t)?;
                c.evals += 1;
            }
            k += 8;
        }
        c.f("enum_state_block");
        return Ok(());
    }
    let i = i - n2;
    if i < 256 {
        for lo in 0..256u32 {
            let cp = (i as u32) << 8 | lo;
            for t in [format!("\"\\u{:04x}\"", cp), format!("[\"a\\u{:04X}z\"]", cp), format!("{{\"\\u{:04x}\\n\":1}}", cp)] {
                check_accept(c, &t)?;
                c.evals += 1;
            }
        }
        c.f("enum_u_block");
        return Ok(());
    }
    let i = (i - 256) as u32;
    // surrogate pairs: 64 blocks of high surrogates against boundary lows
    for h in 0..16u32 {
        let hi = 0xd800 + i * 16 + h;
        for lo in [0xdc00u32, 0xdc01, 0xdcff, 0xdd55, 0xdffe, 0xdfff, 0xdbff, 0xe000, 0xd800, 0x41, 0x0, 0xffff] {
            let t = format!("\"\\u{:04x}\\u{:04x}\"", hi, lo);
            check_accept(c, &t)?;
            let t = format!("\"\\u{:04x}\\u{:04x}\"", lo, hi);
            check_accept(c, &t)?;
            c.evals += 2;
        }
    }
    c.f("enum_surrogate_block");
    Ok(())
}

// ------------------------------------------------------------ C02

fn feats(c: &mut Ctx, m: &M) {
    fn walk(c: &mut Ctx, m: &M) {
        match m {
            M::Str(s) => {
                if s.len() > 30 { c.f("string_heap") } else { c.f("string_inline") }
            }
            M::Arr(v) => v.iter().take(50).for_each(|x| walk(c, x)),
            M::Obj(v) => {
                for (k, x) in v.iter().take(50) {
                    if k.len() > 32 { c.f("key_heap") } else { c.f("key_inline") }
                    walk(c, x);
                }
            }
            _ => {}
        }
    }
    walk(c, m);
}

pub fn c02(c: &mut Ctx) -> R {
    let m = any_value(c);
    let (text, want) = emit(c, &m);
    feats(c, &want);
    c.describe(|| jstr(&text));
    if want.nodes() > 1 {
        c.nt(hash_bytes(text.as_bytes()));
    }
    let r = refparse(&text, LIB);
    match &r.result {
        Ok(x) => ensure!(x.hash() == want.hash(), "HARNESS emitter and reference parser disagree on {}", show(&text)),
        Err(RefErr::Depth) => {
            c.f("too_deep");
            return Ok(());
        }
        Err(e) => return Err(format!("HARNESS emitted text refused by the reference: {:?} {}", e, show(&text))),
    }
    let v = match json::parse(&text) {
        Ok(v) => v,
        Err(e) => return Err(format!("valid document refused with {:?}: {}", e, show(&text))),
    };
    check_same(&v, &want, NumMode::Any).map_err(|e| format!("{} in {}", e, show(&text)))?;
    // other parses in between have no influence, and parsing is a function of the text
    if c.t.chance(1, 4) {
        let m2 = gen_value(c, Shape { nodes: 10, depth: 3, strlen: 80, nan: false });
        let (t2, w2) = emit(c, &m2);
        let t2b = mutate_text(c, &t2);
        let _ = json::parse(&t2b);
        let v2 = json::parse(&t2);
        check_same(&v, &want, NumMode::Any).map_err(|e| format!("after another parse: {}", e))?;
        if let Ok(v2) = &v2 {
            check_same(v2, &w2, NumMode::Any)?;
        }
        // the source text may go away
        let copy = text.clone();
        let v3 = json::parse(&copy);
        drop(copy);
        match v3 {
            Ok(v3) => check_same(&v3, &want, NumMode::Any).map_err(|e| format!("second parse: {}", e))?,
            Err(e) => return Err(format!("second parse of the same text fails: {:?}", e)),
        }
        c.f("interleaved");
    }
    Ok(())
}

/// Every scalar value as \u escape(s), raw, and inside longer strings and keys.
pub fn c02_enums() -> u64 {
    0x110000 / 0x800
}
pub fn c02_enum(c: &mut Ctx, i: u64) -> R {
    let mut text = String::from("[");
    let mut want = vec![];
    for k in 0..0x800u32 {
        let cp = i as u32 * 0x800 + k;
        // all of the BMP, a sample of the other planes
        if cp >= 0x10000 && k % 37 != (i % 37) as u32 && cp & 0xffff > 2 && cp & 0xffff < 0xfffd {
            continue;
        }
        let ch = match char::from_u32(cp) {
            Some(c) => c,
            None => continue,
        };
        let mut esc = String::new();
        let mut b = [0u16; 2];
        for u in ch.encode_utf16(&mut b).iter() {
            esc.push_str(&if k % 2 == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
        }
        if text.len() > 1 {
            text.push(',');
        }
        let raw_ok = cp >= 0x20 && ch != '"' && ch != '\\';
        match k % 3 {
            0 => {
                text.push_str(&format!("\"{}\"", esc));
                want.push(M::Str(ch.to_string()));
            }
            1 => {
                text.push_str(&format!("\"a{}b{}\"", esc, if raw_ok { ch.to_string() } else { "\\n".into() }));
                want.push(M::Str(format!("a{}b{}", ch, if raw_ok { ch } else { '\n' })));
            }
            _ => {
                text.push_str(&format!("{{\"{}key\":\"{}\"}}", esc, if raw_ok { ch.to_string() } else { esc.clone() }));
                want.push(M::Obj(vec![(format!("{}key", ch), M::Str(ch.to_string()))]));
            }
        }
    }
    text.push(']');
    if want.is_empty() {
        return Ok(());
    }
    let n = want.len() as u64;
    let v = json::parse(&text).map_err(|e| format!("block {:x} refused: {:?}", i * 0x800, e))?;
    check_same(&v, &M::Arr(want), NumMode::Any)?;
    c.evals += n;
    c.fn_("enum_scalar_values", n);
    Ok(())
}

// ------------------------------------------------------------ C03

/// A pathological text of a size up to `max`.
fn hostile_text(c: &mut Ctx, max: usize) -> String {
    let n = match c.t.below(4) {
        0 => c.size(max),
        1 => c.size(max / 10),
        2 => c.size(3000),
        _ => c.size(200),
    };
    let rep = |s: &str, n: usize| s.repeat(n / s.len().max(1) + 1);
    match c.t.below(24) {
        0 => rep("[", n),
        1 => rep("{\"a\":", n),
        2 => rep("[[],", n),
        3 => format!("[{}", rep("[],", n)),
        4 => format!("[{}", rep("{},", n)),
        5 => format!("[{}0]", rep("0,", n)),
        6 => rep("9", n),
        7 => format!("0.{}", rep("0", n)),
        8 => format!("0.{}1e{}", rep("0", n), rep("9", c.size(400))),
        9 => format!("1e{}", rep("9", n)),
        10 => format!("-1.{}e-{}", rep("7", n), rep("0", n)),
        11 => format!("\"{}\"", rep("a", n)),
        12 => format!("\"{}\"", rep("\\n", n)),
        13 => format!("[{}\"\"]", rep("\"\\n\",", n)),
        14 => format!("\"{}\"", rep("\\ud83d\\ude0e", n)),
        15 => rep(" ", n),
        16 => format!("{}1{}", rep("\n", n), rep(" \t", n)),
        17 => format!("[{}x", rep("\n", n)),
        18 => format!("{{{}\"z\":1}}", rep("\"a\":1,", n)),
        19 => format!("[{}1]", rep("\"\\u00e9\\\\abcdefghijklmnopqrstuvwxyz0123456789\",", n)),
        20 => format!("[{}1]", rep("{\"\\n\":[{\"\\t\":\"\\r\"}]},", n)),
        21 => format!("[{}", rep("1.5e10,-0.25,18446744073709551616,", n)),
        22 => {
            let d = c.size(600);
            deep_text(c, d)
        }
        _ => {
            // an object with many distinct keys
            let m = n / 12;
            let mut s = String::from("{");
            for i in 0..m {
                s.push_str(&format!("\"{}\":{},", i.wrapping_mul(2654435761) % 1000003, i % 10));
            }
            s.push_str("\"end\":0}");
            s
        }
    }
}

/// Parse with every monitor on: work (edges), live and total memory.
pub fn metered_parse(c: &mut Ctx, text: &str) -> R {
    let s0 = rt::steps();
    let (live0, _) = rt::live();
    let peak0 = rt::reset_peak();
    let total0 = rt::total();
    let r = json::parse(text);
    let steps = rt::steps() - s0;
    let peak = rt::peak().saturating_sub(live0);
    let total = rt::total() - total0;
    rt::restore_peak(peak0);
    let n = text.len() as u64;
    let log = (n + 2).ilog2() as u64;
    if rt::has_cov() {
        // each byte costs a few edges; keys cost a lookup each (log n edges when hashes spread)
        let limit = 20_000 + n * (120 + 6 * log);
        ensure!(steps <= limit, "parsing {} bytes executed {} edges (bound {}): {}", n, steps, limit, show(text));
        c.fn_("edges_executed", steps);
    }
    // live memory: at most a few containers per byte pair; total adds the growth of vectors
    ensure!(peak as u64 <= 100_000 + n * 300, "parsing {} bytes had {} bytes live at once: {}", n, peak, show(text));
    ensure!(total as u64 <= 100_000 + n * 900, "parsing {} bytes allocated {} bytes in total: {}", n, total, show(text));
    c.fn_("bytes_parsed", n);
    match r {
        Ok(v) => {
            c.f("returned_ok");
            drop(v)
        }
        Err(_) => c.f("returned_err"),
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> R {
    let big = c.t.chance(1, 40);
    let t = match c.t.below(4) {
        0 => gen_text(c),
        _ => hostile_text(c, if big { 400_000 } else { 8_000 }),
    };
    let t = match c.t.below(5) {
        0 => {
            // cut anywhere
            let k = c.t.below(t.len() + 1);
            let mut k = k.min(t.len());
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t[..k].to_string()
        }
        1 if t.len() < 20_000 => mutate_text(c, &t),
        _ => t,
    };
    c.describe(|| jstr(&clip(&t, 200)));
    c.nt(hash_bytes(t.as_bytes()));
    // hashes of adversarial keys are exempt from the work bound: the generators of
    // this property use colliding keys only in small documents
    metered_parse(c, &t)?;
    // exact-size heap copy: a read past the end hits the allocator's red zone
    if t.len() < 2000 {
        let b: Box<str> = t.clone().into_boxed_str();
        let _ = json::parse(&b);
        // every prefix
        if t.len() < 120 && c.t.chance(1, 4) {
            for (i, _) in t.char_indices() {
                let b: Box<str> = t[..i].to_string().into_boxed_str();
                let _ = json::parse(&b);
                c.evals += 1;
            }
            c.f("all_prefixes");
        }
        // a slice out of a larger text: nothing beyond the slice may matter
        if c.t.chance(1, 4) {
            let k = c.t.below(t.len() + 1);
            if t.is_char_boundary(k) {
                let a = json::parse(&t[..k]);
                let own = t[..k].to_string();
                let b = json::parse(&own);
                ensure!(a == b, "parse of a slice depends on what follows it: {}", show(&t));
                c.f("slices");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C04

pub fn check_error(c: &mut Ctx, text: &str) -> R {
    let r = refparse(text, LIB);
    let want = match r.result {
        Ok(_) => {
            c.f("valid");
            return Ok(());
        }
        Err(e) => e,
    };
    let got = match json::parse(text) {
        Ok(_) => return Err(format!("invalid document accepted: {}", show(text))),
        Err(e) => e,
    };
    if r.big {
        return Ok(());
    }
    match want {
        RefErr::Eof => {
            c.f("truncated");
            ensure!(got == Error::UnexpectedEndOfJson, "truncated document reported as {:?}: {}", got, show(text));
            ensure!(!format!("{}", got).is_empty(), "empty message");
        }
        RefErr::Unexpected(at) => {
            c.f("unexpected");
            let (ch, line, col) = position(text, at);
            if line > 1 {
                c.f("unexpected_later_line");
            }
            if col > 1 && text[..at].len() != text[..at].chars().count() {
                c.f("unexpected_after_multibyte");
            }
            match &got {
                Error::UnexpectedCharacter { ch: g, line: l, column: k } => {
                    ensure!(*g == ch && *l == line && *k == col,
                        "first offending character is {:?} at {}:{}, reported {:?} at {}:{} in {}", ch, line, col, g, l, k, show(text));
                    let msg = format!("{}", got);
                    ensure!(msg.contains(ch) && msg.contains(&line.to_string()) && msg.contains(&col.to_string())
                        && msg.contains(&format!("({}:{})", line, col)),
                        "message {:?} does not show {:?} {}:{}", msg, ch, line, col);
                }
                e => return Err(format!("unexpected character {:?} at {}:{} reported as {:?}: {}", ch, line, col, e, show(text))),
            }
        }
        RefErr::Depth => {
            c.f("depth");
        }
        RefErr::Surrogate => {
            c.f("surrogate");
        }
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) -> R {
    let t = match c.t.below(8) {
        0 => gen_text(c),
        1 => {
            // deep in a large text
            let n = c.size(5000);
            let m = gen_value(c, Shape { nodes: 14, depth: 5, strlen: 60, nan: false });
            let (t, _) = emit(c, &m);
            let s = c.t.seed();
            let mut r = Rng::new(s);
            let mut pre = String::from("[");
            while pre.len() < n {
                let l = r.below(40);
                pre.push_str(&format!("\"{}\",{}", "é😎a日"[..].chars().cycle().skip(l % 4).take(l).collect::<String>(), ["\n", "\r\n", " ", "", "\n\n\t"][r.below(5)]));
            }
            let t = mutate_text(c, &t);
            format!("{}{}]", pre, t)
        }
        2 | 3 => {
            // truncation
            let m = gen_value(c, Shape { nodes: 14, depth: 5, strlen: 60, nan: false });
            let (t, _) = emit(c, &m);
            let mut k = c.t.below(t.len() + 1).min(t.len());
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t[..k].to_string()
        }
        _ => {
            let m = gen_value(c, Shape { nodes: 14, depth: 5, strlen: 60, nan: false });
            let (t, _) = emit(c, &m);
            if t.len() > 20_000 { t } else { mutate_text(c, &t) }
        }
    };
    c.describe(|| jstr(&t));
    c.nt(hash_bytes(t.as_bytes()));
    check_error(c, &t)
}

pub fn c04_enums() -> u64 {
    STATES.len() as u64 * 8
}
pub fn c04_enum(c: &mut Ctx, i: u64) -> R {
    let st = STATES[(i / 8) as usize];
    let mut k = i % 8;
    let pres: &[(&str, &str)] = &[("", ""), ("\n", ""), ("[\"é😎\",\n ", "]"), ("{\"日\r\n\":1}", ""), ("[\"日\",\"\",\r\n\n\"é\", ", "")];
    while k < CHARS {
        let ch = statechar(k);
        for tail in ["", "\"", "]", "0", "x"] {
            for (p, q) in &pres[..if k < 0x80 { 5 } else { 3 }] {
                let t = format!("{}{}{}{}{}", p, st, ch, tail, q);
                check_error(c, &t)?;
                c.evals += 1;
            }
        }
        k += 8;
    }
    check_error(c, st)?;
    c.f("enum_state_block");
    Ok(())
}

// ------------------------------------------------------------ C05

pub fn check_literal(c: &mut Ctx, lit: &str) -> R {
    let want = Dec::from_literal(lit);
    let big = lit.trim_start_matches('-').bytes().take_while(|b| b.is_ascii_digit()).count() > 32780;
    for style in 0..4 {
        let text = match style {
            0 => lit.to_string(),
            1 => format!("[{}]", lit),
            2 => format!("{{\"a\":{},\"b\":{} }}", lit, lit),
            _ => format!(" {}\n", lit),
        };
        let v = match json::parse(&text) {
            Ok(v) => v,
            Err(e) => {
                ensure!(big, "number literal refused with {:?}: {}", e, show(&text));
                c.f("big_refused");
                return Ok(());
            }
        };
        let n = match style {
            0 | 3 => v.as_number(),
            1 => v[0].as_number(),
            _ => v["b"].as_number(),
        };
        let n = match n {
            Some(n) => n,
            None => return Err(format!("number literal not read as a number: {}", show(&text))),
        };
        literal_ok(&n, &want).map_err(|e| format!("{} in {}", e, show(&text)))?;
        if style == 2 {
            literal_ok(&v["a"].as_number().unwrap_or(json::number::NAN), &want).map_err(|e| format!("{} in {}", e, show(&text)))?;
        }
        if lit.len() > 300 {
            break;
        }
    }
    c.f(if want.fits_u64() && want.lo >= -32768 && want.e <= 32767 { "exact" } else if !want.fits_u64() { "rounded" } else { "saturated" });
    Ok(())
}

pub fn c05(c: &mut Ctx) -> R {
    let max = if c.t.chance(1, 200) { 70_000 } else { 60 };
    let lit = match c.t.below(5) {
        0 => {
            let (n, m, e) = gen_parts(c);
            let s = c.t.seed();
            respell(&Dec::from_parts(n, m, e as i64), &mut Rng::new(s))
        }
        _ => gen_numlit(c, max),
    };
    c.describe(|| clip(&lit, 200));
    if lit.len() > 1 {
        c.nt(hash_bytes(lit.as_bytes()));
    }
    check_literal(c, &lit)?;
    // the same value spelled differently is read as the same value
    if c.t.chance(1, 4) && lit.len() < 100 {
        let want = Dec::from_literal(&lit);
        if want.fits_u64() && want.lo > -30000 && want.e < 30000 {
            let s = c.t.seed();
            let other = respell(&want, &mut Rng::new(s));
            check_literal(c, &other)?;
            c.evals += 1;
            c.f("respelled");
        }
    }
    Ok(())
}

/// all number strings over the alphabet that are valid, and digit runs of every length
pub fn c05_enums() -> u64 {
    numstrings() / 343 + 1 + 64 * 4
}
pub fn c05_enum(c: &mut Ctx, i: u64) -> R {
    let n1 = numstrings() / 343 + 1;
    if i < n1 {
        for j in i * 343..((i + 1) * 343).min(numstrings()) {
            let s = numstring(j);
            if let Ok(M::Num(_)) = refparse(&s, STRICT).result {
                check_literal(c, &s)?;
                c.evals += 1;
            }
        }
        c.f("enum_number_block");
        return Ok(());
    }
    let i = i - n1;
    let len = (i / 4) as usize + 1;
    let style = i % 4;
    for d in 0..10u8 {
        let run = match style {
            0 => std::iter::repeat((b'0' + d) as char).take(len).collect::<String>(),
            1 => format!("1{}", std::iter::repeat((b'0' + d) as char).take(len).collect::<String>()),
            2 => format!("{}{}", "18446744073709551615", std::iter::repeat((b'0' + d) as char).take(len % 8).collect::<String>()),
            _ => format!("{}{}", "576460752303423500".chars().take(len % 19).collect::<String>(), (b'0' + d) as char),
        };
        let t = run.trim_start_matches('0');
        let t = if t.is_empty() { "0" } else { t };
        for dot in 0..=t.len() {
            let (a, b) = t.split_at(dot);
            let a = if a.is_empty() { "0" } else { a };
            for e in ["", "e5", "E-5", "e+400", "e-32768", "e32767", "e99999999999999999999", "e-99999999999999999999"] {
                for s in ["", "-"] {
                    let l = if b.is_empty() { format!("{}{}{}", s, a, e) } else { format!("{}{}.{}{}", s, a, b, e) };
                    check_literal(c, &l)?;
                    c.evals += 1;
                }
            }
        }
    }
    c.f("enum_digit_runs");
    Ok(())
}

pub fn value_of(text: &str) -> Option<JsonValue> {
    json::parse(text).ok()
}
