//! C30: the generators of the crate driven call by call.

use super::ser::{faulty, Act};
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use json::codegen::{DumpGenerator, Generator, PrettyGenerator, PrettyWriterGenerator, WriterGenerator};
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use std::io::Write;

/// One call of the Generator trait.
enum Op {
    Json(JsonValue),
    Object(Object),
    Str(String),
    Num(Number),
    Bytes(String),
    Char(u8),
    Min(String, u8),
    Raw(String),
    NewLine,
    Indent,
    Dedent,
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Json(_) => "write_json",
            Op::Object(_) => "write_object",
            Op::Str(_) => "write_string",
            Op::Num(_) => "write_number",
            Op::Bytes(_) => "write",
            Op::Char(_) => "write_char",
            Op::Min(..) => "write_min",
            Op::Raw(_) => "get_writer",
            Op::NewLine => "new_line",
            Op::Indent => "indent",
            Op::Dedent => "dedent",
        }
    }
}

fn drive<G: Generator>(g: &mut G, op: &Op) -> std::io::Result<()> {
    match op {
        Op::Json(v) => g.write_json(v),
        Op::Object(o) => g.write_object(o),
        Op::Str(s) => g.write_string(s),
        Op::Num(n) => g.write_number(n),
        Op::Bytes(s) => g.write(s.as_bytes()),
        Op::Char(b) => g.write_char(*b),
        Op::Min(a, b) => g.write_min(a.as_bytes(), *b),
        Op::Raw(s) => g.get_writer().write_all(s.as_bytes()),
        Op::NewLine => g.new_line(),
        Op::Indent => {
            g.indent();
            Ok(())
        }
        Op::Dedent => {
            g.dedent();
            Ok(())
        }
    }
}

/// What the call stands for. `spaces` is None for the compact generators.
fn expect(op: &Op, spaces: Option<u16>, level: &mut usize, out: &mut Vec<u8>) {
    let value = |text: String, level: usize, out: &mut Vec<u8>| match spaces {
        None => out.extend_from_slice(text.as_bytes()),
        Some(n) => {
            let base = " ".repeat(level * n as usize);
            for (i, line) in ref_pretty(&text, &" ".repeat(n as usize)).split('\n').enumerate() {
                if i > 0 {
                    out.push(b'\n');
                    out.extend_from_slice(base.as_bytes());
                }
                out.extend_from_slice(line.as_bytes());
            }
        }
    };
    match op {
        Op::Json(v) => value(v.dump(), *level, out),
        Op::Object(o) => value(o.dump(), *level, out),
        Op::Str(s) => value(JsonValue::String(s.clone()).dump(), *level, out),
        Op::Num(n) => value(JsonValue::Number(*n).dump(), *level, out),
        Op::Bytes(s) | Op::Raw(s) => out.extend_from_slice(s.as_bytes()),
        Op::Char(b) => out.push(*b),
        Op::Min(a, b) => match spaces {
            None => out.push(*b),
            Some(_) => out.extend_from_slice(a.as_bytes()),
        },
        Op::NewLine => {
            if let Some(n) = spaces {
                out.push(b'\n');
                out.extend_from_slice(" ".repeat(*level * n as usize).as_bytes());
            }
        }
        Op::Indent => *level += 1,
        Op::Dedent => *level -= 1,
    }
}

/// A way to end a script: all levels closed, none closed below zero.
fn gen_ops(c: &mut Ctx) -> Vec<Op> {
    let n = c.size(40);
    let mut level = 0usize;
    let mut ops = vec![];
    let sh = Shape { nodes: 12, depth: 4, strlen: 70, nan: true };
    for _ in 0..n {
        let op = match c.t.below(14) {
            0..=2 => {
                let m = gen_value(c, sh);
                let s = c.t.seed();
                Op::Json(build(&m, &mut Rng::new(s)))
            }
            3 => {
                let m = gen_value(c, sh);
                let s = c.t.seed();
                match build(&m, &mut Rng::new(s)) {
                    JsonValue::Object(o) => Op::Object(o),
                    v => {
                        let mut o = Object::new();
                        let k = gen_key(c);
                        o.insert(&k, v);
                        Op::Object(o)
                    }
                }
            }
            4 => Op::Str(gen_string(c, 90)),
            5 => {
                let (p, m, e) = gen_parts(c);
                Op::Num(unsafe { Number::from_parts_unchecked(p, m, e) })
            }
            6 => Op::Bytes(gen_string(c, 40)),
            7 => Op::Char(*c.t.pick(b",:[]{} \n\t\"\\ax09~\x00\x7f")),
            8 => {
                let s = c.t.pick(&[": ", ", ", "", ":", "  ", " => "]).to_string();
                Op::Min(s, *c.t.pick(b":, =\n"))
            }
            9 => Op::Raw(gen_string(c, 40)),
            10 | 11 => Op::NewLine,
            12 => {
                level += 1;
                Op::Indent
            }
            _ => {
                if level == 0 {
                    Op::NewLine
                } else {
                    level -= 1;
                    Op::Dedent
                }
            }
        };
        ops.push(op);
    }
    if c.t.chance(1, 30) {
        // deep indentation set up by the caller
        let k = 200 + c.t.below(400);
        for _ in 0..k {
            ops.insert(0, Op::Indent);
        }
    }
    ops
}

pub fn c30(c: &mut Ctx) -> R {
    let ops = gen_ops(c);
    let deep = ops.len() > 200;
    let spaces = if deep { c.t.below(4) as u16 } else { *c.t.pick(&[0u16, 1, 2, 2, 3, 4, 8, 17, 255, 256]) };
    c.describe(|| format!("{} calls, {} spaces: {}", ops.len(), spaces, clip(&ops.iter().map(|o| o.name()).collect::<Vec<_>>().join(" "), 300)));
    for o in &ops {
        c.f(o.name());
    }
    let mut texts = [vec![], vec![]];
    for (i, sp) in [None, Some(spaces)].into_iter().enumerate() {
        let mut level = 0;
        for op in &ops {
            expect(op, sp, &mut level, &mut texts[i]);
        }
    }
    c.nt(hash_bytes(&texts[0]) ^ hash_bytes(&texts[1]).rotate_left(9));
    let show = |b: &[u8]| clip(&jstr(&String::from_utf8_lossy(b)), 300);

    // in memory, watched after every call
    macro_rules! memory {
        ($name:expr, $g:expr, $sp:expr, $all:expr) => {{
            let mut g = $g;
            let mut want = vec![];
            let mut level = 0;
            for (i, op) in ops.iter().enumerate() {
                ensure!(drive(&mut g, op).is_ok(), "{}: call {} ({}) failed", $name, i, op.name());
                let from = want.len();
                expect(op, $sp, &mut level, &mut want);
                let w: &Vec<u8> = g.get_writer();
                ensure!(w.len() == want.len() && w[from..] == want[from..], "{}: call {} ({}) wrote {} instead of {}", $name, i, op.name(), show(&w[from.min(w.len())..]), show(&want[from..]));
                c.evals += 1;
            }
            let s = g.consume();
            ensure!(s.as_bytes() == &$all[..], "{}: consume gives {} instead of {}", $name, show(s.as_bytes()), show(&$all));
        }};
    }
    memory!("DumpGenerator", DumpGenerator::new(), None, texts[0]);
    memory!("PrettyGenerator", PrettyGenerator::new(spaces), Some(spaces), texts[1]);

    // into a writer; a new generator takes over at each cut, where no level is open
    let mut cuts = vec![0];
    let mut level = 0;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Indent => level += 1,
            Op::Dedent => level -= 1,
            _ => {}
        }
        if level == 0 && c.t.chance(1, 4) {
            cuts.push(i + 1);
        }
    }
    cuts.push(ops.len());
    c.fn_("generators_on_one_writer", 2 * (cuts.len() as u64 - 1));
    for pretty in [false, true] {
        let want = &texts[pretty as usize];
        let fail = c.t.chance(1, 3);
        let n = c.t.below(12);
        let mut script: Vec<Act> = (0..n).map(|_| *c.t.pick(&[Act::Full, Act::Full, Act::Short(1), Act::Short(3), Act::Short(7), Act::Interrupted])).collect();
        if fail {
            script.push(*c.t.pick(&[Act::Zero, Act::Fail(std::io::ErrorKind::BrokenPipe), Act::Fail(std::io::ErrorKind::WouldBlock), Act::Fail(std::io::ErrorKind::Other)]));
        }
        let mut w = faulty(script, Act::Full);
        let name = if pretty { "PrettyWriterGenerator" } else { "WriterGenerator" };
        let mut res = Ok(());
        'all: for k in 0..cuts.len() - 1 {
            let part = &ops[cuts[k]..cuts[k + 1]];
            if pretty {
                let mut g = PrettyWriterGenerator::new(&mut w, spaces);
                for op in part {
                    res = drive(&mut g, op);
                    if res.is_err() {
                        break 'all;
                    }
                }
            } else {
                let mut g = WriterGenerator::new(&mut w);
                for op in part {
                    res = drive(&mut g, op);
                    if res.is_err() {
                        break 'all;
                    }
                }
            }
        }
        match (&res, w.failed) {
            (Ok(()), None) => ensure!(w.got == *want, "{} wrote {} instead of {}", name, show(&w.got), show(want)),
            (Err(e), Some(kind)) => {
                ensure!(e.kind() == kind, "{}: error {:?} of the writer changed to {:?}", name, kind, e.kind());
                ensure!(w.after_failure == 0, "{}: {} writes after the failure", name, w.after_failure);
                ensure!(want.starts_with(&w.got), "{}: what was written before the failure is not a prefix: {}", name, show(&w.got));
                c.f("writer_failed");
            }
            (Ok(()), Some(kind)) => return Err(format!("{}: the writer's error {:?} was not returned", name, kind)),
            (Err(e), None) => return Err(format!("{}: error {:?} without a failure of the writer", name, e.kind())),
        }
        c.evals += 1;
    }
    Ok(())
}

/// Long scripts: many documents through one generator, and large ones.
pub fn c30_enums() -> u64 {
    27
}

/// More open indents than a 16-bit counter holds.
fn many_levels(c: &mut Ctx, spaces: u16) -> R {
    const AT: &[usize] = &[0, 1, 127, 128, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000];
    let mut g = PrettyGenerator::new(spaces);
    let mut out: Vec<u8> = vec![];
    let mut h = PrettyWriterGenerator::new(&mut out, spaces);
    let mut dump = DumpGenerator::new();
    let v = json::array![1, { a: [] }];
    let mut want = vec![];
    let last = *AT.last().unwrap();
    // up to the last level, then down again
    for k in 0..2 * last {
        let level = if k < last { k } else { 2 * last - k };
        if AT.contains(&level) {
            let mut l = level;
            for op in [Op::NewLine, Op::Json(v.clone())] {
                expect(&op, Some(spaces), &mut l, &mut want);
                ensure!(drive(&mut g, &op).is_ok() && drive(&mut h, &op).is_ok() && drive(&mut dump, &op).is_ok(), "{} failed under {} indents", op.name(), level);
            }
            let got = g.get_writer();
            ensure!(*got == want, "PrettyGenerator: a line under {} indents of {} spaces differs at {}", level, spaces, got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0));
            ensure!(h.get_writer() == got, "PrettyWriterGenerator: a line under {} indents of {} spaces differs", level, spaces);
            c.evals += 1;
        }
        let op = if k < last { Op::Indent } else { Op::Dedent };
        ensure!(drive(&mut g, &op).is_ok() && drive(&mut h, &op).is_ok() && drive(&mut dump, &op).is_ok(), "{} failed", op.name());
    }
    let lines = dump.consume();
    ensure!(lines == v.dump().repeat(lines.len() / v.dump().len()), "DumpGenerator: indents show in {}", clip(&lines, 100));
    Ok(())
}

pub fn c30_enum(c: &mut Ctx, i: u64) -> R {
    if i >= 24 {
        if c.small {
            return Ok(());
        }
        many_levels(c, [0u16, 1, 3][(i - 24) as usize])?;
        c.nt(i);
        c.f("more_than_65535_indents");
        return Ok(());
    }
    let mut r = Rng::new(i + 77);
    let count = [1usize, 2, 3, 40, 400, 3000][(i % 6) as usize];
    let spaces = [0u16, 2, 4, 1][(i / 6) as usize];
    let mut dump = DumpGenerator::new();
    let mut pretty = PrettyGenerator::new(spaces);
    let mut w1: Vec<u8> = vec![];
    let mut w2: Vec<u8> = vec![];
    let (mut want1, mut want2) = (vec![], vec![]);
    {
        let mut g1 = WriterGenerator::new(&mut w1);
        let mut g2 = PrettyWriterGenerator::new(&mut w2, spaces);
        let (mut l1, mut l2) = (0, 0);
        for k in 0..count {
            let len = (60_000 / count) + r.below(40);
            let v = match k % 4 {
                0 => JsonValue::from(fill_string(len, r.below(6), &mut r)),
                1 => JsonValue::from((0..(len / 6) as u64).collect::<Vec<u64>>()),
                2 => {
                    let mut o = Object::new();
                    for j in 0..len / 12 {
                        o.insert(&format!("k{}", j), (j as f64 / 3.0).into());
                    }
                    JsonValue::Object(o)
                }
                _ => JsonValue::from(vec![JsonValue::Null, JsonValue::from("x\ny\"z"), JsonValue::new_object()]),
            };
            for op in [Op::Json(v), Op::NewLine, Op::Char(b'\n')] {
                let r = [drive(&mut dump, &op), drive(&mut pretty, &op), drive(&mut g1, &op), drive(&mut g2, &op)];
                ensure!(r.iter().all(|x| x.is_ok()), "{} failed at document {}", op.name(), k);
                expect(&op, None, &mut l1, &mut want1);
                expect(&op, Some(spaces), &mut l2, &mut want2);
                c.evals += 4;
            }
        }
    }
    let what = format!("{} documents through one generator, {} spaces", count, spaces);
    ensure!(w1 == want1, "{}: WriterGenerator differs", what);
    ensure!(w2 == want2, "{}: PrettyWriterGenerator differs", what);
    ensure!(dump.consume().into_bytes() == want1, "{}: DumpGenerator differs", what);
    ensure!(pretty.consume().into_bytes() == want2, "{}: PrettyGenerator differs", what);
    c.nt(i);
    c.f("enum_documents_through_one_generator");
    Ok(())
}
