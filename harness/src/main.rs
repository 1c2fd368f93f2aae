mod engine;
mod gen;
mod model;
mod props;
mod rt;

use engine::*;
use props::*;

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

const STEPS: u64 = 400_000_000;

fn table() -> Vec<Prop> {
    macro_rules! p {
        ($id:expr, $rule:expr, $run:path) => {
            Prop { id: $id, rule: $rule, run: $run, enums: no_enums, enum_run: no_enum_run, step_limit: STEPS }
        };
        ($id:expr, $rule:expr, $run:path, $n:path, $e:path) => {
            Prop { id: $id, rule: $rule, run: $run, enums: $n, enum_run: $e, step_limit: STEPS }
        };
        // two enumerations, one after the other
        ($id:expr, $rule:expr, $run:path, $n:path, $e:path, $n2:path, $e2:path) => {
            Prop { id: $id, rule: $rule, run: $run, enums: || $n() + $n2(), enum_run: |c, i| if i < $n() { $e(c, i) } else { $e2(c, i - $n()) }, step_limit: STEPS }
        };
    }
    vec![
        p!("C01", "distinct texts parsed", parse::c01, parse::c01_enums, parse::c01_enum, big::texts_n, big::c01),
        p!("C02", "distinct documents with more than one node", parse::c02, parse::c02_enums, parse::c02_enum, big::c02_n, big::c02),
        p!("C03", "distinct hostile texts", parse::c03, big::c03_n, big::c03),
        p!("C04", "distinct rejected texts", parse::c04, parse::c04_enums, parse::c04_enum, big::texts_n, big::c04),
        p!("C05", "distinct number literals", parse::c05, parse::c05_enums, parse::c05_enum, big::c05_n, big::c05),
        p!("C06", "distinct values with more than one node", ser::c06, ser::c06_enums, ser::c06_enum, big::n_shapes, big::c06),
        p!("C07", "distinct values", ser::c07, big::n_shapes, big::c07),
        p!("C08", "distinct values and widths", ser::c08, big::c08_n, big::c08),
        p!("C09", "distinct values and write schedules", ser::c09, big::n_shapes, big::c09),
        p!("C10", "distinct sign, mantissa, exponent triples", num::c10, num::c10_enums, num::c10_enum),
        p!("C11", "distinct floats", num::c11, num::c11_enums, num::c11_enum),
        p!("C12", "distinct sign, mantissa, exponent triples", num::c12, num::c12_enums, num::c12_enum),
        p!("C13", "distinct sign, mantissa, exponent triples", num::c13, num::c13_enums, num::c13_enum),
        p!("C14", "distinct groups of numbers compared pairwise", num::c14, num::c14_enums, num::c14_enum),
        p!("C15", "distinct numbers and points", num::c15, num::c15_enums, num::c15_enum),
        p!("C16", "distinct final states and sizes along the history", obj::c16, obj::c16_enums, obj::c16_enum, big::c16_n, big::c16),
        p!("C17", "distinct final documents", obj::c17, big::c17_n, big::c17),
        p!("C18", "distinct pairs of values", obj::c18, big::c18_n, big::c18),
        p!("C19", "distinct histories", obj::c19, big::n_shapes, big::c19),
        p!("C20", "distinct values and thread plans", thr::c20, thr::c20_enums, thr::c20_enum),
        p!("C21", "distinct final states", mem::c21, big::n_shapes, big::c21),
        p!("C22", "distinct operation sequences", mem::c22, big::n_shapes, big::c22),
        p!("C24", "distinct converted contents", val::c24, val::c24_enums, val::c24_enum, big::c24_n, big::c24),
        p!("C25", "distinct values read", val::c25, big::n_shapes, big::c25),
        p!("C26", "distinct values with more than one node", ser::c26, big::n_shapes, big::c26),
        p!("C27", "distinct sequences of results", pure::c27, pure::c27_enums, pure::c27_enum),
        p!("C28", "distinct operations, kinds of content and sizes", scale::c28, scale::c28_enums, scale::c28_enum),
        p!("C29", "distinct sequences of allocation checks", scale::c29, scale::c29_enums, scale::c29_enum),
        p!("C30", "distinct pairs of compact and pretty outputs", gens::c30, gens::c30_enums, gens::c30_enum),
        p!("C31", "distinct results compared", pure::c31, pure::c31_enums, pure::c31_enum),
        p!("C32", "distinct sequences of operations and panics", unwind::c32, unwind::c32_enums, unwind::c32_enum),
    ]
}

fn load_dict(path: &str) -> Dict {
    // lines: "i <u64>" or "s <hex>"
    let mut d = Dict::default();
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("i ") {
                if let Ok(v) = x.parse() {
                    d.ints.push(v);
                }
            } else if let Some(x) = l.strip_prefix("s ") {
                if let Ok(s) = String::from_utf8(unhex(x)) {
                    d.strs.push(s);
                }
            }
        }
    }
    d
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut opt = std::collections::HashMap::new();
    let mut i = 2;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            let v = args.get(i + 1).cloned().unwrap_or_default();
            opt.insert(k.to_string(), v);
            i += 2;
        } else {
            i += 1;
        }
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| opt.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let id = get("prop", "");
    if args.get(1).map(|s| s.as_str()) == Some("noop") {
        println!("usage: mon run|replay");
        return 0;
    }
    let props = table();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            return 3;
        }
    };
    let dict = if get("dict", "").is_empty() { Dict::default() } else { load_dict(&get("dict", "")) };
    if num("poison", 0) != 0 {
        rt::POISON.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    let variant = get("variant", "?");
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let cfg = RunCfg {
                seed: num("seed", 1),
                execs: num("execs", 1000),
                max_secs: num("max-secs", 60) as f64,
                shard: num("shard", 0),
                nshards: num("nshards", 1).max(1),
                dict,
                out: get("out", "/dev/null"),
                cur: get("cur", "/dev/null"),
                variant,
                guided: num("guided", 1) != 0,
            };
            run(p, &cfg)
        }
        Some("transcript") => pure::transcript(num("base", 1), num("count", 0), &get("out", "/dev/null")),
        Some("line") => pure::transcript_line(num("base", 1), num("index", 0)),
        Some("replay") => {
            let line = if get("case", "").is_empty() { std::fs::read_to_string(get("file", "")).unwrap_or_default() } else { get("case", "") };
            let line = line.lines().find(|l| l.starts_with("tape") || l.starts_with("enum") || l.starts_with("fresh")).unwrap_or("").to_string();
            let (en, tape) = parse_case(&line);
            let mut c = new_ctx(dict, &variant);
            c.t = tape;
            let o = run_case(p, &mut c, en);
            println!("case: {}", clip(&line, 400));
            println!("input: {}", c.desc.clone().unwrap_or_default());
            match o {
                Outcome::Ok => {
                    println!("result: holds");
                    0
                }
                Outcome::Fail(m) => {
                    println!("result: violated: {}", m);
                    1
                }
                Outcome::Harness(m) => {
                    println!("result: harness error: {}", m);
                    3
                }
            }
        }
        _ => {
            eprintln!("usage: mon run|replay --prop ID ...");
            3
        }
    }
}

fn main() {
    install_panic_hook();
    let stack = if cfg!(miri) { 16 << 20 } else { 512 << 20 };
    let code = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(real_main)
        .expect("thread")
        .join()
        .unwrap_or(3);
    std::process::exit(code);
}
