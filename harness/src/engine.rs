//! Workload engine: choice tapes, coverage feedback, shrinking and replay.
//!
//! A case is a *tape*: the bytes of the random choices it made. Bias is applied
//! while recording, and a recorded tape is interpreted without context, so a
//! tape can be stored, mutated (coverage feedback), shrunk and replayed.

use crate::rt;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0x1234_5678_9ABC_DEF1;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}

// ---------------------------------------------------------------- tape

pub const MAX_TAPE: usize = 1 << 18;

#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
}

pub struct Tape {
    pub data: Vec<u8>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn new(prefix: Vec<u8>, rng: Option<Rng>) -> Tape {
        Tape { data: prefix, pos: 0, rng }
    }
    pub fn position(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn rewind(&mut self) {
        self.pos = 0;
    }
    fn is_fresh(&self) -> bool {
        self.pos >= self.data.len() && self.rng.is_some() && self.data.len() < MAX_TAPE
    }
    fn take<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0u8; N];
        for b in out.iter_mut() {
            if self.pos < self.data.len() {
                *b = self.data[self.pos];
                self.pos += 1;
            }
        }
        out
    }
    fn put(&mut self, b: &[u8]) {
        self.data.extend_from_slice(b);
        self.pos = self.data.len();
    }
    /// Draw `N` bytes; `f` chooses them when the tape is being recorded.
    fn draw<const N: usize>(&mut self, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if self.is_fresh() {
            let mut rng = self.rng.take().unwrap();
            let v = f(&mut rng);
            self.rng = Some(rng);
            let b = v.to_le_bytes();
            self.put(&b[..N]);
            let mut o = [0u8; 8];
            o[..N].copy_from_slice(&b[..N]);
            u64::from_le_bytes(o)
        } else {
            let b: [u8; N] = self.take();
            let mut o = [0u8; 8];
            o[..N].copy_from_slice(&b);
            u64::from_le_bytes(o)
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.draw::<1>(|r| r.next()) as u8
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            (self.draw::<1>(|r| r.below(n) as u64) as usize) % n
        } else {
            (self.draw::<4>(|r| r.below(n) as u64) as usize) % n
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // 0 on an exhausted tape means "no"
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn seed(&mut self) -> u64 {
        self.draw::<4>(|r| r.next())
    }
    pub fn raw64(&mut self) -> u64 {
        self.draw::<8>(|r| r.next())
    }
}

// ---------------------------------------------------------------- context

pub struct Ctx {
    pub t: Tape,
    pub dict: Dict,
    pub feat: BTreeMap<&'static str, u64>,
    pub desc: Option<String>,
    pub nontrivial: Option<u64>,
    pub variant: String,
    /// sizes are kept small (slow interpreters)
    pub small: bool,
    pub evals: u64,
}

pub const SIZES: &[u64] = &[
    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 28, 29, 30, 31, 32, 33, 34, 47, 48, 62, 63, 64, 65, 66, 95, 96, 127, 128, 129, 130,
    254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 600, 1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095,
    4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537,
];

impl Ctx {
    pub fn f(&mut self, name: &'static str) {
        *self.feat.entry(name).or_insert(0) += 1;
    }
    pub fn fn_(&mut self, name: &'static str, n: u64) {
        *self.feat.entry(name).or_insert(0) += n;
    }
    pub fn nt(&mut self, h: u64) {
        self.nontrivial = Some(h);
    }
    /// Describe the case (kept for samples and reports).
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        self.desc = Some(f());
    }

    /// A length or count in `0..=max`, boundary-biased, mostly small.
    pub fn size(&mut self, max: usize) -> usize {
        let max = if self.small { max.min(40) } else { max };
        let dict = &self.dict.ints;
        let v = self.t.draw::<4>(|r| match r.below(16) {
            0..=7 => r.below(6.min(max + 1)) as u64,
            8..=9 => r.below(24.min(max + 1)) as u64,
            10 => r.below(max + 1) as u64,
            11 => {
                let b = r.below(64 - (max as u64 | 1).leading_zeros() as usize + 1);
                r.next() & ((1u64 << b) - 1)
            }
            12 | 13 if !dict.is_empty() => {
                let mut v = 0;
                for _ in 0..8 {
                    v = dict[r.below(dict.len())].wrapping_add(r.below(3) as u64).wrapping_sub(1);
                    if v <= max as u64 {
                        break;
                    }
                }
                v
            }
            _ => {
                let n = SIZES.iter().filter(|&&s| s <= max as u64).count();
                SIZES[r.below(n)]
            }
        }) as usize;
        if v <= max { v } else { v % (max + 1) }
    }

    /// An interesting 64-bit integer.
    pub fn u64b(&mut self) -> u64 {
        let dict = &self.dict.ints;
        self.t.draw::<8>(|r| match r.below(14) {
            0 | 1 => r.below(20) as u64,
            2 => r.next() >> r.below(64),
            3 => (1u64 << r.below(64)).wrapping_add(r.below(5) as u64).wrapping_sub(2),
            4 | 5 => 10u64.pow(r.below(20) as u32).wrapping_add(r.below(5) as u64).wrapping_sub(2),
            6 if !dict.is_empty() => dict[r.below(dict.len())].wrapping_add(r.below(5) as u64).wrapping_sub(2),
            7 => u64::MAX - (r.below(40) as u64),
            8 => {
                // exactly k random digits
                let k = 1 + r.below(20) as u32;
                let lo = 10u64.pow(k - 1);
                lo.wrapping_add(r.next() % lo.saturating_mul(9))
            }
            9 => {
                // few digits and trailing zeros
                let z = r.below(20) as u32;
                (r.below(1000) as u64).saturating_mul(10u64.pow(z))
            }
            10 => {
                let m = [u8::MAX as u64, u16::MAX as u64, u32::MAX as u64, i8::MAX as u64, i16::MAX as u64, i32::MAX as u64,
                    i64::MAX as u64, 1 << 53, 1 << 24, 576460752303423500, u64::MAX / 10];
                m[r.below(m.len())].wrapping_add(r.below(9) as u64).wrapping_sub(4)
            }
            11 => {
                // random digit pattern: runs of 9s and 0s and others
                let mut v = 0u64;
                let n = 1 + r.below(20);
                for _ in 0..n {
                    let d = match r.below(4) { 0 => 0, 1 => 9, _ => r.below(10) as u64 };
                    v = v.wrapping_mul(10).wrapping_add(d);
                }
                v
            }
            _ => r.next(),
        })
    }

    /// An interesting decimal exponent.
    pub fn exp16(&mut self) -> i16 {
        let dict = &self.dict.ints;
        self.t.draw::<2>(|r| {
            let v: i16 = match r.below(10) {
                0 | 1 => 0,
                2 | 3 => r.below(12) as i16 - 6,
                4 => r.below(60) as i16 - 30,
                5 => r.below(800) as i16 - 400,
                6 => [i16::MAX, i16::MIN, i16::MAX - 1, i16::MIN + 1, i16::MAX - 19, i16::MAX - 20, i16::MIN + 20][r.below(7)],
                7 => {
                    let b = [-330, -324, -308, -60, -46, -38, -36, -35, -34, -33, -32, -23, -22, -20, -19, -18, -17, -16, -15, 15, 16, 17, 18, 19, 20, 21, 22, 23, 38, 60, 288, 291, 308, 309, 330];
                    b[r.below(b.len())] + r.below(3) as i16 - 1
                }
                8 if !dict.is_empty() => {
                    let v = dict[r.below(dict.len())] as i16;
                    if r.chance(1, 2) { v } else { v.wrapping_neg() }
                }
                _ => r.next() as i16,
            };
            v as u16 as u64
        }) as u16 as i16
    }
}

// ---------------------------------------------------------------- panics

struct PanicInfo {
    loc: String,
    msg: String,
}
static LAST_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut g) = LAST_PANIC.lock() {
            // keep the first of a case
            if g.is_none() {
                *g = Some(PanicInfo { loc, msg });
            }
        }
    }));
}

pub fn clear_panic() {
    if let Ok(mut g) = LAST_PANIC.lock() {
        *g = None;
    }
}

fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.contains("/repo/") || loc.contains("/verif/harness/") || loc.contains("harness/src/")
}

pub enum Outcome {
    Ok,
    Fail(String),
    Harness(String),
}

// ---------------------------------------------------------------- properties

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// number of exhaustively enumerated cases, and how to run one
    pub enums: fn() -> u64,
    pub enum_run: fn(&mut Ctx, u64) -> R,
    /// edges of the library one case may execute (cov build)
    pub step_limit: u64,
}

pub fn no_enums() -> u64 {
    0
}
pub fn no_enum_run(_: &mut Ctx, _: u64) -> R {
    Ok(())
}

/// What to report when a spawned thread panicked.
pub fn thread_panic() -> String {
    match LAST_PANIC.lock().unwrap().take() {
        Some(pi) if harness_location(&pi.loc) => format!("the monitor met an answer it did not expect, in a thread: panic at {}: {}", pi.loc, pi.msg),
        Some(pi) => format!("panic in a thread at {}: {}", pi.loc, pi.msg),
        None => "a thread panicked".into(),
    }
}

pub fn run_case(p: &Prop, c: &mut Ctx, en: Option<u64>) -> Outcome {
    clear_panic();
    c.desc = None;
    c.nontrivial = None;
    // enumerated cases include large values
    rt::begin_case(if en.is_some() { p.step_limit * 10 } else { p.step_limit });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match en {
        Some(i) => (p.enum_run)(c, i),
        None => (p.run)(c),
    }));
    rt::end_case();
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => {
            if m.starts_with("HARNESS") { Outcome::Harness(m) } else { Outcome::Fail(m) }
        }
        Err(_) => {
            let g = LAST_PANIC.lock().unwrap().take();
            match g {
                Some(pi) if harness_location(&pi.loc) => Outcome::Fail(format!("the monitor met an answer it did not expect: panic at {}: {}", pi.loc, pi.msg)),
                Some(pi) => Outcome::Fail(format!("panic at {}: {}", pi.loc, pi.msg)),
                None => Outcome::Harness("panic without information".into()),
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut o: String = s.chars().take(n).collect();
        o.push_str(&format!("...[{} bytes]", s.len()));
        o
    }
}

pub struct RunCfg {
    pub seed: u64,
    pub execs: u64,
    pub max_secs: f64,
    pub shard: u64,
    pub nshards: u64,
    pub dict: Dict,
    pub out: String,
    pub cur: String,
    pub variant: String,
    pub guided: bool,
}

struct Cur(Option<File>);
impl Cur {
    fn write(&self, s: &str) {
        if let Some(f) = &self.0 {
            let mut b = Vec::with_capacity(s.len() + 24);
            b.extend_from_slice(format!("{:016x}\n", s.len()).as_bytes());
            b.extend_from_slice(s.as_bytes());
            let _ = f.write_at(&b, 0);
        }
    }
}

/// Parse a case line: `tape <hex>` | `enum <i>` | `fresh <seed> <prefixhex>`.
pub fn parse_case(line: &str) -> (Option<u64>, Tape) {
    let mut w = line.split_whitespace();
    match w.next() {
        Some("enum") => (w.next().and_then(|x| x.parse().ok()), Tape::new(vec![], None)),
        Some("fresh") => {
            let seed = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let prefix = unhex(w.next().unwrap_or(""));
            (None, Tape::new(prefix, Some(Rng::new(seed))))
        }
        Some("tape") => (None, Tape::new(unhex(w.next().unwrap_or("")), None)),
        _ => (None, Tape::new(vec![], None)),
    }
}

pub fn new_ctx(dict: Dict, variant: &str) -> Ctx {
    Ctx {
        t: Tape::new(vec![], None),
        dict,
        feat: BTreeMap::new(),
        desc: None,
        nontrivial: None,
        variant: variant.to_string(),
        small: variant.starts_with("miri"),
        evals: 0,
    }
}

fn mutate(src: &[u8], other: &[u8], r: &mut Rng, dict: &Dict) -> Vec<u8> {
    let mut d = src.to_vec();
    for _ in 0..1 + r.below(4) {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len());
        match r.below(9) {
            0 => d[i] = r.next() as u8,
            1 => d[i] = d[i].wrapping_add(r.below(5) as u8).wrapping_sub(2),
            2 => {
                let n = 1 + r.below(8);
                let e = (i + n).min(d.len());
                d.drain(i..e);
            }
            3 => {
                let n = 1 + r.below(8);
                let ins: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
                d.splice(i..i, ins);
            }
            4 => {
                let n = 1 + r.below(32);
                let e = (i + n).min(d.len());
                let chunk = d[i..e].to_vec();
                let at = r.below(d.len());
                d.splice(at..at, chunk);
            }
            5 => d.truncate(i),
            6 if !other.is_empty() => {
                let j = r.below(other.len());
                d.truncate(i);
                d.extend_from_slice(&other[j..]);
            }
            7 if !dict.ints.is_empty() => {
                let v = dict.ints[r.below(dict.ints.len())].to_le_bytes();
                let n = [1, 2, 4, 8][r.below(4)];
                for k in 0..n {
                    if i + k < d.len() {
                        d[i + k] = v[k];
                    }
                }
            }
            _ => d[i] = [0, 1, 0xff, 0x7f, 0x80][r.below(5)],
        }
    }
    d.truncate(MAX_TAPE);
    d
}

fn shrink(p: &Prop, c: &mut Ctx, tape: Vec<u8>, msg: String, cur: &Cur) -> (Vec<u8>, String, String) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut best_desc = c.desc.clone().unwrap_or_default();
    let mut tries = 0;
    let mut attempt = |cand: &[u8], c: &mut Ctx, tries: &mut u32| -> Option<(String, String)> {
        *tries += 1;
        cur.write(&format!("tape {}", hex(cand)));
        c.t = Tape::new(cand.to_vec(), None);
        match run_case(p, c, None) {
            Outcome::Fail(m) => Some((m, c.desc.clone().unwrap_or_default())),
            _ => None,
        }
    };
    let mut progress = true;
    while progress && tries < 1500 && start.elapsed() < Duration::from_secs(5) {
        progress = false;
        let mut n = (best.len() / 2).max(1);
        while n >= 1 {
            let mut i = 0;
            while i < best.len() && tries < 1500 && start.elapsed() < Duration::from_secs(5) {
                let mut cand = best.clone();
                let e = (i + n).min(cand.len());
                cand.drain(i..e);
                if let Some((m, d)) = attempt(&cand, c, &mut tries) {
                    best = cand;
                    best_msg = m;
                    best_desc = d;
                    progress = true;
                    continue;
                }
                let mut cand = best.clone();
                let mut changed = false;
                for b in &mut cand[i..e] {
                    if *b != 0 {
                        *b = 0;
                        changed = true;
                    }
                }
                if changed {
                    if let Some((m, d)) = attempt(&cand, c, &mut tries) {
                        best = cand;
                        best_msg = m;
                        best_desc = d;
                        progress = true;
                    }
                }
                i += n;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
    }
    (best, best_msg, best_desc)
}

pub struct Report {
    pub evals: u64,
    pub execs: u64,
    pub enums_done: u64,
    pub enums_total: u64,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub edges: u64,
    pub guards: u64,
    pub corpus: u64,
    pub steps: u64,
    pub secs: f64,
    pub stopped: &'static str,
}

pub fn run(p: &Prop, cfg: &RunCfg) -> i32 {
    let start = Instant::now();
    let mut c = new_ctx(cfg.dict.clone(), &cfg.variant);
    let cur = Cur(File::create(&cfg.cur).ok());
    let mut master = Rng::new(cfg.seed);
    let mut rep = Report {
        evals: 0, execs: 0, enums_done: 0, enums_total: (p.enums)(), hashes: HashSet::new(), samples: vec![], edges: 0,
        guards: 0, corpus: 0, steps: 0, secs: 0.0, stopped: "count",
    };
    let guided = cfg.guided && rt::has_cov();
    let mut corpus: Vec<Vec<u8>> = vec![];
    let mut seen = vec![0u8; rt::MAXG];
    let mut fail: Option<(Option<u64>, Vec<u8>, String)> = None;
    let mut harness: Option<String> = None;
    let base_dict = c.dict.ints.len();

    let out_of_time = |start: &Instant| start.elapsed().as_secs_f64() > cfg.max_secs;

    // 1. exhaustive part, split over the shards
    let mut i = cfg.shard;
    while i < rep.enums_total {
        if (rep.enums_done & 63) == 0 && start.elapsed().as_secs_f64() > cfg.max_secs * 0.7 {
            rep.stopped = "time";
            break;
        }
        cur.write(&format!("enum {}", i));
        c.t = Tape::new(vec![], None);
        match run_case(p, &mut c, Some(i)) {
            Outcome::Ok => {}
            Outcome::Fail(m) => {
                fail = Some((Some(i), vec![], m));
                break;
            }
            Outcome::Harness(m) => {
                harness = Some(m);
                break;
            }
        }
        if let Some(h) = c.nontrivial {
            rep.hashes.insert(h);
        }
        if guided {
            rt::take_counts(&mut seen);
        }
        rep.enums_done += 1;
        i += cfg.nshards;
    }

    // 2. random and coverage-guided part
    if fail.is_none() && harness.is_none() {
        for k in 0..cfg.execs {
            if ((k & 7) == 0 || c.small) && out_of_time(&start) {
                rep.stopped = "time";
                break;
            }
            let s = master.next();
            let tape = if guided && !corpus.is_empty() && master.chance(3, 5) {
                // recent corpus entries are preferred
                let n = corpus.len();
                let a = if master.chance(1, 2) { n - 1 - master.below(n.min(30)) } else { master.below(n) };
                let b = master.below(n);
                let m = mutate(&corpus[a], &corpus[b], &mut master, &c.dict);
                cur.write(&format!("fresh {} {}", s, hex(&m)));
                Tape::new(m, Some(Rng::new(s)))
            } else {
                cur.write(&format!("fresh {} ", s));
                Tape::new(vec![], Some(Rng::new(s)))
            };
            c.t = tape;
            let o = run_case(p, &mut c, None);
            rep.execs += 1;
            match o {
                Outcome::Ok => {}
                Outcome::Fail(m) => {
                    fail = Some((None, c.t.data.clone(), m));
                    break;
                }
                Outcome::Harness(m) => {
                    harness = Some(m);
                    break;
                }
            }
            if let Some(h) = c.nontrivial {
                if rep.hashes.len() < 400_000 {
                    rep.hashes.insert(h);
                }
            }
            if let Some(d) = &c.desc {
                if rep.samples.len() < 4 {
                    rep.samples.push(clip(d, 300));
                } else if master.chance(1, 500) {
                    let j = master.below(4);
                    rep.samples[j] = clip(d, 300);
                }
            }
            if guided {
                if rt::take_counts(&mut seen) && c.t.data.len() < (1 << 14) && corpus.len() < 8000 {
                    corpus.push(c.t.data.clone());
                }
                if (k & 15) == 0 {
                    // constants the library compared with become dictionary entries
                    c.dict.ints.truncate(base_dict.max(1));
                    rt::take_cmps(&mut c.dict.ints);
                }
            }
        }
    }
    rep.evals = c.evals + rep.execs + rep.enums_done;
    rep.edges = seen.iter().filter(|&&x| x != 0).count() as u64;
    rep.guards = rt::NGUARDS.load(std::sync::atomic::Ordering::Relaxed) as u64;
    rep.corpus = corpus.len() as u64;
    rep.steps = rt::steps();

    let mut code = 0;
    let mut verdict = "ok".to_string();
    let mut message = String::new();
    let mut replay_line = String::new();
    let mut desc = String::new();
    if let Some(m) = harness {
        verdict = "harness".into();
        message = m;
        desc = c.desc.clone().unwrap_or_default();
        code = 3;
    } else if let Some((en, tape, m)) = fail {
        code = 1;
        verdict = "violation".into();
        match en {
            Some(i) => {
                replay_line = format!("enum {}", i);
                message = m;
                desc = c.desc.clone().unwrap_or_default();
            }
            None => {
                // report at once, in case shrinking crashes
                let line = format!("tape {}", hex(&tape));
                write_report(cfg, p, &rep, &c, &verdict, &m, &line, &c.desc.clone().unwrap_or_default(), start);
                let (t, m, d) = shrink(p, &mut c, tape, m, &cur);
                replay_line = format!("tape {}", hex(&t));
                message = m;
                desc = d;
            }
        }
    }
    write_report(cfg, p, &rep, &c, &verdict, &message, &replay_line, &desc, start);
    code
}

fn write_report(cfg: &RunCfg, p: &Prop, rep: &Report, c: &Ctx, verdict: &str, message: &str, replay: &str, desc: &str, start: Instant) {
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"prop\":{},\"variant\":{},\"verdict\":{},\"message\":{},\"replay\":{},\"desc\":{},",
        jstr(p.id), jstr(&cfg.variant), jstr(verdict), jstr(&clip(message, 2000)), jstr(replay), jstr(&clip(desc, 1500))
    ));
    o.push_str(&format!(
        "\"evals\":{},\"execs\":{},\"enums_done\":{},\"enums_total\":{},\"edges\":{},\"guards\":{},\"corpus\":{},\"steps\":{},\"stopped\":{},\"secs\":{:.2},\"rule\":{},",
        rep.evals, rep.execs, rep.enums_done, rep.enums_total, rep.edges, rep.guards, rep.corpus, rep.steps, jstr(rep.stopped), start.elapsed().as_secs_f64(), jstr(p.rule)
    ));
    o.push_str("\"features\":{");
    for (i, (k, v)) in c.feat.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{}:{}", jstr(k), v));
    }
    o.push_str("},\"samples\":[");
    for (i, s) in rep.samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&jstr(s));
    }
    o.push_str("]}\n");
    let _ = std::fs::write(&cfg.out, o);
    let mut hb = Vec::with_capacity(rep.hashes.len() * 8);
    for h in &rep.hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.hashes", cfg.out), hb);
}
