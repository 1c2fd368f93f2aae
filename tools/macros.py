"""C23: generated programs that use array!, object! and value!.

Every case is a macro invocation written out by this generator together with
the value it spells and the order in which its embedded expressions have to be
evaluated. The program runs it with traced expressions; the dump and the trace
are compared with what the generator knows.
"""
import json
import os
import random
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import probe

PRELUDE = r'''#![allow(warnings)]
#![recursion_limit = "65536"]
%(use)s
use json::JsonValue;
use std::cell::RefCell;
thread_local!(static TRACE: RefCell<Vec<u32>> = RefCell::new(vec![]));
/// Record that expression `id` was evaluated; its value is `v`.
fn t<T>(id: u32, v: T) -> T { TRACE.with(|x| x.borrow_mut().push(id)); v }
fn two<A, B>(_a: A, b: B) -> B { b }
struct P { x: i32, name: &'static str }
impl P { fn get(&self) -> i32 { self.x } }
static FIXED: i32 = 77;
const TEXT: &str = "const text";
fn show(n: usize, f: fn() -> Option<JsonValue>) {
    TRACE.with(|x| x.borrow_mut().clear());
    let r = std::panic::catch_unwind(f);
    let tr = TRACE.with(|x| x.borrow().iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    let d = match r {
        Err(_) => "PANIC".to_string(),
        Ok(None) => "NONE".to_string(),
        Ok(Some(v)) => { let d = v.dump(); if v.clone() == v && json::parse(&d).map(|w| w == v).unwrap_or(false) { d } else { format!("UNEQUAL {}", d) } }
    };
    println!("{}\t{}\t{}", n, tr, d);
}
'''

LOCALS = '''    let (size, array, object, k, i, v, item, key, value, cont) = (3usize, "array", 12i64, "kk", -4i32, true, 2.5f64, "keyed", "val", 9u8);
    let owned = String::from("an owned string that is longer than thirty bytes");
    let p = P { x: 5, name: "pp" };
'''
LOCAL_VALUES = [("size", "3"), ("array", '"array"'), ("object", "12"), ("k", '"kk"'), ("i", "-4"), ("v", "true"), ("item", "2.5"), ("key", '"keyed"'),
                ("value", '"val"'), ("cont", "9"), ("FIXED", "77"), ("TEXT", '"const text"'), ("p.x", "5"), ("p.name", '"pp"'), ("p.get()", "5"),
                ("owned.clone()", '"an owned string that is longer than thirty bytes"'), ("&*owned", '"an owned string that is longer than thirty bytes"')]

IDENTS = ["a", "b", "c", "foo", "bar", "_x", "x1", "type", "fn", "null", "true", "false", "self", "crate", "if", "match", "size", "array", "object",
          "value", "len", "averyveryverylongidentifierbeyondthirtytwobytes", "ENTRY", "END", "ITEM", "k", "v", "Item", "stringify", "json"]
STRS = ["", "a", "b", "foo", "x y", "null", "1", "tab\there", "new\nline", 'quo"te', "back\\slash", "ünïcödé", "日本", "👩", "a/b", "=>", ":", ",", "}", "]", "@END",
        "exactly thirty bytes of text..", "exactly thirty-one bytes text...", "exactly thirty-two bytes of text", "more than thirty-two bytes of text in here",
        "$x", "{}", "%s", "0"]


def jstr(s):
    o = '"'
    for ch in s:
        if ch == '"':
            o += '\\"'
        elif ch == "\\":
            o += "\\\\"
        elif ch == "\n":
            o += "\\n"
        elif ch == "\t":
            o += "\\t"
        else:
            o += ch
    return o + '"'


def rstr(r, s):
    if r.random() < 0.2 and "\\" not in s and '"#' not in s:
        return 'r#"%s"#' % s if '"' in s or r.random() < 0.5 else 'r"%s"' % s
    o = '"'
    for ch in s:
        if ch in '"\\':
            o += "\\" + ch
        elif ch == "\n":
            o += "\\n"
        elif ch == "\t":
            o += "\\t"
        elif ord(ch) > 126 and r.random() < 0.3:
            o += "\\u{%x}" % ord(ch)
        else:
            o += ch
    return o + '"'


class Gen:
    def __init__(self, r):
        self.r = r
        self.id = 0
        self.trace = []
        self.forms = {}

    def form(self, n):
        self.forms[n] = self.forms.get(n, 0) + 1

    def nid(self):
        self.id += 1
        self.trace.append(self.id)
        return self.id

    def ws(self):
        r = self.r
        x = r.random()
        return " " if x < 0.8 else "" if x < 0.9 else "\n        " if x < 0.97 else " /* , } ] : => */ "

    def scalar(self):
        """(rust, json) of a literal."""
        r = self.r
        c = r.randrange(9)
        if c == 0:
            b = r.random() < 0.5
            return ("true", "true") if b else ("false", "false")
        if c <= 3:
            n = r.choice([0, 1, 2, 7, 42, 100, 255, 65535, 2147483647, r.randrange(10 ** 9)])
            suf = r.choice(["", "", "", "i64", "u64", "u32", "usize"])
            return str(n) + suf, str(n)
        if c == 4:
            n = r.choice([0.5, 1.25, 2.75, 10.5, 1234.0625])
            return r.choice(["%s", "%sf64", "%sf32"]) % n, str(n)
        s = r.choice(STRS) if r.random() < 0.8 else "k%d" % r.randrange(10 ** 6)
        return rstr(r, s), jstr(s)

    def expr(self):
        """(rust, json) of an expression that is not a lone token tree (mostly)."""
        r = self.r
        c = r.randrange(26)
        if c <= 7:
            i = self.nid()
            a, j = self.scalar()
            self.form("traced_call")
            return "t(%d, %s)" % (i, a), j
        if c == 8:
            i, k = self.nid(), self.nid()
            a, b = r.randrange(1000), r.randrange(1000)
            op = r.choice(["+", "*", "-"])
            self.form("binary")
            return "t(%d, %d) %s t(%d, %d)" % (i, a, op, k, b), str(eval("%d%s%d" % (a, op, b)))
        if c == 9:
            n = r.randrange(1, 10 ** 6)
            self.form("negative")
            return "-%d" % n, str(-n)
        if c == 10:
            i = self.nid()
            s = r.choice(STRS)
            self.form("method_chain")
            return "t(%d, %s).to_string()" % (i, rstr(r, s)), jstr(s)
        if c == 11:
            i = self.nid()
            b = r.random() < 0.5
            k = self.nid()
            self.form("if")
            return "if t(%d, %s) { t(%d, 1) } else { t(%d, 2) }" % (i, "true" if b else "false", k, k), "1" if b else "2"
        if c == 12:
            i = self.nid()
            n = r.randrange(4)
            self.form("match")
            return "match t(%d, %d) { 0 => \"zero\", 1 | 2 => \"some\", _ => \"many\" }" % (i, n), ['"zero"', '"some"', '"some"', '"many"'][n]
        if c == 13:
            i = self.nid()
            self.form("unsafe_block")
            return "unsafe { t(%d, 8) }" % i, "8"
        if c == 14:
            i = self.nid()
            self.form("option")
            if r.random() < 0.5:
                return "t(%d, None::<i32>)" % i, "null"
            return "Some(t(%d, 6))" % i, "6"
        if c == 15:
            i, k = self.nid(), self.nid()
            self.form("vec")
            return "vec![t(%d, 1), t(%d, 2)]" % (i, k), "[1,2]"
        if c == 16:
            i = self.nid()
            self.form("slice")
            return "&[t(%d, 4u8), 5][..]" % i, "[4,5]"
        if c == 17:
            self.form("local")
            return r.choice(LOCAL_VALUES)
        if c == 18:
            i = self.nid()
            self.form("parenthesised")
            return "(t(%d, 11) + 1)" % i, "12"
        if c == 19:
            i, k = self.nid(), self.nid()
            self.form("generic_call_with_comma")
            return "two::<i32, u16>(t(%d, 1), t(%d, 2))" % (i, k), "2"
        if c == 20:
            self.form("null_path")
            return r.choice(["json::Null", "JsonValue::Null", "json::JsonValue::Null"]), "null"
        if c == 21:
            i = self.nid()
            self.form("closure_call")
            return "(|x: i32| t(%d, x + 1))(4)" % i, "5"
        if c == 22:
            i = self.nid()
            self.form("not")
            return "!t(%d, true)" % i, "false"
        if c == 23:
            i = self.nid()
            self.form("loop")
            return "loop { break t(%d, 'x' as u32) }" % i, "120"
        if c == 24:
            i = self.nid()
            self.form("struct_field")
            return "P { x: t(%d, 31), name: \"q\" }.x" % i, "31"
        i = self.nid()
        self.form("cast")
        return "t(%d, 3u8) as i64" % i, "3"

    def item(self, depth):
        """An array item or object value in the token form."""
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.3:
            c = r.randrange(5)
            if c <= 1:
                a, j = self.array_body(depth - 1, False)
                self.form("nested_array")
                return "[%s]" % a, j
            if c <= 3:
                a, j = self.object_body(depth - 1, False)
                self.form("nested_object")
                return "{%s}" % a, j
            self.form("nested_macro")
            return self.macro(depth - 1)
        if x < 0.38:
            self.form("null")
            return "null", "null"
        if x < 0.6:
            self.form("literal")
            return self.scalar()
        if x < 0.66:
            self.form("local")
            n = r.choice([q for q in LOCAL_VALUES if q[0].isidentifier()])
            return n
        return self.expr()

    def length(self, empty=True):
        r = self.r
        x = r.random()
        if x < 0.1 and empty:
            return 0
        if x < 0.85:
            return r.randrange(1, 5)
        if x < 0.985:
            return r.randrange(5, 14)
        return r.randrange(14, 70)

    def array_body(self, depth, top, n=None):
        n = self.length() if n is None else n
        if n == 0:
            return self.ws(), "[]"
        parts, js = [], []
        for _ in range(n):
            a, j = self.item(depth if n < 20 else min(depth, 1))
            parts.append(a)
            js.append(j)
        s = self.ws()
        for i, a in enumerate(parts):
            s += a
            if i + 1 < n:
                s += "," + self.ws()
        if self.r.random() < 0.35:
            s += "," + self.ws()
            self.form("trailing_comma")
        return s, "[" + ",".join(js) + "]"

    @staticmethod
    def obj_json(pairs):
        order, d = [], {}
        for k, j in pairs:
            if k not in d:
                order.append(k)
            d[k] = j
        return "{" + ",".join(jstr(k) + ":" + d[k] for k in order) + "}"

    def object_body(self, depth, top, n=None):
        r = self.r
        n = self.length() if n is None else n
        if n == 0:
            return self.ws(), "{}"
        if r.random() < 0.15:
            return self.legacy_body(depth, n)
        pairs, parts = [], []
        for _ in range(n):
            x = r.random()
            if pairs and r.random() < 0.12:
                ks = pairs[r.randrange(len(pairs))][0]
                key = "[%s]" % rstr(r, ks) if r.random() < 0.3 else ks if ks in IDENTS and r.random() < 0.5 else rstr(r, ks)
                self.form("duplicate_key")
            elif x < 0.4:
                ks = r.choice(IDENTS)
                key = ks
                self.form("identifier_key")
            elif x < 0.75:
                ks = r.choice(STRS) if r.random() < 0.7 else "k%d" % r.randrange(10 ** 6)
                key = rstr(r, ks)
                self.form("literal_key")
            else:
                ks = r.choice(STRS + IDENTS)
                c = r.randrange(6)
                self.form("computed_key")
                if c == 0:
                    i = self.nid()
                    key = "[t(%d, %s)]" % (i, rstr(r, ks))
                elif c == 1:
                    i = self.nid()
                    m = r.randrange(100)
                    ks = "n%d" % m
                    key = "[&format!(\"n{}\", t(%d, %d))]" % (i, m)
                elif c == 2:
                    i = self.nid()
                    key = "[t(%d, %s.to_string()).as_str()]" % (i, rstr(r, ks))
                elif c == 3:
                    ks = "kk"
                    key = "[k]"
                elif c == 4:
                    i, h = self.nid(), self.nid()
                    key = "[if t(%d, true) { t(%d, %s) } else { \"no\" }]" % (i, h, rstr(r, ks))
                else:
                    ks = "const text"
                    key = "[TEXT]"
            a, j = self.item(depth if n < 20 else min(depth, 1))
            pairs.append((ks, j))
            parts.append(key + (" " if r.random() < 0.15 else "") + ":" + self.ws() + a)
        s = self.ws()
        for i, a in enumerate(parts):
            s += a
            if i + 1 < n:
                s += "," + self.ws()
        if r.random() < 0.35:
            s += "," + self.ws()
            self.form("trailing_comma")
        return s, self.obj_json(pairs)

    def legacy_body(self, depth, n):
        r = self.r
        pairs, parts = [], []
        self.form("legacy_object")
        for _ in range(n):
            ks = r.choice(STRS + IDENTS)
            if pairs and r.random() < 0.15:
                ks = pairs[r.randrange(len(pairs))][0]
                self.form("duplicate_key")
            c = r.randrange(5)
            if c == 0:
                i = self.nid()
                key = "t(%d, %s)" % (i, rstr(r, ks))
            elif c == 1:
                i = self.nid()
                key = "&t(%d, %s).to_string()" % (i, rstr(r, ks))
            else:
                key = rstr(r, ks)
            if depth > 0 and r.random() < 0.25:
                a, j = self.macro(depth - 1)
            elif r.random() < 0.4:
                a, j = self.scalar()
            else:
                a, j = self.expr()
            pairs.append((ks, j))
            parts.append(key + " =>" + self.ws() + a)
        s = self.ws()
        for i, a in enumerate(parts):
            s += a
            if i + 1 < n:
                s += "," + self.ws()
        if r.random() < 0.35:
            s += "," + self.ws()
            self.form("trailing_comma")
        return s, self.obj_json(pairs)

    def macro(self, depth, n=None):
        r = self.r
        c = r.randrange(5)
        o, e = r.choice(["()", "[]", "{}"])
        if c <= 1:
            a, j = self.array_body(depth, True, n)
            return "json::array!%s%s%s" % (o, a, e), j
        if c <= 3:
            a, j = self.object_body(depth, True, n)
            return "json::object!%s%s%s" % (o, a, e), j
        if r.random() < 0.5:
            a, j = self.array_body(depth, True, n)
            return "json::value!%s[%s]%s" % (o, a, e), j
        a, j = self.object_body(depth, True, n)
        return "json::value!%s{%s}%s" % (o, a, e), j


def early(g):
    """An expression that leaves in the middle: what follows is not evaluated."""
    r = g.r
    n = r.randrange(1, 6)
    at = r.randrange(n)
    items, js = [], []
    trace = []
    obj = r.random() < 0.5
    for i in range(n):
        a = g.id = g.id + 1
        if i <= at:
            trace.append(a)
        e = "t(%d, None::<i32>)?" % a if i == at else "t(%d, Some(%d))?" % (a, i)
        items.append(("k%d: " % i if obj else "") + e)
    g.trace = trace
    g.form("early_return")
    return "json::%s" % ("object!{ %s }" if obj else "array![ %s ]") % ", ".join(items)


def make_case(r, n=None):
    g = Gen(r)
    if r.random() < 0.06 and n is None:
        return dict(code=early(g), dump="NONE", trace=g.trace, forms=g.forms)
    code, j = g.macro(r.randrange(0, 5), n)
    return dict(code=code, dump=j, trace=g.trace, forms=g.forms)


def render(cases, numbers, style):
    use = "#[macro_use]\nextern crate json;" if style else "extern crate json;"
    s = PRELUDE % dict(use=use)
    for i, c in zip(numbers, cases):
        code = c["code"]
        if style:
            for m in ("array", "object", "value"):
                code = code.replace("json::%s!" % m, "%s!" % m)
        s += "fn case%d() -> Option<JsonValue> {\n%s    Some((%s).into())\n}\n" % (i, LOCALS, code)
    s += "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n" + "".join("    show(%d, case%d);\n" % (i, i) for i in numbers) + "}\n"
    return s


def ordinary():
    """Literals of a size that needs no recursion limit of their own."""
    out = []
    for trail in ("", ","):
        out.append(("json::array![%s%s]" % (", ".join(str(i) for i in range(100)), trail), "[%s]" % ",".join(str(i) for i in range(100))))
        out.append(("json::array![%s%s]" % (", ".join("1 + %d" % i for i in range(100)), trail), "[%s]" % ",".join(str(i + 1) for i in range(100))))
        for key, sep in (("k%d", ": "), ('"k%d"', ": "), ('"k%d"', " => "), ('["k%d"]', ": ")):
            n = 90 if "=" in sep else 55
            out.append(("json::object!{%s%s}" % (", ".join(key % i + sep + "%d" % i for i in range(n)), trail), "{%s}" % ",".join('"k%d":%d' % (i, i) for i in range(n))))
        a, b = "null", "null"
        for i in range(15):
            a, b = ("[%s, %d, [], {}%s]" % (a, i, trail), "[%s,%d,[],{}]" % (b, i)) if i % 2 else ('{ a: %s, "b": %d, c: {}%s }' % (a, i, trail), '{"a":%s,"b":%d,"c":{}}' % (b, i))
        out.append(("json::value!(%s)" % a, b))
    return [dict(code=c, dump=d, trace=[], forms={"ordinary_size": 1}) for c, d in out]


CONTROL = [dict(code='JsonValue::from(t(1, 5))', dump="5", trace=[1], forms={})]


def compile_run(ck, d, cases, numbers, name, style, edition):
    """-> (error text or None, {number: (trace, dump)})"""
    src = os.path.join(d, name + ".rs")
    exe = os.path.join(d, name)
    text = render(cases, numbers, style)
    if all("ordinary_size" in c["forms"] for c in cases):
        text = text.replace('#![recursion_limit = "65536"]', "")
    with open(src, "w") as f:
        f.write(text)
    e = probe.compile(ck, d, src, exe, ["-Copt-level=0", "-Cdebuginfo=0"], edition, timeout=400)
    if e is not None:
        return "does not compile: " + e, None
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return "does not end", None
    finally:
        os.remove(exe)
    got = {}
    for l in p.stdout.decode("utf8", "replace").split("\n"):
        w = l.split("\t", 2)
        if len(w) == 3:
            got[int(w[0])] = (w[1], w[2])
    if p.returncode != 0:
        return "ended with %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-500:]), got
    return None, got


def wrong(c, got):
    want = (",".join(map(str, c["trace"])), c["dump"])
    if got is None:
        return "no result"
    if got[1] != want[1]:
        return "spells %s but builds %s" % (want[1], got[1])
    if got[0] != want[0]:
        return "evaluates its expressions in the order [%s], source order is [%s]" % (got[0], want[0])
    return None


def errors_of(text):
    return " | ".join([l for l in text.splitlines() if l.startswith("error")][:3])[:600] or text[:300]


def batch(ck, d, r, size, name, style, edition):
    cases = [make_case(r) for _ in range(size)] if size else ordinary()
    size and cases.append(make_case(r, r.choice([60, 63, 64, 65, 100, 127, 128, 129, 150])))
    err, got = compile_run(ck, d, cases, list(range(len(cases))), name, style, edition)
    bad = []
    if err:
        # which case?
        for i, c in enumerate(cases):
            if got and i in got and not wrong(c, got[i]):
                continue
            e, g = compile_run(ck, d, [c], [i], name + "-one", style, edition)
            if e:
                bad.append((c, errors_of(e) if e.startswith("does not compile") else e))
                break
            w = wrong(c, g.get(i))
            if w:
                bad.append((c, w))
                break
        else:
            return cases, [], err
        return cases, bad, None
    for i, c in enumerate(cases):
        w = wrong(c, got.get(i))
        if w:
            bad.append((c, w))
    bad.sort(key=lambda b: len(b[0]["code"]))
    return cases, bad[:1], None


def run(ck, tier, seed, t0):
    thorough = tier == "thorough"
    d = os.path.join(ck.OUT, "C23")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = probe.rlib(ck, d, ["-Copt-level=0", "-Cdebug-assertions=on"])
    if e:
        print("no answer: the library does not build\n" + e[-2000:])
        return 2, None
    err, got = compile_run(ck, d, CONTROL, [0], "control", False, "2018")
    if err or wrong(CONTROL[0], got.get(0)):
        print("no answer: the control program fails: %s" % (err or got))
        return 2, None
    nbatch, size = (243, 90) if thorough else (51, 60)
    limit = 700 if thorough else 150
    forms, distinct, samples = {}, set(), []
    evals = traced = skipped = 0
    found = None
    trouble = []
    jobs = []
    for b in range(nbatch):
        jobs.append((b, random.Random("%d/%d" % (seed, b)), ["2018", "2021", "2015"][b % 3], b % 2 == 1))

    def one(j):
        b, r, edition, style = j
        if time.time() - t0 > limit:
            return None
        if edition == "2015":
            style = True
        return j, batch(ck, d, r, size if b >= 3 else 0, "b%d" % b, style, edition)

    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, jobs):
            if res is None:
                skipped += 1
                continue
            (b, _, edition, style), (cases, bad, err) = res
            if err:
                trouble.append(err[:600])
            for c in cases:
                evals += 1
                traced += len(c["trace"])
                if c["code"].count(",") > 0:
                    distinct.add(c["code"])
                for k, n in c["forms"].items():
                    forms[k] = forms.get(k, 0) + n
            if len(samples) < 6:
                samples.append(min((c["code"] for c in cases if len(c["code"]) > 60), key=len, default=cases[0]["code"])[:300])
            if bad and not found:
                found = (bad[0], edition, style)
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct),
               rule="macro invocations written by the generator, compiled and run; counted are distinct invocation texts with more than one item",
               samples=samples, observed=dict(sorted(forms.items()), expressions_traced=traced), programs=nbatch - skipped)
    if skipped:
        cov["programs_skipped_by_time"] = skipped
    if found:
        (c, msg), edition, style = found
        style = True if edition == "2015" else style
        msg = "%s\n    macro: %s" % (msg, c["code"][:600])
        what = ck.known_match("C23", msg)
        if what is not None:
            print("KNOWN-FINDING: property=C23 %s" % what)
        else:
            path = ck.save_replay("C23", "replay.json", dict(property="C23", program=render([c], [0], style), case=c, edition=edition, style=style, message=msg))
            print("property C23 violated: " + msg)
            return 1, (cov, path)
    if trouble:
        print("no answer from a program: " + trouble[0])
        return 2, (cov, None)
    return 0, (cov, None)


def replay(ck, o):
    d = os.path.join(ck.OUT, "C23-replay")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = probe.rlib(ck, d, ["-Copt-level=0", "-Cdebug-assertions=on"])
    if e:
        print(e)
        return 2
    err, got = compile_run(ck, d, [o["case"]], [0], "replay", o["style"], o["edition"])
    w = err or wrong(o["case"], got.get(0))
    print(o["case"]["code"])
    print(w or "holds")
    shutil.rmtree(d, ignore_errors=True)
    return 1 if w else 0
