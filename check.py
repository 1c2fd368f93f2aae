#!/usr/bin/env python3
"""Checks for json-rust by runtime monitoring.

  check.py <ID> quick|thorough     decide one property
  check.py setup                   build every variant once
  check.py replay <file>           run one recorded case again

Exit codes: 0 held on everything explored, 1 violated (a VIOLATION line is
printed), 2 no answer (build or harness trouble).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(ROOT, "tools"))

SAN_EXIT = 66

# ---------------------------------------------------------------- variants

VARIANTS = {
    # name: toolchain, profile flag, rustflags, extra cargo flags, env
    "checked": dict(tool="+stable", flags="", cargo=[]),
    "release": dict(tool="+stable", flags="", cargo=["--release"]),
    "cov": dict(tool="+nightly", flags="-Zsanitizer=address --cfg cov", cargo=["--target", TRIPLE],
                env={"RUSTC_WRAPPER": os.path.join(ROOT, "tools", "rustc-cov"), "CARGO_PROFILE_DEV_OPT_LEVEL": "2"}),
    "tsan": dict(tool="+nightly", flags="-Zsanitizer=thread", cargo=["--release", "--target", TRIPLE, "-Zbuild-std"]),
    "msan": dict(tool="+nightly", flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins",
                 cargo=["--release", "--target", TRIPLE, "-Zbuild-std"]),
    "miri": dict(tool="+nightly", flags="", cargo=[], miri=True),
    # other platforms: 32 bit, big endian
    "miri32": dict(tool="+nightly", flags="", cargo=["--target", "i686-unknown-linux-gnu"], miri=True, own_cache=True),
    "miribe": dict(tool="+nightly", flags="", cargo=["--target", "s390x-unknown-linux-gnu"], miri=True, own_cache=True),
}
CORE = ("checked", "release", "cov")


def toolchain(t):
    return t


def tree_hash():
    h = hashlib.sha256()
    paths = []
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            paths += [os.path.join(d, f) for f in sorted(files)]
    paths += [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(ROOT, "tools", "rustc-cov")]
    for p in paths:
        try:
            with open(p, "rb") as f:
                h.update(p.encode() + b"\0" + f.read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def base_env(v):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL", "MIRIFLAGS"):
        env.pop(k, None)
    env["RUSTFLAGS"] = ("-Awarnings " + VARIANTS[v]["flags"]).strip()
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(VARIANTS[v].get("env", {}))
    if VARIANTS[v].get("own_cache"):
        # Miri's library for the platform is built here
        env["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache-" + v)
    return env


MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
MIRI_BORROWS = " -Zmiri-tree-borrows"


def build(v, log):
    """Build one variant of the harness from /repo's working tree. Returns the
    command prefix that runs it, or None with the reason in log."""
    c = VARIANTS[v]
    td = os.path.join(TARGET, v)
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, "tree.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    env = base_env(v)
    if old and old != now:
        # do not trust time stamps: what is built of these two crates goes
        for d, dirs, _ in list(os.walk(td)):
            for x in list(dirs):
                if x in (".fingerprint", "deps", "incremental"):
                    p = os.path.join(d, x)
                    for e in os.listdir(p):
                        if re.match(r"(lib)?(json|mon)-[0-9a-f]+", e):
                            q = os.path.join(p, e)
                            shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
                    dirs.remove(x)
    if old != now and os.path.exists(stamp):
        os.remove(stamp)
    if c.get("miri"):
        env["MIRIFLAGS"] = MIRI_BASE + MIRI_BORROWS
        cmd = ["cargo", c["tool"], "miri", "run", "--offline", "--target-dir", td] + c["cargo"] + ["--", "noop"]
    else:
        cmd = ["cargo", c["tool"], "build", "--offline", "--target-dir", td] + c["cargo"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    text = p.stdout.decode("utf8", "replace")
    if c.get("miri"):
        if "usage: mon" not in text:
            log[v] = text[-3000:]
            return None
        with open(stamp, "w") as f:
            f.write(now)
        return ["cargo", c["tool"], "miri", "run", "--offline", "--quiet", "--target-dir", td] + c["cargo"] + ["--"]
    if p.returncode != 0:
        log[v] = text[-3000:]
        return None
    with open(stamp, "w") as f:
        f.write(now)
    prof = "release" if "--release" in c["cargo"] else "debug"
    sub = [TRIPLE, prof] if "--target" in c["cargo"] else [prof]
    return [os.path.join(td, *sub, "mon")]


def build_all(vs):
    log, bins = {}, {}

    def one(v):
        try:
            bins[v] = build(v, log)
        except Exception as e:  # noqa
            bins[v] = None
            log[v] = repr(e)

    ts = [threading.Thread(target=one, args=(v,)) for v in vs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return bins, log


def run_env(v):
    env = base_env(v)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=%d:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=4:abort_on_error=0" % SAN_EXIT
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=%d:history_size=4" % SAN_EXIT
    env["MSAN_OPTIONS"] = "exitcode=%d:abort_on_error=0" % SAN_EXIT
    return env


# ---------------------------------------------------------------- dictionary

def dictionary():
    """Constants and strings of the code under test, for the generators."""
    ints, strs = set(), set()
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith(".rs"):
                continue
            try:
                s = open(os.path.join(d, f), encoding="utf8", errors="replace").read()
            except OSError:
                continue
            s = re.sub(r"^\s*//[^\n]*", "", s, flags=re.M)
            # tables of many constants say nothing about branches
            s2 = re.sub(r"\[[^\]\[]{3000,}\]", "[]", s)
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b", s2):
                try:
                    v = int(m.group(1).replace("_", ""), 0 if m.group(1)[:2] in ("0x", "0b", "0o") else 10)
                except ValueError:
                    continue
                if 0 <= v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r"(\d+)\s*<<\s*(\d+)", s2):
                v = int(m.group(1)) << min(int(m.group(2)), 70)
                if v < 1 << 64:
                    ints.add(v)
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.){0,80})"', s2):
                t = m.group(1)
                t = re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), t)
                t = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)) if int(k.group(1), 16) < 0x110000 and not 0xD800 <= int(k.group(1), 16) < 0xE000 else "", t)
                for a, b in (("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\0", "\0"), ('\\"', '"'), ("\\'", "'"), ("\\\\", "\\")):
                    t = t.replace(a, b)
                if len(t.encode("utf8", "replace")) <= 80:
                    strs.add(t)
            for m in re.finditer(r"b?'((?:[^'\\\n]|\\.)|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\})'", s2):
                t = m.group(1)
                try:
                    if t.startswith("\\x"):
                        t = chr(int(t[2:], 16))
                    elif t.startswith("\\u{"):
                        t = chr(int(t[3:-1], 16))
                except ValueError:
                    continue
                if len(t) == 1 and not 0xD800 <= ord(t) < 0xE000:
                    strs.add(t)
                    ints.add(ord(t))
    return sorted(ints), sorted(strs)


def write_dict(path):
    ints, strs = dictionary()
    with open(path, "w") as f:
        for i in ints:
            f.write("i %d\n" % i)
        for s in strs:
            f.write("s %s\n" % s.encode("utf8").hex())
    return len(ints), len(strs)


# ---------------------------------------------------------------- plans

from plans import PLANS, THOROUGH_FACTOR, QUICK_SECS, THOROUGH_SECS  # noqa: E402


class Worker:
    def __init__(self, variant, cmd, args, env, out, cur, limit):
        self.variant, self.out, self.cur, self.limit = variant, out, cur, limit
        self.err = out + ".err"
        self.args = args
        self.cmd = cmd + args
        self.start = time.time()
        self.p = subprocess.Popen(self.cmd, cwd=HARNESS, env=env, stdout=open(out + ".stdout", "wb"), stderr=open(self.err, "wb"),
                                  start_new_session=True)
        self.timed_out = False

    def poll(self):
        r = self.p.poll()
        if r is None and time.time() - self.start > self.limit:
            self.timed_out = True
            self.kill()
            r = self.p.wait()
        return r

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stderr(self):
        try:
            with open(self.err, "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 200000))
                return f.read().decode("utf8", "replace")
        except OSError:
            return ""

    def current_case(self):
        try:
            b = open(self.cur, "rb").read()
            n = int(b[:16], 16)
            return b[17:17 + n].decode()
        except (OSError, ValueError):
            return ""

    def report(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def judge(w):
    """-> ("ok"|"violation"|"none", message, case)"""
    rc = w.p.returncode
    rep = w.report()
    if rep and rep["verdict"] == "violation":
        return "violation", rep["message"] + ("" if not rep["desc"] else "\n    input: " + rep["desc"]), rep["replay"]
    if rc == 0 and rep and rep["verdict"] == "ok":
        return "ok", "", ""
    err = w.stderr()
    case = w.current_case()
    if rep and rep["verdict"] == "harness":
        return "none", "harness error: " + rep["message"] + " | " + rep.get("desc", "")[:300] + " | case " + case, case
    if w.timed_out:
        return "none", "timed out", case
    if w.variant.startswith("miri"):
        m = re.search(r"error: (Undefined Behavior[^\n]*|[^\n]*[Dd]ata race[^\n]*|[^\n]*memory leaked[^\n]*|[^\n]*deadlock[^\n]*|abnormal termination[^\n]*)", err)
        if m:
            loc = re.search(r"--> ([^\n]*)", err[m.start():])
            return "violation", "Miri: " + m.group(1) + (" at " + loc.group(1) if loc else ""), case
        return "none", "miri ended with %s: %s" % (rc, err[-600:]), case
    if rc == 77:
        return "violation", "one case executed more than the allowed number of edges of the library (does not end)", case
    if rc == 78:
        return "violation", "one case allocated more than the allowed memory", case
    if rc == 79:
        return "violation", "a call of the library does not end while the user's code it called runs other operations", case
    if rc == SAN_EXIT:
        m = re.search(r"(ERROR|WARNING): (AddressSanitizer|MemorySanitizer|ThreadSanitizer): [^\n]*", err)
        frames = re.findall(r"#\d+ [^\n]*?(/repo/src/[^\s)]*)", err)
        if m:
            if "ThreadSanitizer" in m.group(0) and "data race" not in m.group(0) and "heap-use-after-free" not in m.group(0):
                return "none", m.group(0), case
            return "violation", m.group(0) + (" in " + frames[0] if frames else ""), case
        return "none", "sanitizer exit without a report: " + err[-300:], case
    if rc is not None and rc < 0 and -rc in CRASH:
        m = re.search(r"(AddressSanitizer[^\n]*|thread [^\n]*overflowed its stack[^\n]*|free\(\)[^\n]*|double free[^\n]*|malloc[^\n]*)", err)
        return "violation", "crashed with signal %d %s" % (-rc, m.group(0) if m else ""), case
    return "none", "ended with %s: %s" % (rc, err[-300:]), case


def known(pid):
    """Open findings: lines `open: property=<id> match=<regex> :: <what fails>`."""
    r = []
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"open: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return r


def known_match(pid, message):
    for rx, what in known(pid):
        if rx.search(message):
            return what
    return None


def write_evidence(pid, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage, assumptions=assumptions,
             wall_s=round(wall, 1), violations=violations)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1, sort_keys=False)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, pid + ".json"))


def save_replay(pid, name, obj):
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    return path


def confirm_hang(bins, pid, case, dictf, poison):
    """A case that timed out: does the step counter call it endless?"""
    b = bins.get("cov")
    if not b or not case:
        return False
    try:
        cf = os.path.join(OUT, pid, "hang.case")
        with open(cf, "w") as f:
            f.write(case + "\n")
        p = subprocess.run(b + ["replay", "--prop", pid, "--file", cf, "--dict", dictf, "--variant", "cov"], env=run_env("cov"),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        return p.returncode == 77
    except subprocess.TimeoutExpired:
        return False


def reference(cmd, ref, path):
    """Writes the results of the release build, which the other builds compare theirs with."""
    p = subprocess.run(cmd + ["transcript", "--prop", "C31", "--base", str(ref["base"]), "--count", str(int(ref["count"])), "--out", path],
                       env=run_env("release"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
    if p.returncode:
        return "the reference transcript ended with %s" % p.returncode
    os.environ["MON_REF"] = path
    return None


def run_mon(pid, tier, seed, t0):
    """The properties decided by the harness."""
    pl = PLANS[pid]
    thorough = tier == "thorough"
    groups = pl["thorough"] if thorough and "thorough" in pl else pl["quick"]
    secs = THOROUGH_SECS if thorough else QUICK_SECS
    factor = THOROUGH_FACTOR if thorough else 1
    need = []
    for g in groups:
        if g["v"] not in need:
            need.append(g["v"])
    bins, log = build_all(need)
    missing = [v for v in need if not bins.get(v)]
    for v in missing:
        print("note: variant %s could not be built: %s" % (v, log.get(v, "")[-600:]))
    if any(v in CORE for v in missing):
        print("no answer: the harness does not build")
        return 2, None
    work = os.path.join(OUT, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    dictf = os.path.join(work, "dict")
    ni, ns = write_dict(dictf)
    t_built = time.time()
    ref = None
    if pl.get("reference"):
        ref = dict(base=seed, count=pl["reference"] * factor)
        why = reference(bins["release"], ref, os.path.join(work, "reference"))
        if why:
            print("no answer: " + why)
            return 2, None

    jobs = []
    for gi, g in enumerate(groups):
        if g["v"] in missing:
            continue
        for k in range(g["n"]):
            jobs.append((gi, g, k))
    results = []
    running = []
    queue = list(jobs)
    stop = False
    problems = []
    violation = None
    knowns = {}
    limit_secs = secs
    while (queue or running) and not stop:
        while queue and len(running) < 8:
            gi, g, k = queue.pop(0)
            out = os.path.join(work, "w-%d-%d-%s.json" % (gi, k, g["v"]))
            cur = out + ".cur"
            # every worker has its own stream, a function of seed, group and shard
            s = (seed * 1000003 + gi * 1009 + k * 31 + 17) & ((1 << 63) - 1)
            w_secs = g.get("secs", limit_secs)
            args = ["run", "--prop", pid, "--seed", str(s), "--execs", str(int(g["execs"] * factor)), "--max-secs", str(int(w_secs)),
                    "--shard", str(k), "--nshards", str(g["n"]), "--dict", dictf, "--variant", g["v"],
                    "--out", out, "--cur", cur, "--poison", str(g.get("poison", 0)), "--guided", str(g.get("guided", 1))]
            env = run_env(g["v"])
            if g["v"].startswith("miri"):
                env["MIRIFLAGS"] = MIRI_BASE + " -Zmiri-seed=%d" % (s & 0xFFFF) + g.get("miri", MIRI_BORROWS)
            w = Worker(g["v"], bins[g["v"]], args, env, out, cur, w_secs * 2.5 + 60)
            w.g = g
            w.k = k
            running.append(w)
        time.sleep(0.02)
        for w in list(running):
            if w.poll() is None:
                continue
            running.remove(w)
            v, msg, case = judge(w)
            if v == "none" and w.timed_out and confirm_hang(bins, pid, case, dictf, 0):
                v, msg = "violation", "the case does not end"
            if v == "violation":
                what = known_match(pid, msg)
                if what is not None:
                    knowns[what] = msg
                    results.append(w)
                    continue
                path = save_replay(pid, "replay-%s-%d.json" % (w.variant, w.k), dict(
                    property=pid, variant=w.variant, case=case, poison=w.g.get("poison", 0), message=msg, seed=seed, worker=w.args, reference=ref,
                    dict_ints=[int(l[2:]) for l in open(dictf) if l.startswith("i ")],
                    dict_strs=[l[2:].strip() for l in open(dictf) if l.startswith("s ")]))
                violation = (msg, path, w)
                results.append(w)
                stop = True
                break
            if v == "none":
                problems.append((w.variant, msg))
            results.append(w)
    for w in running:
        w.kill()
        w.p.wait()

    hashes = set()
    feats, per, samples = {}, {}, []
    evals = 0
    edges = guards = 0
    enums = {}
    rule = ""
    for w in results:
        r = w.report()
        if not r:
            continue
        evals += r["evals"]
        rule = r["rule"]
        for k, n in r["features"].items():
            feats[k] = feats.get(k, 0) + n
        p = per.setdefault(w.variant, dict(workers=0, cases=0, enumerated=0, enumerable=r["enums_total"], ended_by_time=0))
        p["workers"] += 1
        p["cases"] += r["execs"]
        p["enumerated"] += r["enums_done"]
        p["ended_by_time"] += 1 if r["stopped"] == "time" else 0
        if r["guards"]:
            edges = max(edges, r["edges"])
            guards = r["guards"]
            p["corpus"] = p.get("corpus", 0) + r["corpus"]
            p["library_edges_executed"] = p.get("library_edges_executed", 0) + r["steps"]
        for s in r["samples"][:1]:
            if len(samples) < 8:
                samples.append(s)
        try:
            b = open(w.out + ".hashes", "rb").read()
            hashes.update(x[0] for x in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]))
        except OSError:
            pass
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(hashes),
               rule="cases come from choice tapes (biased random, %s, constants of the source as dictionary) and from enumerated grids; counted by hash: %s"
                    % ("coverage-guided in the cov variant" if guards else "no coverage guidance", rule),
               samples=samples, observed=dict(sorted(feats.items())), variants=per, dictionary=dict(integers=ni, strings=ns),
               build_s=round(t_built - t0, 1))
    if guards:
        cov["library_edges_seen"] = edges
        cov["library_edges_instrumented"] = guards
    if missing:
        cov["variants_unavailable"] = missing
    soft = [p for p in problems if p[0] not in CORE]
    hard = [p for p in problems if p[0] in CORE]
    if soft:
        cov["inconclusive_workers"] = ["%s: %s" % (v, m[:300]) for v, m in soft]
    for what in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if violation:
        msg, path, w = violation
        print("property %s violated in variant %s: %s" % (pid, w.variant, msg))
        err = w.stderr()
        if "Sanitizer" in err or w.variant.startswith("miri"):
            i = max(err.find("==ERROR"), err.find("WARNING: "), err.find("error: "), 0)
            print(err[i:i + 3000])
        return 1, (cov, path)
    if hard:
        for v, m in hard:
            print("no answer from %s: %s" % (v, m[:1500]))
        return 2, (cov, None)
    for v, m in soft:
        print("note: a worker of %s gave no answer: %s" % (v, m[:300]))
    return 0, (cov, None)


ASSUME = [
    "the oracles in harness/src/model.rs are the specification (written from the property statements, not from the code)",
    "sanitizers see the json crate as compiled by the pinned nightly toolchain; the other variants use stable",
]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    if sys.argv[1] == "setup":
        bins, log = build_all(list(VARIANTS))
        for v in VARIANTS:
            print("%s: %s" % (v, "built" if bins.get(v) else "NOT BUILT\n" + log.get(v, "")))
        return 0 if all(bins.get(v) for v in CORE) else 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    t0 = time.time()
    if pid == "C23":
        import macros
        rc, res = macros.run(sys.modules[__name__], tier, seed, t0)
    else:
        path = None
        if pid == "C20":
            import probe
            msg = probe.send_sync(sys.modules[__name__])
            if msg:
                path = save_replay(pid, "replay-probe.json", dict(property=pid, probe="send_sync", message=msg))
                print("property C20 violated: " + msg)
        if path:
            write_evidence(pid, tier, seed, dict(evaluations=1, distinct_nontrivial=1, rule="Send and Sync probe program", samples=[msg]), time.time() - t0, 1, ASSUME)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        rc, res = run_mon(pid, tier, seed, t0)
    if res:
        write_evidence(pid, tier, seed, res[0], time.time() - t0, 1 if rc == 1 else 0, ASSUME)
        c = res[0]
        print("%s %s: %d evaluations, %d distinct, %.1f s" % (pid, tier, c["evaluations"], c["distinct_nontrivial"], time.time() - t0))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (pid, res[1]))
    return rc


def replay(path):
    o = json.load(open(path))
    pid = o["property"]
    if "program" in o:
        import macros
        return macros.replay(sys.modules[__name__], o)
    if "probe" in o:
        import probe
        msg = probe.send_sync(sys.modules[__name__])
        print(msg or "holds")
        return 1 if msg else 0
    bins, log = build_all([o["variant"]])
    b = bins.get(o["variant"])
    if not b:
        print(log)
        return 2
    d = os.path.join(OUT, "replay.dict")
    with open(d, "w") as f:
        for i in o.get("dict_ints", []):
            f.write("i %d\n" % i)
        for s in o.get("dict_strs", []):
            f.write("s %s\n" % s)
    if o.get("reference"):
        rb = bins if o["variant"] == "release" else build_all(["release"])[0]
        why = reference(rb["release"], o["reference"], os.path.join(OUT, "replay.reference"))
        if why:
            print(why)
            return 2
    env = run_env(o["variant"])
    if o["variant"].startswith("miri"):
        env["MIRIFLAGS"] = MIRI_BASE + MIRI_BORROWS
    cf = os.path.join(OUT, "replay.case")
    with open(cf, "w") as f:
        f.write(o["case"] + "\n")
    p = subprocess.run(b + ["replay", "--prop", pid, "--file", cf, "--dict", d, "--variant", o["variant"], "--poison", str(o.get("poison", 0))],
                       cwd=HARNESS, env=env)
    print("exit %d" % p.returncode)
    if p.returncode == 0 and o.get("worker"):
        # a crash may need the cases before it: run the recorded worker again
        w = ["/dev/null" if x.startswith(OUT) and not x.endswith("dict") else d if x.startswith(OUT) else x for x in o["worker"]]
        p = subprocess.run(b + w, cwd=HARNESS, env=env)
        print("recorded worker: exit %d" % p.returncode)
    return 0 if p.returncode == 0 else 1


if __name__ == "__main__":
    sys.exit(main())
