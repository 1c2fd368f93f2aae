"""How many cases each worker of a check runs, and in which variant."""
import json
import os

QUICK_SECS = 120
THOROUGH_SECS = 420
THOROUGH_FACTOR = 40

# cases per worker in a quick run: cov, checked, release
COUNTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "counts.json")))


def groups(c):
    cov, chk, rel = c
    return [
        dict(v="cov", n=2, execs=cov),
        dict(v="checked", n=2, execs=chk),
        dict(v="release", n=2, execs=rel),
        dict(v="release", n=1, execs=rel, poison=1),
        dict(v="cov", n=1, execs=cov, guided=0),
    ]


PLANS = {k: dict(quick=groups(c)) for k, c in COUNTS.items()}

# memory: initialisation and aliasing are watched too
q = PLANS["C21"]["quick"]
PLANS["C21"]["quick"] = [dict(v="miri", n=3, execs=60, secs=75)] + q[:2] + q[2:] + [dict(v="msan", n=1, execs=COUNTS["C21"][2] // 4)]
PLANS["C20"]["quick"] = [dict(v="miri", n=2, execs=12, secs=50, miri=" -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")] + [dict(v="tsan", n=2, execs=COUNTS["C20"][2] // 4)] + PLANS["C20"]["quick"]

# other platforms and builds: the results of the release build are the reference
MIRI_BORROWS = " -Zmiri-tree-borrows"
FAST = " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
PLANS["C31"]["reference"] = 40000
PLANS["C31"]["quick"] = [dict(v=v, n=n, execs=0, secs=80, miri=m) for v in ("miri32", "miribe") for n, m in ((2 if v == "miri32" else 1, FAST), (1, MIRI_BORROWS))] + groups(COUNTS["C31"])

for k in ("C10", "C16", "C17", "C22"):
    PLANS[k]["thorough"] = PLANS[k]["quick"] + [dict(v="miri", n=1, execs=10000)]
for k in ("C13", "C21"):
    PLANS[k]["thorough"] = PLANS[k]["quick"] + [dict(v=v, n=1, execs=10000) for v in ("miri32", "miribe")]
PLANS["C10"]["thorough"] += [dict(v="msan", n=1, execs=COUNTS["C10"][2] // 4)]
