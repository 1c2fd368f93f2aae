#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "online oracle: independent RFC 7159 recogniser beside the parser, coverage-guided under ASan",
    "C02": "online oracle: independent reader's document model beside the parser, coverage-guided under ASan",
    "C03": "step counter, allocation ledger and ASan over hostile texts, with and without overflow checks",
    "C04": "online oracle: viable-prefix automaton locates the first offending character",
    "C05": "online oracle: big-integer decimal model of number literals",
    "C06": "online monitor: strict independent reader over the dumped text compared with the value's model",
    "C07": "online monitor: serialize-parse round trips compared with the value's model",
    "C08": "online oracle: independent layout model beside the pretty printer",
    "C09": "fault-injecting writer and formatter sink that records every call, trace checked against the exact bytes",
    "C10": "online oracle: big-integer reading of every text a number gives",
    "C11": "online oracle: correctly rounding reader over the text of floats",
    "C12": "online oracle: big-integer correctly rounded conversion",
    "C13": "online oracle: 128-bit exact integer conversions",
    "C14": "online oracle: exact decimal equality over groups of numbers, laws checked pairwise",
    "C15": "online oracle: big-integer truncation",
    "C16": "model-based monitor: insertion-ordered list map compared after operations",
    "C17": "model-based monitor: document tree compared after every operation",
    "C18": "online oracle: structural equality of models against == of values built along different paths",
    "C19": "model-based monitor: originals and clones watched across each other's histories, poisoning allocator",
    "C20": "ThreadSanitizer and Miri race detection plus per-thread result comparison",
    "C21": "AddressSanitizer, MemorySanitizer, Miri and a poisoning allocator under operation histories",
    "C22": "allocation ledger over record-then-replay of operation sequences, injected panics, ASan",
    "C23": "generated programs: values and evaluation traces of macro invocations compared with the generator's model",
    "C24": "online oracle: models of converted Rust data",
    "C25": "online oracle: every read compared with the value's model, before and after",
    "C26": "recording Generator: token trace checked against the compact text and layout model",
    "C27": "replay monitor: results of operations after arbitrary histories compared with those on a fresh thread",
    "C28": "cost monitor: executed edges, allocator requests and CPU time at two sizes, for every operation and kind of content",
    "C29": "allocation monitor: requests to the allocator and buffer addresses across each call",
    "C30": "online monitor: output of the built-in generators compared after every trait call of random scripts, fault-injecting writers",
    "C31": "differential monitor: results on a 32-bit and a big-endian platform (under Miri) and in debug and sanitized builds compared with the release build's",
    "C32": "fault injection: user code that panics at every call inside operation histories; values, items, delivered bytes and the panic itself checked against models",
}
NOTE = ("Everything observed in this run agreed with the oracle; inputs, histories and schedules not run are not covered. "
        "Trusts the oracles in harness/src (written from the property, independent of the library's code) and the toolchain's sanitizers. ")
EXTRA = {
    "C20": "Send and Sync are decided by the compiler on a probe program; Miri runs a few seeded schedules, ThreadSanitizer the schedules the machine produced.",
    "C21": "Aliasing is judged by Tree Borrows, not Stacked Borrows; Miri sees small cases only.",
    "C31": "Miri interprets some hundred small results per platform in a quick run; the native builds compare them all.",
    "C23": "Forms are those the documentation and tests use; programs are compiled with the stable compiler in editions 2015, 2018 and 2021.",
    "C03": "Work is counted in executed edges of the library's own code, time in the thread's CPU time on families of growing texts, memory by the allocator; the constants of the linear bounds are generous.",
}
m = dict(
    version=1,
    setup_cmd="python3 check.py setup",
    checks=[dict(property=k, quick_cmd="python3 check.py %s quick" % k, thorough_cmd="python3 check.py %s thorough" % k, technique=T[k],
                 level="exploration", level_note=(NOTE + EXTRA.get(k, "")).strip()) for k in sorted(T)],
    not_applicable=[],
    notes="No hooks: the checks drive the public API of /repo's working tree, built in several instrumented variants (see DESIGN.md). Repairs are listed in known-findings.txt.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
