#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
T = {
 "C01": ("round-trip differential monitor under ASan/UBSan and plain builds", "exploration"),
 "C02": ("offline checker over written files: strict parser, independent encoder and NumPy", "exploration"),
 "C03": ("differential monitor against NumPy-written files under ASan/UBSan", "exploration"),
 "C04": ("stream-position monitor over sequences of arrays", "exploration"),
 "C05": ("exhaustive type-matrix monitor and dtype-string fuzzing", "exploration"),
 "C06": ("truncation enumeration and malformed-by-construction headers under sanitizers", "exploration"),
 "C07": ("coverage-guided and structured fuzzing under ASan, UBSan and memcheck", "exploration"),
 "C08": ("online map-model monitor over random histories", "exploration"),
 "C09": ("offline checker over written archives: strict ZIP parser, zipfile, zlib, NumPy", "exploration"),
 "C10": ("differential monitor against archives of independent writers", "exploration"),
 "C11": ("byte-corruption enumeration with an exact-value oracle", "fault_enumeration"),
 "C12": ("truncation enumeration and on-disk prefix monitor", "fault_enumeration"),
 "C13": ("codec differential monitor against zlib, under sanitizers", "exploration"),
 "C14": ("index-bijection monitor under ASan with container bounds annotation", "exploration"),
 "C15": ("value-model monitor over random operation histories", "exploration"),
 "C16": ("ThreadSanitizer plus single-thread result comparison", "exploration"),
 "C17": ("byte-level differential monitor across locales", "exploration"),
 "C18": ("cross-process output comparison with memory fill patterns, and memcheck", "exploration"),
 "C19": ("storage fault injection at every store call and size limit", "fault_enumeration"),
 "C20": ("offline checker over huge and sparse archives, strict ZIP64 parser", "exploration"),
 "C21": ("failing-operation histories with as-if-uncalled oracle and allocation/descriptor accounting", "exploration"),
 "C22": ("k-th allocation failure enumeration with outcome and leak monitors", "fault_enumeration"),
 "C23": ("text differential monitor against NumPy in both directions", "exploration"),
 "C24": ("byte-level life-cycle monitor of writers", "exploration"),
 "C25": ("differential monitor of user tensor classes and exception identity monitor", "exploration"),
 "C27": ("map-model, descriptor and file-metadata monitor over random reader lives", "exploration"),
 "C28": ("allocation and I/O metering of every operation against size-derived bounds", "exploration"),
 "C29": ("instruction counting (callgrind) at two sizes of every operation", "exploration"),
 "C30": ("read and seek fault injection at every call, exact-data oracle", "fault_enumeration"),
 "C31": ("differential monitor of piecewise assembly and parsing against save and load", "exploration"),
 "C32": ("life-stage monitor: child processes working before, in and after main, compared with a process which is fully up", "exploration"),
 "C33": ("process-state snapshots around and within operations, interposed libc calls", "exploration"),
 "C34": ("one program in twelve builds, all observations compared", "exploration"),
 "C26": ("exhaustive/boundary conversion monitor and NumPy comparison", "exploration"),
}
NOTE = {
 "C07": "No memory error, undefined behaviour, abort or hang in any watched execution; single memory requests above 8 MiB are made to fail, so exhaustion by large requests is out of scope. Sees what ASan, UBSan and memcheck see.",
 "C16": "No race seen by ThreadSanitizer and no wrong result in the schedules that occurred; nothing is said about schedules that did not.",
 "C11": "For small archives every byte position with every other value; sampled values elsewhere. Exact-value oracle.",
 "C12": "Every proper prefix of each generated archive that is small, sampled prefixes of large ones.",
 "C19": "Every size limit and every store call of each small workload, sampled for large ones; trusts that interposed write/writev/close are how the C++ library stores data.",
 "C29": "Growth between one size and 16 times it, for each listed operation; a step that grows faster only beyond the larger size is not seen.",
 "C30": "Every read and seek call of each small file (sampled for large ones); trusts that interposed read and lseek are how the C++ library fetches data.",
 "C34": "The twelve builds listed in py/props.py, on x86-64 with libstdc++; no other processor or library is here.",
 "C22": "Every memory request of each operation on each generated tensor (sampled above 300); requests made inside libc are not failed.",
 "C20": "A handful of archives around each limit, judged by independent parsers; needs about 16 GB of memory.",
}
LEVELNOTE = "Held on every generated execution observed; coverage is counted in the evidence file. Trusts the reference implementation or model named in DESIGN.md."
out = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": [],
       "notes": "No hooks: every monitor works through the public API, interposed libc and allocation functions, and compiler instrumentation. ./check replay <file> re-runs a recorded violation."}
for pid in sorted(T):
    out["checks"].append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough", "evidence_file": f"evidence/{pid}.json",
                          "technique": T[pid][0], "level": T[pid][1], "level_note": NOTE.get(pid, LEVELNOTE)})
with open("MANIFEST.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
