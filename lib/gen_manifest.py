#!/usr/bin/env python3
"""Writes MANIFEST.json from monitors.py (claimed) and properties.jsonl (the rest)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import monitors
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
variants = sorted({m["variant"] for s in monitors.MONITORS.values() for m in s["monitors"]})
checks, na = [], []
HOW = {"C01": "event log of every sample handed to the film, checked offline against a double-precision reconstruction",
       "C02": "ThreadSanitizer over whole renders with injected delays, and a monitor of termination",
       "C03": "event log of camera samples and radiance queries (exactly once, conservation), checked offline",
       "C04": "reference generator run in step, statistical monitors",
       "C13": "statistical monitors of drawn points against the exact surface", "C14": "statistical monitors against exact solid angles",
       "C15": "runtime monitor of values and energy against published laws", "C16": "statistical monitor of drawn directions against the reported density",
       "C18": "path-traced means compared statistically with an independent brute-force solver",
       "C22": "written files decoded by independent decoders", "C23": "files written by independent encoders and decoded by the program",
       "C24": "structure-aware mutation of files under AddressSanitizer, UndefinedBehaviorSanitizer and resource limits",
       "C26": "grammar-based generation and mutation of inputs under AddressSanitizer, UndefinedBehaviorSanitizer and resource limits",
       "C27": "random configurations checked against an independent model of the documented grammar",
       "C28": "stateful model of the file system run in step with the real one",
       "C29": "histories in child processes under AddressSanitizer with heap, descriptor and thread balance monitors",
       "C30": "end-to-end runs of the renderer, whose outputs and exit status are monitored",
       "C32": "stateful model of the libraries and the scene run in step", "C34": "outputs of child processes read back and compared with a model; live progress monitored",
       "C35": "the monitors of fifteen other properties run on the sources compiled with the Release flags"}
UNDER = {"asan": "run under ASan+UBSan", "tsan": "run under TSan", "opt": "run on an optimised build", "fast": "run on the Release build"}


def technique(pid, s):
    under = []
    for m in s["monitors"]:
        u = UNDER[m["variant"].split("-")[0]]
        if u not in under:
            under.append(u)
    return HOW.get(pid, "runtime monitor with an independent double-precision oracle") + "; " + " and ".join(under)


for p in props:
    s = monitors.MONITORS.get(p)
    if not s:
        na.append({"property": p, "reason": monitors.NOT_CLAIMED.get(p, "the monitor for this property is not built yet")})
        continue
    checks.append({
        "property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
        "technique": technique(p, s),
        "level": "exploration",
        "level_note": s.get("note", "Holds on the executions explored (seeded random and boundary inputs, counts in the evidence file); "
                                    "trusts the oracle in harness/ and the sanitizers' detection; says nothing about inputs not generated."),
    })
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py " + " ".join(variants), "checks": checks, "not_applicable": na,
     "hooks": {"guard": "SPECTRE_MONITOR", "enable": "lib/vbuild.py compiles /repo/src with -DSPECTRE_MONITOR=1 (read-only accessors of Renderer and ImageFilm)",
               "source_commits": ["3d1ec67a05e7df7e9b20eae295a0a7910d1243ec"]},
     "notes": "Monitors use public interfaces, subclassing, read-only accessors behind SPECTRE_MONITOR and sanitizer builds made out of tree by lib/vbuild.py. "
              "Findings are in known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
