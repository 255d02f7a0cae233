#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TRUST = "Assurance: exploration; the oracle observes only the executions of this run. Trusted: clang/rustc, their sanitizers, and the Python model that predicts histories."
T = {
 "C01": ("sanitizer-instrumented generated programs, two-language event log vs model", ""),
 "C02": ("sanitizer-instrumented generated programs, overload-identity event log vs naming model", ""),
 "C03": ("online C++ object-lifetime monitor + ASan/LSan/UBSan over generated by-value call histories", ""),
 "C04": ("online C++ object-lifetime and operator new/delete monitor + ASan over random ownership histories", ""),
 "C05": ("two-language layout/value probes logged in one process under UBSan/ASan", ""),
 "C06": ("monitored generator verdicts vs clang type traits; granted PODs exercised under ASan", ""),
 "C07": ("monitored API surface and runtime behaviour of special members vs clang type traits", ""),
 "C08": ("compile-time monitor: rustc verdicts on use/misuse probes of real bindings vs signature model", ""),
 "C09": ("surface monitor: use probes of real bindings under directive combinations vs allow/block model", ""),
 "C10": ("hostile-header stress with crash/build monitors and runtime trace of neighbours", ""),
 "C11": ("offline comparison of recorded outputs over repeated, perturbed and concurrent runs", ""),
 "C12": ("history and fault-injection monitor of the command-line tool's output directory", "fault_enumeration"),
 "C13": ("multi-module programs under every lookup mode, runtime module-identity trace, mismatch faults", ""),
 "C14": ("two-language event log of virtual dispatch histories under ASan/UBSan vs model", ""),
 "C15": ("lifetime registry on both peers + ASan over random ownership histories", ""),
 "C16": ("two-language event log and drop registry of C++-to-Rust calls under ASan/UBSan", ""),
 "C17": ("byte-digest, identity and reference-count event log under ASan/LSan vs model", ""),
 "C18": ("Miri (undefined-behaviour interpreter) over random operation histories with drop registry", ""),
 "C19": ("online comparison of the real directive parser's configuration with a model on generated and mutated blocks", ""),
 "C20": ("address/identity event log over random inheritance graphs under UBSan (vptr) vs model", ""),
 "C22": ("lifetime registry, value/identity event log and type-identity probes over random multi-module programs vs model", ""),
 "C21": ("generated Rust sources in many syntactic positions: discovery monitor plus build-and-run trace", ""),
}
NOTE = {}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "vf", i.lower() + ".py")):
        t, l = T[i]
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": l or "exploration",
                       "level_note": (NOTE.get(i, "") + " " + TRUST).strip()})
    else:
        na.append({"property": i, "reason": "no check built (yet); not claimed"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: checks drive the real autocxx-gen binary, the real runtime crate and (through path dependencies) the public API of the parser and engine crates. /repo carries only fix: commits."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
