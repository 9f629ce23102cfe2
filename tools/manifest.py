#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property that has a binary, the rest not applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime oracle: verdict of the real verifier on generated computations, and byte-wise determinism of proofs",
 "C02": "runtime oracle: independent row-by-row trace checker against the prover/verifier verdict on faulty traces",
 "C03": "runtime fault injection into accepted proofs; verdict monitor",
 "C04": "runtime verdict monitor over altered public inputs and computations, including an adaptive assertion attack",
 "C05": "runtime verdict monitor over altered options; nonce work measured on the logged challenge",
 "C06": "hostile-input stress with panic/overflow/termination monitors",
 "C07": "cheating provers built from an independent protocol implementation; verdict monitor",
 "C08": "runtime round-trip monitor with field-for-field comparison",
 "C09": "hostile-bytes stress with panic, overflow, allocation and time monitors",
 "C10": "online trace-specification checker over the Fiat-Shamir event log of prover and verifier",
 "C11": "runtime oracle: independent Keccak work measure, brute-force minimality, threaded search",
 "C12": "runtime oracle: independent security estimates over swept options; panic/overflow monitor",
 "C13": "runtime oracle: independent folding, Merkle commitment and opening checker on hooked layer state",
 "C14": "runtime oracle: independent composition formula evaluated at every domain point",
 "C15": "runtime oracle: independent interpolation and Horner evaluation of columns, cosets and frames",
 "C16": "runtime model comparison of trace tables, frames and boundary sets with plain matrices",
 "C17": "runtime oracle over scripted and logged transcripts",
 "C18": "runtime oracle: independent row-by-row trace checker against the debug validator (debug-assertions build)",
 "C19": "runtime oracle: independent bit-field decoder over generated instruction words",
 "C20": "runtime oracle: independent Cairo interpreter compared cell by cell with the built trace",
 "C21": "offline checker over the built main trace: continuity, holes, padding",
 "C22": "offline checker over the built auxiliary trace: permutation, order, running products",
 "C23": "runtime oracle: independent constraint formulas on generated frames",
 "C24": "end-to-end stress: generated Cairo programs proved and verified; verdict monitor",
 "C25": "fault injection into Cairo traces judged by an independent semantics checker; verdict monitor",
 "C26": "runtime verdict monitor over altered Cairo public inputs, including an adaptive memory attack",
 "C27": "runtime comparison with the virtual machine's own records and with generated dump files",
 "C28": "schedule stress: multi-threaded build under varied worker counts, byte comparison with the sequential build",
 "C30": "runtime oracle: independent statement of each shipped computation against builder output and verdicts on honest, deviating and misattributed traces",
 "C29": "black-box process monitor over the real command-line binary with corrupted files",
}
N = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(root, "harness/src/bin", i.lower() + ".rs")):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i],
                       "level": "fault_enumeration" if i in N.get("fault", []) else "exploration", "level_note": N["notes"].get(i, N["default"])})
    else:
        na.append({"property": i, "reason": N["na"].get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
