#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "SanitizerCoverage-instrumented library, generated filesystems, "
T = {
 "C04": ("online oracle over file reads of generated filesystems", BASE + "every byte compared with the model the image was written from. Exploration: random mappings, not all."),
 "C05": ("stateful history monitor (cursor model) over open files", BASE + "random read/seek histories on interleaved handles, position checked after every step."),
 "C06": ("online oracle over directory listings", BASE + "each listing compared as a set with the model."),
 "C07": ("online oracle over name lookups in generated hash trees", BASE + "every present name and near-miss absent names looked up; hash collisions forced."),
 "C08": ("reference-model monitor of path resolution", BASE + "component-by-component Unix resolver as oracle."),
 "C09": ("online oracle over metadata of generated inodes", BASE + "all routes to each inode compared with the model."),
 "C01": ("panic/abort monitor (catch_unwind, debug assertions, overflow checks, process exit status) over structure-aware hostile images", BASE + "mutations of every structure kind with repaired checksums; every public operation and formatter runs on each. Exploration: sampled images."),
 "C02": ("work monitor: executed-edge counter (SanitizerCoverage) with limits, on cyclic and self-referencing images", BASE + "limits are functions of volume size, file size and path length with a generous factor."),
 "C03": ("allocation monitor: counting global allocator with refusal, on hostile size fields", BASE + "peak live bytes per operation, refused requests, leaks after drop."),
 "C10": ("reference-model monitor of journal replay over generated journal histories", BASE + "the whole tree after load compared with the model of the last committed state."),
 "C11": ("prefix-consistency monitor with every cut of generated logs enumerated", BASE + "every block boundary of each generated log is cut; tears and damage are sampled."),
 "C12": ("truth-or-error oracle with corruption injected into every checksummed structure", BASE + "single structures corrupted in random bytes; only corruptions the CRC can tell are judged."),
 "C13": ("fault injection at the reader with truth-or-same-error oracle and recovery monitor", BASE + "every read index of loading and of a sample of operations fails in turn."),
 "C14": ("differential monitor: interleaved histories against fresh instances", BASE + "random interleavings of operations over clones, files and directory iterators, on intact and corrupted volumes."),
 "C15": ("trace monitor of reader requests against the declared volume", BASE + "every request of every operation checked."),
 "C16": ("configuration-matrix monitor over feature words of filesystem and journal", BASE + "every single bit and every combination of supported bits over the cases; random words."),
 "C17": ("online oracle over the path and name types, short strings enumerated", "All strings of up to 7 bytes over a six-letter alphabet are enumerated, longer ones are random."),
 "C20": ("differential monitor over storage backends and over the no-std build", BASE + "same operations on each backend; truncations at random and structural lengths."),
 "C21": ("differential monitor over a 32-bit build of the library (wasm32 under node, overflow checks) and the native one", "The same operations on generated and damaged filesystems, a third of them with files and volumes above 2^32 bytes. One 32-bit platform, little-endian."),
 "C18": ("online oracle over encrypted trees", BASE + "all operations on all paths through encrypted inodes."),
 "C19": ("reference-model monitor of error kinds and cross-operation agreement", BASE + "all operations on valid and invalid arguments."),
}
exec(open(os.path.join(root, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "manifest_more.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
LEVEL = {"C13": "fault_enumeration", "C11": "fault_enumeration", "C12": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        t, n = T[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": LEVEL.get(i, "exploration"),
            "level_note": n,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
