#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for each property whose monitor exists."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "A01": "runtime monitor: index-tagged samples compared after every access",
 "A02": "runtime monitor: exactly-once/order checker over parallel iterator events",
 "A03": "runtime monitor: layout answers against enumerated sample indices",
 "A04": "runtime monitor: parent pixels against an independent grid after each operation",
 "A05": "runtime monitor: differential oracle (independent conversion model)",
 "A06": "runtime monitor: lockstep differential of dynamic and typed histories",
 "A07": "runtime monitor: logged closure calls and f64 compositing oracle",
 "B01": "runtime monitor: tagged-pixel permutation oracle and group laws",
 "B02": "runtime monitor: geometric-intersection oracle over all destination pixels",
 "B03": "runtime monitor: f64 kernel oracle, range and symmetry monitors",
 "B04": "runtime monitor: direct-convolution oracle and range monitors",
 "B05": "runtime monitor: per-pixel model, palette and diffusion monitors",
 "B06": "runtime monitor: domain and interpolation oracle",
 "C01": "runtime monitor: identification tables observed against real files",
 "C02": "runtime monitor: round-trip oracle over formats, types, options",
 "C03": "runtime monitor: distortion monitor over qualities and contents",
 "C04": "runtime monitor: independent decoders and structural file checkers",
 "C05": "runtime monitor: independent writers, pixel oracle",
 "C06": "runtime monitor: panic/CPU/allocation watchdog over mutated files",
 "C07": "runtime monitor with fault injection: every cut and every failing read",
 "C08": "runtime monitor with perturbed delivery: outcome equivalence",
 "C09": "runtime monitor: poisoned buffers, canaries, region oracle",
 "C10": "runtime monitor: allocation tracking under limits",
 "C11": "runtime monitor with fault injection: every failing sink operation",
 "C12": "runtime monitor: compositing reference for frame histories",
 "C13": "runtime monitor: metadata round-trip and access-path equivalence",
 "C14": "runtime monitor with fault injection on real files (RLIMIT_FSIZE, /dev/full)",
 "D01": "AddressSanitizer and MemorySanitizer over hostile safe-API programs and the monitors' workloads, Miri interpreter on the core",
 "D02": "ThreadSanitizer plus result-equality monitor under concurrent use",
}
NOTE = {
 "A01": "Exact on the sizes, containers and access programs generated; relies on the harness's own indexing.",
 "A02": "Every element handed out is observed; split points are those chosen by rayon and by explicit random producers splits.",
 "A03": "Small layouts are enumerated exactly; huge ones only through 128-bit arithmetic. Conservative aliasing answers are accepted.",
 "A04": "Exact comparison of the whole parent; all self-copies of images up to 5x4 are enumerated.",
 "A05": "All 8- and 16-bit sample values and a luma grid are enumerated; other tuples are sampled. Float tolerance: one rounding.",
 "A06": "Oracle is the typed operation itself; bugs common to both forms are left to the other properties.",
 "A07": "Exact for mapping and inversion; blending within one unit of f64 source-over.",
}
DEF = "Holds on every execution observed; inputs are generated from the seed, coverage counts are in the evidence file."
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    have = os.path.exists(os.path.join(R, "harness/src/bin", i.lower() + ".rs"))
    if have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                       "technique": TECH[i],
                       "level": "fault_enumeration" if i in ("C07", "C11", "C14") else "exploration",
                       "level_note": NOTE.get(i, DEF)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks: the public API of the unmodified crate is observed", "source_commits": []},
     "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
