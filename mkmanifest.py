#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, sys
sys.path.insert(0, "/verif")
from vp import props
N = "Assumes the compilers and the machine (AVX2 present) are right. "
ORACLE = {
 "C01": ("property-based testing against schoolbook multiplication", "All five variants on generated polynomial pairs; the oracle is independent of any NTT."),
 "C05": ("property-based testing against the definition of the NTT; all (n, psi) enumerated", "Every size, every root; inputs are sampled."),
 "C07": ("property-based testing against the definition of the NTT modulo Q; all (n, psi) enumerated", "Every size, every root; inputs are sampled, including both ends of the documented range."),
 "C08": ("differential property-based testing of assembly against C, all (n, psi) enumerated", "Relies on C07 for the C side."),
 "C09": ("exhaustive enumeration of operand pairs plus property-based testing of array shapes", "All 12289^2 operand pairs; lengths and offsets sampled."),
 "C10": ("enumeration of operand domains and property-based testing against the definition of the reduction", "One-operand functions: all 2^32 inputs in the thorough tier, blocks of them in the quick tier; two-operand: documented ranges enumerated, the 44-bit window sampled at its edges."),
 "C11": ("differential enumeration and property-based testing of assembly against C", "As C10, with the C function as the oracle (relies on C10)."),
 "C12": ("round-trip property-based testing of all forward/inverse pairs", "All pairs, all sizes, all implementations; inputs sampled."),
 "C13": ("property-based testing with randomised machine state, guard pages and read-only operands", "Register, flag and memory effects are observed at the call boundary."),
 "C14": ("fuzzing under address, undefined-behaviour and memory sanitizers, guard and read-only pages; metamorphic comparison of two runs", "Detects the accesses the generated inputs cause."),
 "C15": ("exhaustive run of the generator over all (n, psi), tables read back through the compiler", "Complete for the stated parameter space."),
 "C17": ("property-based testing against the definition of bit reversal; all generator sizes enumerated", "All sizes to 2^20; contents sampled."),
 "C18": ("fuzzing of the command lines against an acceptance rule", "All small sizes and all psi for valid sizes are enumerated, other strings sampled."),
 "C19": ("property-based testing against exact 128-bit computation; forked children for overflow", "Intervals sampled with bias to block and word boundaries."),
 "C20": ("property-based testing against exact extrema", "Ranges sampled; extrema of each sampled range are exact."),
 "C21": ("property-based testing: concrete executions inside abstract ones", "Soundness is tested on six executions per abstract run."),
 "C22": ("stateful property-based testing of call histories and threads; oracle is the same call in a fresh process", "Thread schedules are those the kernel produces."),
 "C23": ("differential property-based testing of the benchmark copies against the library; fuzzing of the benchmark harnesses", "The verifier's intrinsics are stubs with their documented meaning."),
 "C24": ("model-based property-based testing of the abstract domain", "crab and clam are replaced by stand-ins; if the domain needs something they lack the check says so and decides nothing."),
 "C25": ("exhaustive enumeration of the published entries", "Complete."),
 "C26": ("exhaustive small arrays and property-based testing against std::sort", "Complete up to length 7 (8) up to order; longer arrays sampled."),
 "C27": ("search for extreme intermediates (hill climbing) in a build that traps on overflow", "Every (n, psi) with every transform; inputs are the worst the search finds."),
 "C28": ("fuzzing of the script's arguments with injected stage failures", "The tools are stand-ins that record their arguments; what they compute is out of scope."),
 "C29": ("fault injection at generated points of generated runs, against a run without faults", "Faults: file-size limit at any byte, full device, name not openable, failing allocation."),
 "C30": ("property-based testing against the definitions in four other builds of the library", "Cases and oracles of C01-C10, C12, C17, C19-C21 at a smaller scale in each build."),
}
for a, b in (("C02", "C01"), ("C03", "C01"), ("C04", "C01"), ("C06", "C05"), ("C16", "C15")):
    ORACLE[a] = ORACLE[b]
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i not in props.PROPS:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, note = ORACLE[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": t, "level": "exploration", "level_note": note + " " + N.strip()})
m = {"version": 1, "setup_cmd": "python3 -c 'import vp.props'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Seeds come from VERIF_SEED. Replay: python3 check.py <ID> --replay <file>."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
if "--validate" in sys.argv:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
