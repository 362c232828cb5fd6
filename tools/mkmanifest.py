"""Writes MANIFEST.json. CLAIMED: property -> (technique, level note)."""
import json
M = "reference-model oracle over coverage-guided and systematic executions of the instrumented crate"
N = "every execution compared with an independent model; bounded by the inputs explored"
R = "relational oracle (two or more executions compared) over coverage-guided executions of the instrumented crate"
RN = "relations between executions, checked on every one; bounded by the inputs explored"
CLAIMED = {i: (M, N) for i in 'C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18'.split()}
CLAIMED.update({i: (R, RN) for i in 'C19 C20 C21 C22 C23 C31'.split()})
CLAIMED['C01'] = ("panic, overflow, logical-step, memory and deadlock monitors over hostile executions of the instrumented crate", "bounded by the inputs explored; termination is restated as a logical-step budget")
CLAIMED.update({i: (M, N) for i in 'C24 C25 C30'.split()})
CLAIMED.update({i: (R + ", and a model of the printed forms and defaults", RN) for i in 'C26 C27'.split()})
CLAIMED['C02'] = ("differential monitor: every call alone in a pristine process against histories, shared encoders in four threads with injected delays, perturbed surroundings and new processes; printing is watched", "the histories and interleavings executed; no exhaustive scheduling")
CLAIMED['C28'] = ("counting allocator and logical-step (basic block) monitor against polynomial bounds, and retention monitor over histories", "bounds are several times the largest cost measured on the unchanged tree; inputs explored only")
CLAIMED['C29'] = ("AddressSanitizer, LeakSanitizer, ThreadSanitizer and MemorySanitizer (standard library included) and Miri over coverage-guided and concurrent workloads, with positive controls", "errors in executed paths only; Send and Sync are decided when compiling")
CLAIMED['C32'] = ("differential monitor: the same calls in the instrumented build, three builds with other features and compiler options, a WebAssembly build (32 bits), and a build for a big-endian platform interpreted by Miri", "five other builds; the inputs explored")
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --setup",
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i][0], "level": "exploration", "level_note": CLAIMED[i][1]}
   for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": "pending: the check is being built"} for i in ids if i not in CLAIMED],
}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1); print(len(m['checks']))
