#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("runtime monitoring: seeded random-tape workloads through castVote/verifyVote, verdict and termination monitors",
   "Every ballot observed was accepted; sampled candidates, ranges and tapes, not all of them."),
 "C02": ("runtime monitoring: independent decryption oracle and statistical monitors over recorded ciphertexts",
   "Decryption is judged exactly on each observed ciphertext; uniformity statistically."),
 "C03": ("runtime monitoring: adversarial provers against the real collector, accepted ballots decrypted by an independent oracle",
   "Rejection is shown for the implemented forgery families, not for all provers."),
 "C04": ("runtime monitoring: mutation of every component of recorded ballots, equation solving over transparent groups",
   "All components, several replacement values each."),
 "C05": ("runtime monitoring: ballots proven under attacker-chosen embedded parameters, judged by the real collector",
   "Implemented parameter attacks only."),
 "C06": ("runtime monitoring: observed challenge scalars (transparent group hooks), adaptive-prover workloads",
   "Dependence is observed by changing each input; adaptive attacks are solved for each equation."),
 "C07": ("runtime monitoring: prove/verify workloads with opening oracle over all ranges and groups",
   "All values for the small ranges, edge and random values for the large ones."),
 "C08": ("runtime monitoring: adversarial range-proof provers (linear-algebra forger over a transparent group), verdict oracle",
   "Implemented forgery families only."),
 "C09": ("runtime monitoring: aggregated prove/verify workloads with opening oracle, component mutation",
   "All supported budgets and divisors, sampled vectors."),
 "C10": ("runtime monitoring: relation-deviation workloads with verdict oracle",
   "Each deviation class sampled."),
 "C11": ("runtime monitoring: blinding values read off transparent groups, offline freshness and distribution checks on the recorded log",
   "Statistical for the distribution, exact for reuse."),
 "C12": ("runtime monitoring: encode/decode/compare monitors on recorded ballots and proofs",
   "Sampled ballots over all groups."),
 "C13": ("runtime monitoring: structure-aware hostile documents, crash monitor and membership oracle",
   "All structural positions, sampled values."),
 "C14": ("runtime monitoring: online differential monitor against an independent reference implementation",
   "Edge and random operands."),
 "C15": ("runtime monitoring: online encoding monitor (round trip, canonicity, injectivity) against the reference",
   "Edge and random elements, elements with leading zero bytes sought."),
 "C16": ("runtime monitoring: shadow state of a pool of live elements checked after every operation",
   "Random operation histories with aliasing."),
 "C17": ("runtime monitoring: base monitor against reference hash and membership oracle, cross-process comparison",
   "Sampled seeds, all ranges and curves."),
 "C18": ("runtime monitoring: setup verdicts judged by an independent admissibility oracle, accepted parameters exercised",
   "Edge and sampled parameters."),
 "C19": ("Go race detector plus state-snapshot and verdict monitors under concurrent stress with injected pauses",
   "Observed interleavings only."),
 "C20": ("runtime monitoring: online differential monitor with exact integer oracle",
   "Edge and random vectors."),
 "C21": ("runtime monitoring: prove/verify workloads and component mutation of the inner-product argument",
   "All power-of-two lengths up to 64, sampled vectors."),
}
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for k, (t, n) in sorted(T.items()):
    m["checks"].append(dict(property=k, quick_cmd="python3 check.py %s quick" % k, thorough_cmd="python3 check.py %s thorough" % k,
        evidence_file="evidence/%s.json" % k, technique=t, level="exploration", level_note=n))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
