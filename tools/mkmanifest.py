#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property whose check exists in mc/src/bin."""
import json, os, re, subprocess
V = "/verif"
EX, FE, MC = "exploration", "fault_enumeration", "model_checking"
trust = " Trusted: the harness's own reference code, rustc and num-bigint. Says nothing about inputs outside the stated alphabets and bounds."
T = {
"C01": (EX, "exhaustive bounded enumeration of operand pairs and operation sequences against a big-integer model", "All ordered pairs of a limb-boundary alphabet of Montgomery representations per field, all operation sequences to a fixed depth from special states; exact agreement with big integers and reducedness of every result." + trust),
"C02": (EX, "exhaustive bounded enumeration (elements x exponents x subgroup orders x zero patterns) against a big-integer model", "Every element of the boundary alphabet, every two-adic order, every batch shape and zero placement up to the bound, every exponent bit length." + trust),
"C03": (EX, "exhaustive bounded enumeration of encodings around every limb and order boundary against a big-integer model", "All conversions, encodings, orderings and cross-field conversions over the boundary alphabet." + trust),
"C04": (EX, "explicit enumeration of all operation sequences over a point alphabet closed under exceptional cases, against an affine big-integer group law", "All ordered pairs of the point alphabet in every representation and form, plus breadth-first operation sequences." + trust),
"C05": (EX, "exhaustive enumeration of (algorithm, window, list shape, special-case placement, thread count) against the defining sum", "Every window size in the bound with every list length and placement of identities, repeats, opposites and boundary scalars, under pools of different sizes." + trust),
"C06": (EX, "exhaustive enumeration over sizes, basis vectors, lengths, reuse orders and pool sizes against direct evaluation", "FFT is linear, so agreement on the whole basis at a size decides it for all inputs of that size up to the linearity of the code; sizes and lengths enumerated." + trust),
"C07": (EX, "exhaustive enumeration of small-coefficient polynomials and shapes against schoolbook arithmetic", "All coefficient lists over a small alphabet to the bound for both operands, plus all degree shapes beyond it." + trust),
"C08": (FE, "exhaustive fault enumeration over encodings: every truncation, byte and flag alteration, and stream composition", "Round trips of every value kind and stream position; every truncation point and altered byte position in the bound." + trust),
"C09": (EX, "exploration of all call histories over the global caches, against an independent model, plus in-circuit/native conformance", "All orders of use of (field, width, security level) up to the bound in fresh processes and threads; native, reference and in-circuit outputs agree." + trust),
"C10": (MC, "explicit-state exploration of observe/squeeze sequences against a duplex-sponge model, replayed on the native and in-circuit challengers", "Every sequence over the alphabet up to the depth; model states and traces are replayed on both implementations." + trust),
"C11": (MC, "explicit-state search over copy-request sequences against a union-find model, each state replayed on the real builder and permutation", "All reachable partitions of the bounded wire sets and all request orders to the depth; the resulting sigma, labels and grand product are compared in every state." + trust),
"C12": (EX, "exhaustive enumeration of gate rows (valid, generated and every single and double wire deviation) against independent gate relations", "For every gate all rows in the alphabet and their deviations; selector activation matrix; native and in-circuit evaluators compared at all points of the set." + trust),
"C13": (FE, "exhaustive operand enumeration with generator-fault injection: every single (and bounded double) faulty witness choice of each gadget", "Completeness for every operand tuple in the alphabet; soundness: every deviation of a witness generator from the alphabet either violates a constraint or leaves the outputs unchanged." + trust),
"C14": (FE, "exhaustive operand enumeration with generator-fault injection on the big-integer and foreign-field gadgets", "As C13 over limb shapes, declared bounds and ordering chains." + trust),
"C15": (FE, "exhaustive operand enumeration with generator-fault injection on the curve gadgets", "As C13 over the point and scalar alphabets." + trust),
"C16": (EX, "stateless exploration of generator schedules under a controlled scheduler (deviation-bounded, exhaustive for small circuits) with a dependency-closure check", "All schedules of small circuits and all schedules with up to the stated number of deviations for the others yield one witness; every generator is run with exactly its declared dependencies." + trust),
"C17": (EX, "exhaustive enumeration of circuit shapes (public input counts, sizes, gate mixes, options, thread counts) through prover and verifier", "Every configuration in the bounded space proves and verifies; public inputs compared in order." + trust),
"C18": (FE, "exhaustive single-fault enumeration over every component of the verified tuple, plus pairwise structural faults", "Every field of proof, inputs, key and old proofs altered in every way of the alphabet; full verification must return an error." + trust),
"C19": (FE, "exhaustive enumeration of violating assignments for an adaptive algebraic prover", "Every gate row, copy class and public input violated, with adaptive choices after every challenge subset; none may be accepted." + trust),
"C20": (MC, "explicit-state exploration of accumulation histories (prove, absorb, corrupt, drop, reorder, verify) against a validity model, replayed on the implementation", "All histories to the depth; the real verifier's answer equals the model's in every state." + trust),
"C21": (FE, "exhaustive enumeration of commitments and opening shapes with single-fault injection", "All shapes in the bound verify; every altered component is rejected; vector formulas compared with the definition." + trust),
"C22": (EX, "exhaustive enumeration of all indices in use (and boundary seeds), with collision search", "Every index to the bound for every curve, threads and repeat calls." + trust),
"C23": (FE, "exhaustive enumeration of small tables and lookup lists, with algebraic-prover and proof-component fault injection", "All tables and witnesses to the bound accepted exactly when contained; all altered proofs rejected." + trust),
"C24": (EX, "exhaustive enumeration of small domains, row sets and lookups against the defining lists", "All tables to the bound; all foreign rows refused." + trust),
"C25": (MC, "explicit-state exploration of write histories against a map model, each state replayed on the real witness with every read", "All write sequences to the depth over overlapping targets; every typed and untyped read in each state." + trust),
"C26": (EX, "exhaustive enumeration of circuit shapes with repeated witnesses and proofs, extracting what hides each element; scripted random source over all boundary word combinations", "All shapes in the bound; every cell, commitment and cross term of every proof made; distributional claims beyond freshness and independence of these values are not made." + trust),
}
NA = {
"N01": "The recursive verifier circuit (src/plonk_recursion.rs) is unfinished at this commit: its vanishing, opening and public-input checks are TODOs and no generator exists for a full witness, so the equivalence is false by design and cannot be stated as a guarantee of this tree; the parts it is assembled from are covered by C09, C10, C12-C15.",
"N02": "Zero knowledge is a statement about output distributions over random coins, not about individual executions; exhaustive exploration of executions does not address it. Its operational part (fresh, unshared randomness wherever something is hidden) is C26.",
"N03": "Computational hardness (discrete logarithm, random oracle) is not a property of bounded executions; C18-C21 and C23 cover the algebraic and binding part by fault enumeration.",
}
checks, na = [], []
for i in sorted(T):
    lvl, tech, note = T[i]
    if os.path.exists(f"{V}/mc/src/bin/{i.lower()}.rs"):
        lvl = re.search(r'run\("C\d\d", "(\w+)"', open(f"{V}/mc/src/bin/{i.lower()}.rs").read()).group(1)  # as in the evidence
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
na += [{"property": k, "reason": v} for k, v in NA.items()]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS with --cfg verif_hooks (see env.sh); cargo build of /verif/mc, which depends on /repo by path", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Each check is one binary of /verif/mc, rebuilt against /repo's working tree by run.sh; known_findings.txt lists repaired defects and known findings."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
