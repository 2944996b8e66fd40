#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from /repo's log (run by hand after each fix; 'known:' lines are kept)."""
import subprocess, os
M = [
("challenger no longer repeats", "C10", "a second get_challenge after the output buffer ran dry returned the same challenge (so beta = gamma etc. became predictable; a proportional copy violation was accepted, C19)"),
("Base4SumGate generates", "C13", "the Base4SumGate generator never set ACC_NEW, so base-4 decompositions had no satisfying witness"),
("assert_all_base_4 populates", "C13", "unused limbs of the last Base4SumGate were left without value"),
("assert_dibit_length", "C13", "dibits were weighed in the wrong order, so the assertion held only for palindromic values"),
("deterministic_square_root", "C13", "the decomposition asserted was not that of the returned root, so the non-canonical root satisfied the circuit / the circuit was unsatisfiable"),
("recursive RescueStepBGate", "C12", "in-circuit constraint of Rescue step B differed from the native one"),
("in-circuit curve gate constraints", "C12", "three constraints of CurveAddGate/CurveEndoGate were negated in circuit, so the unified constraint values at a random point differed from the native ones"),
("CurveAddGate waits", "C16", "generator read the scalar bit without declaring it as a dependency (panic for some schedules)"),
("polynomial division", "C07", "panic or wrong quotient for zero dividends and divisors with zero low coefficients"),
("bigint_mul handles", "C14", "panic for operands with no limbs"),
("limbs bounded by zero", "C14", "bigint_add dropped limbs whose bound is zero without asserting it, so e.g. (2^86-2) / (2^86-1) = 2^86+2 remainder 0 satisfied bigint_div_rem for a dividend bound of 2^86"),
("range check the most", "C14", "a value above its declared bound satisfied the circuit"),
("reading the point at infinity", "C08", "following values of the stream were misread after an encoded point at infinity"),
("the transcript observes the public", "C19", "public inputs were not bound before alpha; a prover could choose them late"),
("verify_proof rejects proofs and public", "C18", "proofs of other shapes panicked or were accepted"),
("verify_proof checks that the public", "C18", "c_pis_quotient off the curve was not rejected"),
("verify_proof rejects proofs containing", "C18", "points at infinity led to a panic in the transcript"),
("a Lagrange basis", "C23", "Lagrange basis scaled wrongly, checks on first and last row were vacuous"),
("plookup domain has room", "C23", "power-of-two sized witness did not fit"),
("plookup pads", "C23", "padding with zero made zero an admissible lookup, and panicked for tables without it"),
("plookup verify checks", "C23", "halo_g was never checked: any statement could be proved; malformed proofs panicked"),
("BLS12-377 multiplicative", "C01", "MULTIPLICATIVE_SUBGROUP_GENERATOR was not a generator of the multiplicative group"),
("a public input and its wire", "C16", "a public input target and its wire given different values: one silently overwrote the other"),
("doubling a point of order two", "C04", "doubling (or adding to itself) a point with y = 0, which BLS12-377 has over its base field, gave a malformed point or never returned"),
("the transcript absorbs the point at", "C17", "without blinding, circuits with a zero wire, quotient or public input quotient polynomial could not be proved (panic on the commitment, the point at infinity); the plookup table [0] likewise"),
("Halo challenges of old proofs", "C20", "zeta did not depend on an old proof's halo_us, so challenges fitted to zeta afterwards made a commitment to any polynomial pass as deferred data, also with full verification"),
("generators that depend on public inputs run", "C16", "a generator depending directly on a public input (inv, is_zero, square root, splits, big integers of a public input) never ran, leaving the circuit unsatisfied"),
("public input computed by a generator reaches", "C16", "a public input with index mod 9 of 6 to 8 that a generator computes was not passed on to the copy constraints, so what depends on it never ran and the witness was unsatisfying"),
("rejects old proofs with a zero challenge", "C18", "an old proof with a zero in halo_us made verify_proof loop forever (inverse of zero) whenever the transcript was otherwise valid"),
("old proofs whose G point is not on the curve", "C18", "an old proof whose halo_g is off the curve made verify_proof panic when the proof absorbing it was otherwise consistent"),
("table lookups refuse rows outside", "C24", "the compression challenge depends on the table only, so a row outside of the table with the compressed value of a row inside, e.g. (0, alpha x + y) for the row (x, y), was proved row-wise and column-wise and accepted"),
("prove_column refuses columns", "C24", "columns of different lengths: longer ones were cut to the first one's length without notice, shorter ones led to a panic"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","--grep=^fix:"],capture_output=True,text=True).stdout.splitlines()]
out = []
for h, s in log:
    m = [x for x in M if x[0] in s]
    assert len(m) == 1, (h, s)
    out.append(f"fixed: property={m[0][1]} {h} {m[0][2]}")
p = "/verif/known_findings.txt"
old = [l for l in open(p).read().splitlines() if l.startswith("known:")] if os.path.exists(p) else []
open(p, "w").write("\n".join(out + old) + "\n")
