#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

FIELDS = ["src/field/field.rs", "src/field/monty.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs",
          "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/bls12_377_base.rs",
          "src/field/bls12_377_scalar.rs", "src/bigint/bigint_arithmetic.rs"]
p("C01", "Field ring arithmetic is exact in every supported prime field",
  "For every supported field and all elements a and b, a+b, a-b, -a, a*b, square, cube, doubling, tripling, quadrupling and the slice helpers (scale, add, inner product) return the exact residue modulo the field's order. "
  "Every result is the unique reduced representation, so two computations of the same residue compare equal, hash equally and can be fed into any further operation. "
  "The published constants (zero, one, two, three, four, five, minus one, the multiplicative generator, the power-permutation exponent, two-adicity and odd part) have the values their names promise.",
  ["inputs", "histories"], "all pairs (and operation sequences) of field elements, including those whose limbs sit at carry, borrow and reduction boundaries, for each of the six fields",
  "Tests sample a fixed list of 32-bit-word patterns in canonical form; carries and conditional subtractions depend on the Montgomery representation, which those inputs reach only by accident.",
  FIELDS, [("Montgomery multiplication with final conditional subtraction", "src/field/monty.rs"), ("unsaturated limb add/sub/compare", "src/bigint/bigint_arithmetic.rs")],
  observe=["field operators", "canonical conversion"])
p("C02", "Inversion, division, powers, roots and batch inversion are exact",
  "Inverting a non-zero element yields the element whose product with it is one, inverting zero reports that no inverse exists, and batch inversion agrees element by element with single inversion (for the optional variant also when some entries are zero). "
  "Raising to any power equals repeated multiplication, the k-th root is the unique element whose k-th power is the input whenever k-th powers permute the field, and a square root exists exactly for quadratic residues, squares back to its input and is always the same one. "
  "A primitive 2^k-th root of unity has order exactly 2^k, and the subgroup lists enumerate its powers in order.",
  ["inputs"], "every field element, exponent, root degree, subgroup size and batch length, with every placement of zeros in a batch",
  "Tests check a handful of inputs per field; special cases depend on limb patterns of the operand (extended Euclid), on exponent bit lengths at limb boundaries, on the two-adic order of the operand (Tonelli-Shanks) and on batch shape.",
  FIELDS + ["src/bigint/bigint_inverse.rs"], [("binary extended Euclid", "src/bigint/bigint_inverse.rs"), ("Tonelli-Shanks, Montgomery's trick, Fermat k-th root", "src/field/field.rs")])
p("C03", "Canonical conversions, ordering and bit lengths are faithful and total",
  "Converting an element to limbs, 32-bit words, bytes, bits or a big integer and back gives the same element, and each of those forms denotes the same integer below the field order. "
  "Encodings of integers at or above the order are reported as out of range when read from bytes, and conversion between fields of equal size succeeds exactly when the integer fits in the target field, preserving it. "
  "Ordering and bit length agree with those of the canonical integer.",
  ["inputs"], "every element and every byte string of the encoding's length, for all six fields and all same-size pairs of fields",
  "The range check and the cross-field conversions differ from the identity only within a sliver around the two orders, which random tests do not hit.",
  FIELDS + ["src/conversions.rs"], [("canonical limb conversions and validity check", "src/field/field.rs"), ("BigUint conversion", "src/conversions.rs")])
CURVE = ["src/curve/curve.rs", "src/curve/curve_adds.rs", "src/curve/pallas_curve.rs", "src/curve/vesta_curve.rs", "src/curve/tweedledee_curve.rs", "src/curve/tweedledum_curve.rs", "src/curve/bls12_377_curve.rs"]
p("C04", "Curve point addition, doubling and negation form the group law",
  "Adding, doubling and negating points in affine, projective or mixed form gives the group-law result for every operand, including the identity, equal operands and opposite operands, and independently of which projective representative is used. "
  "Results are again points of the curve, equality of points means equality as group elements, and single and batch conversions between projective and affine form preserve the point. "
  "Each curve's generator is a valid point whose multiple by the scalar field's order is the identity.",
  ["inputs", "histories"], "all pairs of points and representations, all sequences of group operations, all batch shapes with identity points in any position, for the five curves",
  "Tests add random points; exceptional cases (identity on either side, P+P, P-P, scaled projective coordinates, batches containing the identity) are each a measure-zero set.",
  CURVE, [("exception handling before the incomplete addition formulas", "src/curve/curve_adds.rs"), ("projective equality and batch normalisation", "src/curve/curve.rs")])
p("C05", "Scalar multiplication, multi-scalar multiplication and sums agree with the group",
  "Multiplying a point by a scalar, with or without precomputation, and multiplying a list of points by a list of scalars, serially or in parallel and for every window size, equals the defining sum of repeated additions. "
  "The result does not depend on the number of worker threads, on the chosen window, or on identity points, zero scalars or repeated points in the list. "
  "Every summation strategy for lists (and lists of lists) of affine points returns the same group elements, in order.",
  ["inputs", "configurations", "schedules"], "all scalars, list lengths, window sizes, digit patterns, repeated/opposite/identity points and thread-pool sizes",
  "Tests compare one random instance per curve; digit extraction depends on window/limb alignment, and the batch-inversion summation switches strategy by list count and handles collisions specially.",
  ["src/curve/curve_multiplication.rs", "src/curve/curve_msm.rs", "src/curve/curve_summations.rs"], [("windowed digits and precomputed tables", "src/curve/curve_msm.rs"), ("pairwise and batch-inversion summation", "src/curve/curve_summations.rs"), ("4-bit windowed multiplication", "src/curve/curve_multiplication.rs")])
p("C06", "FFT and inverse FFT are evaluation and interpolation on the subgroup",
  "Transforming a coefficient list gives its evaluations at the powers of the primitive root in order, with shorter inputs treated as zero-padded, and the inverse transform gives back the unique polynomial below that degree. "
  "This holds for every power-of-two size up to the supported limit of the field and does not depend on reuse of a precomputation or on the number of worker threads.",
  ["inputs", "configurations"], "all coefficient vectors (a basis suffices by linearity, which is itself checked), all transform sizes, all reuse histories of a precomputation",
  "Tests compare one random vector at one size; index permutation, twiddle tables and per-layer strides are size dependent.",
  ["src/fft.rs"], [("bit-reversal permutation and per-layer twiddle tables", "src/fft.rs")])
p("C07", "Polynomial arithmetic and division satisfy their defining identities",
  "Sums, products, evaluation, evaluation on a domain at least as long as the polynomial and interpolation agree with the schoolbook definitions whatever the lengths, leading zeros or zero polynomials involved, and equality, degree, leading coefficient, trimming and padding depend only on the coefficients that matter. "
  "Dividing by any non-zero polynomial returns a quotient and a remainder of smaller degree than the divisor with dividend = quotient * divisor + remainder, for both division routines. "
  "Dividing a multiple of X^n - 1 by it returns the exact cofactor.",
  ["inputs"], "all pairs of polynomials up to a degree over a coefficient alphabet with zeros, including untrimmed and zero ones, and all admissible n",
  "Tests divide one random dense pair; zero coefficients, untrimmed operands, constant divisors and size coincidences (power-of-two lengths) are untested.",
  ["src/polynomial.rs", "src/plonk_util.rs"], [("FFT multiplication, long division, Newton inversion, coset division", "src/polynomial.rs")])
p("C08", "Serialised values read back unchanged and malformed encodings are refused",
  "Field elements, affine points, proofs and verification keys written with the byte or serde encoders read back equal, also when several values follow one another in one stream, and a value's encoded length depends only on its type. "
  "Reading fails with an error, without panicking, for truncated input, for field encodings at or above the order and for an x coordinate that is not on the curve.",
  ["inputs", "fault_sequences"], "all elements and points (identity and both signs of y), all short sequences of values in one stream, every truncation point and every out-of-range encoding in an alphabet",
  "Tests round-trip single random values; framing of consecutive values, the identity, the sign flag and truncation at each byte are not covered.",
  ["src/serialization.rs", "src/verifier.rs", "src/plonk_proof.rs"], [("x coordinate plus flag byte, square root on read", "src/serialization.rs")])
p("C09", "Rescue is a fixed function of its inputs, natively and in circuit",
  "The Rescue permutation and sponge hashes are deterministic functions of field, state width, security level and input: they follow the published round structure over an MDS matrix and round constants that never change, and are unaffected by which widths, fields or security levels were used before or on which thread. "
  "The permutation is injective, and the in-circuit permutation and hashes produce, for every input, the same outputs as the native ones.",
  ["inputs", "histories", "schedules"], "all inputs in an alphabet, all call-order histories over (field, width, security level) up to a depth, and concurrent first use from several threads",
  "Tests check determinism of one call; cached matrices and constants make the result history-dependent if a key is wrong, which needs particular call orders in one process.",
  ["src/rescue.rs", "src/mds.rs", "src/pseudorandom.rs", "src/circuit_builder.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs"],
  [("global MDS cache keyed by field and size", "src/mds.rs"), ("round constants from a PRF-based PRG", "src/rescue.rs"), ("two gates per round", "src/gates/rescue_a.rs")],
  state=[("MDS cache", "process-wide map from field and size to matrix", "src/mds.rs")])
p("C10", "Transcript challenges depend on everything observed and never repeat",
  "Two challengers that observed and squeezed the same sequence return the same challenges, however the observations were grouped into calls, and every squeeze in a transcript returns a new value. "
  "Changing any observed element, or swapping two different ones, changes all later challenges and none of the earlier ones. "
  "The in-circuit challenger produces the same challenges as the native one for every such sequence.",
  ["histories", "inputs"], "all interleavings of observations and squeezes up to a length (crossing sponge-rate boundaries) with all single-element perturbations",
  "The one existing test squeezes a fixed script; buffering errors need a particular number of pending inputs or unread outputs at the moment of the next call.",
  ["src/plonk_challenger.rs", "src/rescue.rs"], [("duplex sponge with input and output buffers", "src/plonk_challenger.rs")],
  state=[("input/output buffers", "absorbed and unread sponge elements", "src/plonk_challenger.rs")], hook="in-circuit challenger is crate-private")
p("C11", "Copy constraints become exactly the permutation that the proof enforces",
  "After any sequence of copy requests, two wires are in the same class exactly when connected through the requested copies, in whatever order the requests were made and including virtual targets and public inputs. "
  "The resulting permutation maps every routed wire within its own class, has one cycle per class and leaves unconnected wires fixed, and the sigma polynomials and verification key encode exactly that permutation with pairwise distinct labels for all routed wire positions. "
  "Hence the grand product closes for a wire assignment exactly when the assignment is constant on every class.",
  ["histories", "inputs"], "all sequences of copies over a small set of targets up to a depth, and all circuits built from them",
  "One test builds one permutation from random partitions; transitive merges in unusual order, self-merges and virtual bridges are not enumerated.",
  ["src/partition.rs", "src/plonk_util.rs", "src/circuit_builder.rs", "src/target.rs"], [("union of target partitions", "src/partition.rs"), ("rotation neighbour permutation", "src/partition.rs"), ("coset labels k_i", "src/partition.rs")])
p("C12", "Gate constraints accept exactly the relation each gate stands for",
  "For every gate, the constraints evaluated on a row with that gate's selector vanish exactly when the wires satisfy the gate's documented relation (arithmetic, base-4 sums, constants, public input, buffer, Rescue steps, curve addition and doubling). "
  "A row's own generator fills its wires so that the constraints vanish, no gate's constraints leak into rows of another gate (each selector prefix activates exactly one gate), and at arbitrary points the in-circuit evaluation of all constraints returns the same list of values as the native one.",
  ["inputs", "configurations"], "all gates, all rows in an alphabet, every single-wire perturbation of a satisfying row, all selector prefixes, and arbitrary local/right/below values",
  "Gate tests check degrees only; a missing, weakened or misindexed constraint still accepts honest rows and passes.",
  ["src/gates/mod.rs", "src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/constant.rs", "src/gates/public_input.rs", "src/gates/buffer.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs"],
  [("prefix-filtered sum of gate constraints", "src/gates/mod.rs"), ("native and recursive evaluators", "src/gates/")])
p("C13", "Arithmetic gadgets compute and constrain their field-level function",
  "Every arithmetic and boolean building block of the circuit builder (constants, add, sub, mul, multiply-add/sub, negation, many-operand forms, inverse, division, powers by a constant, canonical square root, zero/equality tests, selection, not, binary splits and assertions) yields, for every input in its domain, a satisfiable circuit whose outputs equal the field-level result, whether operands are constants, equal or variable. "
  "No assignment satisfying the constraints gives any other output for the same inputs, and inputs outside the domain (zero to invert, a non-bit, a non-residue, a value that does not fit) leave the circuit unsatisfiable.",
  ["programs", "inputs"], "every gadget, every combination of operands from an alphabet (including shortcut constants), and every substitution of a generated value by an alternative",
  "Most gadgets have no test, and none is checked for wrong witnesses, which honest generation never produces.",
  ["src/circuit_builder.rs", "src/gates/"], [("arithmetic gates plus witness generators", "src/circuit_builder.rs"), ("constant folding shortcuts", "src/circuit_builder.rs")])
p("C14", "Big-integer and foreign-field gadgets compute exactly and admit no other result",
  "For every operand in range, in-circuit comparison, addition, multiplication, division with remainder and foreign-field addition and multiplication produce the exact integer (or residue) result and a satisfiable circuit, for every number of limbs on either side and every declared bound. "
  "No assignment satisfying the constraints represents a different sum, product, quotient, remainder, ordering or residue for the same operands, and a limb outside its range (86 bits, or the whole base-4 digits which its declared bound leaves for the top limb) leaves the circuit unsatisfiable.",
  ["inputs", "programs"], "all limb counts up to a bound, all operand values at limb and bound boundaries, all substitutions of generated limbs, carries, quotients and orderings",
  "Tests run one operand pair per gadget and never look for a second satisfying assignment.",
  ["src/circuit_bigint.rs", "src/circuit_foreign_field.rs", "src/circuit_ordering.rs"], [("limb sums with range-checked carries", "src/circuit_bigint.rs"), ("remainder < divisor check", "src/circuit_bigint.rs"), ("comparison via ordering targets", "src/circuit_ordering.rs")])
p("C15", "Curve gadgets agree with the native group law and reject invalid points",
  "In-circuit curve addition, doubling, subtraction, negation, scalar multiplication and multi-scalar multiplication return the native result for all operands that are finite, in the stated domain and do not hit the incomplete-addition exceptions, and the resulting circuit is satisfiable. "
  "The validity assertion holds exactly for points on the curve, and no satisfying assignment yields a different point for the same operands.",
  ["inputs", "programs"], "all points and scalars in an alphabet, all list lengths up to a bound, and all substitutions of generated wires",
  "One test uses one point; conditional additions per scalar bit and accumulator offsets depend on bit patterns and lengths.",
  ["src/circuit_curve.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs"], [("conditional add gate per bit, double gate per bit, blinded accumulator", "src/circuit_curve.rs")])
p("C16", "Witness generation is schedule independent and complete",
  "Whatever order the ready generators run in, witness generation ends with the same assignment, every declared input is available when a generator runs, and every routed wire of a class carries the value of its class. "
  "If the given inputs determine the circuit the resulting witness satisfies all gate and copy constraints; conflicting inputs are refused rather than silently overwritten.",
  ["schedules", "inputs"], "all firing orders (up to a deviation bound) of the pending generators for each gadget circuit, and all subsets of initially supplied equivalent inputs",
  "The pending set is iterated in hash order, so a test run sees one arbitrary order; an undeclared dependency fails only under others.",
  ["src/plonk.rs", "src/witness.rs", "src/circuit_builder.rs", "src/gates/"], [("dependency-driven worklist over generators and copies", "src/plonk.rs"), ("conflict check on set", "src/witness.rs")],
  state=[("pending generators", "generators whose dependencies may now be available", "src/plonk.rs")], hook="order in which pending generators run")
p("C17", "Every satisfying witness yields a proof that verifies",
  "For every circuit that can be built, any size, mix of gates and number of public inputs, and every satisfying witness whose public inputs fit in both fields of the curve, with or without blinding and with any admissible list of previous proofs, the prover returns a proof that the verifier accepts for the extracted public inputs and the circuit's verification key. "
  "The reported public inputs are, in order, the values given to the public-input targets, and the result does not depend on the number of worker threads or on cleared or round-tripped key precomputations.",
  ["programs", "inputs", "configurations"], "all small circuits over a gate menu, all public-input counts around row boundaries, all degrees up to a bound, all curve pairs, blinding on or off, 0-2 previous proofs, several thread counts",
  "Existing proof tests use a few fixed circuits, one with public inputs; row layout depends on counts modulo the wire number, and padding on the gate count.",
  ["src/plonk.rs", "src/circuit_builder.rs", "src/verifier.rs", "src/plonk_util.rs", "src/halo.rs", "src/target.rs", "src/witness.rs"],
  [("permutation argument, quotient, public-input quotient, batched opening", "src/plonk.rs"), ("public-input row pairs", "src/circuit_builder.rs")])
p("C18", "The verifier rejects every altered proof, input, key or old proof",
  "Changing any component of an accepted (proof, public inputs, verification key, old proofs) tuple - any opening, commitment, cross term, final point, Schnorr value, public input, key commitment or size, or swapping, dropping, duplicating or adding list entries - makes full verification return an error. "
  "This also holds for lists that a consistent prover made longer or shorter, with every challenge following the altered shape. "
  "Proof data of any shape, with points off the curve or at infinity, with values that do not fit the other field or with challenges that cannot be derived, is answered with an error and never with a panic or acceptance.",
  ["fault_sequences", "inputs"], "every single fault (and selected double faults) at every position of the proof, inputs, old proofs and key, from a menu of value and shape faults",
  "Existing tests tamper with a few fields of one proof; there are hundreds of positions, and a check dropped for one of them accepts forgeries nobody tries.",
  ["src/verifier.rs", "src/plonk_proof.rs", "src/halo.rs", "src/plonk_challenger.rs"], [("shape and parameter checks, Fiat-Shamir binding, quotient identity, batched IPA check, G check", "src/verifier.rs")])
p("C19", "No proof is accepted for an assignment that violates a constraint",
  "A prover that follows the protocol's algebra with an assignment violating any gate constraint, any copy constraint or the claimed public inputs cannot obtain an accepted proof, whichever rows or wires are violated and even if it chooses the violating values after seeing every challenge that the verifier derives without them. "
  "Every prover message is bound into each challenge that is used to check it.",
  ["inputs", "fault_sequences", "programs"], "all single-wire and paired-wire violations per row kind and copy class, and all late-choice strategies per prover message, played by an adversarial prover against the real verifier",
  "Tests run the honest prover only; a transcript that omits or reorders a message still completes for honest proofs.",
  ["src/plonk.rs", "src/verifier.rs", "src/plonk_proof.rs", "src/plonk_challenger.rs"], [("Fiat-Shamir order", "src/plonk_proof.rs"), ("vanishing check at a random point", "src/verifier.rs")])
p("C20", "Deferred verification accumulates without losing soundness or completeness",
  "Verifying without the linear-time check returns exactly the data that the deferred check needs, and a chain of proofs, each absorbing earlier deferred data, is accepted by full verification of the last one exactly when every deferred item is genuine. "
  "A deferred item with a forged point or challenges, dropped, duplicated, replaced or reordered with respect to what the proof absorbed, is rejected when the proof that absorbs it is checked.",
  ["histories", "fault_sequences"], "all accumulation histories (which earlier items each proof absorbs, deferred or full check) up to a depth, with every single fault on a deferred item",
  "One test chains a fixed pattern of two proofs and never forges an item.",
  ["src/plonk.rs", "src/verifier.rs", "src/plonk_proof.rs", "src/halo.rs", "src/plonk_util.rs"], [("halo_g accumulation via opened old G polynomials", "src/verifier.rs")],
  state=[("deferred item", "halo_g point and its round challenges", "src/plonk_proof.rs")])
p("C21", "Polynomial commitments and the batched opening argument are exact",
  "A commitment equals the stated linear combination of the generators and blinding point, is additive in coefficients and randomness, and is the same in affine, projective and batch-normalised form. "
  "For all polynomials, opening points and degrees the honest batched opening verifies for the combined commitment and value, and changing the value, commitment, any round point, any round challenge, the final point or the Schnorr response makes it fail. "
  "The round-challenge vector and its fast evaluation satisfy the product formula, and the scalar used by endomorphism-based multiplication equals the one used in the field.",
  ["inputs", "fault_sequences"], "all small polynomial batches, degrees 1 to a bound, all single faults, all short bit strings for the endomorphism scalar",
  "Covered only indirectly by whole-proof tests with one degree and dense polynomials.",
  ["src/halo.rs", "src/poly_commit.rs", "src/plonk_util.rs", "src/polynomial.rs"], [("Bulletproof-style folding with endomorphism challenges", "src/halo.rs"), ("Pedersen vector commitment", "src/poly_commit.rs")])
p("C22", "Hash-to-curve is deterministic, valid and collision free on used indices",
  "For every index or field element, both hash-to-curve functions return a finite point on the curve that depends only on the curve, the input and (for the Rescue variant) the security level. "
  "The points for all indices that a circuit of any supported size uses, together with their negatives, are pairwise distinct, and the integer and field-element entry points agree.",
  ["inputs", "histories"], "all indices up to a bound, boundary field elements, repeated and interleaved calls, all four Halo curves",
  "Tests hash three seeds; a collision or invalid point needs a particular index, and retry logic runs on about half of them.",
  ["src/hash_to_curve.rs"], [("try-and-increment with sign bit", "src/hash_to_curve.rs")])
p("C23", "The lookup argument accepts exactly subsets of the table",
  "For every non-empty table of distinct entries and every list of looked-up values all contained in it, in any order, with repetitions and of any length relative to the table, the lookup prover returns a proof that the lookup verifier accepts for that table. "
  "No proof is accepted when some looked-up value is not in the table, for a different table, or after any component of the proof was changed, whether by the honest routine or by a prover that follows the algebra with inconsistent values.",
  ["inputs", "fault_sequences"], "all pairs of small tables and lists over an alphabet including zero, all lengths around powers of two, all single faults on proofs, adversarial grand products",
  "Tests use random tables with 15 lookups; the padding, the value zero and table sizes at powers of two are never hit, and nothing tampers with a proof.",
  ["plookup/src/plookup.rs", "plookup/src/verifier.rs", "plookup/src/proof.rs", "plookup/src/openings.rs"], [("sorted multiset, grand product, quotient, IPA", "plookup/src/plookup.rs")])
p("C24", "Lookup tables enumerate their function and compress rows faithfully",
  "A table built from a function contains, for each domain entry or each tuple of the Cartesian product, the arguments followed by the function value, in domain order. "
  "Compressing rows to single elements uses one challenge derived from the whole table, identical rows compress equally and distinct rows differently, and row-wise and column-wise proving of the same lookups verify for that table while lookups containing a foreign row do not yield an accepted proof.",
  ["inputs"], "all small widths, domains and row sets, every single-cell change of a looked-up row",
  "Tests build a few arithmetic tables and prove honest rows only.",
  ["plookup/src/table.rs"], [("challenge-weighted row folding", "plookup/src/table.rs")])
p("C25", "Witness values are read back exactly as they were written",
  "A partial witness is a map from targets to values: after any sequence of writes, single, in bulk, typed (points, orderings, big integers, foreign field elements) or by merging another witness, each target reads as exactly the value written to it and every other target as absent. "
  "Typed reads return the value the typed write was given, big integers are split into limbs that denote them, and values that do not fit their target are refused. "
  "Writing a different value to a target that has one is refused, and a full witness built from a partial one reads the same at every wire, in rows and in columns.",
  ["histories", "inputs"], "all sequences of writes over overlapping targets to a depth, followed by every read",
  "Tests write each target once and only use it through whole circuits.",
  ["src/witness.rs", "src/target.rs"], [("map insertion with conflict check", "src/witness.rs"), ("typed setters and getters", "src/witness.rs")],
  state=[("wire_values", "values by target", "src/witness.rs")])
p("C26", "The prover's randomness is sound, and fresh wherever it must hide something",
  "In every built circuit each witness column has at least three cells that no constraint touches and that every generated witness fills with new random values, so that openings at the three points outside of the subgroup are masked. "
  "In every proof made with hidden commitments each commitment to a wire, to the grand product, to a part of the quotient and to the public-input quotient carries its own randomness, as does every cross term of the opening argument and both parts of the final Schnorr nonce; none of it is zero, shared within a proof or repeated in another proof of the same witness. "
  "Drawing a field element from a random source gives a reduced element, depends on the source alone and on at least as many of its bits as the order has, and a candidate at or above the order is drawn again rather than folded onto a small residue.",
  ["inputs", "programs"], "every circuit shape, every proof, every output of the random source",
  "Missing or shared randomness leaves all proofs valid, and a biased or unreduced draw shows once in 2^126 draws.",
  ["src/circuit_builder.rs", "src/poly_commit.rs", "src/halo.rs", "src/bigint/bigint_arithmetic.rs"],
  [("blinding gates", "src/circuit_builder.rs"), ("commitment randomness", "src/poly_commit.rs"), ("randomised cross terms and Schnorr nonce", "src/halo.rs"), ("rejection sampling", "src/bigint/bigint_arithmetic.rs")],
  observe=["generated witnesses", "proof elements", "rand_from_rng with a scripted source"])
p("N01", "The recursive verifier circuit accepts exactly what the native verifier accepts",
  "The circuit that verifies a proof of another circuit is satisfiable for exactly those proofs that the native verifier accepts (up to the deferred check).",
  ["inputs", "programs"], "all proofs and circuits", "Its tests are ignored upstream: building it takes many minutes and the code is unfinished.",
  ["src/plonk_recursion.rs"], [("in-circuit transcript and quotient check", "src/plonk_recursion.rs")])
p("N02", "Proofs reveal nothing beyond the public inputs",
  "The distribution of proofs for a fixed statement does not depend on which satisfying witness was used.",
  ["inputs"], "all pairs of witnesses for one statement and the distribution of all random choices", "A distributional statement over 255-bit randomness.",
  ["src/plonk.rs", "src/circuit_builder.rs"], [("blinding rows and commitment randomness", "src/circuit_builder.rs")])
p("N03", "No efficient adversary can forge proofs or break binding",
  "Producing an accepted proof of a false statement, two openings of one commitment or a transcript collision is computationally infeasible.",
  ["inputs"], "all efficient adversaries", "A reduction-based cryptographic claim.",
  ["src/halo.rs", "src/plonk_challenger.rs"], [("discrete logarithm assumption, random oracle heuristic", "src/halo.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
