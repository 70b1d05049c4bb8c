#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Field arithmetic equals integer arithmetic modulo the field's prime",
  "For every pair of elements of each of the six fields, addition, subtraction, multiplication, division, negation, squaring, small multiples, inversion (single and batch), exponentiation, k-th roots, square roots, quadratic-residue tests and inner products give exactly the result of the same operation on integers modulo the published prime, always fully reduced. Zero has no inverse, a non-residue has no square root, and roots of unity have exactly their stated order.",
  ["inputs"], "all operands in [0,p) of the Tweedledee, Tweedledum, Pallas, Vesta, BLS12-377 base and scalar fields",
  "Unit tests rotate a fixed list of small/large words; carries, reductions and inversions can be wrong on value patterns outside that list.",
  ["src/field/field.rs", "src/field/monty.rs", "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs", "src/field/bls12_377_base.rs", "src/field/bls12_377_scalar.rs", "src/bigint/bigint_arithmetic.rs", "src/bigint/bigint_inverse.rs"],
  [("Montgomery arithmetic", "src/field/monty.rs"), ("binary inversion", "src/bigint/bigint_inverse.rs"), ("generic roots, powers, batch inversion", "src/field/field.rs")],
  ["return values of every field operator and method"])
p("C02", "Field encodings are canonical, ordered and range-checked",
  "Converting any field element to limbs, bytes, bits or a big integer and back is the identity and yields its unique representative below the prime; ordering and bit length agree with that integer. Decoding a byte string that does not encode an integer below the prime, and converting an element into a field where it does not fit, is refused, never silently reduced; random sampling only produces reduced elements.",
  ["inputs"], "all elements and all limb/byte strings near and beyond the modulus, for each ordered pair of fields",
  "Existing tests check a few conversions and never the neighbourhood of the modulus for each field.",
  ["src/field/field.rs", "src/conversions.rs", "src/field/*.rs"],
  [("canonical conversions", "src/field/field.rs"), ("big-integer conversions", "src/conversions.rs"), ("validity checks", "src/field/*_base.rs")],
  ["encoded limbs/bytes/bits, comparison results, Ok/Err of decoding"])
p("C03", "Curve addition, doubling and comparison follow the group law",
  "On each of the five curves every way of adding, doubling, negating, comparing or converting points (any mix of affine and projective coordinates, single or batched, any projective scaling) gives the point that the textbook chord-and-tangent law gives, including for the point at infinity, equal points, opposite points and points of order two. Results always satisfy the curve equation.",
  ["inputs"], "all pairs of points incl. identity, P=Q, P=-Q, 2-torsion, arbitrary projective representatives; five curves",
  "Tests add a few generator multiples; exceptional cases in each coordinate mix are not covered.",
  ["src/curve/curve.rs", "src/curve/curve_adds.rs", "src/curve/*_curve.rs"],
  [("complete case analysis for each coordinate mix", "src/curve/curve_adds.rs"), ("doubling, normalisation, equality", "src/curve/curve.rs")],
  ["coordinates returned by the point operators"])
p("C04", "Scalar multiplication, multi-scalar products and sums match the group",
  "Scalar multiplication, multiplication with precomputed tables, multi-scalar multiplication (sequential, parallel, any window size, any number of terms) and multi-point summation (pairwise, batched, multi-set, any strategy threshold) equal the repeated group operation on every input, including zero and maximal scalars, repeated and opposite points and the identity. Endomorphism-based multiplication by a bit string equals multiplication by the scalar that the matching scalar-side function returns for the same bits.",
  ["inputs", "configurations"], "scalars over the full field range, point multisets with cancellations/duplicates/identities, window sizes, lengths 0..several hundred",
  "Tests use one or two lengths with generic points, where exceptional additions inside the algorithms never happen.",
  ["src/curve/curve_multiplication.rs", "src/curve/curve_msm.rs", "src/curve/curve_summations.rs", "src/plonk_util.rs"],
  [("windowed multiplication", "src/curve/curve_multiplication.rs"), ("Yao MSM with precomputation", "src/curve/curve_msm.rs"), ("affine batch summation", "src/curve/curve_summations.rs"), ("endomorphism scalar map", "src/plonk_util.rs halo_n/halo_n_mul")],
  ["resulting points"])
p("C05", "Fast Fourier transforms evaluate and interpolate exactly",
  "For every power-of-two size the field supports here, the transform of a coefficient vector is the vector of its values at the successive powers of the principal root of unity, the inverse transform recovers the unique coefficients, shorter inputs behave as zero-padded, and low-degree extension and coset/domain helpers agree with direct evaluation.",
  ["inputs", "configurations"], "sizes 1..2^k, arbitrary coefficient vectors, every field with enough 2-adicity, precomputed or not",
  "Tests use one size and compare only a round trip or one naive evaluation.",
  ["src/fft.rs", "src/polynomial.rs", "src/plonk_util.rs"],
  [("radix-2 FFT with precomputed roots", "src/fft.rs")],
  ["coefficient and value vectors"])
p("C06", "Polynomial operations form a ring with exact division",
  "Adding, subtracting, negating, multiplying and evaluating polynomials over any field agree with schoolbook arithmetic whatever the lengths, zero paddings and sparsity of the operands. Every division routine (long, fast, and by the vanishing polynomial of a subgroup) returns exactly the quotient and remainder that the Euclidean division defines, with the remainder of lower degree than the divisor.",
  ["inputs"], "polynomials with leading/trailing zeros, sparse, constant, zero; divisors of any degree",
  "Tests divide random dense polynomials, for which special zero patterns have negligible probability.",
  ["src/polynomial.rs"],
  [("division via reversal and Newton inversion", "src/polynomial.rs")],
  ["returned coefficient vectors and degrees"])
p("C07", "Serialized values round-trip and malformed bytes are refused",
  "Every field element, curve point, polynomial-free proof component, proof and verification key written out and read back is equal to the original and consumes exactly the bytes written, so concatenated values stay aligned; the encoding of a value is unique. Truncated, out-of-range, off-curve or otherwise non-canonical bytes are refused with an error and never crash the reader or yield an invalid value.",
  ["inputs"], "all values incl. identity points and both y parities; all byte strings (mutations, truncations, random)",
  "Tests round-trip a few random values in isolation, never the identity in a stream nor hostile bytes.",
  ["src/serialization.rs", "src/plonk_proof.rs", "src/verifier.rs", "src/curve/curve.rs"],
  [("compressed points with mask byte", "src/serialization.rs"), ("serde derives", "src/plonk_proof.rs, src/verifier.rs")],
  ["bytes written/consumed, Ok/Err, decoded values"])
p("C08", "Hash-to-curve yields deterministic, valid, unrelated curve points",
  "Hashing any seed to a curve always terminates with a non-identity point that satisfies the curve equation, depends only on the seed (same on every call, thread and run) and follows the published try-and-increment construction on the hash of the seed. Different seeds give different points, so commitment bases never coincide or cancel.",
  ["inputs", "schedules"], "all usize/field seeds; concurrent callers",
  "Tests call it a handful of times and only check validity.",
  ["src/hash_to_curve.rs"],
  [("BLAKE3 expansion + try-and-increment + parity bit", "src/hash_to_curve.rs")],
  ["returned points"])
p("C09", "The Rescue permutation and sponge compute the specified hash",
  "For every state and message the hash permutation equals the reference definition (alternating inverse-power and power S-boxes, MDS mixing and round-constant addition), is a bijection, and uses an MDS matrix all of whose square sub-matrices are invertible. The sponge and its fixed-arity wrappers absorb every input element in order and squeeze as specified, and the number of rounds grows with the requested security level. The pseudorandom generator emits the iterated function of its seed, whatever mix of elements, words and bits is requested.",
  ["inputs", "configurations"], "all states, message lengths 0..n, output counts, security levels, all scalar/base fields used",
  "Only one fixed comparison exists between code paths; there is no independent reference.",
  ["src/rescue.rs", "src/mds.rs", "src/pseudorandom.rs", "src/field/field.rs"],
  [("rescue permutation and constants", "src/rescue.rs"), ("MDS matrix", "src/mds.rs")],
  ["permutation outputs, sponge outputs, round constants"])
p("C10", "Transcript challenges bind every observed message and are all distinct",
  "The Fiat-Shamir transcript behaves as a duplex sponge: each challenge is a deterministic function of exactly the messages observed so far and the challenges already drawn, consecutive challenges drawn without new messages are different outputs (squeezing anew when the rate is exhausted), and changing or reordering observed elements, or inserting or dropping a non-zero one, changes every later challenge and no earlier one. In proofs, every commitment, public input, earlier-proof point and opening is observed before any challenge that must depend on it.",
  ["histories", "inputs"], "all interleavings of observe/draw operations; every field of a proof and statement",
  "The only test compares two implementations that share the same logic, on one history.",
  ["src/plonk_challenger.rs", "src/plonk_proof.rs", "src/plonk.rs", "src/verifier.rs"],
  [("duplex sponge with input/output buffers", "src/plonk_challenger.rs"), ("order of observations", "src/plonk_proof.rs get_challenges, src/plonk.rs generate_proof")],
  ["sequence of drawn challenges; challenges derived from a proof"],
  state=[("sponge/input/output buffers", "pending observations and unread outputs", "src/plonk_challenger.rs")])
p("C11", "Every satisfied circuit yields a proof that the verifier accepts",
  "For every circuit built through the public builder and every assignment that satisfies it, witness generation completes the assignment, proving succeeds, and verification with the circuit's key and the witness's public inputs accepts, with or without blinding, with or without the final generator check, and with earlier deferred proofs attached. The reported public inputs are the values that were assigned.",
  ["programs", "inputs", "configurations"], "random circuits over all gate kinds, sizes, public-input counts, both curve cycles, blinding on/off, supported security levels",
  "Tests prove about a dozen fixed circuits.",
  ["src/plonk.rs", "src/verifier.rs", "src/circuit_builder.rs", "src/halo.rs", "src/witness.rs"],
  [("prover", "src/plonk.rs"), ("verifier", "src/verifier.rs"), ("builder", "src/circuit_builder.rs")],
  ["Ok/Err of proving and verifying; public inputs"])
p("C12", "Altered or malformed proofs, statements and keys are refused with an error",
  "Changing any component of an accepted proof, its public inputs (value, count or order), its list of earlier proofs or the verification key makes verification fail. A proof of the wrong shape (missing, extra, swapped, off-curve, identity or out-of-range parts) is refused with an error and never crashes the verifier.",
  ["inputs", "fault_sequences"], "every field and element of a proof/statement/key, value mutations, length mutations, splices between proofs",
  "No existing test verifies a proof that should be rejected.",
  ["src/verifier.rs", "src/plonk_proof.rs", "src/halo.rs"],
  [("parameter checks", "src/verifier.rs check_proof_parameters"), ("constraint, public-input and opening checks", "src/verifier.rs")],
  ["Ok/Err/panic of verification"])
p("C13", "No proof of a false statement is accepted, however the prover cheats",
  "A prover that follows the protocol except for one dishonest step (a witness violating a gate constraint or copy constraint, a wrong public input, a forged quotient, permutation product, opening, inner-product round, final generator or Schnorr response, or challenges it can predict) is never able to make verification succeed.",
  ["inputs", "fault_sequences"], "an adversarial prover written from public primitives; each verifier equation attacked alone; random circuits and violations",
  "Tests only run the honest prover, whose own assertions hide whether the verifier checks anything.",
  ["src/verifier.rs", "src/plonk_proof.rs", "src/plonk_challenger.rs", "src/halo.rs", "src/gates/mod.rs"],
  [("verifier equations", "src/verifier.rs"), ("Fiat-Shamir order", "src/plonk_proof.rs"), ("inner-product argument check", "src/halo.rs verify_ipa")],
  ["verdict of verification on forged proofs"])
p("C14", "Arithmetic, logic and hash gadgets compute and enforce their function",
  "For every input in a gadget's documented domain, the circuit gadgets for constants, field arithmetic, powers, inverses, square roots, zero/equality tests, selection, binary/base-4 checks, range checks, conditional copies and hashing produce exactly the native result, and the generated assignment satisfies every gate and copy constraint. An assignment in which a gadget's output or asserted condition is false violates some constraint.",
  ["programs", "inputs"], "random gadget DAGs and inputs incl. 0, 1, -1, boundary values; corrupted assignments",
  "Tests evaluate a few gadgets on single inputs and never try a false assignment.",
  ["src/circuit_builder.rs", "src/witness.rs", "src/gates/*.rs"],
  [("gadgets", "src/circuit_builder.rs")],
  ["generated assignments; constraint values"])
p("C15", "Big-integer, foreign-field and comparison gadgets are exact and binding",
  "The in-circuit big-integer operations (sum, product, division with remainder, comparison, decomposition of an element), the arithmetic of a different field, and the ordering gadgets return exactly what integer arithmetic gives for every operand within the declared bounds, including zero and maximal limbs. An assignment with a wrong quotient, remainder, limb, bound or comparison result violates some constraint.",
  ["programs", "inputs"], "operands over 0..several limbs, boundary limbs, all comparison outcomes; corrupted results",
  "Tests use one or two multi-limb operands per operation and no false assignment.",
  ["src/circuit_bigint.rs", "src/circuit_foreign_field.rs", "src/circuit_ordering.rs", "src/circuit_builder.rs"],
  [("limb arithmetic with bound tracking", "src/circuit_bigint.rs"), ("modular reduction witness", "src/circuit_foreign_field.rs"), ("comparison", "src/circuit_ordering.rs")],
  ["generated assignments; constraint values"])
p("C16", "In-circuit curve gadgets compute the native group operation",
  "For every pair of points and scalar in their documented domain, the in-circuit addition, doubling, negation, subtraction, scalar multiplication, inverse multiplication and multi-scalar multiplication over the embedded curve produce the native result, with every gate and copy constraint satisfied, whatever the order in which their inputs become known. A wrong result or a point off the curve violates some constraint.",
  ["programs", "inputs", "schedules"], "random points/scalars, scalars computed by other gates, one or several terms; corrupted results",
  "Tests cover a fixed scalar supplied up front and only the accepting side.",
  ["src/circuit_curve.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs"],
  [("double-and-add layout", "src/circuit_curve.rs"), ("curve gates", "src/gates/curve_*.rs")],
  ["generated assignments; constraint values"])
p("C17", "Gate constraints hold exactly for the relation each gate stands for",
  "For each gate kind, an assignment of its own, next and below rows satisfies its constraints if and only if it satisfies the documented relation; a row constrained as one gate kind is not constrained by another. The polynomial form used by the prover, and the in-circuit form used for recursion, evaluate to the same values on arbitrary field inputs, and the degree of each filtered constraint stays within the quotient's capacity.",
  ["inputs", "programs"], "every gate kind, satisfying rows, single-wire corruptions, arbitrary field values on all wires and constants",
  "Tests check the degree and the honest generator of some gates, not that wrong rows are rejected or both evaluators agree.",
  ["src/gates/mod.rs", "src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/constant.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs", "src/gates/public_input.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs", "src/gates/buffer.rs"],
  [("prefix filters and constraint lists", "src/gates/mod.rs"), ("per-gate constraints", "src/gates/*.rs")],
  ["constraint vectors, native and recursive"])
p("C18", "Copy constraints join exactly the wires the builder declared equal",
  "In every built circuit the routing permutation's cycles are exactly the classes of the transitive closure of the declared copies (public inputs at their routable wires), wires in different classes are never joined, and the identity and permutation labels of all routed wires are pairwise distinct field elements. Witness generation gives every member of a class the same value and refuses conflicting values, and the permutation product closes if and only if all classes are internally equal.",
  ["programs", "inputs"], "random copy graphs: chains, cycles, duplicates, merges of large classes, public inputs, constants, virtual targets",
  "Tests check tiny hand-built permutations.",
  ["src/partition.rs", "src/circuit_builder.rs", "src/plonk_util.rs", "src/plonk.rs", "src/target.rs", "src/witness.rs"],
  [("union of target classes", "src/partition.rs"), ("permutation polynomial", "src/plonk_util.rs")],
  ["sigma values, generated assignments, permutation product values"])
p("C19", "Commitments are homomorphic, binding to content, and openings are exact",
  "A commitment to coefficients equals the multi-scalar product with the fixed bases plus the blinding term, is additive, and depends on every coefficient. A batched opening proof made for any set of polynomials, points and challenges is accepted for the true reduced value, and refused when the value, a commitment, a round message, the final generator, or a challenge differs.",
  ["inputs", "configurations"], "degrees 2^1..2^k, any number of polynomials/points, zero polynomials, blinded and unblinded, both halves of the curve cycle",
  "Only exercised indirectly through honest end-to-end proofs.",
  ["src/poly_commit.rs", "src/halo.rs", "src/plonk_util.rs"],
  [("Pedersen commitments", "src/poly_commit.rs"), ("inner-product argument", "src/halo.rs"), ("s-vector and g-polynomial", "src/plonk_util.rs halo_s/halo_g")],
  ["commitment points, acceptance of openings"])
p("C20", "Deferred proofs accumulate: a bad earlier generator is eventually refused",
  "Verification that defers the linear-time generator check returns exactly the generator point and round challenges of that proof; the polynomial they define evaluates as advertised and commits to that point iff the proof was honest. A later proof that absorbs any number of deferred proofs is accepted only if each claimed generator really commits to its polynomial, and wrong, missing, reordered or foreign deferred proofs are refused.",
  ["histories", "inputs"], "chains and batches of proofs with honest and forged deferred generators at any position",
  "One test absorbs ten honest identical proofs; no forged one.",
  ["src/verifier.rs", "src/plonk.rs", "src/plonk_proof.rs", "src/plonk_util.rs"],
  [("deferred check data", "src/plonk_proof.rs OldProof"), ("old-proof openings", "src/verifier.rs verify_old_proof_evaluation")],
  ["returned deferred data, verdicts along histories"])
p("C21", "Lookup proofs are accepted exactly when every value is in the table",
  "For every table and every list of queried values, a lookup proof can be produced and is accepted whenever each value occurs in the table, whatever the lengths, repetitions and order. When some value is missing from the table no proof is accepted, and altering any part of an accepted proof, or presenting it for another table, is refused without crashing.",
  ["inputs", "fault_sequences"], "table and query lengths incl. powers of two, duplicates, zero present/absent, adversarial grand products, mutated proofs",
  "Tests use one table size of distinct values and only honest proofs.",
  ["plookup/src/plookup.rs", "plookup/src/verifier.rs", "plookup/src/proof.rs", "plookup/src/openings.rs", "plookup/src/table.rs"],
  [("sorted-union grand product", "plookup/src/plookup.rs"), ("quotient and opening checks", "plookup/src/verifier.rs")],
  ["Ok/Err/panic of prove and verify"])
p("C22", "Blinded proofs hide the witness; unblinded commitments are deterministic",
  "When blinding is requested, two proofs of the same witness share no commitment, round message or response, and the blinding rows of every witness are fresh uniform values that mask every value opened outside the subgroup: wires, permutation polynomial and quotient chunks. Whoever guesses the inputs cannot confirm the guess from the openings. When blinding is off, commitments to the same polynomials are identical on every run, and circuit keys are always identical for identically built circuits.",
  ["histories", "configurations"], "repeated proving of one witness, repeated witness generation, repeated building; both modes",
  "No test compares two proofs.",
  ["src/poly_commit.rs", "src/circuit_builder.rs", "src/halo.rs", "src/plonk.rs"],
  [("blinding factors", "src/poly_commit.rs, src/halo.rs"), ("blinding rows", "src/circuit_builder.rs add_blinding_gates")],
  ["collected proof components across repeated executions"])
p("C23", "Results do not depend on threads, pool size or concurrent first use",
  "Building keys, committing, transforming, multi-scalar multiplication, hashing, witness generation and verification give identical results for every size of the worker pool and every interleaving of concurrent callers, including concurrent first use of shared tables. No data race, deadlock or crash occurs.",
  ["schedules"], "1..16 worker threads, concurrent callers with randomised delays, repeated runs; thread sanitizer build where it applies",
  "Tests run each function once from one thread in the default pool.",
  ["src/curve/curve_msm.rs", "src/curve/curve_summations.rs", "src/plonk.rs", "src/plonk_util.rs", "src/halo.rs", "src/rescue.rs", "src/mds.rs", "src/fft.rs"],
  [("rayon parallel iterators", "src/plonk.rs, src/plonk_util.rs, src/curve/*.rs"), ("shared caches", "src/mds.rs, src/rescue.rs")],
  ["results compared across pools and callers; sanitizer reports"])
p("C24", "Verifying a proof inside a circuit accepts exactly what native checking does",
  "The recursive verification circuit, given a proof, has a satisfying assignment if and only if native verification of that proof accepts.",
  ["inputs", "programs"], "all proofs, honest and altered", "The repository's own recursion test is ignored and fails.",
  ["src/plonk_recursion.rs"], [("in-circuit verifier", "src/plonk_recursion.rs")], ["satisfiability of the recursion circuit"])

p("C25", "In-circuit verifier components compute what native verification does",
  "The in-circuit transcript yields, for every history of observations and requests, the challenges of the native transcript, and the in-circuit powers, weighted sums, composite evaluations and Halo g equal their native values. The in-circuit checks of the quotient identity, of an old proof's evaluation and of the final opening equation are satisfiable exactly when the native check holds, and the recursive circuit exposes exactly the transcript's challenges and the proof's openings. Populating proof targets assigns every element of the proof to its own target and refuses values that do not fit.",
  ["inputs", "histories", "programs"], "histories of observations; openings, challenges, degrees and numbers of old proofs; honest and altered values; both curve cycles",
  "The one recursion test is ignored; these components are otherwise only type-checked, and a missing or misdirected constraint shows only under a cheating prover.",
  ["src/plonk_recursion.rs", "src/plonk_challenger.rs", "src/plonk_util.rs", "src/plonk_proof.rs"],
  [("in-circuit transcript", "src/plonk_challenger.rs RecursiveChallenger"), ("in-circuit checks", "src/plonk_recursion.rs verify_assumptions, verify_old_proof_evaluation, verify_schnorr"), ("in-circuit powers and sums", "src/plonk_util.rs *_recursive"), ("proof targets", "src/plonk_proof.rs *Target::populate_witness")],
  ["satisfiability of the circuits built from each component, targets' values"], "private functions, exposed by a module compiled with cfg(plonky_hooks)")

p("C26", "Witness generation is complete, consistent and keeps every given value",
  "For every circuit and every set of given inputs, in any order or grouping, witness generation keeps each given value, gives copy-connected targets equal values, runs each value generator exactly once and only when all its declared dependencies are known, assigns everything that follows from the inputs and nothing else, and leaves other wires zero; generation from part of the inputs can be resumed with the rest. Typed accessors (bigints, foreign fields, points, orderings, public inputs) return what was stored, and contradictory values are refused in checked builds.",
  ["inputs", "configurations", "histories"], "dependency graphs of generators, copy classes, orders and groupings of inputs, missing inputs, numbers of public inputs; typed values; all curves",
  "Tests run a few fixed circuits with all inputs given and look at single outputs; scheduling follows hash order, so it varies from run to run.",
  ["src/witness.rs", "src/plonk.rs", "src/target.rs", "src/partition.rs"],
  [("sparse assignment", "src/witness.rs PartialWitness"), ("scheduling of generators and copies", "src/plonk.rs generate_partial_witness, generate_copies"), ("dense assignment", "src/witness.rs Witness::from_partial"), ("public input wires", "src/witness.rs replace_public_inputs, copy_buffer_to_pi_gate; src/target.rs")],
  ["runs of instrumented generators, every target's value, rows, public inputs"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), [ (x["id"], len(x["title"])) for x in P])
