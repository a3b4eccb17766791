#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Prime field arithmetic is exact modular arithmetic",
  "Every field the library offers (the BN254 base and scalar fields, and any field built from the 256- and 384-bit limb layer) computes addition, subtraction, negation, doubling, multiplication, squaring and exponentiation exactly modulo its prime, for all operands including 0, 1, p-1 and values whose internal limbs are all zeros or ones. By-value, by-reference, assigning and trait-level forms of one operation give the same result, equal values compare equal (results are always fully reduced), and the neutral elements behave as neutral.",
  ["inputs", "histories"], "all pairs of operands and all sequences of operations on a set of field values",
  "Tests draw a few random operands; carries at limb boundaries, final subtraction and the less used operator forms are hit with probability near zero.",
  ["zkstd/src/arithmetic/limbs/bits_256/normal.rs", "zkstd/src/arithmetic/limbs/bits_384/normal.rs", "zkstd/src/macros/field.rs", "zkstd/src/macros/field/group.rs", "zkstd/src/macros/field/ring.rs", "bn254/src/fr.rs", "bn254/src/fq.rs"],
  [("Montgomery limb add/sub/mul/square/reduce", "zkstd/src/arithmetic/limbs"), ("operator macros", "zkstd/src/macros/field")],
  ["public operators and trait methods of Fr and Fq", "zkstd::arithmetic::bits_256 / bits_384 functions"])
p("C02", "Field inversion and square roots are correct partial functions",
  "Inversion returns the unique multiplicative inverse of every non-zero element and reports none for zero, through every interface that offers it. Square root returns a value whose square is the operand exactly when one exists, including for zero, and reports none otherwise, in both prime fields and in the quadratic extension.",
  ["inputs"], "every field element of Fr, Fq and Fq2",
  "The tests take roots of squares of random elements and never ask for zero, non-residues, or pure-imaginary extension elements.",
  ["bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/fqn.rs", "bn254/src/ff_compat.rs", "zkstd/src/arithmetic/limbs/bits_256/normal.rs"],
  [("Fermat inversion", "zkstd/src/arithmetic/limbs/bits_256/normal.rs"), ("Tonelli-Shanks / exponent square roots", "bn254/src/{fr,fq,fqn}.rs")],
  ["invert, sqrt, ff::Field::invert, ff::Field::sqrt, Div"])
p("C03", "Field values have one canonical external representation",
  "Converting a field value to bytes, raw limbs, bits, signed digits or its hexadecimal form and back yields the same value; the bit and signed-digit strings denote exactly the represented integer; all forms of comparison agree with one total order that is consistent with equality. Parsing canonical bytes accepts exactly the integers below the prime, and reducing a wide (512-bit) input yields that integer modulo the prime.",
  ["inputs"], "all field values, and all 32- and 64-byte strings",
  "Tests round-trip a few random values; no test feeds an encoding at or above the modulus or checks digit strings against the integer they denote.",
  ["zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/macros/field.rs", "bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/ff_compat.rs"],
  [("limb serialisation, Montgomery reduction, NAF", "zkstd/src/arithmetic/limbs/bits_256/represent.rs"), ("canonical check", "bn254/src/fr.rs")],
  ["from_bytes, to_bytes, to_raw_bytes, to_bits, to_nafs, from_bytes_wide/from_hash, Ord, Debug, ff::PrimeField::{from_repr,to_repr}"])
p("C04", "Extension tower arithmetic is exact in Fq2, Fq6 and Fq12",
  "Each extension field is arithmetic of polynomials modulo its defining relation: add, sub, mul, square, inverse, conjugation, multiplication by the non-residue, sparse multiplication and Frobenius maps agree with the definition for all operands. By-value, by-reference and assigning forms of one operation agree.",
  ["inputs", "histories"], "all operands and operation sequences in Fq2, Fq6, Fq12",
  "Tests check a few identities on random values through one operator form.",
  ["bn254/src/fqn.rs", "bn254/src/params.rs", "zkstd/src/macros/extension_field.rs", "zkstd/src/macros/extension_field/group.rs", "zkstd/src/macros/extension_field/ring.rs"],
  [("tower multiplication, squaring, inversion, Frobenius coefficients", "bn254/src/fqn.rs"), ("operator macros", "zkstd/src/macros/extension_field")],
  ["operators of Fq2, Fq6, Fq12 and Gt"])
p("C05", "Curve points form the intended abelian group",
  "On each curve (BN254 G1, G2, Grumpkin, and any curve instantiated from the Weierstrass or twisted Edwards layers) addition, subtraction, negation and doubling follow the elliptic-curve group law for every pair of points, including the identity, equal points and opposite points, in every affine/projective mix and every by-value, by-reference and assigning form. Conversions between affine and projective forms preserve the point, equality is equality of points, and every result lies on the curve.",
  ["inputs", "histories"], "all pairs of group elements in all representations, and all sequences of group operations",
  "Tests use random points, for which the identity, equal and opposite cases never arise, and exercise a fraction of the operator forms.",
  ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/arithmetic/points/edwards.rs", "zkstd/src/macros/curve.rs", "zkstd/src/macros/curve/weierstrass.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
  [("complete and mixed addition formulas", "zkstd/src/arithmetic/points"), ("operator macros", "zkstd/src/macros/curve.rs")],
  ["operators on G1Affine/G1Projective, G2Affine/G2Projective, grumpkin::Affine/Projective"])
p("C06", "Scalar multiplication is the group homomorphism",
  "For every point P and scalars a, b: a*P is P added to itself a times, (a+b)P = aP + bP, (ab)P = a(bP), 0*P and r*P are the identity, and every spelling (scalar times point, point times scalar, affine or projective, assigning) agrees.",
  ["inputs"], "all points and scalars of G1, G2 and Grumpkin",
  "Tests multiply random points by a few random scalars and compare two library paths with each other.",
  ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/macros/curve/weierstrass/operation.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
  [("double-and-add over signed digits", "zkstd/src/arithmetic/points/weierstrass.rs"), ("to_nafs/to_bits", "zkstd/src/arithmetic/limbs/bits_256/represent.rs")],
  ["Mul of points and scalars"])
p("C07", "Curve and subgroup membership tests are exact",
  "A point reports being on the curve exactly when its coordinates satisfy the curve equation (or it is the identity), and reports being in the prime-order subgroup exactly when multiplying it by the group order gives the identity. Generators and random points are members.",
  ["inputs"], "all coordinate pairs, including off-curve pairs and points of the G2 curve outside the subgroup",
  "Tests ask only about points that are members.",
  ["bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs", "zkstd/src/macros/curve/weierstrass.rs", "bn254/src/params.rs"],
  [("is_on_curve", "zkstd/src/macros/curve/weierstrass.rs"), ("is_torsion_free via endomorphisms", "bn254/src/g1.rs, bn254/src/g2.rs")],
  ["is_on_curve, is_torsion_free, random, ADDITIVE_GENERATOR"])
p("C08", "The pairing is bilinear and non-degenerate",
  "e(aP, bQ) = e(P, Q)^(ab) for all scalars a, b; e of the generators is not one and has order exactly r; e with an identity argument is one. The product form over any list of pairs, including lists with identities and an empty list, equals the product of the individual pairings.",
  ["inputs"], "all scalars a, b and all lists of pairs of group elements",
  "The one pairing test compares a pair of precomputed products; a degenerate or mis-scaled map, or a product form wrong for some list shapes, passes.",
  ["bn254/src/pairing.rs", "bn254/src/g2.rs", "bn254/src/gt.rs", "bn254/src/fqn.rs", "bn254/src/params.rs"],
  [("Miller loop over prepared G2 coefficients", "bn254/src/pairing.rs, bn254/src/g2.rs"), ("final exponentiation", "bn254/src/fqn.rs, bn254/src/pairing.rs")],
  ["AteParing::pairing, multi_miller_loop, final_exp, Gt operators"])
p("C09", "Fourier transforms are polynomial evaluation and interpolation",
  "For every domain size 2^k the forward transform of a coefficient list is its list of values on the k-th root-of-unity domain (or its coset), the inverse transform is the inverse map, and the vanishing polynomial helpers agree with X^n - 1. Results do not depend on the number of worker threads, and pointwise and coefficient arithmetic agree with polynomial arithmetic.",
  ["inputs", "schedules"], "all polynomials of degree below 2^k, all k, all thread counts",
  "Tests compare a transform with its own inverse on random input, which any consistent permutation or wrong root also satisfies.",
  ["groth16/src/fft.rs", "groth16/src/poly.rs", "bn254/src/fr.rs"],
  [("radix-2 decimation in time", "groth16/src/fft.rs"), ("polynomial types", "groth16/src/poly.rs")],
  ["fft and polynomial module of groth16"], "the fft and poly modules are private")
p("C10", "Multi-scalar multiplication equals the sum of the products",
  "For every list of points and scalars (of any length, with repeated, opposite or identity points and zero, one or maximal scalars) the multi-scalar multiplication equals the sum of scalar times point, whatever the number of worker threads.",
  ["inputs", "schedules"], "all lists of (point, scalar) pairs, all lengths across the window-size thresholds, all thread counts",
  "The test uses one length and random points; bucket collisions, identities and window boundaries are not reached.",
  ["groth16/src/msm.rs"],
  [("bucket accumulation", "groth16/src/msm.rs")],
  ["msm module of groth16"], "the msm module is private")
p("C11", "Constraint system satisfaction is exactly the R1CS relation",
  "A constraint system reports satisfied exactly when every recorded constraint holds on the current assignment. Linear combinations evaluate, add, subtract, scale and negate as linear functions of the assignment for every mix of public, private and constant wires, and the row view, column view and dense matrix products of one system denote the same matrices.",
  ["programs", "inputs"], "all sequences of builder operations and all assignments",
  "The tests check a handful of circuits with satisfied assignments.",
  ["zkstd/src/r1cs.rs", "zkstd/src/r1cs/wire.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs"],
  [("sparse rows and matrix product", "zkstd/src/matrix.rs, zkstd/src/matrix/row.rs"), ("is_sat", "zkstd/src/r1cs.rs")],
  ["R1cs, SparseRow, SparseMatrix, DenseVectors"])
p("C12", "Circuit gadgets compute their documented function",
  "For every input the honest assignment produced by a field or boolean gadget (arithmetic, equality and inequality tests, selection, boolean logic, bit decomposition, range checks) satisfies the constraints it adds whenever the checked statement is true, and its output value is the documented function of the inputs. When the statement asserted by a checking gadget is false the honestly built system is unsatisfied.",
  ["programs", "inputs"], "all gadget compositions and input values, including 0, 1, p-1 and bit-length boundaries",
  "Tests run a few fixed inputs per gadget.",
  ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs"],
  [("field and binary gadgets", "zkstd/src/circuit/gadget")],
  ["FieldAssignment, BinaryAssignment, R1cs::is_sat"])
p("C13", "Circuit gadgets admit no wrong output",
  "No assignment that satisfies the constraints added by a field, boolean or curve-point gadget makes its output differ from the documented function of its inputs: bits are bits, a decomposition recomposes to its input, equality flags, selections, conditional checks, point sums and normalised points are forced; and the honest assignment satisfies them.",
  ["programs", "inputs", "fault_sequences"], "all gadget compositions and all (adversarial) assignments of the private wires",
  "Tests only ever use the honest witness generator; an unconstrained wire is invisible to them.",
  ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs"],
  [("constraints emitted by the gadgets", "zkstd/src/circuit/gadget")],
  ["R1cs::matrices evaluated on mutated assignments"])
p("C14", "In-circuit curve arithmetic agrees with the native curve",
  "For all curve points (including the identity and equal or opposite operands) and scalars, the in-circuit point addition, doubling, selection, scalar multiplication and normalisation yield the point the native curve computes, with a satisfied constraint system; equality checks against a public point are satisfied exactly when the points are equal.",
  ["inputs", "programs"], "all points and scalars of the embedded curve, all gadget compositions",
  "Tests use random points and one or two scalars.",
  ["zkstd/src/circuit/gadget/curve.rs", "zkstd/src/circuit/gadget/field.rs"],
  [("complete addition law in circuit", "zkstd/src/circuit/gadget/curve.rs")],
  ["PointAssignment, R1cs::is_sat"])
p("C15", "Groth16 accepts every honest proof",
  "For every circuit the builder can express, of any number of constraints, public inputs and private wires, and every satisfying assignment, a proof made with the parameters set up for that circuit verifies against its public inputs.",
  ["programs", "inputs"], "all circuits and satisfying assignments, all setup and prover randomness",
  "The suite proves one circuit with one assignment; its constraint count happens to be a power of two.",
  ["groth16/src/zksnark.rs", "groth16/src/prover.rs", "groth16/src/verifier.rs", "groth16/src/proof.rs", "groth16/src/fft.rs", "groth16/src/msm.rs"],
  [("QAP evaluation in setup", "groth16/src/zksnark.rs"), ("quotient polynomial and queries", "groth16/src/prover.rs"), ("pairing check", "groth16/src/proof.rs")],
  ["ZkSnark::setup, Prover::create_proof, Verifier::verify"])
p("C16", "Groth16 rejects everything but a proof of the stated inputs",
  "Verification fails when the assignment used by the prover does not satisfy the circuit, when the public inputs given differ from those proved in any position on which the circuit depends, when their number is wrong, when any component of the proof is altered or taken from another proof or setup, and for every proof under another circuit's key.",
  ["inputs", "histories", "fault_sequences"], "all sessions mixing setups, proofs, public inputs and single or combined alterations of them",
  "No test ever expects a rejection.",
  ["groth16/src/proof.rs", "groth16/src/verifier.rs", "groth16/src/prover.rs", "groth16/src/zksnark.rs"],
  [("pairing equation and input accumulation", "groth16/src/proof.rs")],
  ["Verifier::verify"], "proof components are private to the crate")
p("C17", "Groth16 parameters and proofs are the ones the scheme defines",
  "The parameters produced by setup encode, for the trapdoor drawn, exactly the evaluations the scheme defines for the circuit (powers of tau times the vanishing polynomial, the A, B and combined queries, and the verifying key), and a proof's three components are the defined combinations of them with fresh blinding: two proofs of the same statement with different randomness differ in every component.",
  ["programs", "inputs"], "all circuits, assignments and randomness",
  "Tests look at nothing but the final verdict; a prover that forgets its blinding, or a parameter that is wrong but unused by the one test circuit, passes.",
  ["groth16/src/zksnark.rs", "groth16/src/prover.rs", "groth16/src/params.rs"],
  [("toxic waste and query evaluation", "groth16/src/zksnark.rs"), ("blinding by r and s", "groth16/src/prover.rs")],
  ["Prover::params, proof components"], "proof components are private to the crate")
p("C18", "Pedersen commitments are linear and depend on every entry",
  "The commitment to a vector is the combination of the fixed generators by its entries: commit(a) + r*commit(b) = commit(a + r*b) for all vectors and scalars, two different vectors of admissible length never commit to the same point by dropping or merging entries, and the generators are distinct non-identity points.",
  ["inputs"], "all vectors up to the key length, all scalars and key sizes",
  "No test exercises the commitment on its own.",
  ["nova/src/pedersen.rs"],
  [("commit", "nova/src/pedersen.rs")], ["PedersenCommitment"], "commit is private to the crate")
p("C19", "Folding two satisfied instances gives a satisfied instance",
  "Whenever a relaxed instance-witness pair and a plain pair satisfy a structure, the pair produced by the folding prover satisfies it, its commitments open to its witness, and the folding verifier, given only the instances and the cross-term commitment, computes the identical instance; this holds along any chain of folds.",
  ["histories", "inputs"], "all structures, all chains of folded instances and witnesses",
  "One test folds one pair of one example structure.",
  ["nova/src/prover.rs", "nova/src/verifier.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/relaxed_r1cs/witness.rs"],
  [("cross term and fold", "nova/src/prover.rs"), ("instance fold", "nova/src/relaxed_r1cs/instance.rs")],
  ["Prover::prove, Verifier::verify, R1csShape::is_sat_relaxed"], "instances and witnesses are private to the crate")
p("C20", "Folding never turns an unsatisfied input into a satisfied output",
  "If either folded pair does not satisfy the structure, the folded pair does not satisfy it, and the folding challenge depends on the cross-term commitment and on every part of the running instance. Satisfaction of plain and relaxed pairs is decided exactly: it holds iff every constraint row holds on vectors of the structure's dimensions, and, for plain pairs, the commitment opens to the witness.",
  ["histories", "inputs", "fault_sequences"], "all structures and all single alterations of an instance or witness before or after folding",
  "No test folds or checks anything unsatisfied.",
  ["nova/src/prover.rs", "nova/src/verifier.rs", "nova/src/hash.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs"],
  [("Fiat-Shamir transcript", "nova/src/hash.rs, nova/src/relaxed_r1cs/instance.rs"), ("is_sat, is_sat_relaxed", "nova/src/relaxed_r1cs.rs")],
  ["Prover::prove, Verifier::verify, R1csShape::{is_sat,is_sat_relaxed}"], "instances and witnesses are private to the crate")
p("C21", "The transcript hash is deterministic and the circuit computes the same one",
  "The random oracle is a fixed function of the sequence of absorbed elements: equal sequences give equal challenges, challenges have the stated number of bits and are the low bits of the hash, changing, dropping, adding or swapping any absorbed element changes the challenge. The in-circuit version yields the same value with a satisfied constraint system for every absorbed sequence.",
  ["inputs", "programs"], "all sequences of absorbed field elements and points, both fields of the cycle",
  "One test compares the two versions on one random sequence.",
  ["nova/src/hash.rs", "nova/src/hash/helper.rs", "nova/src/gadget/mimc.rs"],
  [("MiMC Feistel sponge", "nova/src/hash.rs"), ("in-circuit MiMC", "nova/src/gadget/mimc.rs")],
  ["MimcRO, MimcROCircuit / MimcAssignment"], "the hash and its gadget are private to the crate")
p("C22", "Big-integer gadgets compute non-native arithmetic exactly",
  "For all operands within the declared limb bounds the big-integer gadgets represent the integer they were given, and addition, multiplication, reduction and modular multiplication produce the exact integer results with a satisfied constraint system; conversion between limbs, bits and field elements preserves the integer, and an asserted equality of two different integers is unsatisfied.",
  ["inputs", "programs"], "all integers within the limb bounds, including 0, all-ones limbs, values around the modulus",
  "Tests use one small operand pair per gadget.",
  ["nova/src/gadget/big_nat.rs"],
  [("limb decomposition, carry checks", "nova/src/gadget/big_nat.rs")],
  ["BigNatAssignment"], "the gadget is private to the crate")
p("C23", "The in-circuit folding verifier agrees with the native one",
  "For every pair of instances and cross-term commitment the in-circuit verifier outputs the instance that the native verifier computes and the in-circuit instance hash equals the native hash, with a satisfied constraint system, including for identity commitments and zero or maximal public values.",
  ["inputs", "programs"], "all running and fresh instances and cross-term commitments",
  "One test checks one pair on one circuit.",
  ["nova/src/circuit/nifs.rs", "nova/src/circuit/augmented.rs", "nova/src/gadget/instance.rs", "nova/src/gadget/relaxed_instance.rs", "nova/src/relaxed_r1cs/instance.rs"],
  [("NIFS verifier circuit", "nova/src/circuit"), ("instance gadgets", "nova/src/gadget")],
  ["NifsCircuit, R1csInstanceAssignment, RelaxedR1csInstanceAssignment"], "the circuits are private to the crate")
p("C24", "IVC proofs of honest executions verify and state the right output",
  "For every step function, initial value and number of steps, running the prover n times yields a proof that verifies, whose step count is n and whose output is the step function applied n times to the initial value; each intermediate proof also verifies.",
  ["histories", "inputs"], "all initial values, all numbers of steps, several step functions on both curves of the cycle",
  "One test runs a few steps from fixed initial values and checks only the verdict.",
  ["nova/src/ivc.rs", "nova/src/proof.rs", "nova/src/circuit/augmented.rs", "nova/src/function.rs"],
  [("prove_step", "nova/src/ivc.rs"), ("verify", "nova/src/proof.rs")],
  ["Ivc::prove_step, RecursiveProof::verify, RecursiveProof::i and encoded fields"])
p("C25", "IVC verification rejects any altered proof",
  "Verification fails after any change to the step count, the initial or final values, any part of the running or latest instances (public values, relaxation factor, commitments) or witnesses (including the error vector and vector lengths), for a proof mixed from two executions or steps, and under other public parameters; it never aborts.",
  ["histories", "inputs", "fault_sequences"], "all proofs of honest executions and all single or combined alterations of their fields",
  "No test expects a rejection.",
  ["nova/src/proof.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/ivc.rs"],
  [("hash checks and satisfaction checks", "nova/src/proof.rs")],
  ["RecursiveProof::verify on proofs decoded from altered bytes"])
p("C26", "Serialised values decode to themselves and nothing else",
  "Decoding the serialised form of any value of a serialisable type (field and extension elements, points, polynomials vectors, matrices, commitment keys, public parameters, recursive proofs) yields an equal value and consumes exactly its bytes, so concatenations decode in order; every truncation fails without aborting.",
  ["inputs", "histories", "fault_sequences"], "all values of serialisable types, all concatenations and truncations",
  "No test decodes anything except one public-parameter round trip.",
  ["zkstd/src/macros/field.rs", "zkstd/src/matrix.rs", "zkstd/src/r1cs/wire.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "bn254/src/gt.rs", "grumpkin/src/curve.rs", "nova/src/pedersen.rs", "nova/src/proof.rs", "nova/src/ivc.rs"],
  [("derived SCALE codecs and raw byte converters", "across crates")],
  ["Encode, Decode, to_raw_bytes, from_slice_unchecked"])
p("C27", "Proof systems are reproducible functions of their randomness",
  "Given the same randomness source, setup, proving and commitment-key generation return the same result regardless of the number of worker threads or how often they are repeated in a process, and with different randomness they return different keys and proofs; random field elements and points cover the whole domain without bias towards a sub-range.",
  ["schedules", "histories", "inputs"], "all thread counts and randomness streams",
  "Tests use the system RNG once per run, so no run can be compared with another.",
  ["groth16/src/fft.rs", "groth16/src/msm.rs", "groth16/src/zksnark.rs", "nova/src/pedersen.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/macros/field/group.rs"],
  [("rayon parallel sections", "groth16/src"), ("random_limbs", "zkstd/src/arithmetic/limbs")],
  ["ZkSnark::setup, Prover::create_proof, PublicParams::setup, Group::random"])
p("C28", "The Nova pallet only accepts verified proofs on chain",
  "The pallet's verify call, and the verifier interface it offers other pallets, succeed exactly when the recursive proof they are given verifies under the public parameters they are given; the call also requires a signed origin; a refused call reports an error and leaves no trace.",
  ["histories"], "all sequences of extrinsics",
  "The pallet test submits one valid proof.",
  ["pallet/nova/src/lib.rs"], [("verify extrinsic", "pallet/nova/src/lib.rs")], ["Call::verify"])
p("C29", "The folding and big-integer circuits leave the prover no freedom",
  "No assignment that satisfies the constraints recorded by the big-integer gadgets, the in-circuit folding verifier, the in-circuit instance hash or the augmented step circuit makes their results differ from the specified function of what they were given: products and remainders are congruent to the true ones with limbs in range, limbs are those of the field element, different integers are never equal, the folded instance and its challenge are the native ones, and the first step runs on the initial state from the empty running instance.",
  ["programs", "inputs", "fault_sequences"], "all inputs and all (adversarial) assignments of the private wires",
  "Tests only ever use the honest witness generator; an unconstrained wire is invisible to them.",
  ["nova/src/gadget/big_nat.rs", "nova/src/circuit/nifs.rs", "nova/src/circuit/augmented.rs", "nova/src/gadget/relaxed_instance.rs", "nova/src/gadget/instance.rs", "nova/src/gadget/mimc.rs"],
  [("carry and range constraints", "nova/src/gadget/big_nat.rs"), ("folding and step constraints", "nova/src/circuit")],
  ["R1cs::is_sat on systems built by a lying prover"], "the circuits are private to the crate, and the prover has to lie while the circuit is built")
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
