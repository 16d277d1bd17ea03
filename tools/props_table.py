WIP = "check not built yet"
TECH_CS = "abstract interpretation of MIR into a constraint-system domain; elimination and ideal normal forms"
NOTE_CS = ("Every obligation is decided from the MIR of the current tree: the gadget body is interpreted over symbolic variables, "
           "the emitted constraints are collected, and soundness (constraints force the specified value) and completeness (honest "
           "witness satisfies every constraint) are decided by normal forms. Trusts rustc's MIR, the library models and the "
           "abstract domains; sizes outside the listed instances are not covered.")

TECH_AI = "abstract interpretation of MIR over symbolic field values; polynomial normal forms"
NOTE_CORE = ("Every path of the analysed bodies is covered with symbolic operands; states are joined and obligations are decided by polynomial "
             "normal forms. Operation histories are analysed for all sequences up to the length listed in the evidence. Trusts rustc's MIR and "
             "the library models.")
NOTE_CURVE = ("Field operations are abstracted by exact ring operations (F01 decides that), points are symbolic coordinates on the curve, and the "
              "result is compared with the group law by polynomial identities modulo the curve equation; exceptional cases by partitioning on the "
              "sign of the relevant differences. Trusts rustc's MIR, the library models of subtle, and the normal forms.")

TECH_POW = "abstract interpretation of MIR over monomials with integer exponents; fixpoint over two-adic orders for the square-root loop"
NOTE_POW = ("Field elements are monomials with integer exponents over the input and a root of unity; the square-root loop is analysed to a "
            "fixpoint over the orders of its live values, covering every order a product can have; batch inversion covers every zero pattern up "
            "to five entries. Constants are read from the compiler. Trusts rustc's MIR, the library models, and F01 for the exactness of multiplication.")
TECH_PAR = "abstract interpretation of MIR over free modules and polynomial rings, per length and thread count; capture-type query for sharing"
NOTE_PAR = ("Coefficients, points and polynomial coefficients are symbolic, so each length and thread count analysed is decided for all values; "
            "lengths and thread counts themselves are enumerated up to stated bounds that include every window size from 3 to 7 bits and every "
            "chunking remainder for up to 5 threads. Schedules: spawned closures share no mutable state (type query), so one order stands for all. "
            "Trusts rustc's borrow checker, MIR and the library models.")
TECH_ERR = "interprocedural-by-closure forward dataflow over MIR from every fallible call (error value tracking)"
NOTE_ERR = ("For every call in the crate whose result can carry a synthesis or checker error, the error is assumed and followed along every "
            "control-flow path: it must be in the returned value, nothing fallible and no constraint-system operation may run after it, and a "
            "closure that captures it must deliver it. Errors that arise inside library code other than through such results are out of scope. "
            "Trusts rustc's MIR and the transfer rules for Result combinators.")
TECH_PROOF = "abstract interpretation of MIR over free modules, formal polynomials and an abstract sponge; conjunctions as decision diagrams"
TECH_REC = "abstract interpretation of the recursive verifier and abstract synthesis of the recursive circuit over its type-checked MIR (named bits and points, constraints resolved by substitution to a normal form)"
TECH_ECC = "abstract interpretation of MIR into a constraint-system domain; elimination and Groebner normal forms against the group law"
NOTE_ECC = ("Operands are symbolic points split into distinct, equal, opposite and identity cases; constraints are collected from the gadget's MIR and "
            "decided against the chord-and-tangent law by polynomial normal forms (soundness and completeness). Scalar multiplication is decided by "
            "tracking multiples of the base, at the bit lengths in the evidence. Documented restrictions (incomplete additions on distinct affine "
            "points, top bit set, invertible scalar) are assumed. Trusts rustc's MIR, the library models and the normal forms.")
TECH_SHAPE = "abstract interpretation of MIR in the prover and verifier roles; comparison of the recorded event sequences and of branches on symbolic witness values"
NOTE_SHAPE = ("Each gadget is interpreted once with symbolic witness values and once without any; gates, linear constraints, coefficients, namespaces and "
              "calls of summarised gadgets must be the same sequence, and no constraint may be created under a condition on a symbolic value. Covers all "
              "values at the operand forms and sizes of the gadget checks, and the recursive circuit at one size. Trusts rustc's MIR and the library models.")
NOTE_REC = "The set of equations resolved from the circuit's recorded constraints equals the native verifier's, written independently from the protocol, for every assignment of bits and points; analysed at small sizes (log2 of the generator count 3 to 5, payloads of a few bytes). Curve, sponge and bit gadgets are summaries discharged by G02, G05 and G06."
NOTE_PROOF = ("Prover and verifier bodies are interpreted with symbolic proofs, witnesses, randomness and generators; the sponge records what each "
              "challenge absorbed; the acceptance condition is a decision diagram over symbolic equations and is compared with an independently "
              "written protocol. Circuit sizes, gate counts and fork counts are enumerated at the small instances listed in the evidence; everything "
              "else is symbolic. Parallel helpers and the sponge are replaced by their specifications (U01 and G05 decide those). Trusts rustc's MIR "
              "and the library models.")
TECH_CT = "secret-taint abstract interpretation of every field and curve operation over its type-checked MIR"
NOTE_CT = "Every limb, coordinate, encoding byte and choice is a secret; any switch, index, trip count or short-circuiting library call it decides is reported. Slices are analysed at lengths 0, 1 and 3. Exempt: the operations the source comments mark as not constant time. Trusts that the compiler keeps branch-free source branch-free and that subtle's primitives are constant time."
TECH_LIMB = "abstract interpretation of MIR over an exact integer (limb) domain: intervals plus polynomial normal forms"
NOTE_LIMB = ("Operands are symbolic limbs or bytes; truncations are floor quotients, carries and borrows are boolean atoms, and every result's "
             "range and residue are decided in each case of the remaining borrow bits. Nothing is sampled. Trusts rustc's MIR, the library "
             "models and the domain.")

prop("F01", "Field arithmetic is exact and always canonical",
     "For every pair of field elements, addition, subtraction, negation, doubling, multiplication and squaring in both fields return exactly the sum, difference, negation, double, product or square modulo the field's prime, in the canonical (fully reduced) representation. No intermediate carry is ever lost, and equality of elements coincides with equality of the integers they represent.",
     ["inputs"], "all pairs of canonical field elements (about 2^510 per operation)",
     "Unit tests multiply a handful of values; a lost carry or a missing final reduction shows only on operands next to a limb or modulus boundary.",
     ["src/fields/fp.rs", "src/fields/fq.rs", "src/util.rs"],
     [("add-with-carry, subtract-with-borrow and multiply-accumulate primitives", "src/util.rs adc, sbb, mac"),
      ("Montgomery reduction with a final conditional subtraction", "src/fields/*.rs montgomery_reduce, sub, add")], level="proof", technique=TECH_LIMB, note=NOTE_LIMB)
prop("F02", "Field inversion, square roots, exponentiation and published constants are right",
     "For every element of either field: inversion returns the inverse of a nonzero element and reports failure for zero, square root returns a root exactly when the element is a square, exponentiation agrees with repeated multiplication, and batch inversion inverts every nonzero entry, leaves zero entries alone and returns the product of the inverses. The published constants (modulus, roots of unity, cube root of unity, hash exponents, bit capacities) satisfy the relations the protocol relies on.",
     ["inputs"], "all elements of both fields, all vectors of elements",
     "The tests invert and take roots of a few samples; they cannot show the exponent is right for every residue class.",
     ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs"],
     [("fixed exponents p-2 and (t-1)/2 and the two-adicity loop", "src/fields/*.rs invert, sqrt"), ("default methods of the field trait", "src/fields/mod.rs")], level="proof", technique=TECH_POW, note=NOTE_POW)
prop("F03", "Field encodings are canonical and lossless",
     "Encoding a field element to bytes and decoding returns the same element; decoding accepts exactly the little-endian encodings of integers below the modulus and rejects every other string; wide decoding reduces the full 512-bit integer modulo the prime. Conversions from and to booleans and 64- and 128-bit integers preserve the integer's value.",
     ["inputs"], "all byte strings and all field elements",
     "The tests decode a few boundary strings; the accept/reject frontier has 2^256 points.",
     ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs"],
     [("borrow of the subtraction from the modulus decides acceptance", "src/fields/*.rs from_bytes"), ("Montgomery conversion", "to_bytes, from_bytes_wide, from_u64, from_u128, get_lower_128")], level="proof", technique=TECH_LIMB, note=NOTE_LIMB)
prop("F04", "Secret field and curve arithmetic is constant time as documented",
     "The operations of the fields and curves that are not documented as variable-time execute the same control flow and touch the same memory addresses whatever the values of the field elements and points they are given. Only the operations documented as not constant-time may branch or index on such values.",
     ["inputs"], "all operand values of every documented constant-time operation",
     "Tests observe results, not control flow; a secret-dependent branch returns the right answer.",
     ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs", "src/curves/ec0.rs", "src/curves/ec1.rs", "src/util.rs"],
     [("conditional selection instead of branching", "subtle::ConditionallySelectable impls and their callers")], level="proof", technique=TECH_CT, note=NOTE_CT)
prop("C01", "Curve addition and doubling implement the group law for all points",
     "For every two points of either curve, including equal points, opposite points and the identity, addition, subtraction, doubling and negation return the group-law result, and scalar multiplication agrees with repeated addition for every scalar. The result of every group operation on curve points is again on the curve.",
     ["inputs"], "all pairs of points, all scalars",
     "Tests use random points, for which exceptional cases (identity, equal, opposite) almost never occur.",
     ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs"],
     [("complete projective addition and doubling formulas", "Add and double impls"), ("double-and-add over the scalar's bits", "Mul impls")], level="proof", technique=TECH_AI, note=NOTE_CURVE)
prop("C02", "Point equality and encodings agree with the mathematical point",
     "Two points compare equal exactly when they are the same point of the curve, whatever their projective representatives. Decoding accepts only encodings of points on the curve, encoding then decoding returns an equal point, and the checked coordinate constructor accepts exactly the affine points that satisfy the curve equation, and (0, 0), which it maps to the identity.",
     ["inputs"], "all pairs of points in all representations, all byte strings",
     "Equality tests compare a few points and never a point with the identity in both orders; decoding is sampled.",
     ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs"],
     [("cross-multiplied comparison with identity cases", "ConstantTimeEq impls"), ("sign bit and infinity encoding", "to_bytes/from_bytes"), ("curve equation check", "from_xy, is_on_curve")], level="proof", technique=TECH_AI, note=NOTE_CURVE)
prop("C03", "The curve cycle and its endomorphism constants are consistent",
     "Each curve's scalar field is the other curve's base field, the curve orders are the stated primes, and for every point P multiplying by the published scalar cube root of unity equals multiplying P's x coordinate by the published base-field cube root of unity. The published generator is on the curve.",
     ["inputs"], "all points of both curves",
     "A sampled point can confirm the endomorphism constant, but not that the orders and the cycle are consistent.",
     ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/fields/fp.rs", "src/fields/fq.rs"],
     [("associated constants", "Curve impls, Field impls")], level="proof", technique=TECH_AI, note=NOTE_CURVE)
prop("U01", "Parallel algorithms return the sequential result for any thread count",
     "Multi-exponentiation, generator folding, inner products, polynomial multiplication and the Fourier transform return exactly the mathematically defined result for every input length they accept and for every number of worker threads, with every output element written by exactly one worker. Inputs of mismatched or unsupported length are refused rather than silently truncated.",
     ["inputs", "schedules", "configurations"], "all inputs, lengths, thread counts and thread interleavings",
     "Tests run on one machine with one thread count and a few sizes; chunking errors depend on length modulo thread count.",
     ["src/util.rs"],
     [("chunking by thread count over disjoint mutable slices", "parallel_generator_collapse, multiexp, parallel_fft, compute_inner_product")], level="proof", technique=TECH_PAR, note=NOTE_PAR)
prop("S01", "Linear combinations and coefficients compute the exact field value",
     "Building, adding, subtracting, scaling and evaluating linear combinations, and multiplying, doubling, negating and converting their coefficients, give the same field value as the corresponding arithmetic on the variables' values, whichever shorthand form a coefficient is stored in. Namespaced and borrowed constraint systems pass every allocation and constraint on to the underlying system unchanged.",
     ["inputs", "programs"], "all linear combinations, coefficients and assignments",
     "The shorthand forms (zero, one, minus one, full) have many combinations, most never combined in a test.",
     ["src/circuits.rs"],
     [("coefficient algebra", "Coeff impls"), ("operator overloads", "Add/Sub impls of LinearCombination"), ("forwarding impls", "Namespace and &mut CS impls of ConstraintSystem")], level="proof", technique=TECH_AI, note=NOTE_CORE)
prop("S02", "Synthesis delivers exactly the circuit's constraints to the backend",
     "For every circuit, the standard synthesis strategy hands the backend each multiplication gate and each linear constraint the circuit created, once, in order, with every coefficient, and ties each public input to its own constraint. Values allocated singly are paired into gates without changing any other variable, and the assignment it delivers satisfies every gate.",
     ["programs", "inputs"], "all sequences of allocation, constraint and input operations",
     "Tests synthesise a few fixed circuits; pairing of allocations depends on the order of operations.",
     ["src/synthesis.rs"],
     [("available-variable pairing", "Basic driver's alloc and multiply"), ("input handling", "alloc_input")], level="proof", technique=TECH_AI, note=NOTE_CORE)
prop("D01", "The satisfiability checker accepts exactly the satisfied circuits",
     "The development checker reports a circuit as satisfied exactly when the assignment its synthesis produced satisfies every multiplication gate and every linear constraint with the given public inputs. The constraint counter reports the number of gates and constraints actually created.",
     ["programs", "inputs"], "all circuits and public inputs",
     "The checker is itself the oracle of the other tests, so an unsound checker hides every gadget bug.",
     ["src/dev.rs"], [("gate and constraint evaluation", "is_satisfied")], level="proof", technique=TECH_AI, note=NOTE_CORE)
prop("D02", "The shape of every library circuit is independent of the witness",
     "The gates, linear constraints and coefficients a library gadget creates depend only on public structure, never on whether witness values are present or what they are, so prover and verifier synthesise the same circuit.",
     ["inputs", "programs"], "all witness values, and presence or absence of the witness",
     "Tests compare shapes for one witness; a value-dependent coefficient appears only for special values.",
     ["src/gadgets", "src/recursion.rs", "src/dev.rs"],
     [("values only flow into allocation closures", "all gadgets")], level="other", technique=TECH_SHAPE, note=NOTE_SHAPE)
prop("D03", "The determinism checker accepts exactly the deterministic syntheses",
     "The determinism checker accepts a circuit only if its synthesis with a witness issues the same allocations, inputs, multiplications and linear constraints, in the same order and with the same variables and coefficients, as its synthesis without one; it accepts every circuit whose two syntheses issue the same operations, and a synthesis error is returned to the caller.",
     ["programs", "inputs"], "all sequences of constraint-system operations of the two syntheses and all coefficients",
     "Its tests run a circuit that is deterministic; a comparison that is missing shows only for a circuit that differs in exactly that part.",
     ["src/dev.rs"], [("recorded and replayed synthesis events", "determinism_check")], level="proof", technique=TECH_AI, note=NOTE_CORE)
prop("D04", "The recursive checker examines the circuit that is proved and verified",
     "The recursive satisfiability checker reports a circuit as satisfied exactly when the circuit the prover would prove for the same previous proof and payload, with the public inputs the verifier would use, is satisfied; the recursive constraint counter counts the gates and constraints of the circuit the verifier uses.",
     ["inputs", "histories"], "all previous proofs (or none), payloads and parameters",
     "Tests check one short history; a swapped deferred value or flag shows only where old and new values differ.",
     ["src/dev.rs", "src/recursion.rs"], [("construction of the verification circuit and its inputs", "recursive_is_satisfied, recursive_constraint_count")], level="proof", technique=TECH_REC, note=NOTE_CORE)
prop("G01", "Number gadgets enforce exactly the arithmetic they compute",
     "For every constraint-system state and every satisfying assignment of the constraints they create, the number gadgets (allocation, multiplication, squaring, inversion, fifth power and fifth root, equality and selection, combinations) produce variables whose values are the specified function of their inputs. The honest prover's assignment satisfies every constraint they create for all inputs they document as valid.",
     ["inputs", "programs"], "all input values and all (including dishonest) assignments",
     "A missing constraint does not change the honest result, so tests of honest executions cannot see it.",
     ["src/gadgets/num.rs"],
     [("constraints created next to each allocation", "AllocatedNum, Num, Combination methods")],
     level="proof", technique=TECH_CS, note=NOTE_CS)
prop("G02", "Boolean gadgets enforce exactly the logic they compute",
     "For every satisfying assignment, each boolean gadget's output is 0 or 1 and equals the specified boolean function of its inputs, for every mix of constant, allocated and negated operands; unpacking yields bits whose weighted sum is the unpacked value. The honest assignment satisfies every constraint.",
     ["inputs", "programs"], "all operand variants, values and assignments",
     "A missing booleanity or product constraint is invisible to honest executions.",
     ["src/gadgets/boolean.rs"],
     [("a*(1-a)=0 and product constraints", "AllocatedBit, Boolean methods, unpack functions")],
     level="proof", technique=TECH_CS, note=NOTE_CS)
prop("G03", "Word gadgets enforce 32- and 64-bit arithmetic modulo the word size",
     "For every satisfying assignment, the word gadgets' outputs (allocation, bit conversion, rotation, shift, xor, choice, majority, multi-operand addition, multiply-accumulate) are the specified function of their inputs modulo the word size, with no wrap-around in the field. The honest assignment satisfies every constraint, and each word's recorded value is the value of its bits.",
     ["inputs", "programs"], "all word values, operand counts up to the documented limits, and assignments",
     "Carry bits and operand counts interact; tests sample random words only and only honest assignments.",
     ["src/gadgets/uint32.rs", "src/gadgets/uint64.rs"],
     [("bit decomposition of the integer sum in one linear constraint", "addmany, mul_acc2")],
     level="proof", technique=TECH_CS, note=NOTE_CS)
prop("G04", "The SHA-256 gadget computes SHA-256 and constrains it",
     "For every message of whole bytes, the bits returned by the SHA-256 gadgets equal the SHA-256 digest of the message bits in every satisfying assignment, including padding and multi-block messages, and the single-block variant equals one compression from the standard initial state.",
     ["inputs"], "all messages",
     "Tests hash a few messages; a wrong bit order or constant in a rarely reached block boundary, or a missing constraint, is not sampled.",
     ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs"],
     [("message schedule and rounds over word gadgets", "sha256, sha256_block_no_padding")],
     level="proof", technique=TECH_CS, note=NOTE_CS)
prop("G05", "The Rescue hash gadget agrees with the native Rescue hash",
     "For every sequence of absorb and squeeze operations and all inputs, the in-circuit sponge returns the same values as the native sponge, and its constraints force those values. Every absorbed element influences what is squeezed afterwards.",
     ["inputs", "histories"], "all absorb/squeeze sequences and all field elements",
     "Tests compare one sequence; mode switching at the rate boundary has many histories.",
     ["src/rescue.rs", "src/gadgets/rescue.rs"],
     [("sponge state machine and permutation", "Rescue, RescueGadget")],
     level="proof", technique=TECH_CS, note=NOTE_CS)
prop("G06", "Curve gadgets return the group-law result and constrain it",
     "For every satisfying assignment of the constraints they create, the in-circuit curve operations return the group-law result of their operands (under the documented restrictions for incomplete operations), and conditional operations act exactly when their condition bit is one. The honest assignment satisfies every constraint for all valid operands.",
     ["inputs", "programs"], "all operand points, condition bits and assignments",
     "Missing constraints and exceptional cases are invisible to random honest executions.",
     ["src/gadgets/ecc.rs"],
     [("chord and tangent constraints", "CurvePoint methods")], level="proof", technique=TECH_ECC, note=NOTE_ECC)
prop("P01", "Every challenge depends on everything sent before it (Fiat-Shamir)",
     "Prover and verifier derive each challenge by hashing, in the same order, every commitment, opening and public value that precedes it in the protocol; no message that later equations use is left out of the transcript before the challenge that randomises it, and no challenge is reused.",
     ["inputs", "histories"], "all statements and proofs",
     "Honest proofs verify even if a message is left out of both transcripts; only an attacker notices.",
     ["src/proofs.rs", "src/recursion.rs"],
     [("append_point/append_scalar before get_challenge", "Proof::new, Proof::verify, MultiPolynomialOpening")], level="other", technique=TECH_PROOF, note=NOTE_PROOF)
prop("P02", "A proof is accepted only if every verification equation holds",
     "Verification of a proof, of a deferred check and of the leftovers of an earlier proof returns success only when every equation of the protocol (each polynomial opening, the combined polynomial relation, the inner-product result, each deferred value) has been checked on the proof's own data; no result of a sub-check is dropped.",
     ["inputs"], "all statements and proofs, including malformed and adversarial ones",
     "Tests verify honest proofs, which satisfy every equation whether checked or not.",
     ["src/proofs.rs"],
     [("conjunction of comparisons", "Proof::verify, verify_proof, Leftovers::verify, Deferred::verify")], level="other", technique=TECH_PROOF, note=NOTE_PROOF)
prop("P03", "Honest proofs verify for every circuit",
     "For every circuit and witness satisfying it, and every choice of randomness for which the prover succeeds, the proof produced is accepted by the verifier, and the deferred values and leftovers it hands on are themselves accepted.",
     ["inputs", "programs"], "all satisfiable circuits, inputs and randomness",
     "Tests prove two fixed circuits with one randomness each.",
     ["src/proofs.rs", "src/util.rs"], [("proof algebra", "Proof::new vs Proof::verify, inner product argument")], level="other", technique=TECH_PROOF, note=NOTE_PROOF)
prop("P04", "The three evaluations of the circuit polynomial agree",
     "For every circuit and all points x and y, evaluating the circuit polynomial as coefficients in X at fixed y, as coefficients in Y at fixed x, and directly at both points gives the same value, and it is the polynomial the constraint system defines.",
     ["programs", "inputs"], "all circuits and evaluation points",
     "Tests compare on one circuit; the three evaluators are separate code with their own index arithmetic.",
     ["src/proofs.rs"], [("SxEval, SyEval backends", "src/proofs.rs")], level="other", technique=TECH_PROOF, note=NOTE_PROOF)
prop("V01", "Recursive public inputs are laid out identically on both sides",
     "The bits the native verifier feeds as public inputs and the bits the in-circuit verifier slices for each field (points, challenges, deferred scalars, payload) use the same order, offsets and widths for every parameter size.",
     ["inputs", "configurations"], "all proofs, payloads and sizes",
     "Fields of the same width can be swapped consistently with honest data of special form; base-case tests gate most fields.",
     ["src/proofs.rs", "src/recursion.rs"], [("byte layout", "Leftovers::to_bytes, Deferred::to_bytes"), ("bit slicing", "VerificationCircuit")], level="other", technique=TECH_REC, note=NOTE_REC)
prop("V02", "The in-circuit verifier performs the native verifier's equations",
     "The recursive circuit enforces, outside the base case, exactly the equations the native verifier checks: the same challenges, the same combination of commitments, the same deferred computations, and the same values handed on.",
     ["inputs"], "all proofs fed to the recursive circuit",
     "Honest recursion satisfies the circuit whether or not an equation is enforced.",
     ["src/recursion.rs", "src/proofs.rs"], [("verify_deferred, verify_proof, verify_inner_product", "VerificationCircuit")], level="other", technique=TECH_REC, note=NOTE_REC)
prop("V03", "Only the base case disables the recursive checks",
     "The recursive circuit's checks of the previous proof are disabled only when the base-case flag is set, and the flag forces the documented fixed starting values, so a proof for a non-base step cannot skip verification.",
     ["inputs"], "all assignments of the base-case flag and previous proof",
     "Tests exercise two honest steps.",
     ["src/recursion.rs"], [("equal_unless_base_case", "VerificationCircuit")], level="other", technique=TECH_REC, note=NOTE_REC)
prop("V04", "Recursive verification checks every component",
     "Verifying a recursive proof accepts only if the outer proof, its deferred checks, the deferred checks of the previous step and both carried-over accumulations all verify against the given payload.",
     ["inputs"], "all recursive proofs",
     "Tests verify honest recursive proofs only.",
     ["src/recursion.rs"], [("conjunction of results", "RecursiveProof::verify")], level="other", technique=TECH_REC, note=NOTE_REC)
prop("E01", "Errors are propagated, never swallowed",
     "When any allocation, constraint or synthesis step fails, or a required witness value is missing, every library gadget and every prover, verifier and checker entry point returns that error to its caller instead of continuing, and no gadget invents a witness value in its place.",
     ["inputs", "fault_sequences"], "every failing step of every gadget and entry point",
     "Tests do not inject failures into constraint systems.",
     ["src/gadgets", "src/recursion.rs", "src/proofs.rs", "src/synthesis.rs", "src/dev.rs"], [("? operator on every fallible call", "whole crate")], level="proof", technique=TECH_ERR, note=NOTE_ERR)
prop("N01", "Knowledge soundness of the argument system",
     "No efficient prover can produce an accepting proof for a statement without knowing a witness.",
     ["inputs"], "all efficient adversaries",
     "Computational assumption.",
     ["src/proofs.rs"], [("protocol", "src/proofs.rs")],
     na="A reduction to the discrete-logarithm assumption quantifies over adversaries, not over the shape of the code; the code-level clauses it needs (transcript completeness, all equations checked) are claimed as P01 and P02.")
prop("N02", "Verifiers reject malformed proofs without panicking",
     "Verification of any proof value, including ones with wrong vector lengths or degenerate points, returns a rejection or an error instead of panicking.",
     ["inputs"], "all byte-level and structural proof values",
     "Tests only verify proofs made by the prover.",
     ["src/proofs.rs", "src/recursion.rs"], [("length checks (TODO in the code)", "verify_proof")],
     na="The current tree does not have this property (lengths are asserted with panics and marked TODO), and repairing it is an API change, not a small fix; whether a given value reaches a panic is a runtime quantity.")
prop("N03", "Collision resistance and generator independence",
     "The hash-to-challenge function is collision resistant and no discrete-log relation between commitment generators is known.",
     ["inputs"], "all efficient adversaries", "Computational assumption.",
     ["src/rescue.rs", "src/proofs.rs"], [("Rescue permutation", "src/rescue.rs")],
     na="Computational hardness is not a property of code shape that static analysis can decide.")
