#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with what MANIFEST.json claims).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=s,where=files[0]) for s in state]
    P.append(d)

p("C01","Base-field arithmetic returns the exact canonical result for all operands",
 "For all canonical Goldilocks operands, every base-field operation (add, subtract, multiply, multiply-add, reduce, reduce with a stated width, inverse) is satisfiable by the honest prover and returns the unique canonical representative of the mathematical result; the unreduced variants return a value congruent to it. Reducing accepts every value the width admits, and inverting zero reports 'no inverse' instead of a value.",
 ["inputs"],"all canonical operand tuples, all reducible values up to the stated widths, variable and constant operands",
 "The tests evaluate two or three hand-picked products; boundary operands (0, p-1, values around 2^32 and 2^63, operands that make the quotient maximal) and constant/variable mixes are never combined.",
 ["goldilocks/base.go"],[("MulAdd / Reduce / ReduceWithMaxBits / Inverse and their hints","goldilocks/base.go")],["goldilocks.Chip exported methods"])
p("C02","No prover-chosen hint value can change a base-field result",
 "Whatever values a malicious prover supplies for the nondeterministic advice (hints) inside base-field operations, either some constraint fails or the operation returns exactly the honest result. This includes advice that exploits wrap-around of the native BN254 field and non-canonical representatives.",
 ["inputs","fault_sequences"],"every hint point of every base-field operation, every adversarial advice value of the attack menu (all integer and wrapped solutions of the division equation, non-canonical limbs, arbitrary values), all combinations within one operation",
 "The tests always run the honest hint functions, so an operation that constrains too little passes all of them.",
 ["goldilocks/base.go","goldilocks/utils.go"],[("quotient/remainder constraints and range checks","goldilocks/base.go"),("bit decomposition checker","goldilocks/utils.go")],["constraint satisfaction and returned values"])
p("C03","Range checks accept exactly the intended interval on every back end",
 "A Goldilocks range check accepts a native value exactly when it is smaller than the Goldilocks modulus, and an n-bit check exactly when it is smaller than 2^n, for the native, commitment-based and bit-decomposition back ends alike and for any prover advice. A width the commitment-based checker cannot enforce soundly is refused, never silently weakened.",
 ["inputs","configurations"],"all native field values (all boundary values of 2^k, p, limb borders, wrapped values), all back ends, all widths, all prover advice",
 "Two tests cover one in-range and a few out-of-range values on the default back end with honest hints; no test checks another width, back end or dishonest limbs.",
 ["goldilocks/base.go","goldilocks/range_checker_utils.go","goldilocks/utils.go"],[("RangeCheck, RangeCheckWithMaxBits, checkCollected, range checker selection","goldilocks/base.go"),("base width computation","goldilocks/range_checker_utils.go")])
p("C04","Quadratic-extension arithmetic is exact and cannot be bent by hints",
 "For all elements of the quadratic extension, every extension operation (add, subtract, multiply, multiply-add, subtract-multiply, scalar multiply, inner product, exponentiation by any exponent, reduction by powers, inverse, division, zero test, lookups, range check) yields the canonical result of the field operation, and no prover advice can make it yield anything else. Inverting or dividing by zero is unsatisfiable.",
 ["inputs","fault_sequences"],"all operand tuples (boundary-complete), all exponents, all vector lengths, all selector bits, all hint deviations",
 "Tests multiply and divide one or two fixed pairs; exponents, inner products, lookups and zero divisors are not exercised.",
 ["goldilocks/quadratic_extension.go"],[("extension operations","goldilocks/quadratic_extension.go")])
p("C05","Extension-algebra arithmetic and partial interpolation are exact",
 "For all operands, the degree-2 algebra over the extension (add, subtract, multiply, scalar multiply) and barycentric partial interpolation compute their mathematical definition for every domain size and split of the domain, and no prover advice can change the result.",
 ["inputs","fault_sequences"],"all operand tuples (boundary-complete), all domain sizes and chunk boundaries, all hint deviations",
 "There is no direct test; only one gate parameterisation exercises the code with one witness.",
 ["goldilocks/quadratic_extension_algebra.go"],[("algebra multiplication and interpolation","goldilocks/quadratic_extension_algebra.go")])
p("C06","Roots of unity and two-adic subgroups have the right order and order of elements",
 "For every supported logarithmic size n, the primitive root has multiplicative order exactly 2^n and is the fixed power of the field's canonical two-adic generator, the listed subgroup consists of its successive powers starting at 1, and sizes beyond the two-adicity are refused.",
 ["inputs"],"all sizes 0..32 and the refused sizes above",
 "No test checks these tables; the proofs in testdata use only three sizes.",
 ["goldilocks/base.go"],[("PrimitiveRootOfUnity, TwoAdicSubgroup","goldilocks/base.go")])
p("C07","The Goldilocks Poseidon hash equals the reference for every input and length",
 "For every state, the in-circuit Goldilocks Poseidon permutation equals the plonky2 permutation, and for every input length and number of outputs the no-pad hash equals the plonky2 sponge, with inputs reduced first where the interface promises it. No prover advice can make it produce any other output.",
 ["inputs","fault_sequences"],"all states and inputs (every position, boundary values, non-canonical inputs), all input lengths and output counts up to the bound, all hint deviations in the permutation",
 "Tests use four fixed permutation inputs and three public-input vectors with honest hints.",
 ["poseidon/goldilocks.go","poseidon/goldilocks_constants.go"],[("permutation, sponge","poseidon/goldilocks.go"),("round constants","poseidon/goldilocks_constants.go")])
p("C08","The BN254 Poseidon hash, packing and compression equal the reference",
 "For every input length and content, packing Goldilocks elements into BN254 elements, hashing, the short-input rule, and two-to-one compression equal the reference BN254 Poseidon construction used by the plonky2 prover.",
 ["inputs"],"all states, all input lengths up to several sponge blocks, every element position",
 "Tests use a few fixed vectors with lengths that never end in the middle of a packed word or sponge block.",
 ["poseidon/bn254.go","poseidon/bn254_constants.go"],[("Poseidon, HashNoPad, HashOrNoop, TwoToOne","poseidon/bn254.go")])
p("C09","Turning a digest into field elements is canonical and injective",
 "Every BN254 digest is converted to the unique little-endian sequence of 56-bit chunks of its canonical integer, each chunk being a canonical Goldilocks element, and no prover advice can make the conversion return another sequence.",
 ["inputs","fault_sequences"],"all digests (boundary-complete around chunk borders and the field modulus), all hint deviations including the wrapped representative",
 "Only digests of two proofs are converted, always with honest advice.",
 ["poseidon/bn254.go"],[("ToVec","poseidon/bn254.go")])
p("C10","Challenger output equals a duplex sponge for every sequence of operations",
 "For every sequence of observe and squeeze operations (elements, digests, caps, extension elements, openings, single and multiple challenges, extension challenges, hashes) the challenger returns exactly the challenges of the plonky2 duplex sponge fed with the same sequence, whatever the prover's advice.",
 ["histories","inputs"],"all operation sequences up to the depth bound and all reachable buffer fill states, with distinct data",
 "The tests replay two fixed transcripts; other interleavings of observing and squeezing (buffer borders, squeeze after partial absorb, leftover outputs) are not reached.",
 ["challenger/challenger.go"],[("duplexing and buffers","challenger/challenger.go")],state=["sponge state","input buffer","output buffer"])
p("C11","Fiat-Shamir challenges depend on every committed element in protocol order",
 "For every supported configuration the challenges equal those of plonky2's transcript: circuit digest, public-input hash, wires commitment, then betas and gammas, permutation commitment, alphas, quotient commitment, zeta, all openings, FRI alpha, each folding commitment and its beta, final polynomial, proof-of-work witness, proof-of-work response and query indices. Changing any committed element changes every challenge drawn after it and none drawn before it.",
 ["inputs","configurations"],"all configurations in bounds; every single element of digest, public inputs, caps, openings, final polynomial and witness",
 "Two recorded transcripts are compared; an element left out of the transcript in other configurations, or a changed order with equal lengths, is invisible to them.",
 ["verifier/verifier.go","challenger/challenger.go"],[("GetChallenges, GetFriChallenges, GetPublicInputsHash","verifier/verifier.go; challenger/challenger.go")])
p("C12","Every gate's constraints equal plonky2's definition for all parameters and wires",
 "For each supported gate type and every parameterisation, the constraint values computed in-circuit from wires, constants and the public-input hash equal plonky2's definition of that gate, in number, order and value, whatever the prover's advice.",
 ["inputs","configurations","fault_sequences"],"all 14 gate types, all parameterisations in bounds, every wire and constant perturbed, all hint deviations",
 "The gate tests use one parameterisation and one vector per gate and leave the constant, exponentiation and no-op gates untested.",
 ["plonk/gates/"],[("EvalUnfiltered of each gate","plonk/gates/*_gate.go")])
p("C13","Selector filters combine gate constraints exactly as the circuit prescribes",
 "For every gate list, selector assignment and grouping, each combined gate constraint equals the sum over gates of the gate's constraint times its selector filter (product over the other members of its group, and the unused-selector factor when there is more than one selector), with gate constants taken after the selector columns. More constraints than declared is refused.",
 ["configurations","inputs"],"all groupings of gate lists within the bound, all selector values including in-group, out-of-group and unused",
 "Only the two grouping layouts of the test circuits are ever evaluated, and only through one opening each.",
 ["plonk/gates/evaluate_gates.go","plonk/gates/types.go","plonk/gates/vars.go"],[("computeFilter, evalFiltered, EvaluateGateConstraints","plonk/gates/evaluate_gates.go")])
p("C14","Gate identifiers are parsed to exactly the gate they name, deterministically",
 "Every identifier plonky2 emits for a supported gate yields that gate with exactly the stated parameters on every call, and an identifier that names no supported gate, an unsupported extension degree or an invalid parameter is refused rather than mapped to some gate.",
 ["inputs","schedules"],"all gate types, all parameter values in bounds, all handler iteration orders, a complete set of one-step corruptions of identifiers",
 "Tests parse only the identifiers of two circuits; map iteration order makes an ambiguous match intermittent.",
 ["plonk/gates/gates.go"],[("GateInstanceFromId and the per-gate patterns","plonk/gates/*.go")])
p("C15","The vanishing-polynomial check accepts exactly consistent openings",
 "For every configuration and all openings and challenges, the Plonk check is satisfiable exactly when, for each challenge round, the alpha-combination of permutation boundary terms, partial-product checks and filtered gate constraints equals the vanishing polynomial times the recombined quotient. No prover advice can make an inconsistent set of openings pass.",
 ["configurations","inputs","fault_sequences"],"all configurations in bounds (challenge rounds, routed wires, partial products, quotient degree, degree bits, gate sets), every single opening or challenge perturbed, all hint deviations",
 "One accepting instance of one shape is checked; no rejecting instance is tested at all.",
 ["plonk/plonk.go"],[("evalVanishingPoly, checkPartialProducts, evalL0, Verify","plonk/plonk.go")])
p("C16","FRI accepts exactly query rounds consistent with the committed openings",
 "For every configuration and query index, a FRI proof is accepted exactly when each round's initial evaluations combine with the claimed openings to the first folded value, each layer's coset contains and interpolates to the next value at the folding challenge, and the final polynomial evaluates to the last value. Every round of every query is checked, and no prover advice can make an inconsistent proof pass.",
 ["configurations","inputs","fault_sequences"],"all configurations in bounds, all query indices of the domain, every evaluation, opening, challenge and coefficient perturbed, all hint deviations",
 "One recorded proof is accepted; no rejecting proof, other degree, other number of layers or other index pattern is tested.",
 ["fri/fri.go","fri/fri_utils.go"],[("friCombineInitial, computeEvaluation, interpolate, finalPolyEval, verifyQueryRound","fri/fri.go")])
p("C17","Merkle openings are bound to their position and to the cap",
 "An opened leaf is accepted exactly when hashing its data up the path selected by the query index gives the cap entry of that index, for the initial trees and every folding layer. Any change of leaf data, sibling, cap entry in use, or position is rejected, and entries of the cap not selected by any query do not matter.",
 ["inputs","configurations"],"all leaf positions, every path level, every sibling, leaf element and cap entry, all tree heights in bounds",
 "Only accepting paths of recorded proofs are tested.",
 ["fri/fri.go"],[("verifyMerkleProofToCapWithCapIndex, verifyInitialProof","fri/fri.go")])
p("C18","The proof-of-work response must have the configured number of leading zeros",
 "For every configured difficulty the proof is accepted only if the proof-of-work response, as a 64-bit number, is smaller than 2^(64 - difficulty), and every response below that bound is accepted; no prover advice can pass a larger one.",
 ["inputs","configurations"],"all difficulties, responses at, below and above the border and wrapped values, every back end that supports the width",
 "Only the recorded responses are tested.",
 ["fri/fri.go"],[("assertLeadingZeros","fri/fri.go")])
p("C19","Non-canonical encodings of proof elements are rejected",
 "Every Goldilocks element of a proof (all openings, query evaluations, folding evaluations, final polynomial coefficients, proof-of-work witness) is rejected when given as a value outside [0, p), in particular as v+p for an otherwise valid v, for every position and configuration.",
 ["inputs","configurations"],"every element position of the proof, representatives v+p, v+2p, 2^64-border and native-wrap values",
 "No test feeds a non-canonical proof element.",
 ["verifier/verifier.go"],[("rangeCheckProof","verifier/verifier.go")])
p("C20","Proofs whose shape does not match the circuit description are refused",
 "A proof or public-input vector whose shape disagrees with the circuit description (number of openings of each kind, query rounds, oracles, leaf lengths, path lengths, folding layers, coset sizes, cap sizes, final polynomial length, number of public inputs) is refused when the verifier circuit is built, never silently truncated or padded.",
 ["inputs","configurations"],"every list of the proof shortened and lengthened by one (and emptied), configurations in bounds",
 "No test supplies a wrongly shaped proof.",
 ["fri/fri_utils.go","fri/fri.go","verifier/verifier.go"],[("validateFriProofShape and length checks","fri/fri_utils.go, fri/fri.go, verifier/verifier.go")])
p("C21","JSON proof, key and circuit data are loaded without loss or mix-up",
 "Every field of the serialized proof, public inputs, verifier key and circuit description reaches the corresponding in-memory field unchanged, in order and with full 64-bit or 254-bit precision, for all values and list lengths; circuits with hiding are refused, and so are malformed files (not JSON, truncated or with trailing data, a value of the wrong kind, a number or digest out of range, a tuple of the wrong size).",
 ["inputs"],"every field and list position with distinct values, boundary values, list lengths in bounds",
 "The tests only load files and log them; swapped or truncated fields would surface only through two proofs whose many values coincide in shape.",
 ["types/common_data.go","types/deserialize.go","variables/deserialize.go"],[("Read*, Deserialize*, UnmarshalJSON","types/*.go, variables/deserialize.go")])
p("C22","Valid proofs are accepted in every supported configuration",
 "For every supported circuit configuration, the verifier circuit is satisfied by every proof that plonky2's verification algorithm accepts, with every range-check back end; in particular for the recorded proofs.",
 ["configurations","inputs"],"all configurations in bounds (degree, folding layers, query rounds, challenge rounds, gate sets, public-input counts) with synthesized accepting proofs, plus recorded proofs",
 "Two configurations are tested.",
 ["verifier/verifier.go","plonk/plonk.go","fri/fri.go"],[("VerifierChip.Verify","verifier/verifier.go")])
p("C23","Changing any single element of a valid proof or statement is rejected",
 "If a proof is valid, then replacing any single element of the proof, the public inputs, the circuit digest or the used commitments by a different value makes the verifier circuit unsatisfiable (unless plonky2's own algorithm would still accept it).",
 ["inputs","configurations"],"every element position of synthesized and recorded proofs, several replacement values per position",
 "No test checks rejection of anything.",
 ["verifier/verifier.go","plonk/plonk.go","fri/fri.go"],[("VerifierChip.Verify","verifier/verifier.go")])
p("C24","No prover advice makes the verifier accept an invalid proof",
 "For an invalid proof, no assignment of the internal advice values satisfies the verifier circuit; for a valid proof the derived challenges do not depend on the advice.",
 ["fault_sequences","inputs","configurations"],"every hint point executed by complete verifications of small configurations, every value of the attack menu",
 "All tests run honest hints only.",
 ["goldilocks/base.go","verifier/verifier.go"],[("all hints and their constraints during verification","goldilocks/base.go and callers")])
p("C25","Circuits built in one process do not influence each other",
 "The verdict and results of building and running a circuit depend only on its own inputs: not on circuits built before, on sharing or re-creating chips for the same builder, on the order of construction, nor on spare capacity of caller-owned slices; and the caller's proof, openings and circuit description are never modified.",
 ["histories","inputs"],"all short histories of circuit constructions over several builders, all exported entry points",
 "Each test builds isolated circuits in a fixed order and never inspects its inputs afterwards.",
 ["goldilocks/base.go","fri/fri.go","plonk/gates/"],[("per-builder chip registry","goldilocks/base.go"),("opening concatenation","fri/fri.go")],state=["process-wide chip registry"])
p("C26","Concurrent circuit construction is race-free and loses no range check",
 "Building circuits from several goroutines, for the same or different builders, behaves as some sequential order: every builder has exactly one field chip, no registered range check is lost, and shared state is never accessed without synchronization.",
 ["schedules"],"all interleavings of two and three goroutines at lock and shared-access granularity within the bound",
 "Tests are sequential.",
 ["goldilocks/base.go"],[("registry mutex, collected-check mutex","goldilocks/base.go")],state=["chip registry","collected range checks"])
p("C27","Compiled R1CS and PLONK constraint systems behave like the circuit",
 "Compiling with the Groth16 (R1CS) or PLONK (SCS) builder gives a constraint system that accepts exactly the assignments on which the circuit semantics holds and that forces the same output values, for every composition of gadgets, including reuse of a result after further operations.",
 ["programs","inputs"],"all programs of gadget operations up to the length bound with reuse of earlier results, valid and wrong outputs",
 "The tests run the circuit in gnark's interpreter; in-place mutation by the R1CS builder or builder-specific constant folding is not seen.",
 ["goldilocks/base.go","poseidon/bn254.go"],[("MulAcc operand copying","goldilocks/base.go, poseidon/bn254.go")])
p("C28","An SRS file is written only from a fully verified trusted-setup transcript",
 "The trusted-setup tool writes an SRS file only if every fetched contribution from the starting index to the end of the manifest was fetched and follows its predecessor and the resulting SRS passes the polynomial-commitment check; the file then contains exactly the last contribution's points.",
 ["fault_sequences"],"every fetch position times every fault (missing, truncated, corrupted, from another ceremony, out of order)",
 "There is no test (it needs the network).",
 ["trusted_setup/trusted_setup.go"],[("DownloadAndSaveAztecIgnitionSrs","trusted_setup/trusted_setup.go")])
p("C29","The packaged verifier circuit states exactly its public inputs",
 "ExampleVerifierCircuit, compiled around a proof, has exactly the proof's public inputs, in order, as its public variables and no secret variables, and is satisfied by canonical public inputs exactly if the fixed proof is valid for them; what an assignment says about the proof, and the public-input values present when the circuit is compiled, do not matter. A circuit compiled around an invalid proof is satisfied by nothing.",
 ["inputs","configurations","programs"],"all single-element changes, exchanges and rotations of the public inputs, over instances, builders, altered templates and altered proofs",
 "Tests solve the packaged circuit once with the assignment it was built from.",
 ["verifier/verifier.go","variables/circuit.go","goldilocks/base.go"],[("ExampleVerifierCircuit.Define","verifier/verifier.go"),("gnark tags of variables","variables/*.go, goldilocks/base.go")])
p("C30","The constraint system is a function of the circuit description",
 "Building the verifier circuit (or a gate, or looking up a gate by identifier) twice gives the same sequence of builder operations and the same compiled constraint system: independent of map iteration order, goroutine order, the process, its environment, circuits built before, and the values present in the template. Proving and verifying keys can therefore be reused.",
 ["schedules","configurations","histories"],"all iteration orders that promote one alternative, and the reversed order, at every visit of every order-dependent construct; several processes, environments and templates",
 "A test runs one order per process and never compares two systems.",
 ["plonk/gates/gates.go","verifier/verifier.go","goldilocks/base.go"],[("gate lookup over a map","plonk/gates/gates.go"),("chip registry, deferred range checks","goldilocks/base.go")])
p("C31","Advice functions are pure and total",
 "Every hint function gives a result or an error for every field element it can be called with: it never panics, modifies its operands, shares memory between its results, its operands and its own state, or depends on earlier or concurrent calls. Solving a compiled circuit with an assignment that violates it therefore reports an error and never crashes the process.",
 ["inputs","histories","schedules"],"all operand tuples over the boundary alphabet and those of whole verifications; all pairs of calls; interleavings of two callers; violating assignments for every gadget and every kind of proof element",
 "Tests call hints only with honest operands through the test engine, which runs them one at a time and recovers panics.",
 ["goldilocks/base.go"],[("MulAddHint, ReduceHint, InverseHint, SplitLimbsHint","goldilocks/base.go")])
p("C32","The proving tool succeeds only with a verified proof and complete artifacts",
 "For every combination of options, the benchmark tool ends with status 0 only if the proof system is supported, the circuit in the named directory was compiled, a proof for its public inputs was produced and, whenever a verifying key exists, verified. If saving was asked for, every artifact (proving.key, witness, proof.proof, and when a verifying key exists verifying.key and proof.sol) is then completely written and they belong to one setup and one proof. The tool does succeed when the circuit is valid, the options are supported and the files can be written.",
 ["configurations","fault_sequences","histories"],"every combination of options on valid and invalid circuits, every document missing or malformed, every reference string fault, every artifact unwritable in every way and cut at every size of the bound, every history of two runs",
 "The tool has no test.",
 ["benchmark.go"],[("runBenchmark, plonkProof, groth16Proof","benchmark.go")],state=["files in the working directory"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
