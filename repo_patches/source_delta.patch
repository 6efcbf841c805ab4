From beaddb031cc67cce717cc5ee569fe3c31a09ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:50 +0000
Subject: [PATCH 01/12] fix: perform range checks when the builder has a native
 range checker

A Go switch case does not fall through, so with a builder that implements
frontend.Rangechecker every range check was silently dropped.
---
 goldilocks/base.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index ed63eb6..3433e48 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -410,8 +410,7 @@ func (p *Chip) AssertIsEqual(x, y Variable) {
 
 func (p *Chip) rangeCheckerCheck(x frontend.Variable, nbBits int) {
 	switch p.rangeCheckerType {
-	case NATIVE_RANGE_CHECKER:
-	case BIT_DECOMP_RANGE_CHECKER:
+	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
 		p.rangeChecker.Check(x, nbBits)
 	case COMMIT_RANGE_CHECKER:
 		p.collectedMutex.Lock()
-- 
2.43.0


From 330741661c093a150a079727068dd0410e49a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:55 +0000
Subject: [PATCH 02/12] fix: bound the quotient in the Poseidon S-box so that
 it cannot wrap the native field

With a 192 bit quotient, quotient * MODULUS + remainder reaches 2^256, which
is larger than the BN254 scalar field, so the prover could pick another
remainder for the same value.
---
 goldilocks/base.go     | 6 ++++++
 poseidon/goldilocks.go | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index 3433e48..dd51ee3 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -263,6 +263,12 @@ func (p *Chip) ReduceWithMaxBits(x Variable, maxNbBits uint64) Variable {
 	//
 	// Must check that remainder \in [0, MODULUS) and quotient \in [0, 2^maxNbBits) to ensure that this
 	// computation does not overflow.
+	//
+	// MODULUS * quotient + remainder itself must not wrap around the native field, otherwise the
+	// decomposition is not unique.
+	if int(maxNbBits)+MODULUS.BitLen() >= p.api.Compiler().FieldBitLen() {
+		panic("maxNbBits is too large for the native field")
+	}
 
 	result, err := p.api.Compiler().NewHint(ReduceHint, 2, x.Limb)
 	if err != nil {
diff --git a/poseidon/goldilocks.go b/poseidon/goldilocks.go
index 93e1ebe..61cf896 100644
--- a/poseidon/goldilocks.go
+++ b/poseidon/goldilocks.go
@@ -138,10 +138,12 @@ func (c *GoldilocksChip) ConstantLayerExtension(state GoldilocksStateExtension,
 func (c *GoldilocksChip) sBoxMonomial(x gl.Variable) gl.Variable {
 	x2 := c.gl.MulNoReduce(x, x)
 	x3 := c.gl.MulNoReduce(x, x2)
-	x3 = c.gl.ReduceWithMaxBits(x3, 192)
+	// x^3 < 2^192, so the quotient has at most 128 bits (and must be constrained to be small enough for
+	// the reduction to not wrap around the native field).
+	x3 = c.gl.ReduceWithMaxBits(x3, 128)
 	x6 := c.gl.MulNoReduce(x3, x3)
 	x7 := c.gl.MulNoReduce(x, x6)
-	return c.gl.ReduceWithMaxBits(x7, 192)
+	return c.gl.ReduceWithMaxBits(x7, 128)
 }
 
 func (c *GoldilocksChip) SBoxMonomialExtension(x gl.QuadraticExtensionVariable) gl.QuadraticExtensionVariable {
-- 
2.43.0


From 6e78a3a334c6766dc2bcb19963baa2e987ca06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 03/12] fix: refuse a public input vector of the wrong length

The public inputs are hashed without padding, so vectors of different
lengths can have the same hash.
---
 verifier/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verifier/verifier.go b/verifier/verifier.go
index 0d47f23..960e679 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -145,6 +145,11 @@ func (c *VerifierChip) Verify(
 	publicInputs []gl.Variable,
 	verifierData variables.VerifierOnlyCircuitData,
 ) {
+	// The public inputs are hashed without padding, so their number must be fixed by the circuit.
+	if uint64(len(publicInputs)) != c.commonData.NumPublicInputs {
+		panic("Number of public inputs does not match the circuit.")
+	}
+
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 4adda71356a8a2df3f2d9aef8bfcd556705a340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 04/12] fix: do not write into the caller's openings in
 ToOpenings

Appending to the slice of constants overwrites whatever follows it in its
backing array when it has spare capacity.
---
 fri/fri.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fri/fri.go b/fri/fri.go
index 2e37f0f..840acee 100644
--- a/fri/fri.go
+++ b/fri/fri.go
@@ -61,7 +61,8 @@ func (f *Chip) GetInstance(zeta gl.QuadraticExtensionVariable) InstanceInfo {
 }
 
 func (f *Chip) ToOpenings(c variables.OpeningSet) Openings {
-	values := c.Constants                         // num_constants + 1
+	values := []gl.QuadraticExtensionVariable{}   // must not share the caller's backing array
+	values = append(values, c.Constants...)       // num_constants + 1
 	values = append(values, c.PlonkSigmas...)     // num_routed_wires
 	values = append(values, c.Wires...)           // num_wires
 	values = append(values, c.PlonkZs...)         // num_challenges
-- 
2.43.0


From 94d0a2afeab0ae17a1259586fd922903fd2ed2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 05/12] fix: refuse a FRI proof with a surplus of folding
 commitments

---
 fri/fri_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fri/fri_utils.go b/fri/fri_utils.go
index fe3b5a6..18d5bf9 100644
--- a/fri/fri_utils.go
+++ b/fri/fri_utils.go
@@ -171,6 +171,10 @@ func validateFriProofShape(proof *variables.FriProof, instance InstanceInfo, par
 	queryRoundProofs := proof.QueryRoundProofs
 	finalPoly := proof.FinalPoly
 
+	if len(commitPhaseMerkleCaps) != len(params.ReductionArityBits) {
+		panic("length of commit_phase_merkle_caps != params.reduction_arity_bits")
+	}
+
 	capHeight := params.Config.CapHeight
 	for _, cap := range commitPhaseMerkleCaps {
 		if 1<<capHeight != len(cap) {
-- 
2.43.0


From 814cd57bb5a5e05797afcd8a8df6cb6f98e03cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:26 +0000
Subject: [PATCH 06/12] fix: match gate identifiers in full

---
 plonk/gates/gates.go             | 3 ++-
 plonk/gates/poseidon_gate.go     | 2 +-
 plonk/gates/poseidon_mds_gate.go | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/plonk/gates/gates.go b/plonk/gates/gates.go
index fc76580..d593938 100644
--- a/plonk/gates/gates.go
+++ b/plonk/gates/gates.go
@@ -37,7 +37,8 @@ var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Ga
 func GateInstanceFromId(gateId string) Gate {
 	for regex, handler := range gateRegexHandlers {
 		matches := regex.FindStringSubmatch(gateId)
-		if matches != nil {
+		// The whole identifier has to match, not just a part of it.
+		if matches != nil && matches[0] == gateId {
 			parameters := make(map[string]string)
 			for i, name := range regex.SubexpNames() {
 				if i != 0 && name != "" {
diff --git a/plonk/gates/poseidon_gate.go b/plonk/gates/poseidon_gate.go
index 2d3dbe4..f74b619 100644
--- a/plonk/gates/poseidon_gate.go
+++ b/plonk/gates/poseidon_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonGateRegex = regexp.MustCompile("PoseidonGate.*")
+var poseidonGateRegex = regexp.MustCompile(`PoseidonGate\(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>\)<WIDTH=12>`)
 
 func deserializePoseidonGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
diff --git a/plonk/gates/poseidon_mds_gate.go b/plonk/gates/poseidon_mds_gate.go
index 48cf20e..6491ebb 100644
--- a/plonk/gates/poseidon_mds_gate.go
+++ b/plonk/gates/poseidon_mds_gate.go
@@ -8,7 +8,7 @@ import (
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 )
 
-var poseidonMdsGateRegex = regexp.MustCompile("PoseidonMdsGate.*")
+var poseidonMdsGateRegex = regexp.MustCompile(`PoseidonMdsGate\(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>\)<WIDTH=12>`)
 
 func deserializePoseidonMdsGate(parameters map[string]string) Gate {
 	// Has the format "PoseidonMdsGate(PhantomData<plonky2_field::goldilocks_field::GoldilocksField>)<WIDTH=12>"
-- 
2.43.0


From a970c67868fd82c49383f25d84d72e48f5a14c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 07/12] fix: refuse openings whose shape does not match the
 circuit

---
 verifier/verifier.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/verifier/verifier.go b/verifier/verifier.go
index 960e679..05f5e8c 100644
--- a/verifier/verifier.go
+++ b/verifier/verifier.go
@@ -140,6 +140,20 @@ func (c *VerifierChip) rangeCheckProof(proof variables.Proof) {
 	c.glChip.RangeCheck(proof.OpeningProof.PowWitness)
 }
 
+// This does not add any constraints, it is just a sanity check on the shape of the openings.
+func (c *VerifierChip) validateOpeningsShape(openings variables.OpeningSet) {
+	numChallenges := c.commonData.Config.NumChallenges
+	if uint64(len(openings.Constants)) != c.commonData.NumConstants ||
+		uint64(len(openings.PlonkSigmas)) != c.commonData.Config.NumRoutedWires ||
+		uint64(len(openings.Wires)) != c.commonData.Config.NumWires ||
+		uint64(len(openings.PlonkZs)) != numChallenges ||
+		uint64(len(openings.PlonkZsNext)) != numChallenges ||
+		uint64(len(openings.PartialProducts)) != numChallenges*c.commonData.NumPartialProducts ||
+		uint64(len(openings.QuotientPolys)) != numChallenges*c.commonData.QuotientDegreeFactor {
+		panic("Shape of the openings does not match the circuit.")
+	}
+}
+
 func (c *VerifierChip) Verify(
 	proof variables.Proof,
 	publicInputs []gl.Variable,
@@ -150,6 +164,8 @@ func (c *VerifierChip) Verify(
 		panic("Number of public inputs does not match the circuit.")
 	}
 
+	c.validateOpeningsShape(proof.Openings)
+
 	c.rangeCheckProof(proof)
 
 	// Generate the parts of the witness that is for the plonky2 proof input
-- 
2.43.0


From 0cc24c525019df06546dc3aaa02e18a702d18681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 08/12] fix: refuse malformed digests, extension elements and
 evaluation proofs when loading

---
 goldilocks/utils.go      |  3 +++
 types/deserialize.go     | 10 +++++++++-
 variables/deserialize.go | 22 ++++++++++++++--------
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/goldilocks/utils.go b/goldilocks/utils.go
index 3440c7f..e4dd9af 100644
--- a/goldilocks/utils.go
+++ b/goldilocks/utils.go
@@ -40,6 +40,9 @@ func Uint64ArrayToQuadraticExtension(input []uint64) QuadraticExtensionVariable
 func Uint64ArrayToQuadraticExtensionArray(input [][]uint64) []QuadraticExtensionVariable {
 	var output []QuadraticExtensionVariable
 	for i := 0; i < len(input); i++ {
+		if len(input[i]) != 2 {
+			panic("a quadratic extension element must have two coefficients")
+		}
 		output = append(output, NewQuadraticExtensionVariable(NewVariable(input[i][0]), NewVariable(input[i][1])))
 	}
 	return output
diff --git a/types/deserialize.go b/types/deserialize.go
index 4a8780b..4463b42 100644
--- a/types/deserialize.go
+++ b/types/deserialize.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"os"
 )
@@ -48,7 +49,14 @@ type EvalProofRaw struct {
 }
 
 func (e *EvalProofRaw) UnmarshalJSON(data []byte) error {
-	return json.Unmarshal(data, &[]interface{}{&e.LeafElements, &e.MerkleProof})
+	fields := []interface{}{&e.LeafElements, &e.MerkleProof}
+	if err := json.Unmarshal(data, &fields); err != nil {
+		return err
+	}
+	if len(fields) != 2 {
+		return fmt.Errorf("an evaluation proof must have two fields, got %d", len(fields))
+	}
+	return nil
 }
 
 type MerkleProofRaw struct {
diff --git a/variables/deserialize.go b/variables/deserialize.go
index 33acaf3..2690e1b 100644
--- a/variables/deserialize.go
+++ b/variables/deserialize.go
@@ -1,20 +1,30 @@
 package variables
 
 import (
+	"fmt"
 	"math/big"
 
+	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark/frontend"
 	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
 	"github.com/succinctlabs/gnark-plonky2-verifier/poseidon"
 	"github.com/succinctlabs/gnark-plonky2-verifier/types"
 )
 
+// Parses the decimal representation of a BN254 scalar field element.
+func parseBN254Hash(raw string) poseidon.BN254HashOut {
+	value, ok := new(big.Int).SetString(raw, 10)
+	if !ok || value.Sign() < 0 || value.Cmp(ecc.BN254.ScalarField()) >= 0 {
+		panic(fmt.Sprintf("%q is not a BN254 scalar field element", raw))
+	}
+	return frontend.Variable(value)
+}
+
 func DeserializeMerkleCap(merkleCapRaw []string) FriMerkleCap {
 	n := len(merkleCapRaw)
 	merkleCap := make([]poseidon.BN254HashOut, n)
 	for i := 0; i < n; i++ {
-		capBigInt, _ := new(big.Int).SetString(merkleCapRaw[i], 10)
-		merkleCap[i] = frontend.Variable(capBigInt)
+		merkleCap[i] = parseBN254Hash(merkleCapRaw[i])
 	}
 	return merkleCap
 }
@@ -54,9 +64,7 @@ func StringArrayToHashBN254Array(rawHashes []string) []poseidon.BN254HashOut {
 	hashes := []poseidon.BN254HashOut{}
 
 	for i := 0; i < len(rawHashes); i++ {
-		hashBigInt, _ := new(big.Int).SetString(rawHashes[i], 10)
-		hashVar := frontend.Variable(hashBigInt)
-		hashes = append(hashes, poseidon.BN254HashOut(hashVar))
+		hashes = append(hashes, parseBN254Hash(rawHashes[i]))
 	}
 
 	return hashes
@@ -149,8 +157,6 @@ func DeserializeProofWithPublicInputs(raw types.ProofWithPublicInputsRaw) ProofW
 func DeserializeVerifierOnlyCircuitData(raw types.VerifierOnlyCircuitDataRaw) VerifierOnlyCircuitData {
 	var verifierOnlyCircuitData VerifierOnlyCircuitData
 	verifierOnlyCircuitData.ConstantSigmasCap = DeserializeMerkleCap(raw.ConstantsSigmasCap)
-	circuitDigestBigInt, _ := new(big.Int).SetString(raw.CircuitDigest, 10)
-	circuitDigestVar := frontend.Variable(circuitDigestBigInt)
-	verifierOnlyCircuitData.CircuitDigest = poseidon.BN254HashOut(circuitDigestVar)
+	verifierOnlyCircuitData.CircuitDigest = parseBN254Hash(raw.CircuitDigest)
 	return verifierOnlyCircuitData
 }
-- 
2.43.0


From 8923b395620af04f1db38bac688571694bdcfb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 09/12] fix: allow a last partial-product chunk shorter than
 the quotient degree factor

---
 plonk/plonk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/plonk.go b/plonk/plonk.go
index ac2348c..962ef2b 100644
--- a/plonk/plonk.go
+++ b/plonk/plonk.go
@@ -103,7 +103,8 @@ func (p *PlonkChip) checkPartialProducts(
 		ppStartIdx := i * quotDegreeFactor
 		numeProduct := numerators[ppStartIdx]
 		denoProduct := denominators[ppStartIdx]
-		for j := uint64(1); j < quotDegreeFactor; j++ {
+		// The last chunk is shorter when quotDegreeFactor does not divide the number of routed wires.
+		for j := uint64(1); j < quotDegreeFactor && ppStartIdx+j < uint64(len(numerators)); j++ {
 			numeProduct = glApi.MulExtension(numeProduct, numerators[ppStartIdx+j])
 			denoProduct = glApi.MulExtension(denoProduct, denominators[ppStartIdx+j])
 		}
-- 
2.43.0


From a2e1d0ed0579fe8985f06977c2570722764579e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:22 +0000
Subject: [PATCH 10/12] fix: hint functions return an error instead of
 panicking on operands outside the field

---
 goldilocks/base.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/goldilocks/base.go b/goldilocks/base.go
index dd51ee3..ca02580 100644
--- a/goldilocks/base.go
+++ b/goldilocks/base.go
@@ -222,12 +222,12 @@ func (p *Chip) MulAddNoReduce(a Variable, b Variable, c Variable) Variable {
 // The hint used to compute MulAdd.
 func MulAddHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	if len(inputs) != 3 {
-		panic("MulAddHint expects 3 input operands")
+		return fmt.Errorf("MulAddHint expects 3 input operands")
 	}
 
 	for _, operand := range inputs {
 		if operand.Cmp(MODULUS) >= 0 {
-			panic(fmt.Sprintf("%s is not in the field", operand.String()))
+			return fmt.Errorf("%s is not in the field", operand.String())
 		}
 	}
 
@@ -289,7 +289,7 @@ func (p *Chip) ReduceWithMaxBits(x Variable, maxNbBits uint64) Variable {
 // The hint used to compute Reduce.
 func ReduceHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	if len(inputs) != 1 {
-		panic("ReduceHint expects 1 input operand")
+		return fmt.Errorf("ReduceHint expects 1 input operand")
 	}
 	input := inputs[0]
 	quotient := new(big.Int).Div(input, MODULUS)
@@ -321,12 +321,12 @@ func (p *Chip) Inverse(x Variable) (Variable, frontend.Variable) {
 // The hint used to compute Inverse.
 func InverseHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	if len(inputs) != 1 {
-		panic("InverseHint expects 1 input operand")
+		return fmt.Errorf("InverseHint expects 1 input operand")
 	}
 
 	input := inputs[0]
 	if input.Cmp(MODULUS) == 0 || input.Cmp(MODULUS) == 1 {
-		panic("Input is not in the field")
+		return fmt.Errorf("input is not in the field")
 	}
 
 	inputGl := goldilocks.NewElement(input.Uint64())
@@ -344,7 +344,7 @@ func InverseHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 // The hint used to split a GoldilocksVariable into 2 32 bit limbs.
 func SplitLimbsHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 	if len(inputs) != 1 {
-		panic("SplitLimbsHint expects 1 input operand")
+		return fmt.Errorf("SplitLimbsHint expects 1 input operand")
 	}
 
 	// The Goldilocks field element
-- 
2.43.0


From abab77a325bd0166ad26de87a800a0490737d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/12] fix: export the Solidity verifier only when there is a
 verifying key

---
 benchmark.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 1c7e862..40d716d 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -230,10 +230,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 			fVK, _ := os.Create("verifying.key")
 			vk.WriteTo(fVK)
 			fVK.Close()
-		}
 
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
+			fSolidity, _ := os.Create("proof.sol")
+			err = vk.ExportSolidity(fSolidity)
+		}
 	}
 
 	fmt.Println("Generating witness", time.Now())
-- 
2.43.0


From 2ff2706cfcade1fe00181dcf1a7cde41e070b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 12/12] fix: a run whose artifacts cannot be written completely
 has failed

---
 benchmark.go | 79 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/benchmark.go b/benchmark.go
index 40d716d..eb767a1 100644
--- a/benchmark.go
+++ b/benchmark.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"flag"
 	"fmt"
+	"io"
 	"math/big"
 	"os"
 	"time"
@@ -77,6 +78,22 @@ func runBenchmark(plonky2Circuit string, proofSystem string, profileCircuit bool
 	}
 }
 
+// saveArtifact writes an artifact to the named file, and ends the run if the file
+// cannot be written completely.
+func saveArtifact(name string, write func(w io.Writer) error) {
+	f, err := os.Create(name)
+	if err == nil {
+		err = write(f)
+		if errClose := f.Close(); err == nil {
+			err = errClose
+		}
+	}
+	if err != nil {
+		fmt.Println("error in saving", name, err)
+		os.Exit(1)
+	}
+}
+
 func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool, saveArtifacts bool) {
 	var pk plonk.ProvingKey
 	var vk plonk.VerifyingKey
@@ -135,27 +152,29 @@ func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool
 	}
 
 	if saveArtifacts {
-		fPK, _ := os.Create("proving.key")
-		pk.WriteTo(fPK)
-		fPK.Close()
+		saveArtifact("proving.key", func(w io.Writer) error {
+			_, err := pk.WriteTo(w)
+			return err
+		})
 
 		if vk != nil {
-			fVK, _ := os.Create("verifying.key")
-			vk.WriteTo(fVK)
-			fVK.Close()
+			saveArtifact("verifying.key", func(w io.Writer) error {
+				_, err := vk.WriteTo(w)
+				return err
+			})
 		}
 
-		fSolidity, _ := os.Create("proof.sol")
-		err = vk.ExportSolidity(fSolidity)
+		saveArtifact("proof.sol", vk.ExportSolidity)
 	}
 
 	fmt.Println("Generating witness", time.Now())
 	witness, _ := frontend.NewWitness(&assignment, ecc.BN254.ScalarField())
 	publicWitness, _ := witness.Public()
 	if saveArtifacts {
-		fWitness, _ := os.Create("witness")
-		witness.WriteTo(fWitness)
-		fWitness.Close()
+		saveArtifact("witness", func(w io.Writer) error {
+			_, err := witness.WriteTo(w)
+			return err
+		})
 	}
 
 	fmt.Println("Creating proof", time.Now())
@@ -165,9 +184,10 @@ func plonkProof(r1cs constraint.ConstraintSystem, circuitName string, dummy bool
 		os.Exit(1)
 	}
 	if saveArtifacts {
-		fProof, _ := os.Create("proof.proof")
-		proof.WriteTo(fProof)
-		fProof.Close()
+		saveArtifact("proof.proof", func(w io.Writer) error {
+			_, err := proof.WriteTo(w)
+			return err
+		})
 	}
 
 	if vk == nil {
@@ -222,17 +242,18 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 	}
 
 	if saveArtifacts {
-		fPK, _ := os.Create("proving.key")
-		pk.WriteTo(fPK)
-		fPK.Close()
+		saveArtifact("proving.key", func(w io.Writer) error {
+			_, err := pk.WriteTo(w)
+			return err
+		})
 
 		if vk != nil {
-			fVK, _ := os.Create("verifying.key")
-			vk.WriteTo(fVK)
-			fVK.Close()
+			saveArtifact("verifying.key", func(w io.Writer) error {
+				_, err := vk.WriteTo(w)
+				return err
+			})
 
-			fSolidity, _ := os.Create("proof.sol")
-			err = vk.ExportSolidity(fSolidity)
+			saveArtifact("proof.sol", vk.ExportSolidity)
 		}
 	}
 
@@ -240,9 +261,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 	witness, _ := frontend.NewWitness(&assignment, ecc.BN254.ScalarField())
 	publicWitness, _ := witness.Public()
 	if saveArtifacts {
-		fWitness, _ := os.Create("witness")
-		witness.WriteTo(fWitness)
-		fWitness.Close()
+		saveArtifact("witness", func(w io.Writer) error {
+			_, err := witness.WriteTo(w)
+			return err
+		})
 	}
 
 	fmt.Println("Creating proof", time.Now())
@@ -252,9 +274,10 @@ func groth16Proof(r1cs constraint.ConstraintSystem, circuitName string, dummy bo
 		os.Exit(1)
 	}
 	if saveArtifacts {
-		fProof, _ := os.Create("proof.proof")
-		proof.WriteTo(fProof)
-		fProof.Close()
+		saveArtifact("proof.proof", func(w io.Writer) error {
+			_, err := proof.WriteTo(w)
+			return err
+		})
 	}
 
 	if vk == nil {
-- 
2.43.0

