# a third family of behaviour-preserving rewrites (algebraic re-expressions, the tool, loaders)
import re
def ed(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n)
    open(f,'w').write(s)
def rx(f,p,n):
    s=open(f).read(); t,k=re.subn(p,n,s,flags=re.S); assert k>0,(f,p); open(f,'w').write(t)
# the tool: a common loader, buffered writing, another order of saving
s=open('benchmark.go').read()
a='''	proofWithPis := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs("testdata/" + circuitName + "/proof_with_public_inputs.json"))
	verifierOnlyCircuitData := variables.DeserializeVerifierOnlyCircuitData(types.ReadVerifierOnlyCircuitData("testdata/" + circuitName + "/verifier_only_circuit_data.json"))
	assignment := verifier.ExampleVerifierCircuit{
		Proof:                   proofWithPis.Proof,
		PublicInputs:            proofWithPis.PublicInputs,
		VerifierOnlyCircuitData: verifierOnlyCircuitData,
	}
'''
assert s.count(a)==2
s=s.replace(a,'	assignment := loadAssignment(circuitName)\n')
s=s.replace('''		err = write(f)
''','''		buffered := bufio.NewWriter(f)
		if err = write(buffered); err == nil {
			err = buffered.Flush()
		}
''').replace('import (\n','import (\n	"bufio"\n',1)
s=s.replace('os.Exit(1)','fail()').replace('func main() {','''func fail() { os.Exit(1) }

func circuitFile(circuitName, kind string) string {
	return filepath.Join("testdata", circuitName, kind+".json")
}

func loadAssignment(circuitName string) verifier.ExampleVerifierCircuit {
	withPis := variables.DeserializeProofWithPublicInputs(types.ReadProofWithPublicInputs(circuitFile(circuitName, "proof_with_public_inputs")))
	key := types.ReadVerifierOnlyCircuitData(circuitFile(circuitName, "verifier_only_circuit_data"))
	return verifier.ExampleVerifierCircuit{
		PublicInputs:            withPis.PublicInputs,
		VerifierOnlyCircuitData: variables.DeserializeVerifierOnlyCircuitData(key),
		Proof:                   withPis.Proof,
	}
}

func main() {''').replace('	"os"\n','	"os"\n	"path/filepath"\n')
s=re.sub(r'	if proofSystem == "plonk" \{\n		plonkProof.*?\n	\}\n\}','''	switch proofSystem {
	case "groth16":
		groth16Proof(r1cs, plonky2Circuit, dummy, saveArtifacts)
	case "plonk":
		plonkProof(r1cs, plonky2Circuit, dummy, saveArtifacts)
	}
}''',s,count=1,flags=re.S)
open('benchmark.go','w').write(s)
# field: other expressions of the same constraints
ed('goldilocks/base.go',
('''	p.api.AssertIsEqual(
		p.api.Select(
			shouldCheck,
			leastSigLimb,
			frontend.Variable(0),
		),
		frontend.Variable(0),
	)
''','''	p.api.AssertIsEqual(p.api.Mul(shouldCheck, leastSigLimb), 0)
'''),
('''	productToCheck := p.api.Select(hasInv, product.Limb, frontend.Variable(1))
	p.api.AssertIsEqual(productToCheck, frontend.Variable(1))
''','''	p.api.AssertIsEqual(p.api.Mul(hasInv, p.api.Sub(product.Limb, 1)), 0)
'''),
('''	quotient := new(big.Int).Div(sum, MODULUS)
	remainder := new(big.Int).Rem(sum, MODULUS)

	results[0] = quotient
	results[1] = remainder
''','''	results[0].QuoRem(sum, MODULUS, results[1])
'''),
('''	cLimbCopy := p.api.Mul(c.Limb, 1)
	lhs := p.api.MulAcc(cLimbCopy, a.Limb, b.Limb)
	rhs := p.api.MulAcc(remainder.Limb, MODULUS, quotient.Limb)
''','''	lhs := p.api.Add(c.Limb, p.api.Mul(a.Limb, b.Limb))
	rhs := p.api.Add(p.api.Mul(quotient.Limb, MODULUS), remainder.Limb)
'''),
('''	return p.MulAdd(b, NegOne(), a)
''','''	minusB := p.api.Sub(0, b.Limb)
	_ = minusB
	return p.MulAdd(NegOne(), b, a)
'''),
)
ed('goldilocks/quadratic_extension.go',
('''		sum = p.AddExtensionNoReduce(
			p.MulExtensionNoReduce(
				sum,
				scalar,
			),
			terms[i],
		)
		sum = p.ReduceExtension(sum)
''','''		sum = p.MulAddExtension(scalar, sum, terms[i])
'''),
('''	c0 := p.api.Select(b, y[0].Limb, x[0].Limb)
	c1 := p.api.Select(b, y[1].Limb, x[1].Limb)
''','''	pick := func(i int) frontend.Variable { return p.api.Select(b, y[i].Limb, x[i].Limb) }
	c1 := pick(1)
	c0 := pick(0)
'''),
('''	x0IsZero := p.api.IsZero(x[0].Limb)
	x1IsZero := p.api.IsZero(x[1].Limb)
	return p.api.Mul(x0IsZero, x1IsZero)
''','''	return p.api.And(p.api.IsZero(x[1].Limb), p.api.IsZero(x[0].Limb))
'''),
)
# fri: selection instead of arithmetised multiplication
ed('fri/fri.go',
('''		basePowVariable := gl.NewVariable(basePow.Uint64() - 1)
		product = f.gl.Add(
			f.gl.Mul(
				f.gl.Mul(
					basePowVariable,
					product,
				),
				gl.NewVariable(bit),
			),
			product,
		)
''','''		factor := gl.NewVariable(f.api.Select(bit, basePow.Uint64(), 1))
		product = f.gl.Mul(factor, product)
'''),
('''		inputs[2] = f.api.Select(bit, sibling, currentDigest)
		inputs[3] = f.api.Select(bit, currentDigest, sibling)
		state := f.poseidonBN254Chip.Poseidon(inputs)

		currentDigest = state[0]
''','''		inputs[2] = f.api.Select(bit, sibling, currentDigest)
		inputs[3] = f.api.Sub(f.api.Add(sibling, currentDigest), inputs[2])
		currentDigest = f.poseidonBN254Chip.TwoToOne(inputs[2], inputs[3])
'''),
('''	for i := 0; i < len(xPoints); i++ {
		lookupVal = f.gl.Lookup(
''','''	for i := len(xPoints) - 1; i >= 0; i-- {
		lookupVal = f.gl.Lookup(
'''),
)
# gates and plonk
ed('plonk/gates/evaluate_gates.go',
('''	for i := range unfiltered {
		unfiltered[i] = glApi.MulExtension(unfiltered[i], filter)
	}
	return unfiltered
''','''	filtered := make([]gl.QuadraticExtensionVariable, 0, len(unfiltered))
	for _, u := range unfiltered {
		filtered = append(filtered, glApi.MulExtension(filter, u))
	}
	return filtered
'''),
)
ed('plonk/plonk.go',
('''			reducedValues[j] = glApi.AddExtension(
				vanishingTerms[i],
				glApi.ScalarMulExtension(
					reducedValues[j],
					proofChallenges.PlonkAlphas[j],
				),
			)
''','''			reducedValues[j] = glApi.MulAddExtension(
				reducedValues[j],
				proofChallenges.PlonkAlphas[j].ToQuadraticExtension(),
				vanishingTerms[i],
			)
'''),
('''	for i := uint64(0); i < p.commonData.DegreeBits; i++ {
		x = glApi.MulExtension(x, x)
	}
	return x
''','''	return glApi.ExpExtension(x, 1<<p.commonData.DegreeBits)
'''),
)
# verifier: range checks after the challenges
ed('verifier/verifier.go',
('''	c.rangeCheckProof(proof)

''',''),
('''	c.plonkChip.Verify(proofChallenges,''','''	defer c.rangeCheckProof(proof)

	c.plonkChip.Verify(proofChallenges,'''),
)
# challenger: chips kept, buffers cut instead of reallocated
ed('challenger/challenger.go',
('''	c.outputBuffer = make([]gl.Variable, 0)
	for i := 0; i < poseidon.SPONGE_RATE; i++ {
		c.outputBuffer = append(c.outputBuffer, c.spongeState[i])
	}
''','''	out := append([]gl.Variable(nil), c.spongeState[:poseidon.SPONGE_RATE]...)
	c.outputBuffer = out
'''),
)
