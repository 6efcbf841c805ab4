# behaviour-preserving rewrites, applied in a scratch copy (cwd): the checks must stay quiet
import re
def ed(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n)
    open(f,'w').write(s)
ed('goldilocks/base.go',
 ('poseidonChips','chipsByAPI'),('	mutex         sync.Mutex','	registryLock  sync.RWMutex'),
 ('	mutex.Lock()\n	defer mutex.Unlock()\n\n	if chip, ok := chipsByAPI[api]; ok {\n		return chip\n	}\n\n	c := &Chip{api: api}\n',
  '	registryLock.Lock()\n	defer registryLock.Unlock()\n\n	c, known := chipsByAPI[api]\n	if !known {\n		c = newChip(api)\n		chipsByAPI[api] = c\n	}\n	return c\n}\n\nfunc newChip(api frontend.API) *Chip {\n	c := &Chip{api: api}\n'),
 ('	chipsByAPI[api] = c\n\n	return c\n','	return c\n'),
 ('rangeCheckCollected','pendingChecks'),('collectedMutex','pendingLock'),
 ('''	switch p.rangeCheckerType {
	case NATIVE_RANGE_CHECKER, BIT_DECOMP_RANGE_CHECKER:
		p.rangeChecker.Check(x, nbBits)
	case COMMIT_RANGE_CHECKER:
		p.pendingLock.Lock()
		defer p.pendingLock.Unlock()
		p.pendingChecks = append(p.pendingChecks, checkedVariable{v: x, bits: nbBits})
	}
''','''	if p.rangeCheckerType != COMMIT_RANGE_CHECKER {
		p.rangeChecker.Check(x, nbBits)
		return
	}
	entry := checkedVariable{v: x, bits: nbBits}
	p.pendingLock.Lock()
	p.pendingChecks = append(p.pendingChecks, entry)
	p.pendingLock.Unlock()
'''),
 ('''	lhs := p.api.MulAcc(cLimbCopy, a.Limb, b.Limb)
	rhs := p.api.MulAcc(remainder.Limb, MODULUS, quotient.Limb)
	p.api.AssertIsEqual(lhs, rhs)

	p.RangeCheck(quotient)
	p.RangeCheck(remainder)
''','''	p.RangeCheck(remainder)
	p.RangeCheck(quotient)

	rhs := p.api.Add(remainder.Limb, p.api.Mul(quotient.Limb, MODULUS))
	lhs := p.api.MulAcc(cLimbCopy, b.Limb, a.Limb)
	p.api.AssertIsEqual(rhs, lhs)
'''),
 ('uint64(math.Pow(2, 32))-1','uint64(1<<32-1)'),
 ('''	for i := 0; i < int(TWO_ADICITY-nLog); i++ {
		res.Square(&res)
	}
''','''	for squarings := TWO_ADICITY - nLog; squarings > 0; squarings-- {
		res.Mul(&res, &res)
	}
'''),
 ('''	for i := 0; i < (1<<nLog)-1; i++ {
		lastElement := res[len(res)-1]
		res = append(res, *lastElement.Mul(&lastElement, &rootOfUnity))
	}
''','''	for len(res) < 1<<nLog {
		var next goldilocks.Element
		next.Mul(&res[len(res)-1], &rootOfUnity)
		res = append(res, next)
	}
'''),
 ('''	product := new(big.Int).Mul(inputs[0], inputs[1])
	sum := new(big.Int).Add(product, inputs[2])
	quotient := new(big.Int).Div(sum, MODULUS)
	remainder := new(big.Int).Rem(sum, MODULUS)

	results[0] = quotient
	results[1] = remainder
''','''	sum := new(big.Int).Mul(inputs[0], inputs[1])
	sum.Add(sum, inputs[2])
	results[0].QuoRem(sum, MODULUS, results[1])
'''),
)
ed('plonk/plonk.go',
 ('''	for i := uint64(0); i < p.commonData.DegreeBits; i++ {
		x = glApi.MulExtension(x, x)
	}
	return x
''','''	for remaining := p.commonData.DegreeBits; remaining != 0; remaining-- {
		x = glApi.MulExtension(x, x)
	}
	return x
'''),
 ('''	for i := len(vanishingTerms) - 1; i >= 0; i-- {
		for j := uint64(0); j < p.commonData.Config.NumChallenges; j++ {
			reducedValues[j] =''','''	for j := range reducedValues {
		for i := len(vanishingTerms) - 1; i >= 0; i-- {
			reducedValues[j] ='''),
 ('''			// The numerator is `beta''','''			beta := gl.NewQuadraticExtensionVariable(proofChallenges.PlonkBetas[i], gl.Zero())
			// The numerator is `beta'''),
 ('''				glApi.MulExtension(
					gl.NewQuadraticExtensionVariable(proofChallenges.PlonkBetas[i], gl.Zero()),
					openings.PlonkSigmas[j],
				),
				wireValuePlusGamma,
''','''				wireValuePlusGamma,
				glApi.MulExtension(openings.PlonkSigmas[j], beta),
'''),
 ('''	createdGates := []gates.Gate{}
	for _, gateId := range commonData.GateIds {
		createdGates = append(createdGates, gates.GateInstanceFromId(gateId))
	}
''','''	createdGates := instantiate(commonData.GateIds)
'''),
 ('func NewPlonkChip(','''func instantiate(ids []string) []gates.Gate {
	instances := make([]gates.Gate, len(ids))
	for i := len(ids) - 1; i >= 0; i-- {
		instances[i] = gates.GateInstanceFromId(ids[i])
	}
	return instances
}

func NewPlonkChip('''),
)
ed('fri/fri.go',
 ('''	for i := len(xIndexBits) - 1; i >= 0; i-- {
		xIndexBitsRev = append(xIndexBitsRev, xIndexBits[i])
	}
''','''	for i := range xIndexBits {
		xIndexBitsRev = append(xIndexBitsRev, xIndexBits[len(xIndexBits)-1-i])
	}
'''),
 ('''	values := []gl.QuadraticExtensionVariable{}   // must not share the caller's backing array
	values = append(values, c.Constants...)       // num_constants + 1
	values = append(values, c.PlonkSigmas...)     // num_routed_wires
	values = append(values, c.Wires...)           // num_wires
	values = append(values, c.PlonkZs...)         // num_challenges
	values = append(values, c.PartialProducts...) // num_challenges * num_partial_products
	values = append(values, c.QuotientPolys...)   // num_challenges * quotient_degree_factor
''','''	values := []gl.QuadraticExtensionVariable{}
	for _, part := range [][]gl.QuadraticExtensionVariable{c.Constants, c.PlonkSigmas, c.Wires, c.PlonkZs, c.PartialProducts, c.QuotientPolys} {
		values = append(values, part...)
	}
'''),
 ('''		var inputs poseidon.BN254State
		inputs[0] = frontend.Variable(0)
		inputs[1] = frontend.Variable(0)
		inputs[2] = f.api.Select(bit, sibling, currentDigest)
		inputs[3] = f.api.Select(bit, currentDigest, sibling)
		state := f.poseidonBN254Chip.Poseidon(inputs)

		currentDigest = state[0]
''','''		left := f.api.Select(bit, sibling, currentDigest)
		right := f.api.Sub(f.api.Add(sibling, currentDigest), left)
		currentDigest = f.poseidonBN254Chip.TwoToOne(left, right)
'''),
 ('''	for i := len(finalPoly.Coeffs) - 1; i >= 0; i-- {
		ret = f.gl.MulAddExtension(ret, point, finalPoly.Coeffs[i])
	}
	return ret
''','''	return f.gl.ReduceWithPowers(finalPoly.Coeffs, point)
'''),('	ret := gl.ZeroExtension()\n',''),
 ('''	f.gl.AssertIsEqual(oldEval[0], finalPolyEval[0])
	f.gl.AssertIsEqual(oldEval[1], finalPolyEval[1])
''','''	f.gl.AssertIsEqualExtension(finalPolyEval, oldEval)
'''),
 ('''	const NUM_LEAF_LOOKUPS = 4
	// Each''','''	entry := frontend.Variable(0)
	for k := range merkleCap {
		selected := frontend.Variable(1)
		for b, bit := range capIndexBits {
			if k>>b&1 == 1 {
				selected = f.api.Mul(selected, bit)
			} else {
				selected = f.api.Mul(selected, f.api.Sub(1, bit))
			}
		}
		entry = f.api.Add(entry, f.api.Mul(selected, merkleCap[k]))
	}
	f.api.AssertIsEqual(entry, currentDigest)
}
/*
	const NUM_LEAF_LOOKUPS = 4
	// Each'''),
 ('''	f.api.AssertIsEqual(currentDigest, merkleCapEntry)
}
''','''*/
'''),
 ('''		denominator := f.gl.SubExtension(subgroupX_QE, point)
		sum =''','''		denominator := f.gl.SubExtension(subgroupX_QE, point)
		alphaPow := gl.OneExtension()
		for range evals {
			alphaPow = f.gl.MulExtension(alphaPow, friAlpha)
		}
		sum ='''),('f.gl.ExpExtension(friAlpha, uint64(len(evals)))','alphaPow'),
)
ed('fri/fri_utils.go',
 ('''	sigmasRange := sigmasRange(c)
	return sigmasRange[len(sigmasRange)-1]
''','''	return c.Config.NumRoutedWires + c.NumConstants
'''))
s=open('fri/fri_utils.go').read(); i=s.index('// Range of the sigma'); j=s.index('func numPreprocessedPolys'); s=s[:i]+s[j:]; open('fri/fri_utils.go','w').write(s)
ed('challenger/challenger.go',
 ('''	for i := 0; i < len(elements); i++ {
		c.ObserveElement(elements[i])
	}
''','''	for _, e := range elements {
		c.ObserveElement(e)
	}
'''),
 ('''	c.outputBuffer = make([]gl.Variable, 0)
	for i := 0; i < poseidon.SPONGE_RATE; i++ {
		c.outputBuffer = append(c.outputBuffer, c.spongeState[i])
	}
''','''	c.outputBuffer = append([]gl.Variable(nil), c.spongeState[:poseidon.SPONGE_RATE]...)
'''),
 ('''	c.outputBuffer = make([]gl.Variable, 0)
	c.inputBuffer''','''	c.outputBuffer = nil
	c.inputBuffer'''),
)
ed('goldilocks/quadratic_extension.go',
 ('''	c0o0 := p.MulNoReduce(a[0], b[0])
	c0o1 := p.MulNoReduce(p.MulNoReduce(NewVariable(W), a[1]), b[1])
	c0 := p.AddNoReduce(c0o0, c0o1)
	c1 := p.AddNoReduce(p.MulNoReduce(a[0], b[1]), p.MulNoReduce(a[1], b[0]))
''','''	c1 := p.AddNoReduce(p.MulNoReduce(b[0], a[1]), p.MulNoReduce(b[1], a[0]))
	c0 := p.AddNoReduce(p.MulNoReduce(b[0], a[0]), p.MulNoReduce(NewVariable(W), p.MulNoReduce(b[1], a[1])))
'''),
 ('''	c0 := p.Add(a[0], b[0])
	c1 := p.Add(a[1], b[1])
	return NewQuadraticExtensionVariable(c0, c1)
''','''	return p.ReduceExtension(p.AddExtensionNoReduce(a, b))
'''),
 ('''	x0IsZero := p.api.IsZero(x[0].Limb)
	x1IsZero := p.api.IsZero(x[1].Limb)
	return p.api.Mul(x0IsZero, x1IsZero)
''','''	return p.api.And(p.api.IsZero(x[1].Limb), p.api.IsZero(x[0].Limb))
'''),
)
ed('plonk/gates/gates.go',
 ('	for regex, handler := range gateRegexHandlers {\n','	for regex, handler := range gateRegexHandlers {\n		regex, handler := regex, handler\n'),
 ('''			if matches != nil {
				return handler(parameters)
			}
''','''			return handler(parameters)
'''))
ed('plonk/gates/evaluate_gates.go',
 ('''	tmp := gl.NewQuadraticExtensionVariable(gl.NewVariable(i), gl.Zero())
		product = glApi.MulExtension(product, glApi.SubExtension(tmp, s))
''','''	product = glApi.SubMulExtension(gl.NewVariable(i).ToQuadraticExtension(), s, product)
'''),
 ('''	filter := g.computeFilter(row, groupRange, vars.localConstants[selectorIndex], numSelectors > 1)

	vars.RemovePrefix(numSelectors)
''','''	selector := vars.localConstants[selectorIndex]
	vars.RemovePrefix(numSelectors)
'''),
 ('''	unfiltered := gate.EvalUnfiltered(g.api, glApi, vars)
''','''	unfiltered := gate.EvalUnfiltered(g.api, glApi, vars)
	filter := g.computeFilter(row, groupRange, selector, numSelectors > 1)
'''),
)
ed('poseidon/goldilocks.go',
 ('''	x2 := c.gl.MulExtension(x, x)
	x4 := c.gl.MulExtension(x2, x2)
	x3 := c.gl.MulExtension(x, x2)
	return c.gl.MulExtension(x4, x3)
''','''	return c.gl.ExpExtension(x, 7)
'''),
 ('''	x2 := c.gl.MulNoReduce(x, x)
	x3 := c.gl.MulNoReduce(x, x2)
	// x^3 < 2^192, so the quotient has at most 128 bits (and must be constrained to be small enough for
	// the reduction to not wrap around the native field).
	x3 = c.gl.ReduceWithMaxBits(x3, 128)
	x6 := c.gl.MulNoReduce(x3, x3)
	x7 := c.gl.MulNoReduce(x, x6)
	return c.gl.ReduceWithMaxBits(x7, 128)
''','''	x2 := c.gl.Mul(x, x)
	x4 := c.gl.Mul(x2, x2)
	return c.gl.Mul(c.gl.Mul(x4, x2), x)
'''),
 ('''		for j := 0; j < SPONGE_RATE; j++ {
			if i+j < len(input) {
				state[j] = input[i+j]
			}
		}
''','''		copy(state[:SPONGE_RATE], input[i:])
'''))
ed('poseidon/bn254.go',
 ('''	x2 := c.api.Mul(x, x)
	x4 := c.api.Mul(x2, x2)
	return c.api.Mul(x4, x)
''','''	square := c.api.Mul(x, x)
	return c.api.Mul(square, c.api.Mul(square, x))
'''),
 ('''	chunkSize := 56
	for i := 0; i < len(bits); i += chunkSize {
		maxIdx := c.min(len(bits), i+chunkSize)
		bitChunk := bits[i:maxIdx]
		returnElements = append(returnElements, gl.NewVariable(c.api.FromBinary(bitChunk...)))
	}
''','''	const chunkSize = 56
	for len(bits) > 0 {
		n := c.min(len(bits), chunkSize)
		returnElements = append(returnElements, gl.NewVariable(c.api.FromBinary(bits[:n]...)))
		bits = bits[n:]
	}
'''),
 ('''		return BN254HashOut(returnVal)
	} else {
		return c.HashNoPad(input)
	}
''','''		return returnVal
	}
	return c.HashNoPad(input)
'''))
ed('verifier/verifier.go',
 ('''	for _, constant := range proof.Openings.Constants {
		c.glChip.RangeCheckQE(constant)
	}

	for _, plonkSigma := range proof.Openings.PlonkSigmas {
		c.glChip.RangeCheckQE(plonkSigma)
	}

	for _, wire := range proof.Openings.Wires {
		c.glChip.RangeCheckQE(wire)
	}
''','''	for _, group := range [][]gl.QuadraticExtensionVariable{proof.Openings.Wires, proof.Openings.PlonkSigmas, proof.Openings.Constants} {
		for _, element := range group {
			c.glChip.RangeCheckQE(element)
		}
	}
'''),
 ('''	c.plonkChip.Verify(proofChallenges, proof.Openings, publicInputsHash)

	initial''','''	initial'''),
 ('''		&proof.OpeningProof,
	)
}''','''		&proof.OpeningProof,
	)

	c.plonkChip.Verify(proofChallenges, proof.Openings, publicInputsHash)
}'''))
ed('trusted_setup/trusted_setup.go',
 ('''	for i := startIdx + 2; i < len(manifest.Participants); i++ {
		log.Println("processing contribution ", i+1)
		current, next = next, current
''','''	last := len(manifest.Participants) - 1
	for i := startIdx + 2; i <= last; i++ {
		log.Println("contribution ", i+1)
		next, current = current, next
'''))
ed('types/common_data.go',
 ('''	selectorGroupStart := []uint64{}
	selectorGroupEnd := []uint64{}
	for _, group := range raw.SelectorsInfo.Groups {
		selectorGroupStart = append(selectorGroupStart, group.Start)
		selectorGroupEnd = append(selectorGroupEnd, group.End)
	}
''','''	n := len(raw.SelectorsInfo.Groups)
	selectorGroupStart, selectorGroupEnd := make([]uint64, n), make([]uint64, n)
	for i, group := range raw.SelectorsInfo.Groups {
		selectorGroupStart[i], selectorGroupEnd[i] = group.Start, group.End
	}
'''))
ed('types/deserialize.go',
 ('''	m.Hash = make([]string, len(siblings.Siblings))
	copy(m.Hash[:], siblings.Siblings)
''','''	m.Hash = append([]string{}, siblings.Siblings...)
'''))
ed('variables/deserialize.go',
 ('''	n := len(merkleCapRaw)
	merkleCap := make([]poseidon.BN254HashOut, n)
	for i := 0; i < n; i++ {
		merkleCap[i] = parseBN254Hash(merkleCapRaw[i])
	}
	return merkleCap
''','''	return StringArrayToHashBN254Array(merkleCapRaw)
'''))
