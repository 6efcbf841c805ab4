# a second family of behaviour-preserving rewrites
import re
def ed(f,*prs):
    s=open(f).read()
    for o,n in prs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n)
    open(f,'w').write(s)
# registry: sync.Map with a once per builder
ed('goldilocks/base.go',
 ('''var (
	poseidonChips = make(map[frontend.API]*Chip)
	mutex         sync.Mutex
)
''','''type chipSlot struct {
	once sync.Once
	chip *Chip
}

var slots sync.Map // frontend.API -> *chipSlot
'''),
 ('''	mutex.Lock()
	defer mutex.Unlock()

	if chip, ok := poseidonChips[api]; ok {
		return chip
	}

	c := &Chip{api: api}
''','''	entry, _ := slots.LoadOrStore(api, new(chipSlot))
	slot := entry.(*chipSlot)
	slot.once.Do(func() { slot.chip = build(api) })
	return slot.chip
}

func build(api frontend.API) *Chip {
	c := &Chip{api: api}
'''),
 ('	poseidonChips[api] = c\n\n',''),
 ('api.Compiler().Defer(c.checkCollected)','api.Compiler().Defer(func(api frontend.API) error { return c.checkCollected(api) })'),
 ('''		shouldCheck := ''','''		shouldCheck := ''') if False else ('''	p.api.AssertIsEqual(
		p.api.Select(
			shouldCheck,
			leastSigLimb,
			frontend.Variable(0),
		),
		frontend.Variable(0),
	)
''','''	p.api.AssertIsEqual(p.api.Mul(shouldCheck, leastSigLimb), 0)
'''),
 ('''	p.rangeCheckerCheck(mostSigLimb, 32)
	p.rangeCheckerCheck(leastSigLimb, 32)
''','''	for _, limb := range []frontend.Variable{leastSigLimb, mostSigLimb} {
		p.rangeCheckerCheck(limb, 32)
	}
'''),
 ('''	quotient := new(big.Int).Div(input, MODULUS)
	remainder := new(big.Int).Rem(input, MODULUS)
	results[0] = quotient
	results[1] = remainder
	return nil
''','''	results[0].DivMod(input, MODULUS, results[1])
	return nil
'''),
 ('''	two_32 := big.NewInt(int64(math.Pow(2, 32)))

	// The most significant bits
	results[0] = new(big.Int).Quo(input, two_32)
	// The least significant bits
	results[1] = new(big.Int).Rem(input, two_32)
''','''	results[0].Rsh(input, 32)
	results[1].Sub(input, new(big.Int).Lsh(results[0], 32))
'''),
 ('''	result, err := p.api.Compiler().NewHint(InverseHint, 1, x.Limb)
	if err != nil {
		panic(err)
	}

	inverse := NewVariable(result[0])
	isZero := p.api.IsZero(x.Limb)
	hasInv := p.api.Sub(1, isZero)
	p.RangeCheck(inverse)

	product := p.Mul(inverse, x)
	productToCheck := p.api.Select(hasInv, product.Limb, frontend.Variable(1))
	p.api.AssertIsEqual(productToCheck, frontend.Variable(1))
''','''	isZero := p.api.IsZero(x.Limb)
	hasInv := p.api.Sub(1, isZero)
	result, err := p.api.Compiler().NewHint(InverseHint, 1, x.Limb)
	if err != nil {
		panic(err)
	}

	inverse := NewVariable(result[0])
	p.RangeCheck(inverse)
	// the product is one unless x is zero, when it is zero
	p.api.AssertIsEqual(p.Mul(x, inverse).Limb, hasInv)
'''),
)
# gate table: ordered list, closure-based filters
ed('plonk/gates/gates.go',
 ('var gateRegexHandlers = map[*regexp.Regexp]func(parameters map[string]string) Gate{','type gateParser struct {\n	pattern *regexp.Regexp\n	build   func(parameters map[string]string) Gate\n}\n\nvar gateParsers = []gateParser{'),
 ('	for regex, handler := range gateRegexHandlers {\n		matches','	for _, parser := range gateParsers {\n		regex, handler := parser.pattern, parser.build\n		matches'))
s=open('plonk/gates/gates.go').read()
s=re.sub(r'\t(\w+Regex): +(\w+),',r'\t{\1, \2},',s)
open('plonk/gates/gates.go','w').write(s)
ed('plonk/gates/evaluate_gates.go',
 ('''	for i, gate := range g.gates {
		selectorIndex := g.selectorsInfo.selectorIndices[i]
''','''	for i := len(g.gates) - 1; i >= 0; i-- {
		gate := g.gates[i]
		selectorIndex := g.selectorsInfo.selectorIndices[i]
'''))
ed('plonk/gates/base_sum_gate.go',
 ('''	for i := uint64(0); i < g.base; i++ {
			difference''','''	for i := g.base - 1; i < g.base; i-- {
			difference'''))
ed('plonk/gates/random_access_gate.go',
 ('''				// This is computing `if b { x } else { y }`
				// i.e. `x + b(y - x)`.
				diff := glApi.SubExtension(y, x)
				mul := glApi.MulExtension(b, diff)
				add := glApi.AddExtension(x, mul)
''','''				add := glApi.MulAddExtension(b, glApi.SubExtension(y, x), x)
'''),
 ('''			bSquared := glApi.MulExtension(b, b)
			constraints = append(constraints, glApi.SubExtension(bSquared, b))
''','''			constraints = append(constraints, glApi.MulExtension(glApi.SubExtension(b, gl.OneExtension()), b))
'''))
# fri: one evaluation helper, different barycentric form is avoided; lookups by tree
ed('fri/fri.go',
 ('''		xPoints[i] = f.gl.MulExtension(xPoints[i-1], g_F)
''','''		var gi goldilocks.Element
		gi.Exp(g, big.NewInt(int64(i)))
		xPoints[i] = gl.QuadraticExtensionVariable{f.gl.Mul(cosetStart, gl.NewVariable(gi.Uint64())), gl.Zero()}
'''),('	g_F := gl.NewVariable(g.Uint64()).ToQuadraticExtension()\n',''),
 ('''		const NUM_LEAF_LOOKUPS = 4
		var leafLookups [NUM_LEAF_LOOKUPS]gl.QuadraticExtensionVariable
''','''		const NUM_LEAF_LOOKUPS = 4
		f.checkCommitted(evals, cosetIndexBits, capIndexBits, proof.CommitPhaseMerkleCaps[i], &roundProof.Steps[i].MerkleProof)
		var leafLookups [NUM_LEAF_LOOKUPS]gl.QuadraticExtensionVariable
'''),
 ('''		fieldEvals := make([]gl.Variable, 0, 2*len(evals))
		for j := 0; j < len(evals); j++ {
			fieldEvals = append(fieldEvals, evals[j][0])
			fieldEvals = append(fieldEvals, evals[j][1])
		}
		f.verifyMerkleProofToCapWithCapIndex(
			fieldEvals,
			cosetIndexBits,
			capIndexBits,
			proof.CommitPhaseMerkleCaps[i],
			&roundProof.Steps[i].MerkleProof,
		)
''',''),
 ('func (f *Chip) verifyQueryRound(','''func (f *Chip) checkCommitted(evals []gl.QuadraticExtensionVariable, index, capIndex []frontend.Variable, root variables.FriMerkleCap, path *variables.FriMerkleProof) {
	flat := []gl.Variable{}
	for _, e := range evals {
		flat = append(flat, e[:]...)
	}
	f.verifyMerkleProofToCapWithCapIndex(flat, index, capIndex, root, path)
}

func (f *Chip) verifyQueryRound('''),
 ('''	xIndexBits := f.api.ToBinary(xIndex.Limb, 64)[0 : f.friParams.DegreeBits+f.friParams.Config.RateBits]
''','''	allBits := f.api.ToBinary(xIndex.Limb, 64)
	xIndexBits := allBits[:nLog:nLog]
'''),
 ('''	for idx, xIndex := range friChallenges.FriQueryIndices {
		roundProof := friProof.QueryRoundProofs[idx]
''','''	for idx := len(friProof.QueryRoundProofs) - 1; idx >= 0; idx-- {
		roundProof, xIndex := friProof.QueryRoundProofs[idx], friChallenges.FriQueryIndices[idx]
'''),
 ('''	// Check POW
	f.assertLeadingZeros(friChallenges.FriPowResponse, f.friParams.Config)
''',''),
 ('''		xIndexBits = cosetIndexBits
	}
''','''		xIndexBits = xIndexBits[arityBits:]
	}
'''),
)
s=open('fri/fri.go').read()
i=s.rindex('}\n'); s=s[:i]+'''
	// Check POW
	f.assertLeadingZeros(friChallenges.FriPowResponse, f.friParams.Config)
}
'''
open('fri/fri.go','w').write(s)
ed('challenger/challenger.go',
 ('''	challenge := c.outputBuffer[len(c.outputBuffer)-1]
	c.outputBuffer = c.outputBuffer[:len(c.outputBuffer)-1]

	return challenge
''','''	last := len(c.outputBuffer) - 1
	defer func() { c.outputBuffer = c.outputBuffer[:last] }()
	return c.outputBuffer[last]
'''),
 ('''	for i := 0; i < len(c.inputBuffer); i++ {
		c.spongeState[i] = glApi.Reduce(c.inputBuffer[i])
	}
	// Clear the input buffer
	c.inputBuffer = make([]gl.Variable, 0)
''','''	for i, in := range c.inputBuffer {
		c.spongeState[i] = glApi.Reduce(in)
	}
	c.inputBuffer = c.inputBuffer[:0]
'''),
)
ed('poseidon/goldilocks.go',
 ('''	for i := 0; i < 12; i++ {
		if i < SPONGE_WIDTH {
			res = c.gl.MulAddNoReduce(v[(i+r)%SPONGE_WIDTH], gl.NewVariable(MDS_MATRIX_CIRC_VARS[i]), res)
		}
	}

	res = c.gl.MulAddNoReduce(v[r], gl.NewVariable(MDS_MATRIX_DIAG_VARS[r]), res)
	return c.gl.Reduce(res)
''','''	for j := range v {
		k := MDS_MATRIX_CIRC_VARS[(j+SPONGE_WIDTH-r)%SPONGE_WIDTH]
		res = c.gl.AddNoReduce(res, c.gl.MulNoReduce(v[j], gl.NewVariable(k)))
		if j == r {
			res = c.gl.AddNoReduce(res, c.gl.MulNoReduce(v[j], gl.NewVariable(MDS_MATRIX_DIAG_VARS[r])))
		}
	}
	return c.gl.Reduce(res)
'''))
ed('verifier/verifier.go',
 ('''	c.validateOpeningsShape(proof.Openings)

	c.rangeCheckProof(proof)
''','''	c.validateOpeningsShape(proof.Openings)
	defer c.rangeCheckProof(proof)
'''))
ed('goldilocks/quadratic_extension_algebra.go',
 ('''	var inner [D][]QuadraticExtensionAlgebraVariable
	var innerW [D][]QuadraticExtensionAlgebraVariable
''','''	c0 := p.MulExtension(a[0], b[0])
	c0 = p.AddExtension(c0, p.ScalarMulExtension(p.MulExtension(a[1], b[1]), NewVariable(W)))
	c1 := p.AddExtension(p.MulExtension(a[1], b[0]), p.MulExtension(a[0], b[1]))
	return QuadraticExtensionAlgebraVariable{c0, c1}
}

func (p *Chip) schoolbook(
	a QuadraticExtensionAlgebraVariable,
	b QuadraticExtensionAlgebraVariable,
) QuadraticExtensionAlgebraVariable {
	var inner [D][]QuadraticExtensionAlgebraVariable
	var innerW [D][]QuadraticExtensionAlgebraVariable
'''))
ed('goldilocks/quadratic_extension.go',
 ('''	current := a
	product := OneExtension()

	for i := 0; i < bits.Len64(exponent); i++ {
		if i != 0 {
			current = p.MulExtension(current, current)
		}
		if (exponent >> i & 1) != 0 {
			product = p.MulExtension(product, current)
		}
	}
''','''	product := a
	for i := bits.Len64(exponent) - 2; i >= 0; i-- {
		product = p.MulExtension(product, product)
		if (exponent >> i & 1) != 0 {
			product = p.MulExtension(product, a)
		}
	}
'''))
ed('types/deserialize.go',
 ('''	fields := []interface{}{&e.LeafElements, &e.MerkleProof}
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
	if len(fields) != 2 {
		return fmt.Errorf("an evaluation proof must have two fields, got %d", len(fields))
	}
	return nil
''','''	var fields []json.RawMessage
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
	if len(fields) != 2 {
		return fmt.Errorf("an evaluation proof must have two fields, got %d", len(fields))
	}
	if err := json.Unmarshal(fields[0], &e.LeafElements); err != nil {
		return err
	}
	return json.Unmarshal(fields[1], &e.MerkleProof)
'''))
ed('trusted_setup/trusted_setup.go',
 ('''	if err := current.Get(manifest.Participants[startIdx], config); err != nil {
		log.Fatal("when fetching contribution: ", err)
	}
	if err := next.Get(manifest.Participants[startIdx+1], config); err != nil {
		log.Fatal("when fetching contribution: ", err)
	}
''','''	fetch := func(c *ignition.Contribution, i int) {
		if err := c.Get(manifest.Participants[i], config); err != nil {
			log.Fatal("when fetching contribution: ", err)
		}
	}
	fetch(&current, startIdx)
	fetch(&next, startIdx+1)
'''))
import subprocess
# move the hints to a file of their own
s=open('goldilocks/base.go').read()
out='package goldilocks\n\nimport (\n\t"fmt"\n\t"math/big"\n\n\t"github.com/consensys/gnark-crypto/field/goldilocks"\n)\n'
for h in ('MulAddHint','ReduceHint','InverseHint','SplitLimbsHint'):
    i=s.index('func %s('%h); j=s.index('\n}\n',i)+3
    out+='\n'+s[i:j]; s=s[:i]+s[j:]
open('goldilocks/hints.go','w').write(out); open('goldilocks/base.go','w').write(s)
