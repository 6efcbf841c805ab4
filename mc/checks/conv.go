package checks

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	gl "github.com/succinctlabs/gnark-plonky2-verifier/goldilocks"
	"github.com/succinctlabs/gnark-plonky2-verifier/plonk/gates"
	"github.com/succinctlabs/gnark-plonky2-verifier/types"
	"github.com/succinctlabs/gnark-plonky2-verifier/variables"

	"verifmc/eng"
	"verifmc/ref"
)

func u64s(x []int) []uint64 {
	o := make([]uint64, len(x))
	for i := range x {
		o[i] = uint64(x[i])
	}
	return o
}

func selInfo(c *ref.Common) gates.SelectorsInfo {
	var st, en []uint64
	for _, g := range c.Groups {
		st, en = append(st, uint64(g[0])), append(en, uint64(g[1]))
	}
	return *gates.NewSelectorsInfo(u64s(c.SelIdx), st, en)
}

func mkGatesChip(api frontend.API, c *ref.Common) (*gates.EvaluateGatesChip, []gates.Gate) {
	var gs []gates.Gate
	for _, g := range c.Gates {
		gs = append(gs, gates.GateInstanceFromId(g.ID))
	}
	return gates.NewEvaluateGatesChip(api, gs, uint64(c.NumGateConstraints), selInfo(c)), gs
}

// commonData converts the circuit description.
func commonData(c *ref.Common) types.CommonCircuitData {
	var d types.CommonCircuitData
	d.Config.NumWires = uint64(c.NumWires)
	d.Config.NumRoutedWires = uint64(c.NumRouted)
	d.Config.NumConstants = uint64(c.NumConstants - len(c.Groups))
	d.Config.NumChallenges = uint64(c.NumChallenges)
	d.Config.MaxQuotientDegreeFactor = uint64(c.QDF)
	d.Config.SecurityBits = 100
	fc := types.FriConfig{RateBits: uint64(c.RateBits), CapHeight: uint64(c.CapHeight), ProofOfWorkBits: uint64(c.PowBits), NumQueryRounds: uint64(c.NumQueries)}
	d.Config.FriConfig = fc
	d.FriParams.Config = fc
	d.FriParams.DegreeBits = uint64(c.DegreeBits)
	d.FriParams.ReductionArityBits = u64s(c.Arity)
	d.DegreeBits = uint64(c.DegreeBits)
	for _, g := range c.Gates {
		d.GateIds = append(d.GateIds, g.ID)
	}
	d.SelectorsInfo = selInfo(c)
	d.QuotientDegreeFactor = uint64(c.QDF)
	d.NumGateConstraints = uint64(c.NumGateConstraints)
	d.NumConstants = uint64(c.NumConstants)
	d.NumPublicInputs = uint64(c.NumPI)
	d.KIs = append([]uint64(nil), c.KIs...)
	d.NumPartialProducts = uint64(c.NumPartial)
	return d
}

func fvs(x []ref.F) []gl.Variable {
	o := make([]gl.Variable, len(x))
	for i := range x {
		o[i] = gl.NewVariable(eng.NewVar(x[i]))
	}
	return o
}

func nonCanon(x ref.F, k uint64) *big.Int {
	return new(big.Int).Add(u(x), new(big.Int).Mul(u(k), u(ref.P)))
}

func merkleProof(h []fr.Element) variables.FriMerkleProof {
	m := variables.FriMerkleProof{}
	for _, x := range h {
		m.Siblings = append(m.Siblings, eng.NewVar(frBig(x)))
	}
	return m
}

func openingSet(o *ref.Openings) variables.OpeningSet {
	return variables.OpeningSet{
		Constants: ves(o.Constants), PlonkSigmas: ves(o.Sigmas), Wires: ves(o.Wires), PlonkZs: ves(o.Zs),
		PlonkZsNext: ves(o.ZsNext), PartialProducts: ves(o.Partials), QuotientPolys: ves(o.Quotients),
	}
}

func friProof(p *ref.Proof) variables.FriProof {
	var f variables.FriProof
	for _, c := range p.CommitCaps {
		f.CommitPhaseMerkleCaps = append(f.CommitPhaseMerkleCaps, capOf(c))
	}
	for _, r := range p.Rounds {
		var q variables.FriQueryRound
		for t, l := range r.Leaves {
			el := fvs(l.Elems)
			if p.Off != nil {
				for i, k := range p.Off.Leaf[t] {
					el[i] = vb(nonCanon(l.Elems[i], k))
				}
			}
			q.InitialTreesProof.EvalsProofs = append(q.InitialTreesProof.EvalsProofs, variables.FriEvalProof{Elements: el, MerkleProof: merkleProof(l.Path)})
		}
		for t, s := range r.Steps {
			ev := ves(s.Evals)
			if p.Off != nil && t < len(p.Off.Step) {
				for i, k := range p.Off.Step[t] {
					ev[i/2][i%2] = vb(nonCanon(s.Evals[i/2][i%2], k))
				}
			}
			q.Steps = append(q.Steps, variables.FriQueryStep{Evals: ev, MerkleProof: merkleProof(s.Path)})
		}
		f.QueryRoundProofs = append(f.QueryRoundProofs, q)
	}
	f.FinalPoly.Coeffs = ves(p.FinalPoly)
	f.PowWitness = gl.NewVariable(eng.NewVar(p.Pow))
	return f
}

func proofVars(p *ref.Proof) variables.ProofWithPublicInputs {
	return variables.ProofWithPublicInputs{
		Proof: variables.Proof{
			WiresCap: capOf(p.WiresCap), PlonkZsPartialProductsCap: capOf(p.ZsCap), QuotientPolysCap: capOf(p.QuotientCap),
			Openings: openingSet(&p.Open), OpeningProof: friProof(p),
		},
		PublicInputs: fvs(p.PI),
	}
}

func vkVars(k *ref.VK) variables.VerifierOnlyCircuitData {
	return variables.VerifierOnlyCircuitData{ConstantSigmasCap: capOf(k.Cap), CircuitDigest: eng.NewVar(frBig(k.Digest))}
}
