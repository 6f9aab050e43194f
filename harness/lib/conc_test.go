package lib

import (
	"fmt"
	"math/big"
	mrand "math/rand/v2"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C19", Rule: "built with the race detector: goroutines use the same elements as operands, prove, aggregate, verify and set up over the same groups and parameters; no race report, results agree with those computed alone, shared values unchanged", Cases: c19, Require: map[string]int{"storm": 10, "concurrent_ops": 300, "state_compared": 10, "cold_start": 8}},
	)
}

func c19(tier string) []Case {
	var cs []Case
	reps := 1
	if tier == "thorough" {
		reps = 40
	}
	for r := 0; r < reps; r++ {
		for _, n := range append([]string{"modp512", "rfc"}, CurveNames...) {
			n := n
			cs = append(cs, Case{fmt.Sprintf("elements/%s/%d", n, r), func(c *Ctx) { c19elements(c, n) }})
		}
		for _, n := range CurveNames {
			n := n
			cs = append(cs, Case{fmt.Sprintf("proofs/%s/%d", n, r), func(c *Ctx) { c19proofs(c, n) }})
			if r < 6 {
				cs = append(cs, Case{fmt.Sprintf("cold/setup/%s/%d", n, r), func(c *Ctx) { c19coldSetup(c, n) }})
				cs = append(cs, Case{fmt.Sprintf("cold/proofs/%s/%d", n, r), func(c *Ctx) { c19coldProofs(c, n) }})
			}
		}
	}
	return cs
}

func c19elements(c *Ctx, gn string) {
	c.RealRandom()
	var g group.Group
	if gn == "rfc" || len(gn) > 4 && gn[:4] == "modp" {
		g = ffGroup(gn)
	} else {
		g = bpGroup(gn)
	}
	curve := g.Name() != "" && !(gn == "rfc" || gn[:4] == "modp")
	// elements computed in different ways, so that lazily normalised representations would show
	var pool []group.Element
	var scal []*big.Int
	for i := 0; i < 6; i++ {
		scal = append(scal, RandMod(c.R, g.N()))
	}
	for i := 0; i < 6; i++ {
		a := g.Element().BaseScale(scal[i])
		b := g.Element().Scale(a, scal[(i+1)%6])
		pool = append(pool, a, g.Element().Add(a, b), g.Element().Negate(b))
	}
	pool = append(pool, g.Identity(), g.Generator())
	// what the results should be, computed alone on separate elements
	clone := func(e group.Element) group.Element { return g.Element().Add(e, g.Identity()) }
	n := len(pool)
	sum, sc := make([]string, n), make([]string, n)
	for i := range pool {
		x, y := clone(pool[i]), clone(pool[(i*7+3)%n])
		sum[i] = g.Element().Add(x, y).String()
		sc[i] = g.Element().Scale(x, scal[i%6]).String()
	}
	before := map[string]string(nil)
	// the shared elements themselves are first touched inside of the storm
	ok := Storm(c, gn, 8, 40, func(r *mrand.Rand, gi, k int) (string, string) {
		i := r.IntN(n)
		j := (i*7 + 3) % n
		switch r.IntN(10) {
		case 0:
			if s := g.Element().Add(pool[i], pool[j]).String(); s != sum[i] {
				return "add", "another result"
			}
			return "add", ""
		case 1:
			if s := g.Element().Scale(pool[i], scal[i%6]).String(); s != sc[i] {
				return "scale", "another result"
			}
			return "scale", ""
		case 2:
			_ = g.Element().Subtract(pool[i], pool[j])
			_ = g.Element().Negate(pool[i])
			return "subtract", ""
		case 3:
			if !pool[i].IsEqual(pool[i]) {
				return "equal", "element differs from itself"
			}
			_ = pool[i].IsEqual(pool[j])
			_ = pool[i].IsIdentity()
			return "equal", ""
		case 4:
			_ = pool[i].String()
			return "string", ""
		case 5:
			b, err := pool[i].MarshalBinary()
			if err != nil {
				return "binary", err.Error()
			}
			e := g.Element()
			if err := e.UnmarshalBinary(b); err != nil {
				return "binary", err.Error()
			}
			if !e.IsEqual(pool[i]) {
				return "binary", "decoded element differs"
			}
			return "binary", ""
		case 6:
			b, err := pool[i].MarshalJSON()
			if err != nil {
				return "json", err.Error()
			}
			e := g.Element()
			if err := e.UnmarshalJSON(b); err != nil {
				return "json", err.Error()
			}
			if !e.IsEqual(pool[i]) {
				return "json", "decoded element differs"
			}
			return "json", ""
		case 7:
			_, _, _, _ = g.N(), g.P(), g.Name(), g.Generator().String()
			_ = g.Identity().IsIdentity()
			_ = g.Random()
			return "group", ""
		case 8:
			_ = g.Element().Set(pool[i])
			_ = pool[i].GroupOrder()
			_ = pool[i].FieldOrder()
			return "set", ""
		default:
			if curve {
				a, err := g.Element().MapToGroup("seed" + fmt.Sprint(i))
				if err != nil {
					return "map", err.Error()
				}
				b, _ := g.Element().MapToGroup("seed" + fmt.Sprint(i))
				if !a.IsEqual(b) {
					return "map", "another element for the same seed"
				}
			}
			_ = g.Element().BaseScale(scal[i%6])
			return "base", ""
		}
	})
	_ = before
	if !ok {
		return
	}
	for i := range pool {
		if s := g.Element().Add(clone(pool[i]), clone(pool[(i*7+3)%n])).String(); s != sum[i] {
			c.Violate("%s: shared element %d changed", gn, i)
			return
		}
	}
	c.Event("state_compared")
}

func c19proofs(c *Ctx, gn string) {
	c.RealRandom()
	params := mustBP(c, 16, bpGroup(gn))
	gff := ffGroup("modp512")
	sp, ok := sigmaOrViolate(c, 16, 64, 160, gff, params.GP)
	if !ok {
		return
	}
	proof, _, err := bp.Prove(B(11), params)
	if err != nil {
		c.Violate("%s: Prove: %v", gn, err)
		return
	}
	multi, _, err := bp.MultiProve([]*big.Int{B(3), B(1)}, params)
	if err != nil {
		c.Violate("%s: MultiProve: %v", gn, err)
		return
	}
	bad := Clone(proof)
	bad.Mu = Add(bad.Mu, B(1))
	sig, comm, ok := proveSigma(c, sp, B(77), B(3), B(4), B(5), gn)
	if !ok {
		return
	}
	before := Fingerprint(params, sp, proof, multi, sig, comm)
	ok = Storm(c, gn, 6, 6, func(r *mrand.Rand, gi, k int) (string, string) {
		switch r.IntN(7) {
		case 0:
			p := proof
			if ok, err := p.Verify(); !ok {
				return "verify", fmt.Sprintf("rejected: %v", err)
			}
			q := *bad
			if ok, _ := q.Verify(); ok {
				return "verify", "altered proof accepted"
			}
			return "verify", ""
		case 1:
			p := multi
			if ok, err := p.Verify(); !ok {
				return "verify_multi", fmt.Sprintf("rejected: %v", err)
			}
			return "verify_multi", ""
		case 2:
			q := sig
			if !q.Verify(comm) {
				return "verify_sigma", "rejected"
			}
			return "verify_sigma", ""
		case 3:
			v := []*big.Int{B(int64(r.IntN(4))), B(int64(r.IntN(4)))}
			p, _, err := bp.MultiProve(v, params)
			if err != nil {
				return "prove_multi", err.Error()
			}
			if ok, err := p.Verify(); !ok {
				return "prove_multi", fmt.Sprintf("rejected: %v", err)
			}
			return "prove_multi", ""
		case 4:
			p, _, err := bp.Prove(B(int64(r.IntN(16))), params)
			if err != nil {
				return "prove", err.Error()
			}
			if ok, err := p.Verify(); !ok {
				return "prove", fmt.Sprintf("rejected: %v", err)
			}
			return "prove", ""
		case 5:
			q := voteproof.Prove(B(int64(r.IntN(1000))), B(1), B(2), B(3), sp)
			if q.Z == nil {
				return "prove_sigma", "incomplete"
			}
			_ = util.PedersenCommit(B(int64(r.IntN(1000))), B(9), params.H, params.GP)
			return "prove_sigma", ""
		default:
			p, err := bp.Setup(4, params.GP)
			if err != nil {
				return "setup", err.Error()
			}
			if !p.H.IsEqual(params.H) {
				return "setup", "another base"
			}
			return "setup", ""
		}
	})
	if !ok {
		return
	}
	if d := SameFingerprint(before, Fingerprint(params, sp, proof, multi, sig, comm)); d != "" {
		c.Violate("%s: concurrent use modified shared values: %s", gn, d)
		return
	}
	c.Event("state_compared")
}

// c19coldSetup: the first thing the process does with the library is to make groups and parameters in several
// goroutines at once.
func c19coldSetup(c *Ctx, gn string) {
	if !c.Cold() {
		return
	}
	c.RealRandom()
	type out struct{ h, name, seed string }
	var mu [6]out
	ok := Storm(c, "cold "+gn, 6, 1, func(r *mrand.Rand, gi, k int) (string, string) {
		g := Curve(gn)
		p, err := bp.Setup(16, g)
		if err != nil {
			return "cold_setup", err.Error()
		}
		s, err := g.Element().MapToGroup("some seed")
		if err != nil {
			return "cold_setup", err.Error()
		}
		pr, _, err := bp.Prove(B(int64(gi)), p)
		if err != nil {
			return "cold_setup", err.Error()
		}
		if ok, err := pr.Verify(); !ok {
			return "cold_setup", fmt.Sprintf("rejected: %v", err)
		}
		f := ModP(512)
		if !f.Element().Add(f.Generator(), f.Identity()).IsEqual(f.Generator()) {
			return "cold_setup", "wrong sum"
		}
		mu[gi] = out{p.H.String(), g.Name(), s.String()}
		return "cold_setup", ""
	})
	if !ok {
		return
	}
	for i := range mu {
		if mu[i] != mu[0] {
			c.Violate("%s: parameters made at the same time differ", gn)
			return
		}
	}
	c.Event("state_compared")
}

// c19coldProofs: parameters exist, but nothing was proved or verified yet.
func c19coldProofs(c *Ctx, gn string) {
	if !c.Cold() {
		return
	}
	c.RealRandom()
	g := Curve(gn)
	params, err := bp.Setup(16, g)
	if err != nil {
		c.Violate("%s: Setup: %v", gn, err)
		return
	}
	Storm(c, "cold "+gn, 6, 3, func(r *mrand.Rand, gi, k int) (string, string) {
		switch (gi + k) % 3 {
		case 0:
			p, _, err := bp.Prove(B(int64(r.IntN(16))), params)
			if err != nil {
				return "cold_prove", err.Error()
			}
			if ok, err := p.Verify(); !ok {
				return "cold_prove", fmt.Sprintf("rejected: %v", err)
			}
			return "cold_prove", ""
		case 1:
			p, _, err := bp.MultiProve([]*big.Int{B(int64(r.IntN(2))), B(1), B(0), B(1)}[:1<<r.IntN(3)], params)
			if err != nil {
				return "cold_multi", err.Error()
			}
			if ok, err := p.Verify(); !ok {
				return "cold_multi", fmt.Sprintf("rejected: %v", err)
			}
			return "cold_multi", ""
		default:
			_ = util.PedersenCommit(B(int64(r.IntN(1000))), B(9), params.H, params.GP)
			return "cold_commit", ""
		}
	})
}
