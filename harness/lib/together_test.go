package lib

import (
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"strings"
	"sync"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

// Provers and verifiers that share their parameters, at the same time.

func atOnce(prop, tier string) []Case {
	cs := rushes(prop, tier)
	reps := 1
	if tier == "thorough" {
		reps = 25
	}
	for r := 0; r < reps; r++ {
		for _, gn := range bpGroups {
			gn := gn
			cs = append(cs, Case{fmt.Sprintf("at-once/%s/%d", gn, r), func(c *Ctx) {
				switch prop {
				case "C07":
					atOnceProve(c, gn)
				case "C08":
					atOnceJudge(c, gn)
				case "C09":
					atOnceMulti(c, gn)
				case "C10":
					atOnceSigma(c, gn)
				case "C11":
					atOnceFresh(c, gn)
				}
			}})
		}
	}
	return cs
}

// over makes two range setups over one group instance.
func over(c *Ctx, gn string, b1, b2 int64) (g group.Group, p [2]bp.BulletProofSetupParams) {
	g = bpGroup(gn)
	p[0], p[1] = mustBP(c, b1, g), mustBP(c, b2, g)
	return
}

func atOnceProve(c *Ctx, gn string) {
	g, ps := over(c, gn, 256, 16)
	defer c.Overlap(g)()
	Storm(c, gn, 4, 6, func(r *mrand.Rand, gi, k int) (string, string) {
		p := ps[(gi+k)%2]
		if _, ok := proveOne(c, p, RandMod(r, Pow2(int(p.N))), gn+", provers at the same time"); !ok {
			return "prove", "see the other report"
		}
		return "prove", ""
	})
}

func atOnceJudge(c *Ctx, gn string) {
	g, ps := over(c, gn, 256, 16)
	var good, bad []bp.BulletProof
	for k := 0; k < 4; k++ {
		pf, ok := proveOne(c, ps[k%2], B(int64(k)), gn)
		if !ok {
			return
		}
		good = append(good, pf)
		for _, m := range Spoiled(c, pf, []group.Group{g}, 5) {
			bad = append(bad, *m)
		}
	}
	// values and halves of other proofs
	for k := 0; k < 2; k++ {
		m := *Clone(good[k])
		m.V = good[k+2].V
		bad = append(bad, m)
		m = *Clone(good[k])
		m.InnerProductProof = good[k+2].InnerProductProof
		bad = append(bad, m)
	}
	defer c.Overlap(g)()
	for i := range bad { // the same altered proof comes in several times, after a true one
		if g := Clone(good[i%len(good)]); !verdict(c, g.Verify) {
			c.Violate("%s: true proof rejected", gn)
			return
		}
		if !Crowd(c, gn, 3, func() string {
			if m := Clone(bad[i]); verdict(c, m.Verify) {
				return fmt.Sprintf("altered proof %d verifies", i)
			}
			c.Event("mutant_rejected")
			return ""
		}) {
			return
		}
	}
	Storm(c, gn, 4, 24, func(r *mrand.Rand, gi, k int) (string, string) {
		switch (gi/2 + k) % 4 {
		case 0:
			m := Clone(good[r.IntN(len(good))])
			if ok, err := m.Verify(); !ok || err != nil {
				return "good", fmt.Sprintf("true range proof rejected: %v", err)
			}
			return "good", ""
		case 1:
			p := ps[r.IntN(2)]
			v := Add(Pow2(int(p.N)), B(int64(r.IntN(3))))
			if r.IntN(3) == 0 {
				v = B(-1)
			}
			pf, _, err := bp.Prove(v, p)
			if err == nil && verdict(c, pf.Verify) {
				return "outside", fmt.Sprintf("%v in [0,2^%d) verifies", v, p.N)
			}
			c.Event("out_of_range_rejected")
			return "outside", ""
		default:
			i := Hot(r, k, len(bad))
			m := Clone(bad[i])
			if verdict(c, m.Verify) {
				return "bad", fmt.Sprintf("altered proof %d verifies", i)
			}
			c.Event("mutant_rejected")
			return "bad", ""
		}
	})
}

func atOnceMulti(c *Ctx, gn string) {
	g, ps := over(c, gn, 256, 16)
	pf, ok := multiOne(c, ps[0], []*big.Int{B(3), B(15)}, gn)
	if !ok {
		return
	}
	var bad []bp.MultiBulletProof
	for _, m := range Spoiled(c, pf, []group.Group{g}, 12) {
		bad = append(bad, *m)
	}
	defer c.Overlap(g)()
	for i := range bad { // the same altered proof comes in several times, after a true one
		if g := Clone(pf); !verdict(c, g.Verify) {
			c.Violate("%s: true proof rejected", gn)
			return
		}
		if !Crowd(c, gn, 3, func() string {
			if m := Clone(bad[i]); verdict(c, m.Verify) {
				return fmt.Sprintf("altered proof %d verifies", i)
			}
			c.Event("mutant_rejected")
			return ""
		}) {
			return
		}
	}
	Storm(c, gn, 4, 12, func(r *mrand.Rand, gi, k int) (string, string) {
		switch (gi/2 + k) % 4 {
		case 0, 1:
			p := ps[r.IntN(2)]
			m := []int{1, 2, 4}[r.IntN(3)]
			vs := make([]*big.Int, m)
			for i := range vs {
				vs[i] = RandMod(r, Pow2(int(p.N)/m))
			}
			if _, ok := multiOne(c, p, vs, gn+", provers at the same time"); !ok {
				return "prove", "see the other report"
			}
			return "prove", ""
		case 2:
			p := ps[r.IntN(2)]
			vs := []*big.Int{B(1), Pow2(int(p.N) / 2)}
			pf, _, err := bp.MultiProve(vs, p)
			if err == nil && verdict(c, pf.Verify) {
				return "outside", fmt.Sprintf("%v in [0,2^%d)^2 verifies", vs, p.N/2)
			}
			c.Event("out_of_range_rejected")
			return "outside", ""
		default:
			i := Hot(r, k, len(bad))
			m := Clone(bad[i])
			if verdict(c, m.Verify) {
				return "bad", fmt.Sprintf("altered proof %d verifies", i)
			}
			c.Event("mutant_rejected")
			return "bad", ""
		}
	})
}

func atOnceSigma(c *Ctx, gn string) {
	gec := bpGroup(gn)
	ff := "modp512"
	if gn == "transparent" {
		ff = "transparent"
	}
	gff := ffGroup(ff)
	var ps [2]voteproof.ProofParams
	for i, bx := range []uint8{16, 8} {
		p, ok := sigmaOrViolate(c, bx, 128, uint16(gec.N().BitLen()), gff, gec)
		if !ok {
			return
		}
		ps[i] = p
	}
	defer c.Overlap(gec, gff)()
	for k := 0; k < 12; k++ {
		p := ps[k%2]
		m := RandMod(c.R, Pow2(int(p.Bx)))
		rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		comm := statement(p, m, rp, r1, r2)
		pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p)
		if q := pf; !q.Verify(comm) {
			c.Violate("%s: consistency proof for %v is rejected", gn, m)
			return
		}
		bad := Spoiled(c, pf, []group.Group{gec, gff}, 2)
		if !Crowd(c, gn, 3, func() string {
			for i, b := range bad {
				if q := Clone(*b); verdict(c, func() (bool, error) { return q.Verify(comm), nil }) {
					return fmt.Sprintf("altered consistency proof %d verifies", i)
				}
			}
			c.Event("mismatch_rejected")
			return ""
		}) {
			return
		}
	}
	Storm(c, gn, 4, 8, func(r *mrand.Rand, gi, k int) (string, string) {
		p := ps[(gi+k)%2]
		m := RandMod(r, Pow2(int(p.Bx)))
		rp, r1, r2 := RandMod(r, gff.N()), RandMod(r, gec.N()), RandMod(r, gec.N())
		comm := statement(p, m, rp, r1, r2)
		pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p)
		if k%3 == 2 {
			other := statement(p, Mod(Add(m, B(1)), Pow2(int(p.Bx))), rp, r1, r2)
			switch r.IntN(3) {
			case 0:
				comm.Xp = other.Xp
			case 1:
				comm.Xq1 = other.Xq1
			case 2:
				comm.Xq2 = other.Xq2
			}
			q := pf
			if verdict(c, func() (bool, error) { return q.Verify(comm), nil }) {
				return "mismatch", "a proof about different values verifies"
			}
			c.Event("mismatch_rejected")
			return "mismatch", ""
		}
		if !pf.Verify(comm) {
			return "prove", fmt.Sprintf("consistency proof for %v is rejected", m)
		}
		lo, hi := zRange(p)
		if pf.Z.Cmp(lo) < 0 || pf.Z.Cmp(hi) >= 0 {
			return "prove", "response outside of its interval"
		}
		c.Event("proof_verified")
		c.Eval("at once", gn, m, pf.Z)
		return "prove", ""
	})
}

// atOnceFresh: proofs of one statement made at the same time have nothing in common.
func atOnceFresh(c *Ctx, gn string) {
	g := bpGroup(gn)
	p := mustBP(c, 16, g)
	gff := ffGroup("modp512")
	sp, ok := sigmaOrViolate(c, 16, 128, uint16(g.N().BitLen()), gff, g)
	if !ok {
		return
	}
	m, rp, r1, r2 := B(77), RandMod(c.R, gff.N()), RandMod(c.R, g.N()), RandMod(c.R, g.N())
	var mu sync.Mutex
	seen := map[string]string{}
	end := c.Overlap(g)
	defer end()
	Storm(c, gn, 5, 6, func(r *mrand.Rand, gi, k int) (string, string) {
		var names []string
		var vals []any
		add := func(n string, v any) { names, vals = append(names, n), append(vals, v) }
		what := []string{"range proof", "aggregated range proof", "consistency proof"}[k%3]
		switch k % 3 {
		case 0:
			pf, gamma, err := bp.Prove(B(11), p)
			if err != nil {
				return what, err.Error()
			}
			for n, v := range map[string]any{"V": pf.V, "A": pf.A, "S": pf.S, "T1": pf.T1, "T2": pf.T2, "Taux": pf.Taux, "Mu": pf.Mu, "gamma": gamma} {
				add(n, v)
			}
		case 1:
			pf, gs, err := bp.MultiProve([]*big.Int{B(2), B(2)}, p)
			if err != nil {
				return what, err.Error()
			}
			for n, v := range map[string]any{"V0": pf.Vs[0], "V1": pf.Vs[1], "A": pf.A, "S": pf.S, "T1": pf.T1, "T2": pf.T2, "Taux": pf.Taux, "Mu": pf.Mu, "gamma0": gs[0], "gamma1": gs[1]} {
				add(n, v)
			}
		default:
			pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), sp)
			for n, v := range map[string]any{"W": pf.W, "Kp": pf.Kp, "Kq1": pf.Kq1, "Kq2": pf.Kq2, "Z": pf.Z, "Sp": pf.Sp, "Sq1": pf.Sq1, "Sq2": pf.Sq2} {
				if e, ok := v.(group.Element); ok && e == nil {
					continue
				}
				add(n, v)
			}
			add("k", Sub(pf.Z, Mul(pf.Challenge, m)))
		}
		if _, ok := g.(*TGroup); ok { // what the published elements hide
			hb, _, _ := p.H.(*TElem).SingleBasis()
			for i, v := range vals {
				if e, ok := v.(*TElem); ok && e != nil && names[i] != "W" && names[i] != "Kp" && !strings.HasPrefix(names[i], "V") {
					add("blinding factor in "+names[i], e.Coef(hb))
				}
				if e, ok := v.(*TElem); ok && names[i] == "S" {
					for j := range p.Gg {
						gi, _, _ := p.Gg[j].(*TElem).SingleBasis()
						hi, _, _ := p.Hh[j].(*TElem).SingleBasis()
						add(fmt.Sprintf("sL[%d]", j), e.Coef(gi))
						add(fmt.Sprintf("sR[%d]", j), e.Coef(hi))
					}
				}
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for i, v := range vals {
			s := fmt.Sprint(v)
			me := fmt.Sprintf("%s of %s %d/%d", names[i], what, gi, k)
			if o, dup := seen[s]; dup {
				return what, fmt.Sprintf("%s is also %s", o, me)
			}
			seen[s] = me
		}
		c.EventN("values_compared", len(vals))
		return what, ""
	})
}
