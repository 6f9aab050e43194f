package bulletproofs

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/takakv/msc-poc/group"
	v "github.com/takakv/msc-poc/zzverif/vlib"
)

var zz_verifChecks = []v.Check{
	{Prop: "C21", Rule: "inner-product arguments over random, sparse and extreme vectors of length 1..64, all curves and the transparent group; true statements must verify; false inner products, other commitments, other generators, altered/exchanged components, missing/added/reordered rounds and statements solved after the challenges were seen must not", Together: []string{"true/", "false/"}, Cases: zz_vC21, Require: map[string]int{"true_ip_verified": 150, "false_ip_rejected": 300, "mutant_rejected": 1500, "rounds_rejected": 100}},
	{Prop: "C08", Rule: "adversarial prover that learns the verifier's challenges by observing it on the transparent group and then proves out-of-range values from non-binary witnesses, split inner products, foreign generators and late-chosen components", Cases: zz_vC08, Prefer: map[string]int{"attack_rejected": 300}},
	{Prop: "C09", Rule: "the same adversarial prover against the aggregated verifier", Cases: zz_vC09, Prefer: map[string]int{"attack_rejected": 200}},
}

func TestVerif(t *testing.T) { v.Main(t, zz_verifChecks) }

func zz_vGroup(n string) group.Group {
	if n == "transparent" {
		return v.TCurve()
	}
	return v.Curve(n)
}

func zz_vC21(tier string) []v.Case {
	var cs []v.Case
	for _, gn := range []string{"transparent", "P-256", "secp256k1"} {
		for r := 0; r < 1 || tier != "quick" && r < 20; r++ {
			gn := gn
			cs = append(cs, v.Case{ID: fmt.Sprintf("rush/%s/%d", gn, r), Run: func(c *v.Ctx) { zz_vC21rush(c, gn) }})
		}
	}
	for _, gn := range append([]string{"transparent"}, v.CurveNames...) {
		for _, n := range []int{1, 2, 4, 8, 16, 32, 64} {
			gn, n := gn, n
			if gn != "transparent" && tier == "quick" && n > 32 {
				continue
			}
			reps := 2
			if gn == "transparent" {
				reps = 3
			}
			if tier == "thorough" {
				reps *= 5
			}
			for r := 0; r < reps; r++ {
				cs = append(cs, v.Case{ID: fmt.Sprintf("true/%s/%d/%d", gn, n, r), Run: func(c *v.Ctx) { zz_vC21true(c, gn, n) }})
				if gn != "transparent" && tier == "quick" && (n > 8 || r > 0) {
					continue
				}
				cs = append(cs, v.Case{ID: fmt.Sprintf("false/%s/%d/%d", gn, n, r), Run: func(c *v.Ctx) { zz_vC21false(c, gn, n) }})
			}
		}
	}
	reps := 2
	if tier == "thorough" {
		reps = 20
	}
	for _, n := range []int{1, 2, 4, 8, 16, 32, 64} {
		n := n
		for rep := 0; rep < 4; rep++ {
			rep := rep
			if tier == "quick" && n > 16 && rep > 0 {
				continue
			}
			cs = append(cs, v.Case{ID: fmt.Sprintf("coincidence/%d/%d", n, rep), Run: func(c *v.Ctx) { zz_vC21coin(c, n, rep) }})
		}
	}
	for _, n := range []int{1, 2, 4, 8, 16} {
		n := n
		for r := 0; r < reps; r++ {
			cs = append(cs, v.Case{ID: fmt.Sprintf("solve/%d/%d", n, r), Run: func(c *v.Ctx) { zz_vC21solve(c, n) }})
		}
	}
	return cs
}

// zz_vParams returns inner-product parameters with default or caller-chosen generators.
func zz_vParams(c *v.Ctx, g group.Group, n int, custom bool) InnerProductParams {
	var gs, hs []group.Element
	if custom {
		for i := 0; i < n; i++ {
			x, _ := g.Element().MapToGroup(fmt.Sprintf("verif g %d", i))
			y, _ := g.Element().MapToGroup(fmt.Sprintf("verif h %d", i))
			gs, hs = append(gs, x), append(hs, y)
		}
	}
	p, err := setupInnerProduct(gs, hs, int64(n), g)
	if err != nil {
		c.Violate("inner-product setup for length %d fails: %v", n, err)
		panic(v.Harness{Msg: "setup"})
	}
	// commitments are made to the generators that were asked for
	for i := range gs {
		if i >= len(p.Gg) || i >= len(p.Hh) || !p.Gg[i].IsEqual(gs[i]) || !p.Hh[i].IsEqual(hs[i]) {
			c.Violate("arguments over chosen generators do not use them (pair %d of %d)", i, n)
			panic(v.Harness{Msg: "generators"})
		}
	}
	return p
}

func zz_vTrueIP(c *v.Ctx, p InnerProductParams, a, b []*big.Int, gn string) (InnerProductProof, bool) {
	n := len(a)
	N := p.GP.N()
	var proof InnerProductProof
	var err error
	ok := false
	as, bs := fmt.Sprint(a), fmt.Sprint(b)
	pn, st := v.Safe(func() {
		P := commitInnerProduct(p.Gg, p.Hh, a, b, p.GP)
		proof, err = proveInnerProduct(a, b, P, zz_vIP(a, b, N), p)
	})
	if pn != nil || err != nil {
		c.Violate("%s: inner-product argument of length %d fails: %v %v [%s]", gn, n, pn, err, st)
		return proof, false
	}
	pn, st = v.Safe(func() { ok, err = proof.Verify() })
	if pn != nil || err != nil || !ok {
		c.Violate("%s: true inner product of length %d rejected: a=%s b=%s verdict=%v %v %v [%s]", gn, n, as, bs, ok, pn, err, st)
		return proof, false
	}
	c.Event("true_ip_verified")
	c.Eval("true", gn, n, as, bs)
	return proof, true
}

func zz_vC21true(c *v.Ctx, gn string, n int) {
	g := zz_vGroup(gn)
	N := g.N()
	kinds := [][2]int{{0, 0}, {4, 4}, {1, 0}, {3, 3}, {5, 5}, {6, 5}, {7, 7}, {2, 8}, {1, 1}}
	if gn != "transparent" && n > 8 && !c.Thorough() {
		kinds = [][2]int{{0, 0}, kinds[1+c.R.IntN(8)]}
	}
	for i, k := range kinds {
		p := zz_vParams(c, g, n, i%2 == 1)
		if _, ok := zz_vTrueIP(c, p, zz_vVec(c, n, k[0], N), zz_vVec(c, n, k[1], N), gn); !ok {
			return
		}
	}
	c.Sample(map[string]any{"group": gn, "length": n})
}

// zz_vC21rush: many arguments at the same time.
func zz_vC21rush(c *v.Ctx, gn string) {
	g := zz_vGroup(gn)
	N := g.N()
	var ops []v.RushOp
	for _, n := range []int{1, 2, 4, 8} {
		p := zz_vParams(c, g, n, n == 4)
		for k := 0; k < 2; k++ {
			a, b := zz_vVec(c, n, 0, N), zz_vVec(c, n, 0, N)
			for _, off := range []int64{0, 0, 1} {
				off := off
				ops = append(ops, v.RushOp{Label: fmt.Sprintf("the verdict on an inner product of length %d that is %d too large", n, off), Run: func() string {
					a, b := zz_vCopy(a), zz_vCopy(b)
					for i := range a {
						a[i], b[i] = v.Cp(a[i]), v.Cp(b[i])
					}
					P := commitInnerProduct(p.Gg, p.Hh, a, b, p.GP)
					proof, err := proveInnerProduct(a, b, P, v.Mod(v.Add(zz_vIP(a, b, N), v.B(off)), N), p)
					if err != nil {
						return err.Error()
					}
					return fmt.Sprint(zz_vVerdict(c, proof.Verify))
				}})
			}
		}
	}
	v.Rush(c, gn, 12000, 1200*time.Millisecond, ops)
}

func zz_vC21false(c *v.Ctx, gn string, n int) {
	g := zz_vGroup(gn)
	N := g.N()
	p := zz_vParams(c, g, n, c.R.IntN(2) == 0)
	a, b := zz_vVec(c, n, 0, N), zz_vVec(c, n, 0, N)
	ip := zz_vIP(a, b, N)
	P := commitInnerProduct(p.Gg, p.Hh, a, b, g)
	reject := func(kind, what string, pf InnerProductProof) bool {
		if zz_vVerdict(c, pf.Verify) {
			c.Violate("%s: inner-product argument of length %d verifies for %s", gn, n, what)
			return false
		}
		c.Event(kind)
		c.Eval(gn, n, what, ip)
		return true
	}
	// proofs generated for a false inner product
	for _, w := range []*big.Int{v.Add(ip, v.B(1)), v.Sub(ip, v.B(1)), v.Neg(ip), v.B(0), v.B(1), v.RandMod(c.R, N), v.Mul(ip, v.B(2))} {
		if v.Mod(v.Sub(w, ip), N).Sign() == 0 {
			continue
		}
		pf, err := proveInnerProduct(zz_vCopy(a), zz_vCopy(b), P, w, p)
		if err == nil && !reject("false_ip_rejected", fmt.Sprintf("inner product %v instead of %v", w, ip), pf) {
			return
		}
	}
	// proofs generated for another commitment
	others := map[string]group.Element{
		"commitment+G":         g.Element().Add(P, g.Generator()),
		"commitment+U":         g.Element().Add(P, p.Uu),
		"commitment+g0":        g.Element().Add(P, p.Gg[0]),
		"commitment+last h":    g.Element().Add(P, p.Hh[n-1]),
		"identity":             g.Identity(),
		"twice the commitment": g.Element().Add(P, P),
	}
	if n > 1 {
		a2 := zz_vCopy(a)
		a2[0], a2[n-1] = a2[n-1], a2[0]
		others["commitment to permuted vector"] = commitInnerProduct(p.Gg, p.Hh, a2, b, g)
	}
	for _, k := range v.SortedKeys(others) {
		pf, err := proveInnerProduct(zz_vCopy(a), zz_vCopy(b), others[k], ip, p)
		if err == nil && !reject("false_ip_rejected", "another commitment: "+k, pf) {
			return
		}
	}
	pf, ok := zz_vTrueIP(c, p, a, b, gn)
	if !ok {
		return
	}
	// generators
	x := g.Element().BaseScale(v.RandNZ(c.R, N))
	gen := func(what string, f func(q *InnerProductParams)) bool {
		m := v.Clone(pf)
		f(&m.Params)
		return reject("false_ip_rejected", "generators changed: "+what, *m)
	}
	// (a single pair is simply revealed: its argument does not involve U)
	if n > 1 && (!gen("U", func(q *InnerProductParams) { q.Uu = x }) ||
		!gen("U identity", func(q *InnerProductParams) { q.Uu = g.Identity() })) {
		return
	}
	if !gen("first g", func(q *InnerProductParams) { q.Gg[0] = x }) ||
		!gen("last g", func(q *InnerProductParams) { q.Gg[n-1] = g.Identity() }) ||
		!gen("last h", func(q *InnerProductParams) { q.Hh[n-1] = x }) ||
		!gen("g and h exchanged", func(q *InnerProductParams) { q.Gg, q.Hh = q.Hh, q.Gg }) {
		return
	}
	if n > 1 && (!gen("g permuted", func(q *InnerProductParams) { q.Gg[0], q.Gg[n-1] = q.Gg[n-1], q.Gg[0] }) ||
		!gen("h permuted", func(q *InnerProductParams) { q.Hh[0], q.Hh[1] = q.Hh[1], q.Hh[0] }) ||
		!gen("half of the generators", func(q *InnerProductParams) { q.Gg, q.Hh = q.Gg[:n/2], q.Hh[:n/2] })) {
		return
	}
	if !gen("one generator more", func(q *InnerProductParams) { q.Gg, q.Hh = append(q.Gg, x), append(q.Hh, x) }) ||
		!gen("twice the generators", func(q *InnerProductParams) { q.Gg, q.Hh = append(q.Gg, q.Gg...), append(q.Hh, q.Hh...) }) {
		return
	}
	// transmitted components
	mut := func(name string, m *InnerProductProof) { reject("mutant_rejected", "altered "+name, *m) }
	v.Mutants(c, pf, []group.Group{g}, gn == "transparent" || c.Thorough(), mut)
	if gn == "transparent" {
		v.Swaps(c, pf, mut)
		v.Twins(c, pf, []group.Group{g}, 40, mut)
		if pf2, ok := zz_vTrueIP(c, p, zz_vVec(c, n, 0, N), zz_vVec(c, n, 0, N), gn); ok {
			v.Splices(pf, pf2, mut)
		}
	}
	// both messages of a round replaced, for vectors whose messages may vanish as well
	for _, k := range []int{0, 1, 2, 5, 6} {
		q, ok := zz_vTrueIP(c, p, zz_vVec(c, n, k, N), zz_vVec(c, n, k, N), gn)
		if !ok {
			return
		}
		for i := range q.L {
			both := map[string]group.Element{"G": g.Generator(), "U": p.Uu, "g": p.Gg[i], "P": q.P, "identity": g.Identity(), "L": q.L[i], "R": q.R[i], "a random element": x}
			for _, w := range v.SortedKeys(both) {
				e := both[w]
				if e.IsEqual(q.L[i]) && e.IsEqual(q.R[i]) {
					continue
				}
				m := v.Clone(q)
				m.L[i], m.R[i] = e, e
				reject("rounds_rejected", fmt.Sprintf("both messages of round %d replaced by %s (vectors %d)", i, w, k), *m)
				m = v.Clone(q)
				m.L[i], m.R[i] = e, g.Element().Negate(e)
				if !e.IsEqual(q.L[i]) || !m.R[i].IsEqual(q.R[i]) {
					reject("rounds_rejected", fmt.Sprintf("the messages of round %d replaced by +-%s (vectors %d)", i, w, k), *m)
				}
			}
		}
		if gn != "transparent" && !c.Thorough() {
			break
		}
	}
	// rounds
	r := len(pf.L)
	rounds := func(what string, f func(m *InnerProductProof)) {
		m := v.Clone(pf)
		f(m)
		reject("rounds_rejected", what, *m)
	}
	for i := 0; i < r; i++ {
		i := i
		rounds(fmt.Sprintf("round %d missing", i), func(m *InnerProductProof) {
			m.L, m.R = append(m.L[:i:i], m.L[i+1:]...), append(m.R[:i:i], m.R[i+1:]...)
		})
		rounds(fmt.Sprintf("round %d doubled", i), func(m *InnerProductProof) {
			m.L, m.R = append(m.L[:i:i], append([]group.Element{m.L[i]}, m.L[i:]...)...), append(m.R[:i:i], append([]group.Element{m.R[i]}, m.R[i:]...)...)
		})
		if i+1 < r {
			rounds(fmt.Sprintf("rounds %d and %d exchanged", i, i+1), func(m *InnerProductProof) {
				m.L[i], m.L[i+1] = m.L[i+1], m.L[i]
				m.R[i], m.R[i+1] = m.R[i+1], m.R[i]
			})
		}
		rounds(fmt.Sprintf("L and R of round %d exchanged", i), func(m *InnerProductProof) { m.L[i], m.R[i] = m.R[i], m.L[i] })
	}
	id := g.Identity()
	rounds("a round of identities added", func(m *InnerProductProof) { m.L, m.R = append(m.L, id), append(m.R, id) })
	rounds("a round of identities prepended", func(m *InnerProductProof) {
		m.L, m.R = append([]group.Element{id}, m.L...), append([]group.Element{id}, m.R...)
	})
	rounds("an extra L", func(m *InnerProductProof) { m.L = append(m.L, id) })
	rounds("an extra R", func(m *InnerProductProof) { m.R = append(m.R, id) })
	if r > 0 {
		rounds("no rounds", func(m *InnerProductProof) { m.L, m.R = nil, nil })
		rounds("one L less", func(m *InnerProductProof) { m.L = m.L[:r-1] })
		rounds("one R less", func(m *InnerProductProof) { m.R = m.R[:r-1] })
		// a vector that is zero outside of its first entries could be argued about with fewer rounds
		for s := 1; s < n; s *= 2 {
			sa, sb := zz_vVec(c, n, 1, N), zz_vVec(c, n, 1, N)
			for i := 0; i < s; i++ {
				sa[i], sb[i] = v.RandNZ(c.R, N), v.RandNZ(c.R, N)
			}
			q := p
			q.Gg, q.Hh = append([]group.Element{}, p.Gg[:s]...), append([]group.Element{}, p.Hh[:s]...)
			SP := commitInnerProduct(q.Gg, q.Hh, sa[:s], sb[:s], g)
			spf, err := proveInnerProduct(sa[:s], sb[:s], SP, zz_vIP(sa, sb, N), q)
			if err != nil {
				continue
			}
			spf.Params = p
			reject("rounds_rejected", fmt.Sprintf("%d rounds less", r-len(spf.L)), spf)
		}
	}
}

// zz_vTruth reads an inner-product statement over the transparent group.
func zz_vTruth(p InnerProductParams, P *v.TElem, cc, N *big.Int) bool {
	rest := P.Clone()
	s := new(big.Int)
	for i := range p.Gg {
		gi, _, _ := p.Gg[i].(*v.TElem).SingleBasis()
		hi, _, _ := p.Hh[i].(*v.TElem).SingleBasis()
		a, b := rest.Coef(gi), rest.Coef(hi)
		s.Add(s, v.Mul(a, b))
		rest = rest.Plus(p.Gg[i].(*v.TElem), v.Neg(a)).Plus(p.Hh[i].(*v.TElem), v.Neg(b))
	}
	return len(rest.Support()) == 0 && v.Mod(v.Sub(s, cc), N).Sign() == 0
}

// zz_vC21solve: the prover fixes the rounds, learns the round challenges by watching the verifier, and only
// then picks commitment and inner product so that the equation holds.
func zz_vC21solve(c *v.Ctx, n int) {
	g := v.TCurve()
	N := g.N()
	p := zz_vParams(c, g, n, false)
	r := 0
	for 1<<r < n {
		r++
	}
	el := func(m map[int]*big.Int) *v.TElem { return g.Combo(m) }
	rnd := func() *v.TElem {
		e := el(map[int]*big.Int{})
		for i := range p.Gg {
			e = e.Plus(p.Gg[i].(*v.TElem), v.RandMod(c.R, N)).Plus(p.Hh[i].(*v.TElem), v.RandMod(c.R, N))
		}
		return e
	}
	for try := 0; try < 6; try++ {
		pf := InnerProductProof{A: v.RandNZ(c.R, N), B: v.RandNZ(c.R, N), Params: p}
		for i := 0; i < r; i++ {
			L, R := rnd(), rnd()
			if try == 0 {
				L, R = el(map[int]*big.Int{1: v.RandNZ(c.R, N)}), el(map[int]*big.Int{1: v.RandNZ(c.R, N)})
			}
			pf.L, pf.R = append(pf.L, L), append(pf.R, R)
		}
		pf.Cc = v.MulM(pf.A, pf.B, N)
		if try == 5 {
			pf.Cc = v.RandMod(c.R, N) // statement with a U part
		}
		pf.P = rnd()
		o := g.Observe(func() { _, _ = pf.Verify() })
		if len(o.Resid) == 0 {
			c.Event("no_residual_seen")
			continue
		}
		// the equation is linear in P with factor +-1: move the residual into P
		for _, res := range o.Resid {
			for _, s := range []int64{1, -1} {
				m := v.Clone(pf)
				m.P = pf.P.(*v.TElem).Plus(res, v.B(s))
				if zz_vVerdict(c, m.Verify) {
					if zz_vTruth(p, m.P.(*v.TElem), m.Cc, N) {
						c.Event("patched_to_true_statement")
						continue
					}
					c.Violate("transparent: length %d: rounds were fixed first and a commitment fitting their challenges afterwards; the argument verifies although the commitment's vectors do not have the stated inner product", n)
					return
				}
				c.Event("false_ip_rejected")
			}
			// move it into L or R of some round
			for i := range pf.L {
				for _, lr := range []bool{true, false} {
					e := pf.R[i]
					if lr {
						e = pf.L[i]
					}
					for _, f := range o.Factors(e) {
						for _, s := range []int64{1, -1} {
							m := v.Clone(pf)
							ne := e.(*v.TElem).Plus(res, v.Mul(v.B(s), v.Inv(f, N)))
							if lr {
								m.L[i] = ne
							} else {
								m.R[i] = ne
							}
							if zz_vVerdict(c, m.Verify) && !zz_vTruth(p, m.P.(*v.TElem), m.Cc, N) {
								c.Violate("transparent: length %d: round %d was zz_fitted to the challenges and a false inner product verifies", n, i)
								return
							}
							c.Event("false_ip_rejected")
						}
					}
				}
			}
		}
		// inner product zz_fitted afterwards: P + w*U with c = <a,b> - w/x
		a, b := zz_vVec(c, n, 0, N), zz_vVec(c, n, 0, N)
		ip := zz_vIP(a, b, N)
		w := v.RandNZ(c.R, N)
		P := commitInnerProduct(p.Gg, p.Hh, a, b, g)
		P2 := g.Element().Add(P, g.Element().Scale(p.Uu, w))
		q, err := proveInnerProduct(zz_vCopy(a), zz_vCopy(b), P2, ip, p)
		if err != nil {
			continue
		}
		o = g.Observe(func() { _, _ = q.Verify() })
		for _, x := range append(o.Factors(p.Uu), v.B(1), v.B(-1), v.B(2)) {
			if v.Mod(x, N).Sign() == 0 {
				continue
			}
			m := v.Clone(q)
			m.Cc = v.Mod(v.Sub(ip, v.Mul(w, v.Inv(x, N))), N)
			again, err := proveInnerProduct(zz_vCopy(a), zz_vCopy(b), P2, m.Cc, p)
			for k, t := range []*InnerProductProof{m, &again} {
				if k == 1 && err != nil {
					continue
				}
				if zz_vVerdict(c, t.Verify) && !zz_vTruth(p, t.P.(*v.TElem), t.Cc, N) {
					c.Violate("transparent: length %d: the stated inner product was fitted to a commitment with a component of the base U and verifies although it is false", n)
					return
				}
				c.Event("false_ip_rejected")
			}
		}
		c.Eval("solve", n, try, pf.A)
	}
}

// zz_vC21coin: coincident arguments for false statements.
func zz_vC21coin(c *v.Ctx, n, rep int) {
	g := v.TCurve()
	N := g.N()
	{
		p := zz_vParams(c, g, n, rep%2 == 1)
		kind := []int{0, 0, 4, 8}[rep]
		a, b := zz_vVec(c, n, kind, N), zz_vVec(c, n, kind, N)
		ip := zz_vIP(a, b, N)
		P := commitInnerProduct(p.Gg, p.Hh, a, b, g)
		type st struct {
			what string
			P    group.Element
			cc   *big.Int
		}
		sts := []st{
			{"c+1", P, v.Mod(v.Add(ip, v.B(1)), N)}, {"c=0", P, v.B(0)}, {"c=1", P, v.B(1)}, {"c=order", P, v.Cp(N)}, {"c=-1", P, v.B(-1)},
			{"c negative", P, v.Sub(v.Add(ip, v.B(1)), N)}, {"c unreduced", P, v.Add(v.Add(ip, v.B(1)), N)}, {"-c", P, v.Mod(v.Neg(ip), N)},
			{"P identity", g.Identity(), ip}, {"P=G", g.Generator(), ip}, {"P=U", p.Uu, ip}, {"P=g", p.Gg[0], ip}, {"P=U, c=1", p.Uu, v.B(1)}, {"P=U, c=0", p.Uu, v.B(0)},
			{"P identity, c=1", g.Identity(), v.B(1)}, {"-P", g.Element().Negate(P), v.Mod(v.Add(ip, v.B(1)), N)}, {"P+cU", g.Element().Add(P, g.Element().Scale(p.Uu, ip)), v.B(0)},
		}
		for si, s := range sts {
			if n > 32 && si%3 != 0 && !c.Thorough() {
				continue
			}
			if zz_vTruth(p, s.P.(*v.TElem), s.cc, N) {
				continue
			}
			pf, err := proveInnerProduct(zz_vCopy(a), zz_vCopy(b), s.P, s.cc, p)
			if err != nil {
				continue
			}
			for _, m := range zz_ippCoincidences(g, N, pf) {
				if zz_vVerdict(c, m.p.Verify) {
					c.Violate("transparent: inner-product argument of length %d verifies for a false statement (%s); its messages: %s", n, s.what, m.what)
					return
				}
				c.Event("coincidence_rejected")
				c.Eval("coin", n, s.what, m.what, s.cc)
			}
		}
	}
}
