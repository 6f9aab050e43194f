package lib

import (
	"fmt"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func divisors(n int64) []int {
	var d []int
	for m := int64(1); m <= n; m++ {
		if n%m == 0 {
			d = append(d, int(m))
		}
	}
	return d
}

func c09(tier string) []Case {
	cs := atOnce("C09", tier)
	for _, gn := range bpGroups {
		for _, b := range bpEnds {
			gn, b := gn, b
			n := int64(B(b).BitLen() - 1)
			for _, m := range divisors(n) {
				m := m
				heavy := gn != "transparent" && n*int64(m) > 128 && tier == "quick"
				if heavy && (m != 2 && m != int(n)) {
					continue
				}
				cs = append(cs, Case{fmt.Sprintf("honest/%s/%d/%d", gn, n, m), func(c *Ctx) { c09honest(c, gn, b, m) }})
				cs = append(cs, Case{fmt.Sprintf("out/%s/%d/%d", gn, n, m), func(c *Ctx) { c09out(c, gn, b, m) }})
				if gn == "transparent" || n <= 8 || tier == "thorough" {
					cs = append(cs, Case{fmt.Sprintf("mutants/%s/%d/%d", gn, n, m), func(c *Ctx) { c09mutants(c, gn, b, m) }})
				}
				if gn == "transparent" && m > 1 {
					cs = append(cs, Case{fmt.Sprintf("pairs/%d/%d", n, m), func(c *Ctx) { c09pairs(c, gn, b, m) }})
				}
				if gn == "transparent" {
					cs = append(cs, Case{fmt.Sprintf("patch/%d/%d", n, m), func(c *Ctx) { c09patch(c, b, m) }})
				}
			}
			cs = append(cs, Case{fmt.Sprintf("refuse/%s/%d", gn, n), func(c *Ctx) { c09refuse(c, gn, b) }})
		}
		gn := gn
		cs = append(cs, Case{"draws/" + gn, func(c *Ctx) { c09draws(c, gn) }})
	}
	return cs
}

// c09draws combines zero, short and saturated draws of the prover.
func c09draws(c *Ctx, gn string) {
	sizes := [][2]int64{{4, 2}, {4, 1}}
	if gn == "transparent" || c.Thorough() {
		sizes = [][2]int64{{2, 1}, {4, 2}, {4, 1}, {16, 2}, {16, 4}}
	}
	for _, s := range sizes {
		params := mustBP(c, s[0], bpGroup(gn))
		vs := vecValues(c, params.N/s[1], int(s[1]), 2)
		c.Tape.Op(0)
		if _, ok := multiOne(c, params, vs, gn); !ok {
			return
		}
		c.DrawPatterns(c.Tape.Used(), 60, func(what string) bool {
			_, ok := multiOne(c, params, vs, gn+", "+what)
			c.Event("draw_pattern")
			return ok
		})
	}
}

func vecValues(c *Ctx, k int64, m int, kind int) []*big.Int {
	out := make([]*big.Int, m)
	top := Sub(Pow2(int(k)), B(1))
	for j := range out {
		switch kind {
		case 0:
			out[j] = B(0)
		case 1:
			out[j] = Cp(top)
		case 2:
			out[j] = RandMod(c.R, Pow2(int(k)))
		case 3: // distinct where possible
			out[j] = Mod(B(int64(j)+1), Pow2(int(k)))
		case 4:
			out[j] = B(0)
			if j == m-1 {
				out[j] = Cp(top)
			}
		case 5:
			out[j] = Cp(top)
			if j == 0 {
				out[j] = B(0)
			}
		}
	}
	return out
}

// multiOne proves and judges a true statement.
func multiOne(c *Ctx, params bp.BulletProofSetupParams, vs []*big.Int, what string) (bp.MultiBulletProof, bool) {
	var proof bp.MultiBulletProof
	var gs []*big.Int
	var err error
	ok := false
	want := fmt.Sprint(vs)
	in := make([]*big.Int, len(vs))
	for i := range vs {
		in[i] = Cp(vs[i])
	}
	pn, st := Safe(func() { proof, gs, err = bp.MultiProve(in, params) })
	if pn != nil || err != nil {
		c.Violate("%s: aggregated proof of %s (%d bits in total) fails: %v %v [%s]", what, want, params.N, pn, err, st)
		return proof, false
	}
	pn, st = Safe(func() { ok, err = proof.Verify() })
	if pn != nil || err != nil || !ok {
		c.Violate("%s: aggregated proof of %s (%d bits in total) is rejected: verdict=%v %v %v [%s]", what, want, params.N, ok, pn, err, st)
		return proof, false
	}
	c.Event("proof_verified")
	if len(gs) != len(vs) || len(proof.Vs) != len(vs) {
		c.Violate("%s: aggregated proof of %d values has %d commitments and %d blinding factors", what, len(vs), len(proof.Vs), len(gs))
		return proof, false
	}
	for j := range vs {
		if gs[j] == nil || !opens(c, params.GP, params.H, proof.Vs[j], vs[j], gs[j]) {
			c.Violate("%s: blinding factor %d does not open commitment %d of %s", what, j, j, want)
			return proof, false
		}
		c.Event("opening_checked")
	}
	c.Eval(what, params.N, want, proof.A.String())
	return proof, true
}

func c09honest(c *Ctx, gn string, b int64, m int) {
	params := mustBP(c, b, bpGroup(gn))
	k := params.N / int64(m)
	kinds := []int{2, 0, 1, 3, 4, 5, 2, 2}
	if gn != "transparent" && !c.Thorough() {
		kinds = []int{2, 4}
		if params.N <= 4 {
			kinds = []int{2, 4, 1, 5}
		}
	}
	for _, kd := range kinds {
		if _, ok := multiOne(c, params, vecValues(c, k, m, kd), gn); !ok {
			return
		}
	}
	c.Sample(map[string]any{"group": gn, "bits": params.N, "values": m})
}

func c09out(c *Ctx, gn string, b int64, m int) {
	params := mustBP(c, b, bpGroup(gn))
	k := params.N / int64(m)
	N := params.GP.N()
	e := Pow2(int(k))
	bad := []*big.Int{e, B(-1), Add(e, B(1)), Sub(Mul(e, B(2)), B(1)), Sub(N, B(1)), Neg(e), RandMod(c.R, N), B(b), Sub(B(b), B(1)), Mul(e, e), Pow2(64), Sub(Pow2(32), B(1))}
	pos := []int{0, m - 1, m / 2}
	if gn != "transparent" && !c.Thorough() {
		bad = bad[:3]
		pos = []int{0, m - 1}
	}
	seen := map[int]bool{}
	for _, j := range pos {
		if seen[j] {
			continue
		}
		seen[j] = true
		for _, v := range bad {
			if Mod(v, N).Cmp(e) < 0 {
				continue
			}
			vs := vecValues(c, k, m, 2)
			vs[j] = v
			var proof bp.MultiBulletProof
			var err error
			pn, _ := Safe(func() { proof, _, err = bp.MultiProve(vs, params) })
			if pn != nil || err != nil {
				c.Event("out_of_range_rejected")
				continue
			}
			if verdict(c, proof.Verify) {
				c.Violate("%s: aggregated proof verifies although value %d is %v, outside of [0,2^%d)", gn, j, v, k)
				return
			}
			c.Event("out_of_range_rejected")
			c.Eval(gn, b, m, j, v)
			if !c.Thorough() && gn != "transparent" {
				continue
			}
			// a commitment to an outside value under a proof for inside values
			good, _, err := bp.MultiProve(vecValues(c, k, m, 2), params)
			if err != nil {
				return
			}
			g2 := Clone(good)
			g2.Vs[j] = proof.Vs[j]
			if verdict(c, g2.Verify) {
				c.Violate("%s: aggregated proof verifies for a commitment %d to %v, outside of [0,2^%d)", gn, j, v, k)
				return
			}
			c.Event("out_of_range_rejected")
		}
	}
}

// c09pairs: values outside of the range whose surplus cancels in sums of some of them.
func c09pairs(c *Ctx, gn string, b int64, m int) {
	params := mustBP(c, b, bpGroup(gn))
	k := params.N / int64(m)
	N := params.GP.N()
	e := Pow2(int(k))
	type pair struct{ i, j int }
	var ps []pair
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			if i != j {
				ps = append(ps, pair{i, j})
			}
		}
	}
	c.R.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
	max := 90
	if c.Thorough() {
		max = 400
	}
	if len(ps) > max {
		ps = ps[:max]
	}
	// distances that a reduced exponent or index would identify, in every tier
	for d := 1; d < m; d *= 2 {
		ps = append(ps, pair{0, d}, pair{d, 0}, pair{m - 1 - d, m - 1})
	}
	try := func(what string, vs []*big.Int) bool {
		want := fmt.Sprint(vs)
		var proof bp.MultiBulletProof
		var err error
		pn, _ := Safe(func() { proof, _, err = bp.MultiProve(vs, params) })
		if pn == nil && err == nil && verdict(c, proof.Verify) {
			c.Violate("%s: aggregated proof verifies for %s (%s), outside of [0,2^%d)", gn, want, what, k)
			return false
		}
		c.Event("out_of_range_rejected")
		c.Event("compensating_values_rejected")
		c.Eval(gn, b, m, want)
		return true
	}
	for _, p := range ps {
		vs := vecValues(c, k, m, 2)
		t := B(int64(1 + c.R.IntN(3)))
		vs[p.i] = Add(vs[p.i], Mul(e, t))
		vs[p.j] = Sub(vs[p.j], Mul(e, t))
		if Mod(vs[p.i], N).Cmp(e) < 0 && Mod(vs[p.j], N).Cmp(e) < 0 {
			continue
		}
		if !try(fmt.Sprintf("values %d and %d wrong by opposite amounts", p.i, p.j), vs) {
			return
		}
	}
	if m > 2 {
		vs := vecValues(c, k, m, 2)
		sum := B(0)
		for i := 0; i < m-1; i++ {
			d := Mul(e, B(int64(c.R.IntN(5)-2)))
			vs[i] = Add(vs[i], d)
			sum = Add(sum, d)
		}
		vs[m-1] = Sub(vs[m-1], sum)
		out := false
		for _, x := range vs {
			out = out || Mod(x, N).Cmp(e) >= 0
		}
		if out {
			try("the errors add up to zero", vs)
		}
	}
}

func c09mutants(c *Ctx, gn string, b int64, m int) {
	params := mustBP(c, b, bpGroup(gn))
	k := params.N / int64(m)
	vs := vecValues(c, k, m, 2)
	if k > 1 {
		vs = vecValues(c, k, m, 3)
	}
	proof, ok := multiOne(c, params, vs, gn)
	if !ok {
		return
	}
	full := c.Thorough()
	gs := []group.Group{params.GP}
	try := func(name string, mm *bp.MultiBulletProof) {
		if verdict(c, mm.Verify) {
			c.Violate("%s: aggregated proof of %v (%d bits) still verifies after changing %s", gn, vs, params.N, name)
		}
		c.Event("mutant_rejected")
		c.Eval(gn, b, m, name)
	}
	Mutants(c, proof, gs, full, try)
	if !verdict(c, proof.Verify) {
		c.Violate("%s: aggregated proof of %v (%d bits) is rejected after spoiled copies of it", gn, vs, params.N)
		return
	}
	if gn == "transparent" {
		Swaps(c, proof, func(name string, mm *bp.MultiBulletProof) {
			if c.Thorough() || params.N <= 8 || c.R.IntN(int(params.N)/2) == 0 {
				try(name, mm)
			}
		})
		Twins(c, proof, gs, 40, try)
		other, _, err := bp.MultiProve(vecValues(c, k, m, 2), params)
		if err == nil {
			Splices(proof, other, try)
			x := Clone(proof)
			x.InnerProductProof = other.InnerProductProof
			try("InnerProductProof of another proof", x)
		}
	}
	x := Clone(proof)
	x.Vs = append(x.Vs, params.GP.Identity())
	try("a commitment appended", x)
	x = Clone(proof)
	x.Vs = append(x.Vs, x.Vs...)
	try("the commitments repeated", x)
	if m > 1 {
		x = Clone(proof)
		x.Vs = x.Vs[:m-1]
		try("the last commitment dropped", x)
		x = Clone(proof)
		x.Vs = x.Vs[:m/2]
		try("half of the commitments dropped", x)
		x = Clone(proof)
		for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
			x.Vs[i], x.Vs[j] = x.Vs[j], x.Vs[i]
		}
		try("the commitments reversed", x)
	}
	if n := len(proof.InnerProductProof.L); n > 0 {
		x = Clone(proof)
		x.InnerProductProof.L = x.InnerProductProof.L[:n-1]
		x.InnerProductProof.R = x.InnerProductProof.R[:n-1]
		try("last round dropped", x)
		x = Clone(proof)
		x.InnerProductProof.L, x.InnerProductProof.R = x.InnerProductProof.R, x.InnerProductProof.L
		try("L and R exchanged", x)
	}
}

func c09patch(c *Ctx, b int64, m int) {
	g := TCurve()
	params := mustBP(c, b, g)
	k := params.N / int64(m)
	e := Pow2(int(k))
	vf := func(mm *bp.MultiBulletProof) func() (bool, error) { return mm.Verify }
	bad := func(what string) func(path string, mm *bp.MultiBulletProof) {
		return func(path string, mm *bp.MultiBulletProof) {
			for j, V := range mm.Vs {
				v, clean := committed(V, params.H)
				if !clean || v.Cmp(e) >= 0 {
					c.Violate("%s: after the challenges were known, %s was adjusted and the aggregated proof (m=%d) verifies although commitment %d contains %v (clean=%v), outside of [0,2^%d)", what, path, m, j, v, clean, k)
					return
				}
			}
			c.Event("patched_to_true_statement")
		}
	}
	vs := vecValues(c, k, m, 2)
	vs[c.R.IntN(m)] = Add(e, RandMod(c.R, e))
	if proof, _, err := bp.MultiProve(vs, params); err == nil {
		patches(c, g, proof, vf, bad("out-of-range value"))
	}
	proof, _, err := bp.MultiProve(vecValues(c, k, m, 2), params)
	if err != nil {
		c.Violate("MultiProve of %d values over %d bits: %v", m, params.N, err)
		return
	}
	for i, l := range Leaves(Clone(proof), false) {
		if !c.Thorough() && (m > 2 || i > 12 || b > 65536) && c.R.IntN(6) != 0 {
			continue
		}
		x := Clone(proof)
		if l.Elem != nil {
			Leaves(x, false)[i].SetElem(g.Element().Add(l.Elem, g.Element().BaseScale(RandNZ(c.R, g.N()))))
		} else {
			Leaves(x, false)[i].SetInt(RandMod(c.R, g.N()))
		}
		path := l.Path
		patches(c, g, *x, vf, func(p2 string, m2 *bp.MultiBulletProof) {
			if path != p2 {
				bad("true proof with "+path+" disturbed")(p2, m2)
			}
		})
		c.Eval("disturb", b, m, path)
	}
}

func c09refuse(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	n := int(params.N)
	var good bp.MultiBulletProof
	good, _, _ = bp.MultiProve([]*big.Int{B(0)}, params)
	for _, m := range []int{0, 3, 5, 6, 7, n - 1, n + 1, 2 * n, 2*n + 1, 100} {
		if m < 0 || (m > 0 && n%m == 0) {
			continue
		}
		vs := make([]*big.Int, m)
		for i := range vs {
			vs[i] = B(int64(i % 2))
		}
		var err error
		pn, st := Safe(func() { _, _, err = bp.MultiProve(vs, params) })
		if pn != nil {
			c.Violate("%s: aggregated proof of %d values over %d bits crashes: %v [%s]", gn, m, n, pn, st)
			return
		}
		if err == nil {
			c.Violate("%s: aggregated proof of %d values over %d bits is not refused", gn, m, n)
			return
		}
		c.Event("refused")
		// the verifier meets the same impossible count
		x := Clone(good)
		x.Vs = nil
		for i := 0; i < m; i++ {
			x.Vs = append(x.Vs, params.GP.Identity())
		}
		ok := false
		pn, st = Safe(func() {
			v, e := x.Verify()
			ok = v && e == nil
		})
		if pn != nil {
			c.Violate("%s: verifying an aggregated proof with %d commitments over %d bits crashes: %v [%s]", gn, m, n, pn, st)
			return
		}
		if ok {
			c.Violate("%s: aggregated proof with %d commitments over %d bits verifies", gn, m, n)
			return
		}
		c.Event("refused")
		c.Eval("refuse", gn, n, m)
	}
}
