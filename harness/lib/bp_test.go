package lib

import (
	"fmt"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C21", Rule: "the inner-product arguments inside honest single and aggregated range proofs, all curves and the transparent group, verified on their own; altered, exchanged and spliced components, other rounds, generators and statements must be rejected", Together: []string{"embedded/"}, Cases: c21, Require: map[string]int{"embedded_ip_verified": 20, "embedded_mutant_rejected": 800}},
		Check{Prop: "C07", Rule: "range proofs for edge and random in-range values, all ranges, all curves plus the transparent group, random and hostile (zero/maximal) tapes, before and after spoiled copies of the same proof; verdict and opening observed", Together: []string{"honest/", "volume/", "history/"}, Cases: c07, Require: map[string]int{"proof_verified": 400, "opening_checked": 400, "hostile_tape": 80, "spoiled_seen": 150, "draw_pattern": 500}},
		Check{Prop: "C08", Rule: "proofs generated for out-of-range values, proofs with one altered/exchanged/spliced component, adaptively patched proofs and proofs of adversarial witnesses; every verdict observed, committed value known", Together: []string{"values/", "mutants/"}, Cases: c08, Require: map[string]int{"out_of_range_rejected": 100, "mutant_rejected": 2000}, Prefer: map[string]int{"patched_rejected": 5000}},
		Check{Prop: "C09", Rule: "aggregated proofs over all divisors of the bit budget: in-range vectors (verdict, openings), out-of-range entries, altered, exchanged and patched components, impossible counts", Together: []string{"honest/", "out/", "mutants/"}, Cases: c09, Require: map[string]int{"proof_verified": 60, "opening_checked": 60, "out_of_range_rejected": 30, "mutant_rejected": 500, "refused": 10, "draw_pattern": 400}},
	)
}

func bpGroup(name string) group.Group {
	if name == "transparent" {
		return TCurve()
	}
	if name == "transparent-long" {
		return NewTGroup("transparent-long", StdOrder["P-384"])
	}
	return Curve(name)
}

var bpGroups = []string{"transparent", "secp256k1", "ristretto255", "P-256", "P-384"}

func mustBP(c *Ctx, b int64, g group.Group) bp.BulletProofSetupParams {
	p, err := bp.Setup(b, g)
	if err != nil {
		Bug("Setup(%d): %v", b, err)
	}
	return p
}

func c07(tier string) []Case {
	cs := atOnce("C07", tier)
	reps := 2
	if tier == "thorough" {
		reps = 12
	}
	for _, gn := range bpGroups {
		for _, b := range bpEnds {
			gn, b := gn, b
			for r := 0; r < reps; r++ {
				cs = append(cs, Case{fmt.Sprintf("honest/%s/%d/%d", gn, b, r), func(c *Ctx) { c07honest(c, gn, b) }})
			}
			cs = append(cs, Case{fmt.Sprintf("tape/%s/%d", gn, b), func(c *Ctx) { c07tape(c, gn, b) }})
		}
	}
	for _, gn := range bpGroups {
		gn := gn
		cs = append(cs, Case{"all8/" + gn, func(c *Ctx) { c07all(c, gn) }})
		cs = append(cs, Case{"draws/" + gn, func(c *Ctx) { c07draws(c, gn) }})
		cs = append(cs, Case{"history/" + gn, func(c *Ctx) { c07history(c, gn) }})
		vol := 2
		if gn == "transparent" {
			vol = 16
		}
		if tier == "thorough" {
			vol *= 12
		}
		for i := 0; i < vol; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("volume/%s/%d", gn, i), func(c *Ctx) { c07volume(c, gn, i) }})
		}
	}
	return cs
}

func rangeValues(c *Ctx, b int64, rnd int) []*big.Int {
	vs := []*big.Int{B(0), B(1), Sub(B(b), B(1))}
	if b > 4 {
		vs = append(vs, B(b/2), B(b/2-1), B(b-2), new(big.Int).SetUint64(0x5555555555555555&uint64(b-1)), new(big.Int).SetUint64(0xaaaaaaaaaaaaaaaa&uint64(b-1)))
	}
	for i := 0; i < rnd; i++ {
		vs = append(vs, RandMod(c.R, B(b)))
	}
	return vs
}

// opens checks V == v*G + gamma*H without the repository's commitment code.
func opens(c *Ctx, g group.Group, H, V group.Element, v, gamma *big.Int) bool {
	if t, ok := V.(*TElem); ok {
		tg := g.(*TGroup)
		want := tg.Generator().(*TElem).Plus(&TElem{}, B(0))
		want = tg.Combo(map[int]*big.Int{0: v}).Plus(H.(*TElem), gamma)
		return t.Same(want)
	}
	r := RefOf(g)
	h, err := r.Read(H)
	if err != nil {
		return false
	}
	x, err := r.Read(V)
	if err != nil {
		return false
	}
	return r.Key(x) == r.Key(r.Add(r.Mul(r.Gen(), v), r.Mul(h, gamma)))
}

// proveOne proves and judges a true statement.
func proveOne(c *Ctx, params bp.BulletProofSetupParams, v *big.Int, what string) (bp.BulletProof, bool) {
	var proof bp.BulletProof
	var gamma *big.Int
	var err error
	ok := false
	vs := v.String()
	pn, st := Safe(func() { proof, gamma, err = bp.Prove(v, params) })
	if pn != nil || err != nil {
		c.Violate("%s: proving %s in [0,2^%d) fails: %v %v [%s]", what, vs, params.N, pn, err, st)
		return proof, false
	}
	pn, st = Safe(func() { ok, err = proof.Verify() })
	if pn != nil || err != nil || !ok {
		c.Violate("%s: proof for %s in [0,2^%d) is rejected: verdict=%v %v %v [%s]", what, vs, params.N, ok, pn, err, st)
		return proof, false
	}
	c.Event("proof_verified")
	if gamma == nil || !opens(c, params.GP, params.H, proof.V, v, gamma) {
		c.Violate("%s: returned blinding factor does not open the commitment to %s", what, vs)
		return proof, false
	}
	c.Event("opening_checked")
	c.Eval(what, params.N, vs, proof.V.String())
	return proof, true
}

func c07honest(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	rnd := 3
	if gn == "transparent" {
		rnd = 10
	}
	for _, v := range rangeValues(c, b, rnd) {
		if _, ok := proveOne(c, params, v, gn); !ok {
			return
		}
	}
	c.Sample(map[string]any{"group": gn, "range_end": b})
}

// c07all proves every value of [0,2^4) and of [0,2^8) (transparent) resp. a stride of it.
func c07all(c *Ctx, gn string) {
	p4 := mustBP(c, 16, bpGroup(gn))
	for v := int64(0); v < 16; v++ {
		if _, ok := proveOne(c, p4, B(v), gn); !ok {
			return
		}
	}
	if gn == "transparent" {
		p8 := mustBP(c, 256, bpGroup(gn))
		for v := int64(0); v < 256; v++ {
			if _, ok := proveOne(c, p8, B(v), gn); !ok {
				return
			}
		}
	}
}

// c07history: proofs must verify whatever the verifier has seen before, spoiled copies included.
func c07history(c *Ctx, gn string) {
	n := 8
	if gn == "transparent" {
		n = 60
	}
	for _, b := range []int64{2, 256, 65536} {
		params := mustBP(c, b, bpGroup(gn))
		v := RandMod(c.R, B(b))
		var proof bp.BulletProof
		var err error
		if pn, st := Safe(func() { proof, _, err = bp.Prove(Cp(v), params) }); pn != nil || err != nil {
			c.Violate("%s: proving %v in [0,2^%d) fails: %v %v [%s]", gn, v, params.N, pn, err, st)
			return
		}
		for k := 0; k < 2; k++ {
			for _, s := range Spoiled(c, proof, []group.Group{params.GP}, n) {
				verdict(c, s.Verify)
				c.Event("spoiled_seen")
			}
			if !verdict(c, proof.Verify) {
				c.Violate("%s: proof for %v in [0,2^%d) is rejected after spoiled copies of it", gn, v, params.N)
				return
			}
			c.Event("proof_verified")
			c.Eval("history", gn, b, k, v)
		}
	}
}

// c07volume proves many values of small ranges: rare scalars and encodings.
func c07volume(c *Ctx, gn string, i int) {
	b := []int64{2, 4, 2, 16}[i%4]
	n := 120
	if gn == "transparent" {
		n = 1800
	}
	params := mustBP(c, b, bpGroup(gn))
	for k := 0; k < n/len(params.Gg); k++ {
		if _, ok := proveOne(c, params, RandMod(c.R, B(b)), gn); !ok {
			return
		}
	}
}

// c07draws combines zero, short and saturated draws of the prover.
func c07draws(c *Ctx, gn string) {
	ends := []int64{2, 4}
	if gn == "transparent" || c.Thorough() {
		ends = []int64{2, 4, 16, 256}
	}
	for _, b := range ends {
		params := mustBP(c, b, bpGroup(gn))
		v := RandMod(c.R, B(b))
		c.Tape.Op(0)
		if _, ok := proveOne(c, params, v, gn); !ok {
			return
		}
		c.DrawPatterns(c.Tape.Used(), 90, func(what string) bool {
			_, ok := proveOne(c, params, v, gn+", "+what)
			c.Event("draw_pattern")
			return ok
		})
	}
}

// c07tape forces single draws of the prover to zero and to the largest value.
func c07tape(c *Ctx, gn string, b int64) {
	if gn != "transparent" && b > 256 && !c.Thorough() {
		return
	}
	params := mustBP(c, b, bpGroup(gn))
	v := RandMod(c.R, B(b))
	c.Tape.Op(0)
	if _, ok := proveOne(c, params, v, gn); !ok {
		return
	}
	draws := c.Tape.Used()
	step := 1
	if gn != "transparent" {
		step = 1 + draws/8
	}
	for j := 0; j < draws; j += step {
		for _, val := range []*big.Int{B(0), Sub(params.GP.N(), B(1)), B(1)} {
			i := 0
			val := val
			c.Tape.Inject = func(n int) []byte {
				i++
				if i-1 == j && len(val.Bytes()) <= n {
					return append([]byte{}, val.FillBytes(make([]byte, n))...)
				}
				return nil
			}
			_, ok := proveOne(c, params, v, fmt.Sprintf("%s, draw %d = %x", gn, j, val))
			c.Tape.Inject = nil
			if !ok {
				return
			}
			c.Event("hostile_tape")
		}
	}
}

// ---------------- C08 ----------------

func c08(tier string) []Case {
	cs := atOnce("C08", tier)
	for _, gn := range bpGroups {
		for _, b := range bpEnds {
			gn, b := gn, b
			cs = append(cs, Case{fmt.Sprintf("values/%s/%d", gn, b), func(c *Ctx) { c08values(c, gn, b) }})
			reps := 1
			if tier == "thorough" {
				reps = 6
			}
			for r := 0; r < reps; r++ {
				if gn != "transparent" && b > 65536 && tier == "quick" {
					continue
				}
				cs = append(cs, Case{fmt.Sprintf("mutants/%s/%d/%d", gn, b, r), func(c *Ctx) { c08mutants(c, gn, b) }})
			}
		}
	}
	reps := 3
	if tier == "thorough" {
		reps = 40
	}
	for _, b := range bpEnds {
		b := b
		for r := 0; r < reps; r++ {
			cs = append(cs, Case{fmt.Sprintf("patch/%d/%d", b, r), func(c *Ctx) { c08patch(c, b) }})
		}
	}
	return cs
}

func outOfRange(c *Ctx, b int64, N *big.Int) []*big.Int {
	bb := B(b)
	return []*big.Int{B(-1), B(-2), Neg(bb), Sub(B(0), Sub(bb, B(1))), bb, Add(bb, B(1)), Add(bb, Sub(bb, B(1))), Mul(bb, B(2)), Mul(bb, bb),
		Sub(N, B(1)), Sub(N, bb), new(big.Int).Rsh(N, 1), RandMod(c.R, N), Add(bb, RandMod(c.R, bb)), Neg(RandMod(c.R, bb)),
		Pow2(64), Add(Pow2(64), B(1)), Add(Pow2(32), B(0)), Add(Pow2(63), B(1)), Pow2(128)}
}

func isInRange(v *big.Int, b int64, N *big.Int) bool { return Mod(v, N).Cmp(B(b)) < 0 }

func verdict(c *Ctx, f func() (bool, error)) bool { return Verdict(c, f) }

func c08values(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	N := params.GP.N()
	vs := outOfRange(c, b, N)
	if gn != "transparent" && !c.Thorough() && b > 256 {
		vs = vs[:8]
	}
	for _, v := range vs {
		if isInRange(v, b, N) {
			continue
		}
		var proof bp.BulletProof
		var err error
		pn, _ := Safe(func() { proof, _, err = bp.Prove(v, params) })
		if pn != nil || err != nil {
			c.Event("out_of_range_rejected")
			continue
		}
		if verdict(c, proof.Verify) {
			c.Violate("%s: proof for %v, outside of [0,2^%d), verifies", gn, v, params.N)
			return
		}
		c.Event("out_of_range_rejected")
		c.Eval(gn, b, v)
		// committed to something else than what was proven: V of another value
		in := RandMod(c.R, B(b))
		p2, _, err := bp.Prove(in, params)
		if err != nil {
			Bug("Prove: %v", err)
		}
		p2.V = proof.V
		if verdict(c, p2.Verify) {
			c.Violate("%s: proof for %v verifies for a commitment to %v, outside of [0,2^%d)", gn, in, v, params.N)
			return
		}
		c.Event("out_of_range_rejected")
	}
	c.Sample(map[string]any{"group": gn, "range_end": b, "tried": fmt.Sprint(vs[:4])})
}

func c08mutants(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	v := RandMod(c.R, B(b))
	proof, ok := proveOne(c, params, v, gn)
	if !ok {
		return
	}
	full := gn == "transparent" || c.Thorough()
	gs := []group.Group{params.GP}
	try := func(name string, m *bp.BulletProof) {
		if verdict(c, m.Verify) {
			c.Violate("%s: proof for %v in [0,2^%d) still verifies after changing %s", gn, v, params.N, name)
		}
		c.Event("mutant_rejected")
		c.Eval(gn, b, name, v)
	}
	Mutants(c, proof, gs, full, try)
	other, _, err := bp.Prove(Mod(Add(v, B(1)), B(b)), params)
	if err != nil {
		Bug("%v", err)
	}
	Splices(proof, other, try)
	if gn == "transparent" {
		Swaps(c, proof, try)
		Twins(c, proof, gs, 60, try)
	} else {
		Twins(c, proof, gs, 4, try)
	}
	// another value with another proof's whole inner product part
	m := Clone(proof)
	m.InnerProductProof = other.InnerProductProof
	try("InnerProductProof of another proof", m)
	// lists
	n := len(proof.InnerProductProof.L)
	if n > 0 {
		m = Clone(proof)
		m.InnerProductProof.L = m.InnerProductProof.L[:n-1]
		m.InnerProductProof.R = m.InnerProductProof.R[:n-1]
		try("last round dropped", m)
		m = Clone(proof)
		m.InnerProductProof.L = m.InnerProductProof.L[1:]
		m.InnerProductProof.R = m.InnerProductProof.R[1:]
		try("first round dropped", m)
		m = Clone(proof)
		m.InnerProductProof.L, m.InnerProductProof.R = m.InnerProductProof.R, m.InnerProductProof.L
		try("L and R exchanged", m)
		m = Clone(proof)
		m.InnerProductProof.L, m.InnerProductProof.R = nil, nil
		try("no rounds", m)
	}
	m = Clone(proof)
	m.InnerProductProof.L = append(m.InnerProductProof.L, params.GP.Generator())
	m.InnerProductProof.R = append(m.InnerProductProof.R, params.GP.Generator())
	try("round added", m)
}

// patches tries to repair a failing proof by adding a multiple of an observed residual to one component.
func patches[T any](c *Ctx, g *TGroup, proof T, verify func(*T) func() (bool, error), accepted func(path string, m *T)) {
	Patches(c, []*TGroup{g}, proof, verify, accepted)
}

// committed reads a transparent commitment: value and whether it is a combination of G and H only.
func committed(V group.Element, H group.Element) (*big.Int, bool) {
	t := V.(*TElem)
	hb, _, ok := H.(*TElem).SingleBasis()
	if !ok {
		Bug("H is not a single basis")
	}
	for _, b := range t.Support() {
		if b != 0 && b != hb {
			return nil, false
		}
	}
	return t.Coef(0), true
}

func c08patch(c *Ctx, b int64) {
	g := TCurve()
	params := mustBP(c, b, g)
	vs := outOfRange(c, b, g.N())
	vf := func(m *bp.BulletProof) func() (bool, error) { return m.Verify }
	bad := func(what string) func(path string, m *bp.BulletProof) {
		return func(path string, m *bp.BulletProof) {
			v, clean := committed(m.V, params.H)
			if clean && isInRange(v, b, g.N()) {
				c.Event("patched_to_true_statement")
				return
			}
			c.Violate("%s: after the challenges were known, %s was adjusted and the proof verifies although its commitment contains %v (clean=%v), outside of [0,2^%d)", what, path, v, clean, params.N)
		}
	}
	for k := 0; k < 3; k++ {
		v := vs[c.R.IntN(len(vs))]
		if isInRange(v, b, g.N()) {
			continue
		}
		proof, _, err := bp.Prove(v, params)
		if err != nil {
			continue
		}
		patches(c, g, proof, vf, bad("out-of-range value"))
		c.Eval("patch", b, v)
	}
	// a true proof, one component disturbed, another one adjusted
	proof, _, err := bp.Prove(RandMod(c.R, B(b)), params)
	if err != nil {
		Bug("%v", err)
	}
	base := Clone(proof)
	for i, l := range Leaves(base, false) {
		m := Clone(proof)
		if l.Elem != nil {
			Leaves(m, false)[i].SetElem(g.Element().Add(l.Elem, g.Element().BaseScale(RandNZ(c.R, g.N()))))
		} else {
			Leaves(m, false)[i].SetInt(RandMod(c.R, g.N()))
		}
		path := l.Path
		patches(c, g, *m, vf, func(p2 string, m2 *bp.BulletProof) {
			if path == p2 { // the disturbance was merely undone
				return
			}
			bad("true proof with "+path+" disturbed")(p2, m2)
		})
		c.Eval("disturb", b, path)
	}
}

// ---------------- C21 (arguments inside range proofs; exported names only) ----------------

func c21(tier string) []Case {
	var cs []Case
	for _, gn := range bpGroups {
		for _, b := range bpEnds {
			if gn != "transparent" && b > 256 && tier == "quick" {
				continue
			}
			gn, b := gn, b
			for _, multi := range []bool{false, true} {
				multi := multi
				cs = append(cs, Case{fmt.Sprintf("embedded/%s/%d/%v", gn, b, multi), func(c *Ctx) { c21embedded(c, gn, b, multi) }})
			}
		}
	}
	return cs
}

func c21embedded(c *Ctx, gn string, b int64, multi bool) {
	g := bpGroup(gn)
	params := mustBP(c, b, g)
	get := func() (pf bp.InnerProductProof, ok bool) {
		pn, _ := Safe(func() {
			if multi {
				m := 1
				if params.N%2 == 0 {
					m = 2
				}
				var vs []*big.Int
				for i := 0; i < m; i++ {
					vs = append(vs, RandMod(c.R, Pow2(int(params.N)/m)))
				}
				var p bp.MultiBulletProof
				var err error
				p, _, err = bp.MultiProve(vs, params)
				pf, ok = p.InnerProductProof, err == nil
			} else {
				p, _, err := bp.Prove(RandMod(c.R, B(b)), params)
				pf, ok = p.InnerProductProof, err == nil
			}
		})
		return pf, ok && pn == nil && pf.P != nil
	}
	pf, ok := get()
	if !ok {
		c.Event("no_argument") // the provers are the business of C07 and C09
		return
	}
	if !Verdict(c, pf.Verify) {
		c.Violate("%s: the inner-product argument of an honest range proof over %d bits does not verify", gn, params.N)
		return
	}
	c.Event("embedded_ip_verified")
	bad := false
	rej := func(what string, m *bp.InnerProductProof) {
		if bad {
			return
		}
		if Verdict(c, m.Verify) {
			c.Violate("%s: the inner-product argument of a range proof over %d bits verifies with %s", gn, params.N, what)
			bad = true
			return
		}
		c.Event("embedded_mutant_rejected")
		c.Eval(gn, b, multi, what)
	}
	full := gn == "transparent" || c.Thorough()
	Mutants(c, pf, []group.Group{g}, full, func(n string, m *bp.InnerProductProof) { rej("altered "+n, m) })
	if full {
		Swaps(c, pf, func(n string, m *bp.InnerProductProof) { rej("exchanged "+n, m) })
		Twins(c, pf, []group.Group{g}, 40, func(n string, m *bp.InnerProductProof) { rej("equalled "+n, m) })
	}
	if pf2, ok := get(); ok {
		Splices(pf, pf2, func(n string, m *bp.InnerProductProof) { rej(n, m) })
	}
	r := len(pf.L)
	ch := func(what string, f func(m *bp.InnerProductProof)) {
		m := Clone(pf)
		m.Params.Gg = append([]group.Element{}, pf.Params.Gg...)
		m.Params.Hh = append([]group.Element{}, pf.Params.Hh...)
		f(m)
		rej(what, m)
	}
	id := g.Identity()
	for i := 0; i < r; i++ {
		i := i
		ch(fmt.Sprintf("round %d missing", i), func(m *bp.InnerProductProof) {
			m.L, m.R = append(m.L[:i:i], m.L[i+1:]...), append(m.R[:i:i], m.R[i+1:]...)
		})
		if i+1 < r {
			ch(fmt.Sprintf("rounds %d and %d exchanged", i, i+1), func(m *bp.InnerProductProof) {
				m.L[i], m.L[i+1] = m.L[i+1], m.L[i]
				m.R[i], m.R[i+1] = m.R[i+1], m.R[i]
			})
		}
	}
	ch("a round of identities added", func(m *bp.InnerProductProof) { m.L, m.R = append(m.L, id), append(m.R, id) })
	ch("an extra L", func(m *bp.InnerProductProof) { m.L = append(m.L, id) })
	ch("an extra R", func(m *bp.InnerProductProof) { m.R = append(m.R, id) })
	n := len(pf.Params.Gg)
	if n == 0 || len(pf.Params.Hh) != n {
		return
	}
	x := g.Element().BaseScale(RandNZ(c.R, g.N()))
	ch("another first g", func(m *bp.InnerProductProof) { m.Params.Gg[0] = x })
	ch("another last h", func(m *bp.InnerProductProof) { m.Params.Hh[n-1] = x })
	ch("one generator more", func(m *bp.InnerProductProof) {
		m.Params.Gg, m.Params.Hh = append(m.Params.Gg, x), append(m.Params.Hh, x)
	})
	if n > 1 {
		ch("another U", func(m *bp.InnerProductProof) { m.Params.Uu = x })
		ch("fewer generators", func(m *bp.InnerProductProof) { m.Params.Gg, m.Params.Hh = m.Params.Gg[:n/2], m.Params.Hh[:n/2] })
		ch("g permuted", func(m *bp.InnerProductProof) {
			m.Params.Gg[0], m.Params.Gg[n-1] = m.Params.Gg[n-1], m.Params.Gg[0]
		})
	}
}
