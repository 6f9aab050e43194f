package vlib

import "math/big"

// Verdict runs a verification; a panic counts as a rejection (crashes are C13's business).
func Verdict(c *Ctx, f func() (bool, error)) bool {
	ok := false
	pn, _ := Safe(func() {
		v, err := f()
		ok = v && err == nil
	})
	if pn != nil {
		c.Event("verify_panicked")
		return false
	}
	return ok
}

// Patches observes the verification of a rejected proof over transparent groups and tries to repair one
// component at a time from what the failing comparisons revealed: elements are shifted by the difference
// divided by a factor they were multiplied with, scalars by a coefficient of the difference.
func Patches[T any](c *Ctx, gs []*TGroup, proof T, verify func(*T) func() (bool, error), accepted func(path string, m *T)) {
	base := Clone(proof)
	ok := false
	obs := make([]Obs, len(gs))
	run := func() { ok, _ = verify(base)() }
	for i, g := range gs {
		i, g, inner := i, g, run
		run = func() { obs[i] = g.Observe(inner) }
	}
	run()
	if ok {
		return
	}
	n := 0
	for _, o := range obs {
		n += len(o.Resid)
	}
	if n == 0 {
		c.Event("no_residual_seen")
		return
	}
	ls := Leaves(base, false)
	for i, l := range ls {
		var cand []T
		add := func(set func(m Leaf)) {
			m := Clone(proof)
			set(Leaves(m, false)[i])
			cand = append(cand, *m)
		}
		for k, g := range gs {
			o := obs[k]
			if l.Elem != nil {
				if l.Elem.(*TElem).g != g {
					continue
				}
				fs := append([]*big.Int{B(1)}, o.Factors(l.Elem)...)
				for ri, r := range o.Resid {
					if ri > 5 {
						break
					}
					for _, f := range fs {
						if Mod(f, g.N()).Sign() == 0 {
							continue
						}
						fi := Inv(f, g.N())
						for _, s := range []*big.Int{fi, Neg(fi)} {
							s := s
							e := l.Elem.(*TElem).Plus(r, s)
							add(func(m Leaf) { m.SetElem(e) })
						}
					}
				}
			} else {
				for ri, r := range o.Resid {
					if ri > 5 {
						break
					}
					for _, bs := range r.Support() {
						d := r.Coef(bs)
						x1, x2 := Mod(Add(l.Int, d), g.N()), Mod(Sub(l.Int, d), g.N())
						add(func(m Leaf) { m.SetInt(x1) })
						add(func(m Leaf) { m.SetInt(x2) })
					}
				}
			}
		}
		for k := range cand {
			if Verdict(c, verify(&cand[k])) {
				accepted(l.Path, &cand[k])
				return
			}
			c.Event("patched_rejected")
		}
	}
}
