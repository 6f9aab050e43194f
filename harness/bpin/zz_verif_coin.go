package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	v "github.com/takakv/msc-poc/zzverif/vlib"
)

// Coincidences: exactly one relation of the proof is false, and components which the prover chooses freely
// in that case are trivial, equal to or the opposite of each other, or stated unreduced. A verifier must
// not treat any of these as special.

type zz_ippVariant struct {
	what string
	p    InnerProductProof
}

// zz_ippCoincidences replaces the messages of an inner-product argument by coincident ones.
func zz_ippCoincidences(g group.Group, N *big.Int, pf InnerProductProof) []zz_ippVariant {
	var out []zz_ippVariant
	add := func(what string, f func(m *InnerProductProof)) {
		m := v.Clone(pf)
		f(m)
		out = append(out, zz_ippVariant{what, *m})
	}
	r := len(pf.L)
	id := g.Identity()
	scal := func(tag string, f func(m *InnerProductProof)) {
		add(tag, f)
		add(tag+", scalars 0", func(m *InnerProductProof) { f(m); m.A, m.B = v.B(0), v.B(0) })
		add(tag+", scalars 1 and c", func(m *InnerProductProof) { f(m); m.A, m.B = v.B(1), v.Cp(m.Cc) })
		add(tag+", scalars c and 1", func(m *InnerProductProof) { f(m); m.A, m.B = v.Cp(m.Cc), v.B(1) })
	}
	scal("unchanged messages", func(m *InnerProductProof) {})
	add("a=0", func(m *InnerProductProof) { m.A = v.B(0) })
	add("b=0", func(m *InnerProductProof) { m.B = v.B(0) })
	add("a=b", func(m *InnerProductProof) { m.B = m.A })
	add("b=a", func(m *InnerProductProof) { m.A = m.B })
	add("a=-b", func(m *InnerProductProof) { m.A = v.Neg(m.B) })
	add("a=b=1", func(m *InnerProductProof) { m.A, m.B = v.B(1), v.B(1) })
	add("a=b=-1", func(m *InnerProductProof) { m.A, m.B = v.B(-1), v.B(-1) })
	add("a=b=order", func(m *InnerProductProof) { m.A, m.B = N, N })
	add("a=c", func(m *InnerProductProof) { m.A = v.Cp(m.Cc) })
	add("b=c", func(m *InnerProductProof) { m.B = v.Cp(m.Cc) })
	add("a=b=c", func(m *InnerProductProof) { m.A, m.B = v.Cp(m.Cc), v.Cp(m.Cc) })
	add("a unreduced", func(m *InnerProductProof) { m.A = v.Add(m.A, N) })
	add("b negative", func(m *InnerProductProof) { m.B = v.Sub(m.B, N) })
	add("a, b huge", func(m *InnerProductProof) {
		m.A, m.B = v.Add(m.A, v.Mul(N, v.Pow2(300))), v.Sub(m.B, v.Mul(N, v.Pow2(300)))
	})
	for i := 0; i < r; i++ {
		i := i
		for k := 0; k < 2; k++ {
			a, b := func(m *InnerProductProof) *group.Element { return &m.L[i] }, func(m *InnerProductProof) *group.Element { return &m.R[i] }
			n := fmt.Sprintf("L%d", i)
			if k == 1 {
				a, b = b, a
				n = fmt.Sprintf("R%d", i)
			}
			add(n+" identity", func(m *InnerProductProof) { *a(m) = id })
			add(n+" like its partner", func(m *InnerProductProof) { *a(m) = *b(m) })
			add(n+" opposite of its partner", func(m *InnerProductProof) { *a(m) = g.Element().Negate(*b(m)) })
			add(n+"=P", func(m *InnerProductProof) { *a(m) = m.P })
			add(n+"=G", func(m *InnerProductProof) { *a(m) = g.Generator() })
			add(n+"=U", func(m *InnerProductProof) { *a(m) = m.Params.Uu })
		}
		add(fmt.Sprintf("round %d of identities", i), func(m *InnerProductProof) { m.L[i], m.R[i] = id, id })
		add(fmt.Sprintf("round %d of P", i), func(m *InnerProductProof) { m.L[i], m.R[i] = m.P, m.P })
		if i > 0 {
			add(fmt.Sprintf("round %d like the first", i), func(m *InnerProductProof) { m.L[i], m.R[i] = m.L[0], m.R[0] })
			add(fmt.Sprintf("round %d like the previous", i), func(m *InnerProductProof) { m.L[i], m.R[i] = m.L[i-1], m.R[i-1] })
			add(fmt.Sprintf("round %d mirrors the previous", i), func(m *InnerProductProof) { m.L[i], m.R[i] = m.R[i-1], m.L[i-1] })
		}
	}
	all := func(l, r func(m *InnerProductProof, i int) group.Element) func(m *InnerProductProof) {
		return func(m *InnerProductProof) {
			for i := range m.L {
				a, b := l(m, i), r(m, i)
				m.L[i], m.R[i] = a, b
			}
		}
	}
	fix := func(e func(m *InnerProductProof) group.Element) func(m *InnerProductProof, i int) group.Element {
		return func(m *InnerProductProof, i int) group.Element { return e(m) }
	}
	ident := fix(func(m *InnerProductProof) group.Element { return id })
	comm := fix(func(m *InnerProductProof) group.Element { return m.P })
	own := func(m *InnerProductProof, i int) group.Element { return m.L[i] }
	other := func(m *InnerProductProof, i int) group.Element { return m.R[i] }
	if r > 0 {
		scal("all identities", all(ident, ident))
		scal("all L identities", all(ident, other))
		scal("all R identities", all(own, ident))
		scal("all rounds P", all(comm, comm))
		scal("all L=R", all(own, own))
		scal("all R=L", all(other, other))
		scal("all opposite", all(own, func(m *InnerProductProof, i int) group.Element { return g.Element().Negate(m.L[i]) }))
		scal("all exchanged", all(other, own))
	}
	return out
}

type zz_pair struct {
	what string
	f    func(s *zz_advSecret) (group.Element, group.Element)
}

// zz_pairs lists coincident values of a pair of components.
func zz_pairs(c *v.Ctx, s *zz_advSecret) []zz_pair {
	g := s.g
	rnd := func() group.Element { return s.gh(v.RandNZ(c.R, s.N), v.RandNZ(c.R, s.N)) }
	id := func() group.Element { return g.Identity() }
	H := func() group.Element { return g.Element().Set(s.params.H) }
	out := []zz_pair{
		{"equal", func(s *zz_advSecret) (group.Element, group.Element) { x := rnd(); return x, g.Element().Set(x) }},
		{"opposite", func(s *zz_advSecret) (group.Element, group.Element) { x := rnd(); return x, g.Element().Negate(x) }},
		{"both identity", func(s *zz_advSecret) (group.Element, group.Element) { return id(), id() }},
		{"first identity", func(s *zz_advSecret) (group.Element, group.Element) { return id(), rnd() }},
		{"second identity", func(s *zz_advSecret) (group.Element, group.Element) { return rnd(), id() }},
		{"generators", func(s *zz_advSecret) (group.Element, group.Element) { return g.Generator(), H() }},
		{"generators exchanged", func(s *zz_advSecret) (group.Element, group.Element) { return H(), g.Generator() }},
		{"both G", func(s *zz_advSecret) (group.Element, group.Element) { return g.Generator(), g.Generator() }},
		{"both V", func(s *zz_advSecret) (group.Element, group.Element) { return s.Vs[0], s.Vs[0] }},
		{"first V", func(s *zz_advSecret) (group.Element, group.Element) { return s.Vs[0], rnd() }},
		{"second V", func(s *zz_advSecret) (group.Element, group.Element) { return rnd(), s.Vs[len(s.Vs)-1] }},
		{"opposite of V", func(s *zz_advSecret) (group.Element, group.Element) { return g.Element().Negate(s.Vs[0]), s.Vs[0] }},
		{"first A", func(s *zz_advSecret) (group.Element, group.Element) { return s.A, rnd() }},
		{"A and S", func(s *zz_advSecret) (group.Element, group.Element) { return s.A, s.S }},
		{"T1 and T2", func(s *zz_advSecret) (group.Element, group.Element) { return s.T1, s.T2 }},
		{"small", func(s *zz_advSecret) (group.Element, group.Element) {
			return s.gh(v.B(1), v.B(1)), s.gh(v.B(2), v.B(2))
		}},
		{"random", func(s *zz_advSecret) (group.Element, group.Element) { return rnd(), rnd() }},
	}
	return out
}

func (s *zz_advSecret) large(f *big.Int) bool {
	f = v.Mod(f, s.N)
	return f.BitLen() > 64 && v.Sub(s.N, f).BitLen() > 64
}

// xCands watches the verifier on the final commitments and lists what may be the challenge x.
func (s *zz_advSecret) xCands(c *v.Ctx) []*big.Int {
	l := zz_vVec(c, s.n, 0, s.N)
	s.x = v.B(0)
	sk, ok := s.assemble(l, l, v.RandMod(c.R, s.N), v.RandMod(c.R, s.N), nil)
	if !ok {
		return nil
	}
	o := s.g.Observe(func() { _, _ = s.verify(sk)() })
	var out []*big.Int
	for _, e := range []group.Element{s.S, s.T1, s.T2} {
		for _, f := range o.Factors(e) {
			dup := !s.large(f)
			for _, x := range out {
				dup = dup || x.Cmp(v.Mod(f, s.N)) == 0
			}
			if !dup && len(out) < 5 {
				out = append(out, v.Mod(f, s.N))
			}
		}
	}
	return out
}

type zz_scalar struct {
	what string
	x    *big.Int
}

// forms lists other ways to state a scalar (the same residue) and, if free, other values.
func (s *zz_advSecret) forms(x *big.Int, free bool, others ...*big.Int) []zz_scalar {
	out := []zz_scalar{{"as is", x}, {"unreduced", v.Add(x, s.N)}, {"negative", v.Sub(x, s.N)}, {"huge", v.Add(x, v.Mul(s.N, v.Pow2(256)))}}
	if free {
		out = append(out, zz_scalar{"0", v.B(0)}, zz_scalar{"1", v.B(1)}, zz_scalar{"-1", v.B(-1)}, zz_scalar{"order", v.Cp(s.N)}, zz_scalar{"negated", v.Neg(x)})
		for i, o := range others {
			out = append(out, zz_scalar{fmt.Sprintf("like scalar %d", i), v.Cp(o)})
		}
	}
	return out
}

// zz_advCoin forges with coincidences.
func zz_advCoin(c *v.Ctx, b int64, m int, multi bool, which int) {
	n := v.B(b).BitLen() - 1
	k := n / m
	fresh := func(rep int) *zz_advSecret {
		s := zz_newAdv(c, b, m, multi)
		for j := 0; j < m; j++ {
			s.vs = append(s.vs, v.RandMod(c.R, v.Pow2(k)))
		}
		out := zz_vOutside(c, k, s.N)
		i := c.R.IntN(m)
		s.vs[i] = out[c.R.IntN(len(out))]
		if m > 1 { // coincidences among the commitments
			j := (i + 1 + c.R.IntN(m-1)) % m
			switch rep % 5 {
			case 1:
				s.vs[j], s.gammas[j] = v.Cp(s.vs[i]), v.Cp(s.gammas[i])
			case 2:
				s.vs[j], s.gammas[j] = v.B(0), v.B(0)
			case 3:
				s.vs[j], s.gammas[j] = v.Neg(s.vs[i]), v.Neg(s.gammas[i])
			case 4:
				for j := range s.vs {
					s.vs[j], s.gammas[j] = v.Cp(s.vs[i]), v.Cp(s.gammas[i])
				}
			}
		} else if rep%4 == 1 {
			s.gammas[0] = v.B(0)
		}
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return s
	}
	forged := func(s *zz_advSecret, p zz_advProof, how string) bool {
		if !s.outside() {
			return false
		}
		if zz_vVerdict(c, s.verify(p)) {
			what := "range proof"
			if multi {
				what = fmt.Sprintf("aggregated range proof of %d values", m)
			}
			c.Violate("%s (%d bits each) verifies although the committed values are %v; forged with %s", what, k, s.vs, how)
			return true
		}
		c.Event("coincidence_rejected")
		c.Eval("coin", b, m, multi, how, s.vs)
		return false
	}
	zz_coinRun(c, which, fresh, forged)
}

// zz_coinRun: mk starts a forgery, forged judges its proof (true: stop).
func zz_coinRun(c *v.Ctx, which int, mk func(rep int) *zz_advSecret, forged func(s *zz_advSecret, p zz_advProof, how string) bool) {
	lr := func(s *zz_advSecret) {
		l0, l1, r0, r1 := s.poly()
		s.l, s.r = nil, nil
		for i := 0; i < s.n; i++ {
			s.l = append(s.l, v.Mod(v.Add(l0[i], v.Mul(l1[i], s.x)), s.N))
			s.r = append(s.r, v.Mod(v.Add(r0[i], v.Mul(r1[i], s.x)), s.N))
		}
	}
	np := len(zz_pairs(c, mk(0)))
	switch which {
	case 0: // only the first equation is false
		for i := 0; i < np; i++ {
			s := mk(i)
			s.commit()
			if !s.learn(c) {
				continue
			}
			pr := zz_pairs(c, s)[i]
			s.T1, s.T2 = pr.f(s)
			for _, x := range s.xCands(c) {
				s.x = x
				lr(s)
				ip := zz_vIP(s.l, s.r, s.N)
				p, ok := s.assemble(s.l, s.r, ip, ip, nil)
				if !ok {
					continue
				}
				for _, t := range s.forms(p.taux, true, p.mu, p.tprime) {
					q := p
					q.taux = t.x
					if forged(s, q, "a false first equation, T1 and T2 "+pr.what+", taux "+t.what) {
						return
					}
				}
				for _, t := range s.forms(p.mu, false) {
					q := p
					q.mu = t.x
					if forged(s, q, "a false first equation, T1 and T2 "+pr.what+", mu "+t.what) {
						return
					}
				}
				for _, t := range s.forms(p.tprime, false) {
					q := p
					q.tprime = t.x
					if forged(s, q, "a false first equation, T1 and T2 "+pr.what+", t "+t.what) {
						return
					}
					q.ipp.Cc = v.Cp(t.x)
					if forged(s, q, "a false first equation, T1 and T2 "+pr.what+", t and c "+t.what) {
						return
					}
				}
			}
		}
	case 1: // only the second equation is false
		for i := 0; i < np; i++ {
			s := mk(i)
			s.commit()
			pr := zz_pairs(c, s)[i]
			s.A, s.S = pr.f(s)
			if !s.learn(c) {
				continue
			}
			for _, x := range append([]*big.Int{s.x}, s.xCands(c)...) {
				s.x = x
				t := s.t65()
				l, r := zz_fitted(c, s, t)
				p, ok := s.assemble(l, r, t, t, nil)
				if !ok {
					continue
				}
				for _, f := range s.forms(p.mu, true, p.taux, p.tprime) {
					q := p
					q.mu = f.x
					if forged(s, q, "a false second equation, A and S "+pr.what+", mu "+f.what) {
						return
					}
				}
				for _, f := range s.forms(p.taux, false) {
					q := p
					q.taux = f.x
					if forged(s, q, "a false second equation, A and S "+pr.what+", taux "+f.what) {
						return
					}
				}
			}
		}
	case 2: // only the inner-product argument is false
		for i := 0; i < 3; i++ {
			s := mk(i)
			s.commit()
			if !s.learn(c) || !s.finish(c, true) {
				continue
			}
			t := s.t65()
			p, ok := s.assemble(s.l, s.r, t, t, nil)
			if !ok {
				continue
			}
			for _, m := range zz_ippCoincidences(s.g, s.N, p.ipp) {
				q := p
				q.ipp = m.p
				if forged(s, q, "a false inner product, its messages: "+m.what) {
					return
				}
			}
		}
	case 3: // the stated t and the argued inner product differ
		for i := 0; i < 3; i++ {
			s := mk(i)
			s.commit()
			if !s.learn(c) || !s.finish(c, true) {
				continue
			}
			ip := zz_vIP(s.l, s.r, s.N)
			t := s.t65()
			p, ok := s.assemble(s.l, s.r, t, ip, nil)
			if !ok {
				continue
			}
			type td struct{ a, d zz_scalar }
			var tds []td
			for _, a := range s.forms(t, false) {
				for _, d := range s.forms(ip, false) {
					tds = append(tds, td{a, d})
				}
			}
			// representatives of both that agree in part
			for _, md := range []*big.Int{v.Pow2(8), v.Pow2(16), v.Pow2(32), v.Pow2(63), v.Pow2(64), v.Pow2(128), v.Pow2(256), v.Pow2(512), v.B(1000000000), v.B(10)} {
				k := v.Mod(v.Mul(v.Sub(ip, t), v.Inv(s.N, md)), md)
				tds = append(tds, td{zz_scalar{"equal to c modulo " + md.String(), v.Add(t, v.Mul(k, s.N))}, zz_scalar{"as is", ip}})
				k = v.Mod(v.Mul(v.Sub(t, ip), v.Inv(s.N, md)), md)
				tds = append(tds, td{zz_scalar{"as is", t}, zz_scalar{"equal to t modulo " + md.String(), v.Add(ip, v.Mul(k, s.N))}})
			}
			for _, w := range []int{8, 64, 300, 1000} {
				K := v.Mul(s.N, v.Add(v.Pow2(w), v.RandBits(c.R, w)))
				tds = append(tds, td{zz_scalar{"starting like c", v.Add(t, K)}, zz_scalar{"starting like t", v.Add(ip, K)}},
					td{zz_scalar{"starting like c, negative", v.Sub(t, K)}, zz_scalar{"starting like t, negative", v.Sub(ip, K)}})
			}
			for _, x := range tds {
				{
					a, d := x.a, x.d
					q := p
					q.tprime = a.x
					p2, ok := s.assemble(s.l, s.r, a.x, d.x, nil)
					if ok && forged(s, p2, "t "+a.what+" and another c "+d.what) {
						return
					}
					q.ipp.Cc = d.x
					if forged(s, q, "t "+a.what+" and another c "+d.what+" (stated later)") {
						return
					}
				}
			}
		}
	}
}

func zz_coinCases(tier string, multi bool) []v.Case {
	var cs []v.Case
	for _, b := range zz_advEnds {
		n := v.B(b).BitLen() - 1
		for m := 1; m <= n; m++ {
			if n%m != 0 || (!multi && m > 1) || (tier == "quick" && multi && n > 8 && m > 2 && m != n && m != 16) {
				continue
			}
			for w := 0; w < 4; w++ {
				b, m, w := b, m, w
				cs = append(cs, v.Case{ID: fmt.Sprintf("coincidence/%d/%d/%d", b, m, w), Run: func(c *v.Ctx) { zz_advCoin(c, b, m, multi, w) }})
			}
		}
	}
	return cs
}
