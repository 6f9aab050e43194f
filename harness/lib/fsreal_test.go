package lib

import (
	"fmt"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

// Elements of the repository's own groups which a careless text could confuse: an element and its negation, elements
// that share a coordinate. The transparent group's texts cannot show that; here the groups are real and a wrapper
// notes the scalars the verifiers multiply with.

var realGroups = []string{"P-256", "P-384", "ristretto255", "secp256k1"}

// relatives returns groups of elements in which every two are easily confused.
func relatives(c *Ctx, ng NamedGroup, e group.Element) []group.Element {
	out := []group.Element{ng.G.Element().Negate(e)}
	sp := ng.Specials()
	for k := 0; k < 2 && len(sp) > 0; k++ {
		p := sp[c.R.IntN(len(sp))]
		for _, q := range append([]RPt{p, ng.R.Neg(p)}, sp...) {
			if len(out) > 9 {
				break
			}
			shares := ng.R.Key(q) == ng.R.Key(p)
			for i := range q.V {
				shares = shares || i < len(p.V) && q.V[i].Cmp(p.V[i]) == 0
			}
			if !shares && len(q.V) > 1 {
				continue
			}
			if x, err := ng.Make(q); err == nil && !x.IsEqual(e) {
				dup := false
				for _, o := range out {
					dup = dup || o.IsEqual(x)
				}
				if !dup {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func c06real(c *Ctx, name string, b int64, m int) {
	ng := Named(name)
	w := NewWGroup(ng.G)
	params := mustBP(c, b, w)
	N := w.N()
	uu, _ := w.Element().MapToGroup(bp.SEEDU)
	large := func(fs []*big.Int) []*big.Int {
		var out []*big.Int
		for _, f := range fs {
			f = Mod(f, N)
			if f.BitLen() > 80 && Sub(N, f).BitLen() > 80 {
				out = append(out, f)
			}
		}
		return out
	}
	walk := func(what string, run func(), leaves []Leaf, cs []chal) bool {
		read := func() map[string][]*big.Int {
			f := w.Observe(run)
			out := map[string][]*big.Int{}
			for _, ch := range cs {
				out[ch.name] = large(f(ch.elem()))
			}
			return out
		}
		base := read()
		for _, l := range leaves {
			if l.Elem == nil {
				continue
			}
			old := l.Elem
			seen := []map[string][]*big.Int{base}
			texts := []group.Element{w.Inner(old)}
			for _, x := range relatives(c, ng, w.Inner(old)) {
				l.SetElem(w.Wrap(x))
				now := read()
				for i, before := range seen {
					for _, ch := range cs {
						dep := false
						for _, a := range ch.after {
							dep = dep || a == l.Path
						}
						if !dep {
							continue
						}
						for _, f := range before[ch.name] {
							for _, f2 := range now[ch.name] {
								if f.Cmp(f2) == 0 {
									c.Violate("%s on %s: challenge %s is the same whether %s, which precedes it, is %s or %s", what, name, ch.name, l.Path, ng.R.Key(mustRead(ng, texts[i])), ng.R.Key(mustRead(ng, x)))
									l.SetElem(old)
									return false
								}
							}
						}
						if len(before[ch.name]) > 0 && len(now[ch.name]) > 0 {
							c.Event("related_elements_distinguished")
							c.Eval(what, name, ch.name, l.Path, i, len(seen))
						}
					}
				}
				seen = append(seen, now)
				texts = append(texts, x)
			}
			l.SetElem(old)
		}
		return true
	}
	if m == 0 {
		proof, ok := proveOne(c, params, RandMod(c.R, B(b)), name)
		if !ok {
			return
		}
		p := Clone(proof)
		cs := chalList([]string{"V"}, &p.InnerProductProof, func() group.Element { return p.V }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, uu)
		if !walk("range proof", func() { _, _ = p.Verify() }, Leaves(p, false), cs) {
			return
		}
		q := Clone(proof.InnerProductProof)
		var cis []chal
		pre := []string{"P"}
		cis = append(cis, chal{"x", func() group.Element { return q.Params.Uu }, pre})
		for i := range q.L {
			i := i
			pre = append(append([]string{}, pre...), fmt.Sprintf("L[%d]", i), fmt.Sprintf("R[%d]", i))
			cis = append(cis, chal{fmt.Sprintf("round %d (L)", i), func() group.Element { return q.L[i] }, except(pre, fmt.Sprintf("L[%d]", i))})
			cis = append(cis, chal{fmt.Sprintf("round %d (R)", i), func() group.Element { return q.R[i] }, except(pre, fmt.Sprintf("R[%d]", i))})
		}
		walk("inner-product argument", func() { _, _ = q.Verify() }, Leaves(q, false), cis)
		return
	}
	proof, ok := multiOne(c, params, vecValues(c, params.N/int64(m), m, 2), name)
	if !ok {
		return
	}
	p := Clone(proof)
	var names []string
	for j := range p.Vs {
		names = append(names, fmt.Sprintf("Vs[%d]", j))
	}
	cs := chalList(names, &p.InnerProductProof, func() group.Element { return p.Vs[0] }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, uu)
	walk("aggregated range proof", func() { _, _ = p.Verify() }, Leaves(p, false), cs)
}

func mustRead(ng NamedGroup, e group.Element) RPt {
	p, err := ng.R.Read(e)
	if err != nil {
		return ng.R.Zero()
	}
	return p
}

// c06realSigma: the same random numbers, and a statement or a first move whose elements are negated one at a time.
func c06realSigma(c *Ctx, name string) {
	ngf, nge := Named("rfc3072"), Named(name)
	if name == "P-256" {
		ngf = Named("P-384")
	}
	gff, gec := NewWGroup(ngf.G), NewWGroup(nge.G)
	p, err := sigmaSetup(16, 128, 256, gff, gec)
	if err != nil {
		// 256-bit groups only
		p, err = sigmaSetup(16, 64, 128, gff, gec)
	}
	if err != nil {
		c.Violate("setup with 16-bit secrets over %s and %s is refused: %v", ngf.Name, nge.Name, err)
		return
	}
	key := c.R.Uint64()
	rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
	prove := func(rp, r1, r2 *big.Int) (pf voteproof.SigmaProof) {
		c.Tape.Reseed("c06 real", key)
		gff.Ops()
		gec.Ops()
		pf = voteproof.Prove(B(0), rp, r1, r2, p)
		return
	}
	a := prove(rp, r1, r2)
	nf, ne := gff.Ops(), gec.Ops()
	same := func(x, y voteproof.SigmaProof) bool {
		return x.W.IsEqual(y.W) && x.Kp.IsEqual(y.Kp) && x.Kq1.IsEqual(y.Kq1) && x.Kq2.IsEqual(y.Kq2)
	}
	// the statement: with the secret 0 the elements are negated by negating the blinding
	for _, v := range []struct {
		what string
		pf   voteproof.SigmaProof
	}{
		{"the ciphertext is negated", prove(Sub(gff.N(), rp), r1, r2)},
		{"the first commitment is negated", prove(rp, Sub(gec.N(), r1), r2)},
		{"the second commitment is negated", prove(rp, r1, Sub(gec.N(), r2))},
	} {
		if !same(a, v.pf) {
			c.Event("first_move_differs")
			continue
		}
		if a.Challenge.Cmp(v.pf.Challenge) == 0 {
			c.Violate("consistency proof over %s and %s: the challenge stays the same when %s", ngf.Name, nge.Name, v.what)
			return
		}
		c.Event("related_elements_distinguished")
		c.Eval("sigma", name, v.what)
	}
	// the first move: one operation result of the prover is negated
	for _, s := range []struct {
		w *WGroup
		r NamedGroup
		n int
	}{{gff, ngf, nf}, {gec, nge, ne}} {
		for k := 0; k < s.n && k < 40; k++ {
			k := k
			s.w.Twist = func(i int, e group.Element) group.Element {
				if i == k {
					return s.r.G.Element().Negate(e)
				}
				return e
			}
			pf := prove(rp, r1, r2)
			s.w.Twist = nil
			if same(a, pf) {
				continue
			}
			if a.Challenge.Cmp(pf.Challenge) == 0 {
				c.Violate("consistency proof over %s and %s: the challenge stays the same when an element of the first move is negated (operation %d of the prover on %s)", ngf.Name, nge.Name, k, s.r.Name)
				return
			}
			c.Event("related_elements_distinguished")
			c.Eval("sigma", name, s.r.Name, k)
		}
	}
}
