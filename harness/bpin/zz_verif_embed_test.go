package bulletproofs

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	v "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	zz_verifChecks = append(zz_verifChecks,
		v.Check{Prop: "C05", Rule: "range proofs for out-of-range values whose inner-product part is proven for generators, base or length of the attacker's choice (each embedded component attacked alone and all together), judged in memory and after decoding with the verifier's parameters", Cases: zz_vC05, Prefer: map[string]int{"embedded_attack_rejected": 60, "embedded_attack_fits_own_params": 40}})
	zz_advKinds = append(zz_advKinds, zz_embedKinds...)
}

// assembleOwn proves for vectors a, b and parameters of the attacker's choice that fit the P of the outer equations.
func (s *zz_advSecret) assembleOwn(f func(P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int)) (zz_advProof, bool) {
	t := s.t65()
	p, ok := s.assemble(s.l, s.r, t, t, nil)
	if !ok {
		return p, false
	}
	ip := p.ipp.Params
	ip.Gg = append([]group.Element{}, ip.Gg...)
	ip.Hh = append([]group.Element{}, ip.Hh...)
	P := p.ipp.P.(*v.TElem).Clone()
	a, b := f(P, t, &ip)
	var err error
	pn, _ := v.Safe(func() { p.ipp, err = proveInnerProduct(a, b, P, t, ip) })
	p.ipp.Params = ip
	return p, pn == nil && err == nil
}

func zz_unit(n int, x *big.Int) []*big.Int {
	o := zz_zeros(n, 0)
	o[0] = x
	return o
}

func zz_embed(name string, f func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int)) zz_advKind {
	return zz_advKind{"embedded " + name, func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, true) {
			return zz_advProof{}, false
		}
		return s.assembleOwn(func(P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) { return f(s, P, t, ip) })
	}}
}

var zz_embedKinds = []zz_advKind{
	zz_embed("base U = identity", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		ip.Uu = s.g.Identity()
		return zz_vCopy(s.l), zz_vCopy(s.r)
	}),
	zz_embed("first G fitted", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		ip.Gg[0] = P.Plus(ip.Hh[0].(*v.TElem), v.Neg(t))
		return zz_unit(s.n, v.B(1)), zz_unit(s.n, t)
	}),
	zz_embed("first H fitted", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		d := P.Plus(ip.Gg[0].(*v.TElem), v.B(-1))
		ip.Hh[0] = s.g.Combo(map[int]*big.Int{}).Plus(d, v.Inv(t, s.N))
		return zz_unit(s.n, v.B(1)), zz_unit(s.n, t)
	}),
	zz_embed("last G fitted", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		k := s.n - 1
		ip.Gg[k] = P.Plus(ip.Hh[k].(*v.TElem), v.Neg(t))
		a, b = zz_zeros(s.n, 0), zz_zeros(s.n, 0)
		a[k], b[k] = v.B(1), t
		return
	}),
	zz_embed("all generators", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		for i := range ip.Gg {
			ip.Gg[i], ip.Hh[i] = s.g.Identity(), s.g.Identity()
		}
		ip.Gg[0] = P
		return zz_unit(s.n, v.B(1)), zz_unit(s.n, t)
	}),
	zz_embed("single generators", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		ip.Gg, ip.Hh = []group.Element{P}, []group.Element{s.g.Identity()}
		return zz_unit(1, v.B(1)), zz_unit(1, t)
	}),
	zz_embed("twice the generators", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		for i := 0; i < s.n; i++ {
			ip.Gg, ip.Hh = append(ip.Gg, s.g.Identity()), append(ip.Hh, s.g.Identity())
		}
		ip.Gg[2*s.n-1] = P
		a, b = zz_zeros(2*s.n, 0), zz_zeros(2*s.n, 0)
		a[2*s.n-1], b[2*s.n-1] = v.B(1), t
		return
	}),
	zz_embed("generators of a smaller prefix", func(s *zz_advSecret, P *v.TElem, t *big.Int, ip *InnerProductParams) (a, b []*big.Int) {
		k := s.n / 2
		if k == 0 {
			k = 1
		}
		ip.Gg, ip.Hh = ip.Gg[:k], ip.Hh[:k]
		ip.Gg[0] = P.Plus(ip.Hh[0].(*v.TElem), v.Neg(t))
		return zz_unit(k, v.B(1)), zz_unit(k, t)
	}),
}

func zz_vC05(tier string) []v.Case {
	var cs []v.Case
	reps := 2
	if tier == "thorough" {
		reps = 30
	}
	for r := 0; r < reps; r++ {
		for _, b := range zz_advEnds[:5] {
			b := b
			cs = append(cs, v.Case{ID: fmt.Sprintf("embedded/%d/%d", b, r), Run: func(c *v.Ctx) { zz_vC05run(c, b) }})
		}
	}
	return cs
}

func zz_vC05run(c *v.Ctx, b int64) {
	for _, kd := range zz_embedKinds {
		s := zz_newAdv(c, b, 1, false)
		out := zz_vOutside(c, s.n, s.N)
		s.vs = []*big.Int{out[c.R.IntN(len(out))]}
		p, ok := kd.run(c, s)
		if !ok || !s.outside() {
			c.Event("attack_not_applicable")
			continue
		}
		// the inner-product argument holds under the parameters it brought along: the attack is a real one
		if zz_vVerdict(c, p.ipp.Verify) {
			c.Event("embedded_attack_fits_own_params")
		}
		if zz_vVerdict(c, s.verify(p)) {
			c.Violate("range proof for %v (%d bits) is accepted because of its %s", s.vs[0], s.n, kd.name)
			return
		}
		js, err := json.Marshal(BulletProof{V: s.Vs[0], A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: p.taux, Mu: p.mu, Tprime: p.tprime, InnerProductProof: p.ipp, Params: s.params})
		if err != nil {
			v.Bug("marshal: %v", err)
		}
		if zz_vVerdict(c, func() (bool, error) {
			d, err := BulletProofUnmarshalJSON(js, s.params)
			if err != nil {
				c.Event("refused_by_decoder")
				return false, nil
			}
			c.Event("attack_decoded")
			return d.Verify()
		}) {
			c.Violate("decoded range proof for %v (%d bits) is accepted because of its %s", s.vs[0], s.n, kd.name)
			return
		}
		c.Event("embedded_attack_rejected")
		c.Eval(b, kd.name, s.vs)
	}
}
