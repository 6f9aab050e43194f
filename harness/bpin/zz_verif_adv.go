package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	v "github.com/takakv/msc-poc/zzverif/vlib"
)

// The adversarial prover. It never computes a challenge itself: it fixes its commitments, runs the real
// verifier on a skeleton proof over the transparent group and reads the challenges from the scalars the
// verifier multiplies its commitments with. Missing observations make an attack fail, never succeed.

type zz_advSecret struct {
	params BulletProofSetupParams
	g      *v.TGroup
	N      *big.Int
	n, m   int
	multi  bool
	vs     []*big.Int // values the commitments contain
	aL, aR []*big.Int
	sL, sR []*big.Int
	gammas []*big.Int
	alpha  *big.Int
	rho    *big.Int
	t1, t2 *big.Int
	u1, u2 *big.Int // blinding of T1, T2

	Vs     []group.Element
	A, S   group.Element
	T1, T2 group.Element
	x      *big.Int
	y, z   *big.Int
	l, r   []*big.Int
}

type zz_advProof struct {
	taux, mu, tprime *big.Int
	ipp              InnerProductProof
}

func (s *zz_advSecret) verify(p zz_advProof) func() (bool, error) {
	if s.multi {
		b := MultiBulletProof{Vs: s.Vs, A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: p.taux, Mu: p.mu, Tprime: p.tprime, InnerProductProof: p.ipp, Params: s.params}
		return b.Verify
	}
	b := BulletProof{V: s.Vs[0], A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: p.taux, Mu: p.mu, Tprime: p.tprime, InnerProductProof: p.ipp, Params: s.params}
	return b.Verify
}

func zz_newAdv(c *v.Ctx, b int64, m int, multi bool) *zz_advSecret {
	params, err := Setup(b, v.TCurve())
	if err != nil {
		v.Bug("Setup: %v", err)
	}
	return zz_newAdvParams(c, params, m, multi)
}

func zz_newAdvParams(c *v.Ctx, params BulletProofSetupParams, m int, multi bool) *zz_advSecret {
	g := params.GP.(*v.TGroup)
	s := &zz_advSecret{params: params, g: g, N: g.N(), n: int(params.N), m: m, multi: multi}
	s.sL, s.sR = zz_vVec(c, s.n, 0, s.N), zz_vVec(c, s.n, 0, s.N)
	s.alpha, s.rho = v.RandMod(c.R, s.N), v.RandMod(c.R, s.N)
	s.u1, s.u2 = v.RandMod(c.R, s.N), v.RandMod(c.R, s.N)
	s.t1, s.t2 = v.RandMod(c.R, s.N), v.RandMod(c.R, s.N)
	for j := 0; j < m; j++ {
		s.gammas = append(s.gammas, v.RandMod(c.R, s.N))
	}
	return s
}

func (s *zz_advSecret) gh(a, b *big.Int) group.Element {
	return s.g.Combo(map[int]*big.Int{0: a}).Plus(s.params.H.(*v.TElem), b)
}

func (s *zz_advSecret) vec(a, b []*big.Int, r *big.Int) group.Element {
	e := s.g.Combo(map[int]*big.Int{}).Plus(s.params.H.(*v.TElem), r)
	for i := range a {
		e = e.Plus(s.params.Gg[i].(*v.TElem), a[i]).Plus(s.params.Hh[i].(*v.TElem), b[i])
	}
	return e
}

func (s *zz_advSecret) commit() {
	s.Vs = nil
	for j := range s.vs {
		s.Vs = append(s.Vs, s.gh(s.vs[j], s.gammas[j]))
	}
	s.A = s.vec(s.aL, s.aR, s.alpha)
	s.S = s.vec(s.sL, s.sR, s.rho)
	s.T1, s.T2 = s.gh(s.t1, s.u1), s.gh(s.t2, s.u2)
}

// learn observes the verifier on the current commitments and records its challenges.
func (s *zz_advSecret) learn(c *v.Ctx) bool {
	n := s.n
	sk := zz_advProof{taux: v.RandMod(c.R, s.N), mu: v.RandMod(c.R, s.N), tprime: v.RandMod(c.R, s.N)}
	ipp := InnerProductProof{P: s.g.Combo(map[int]*big.Int{0: v.RandNZ(c.R, s.N)}), Cc: sk.tprime, A: v.RandMod(c.R, s.N), B: v.RandMod(c.R, s.N)}
	ipp.Params = InnerProductParams{Gg: s.params.Gg, Hh: s.params.Hh, GP: s.g}
	ipp.Params.Uu, _ = s.g.Element().MapToGroup(SEEDU)
	for k := 1; k < n; k *= 2 {
		ipp.L = append(ipp.L, s.g.Combo(map[int]*big.Int{0: v.RandNZ(c.R, s.N)}))
		ipp.R = append(ipp.R, s.g.Combo(map[int]*big.Int{0: v.RandNZ(c.R, s.N)}))
	}
	sk.ipp = ipp
	var o v.Obs
	hb, _, _ := s.params.H.(*v.TElem).SingleBasis()
	// The opening of the first equation consists of scalars: fit them, so that a verifier which stops at the
	// first failing equation reaches the next one.
	for k := 0; k < 2; k++ {
		o = s.g.Observe(func() { _, _ = s.verify(sk)() })
		if k == 0 && len(o.Resid) > 0 {
			for _, sg := range []int64{1, -1} {
				t := sk
				d := v.Mul(v.B(sg), o.Resid[0].Coef(0))
				e := v.Mul(v.B(sg), o.Resid[0].Coef(hb))
				t.tprime, t.taux = v.Mod(v.Add(sk.tprime, d), s.N), v.Mod(v.Add(sk.taux, e), s.N)
				t.ipp.Cc = t.tprime
				o2 := s.g.Observe(func() { _, _ = s.verify(t)() })
				if len(o2.Scales) > len(o.Scales) || len(o2.Resid) < len(o.Resid) {
					sk, o = t, o2
					break
				}
			}
		}
	}
	s.x, s.y, s.z = nil, nil, nil
	large := func(f *big.Int) bool {
		f = v.Mod(f, s.N)
		return f.BitLen() > 64 && v.Sub(s.N, f).BitLen() > 64
	}
	has := func(fs []*big.Int, x *big.Int) bool {
		for _, f := range fs {
			if v.Mod(v.Sub(f, x), s.N).Sign() == 0 {
				return true
			}
		}
		return false
	}
	t2f := o.Factors(s.T2)
	for _, f := range o.Factors(s.T1) {
		if large(f) && (s.x == nil || has(t2f, v.Mul(f, f))) {
			s.x = v.Mod(f, s.N)
		}
	}
	vf := o.Factors(s.Vs[0])
	for i := 0; i < n && s.z == nil; i++ {
		for _, f := range o.Factors(s.params.Gg[i]) {
			if large(f) && has(vf, v.Mul(f, f)) {
				s.z = v.Mod(v.Neg(f), s.N)
				break
			}
		}
	}
	if n == 1 {
		s.y = v.B(1)
	} else {
		for _, f := range o.Factors(s.params.Hh[1]) {
			if !large(f) {
				continue
			}
			if s.y == nil || (n > 2 && has(o.Factors(s.params.Hh[2]), v.Mul(f, f))) {
				s.y = v.Inv(f, s.N)
			}
		}
	}
	if s.x == nil || s.y == nil || s.z == nil {
		c.Event("challenges_not_observable")
		return false
	}
	c.Event("challenges_observed")
	return true
}

// zt is the vector z^(2+j) * 2^i.
func (s *zz_advSecret) zt() []*big.Int {
	out := zz_zeros(s.n, 0)
	k := s.n / s.m
	for j := 0; j < s.m; j++ {
		zp := new(big.Int).Exp(s.z, v.B(int64(2+j)), s.N)
		for i := 0; i < k; i++ {
			out[j*k+i] = v.MulM(v.Pow2(i), zp, s.N)
		}
	}
	return out
}

func (s *zz_advSecret) yp(i int) *big.Int { return new(big.Int).Exp(s.y, v.B(int64(i)), s.N) }

// poly returns l0,l1,r0,r1.
func (s *zz_advSecret) poly() (l0, l1, r0, r1 []*big.Int) {
	zt := s.zt()
	for i := 0; i < s.n; i++ {
		l0 = append(l0, v.Mod(v.Sub(s.aL[i], s.z), s.N))
		l1 = append(l1, s.sL[i])
		r0 = append(r0, v.Mod(v.Add(v.Mul(s.yp(i), v.Add(s.aR[i], s.z)), zt[i]), s.N))
		r1 = append(r1, v.MulM(s.yp(i), s.sR[i], s.N))
	}
	return
}

func (s *zz_advSecret) delta() *big.Int {
	d := new(big.Int)
	for i := 0; i < s.n; i++ {
		d.Add(d, v.Mul(v.Sub(s.z, v.Mul(s.z, s.z)), s.yp(i)))
	}
	k := s.n / s.m
	for j := 0; j < s.m; j++ {
		d.Sub(d, v.Mul(new(big.Int).Exp(s.z, v.B(int64(3+j)), s.N), v.Sub(v.Pow2(k), v.B(1))))
	}
	return v.Mod(d, s.N)
}

func (s *zz_advSecret) vsum(x []*big.Int) *big.Int {
	d := new(big.Int)
	for j := range x {
		d.Add(d, v.Mul(new(big.Int).Exp(s.z, v.B(int64(2+j)), s.N), x[j]))
	}
	return v.Mod(d, s.N)
}

// finish goes through the protocol once y and z are known. honestT: T1,T2 commit to the true coefficients.
func (s *zz_advSecret) finish(c *v.Ctx, honestT bool) bool {
	l0, l1, r0, r1 := s.poly()
	if honestT {
		s.t1 = v.Mod(v.Add(zz_vIP(l1, r0, s.N), zz_vIP(l0, r1, s.N)), s.N)
		s.t2 = zz_vIP(l1, r1, s.N)
		s.T1, s.T2 = s.gh(s.t1, s.u1), s.gh(s.t2, s.u2)
	}
	y, z := s.y, s.z
	if !s.learn(c) {
		return false
	}
	if s.y.Cmp(y) != 0 || s.z.Cmp(z) != 0 {
		c.Event("challenges_moved")
	}
	l0, l1, r0, r1 = s.poly()
	s.l, s.r = nil, nil
	for i := 0; i < s.n; i++ {
		s.l = append(s.l, v.Mod(v.Add(l0[i], v.Mul(l1[i], s.x)), s.N))
		s.r = append(s.r, v.Mod(v.Add(r0[i], v.Mul(r1[i], s.x)), s.N))
	}
	return true
}

func (s *zz_advSecret) hp() []group.Element {
	var o []group.Element
	for i, h := range s.params.Hh {
		o = append(o, s.g.Combo(map[int]*big.Int{}).Plus(h.(*v.TElem), v.Inv(s.yp(i), s.N)))
	}
	return o
}

// t65 is the tprime the first equation demands.
func (s *zz_advSecret) t65() *big.Int {
	t := v.Add(s.vsum(s.vs), s.delta())
	t.Add(t, v.Mul(s.t1, s.x))
	t.Add(t, v.Mul(s.t2, v.Mul(s.x, s.x)))
	return v.Mod(t, s.N)
}

// assemble builds the final messages around an inner-product argument for (l,r) with stated value cc.
func (s *zz_advSecret) assemble(l, r []*big.Int, tprime, cc *big.Int, tweak func(p *InnerProductParams)) (zz_advProof, bool) {
	var p zz_advProof
	taux := v.Add(v.Mul(s.u2, v.Mul(s.x, s.x)), v.Mul(s.u1, s.x))
	taux.Add(taux, s.vsum(s.gammas))
	p.taux = v.Mod(taux, s.N)
	p.mu = v.Mod(v.Add(s.alpha, v.Mul(s.rho, s.x)), s.N)
	p.tprime = tprime
	hp := s.hp()
	ip, err := setupInnerProduct(s.params.Gg, hp, int64(s.n), s.g)
	if err != nil {
		return p, false
	}
	if tweak != nil {
		tweak(&ip)
	}
	P := s.g.Combo(map[int]*big.Int{})
	for i := range l {
		P = P.Plus(s.params.Gg[i].(*v.TElem), l[i]).Plus(hp[i].(*v.TElem), r[i])
	}
	var e error
	pn, _ := v.Safe(func() { p.ipp, e = proveInnerProduct(zz_vCopy(l), zz_vCopy(r), P, cc, ip) })
	return p, pn == nil && e == nil
}

func (s *zz_advSecret) outside() bool {
	lim := v.Pow2(s.n / s.m)
	for _, x := range s.vs {
		if v.Mod(x, s.N).Cmp(lim) >= 0 {
			return true
		}
	}
	return false
}

func zz_bitsOf(s *zz_advSecret, vs []*big.Int) (aL, aR []*big.Int) {
	k := s.n / s.m
	for _, x := range vs {
		for i := 0; i < k; i++ {
			b := v.B(int64(v.Mod(x, s.N).Bit(i)))
			aL = append(aL, b)
			aR = append(aR, v.Sub(b, v.B(1)))
		}
	}
	return
}

type zz_advKind struct {
	name string
	run  func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool)
}

func zz_zeros(n int, x int64) []*big.Int {
	o := make([]*big.Int, n)
	for i := range o {
		o[i] = v.B(x)
	}
	return o
}

func zz_plain(c *v.Ctx, s *zz_advSecret, tprime func() *big.Int, cc func() *big.Int, tweak func(p *InnerProductParams)) (zz_advProof, bool) {
	s.commit()
	if !s.learn(c) || !s.finish(c, true) {
		return zz_advProof{}, false
	}
	return s.assemble(s.l, s.r, tprime(), cc(), tweak)
}

var zz_advKinds = []zz_advKind{
	{"bits of the wrapped value", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		ip := func() *big.Int { return zz_vIP(s.l, s.r, s.N) }
		return zz_plain(c, s, ip, ip, nil)
	}},
	{"two values wrong by opposite amounts", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		if s.m < 2 {
			return zz_advProof{}, false
		}
		e := v.Pow2(s.n / s.m)
		for j := range s.vs {
			s.vs[j] = v.RandMod(c.R, e)
		}
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		i := c.R.IntN(s.m)
		j := (i + 1 + c.R.IntN(s.m-1)) % s.m
		s.vs[i], s.vs[j] = v.Add(s.vs[i], e), v.Sub(s.vs[j], e)
		ip := func() *big.Int { return zz_vIP(s.l, s.r, s.N) }
		return zz_plain(c, s, ip, ip, nil)
	}},
	{"stated t differs from the argued inner product", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return zz_plain(c, s, s.t65, func() *big.Int { return zz_vIP(s.l, s.r, s.N) }, nil)
	}},
	{"argued inner product false", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return zz_plain(c, s, s.t65, s.t65, nil)
	}},
	{"inner-product base U replaced by the identity", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return zz_plain(c, s, s.t65, s.t65, func(p *InnerProductParams) { p.Uu = s.g.Identity() })
	}},
	{"one inner-product generator is the base U", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return zz_plain(c, s, s.t65, s.t65, func(p *InnerProductParams) {
			p.Gg = append([]group.Element{}, p.Gg...)
			p.Gg[0] = p.Uu
		})
	}},
	{"inner-product generators are the identity", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return zz_plain(c, s, s.t65, s.t65, func(p *InnerProductParams) {
			p.Gg, p.Hh = nil, nil
			for i := 0; i < s.n; i++ {
				p.Gg, p.Hh = append(p.Gg, s.g.Identity()), append(p.Hh, s.g.Identity())
			}
		})
	}},
	{"zero bits, right vector zz_fitted to equal challenges", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		// with y = z: -z*y^i*(1+aR_i) can stand for z^2*v
		if s.n < 2 {
			return zz_advProof{}, false
		}
		s.aL, s.aR = zz_zeros(s.n, 0), zz_zeros(s.n, -1)
		for j := range s.vs {
			if 1+j >= s.n {
				return zz_advProof{}, false
			}
			s.aR[1+j] = v.Sub(v.B(-1), s.vs[j])
		}
		return zz_plain(c, s, s.t65, s.t65, nil)
	}},
	{"value in the first digit", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_zeros(s.n, 0), zz_zeros(s.n, -1)
		k := s.n / s.m
		for j := range s.vs {
			s.aL[j*k] = s.vs[j]
			s.aR[j*k] = v.Sub(s.vs[j], v.B(1))
		}
		return zz_plain(c, s, s.t65, s.t65, nil)
	}},
	{"value in the first digit, zero right digit", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_zeros(s.n, 0), zz_zeros(s.n, -1)
		k := s.n / s.m
		for j := range s.vs {
			s.aL[j*k] = s.vs[j]
			s.aR[j*k] = v.B(0)
		}
		return zz_plain(c, s, s.t65, s.t65, nil)
	}},
	{"digits that only sum to the constraints", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		// sum(aL*aR)=0, sum(aL-1-aR)=0 and sum(aL*2^i)=v: enough if y were 1
		k := s.n / s.m
		if k < 4 {
			return zz_advProof{}, false
		}
		s.aL, s.aR = nil, nil
		for _, x := range s.vs {
			l, r, ok := zz_sumDigits(x, k, s.N)
			if !ok {
				return zz_advProof{}, false
			}
			s.aL, s.aR = append(s.aL, l...), append(s.aR, r...)
		}
		return zz_plain(c, s, s.t65, s.t65, nil)
	}},
	{"commitments A and S zz_fitted to the challenges y and z", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_zeros(s.n, 0), zz_zeros(s.n, -1)
		s.commit()
		if !s.learn(c) {
			return zz_advProof{}, false
		}
		// -z(1+aR_0) = sum z^(2+j) v_j
		s.aR[0] = v.Mod(v.Sub(v.B(-1), v.Mul(s.vsum(s.vs), v.Inv(s.z, s.N))), s.N)
		s.commit()
		y, z := s.y, s.z
		if !s.finish(c, true) {
			return zz_advProof{}, false
		}
		s.y, s.z = y, z
		return s.assemble(s.l, s.r, s.t65(), s.t65(), nil)
	}},
	{"T1 zz_fitted to the challenge x", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		ip := zz_vIP(s.l, s.r, s.N)
		d := v.Sub(ip, s.t65())
		s.t1 = v.Mod(v.Add(s.t1, v.Mul(d, v.Inv(s.x, s.N))), s.N)
		s.T1 = s.gh(s.t1, s.u1)
		return s.assemble(s.l, s.r, ip, ip, nil)
	}},
	{"T2 zz_fitted to the challenge x", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		ip := zz_vIP(s.l, s.r, s.N)
		d := v.Sub(ip, s.t65())
		s.t2 = v.Mod(v.Add(s.t2, v.Mul(d, v.Inv(v.Mul(s.x, s.x), s.N))), s.N)
		s.T2 = s.gh(s.t2, s.u2)
		return s.assemble(s.l, s.r, ip, ip, nil)
	}},
	{"S zz_fitted to the challenge x", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		l, r := zz_fitted(c, s, s.t65())
		s.fitAS(l, r, false)
		return s.assemble(l, r, s.t65(), s.t65(), nil)
	}},
	{"A zz_fitted to the challenge x", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		l, r := zz_fitted(c, s, s.t65())
		s.fitAS(l, r, true)
		return s.assemble(l, r, s.t65(), s.t65(), nil)
	}},
	{"vectors unrelated to A and S", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		l, r := zz_fitted(c, s, s.t65())
		return s.assemble(l, r, s.t65(), s.t65(), nil)
	}},
	{"one round, constant vectors", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		s.commit()
		if !s.learn(c) || !s.finish(c, false) {
			return zz_advProof{}, false
		}
		l, r := zz_zeros(s.n, 0), zz_zeros(s.n, 0)
		l[0], r[0] = s.t65(), v.B(1)
		s.fitAS(l, r, false)
		p, ok := s.assemble(l, r, s.t65(), s.t65(), nil)
		p.ipp.L, p.ipp.R, p.ipp.A, p.ipp.B = nil, nil, l[0], r[0]
		return p, ok
	}},
}

// One of the committed values is chosen when the challenges are already known.
func init() {
	pick := map[string]func(c *v.Ctx, m int) int{
		"first":  func(c *v.Ctx, m int) int { return 0 },
		"second": func(c *v.Ctx, m int) int { return 1 },
		"last":   func(c *v.Ctx, m int) int { return m - 1 },
		"some":   func(c *v.Ctx, m int) int { return c.R.IntN(m) },
	}
	for _, name := range []string{"first", "second", "last", "some"} {
		f := pick[name]
		zz_advKinds = append(zz_advKinds, zz_advKind{name + " value fitted to the challenges y and z", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
			j := f(c, s.m)
			if j >= s.m {
				return zz_advProof{}, false
			}
			s.aL, s.aR = zz_vVec(c, s.n, 0, s.N), zz_vVec(c, s.n, 0, s.N)
			s.commit()
			if !s.learn(c) {
				return zz_advProof{}, false
			}
			l0, _, r0, _ := s.poly()
			d := v.Sub(v.Sub(zz_vIP(l0, r0, s.N), s.delta()), s.vsum(s.vs))
			w := new(big.Int).Exp(s.z, v.B(int64(2+j)), s.N)
			s.vs[j] = v.Mod(v.Add(s.vs[j], v.Mul(d, v.Inv(w, s.N))), s.N)
			s.Vs[j] = s.gh(s.vs[j], s.gammas[j])
			if !s.finish(c, true) {
				return zz_advProof{}, false
			}
			return s.assemble(s.l, s.r, s.t65(), s.t65(), nil)
		}}, zz_advKind{name + " value fitted to the challenge x", func(c *v.Ctx, s *zz_advSecret) (zz_advProof, bool) {
			j := f(c, s.m)
			if j >= s.m {
				return zz_advProof{}, false
			}
			s.aL, s.aR = zz_bitsOf(s, s.vs)
			s.commit()
			if !s.learn(c) || !s.finish(c, false) {
				return zz_advProof{}, false
			}
			ip := zz_vIP(s.l, s.r, s.N)
			d := v.Sub(ip, s.t65())
			w := new(big.Int).Exp(s.z, v.B(int64(2+j)), s.N)
			s.vs[j] = v.Mod(v.Add(s.vs[j], v.Mul(d, v.Inv(w, s.N))), s.N)
			s.Vs[j] = s.gh(s.vs[j], s.gammas[j])
			return s.assemble(s.l, s.r, ip, ip, nil)
		}})
	}
}

// zz_fitted draws vectors with a given inner product.
func zz_fitted(c *v.Ctx, s *zz_advSecret, t *big.Int) (l, r []*big.Int) {
	l, r = zz_vVec(c, s.n, 0, s.N), zz_vVec(c, s.n, 0, s.N)
	l[0] = v.B(0)
	r[0] = v.RandNZ(c.R, s.N)
	l[0] = v.MulM(v.Sub(t, zz_vIP(l, r, s.N)), v.Inv(r[0], s.N), s.N)
	return
}

// fitAS changes A (or S) so that A + xS opens to the vectors l, r under the current challenges.
func (s *zz_advSecret) fitAS(l, r []*big.Int, a bool) {
	zt := s.zt()
	wl, wr := make([]*big.Int, s.n), make([]*big.Int, s.n)
	for i := range l {
		wl[i] = v.Mod(v.Add(l[i], s.z), s.N)                                           // aL + x sL
		wr[i] = v.Mod(v.Sub(v.Mul(v.Sub(r[i], zt[i]), v.Inv(s.yp(i), s.N)), s.z), s.N) // aR + x sR
	}
	xi := v.Inv(s.x, s.N)
	for i := range l {
		if a {
			s.aL[i] = v.Mod(v.Sub(wl[i], v.Mul(s.x, s.sL[i])), s.N)
			s.aR[i] = v.Mod(v.Sub(wr[i], v.Mul(s.x, s.sR[i])), s.N)
		} else {
			s.sL[i] = v.MulM(v.Sub(wl[i], s.aL[i]), xi, s.N)
			s.sR[i] = v.MulM(v.Sub(wr[i], s.aR[i]), xi, s.N)
		}
	}
	s.A = s.vec(s.aL, s.aR, s.alpha)
	s.S = s.vec(s.sL, s.sR, s.rho)
}

// zz_sumDigits finds left/right digits whose sums (not entries) satisfy the constraints for value x.
func zz_sumDigits(x *big.Int, k int, N *big.Int) (l, r []*big.Int, ok bool) {
	l, r = zz_zeros(k, 0), zz_zeros(k, -1)
	// digits 0..2 carry: l0 + 2 l1 = x with r chosen so that l.r = 0 and sum(l-1-r)=0
	l[0], l[1] = v.Cp(x), v.B(0)
	// sum over all: l0*r0 + ... = 0 -> r0 = 0; sum(l-1-r) = x-1-0 + rest; balance with r1 (l1 = 0)
	r[0] = v.B(0)
	r[1] = v.Sub(v.Sub(x, v.B(1)), v.B(1)) // (l1-1-r1) = -1-r1 must equal -(x-1)
	r[1] = v.Mod(r[1], N)
	return l, r, true
}

func zz_vOutside(c *v.Ctx, k int, N *big.Int) []*big.Int {
	e := v.Pow2(k)
	return []*big.Int{e, v.B(-1), v.Sub(v.Mul(e, v.B(2)), v.B(1)), v.Neg(e), v.RandMod(c.R, N), v.Add(e, v.RandMod(c.R, e)), v.Mul(e, e), v.Sub(N, v.B(2)), v.Pow2(63), v.Pow2(64)}
}

func zz_advRun(c *v.Ctx, b int64, m int, multi bool) {
	n := v.B(b).BitLen() - 1
	k := n / m
	// control: the same prover with a true statement
	{
		s := zz_newAdv(c, b, m, multi)
		for j := 0; j < m; j++ {
			s.vs = append(s.vs, v.RandMod(c.R, v.Pow2(k)))
		}
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		p, ok := zz_plain(c, s, s.t65, s.t65, nil)
		if ok && zz_vVerdict(c, s.verify(p)) {
			c.Event("control_accepted")
		} else {
			c.Event("control_not_accepted")
		}
	}
	reps := 2
	if c.Thorough() {
		reps = 10
	}
	zz_kindsRun(c, reps, func(rep int) *zz_advSecret {
		s := zz_newAdv(c, b, m, multi)
		for j := 0; j < m; j++ {
			s.vs = append(s.vs, v.RandMod(c.R, v.Pow2(k)))
		}
		out := zz_vOutside(c, k, s.N)
		s.vs[c.R.IntN(m)] = out[c.R.IntN(len(out))]
		return s
	}, func(s *zz_advSecret, p zz_advProof, how string) bool {
		if !s.outside() {
			return false
		}
		if zz_vVerdict(c, s.verify(p)) {
			what := "range proof"
			if multi {
				what = fmt.Sprintf("aggregated range proof of %d values", m)
			}
			c.Violate("%s (%d bits each) verifies although the committed values are %v; forged by: %s", what, k, s.vs, how)
			return true
		}
		c.Event("attack_rejected")
		c.Eval(b, m, multi, how, s.vs)
		return false
	})
	c.Sample(map[string]any{"bits": n, "values": m, "attacks": len(zz_advKinds)})
}

// zz_kindsRun goes through the attacks; mk starts one, forged judges its proof (true: stop).
func zz_kindsRun(c *v.Ctx, reps int, mk func(rep int) *zz_advSecret, forged func(s *zz_advSecret, p zz_advProof, how string) bool) {
	for rep := 0; rep < reps; rep++ {
		for _, kd := range zz_advKinds {
			s := mk(rep)
			p, ok := kd.run(c, s)
			if !ok {
				c.Event("attack_not_applicable")
				continue
			}
			if forged(s, p, kd.name) {
				return
			}
		}
	}
}

// ZZForgeries emits forged range proofs of a value outside of the range (over a transparent group) whose commitment
// is opened by value and gamma; emit returns true to stop.
func ZZForgeries(c *v.Ctx, params BulletProofSetupParams, value, gamma *big.Int, part int, emit func(how string, pf BulletProof) bool) {
	mk := func(rep int) *zz_advSecret {
		s := zz_newAdvParams(c, params, 1, false)
		s.vs = []*big.Int{v.Mod(value, s.N)}
		s.gammas = []*big.Int{v.Cp(gamma)}
		s.aL, s.aR = zz_bitsOf(s, s.vs)
		return s
	}
	forged := func(s *zz_advSecret, p zz_advProof, how string) bool {
		if s.vs[0].Cmp(v.Mod(value, s.N)) != 0 || s.gammas[0].Cmp(gamma) != 0 {
			return false
		}
		return emit(how, BulletProof{V: s.Vs[0], A: s.A, S: s.S, T1: s.T1, T2: s.T2, Taux: p.taux, Mu: p.mu, Tprime: p.tprime, InnerProductProof: p.ipp, Params: s.params})
	}
	if part == 0 {
		zz_kindsRun(c, 1, mk, forged)
		return
	}
	zz_coinRun(c, part-1, mk, forged)
}

var zz_advEnds = []int64{2, 4, 16, 256, 65536, 4294967296}

func zz_vC08(tier string) []v.Case {
	cs := zz_coinCases(tier, false)
	reps := 2
	if tier == "thorough" {
		reps = 12
	}
	for _, b := range zz_advEnds {
		for r := 0; r < reps; r++ {
			b := b
			cs = append(cs, v.Case{ID: fmt.Sprintf("adversary/%d/%d", b, r), Run: func(c *v.Ctx) { zz_advRun(c, b, 1, false) }})
		}
	}
	return cs
}

// zz_advUneven: proofs made to measure for a number of values that does not divide the bit budget.
func zz_advUneven(c *v.Ctx, b int64) {
	n := v.B(b).BitLen() - 1
	for m := 2; m < n; m++ {
		if n%m == 0 || (n > 16 && !c.Thorough() && c.R.IntN(3) != 0) {
			continue
		}
		k := n / m
		for _, fill := range []int64{0, 1} {
			s := zz_newAdv(c, b, m, true)
			for j := 0; j < m; j++ {
				s.vs = append(s.vs, v.RandMod(c.R, v.Pow2(k)))
			}
			s.aL, s.aR = zz_bitsOf(s, s.vs)
			for len(s.aL) < n {
				s.aL, s.aR = append(s.aL, v.B(fill)), append(s.aR, v.B(fill-1))
			}
			p, ok := zz_plain(c, s, s.t65, s.t65, nil)
			if !ok {
				c.Event("attack_not_applicable")
				continue
			}
			acc := false
			pn, st := v.Safe(func() {
				r, err := s.verify(p)()
				acc = r && err == nil
			})
			if pn != nil {
				c.Violate("verifying an aggregated proof of %d values over %d bits crashes: %v [%s]", m, n, pn, st)
				return
			}
			if acc {
				c.Violate("an aggregated proof of %d values over %d bits, made to measure, verifies", m, n)
				return
			}
			c.Event("attack_rejected")
			c.Eval("uneven", b, m, fill)
		}
	}
}

func zz_vC09(tier string) []v.Case {
	cs := zz_coinCases(tier, true)
	for _, b := range zz_advEnds[2:] {
		b := b
		cs = append(cs, v.Case{ID: fmt.Sprintf("uneven/%d", b), Run: func(c *v.Ctx) { zz_advUneven(c, b) }})
	}
	reps := 1
	if tier == "thorough" {
		reps = 6
	}
	for _, b := range zz_advEnds {
		n := v.B(b).BitLen() - 1
		for m := 1; m <= n; m++ {
			if n%m != 0 {
				continue
			}
			for r := 0; r < reps; r++ {
				b, m := b, m
				cs = append(cs, v.Case{ID: fmt.Sprintf("adversary/%d/%d/%d", b, m, r), Run: func(c *v.Ctx) { zz_advRun(c, b, m, true) }})
			}
		}
	}
	return cs
}
