package vlib

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// Ref is an independent implementation of one of the repository's groups.
type Ref interface {
	Name() string
	Order() *big.Int
	Field() *big.Int
	Zero() RPt
	Gen() RPt
	Add(a, b RPt) RPt
	Neg(a RPt) RPt
	Mul(a RPt, k *big.Int) RPt
	// Key is a canonical description of a point.
	Key(a RPt) string
	// Read interprets an element of the repository's group; an error means it is no member.
	Read(e group.Element) (RPt, error)
}

// RPt is a reference point: nil slice entries are not allowed; Inf marks the identity of Weierstrass curves.
type RPt struct {
	V   []*big.Int
	Inf bool
}

// RefOf returns the reference of a group.
func RefOf(g group.Group) Ref {
	switch g.Name() {
	case "secp256k1":
		return &weier{name: g.Name(), p: StdField[g.Name()], n: StdOrder[g.Name()], a: B(0), b: B(7),
			gx: Hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
			gy: Hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	case "P-256":
		p := StdField[g.Name()]
		return &weier{name: g.Name(), p: p, n: StdOrder[g.Name()], a: Sub(p, B(3)),
			b:  Hex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
			gx: Hex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
			gy: Hex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}
	case "P-384":
		p := StdField[g.Name()]
		return &weier{name: g.Name(), p: p, n: StdOrder[g.Name()], a: Sub(p, B(3)),
			b:  Hex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
			gx: Hex("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
			gy: Hex("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")}
	case "ristretto255":
		return newRist()
	}
	Bug("no reference for %s", g.Name())
	return nil
}

// ---- short Weierstrass, affine, textbook formulas ----

type weier struct {
	name               string
	p, n, a, b, gx, gy *big.Int
}

func (w *weier) Name() string    { return w.name }
func (w *weier) Order() *big.Int { return w.n }
func (w *weier) Field() *big.Int { return w.p }
func (w *weier) Zero() RPt       { return RPt{Inf: true} }
func (w *weier) Gen() RPt        { return RPt{V: []*big.Int{w.gx, w.gy}} }
func (w *weier) Key(a RPt) string {
	if a.Inf {
		return "inf"
	}
	return a.V[0].Text(16) + "," + a.V[1].Text(16)
}
func (w *weier) Neg(a RPt) RPt {
	if a.Inf {
		return a
	}
	return RPt{V: []*big.Int{a.V[0], Mod(Neg(a.V[1]), w.p)}}
}
func (w *weier) Add(a, b RPt) RPt {
	if a.Inf {
		return b
	}
	if b.Inf {
		return a
	}
	x1, y1, x2, y2 := a.V[0], a.V[1], b.V[0], b.V[1]
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		if Mod(Add(y1, y2), w.p).Sign() == 0 {
			return w.Zero()
		}
		l = Mul(Add(Mul(B(3), Mul(x1, x1)), w.a), Inv(Mul(B(2), y1), w.p))
	} else {
		l = Mul(Sub(y2, y1), Inv(Sub(x2, x1), w.p))
	}
	l = Mod(l, w.p)
	x3 := Mod(Sub(Sub(Mul(l, l), x1), x2), w.p)
	y3 := Mod(Sub(Mul(l, Sub(x1, x3)), y1), w.p)
	return RPt{V: []*big.Int{x3, y3}}
}
func (w *weier) Mul(a RPt, k *big.Int) RPt {
	k = Mod(k, w.n)
	r := w.Zero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = w.Add(r, r)
		if k.Bit(i) == 1 {
			r = w.Add(r, a)
		}
	}
	return r
}

// OnCurve tells whether reduced coordinates satisfy the equation.
func (w *weier) OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(w.p) >= 0 || y.Cmp(w.p) >= 0 {
		return false
	}
	l := Mod(Mul(y, y), w.p)
	r := Mod(Add(Add(Mul(Mul(x, x), x), Mul(w.a, x)), w.b), w.p)
	return l.Cmp(r) == 0
}

// Read uses the coordinates of the JSON encoding.
func (w *weier) Read(e group.Element) (RPt, error) {
	js, err := e.MarshalJSON()
	if err != nil {
		return RPt{}, err
	}
	var c struct{ X, Y *big.Int }
	if err := json.Unmarshal(js, &c); err != nil {
		return RPt{}, fmt.Errorf("element encodes as %.80s: %v", js, err)
	}
	if c.X == nil || c.Y == nil || (c.X.Sign() == 0 && c.Y.Sign() == 0) {
		if (c.X == nil || c.X.Sign() == 0) && (c.Y == nil || c.Y.Sign() == 0) {
			return w.Zero(), nil
		}
		return RPt{}, fmt.Errorf("incomplete point %.80s", js)
	}
	if !w.OnCurve(c.X, c.Y) {
		return RPt{}, fmt.Errorf("point not on %s: %.160s", w.name, js)
	}
	return RPt{V: []*big.Int{c.X, c.Y}}, nil
}

// ---- ristretto255 after RFC 9496, over textbook twisted Edwards formulas ----

type rist struct {
	p, n, d, sqrtM1, invsqrtAmD *big.Int
	gen                         RPt
}

func newRist() *rist {
	r := &rist{p: StdField["ristretto255"], n: StdOrder["ristretto255"]}
	r.d, _ = new(big.Int).SetString("37095705934669439343138083508754565189542113879843219016388785533085940283555", 10)
	r.sqrtM1, _ = new(big.Int).SetString("19681161376707505956807079304988542015446066515923890162744021073123829784752", 10)
	r.invsqrtAmD, _ = new(big.Int).SetString("54469307008909316920995813868745141605393597292927456921205312896311721017578", 10)
	gb := Hex("e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76").Bytes()
	g, err := r.decode(gb)
	if err != nil {
		Bug("ristretto generator: %v", err)
	}
	r.gen = g
	return r
}

func (r *rist) m(a ...*big.Int) *big.Int {
	x := a[0]
	for _, y := range a[1:] {
		x = Mod(Mul(x, y), r.p)
	}
	return Mod(x, r.p)
}
func (r *rist) isNeg(a *big.Int) bool { return Mod(a, r.p).Bit(0) == 1 }
func (r *rist) abs(a *big.Int) *big.Int {
	if r.isNeg(a) {
		return Mod(Neg(a), r.p)
	}
	return Mod(a, r.p)
}

// sqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func (r *rist) sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	v3 := r.m(v, v, v)
	v7 := r.m(v3, v3, v)
	e := new(big.Int).Rsh(Sub(r.p, B(5)), 3)
	x := r.m(u, v3, new(big.Int).Exp(r.m(u, v7), e, r.p))
	chk := r.m(v, x, x)
	un := Mod(Neg(u), r.p)
	correct := chk.Cmp(Mod(u, r.p)) == 0
	flipped := chk.Cmp(un) == 0
	flippedI := chk.Cmp(r.m(un, r.sqrtM1)) == 0
	if flipped || flippedI {
		x = r.m(x, r.sqrtM1)
	}
	return correct || flipped, r.abs(x)
}

func le(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

func (r *rist) decode(b []byte) (RPt, error) {
	if len(b) != 32 {
		return RPt{}, errors.New("length")
	}
	s := le(b)
	if s.Cmp(r.p) >= 0 || r.isNeg(s) {
		return RPt{}, errors.New("not canonical")
	}
	one := B(1)
	ss := r.m(s, s)
	u1 := Mod(Sub(one, ss), r.p)
	u2 := Mod(Add(one, ss), r.p)
	u2s := r.m(u2, u2)
	v := Mod(Sub(Neg(r.m(r.d, u1, u1)), u2s), r.p)
	ok, inv := r.sqrtRatio(one, r.m(v, u2s))
	dx := r.m(inv, u2)
	dy := r.m(inv, dx, v)
	x := r.abs(r.m(B(2), s, dx))
	y := r.m(u1, dy)
	t := r.m(x, y)
	if !ok || r.isNeg(t) || y.Sign() == 0 {
		return RPt{}, errors.New("not a ristretto255 element")
	}
	return RPt{V: []*big.Int{x, y}}, nil
}

func (r *rist) encode(a RPt) []byte {
	x0, y0, z0 := a.V[0], a.V[1], B(1)
	t0 := r.m(x0, y0)
	u1 := r.m(Add(z0, y0), Sub(z0, y0))
	u2 := r.m(x0, y0)
	_, inv := r.sqrtRatio(B(1), r.m(u1, u2, u2))
	d1 := r.m(inv, u1)
	d2 := r.m(inv, u2)
	zi := r.m(d1, d2, t0)
	ix := r.m(x0, r.sqrtM1)
	iy := r.m(y0, r.sqrtM1)
	ed := r.m(d1, r.invsqrtAmD)
	x, y, di := x0, y0, d2
	if r.isNeg(r.m(t0, zi)) {
		x, y, di = iy, ix, ed
	}
	if r.isNeg(r.m(x, zi)) {
		y = Mod(Neg(y), r.p)
	}
	s := r.abs(r.m(di, Sub(z0, y)))
	b := s.FillBytes(make([]byte, 32))
	out := make([]byte, 32)
	for i := range b {
		out[31-i] = b[i]
	}
	return out
}

func (r *rist) Name() string    { return "ristretto255" }
func (r *rist) Order() *big.Int { return r.n }
func (r *rist) Field() *big.Int { return r.p }
func (r *rist) Zero() RPt       { return RPt{V: []*big.Int{B(0), B(1)}} }
func (r *rist) Gen() RPt        { return r.gen }
func (r *rist) Key(a RPt) string {
	return fmt.Sprintf("%x", r.encode(a))
}
func (r *rist) Neg(a RPt) RPt { return RPt{V: []*big.Int{Mod(Neg(a.V[0]), r.p), a.V[1]}} }
func (r *rist) Add(a, b RPt) RPt {
	// affine twisted Edwards, a=-1, complete
	x1, y1, x2, y2 := a.V[0], a.V[1], b.V[0], b.V[1]
	t := r.m(r.d, r.m(x1, x2), r.m(y1, y2))
	den := Inv(r.m(Add(B(1), t), Sub(B(1), t)), r.p)
	i1 := r.m(den, Sub(B(1), t)) // 1/(1+t)
	i2 := r.m(den, Add(B(1), t)) // 1/(1-t)
	x3 := r.m(Add(r.m(x1, y2), r.m(y1, x2)), i1)
	y3 := r.m(Add(r.m(y1, y2), r.m(x1, x2)), i2)
	return RPt{V: []*big.Int{x3, y3}}
}
func (r *rist) Mul(a RPt, k *big.Int) RPt {
	k = Mod(k, r.n)
	q := r.Zero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		q = r.Add(q, q)
		if k.Bit(i) == 1 {
			q = r.Add(q, a)
		}
	}
	return q
}

// Read uses the binary encoding.
func (r *rist) Read(e group.Element) (RPt, error) {
	b, err := e.MarshalBinary()
	if err != nil {
		return RPt{}, err
	}
	return r.decode(b)
}

// ---- squares modulo a safe prime ----

type modp struct{ p, q, g *big.Int }

// RefModP is the reference of the subgroup of squares modulo a safe prime.
func RefModP(p, g *big.Int) Ref {
	return &modp{p: p, q: new(big.Int).Rsh(p, 1), g: g}
}
func (m *modp) Name() string     { return fmt.Sprintf("modp%d", m.p.BitLen()) }
func (m *modp) Order() *big.Int  { return m.q }
func (m *modp) Field() *big.Int  { return m.p }
func (m *modp) Zero() RPt        { return RPt{V: []*big.Int{B(1)}} }
func (m *modp) Gen() RPt         { return RPt{V: []*big.Int{m.g}} }
func (m *modp) Key(a RPt) string { return a.V[0].Text(16) }
func (m *modp) Neg(a RPt) RPt    { return RPt{V: []*big.Int{Inv(a.V[0], m.p)}} }
func (m *modp) Add(a, b RPt) RPt { return RPt{V: []*big.Int{MulM(a.V[0], b.V[0], m.p)}} }
func (m *modp) Mul(a RPt, k *big.Int) RPt {
	return RPt{V: []*big.Int{new(big.Int).Exp(a.V[0], Mod(k, m.q), m.p)}}
}
func (m *modp) Read(e group.Element) (RPt, error) {
	js, err := e.MarshalJSON()
	if err != nil {
		return RPt{}, err
	}
	v := new(big.Int)
	if err := json.Unmarshal(js, v); err != nil {
		return RPt{}, err
	}
	if v.Sign() <= 0 || v.Cmp(m.p) >= 0 {
		return RPt{}, fmt.Errorf("%.40s... outside of the field", js)
	}
	if big.Jacobi(v, m.p) != 1 {
		return RPt{}, fmt.Errorf("%.40s... not in the prime-order subgroup", js)
	}
	return RPt{V: []*big.Int{v}}, nil
}

// NamedGroup couples a group with its reference.
type NamedGroup struct {
	Name string
	G    group.Group
	R    Ref
}

// Named returns the group (fresh instance) and its reference: a curve name, "rfc3072" or "modp<bits>".
func Named(name string) NamedGroup {
	if name == "rfc3072" {
		g := RFCGroup()
		return NamedGroup{name, g, RefModP(RFCPrime(), B(2))}
	}
	var bits int
	if n, _ := fmt.Sscanf(name, "modp%d", &bits); n == 1 {
		return NamedGroup{name, ModP(bits), RefModP(Hex(SafePrimes[bits]), B(4))}
	}
	g := Curve(name)
	return NamedGroup{name, g, RefOf(g)}
}

// AllNamed lists every group family.
var AllNamed = []string{"secp256k1", "ristretto255", "P-256", "P-384", "rfc3072", "modp16", "modp64", "modp512"}
