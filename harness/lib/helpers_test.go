package lib

import (
	"fmt"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C20", Rule: "random and edge vectors (negative, unreduced, huge, empty) through every exported helper; results compared with independent big-integer arithmetic or the reference group, inputs compared before and after", Together: []string{"vectors/", "exp/", "decompose/"}, Cases: c20, Require: map[string]int{"vector_result": 2000, "length_mismatch": 50, "decomposition": 1000, "multiexp": 30}})
}

func c20(tier string) []Case {
	cs := rushes("C20", tier)
	n := 60
	if tier == "thorough" {
		n = 1500
	}
	cs = append(cs, Case{"powers", c20powers})
	for i := 0; i < n; i++ {
		cs = append(cs, Case{fmt.Sprintf("vectors/%d", i), c20vectors})
		cs = append(cs, Case{fmt.Sprintf("decompose/%d", i), c20decompose})
	}
	m := 4
	if tier == "thorough" {
		m = 60
	}
	for _, name := range []string{"secp256k1", "ristretto255", "P-256", "P-384", "modp64", "modp512"} {
		name := name
		for i := 0; i < m; i++ {
			cs = append(cs, Case{fmt.Sprintf("exp/%s/%d", name, i), func(c *Ctx) { c20exp(c, Named(name)) }})
		}
	}
	return cs
}

func randInt(c *Ctx, mod *big.Int) *big.Int {
	switch c.R.IntN(9) {
	case 0:
		return B(0)
	case 1:
		return B(1)
	case 2:
		return Sub(mod, B(1))
	case 3:
		return Cp(mod)
	case 4:
		return Neg(RandMod(c.R, mod))
	case 5:
		return RandBits(c.R, mod.BitLen()*2+70)
	case 6:
		return Neg(RandBits(c.R, mod.BitLen()*2+70))
	case 7:
		return B(int64(c.R.IntN(256)) - 128)
	}
	return RandMod(c.R, mod)
}

func vec(c *Ctx, n int, mod *big.Int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = randInt(c, mod)
	}
	switch c.R.IntN(12) { // patterns
	case 0:
		x := randInt(c, mod)
		for i := range v {
			v[i] = Cp(x)
		}
	case 1:
		for i := range v {
			v[i] = B(0)
		}
	case 2: // a single entry
		for i := range v {
			if i != n/2 {
				v[i] = B(0)
			}
		}
	case 3: // the ends only
		for i := range v {
			if i != 0 && i != n-1 {
				v[i] = B(0)
			}
		}
	case 4: // powers
		x := B(1)
		y := randInt(c, mod)
		for i := range v {
			v[i] = x
			x = Mod(Mul(x, y), mod)
		}
	case 5: // all negative
		for i := range v {
			v[i] = Neg(RandBits(c.R, 1+c.R.IntN(mod.BitLen()+3)))
		}
	case 6: // opposite halves: sums vanish
		for i := n / 2; i < n; i++ {
			v[i] = Neg(v[i-n/2])
		}
	case 7: // multiples of the modulus
		for i := range v {
			v[i] = Mul(mod, B(int64(c.R.IntN(7))-3))
		}
	}
	if n > 1 && c.R.IntN(4) == 0 { // shared entries
		v[n-1] = v[0]
	}
	return v
}

func str(v ...any) string { return fmt.Sprint(v...) }

type fixedGroup struct {
	group.Group
	n *big.Int
}

func (f fixedGroup) N() *big.Int { return f.n }

func c20vectors(c *Ctx) {
	mods := []*big.Int{StdOrder["P-256"], StdOrder["ristretto255"], StdOrder["P-384"], B(2), B(3), B(1), B(97), Pow2(64), B(65537)}
	for rep := 0; rep < 40; rep++ {
		mod := mods[c.R.IntN(len(mods))]
		n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 31, 32, 33, 64, 65, 128}[c.R.IntN(16)]
		a, b := vec(c, n, mod), vec(c, n, mod)
		switch c.R.IntN(12) {
		case 0, 1:
			b = a
		case 2: // orthogonal to a
			for i := 0; i+1 < n; i += 2 {
				b[i], b[i+1] = Cp(a[i+1]), Neg(a[i])
			}
			if n%2 == 1 {
				b[n-1] = B(0)
			}
		case 3:
			for i := range b {
				b[i] = Neg(a[i])
			}
		}
		k := randInt(c, mod)
		in := str(a, b, k, mod)
		chk := func(name string, got []*big.Int, err error, f func(i int) *big.Int) {
			if err != nil {
				c.Violate("%s reports an error on equal lengths: %v", name, err)
				return
			}
			if len(got) != n {
				c.Violate("%s returns %d entries for %d", name, len(got), n)
				return
			}
			for i := range got {
				if got[i] == nil || got[i].Cmp(Mod(f(i), mod)) != 0 {
					c.Violate("%s[%d] of %v, %v (k=%v) mod %v is %v, want %v", name, i, a[i], b[i], k, mod, got[i], Mod(f(i), mod))
					return
				}
			}
			if str(a, b, k, mod) != in {
				c.Violate("%s modified its inputs", name)
			}
			c.Event("vector_result")
			c.Eval(name, in)
		}
		r, err := bp.VectorAdd(a, b, mod)
		chk("VectorAdd", r, err, func(i int) *big.Int { return Add(a[i], b[i]) })
		r, err = bp.VectorSub(a, b, mod)
		chk("VectorSub", r, err, func(i int) *big.Int { return Sub(a[i], b[i]) })
		r, err = bp.VectorMul(a, b, mod)
		chk("VectorMul", r, err, func(i int) *big.Int { return Mul(a[i], b[i]) })
		r, err = bp.VectorScalarMul(a, k, mod)
		chk("VectorScalarMul", r, err, func(i int) *big.Int { return Mul(a[i], k) })
		chk("VectorAddConst", bp.VectorAddConst(a, k, mod), nil, func(i int) *big.Int { return Add(a[i], k) })
		ip := B(0)
		for i := range a {
			ip = Add(ip, Mul(a[i], b[i]))
		}
		ip = Mod(ip, mod)
		if got := bp.VectorInnerProduct(a, b, mod); got.Cmp(ip) != 0 {
			c.Violate("VectorInnerProduct(%v,%v) mod %v = %v, want %v", a, b, mod, got, ip)
		}
		got, err := bp.ScalarProduct(a, b, fixedGroup{TCurve(), mod})
		if err != nil || got.Cmp(ip) != 0 {
			c.Violate("ScalarProduct(%v,%v) mod %v = %v (%v), want %v", a, b, mod, got, err, ip)
		}
		if str(a, b, k, mod) != in {
			c.Violate("inner products modified their inputs")
		}
		c.EventN("vector_result", 2)
		cp, err := bp.VectorCopy(k, int64(n))
		if err != nil || len(cp) != n {
			c.Violate("VectorCopy(%v,%d) has %d entries (%v)", k, n, len(cp), err)
		}
		for i := range cp {
			if cp[i].Cmp(k) != 0 {
				c.Violate("VectorCopy(%v)[%d]=%v", k, i, cp[i])
			}
		}
		is := make([]int64, n)
		for i := range is {
			is[i] = int64(c.R.Uint64())
			if c.R.IntN(3) == 0 {
				is[i] = int64(c.R.IntN(3)) - 1
			}
		}
		conv, err := bp.VectorConvertToBig(is, int64(n))
		if err != nil || len(conv) != n {
			c.Violate("VectorConvertToBig: %d entries (%v)", len(conv), err)
		}
		for i := range conv {
			if conv[i].Cmp(B(is[i])) != 0 {
				c.Violate("VectorConvertToBig(%d)=%v", is[i], conv[i])
			}
		}
		c.EventN("vector_result", 2)
		// different lengths
		d := vec(c, n+1+c.R.IntN(3), mod)
		for name, f := range map[string]func(x, y []*big.Int) error{
			"VectorAdd":     func(x, y []*big.Int) error { _, e := bp.VectorAdd(x, y, mod); return e },
			"VectorSub":     func(x, y []*big.Int) error { _, e := bp.VectorSub(x, y, mod); return e },
			"VectorMul":     func(x, y []*big.Int) error { _, e := bp.VectorMul(x, y, mod); return e },
			"ScalarProduct": func(x, y []*big.Int) error { _, e := bp.ScalarProduct(x, y, fixedGroup{TCurve(), mod}); return e },
		} {
			for o := 0; o < 2; o++ {
				x, y := a, d
				if o == 1 {
					x, y = d, a
				}
				var err error
				if p, st := Safe(func() { err = f(x, y) }); p != nil {
					c.Violate("%s panics on lengths %d,%d: %v [%s]", name, len(x), len(y), p, st)
				} else if err == nil {
					c.Violate("%s accepts lengths %d,%d", name, len(x), len(y))
				}
				c.Event("length_mismatch")
			}
		}
	}
}

// c20powers: the power-of-two test on which the admissible ranges depend.
func c20powers(c *Ctx) {
	is := func(x int64) bool {
		for i := 0; i < 63; i++ {
			if x == 1<<i {
				return true
			}
		}
		return false
	}
	test := func(x int64) {
		if got := bp.IsPowerOfTwo(x); got != is(x) {
			c.Violate("IsPowerOfTwo(%d) is %v", x, got)
		}
		c.Event("power_test")
		c.Eval("power", x)
	}
	for i := int64(-70); i < 1100; i++ {
		test(i)
	}
	for i := 0; i < 64; i++ {
		for d := int64(-2); d <= 2; d++ {
			test(1<<i + d)
			test(-(1 << i) + d)
			test(1<<i | 1<<(i/2) + d)
		}
		test(int64(c.R.Uint64()))
	}
	test(9223372036854775807)
	test(-9223372036854775808)
}

func c20decompose(c *Ctx) {
	for rep := 0; rep < 60; rep++ {
		u := int64(2)
		switch c.R.IntN(4) {
		case 1:
			u = int64(c.R.IntN(1000)) + 2
		case 2:
			u = []int64{3, 10, 256, 65536, 1 << 32, 1 << 62, 9223372036854775807}[c.R.IntN(7)]
		}
		l := int64(c.R.IntN(40))
		if u == 2 && c.R.IntN(2) == 0 {
			l = []int64{1, 2, 4, 8, 16, 32, 64, 128}[c.R.IntN(8)]
		}
		bound := new(big.Int).Exp(B(u), B(l), nil)
		var x *big.Int
		switch c.R.IntN(6) {
		case 0:
			x = B(0)
		case 1:
			x = Sub(bound, B(1))
		case 2: // larger than the digits: the remainder modulo u^l is decomposed
			x = Add(Mul(bound, RandBits(c.R, 40)), RandMod(c.R, bound))
		default:
			x = RandMod(c.R, bound)
		}
		x0 := x.String()
		var d []int64
		if p, st := Safe(func() { d = util.Decompose(x, u, l) }); p != nil {
			c.Violate("Decompose(%s,%d,%d) panics: %v [%s]", x0, u, l, p, st)
			return
		}
		if x.String() != x0 {
			c.Violate("Decompose modified its argument")
		}
		if int64(len(d)) != l {
			c.Violate("Decompose(%s,%d,%d) has %d digits", x0, u, l, len(d))
			return
		}
		sum := B(0)
		for i := len(d) - 1; i >= 0; i-- {
			if d[i] < 0 || d[i] >= u {
				c.Violate("Decompose(%s,%d,%d) has digit %d", x0, u, l, d[i])
				return
			}
			sum = Add(Mul(sum, B(u)), B(d[i]))
		}
		if sum.Cmp(Mod(x, bound)) != 0 {
			c.Violate("Decompose(%s,%d,%d)=%v recomposes to %v", x0, u, l, d, sum)
			return
		}
		c.Event("decomposition")
		c.Eval(x0, u, l)
	}
}

func c20exp(c *Ctx, ng NamedGroup) {
	N := ng.R.Order()
	for rep := 0; rep < 6; rep++ {
		n := []int{0, 1, 2, 3, 4, 5, 8, 16}[c.R.IntN(8)]
		els := make([]group.Element, n)
		refs := make([]RPt, n)
		exps := make([]*big.Int, n)
		for i := range els {
			k := RandMod(c.R, N)
			switch c.R.IntN(6) {
			case 0:
				k = B(0)
			case 1:
				if i > 0 {
					els[i], refs[i] = els[i-1], refs[i-1]
				}
			}
			if els[i] == nil {
				els[i], refs[i] = ng.G.Element().BaseScale(k), ng.R.Mul(ng.R.Gen(), k)
			}
			exps[i] = randScalar(c, N)
		}
		if n > 0 {
			switch c.R.IntN(8) {
			case 0: // one exponent for all
				for i := range exps {
					exps[i] = exps[0]
				}
			case 1: // the sum vanishes
				for i := n / 2; i < 2*(n/2); i++ {
					els[i], refs[i] = els[i-n/2], refs[i-n/2]
					exps[i] = Neg(exps[i-n/2])
				}
			case 2: // opposite elements
				for i := n / 2; i < 2*(n/2); i++ {
					els[i], refs[i] = ng.G.Element().Negate(els[i-n/2]), ng.R.Neg(refs[i-n/2])
				}
			case 3:
				for i := range exps {
					exps[i] = B(int64(c.R.IntN(2)))
				}
			case 4: // elements with unusual coordinates
				if sp := specials(c, ng); len(sp) > 0 {
					for i := range els {
						x := sp[c.R.IntN(len(sp))]
						els[i], refs[i] = x.e, x.r
					}
				}
			case 5:
				els[n-1], refs[n-1] = ng.G.Generator(), ng.R.Gen()
			}
		}
		var before []encs
		for _, e := range els {
			en, ok := encode(c, ng, e, "operand")
			if !ok {
				return
			}
			before = append(before, en)
		}
		ein := str(exps)
		want := ng.R.Zero()
		for i := range refs {
			want = ng.R.Add(want, ng.R.Mul(refs[i], exps[i]))
		}
		got, err := bp.VectorExp(els, exps, ng.G)
		if err != nil {
			c.Violate("VectorExp: %v", err)
			return
		}
		same(c, ng, got, want, fmt.Sprintf("VectorExp of %d elements with %v", n, exps))
		// addition of vectors of elements
		rev := make([]group.Element, n)
		for i := range els {
			rev[i] = els[n-1-i]
		}
		ec, err := bp.VectorECAdd(els, rev, ng.G)
		if err != nil || len(ec) != n {
			c.Violate("VectorECAdd: %d entries, %v", len(ec), err)
			return
		}
		for i := range ec {
			same(c, ng, ec[i], ng.R.Add(refs[i], refs[n-1-i]), "VectorECAdd")
		}
		hk := RandNZ(c.R, N)
		if c.R.IntN(4) == 0 {
			hk = []*big.Int{B(0), B(1), B(-1), B(2)}[c.R.IntN(4)]
		}
		h := ng.G.Element().BaseScale(hk)
		x, r := randScalar(c, N), randScalar(c, N)
		switch c.R.IntN(8) {
		case 0:
			r = x
		case 1:
			r = Neg(x)
		case 2:
			r = B(0)
		case 3:
			x = B(0)
		}
		xs, rs := x.String(), r.String()
		cm := util.PedersenCommit(x, r, h, ng.G)
		same(c, ng, cm, ng.R.Add(ng.R.Mul(ng.R.Gen(), x), ng.R.Mul(ng.R.Mul(ng.R.Gen(), hk), r)), fmt.Sprintf("PedersenCommit(%v,%v)", x, r))
		if x.String() != xs || r.String() != rs || str(exps) != ein {
			c.Violate("%s: helper modified its scalars", ng.Name)
		}
		same(c, ng, h, ng.R.Mul(ng.R.Gen(), hk), "commitment base after committing")
		for i, e := range els {
			en, ok := encode(c, ng, e, "operand")
			if !ok || en != before[i] {
				c.Violate("%s: helper modified element %d", ng.Name, i)
				return
			}
		}
		// different lengths
		if n > 0 {
			if _, err := bp.VectorExp(els, exps[:n-1], ng.G); err == nil {
				c.Violate("VectorExp accepts %d elements with %d exponents", n, n-1)
			}
			if _, err := bp.VectorExp(els, nil, ng.G); err == nil {
				c.Violate("VectorExp accepts %d elements without exponents", n)
			}
			if _, err := bp.VectorECAdd(els[:n-1], els, ng.G); err == nil {
				c.Violate("VectorECAdd accepts different lengths")
			}
			if _, err := bp.VectorECAdd(els, nil, ng.G); err == nil {
				c.Violate("VectorECAdd accepts different lengths")
			}
		}
		longer := append(append([]*big.Int{}, exps...), B(1))
		if _, err := bp.VectorExp(els, longer, ng.G); err == nil {
			c.Violate("VectorExp accepts %d elements with %d exponents", n, n+1)
		}
		if _, err := bp.VectorECAdd(append(append([]group.Element{}, els...), h), els, ng.G); err == nil {
			c.Violate("VectorECAdd accepts different lengths")
		}
		c.EventN("length_mismatch", 2)
		c.EventN("multiexp", 3)
		c.Eval(ng.Name, n, ein, xs, rs)
	}
}
