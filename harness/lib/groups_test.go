package lib

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C14", Rule: "register-machine histories and exhaustive edge tables of Element operations; every result, equality and identity test compared with an independent reference implementation of the group", Together: []string{"pairs/", "scalars/", "special/", "history/"}, Cases: c14, Require: map[string]int{"op_compared": 2000, "edge_scalar": 200, "edge_pair": 200, "across_instances": 50, "mixed_refused": 100}},
		Check{Prop: "C15", Rule: "elements reached by several computation paths, incl. identity and leading-zero coordinates; binary/JSON/textual encodings compared for equality, injectivity and round trip against reference keys", Together: []string{"paths/", "special/", "identity/", "zeros/"}, Cases: c15, Require: map[string]int{"roundtrip": 500, "leading_zero": 20, "same_element_other_path": 200}},
		Check{Prop: "C16", Rule: "operation histories over a pool of elements with arbitrary aliasing; all other elements, scalars and group constants re-encoded after every operation", Together: []string{"history/", "constants/"}, Cases: c16, Require: map[string]int{"ops": 1500, "aliased_ops": 200}},
	)
}

func groupList(tier string) []string {
	l := append([]string{}, AllNamed...)
	if tier == "thorough" {
		l = append(l, "modp32", "modp128", "modp256", "modp1024")
	}
	return l
}

func isCurve(n string) bool {
	for _, c := range CurveNames {
		if c == n {
			return true
		}
	}
	return false
}

// reg is a register of the machine: the element under test and what it should be.
type reg struct {
	e group.Element
	r RPt
}

func read(c *Ctx, ng NamedGroup, e group.Element, what string) (RPt, bool) {
	var p RPt
	var err error
	if pn, st := Safe(func() { p, err = ng.R.Read(e) }); pn != nil {
		c.Violate("%s: encoding the result of %s panics: %v [%s]", ng.Name, what, pn, st)
		return p, false
	}
	if err != nil {
		c.Violate("%s: result of %s is no group member: %v", ng.Name, what, err)
		return p, false
	}
	return p, true
}

func same(c *Ctx, ng NamedGroup, e group.Element, want RPt, what string) bool {
	got, ok := read(c, ng, e, what)
	if !ok {
		return false
	}
	if g, w := ng.R.Key(got), ng.R.Key(want); g != w {
		c.Violate("%s: %s gives %.80s, reference says %.80s", ng.Name, what, g, w)
		return false
	}
	return true
}

func somePoints(ng NamedGroup, c *Ctx, n int) []reg {
	G := ng.G
	N := ng.R.Order()
	mk := func(k *big.Int) reg { return reg{G.Element().BaseScale(k), ng.R.Mul(ng.R.Gen(), k)} }
	rs := []reg{
		{G.Identity(), ng.R.Zero()}, {G.Generator(), ng.R.Gen()}, mk(Sub(N, B(1))), mk(B(2)), mk(B(3)), mk(B(0)), mk(Sub(N, B(2))),
	}
	for i := 0; i < n; i++ {
		k := RandMod(c.R, N)
		rs = append(rs, mk(k), mk(Sub(N, k)), mk(Mod(Mul(B(2), k), N)))
	}
	return rs
}

func c14(tier string) []Case {
	cs := rushes("C14", tier)
	for _, name := range groupList(tier) {
		name := name
		cs = append(cs, Case{"const/" + name, func(c *Ctx) { c14const(c, Named(name)) }})
		cs = append(cs, Case{"pairs/" + name, func(c *Ctx) { c14pairs(c, Named(name)) }})
		for part := 0; part < 4; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("scalars/%s/%d", name, part), func(c *Ctx) { c14scalars(c, Named(name), part) }})
		}
		for part := 0; part < 3; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("special/%s/%d", name, part), func(c *Ctx) { c14special(c, Named(name), part) }})
		}
		cs = append(cs, Case{"instances/" + name, func(c *Ctx) { c14instances(c, name) }})
		cs = append(cs, Case{"mixed/" + name, func(c *Ctx) { c14mixed(c, name) }})
		h := 6
		if tier == "thorough" {
			h = 80
		}
		for i := 0; i < h; i++ {
			cs = append(cs, Case{fmt.Sprintf("history/%s/%d", name, i), func(c *Ctx) { c14history(c, Named(name)) }})
		}
	}
	return cs
}

// c14instances works with elements of several instances of the same group, as the voter, the
// collector and the decoded ballot have them: where an element comes from makes no difference.
func c14instances(c *Ctx, name string) {
	ngs := []NamedGroup{Named(name), Named(name), Named(name)}
	ng := ngs[0]
	N := ng.R.Order()
	var pool []reg
	for _, g := range ngs {
		k := RandMod(c.R, N)
		pool = append(pool, reg{g.G.Identity(), ng.R.Zero()}, reg{g.G.Generator(), ng.R.Gen()},
			reg{g.G.Element().BaseScale(k), ng.R.Mul(ng.R.Gen(), k)})
		k = Sub(N, k)
		pool = append(pool, reg{g.G.Element().BaseScale(k), ng.R.Mul(ng.R.Gen(), k)})
		d, err := ng.R.Read(pool[2].e)
		if err != nil {
			c.Violate("%s: element of an instance: %v", name, err)
			return
		}
		e, err := g.Make(d)
		if err != nil {
			c.Violate("%s: an instance does not decode an element of another: %v", name, err)
			return
		}
		pool = append(pool, reg{e, d})
	}
	n := len(pool)
	for i := 0; i < 2*n; i++ {
		a, b := pool[i%n], pool[c.R.IntN(n)]
		r := ngs[c.R.IntN(len(ngs))].G.Element()
		var x group.Element
		var want RPt
		what := ""
		eq := false
		if pn, st := Safe(func() {
			eq = a.e.IsEqual(b.e)
			switch i % 5 {
			case 0:
				x, want, what = r.Add(a.e, b.e), ng.R.Add(a.r, b.r), "Add"
			case 1:
				x, want, what = r.Subtract(a.e, b.e), ng.R.Add(a.r, ng.R.Neg(b.r)), "Subtract"
			case 2:
				x, want, what = r.Negate(a.e), ng.R.Neg(a.r), "Negate"
			case 3:
				k := RandMod(c.R, N)
				x, want, what = r.Scale(a.e, k), ng.R.Mul(a.r, k), "Scale"
			case 4:
				x, want, what = r.Set(a.e), a.r, "Set"
			}
		}); pn != nil {
			c.Violate("%s: %s over elements of several instances of the group panics: %v [%s]", name, what, pn, st)
			return
		}
		if !same(c, ng, x, want, what+" over elements of several instances of the group") {
			return
		}
		if eq != (ng.R.Key(a.r) == ng.R.Key(b.r)) {
			c.Violate("%s: IsEqual between elements of two instances of the group is %v", name, eq)
			return
		}
		c.Event("op_compared")
		c.Event("across_instances")
		c.Eval(name, "instances", i)
	}
}

// c14mixed gives operations elements of two different groups: they are refused (an operation
// has no error to return, so it panics) rather than giving something that looks like a result.
func c14mixed(c *Ctx, name string) {
	ng := Named(name)
	a := ng.G.Element().BaseScale(B(5))
	key, err := ng.R.Read(a)
	if err != nil {
		c.Violate("%s: %v", name, err)
		return
	}
	for _, other := range append(append([]string{}, AllNamed...), "modp128") {
		if other == name {
			continue
		}
		b := Named(other).G.Element().BaseScale(B(7))
		for what, f := range map[string]func(){
			"Add":      func() { ng.G.Element().Add(a, b) },
			"Add'":     func() { ng.G.Element().Add(b, a) },
			"Subtract": func() { ng.G.Element().Subtract(a, b) },
			"Negate":   func() { ng.G.Element().Negate(b) },
			"Scale":    func() { ng.G.Element().Scale(b, B(3)) },
			"Set":      func() { ng.G.Element().Set(b) },
			"IsEqual":  func() { a.IsEqual(b) },
		} {
			pn, _ := Safe(f)
			if pn == nil {
				c.Violate("%s: %s takes an element of %s without objecting", name, what, other)
				return
			}
			c.Event("mixed_refused")
			c.Eval(name, "mixed", other, what)
		}
	}
	same(c, ng, a, key, "an element that other groups were mixed with")
}

func c14const(c *Ctx, ng NamedGroup) {
	g := ng.G
	if g.N().Cmp(ng.R.Order()) != 0 {
		c.Violate("%s: stated order %x is not the group order %x", ng.Name, g.N(), ng.R.Order())
	}
	if g.P().Cmp(ng.R.Field()) != 0 {
		c.Violate("%s: stated field size %x is not %x", ng.Name, g.P(), ng.R.Field())
	}
	if !ng.R.Order().ProbablyPrime(10) || !ng.R.Field().ProbablyPrime(10) {
		Bug("reference order of %s is not prime", ng.Name)
	}
	e := g.Random()
	if e.GroupOrder().Cmp(ng.R.Order()) != 0 || e.FieldOrder().Cmp(ng.R.Field()) != 0 {
		c.Violate("%s: element reports order %x / field %x", ng.Name, e.GroupOrder(), e.FieldOrder())
	}
	same(c, ng, g.Generator(), ng.R.Gen(), "Generator")
	same(c, ng, g.Identity(), ng.R.Zero(), "Identity")
	if !g.Identity().IsIdentity() || g.Generator().IsIdentity() {
		c.Violate("%s: identity test wrong on Identity/Generator", ng.Name)
	}
	seen := map[string]bool{}
	n := 12
	for i := 0; i < n; i++ {
		e := g.Random()
		p, ok := read(c, ng, e, "Random")
		if !ok {
			return
		}
		if z := ng.R.Mul(p, ng.R.Order()); ng.R.Key(z) != ng.R.Key(ng.R.Zero()) {
			Bug("reference arithmetic of %s", ng.Name)
		}
		seen[ng.R.Key(p)] = true
		c.Eval(ng.Name, "random", ng.R.Key(p))
		c.Event("op_compared")
	}
	if ng.R.Order().BitLen() > 60 && len(seen) != n {
		c.Violate("%s: Random repeats elements (%d distinct of %d)", ng.Name, len(seen), n)
	}
}

func c14pairs(c *Ctx, ng NamedGroup) {
	pts := somePoints(ng, c, 2)
	for i, a := range pts {
		for j, b := range pts {
			tag := func(op string) string { return fmt.Sprintf("%s(#%d,#%d)", op, i, j) }
			if !same(c, ng, ng.G.Element().Add(a.e, b.e), ng.R.Add(a.r, b.r), tag("Add")) {
				return
			}
			if !same(c, ng, ng.G.Element().Subtract(a.e, b.e), ng.R.Add(a.r, ng.R.Neg(b.r)), tag("Subtract")) {
				return
			}
			eq := ng.R.Key(a.r) == ng.R.Key(b.r)
			if a.e.IsEqual(b.e) != eq {
				c.Violate("%s: IsEqual(#%d,#%d)=%v, reference says %v", ng.Name, i, j, !eq, eq)
			}
			sum := ng.G.Element().Add(a.e, b.e)
			if z := ng.R.Key(ng.R.Add(a.r, b.r)) == ng.R.Key(ng.R.Zero()); sum.IsIdentity() != z {
				c.Violate("%s: IsIdentity of %s is %v, reference says %v", ng.Name, tag("Add"), !z, z)
			}
			c.EventN("edge_pair", 2)
			c.EventN("op_compared", 2)
			c.Eval(ng.Name, "pair", ng.R.Key(a.r), ng.R.Key(b.r))
		}
		if !same(c, ng, ng.G.Element().Negate(a.e), ng.R.Neg(a.r), fmt.Sprintf("Negate(#%d)", i)) {
			return
		}
		// aliased forms
		x := ng.G.Element().Set(a.e)
		same(c, ng, x.Add(x, x), ng.R.Add(a.r, a.r), fmt.Sprintf("x.Add(x,x) of #%d", i))
		x = ng.G.Element().Set(a.e)
		same(c, ng, x.Subtract(x, x), ng.R.Zero(), fmt.Sprintf("x.Subtract(x,x) of #%d", i))
		x = ng.G.Element().Set(a.e)
		same(c, ng, x.Negate(x), ng.R.Neg(a.r), fmt.Sprintf("x.Negate(x) of #%d", i))
		c.EventN("op_compared", 4)
	}
	c.Sample(map[string]any{"group": ng.Name, "points": len(pts), "first": ng.R.Key(pts[len(pts)-1].r)})
}

// specials decodes the elements with unusual encodings.
func specials(c *Ctx, ng NamedGroup) []reg {
	var rs []reg
	for _, p := range ng.Specials() {
		p := p
		var e group.Element
		var err error
		if pn, _ := Safe(func() { e, err = ng.Make(p) }); pn != nil || err != nil {
			c.Event("special_not_decoded")
			continue
		}
		rs = append(rs, reg{e, p})
	}
	return rs
}

// c14special works with elements of unusual coordinates (small, large, short, shared with another element).
func c14special(c *Ctx, ng NamedGroup, part int) {
	sp := specials(c, ng)
	all := append(sp, reg{ng.G.Identity(), ng.R.Zero()}, reg{ng.G.Generator(), ng.R.Gen()})
	isZero := func(p RPt) bool { return ng.R.Key(p) == ng.R.Key(ng.R.Zero()) }
	keys := make([]string, len(all))
	for i, a := range all {
		keys[i] = ng.R.Key(a.r)
	}
	for i, a := range all {
		if i%3 != part {
			continue
		}
		if !same(c, ng, a.e, a.r, "decoding a special element") {
			return
		}
		if a.e.IsIdentity() != isZero(a.r) {
			c.Violate("%s: IsIdentity of %.100s is %v", ng.Name, keys[i], !isZero(a.r))
			return
		}
		if !same(c, ng, ng.G.Element().Negate(a.e), ng.R.Neg(a.r), "Negate("+keys[i]+")") {
			return
		}
		for j, b := range all {
			if a.e.IsEqual(b.e) != (keys[i] == keys[j]) {
				c.Violate("%s: IsEqual is %v for %.100s and %.100s", ng.Name, keys[i] != keys[j], keys[i], keys[j])
				return
			}
			c.Event("special_pair")
			c.Eval(ng.Name, "special", keys[i], keys[j])
			if (i+j)%4 != 0 && keys[i] != keys[j] && !isZero(ng.R.Add(a.r, b.r)) {
				continue
			}
			sum := ng.G.Element().Add(a.e, b.e)
			if !same(c, ng, sum, ng.R.Add(a.r, b.r), fmt.Sprintf("Add(%s; %s)", keys[i], keys[j])) ||
				!same(c, ng, ng.G.Element().Subtract(a.e, b.e), ng.R.Add(a.r, ng.R.Neg(b.r)), fmt.Sprintf("Subtract(%s; %s)", keys[i], keys[j])) {
				return
			}
			if z := isZero(ng.R.Add(a.r, b.r)); sum.IsIdentity() != z {
				c.Violate("%s: IsIdentity of the sum of %.100s and %.100s is %v", ng.Name, keys[i], keys[j], !z)
				return
			}
			c.EventN("op_compared", 2)
		}
		N := ng.R.Order()
		for _, k := range []*big.Int{B(0), B(1), B(2), B(-1), Sub(N, B(1)), N, Add(N, B(1)), RandMod(c.R, N)} {
			want := ng.R.Mul(a.r, k)
			x := ng.G.Element().Scale(a.e, k)
			if !same(c, ng, x, want, fmt.Sprintf("Scale(%s, %s)", keys[i], k.Text(16))) {
				return
			}
			if !same(c, ng, x.Scale(x, B(3)), ng.R.Mul(want, B(3)), fmt.Sprintf("Scale(%s, %s) tripled", keys[i], k.Text(16))) {
				return
			}
			c.EventN("op_compared", 2)
		}
	}
}

func c14scalars(c *Ctx, ng NamedGroup, part int) {
	N := ng.R.Order()
	pts := somePoints(ng, c, 1)
	pts = []reg{pts[0], pts[1], pts[2], pts[7], pts[8]}
	for i, k := range EdgeScalars(N) {
		if i%4 != part {
			continue
		}
		ks := k.String()
		if !same(c, ng, ng.G.Element().BaseScale(k), ng.R.Mul(ng.R.Gen(), k), "BaseScale("+k.Text(16)+")") {
			return
		}
		for j, p := range pts {
			if !same(c, ng, ng.G.Element().Scale(p.e, k), ng.R.Mul(p.r, k), fmt.Sprintf("Scale(#%d, %s)", j, k.Text(16))) {
				return
			}
			x := ng.G.Element().Set(p.e)
			same(c, ng, x.Scale(x, k), ng.R.Mul(p.r, k), fmt.Sprintf("x.Scale(x, %s)", k.Text(16)))
			z := ng.R.Key(ng.R.Mul(p.r, k)) == ng.R.Key(ng.R.Zero())
			if x.IsIdentity() != z {
				c.Violate("%s: IsIdentity(#%d * %s) = %v", ng.Name, j, k.Text(16), !z)
			}
			c.EventN("edge_scalar", 2)
			c.EventN("op_compared", 2)
			c.Eval(ng.Name, "scalar", j, ks)
		}
		if k.String() != ks {
			c.Violate("%s: scaling changed its scalar", ng.Name)
		}
	}
}

func randScalar(c *Ctx, N *big.Int) *big.Int {
	switch c.R.IntN(6) {
	case 0:
		e := EdgeScalars(N)
		return e[c.R.IntN(len(e))]
	case 1:
		return RandBits(c.R, 1+c.R.IntN(20))
	case 2:
		return Neg(RandMod(c.R, N))
	case 3:
		return RandBits(c.R, N.BitLen()+64)
	}
	return RandMod(c.R, N)
}

func c14history(c *Ctx, ng NamedGroup) {
	const W = 6
	var regs [W]reg
	for i := range regs {
		regs[i] = reg{ng.G.Generator(), ng.R.Gen()}
	}
	steps := 40
	trace := ""
	for s := 0; s < steps; s++ {
		d, a, b := c.R.IntN(W), c.R.IntN(W), c.R.IntN(W)
		op := c.R.IntN(10)
		D, A, Bb := &regs[d], regs[a], regs[b]
		if c.R.IntN(3) == 0 { // sometimes through a fresh receiver
			D.e = ng.G.Element()
			if a == d {
				A.e = A.e
			}
		}
		var want RPt
		var ret group.Element
		var desc string
		switch op {
		case 0, 1, 2:
			want, desc = ng.R.Add(A.r, Bb.r), fmt.Sprintf("r%d=r%d+r%d", d, a, b)
			ret = D.e.Add(A.e, Bb.e)
		case 3, 4:
			want, desc = ng.R.Add(A.r, ng.R.Neg(Bb.r)), fmt.Sprintf("r%d=r%d-r%d", d, a, b)
			ret = D.e.Subtract(A.e, Bb.e)
		case 5:
			want, desc = ng.R.Neg(A.r), fmt.Sprintf("r%d=-r%d", d, a)
			ret = D.e.Negate(A.e)
		case 6, 7:
			k := randScalar(c, ng.R.Order())
			want, desc = ng.R.Mul(A.r, k), fmt.Sprintf("r%d=r%d*%s", d, a, k.Text(16))
			ret = D.e.Scale(A.e, k)
		case 8:
			k := randScalar(c, ng.R.Order())
			want, desc = ng.R.Mul(ng.R.Gen(), k), fmt.Sprintf("r%d=G*%s", d, k.Text(16))
			ret = D.e.BaseScale(k)
		case 9:
			want, desc = A.r, fmt.Sprintf("r%d=r%d", d, a)
			ret = D.e.Set(A.e)
		}
		trace += desc + "; "
		if len(trace) > 400 {
			trace = "..." + trace[len(trace)-397:]
		}
		if !same(c, ng, D.e, want, "history step "+trace) {
			return
		}
		if ret != D.e && !same(c, ng, ret, want, "value returned by "+desc) {
			return
		}
		D.r = want
		x, y := c.R.IntN(W), c.R.IntN(W)
		eq := ng.R.Key(regs[x].r) == ng.R.Key(regs[y].r)
		if regs[x].e.IsEqual(regs[y].e) != eq {
			c.Violate("%s: IsEqual(r%d,r%d)=%v after %s", ng.Name, x, y, !eq, trace)
			return
		}
		c.Event("op_compared")
		c.Eval(ng.Name, op, ng.R.Key(want))
	}
	c.Sample(map[string]any{"group": ng.Name, "trace": trace})
}

// ---------------- C15 ----------------

// LZ lists multiples of the generator whose encodings have leading (for ristretto255: first or last) zero bytes.
var LZ = map[string][]int64{
	"secp256k1":    {55959, 41192, 153, 122, 62762, 44629, 246, 130, 166259, 58165, 886, 533, 63439, 1158, 544, 68831},
	"P-256":        {49350, 2376, 379, 43, 112756, 40393, 552, 444, 120908, 61552, 751, 742, 77299, 783, 997, 116173},
	"P-384":        {6394, 14971, 197, 176, 10184, 40603, 234, 831, 64159, 64109, 463, 1163, 93150, 550, 1247, 119438},
	"ristretto255": {68, 248, 14431, 322, 369, 48997, 416, 420, 105483, 543, 600, 112521, 115468, 122355},
}

type encs struct{ bin, js, str string }

func encode(c *Ctx, ng NamedGroup, e group.Element, what string) (encs, bool) {
	var r encs
	var err1, err2 error
	pn, st := Safe(func() {
		var b, j []byte
		b, err1 = e.MarshalBinary()
		j, err2 = e.MarshalJSON()
		r = encs{string(b), string(j), e.String()}
	})
	if pn != nil || err1 != nil || err2 != nil {
		c.Violate("%s: encoding %s fails: panic=%v err=%v/%v [%s]", ng.Name, what, pn, err1, err2, st)
		return r, false
	}
	return r, true
}

func c15(tier string) []Case {
	cs := rushes("C15", tier)
	for _, name := range groupList(tier) {
		name := name
		n := 8
		if tier == "thorough" {
			n = 60
		}
		for i := 0; i < n; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("paths/%s/%d", name, i), func(c *Ctx) { c15paths(c, Named(name), i) }})
		}
		cs = append(cs, Case{"identity/" + name, func(c *Ctx) { c15identity(c, Named(name)) }})
		cs = append(cs, Case{"special/" + name, func(c *Ctx) { c15special(c, Named(name)) }})
		cs = append(cs, Case{"injective/" + name, func(c *Ctx) { c15injective(c, Named(name)) }})
		if isCurve(name) {
			for i, k := range LZ[name] {
				if tier == "quick" && i >= 12 {
					break
				}
				k := k
				cs = append(cs, Case{fmt.Sprintf("zeros/%s/%d", name, k), func(c *Ctx) { c15zeros(c, Named(name), k) }})
			}
		} else {
			for _, k := range []int64{1, 2, 3, 7, 8, 9, 15, 100} {
				k := k
				cs = append(cs, Case{fmt.Sprintf("zeros/%s/%d", name, k), func(c *Ctx) { c15zeros(c, Named(name), k) }})
			}
		}
	}
	return cs
}

// roundTrip decodes all encodings of e in fresh and used receivers.
func roundTrip(c *Ctx, ng NamedGroup, e group.Element, key, what string) bool {
	en, ok := encode(c, ng, e, what)
	if !ok {
		return false
	}
	for _, used := range []bool{false, true} {
		mk := func() group.Element {
			if used {
				return ng.G.Element().Set(ng.G.Random())
			}
			return ng.G.Element()
		}
		for _, kind := range []string{"binary", "json", "setbytes"} {
			x := mk()
			var err error
			buf := []byte(en.bin)
			if kind == "json" {
				buf = []byte(en.js)
			}
			pn, st := Safe(func() {
				switch kind {
				case "binary":
					err = x.UnmarshalBinary(buf)
				case "json":
					err = x.UnmarshalJSON(buf)
				case "setbytes":
					x = x.SetBytes(buf)
				}
			})
			if pn != nil || err != nil {
				c.Violate("%s: decoding the %s encoding of %s fails: panic=%v err=%v [%s]", ng.Name, kind, what, pn, err, st)
				return false
			}
			for i := range buf { // the decoded element must not live in the buffer
				buf[i] = 0x5a
			}
			p, ok := read(c, ng, x, kind+" decoding of "+what)
			if !ok {
				return false
			}
			if ng.R.Key(p) != key {
				c.Violate("%s: %s round trip of %s gives %.60s instead of %.60s", ng.Name, kind, what, ng.R.Key(p), key)
				return false
			}
			if !x.IsEqual(e) || !e.IsEqual(x) {
				c.Violate("%s: %s round trip of %s is not equal to the original", ng.Name, kind, what)
				return false
			}
			en2, ok := encode(c, ng, x, "decoded "+what)
			if !ok {
				return false
			}
			if en2 != en {
				c.Violate("%s: %s round trip of %s encodes differently: %x/%.60s/%q vs %x/%.60s/%q", ng.Name, kind, what, en2.bin, en2.js, en2.str, en.bin, en.js, en.str)
				return false
			}
			c.Event("roundtrip")
		}
	}
	return true
}

// pathsTo computes k*G in different ways.
func pathsTo(c *Ctx, ng NamedGroup, k *big.Int) []group.Element {
	g, N := ng.G, ng.R.Order()
	r := RandMod(c.R, N)
	r2 := RandNZ(c.R, N)
	ps := []group.Element{
		g.Element().BaseScale(k),
		g.Element().Scale(g.Generator(), k),
		g.Element().BaseScale(Add(k, N)),
		g.Element().BaseScale(Sub(k, N)),
		g.Element().Add(g.Element().BaseScale(r), g.Element().BaseScale(Sub(k, r))),
		g.Element().Subtract(g.Element().BaseScale(Add(k, r)), g.Element().BaseScale(r)),
		g.Element().Negate(g.Element().BaseScale(Neg(k))),
		g.Element().Scale(g.Element().BaseScale(r2), Mul(k, Inv(r2, N))),
		g.Element().Add(g.Element().BaseScale(k), g.Identity()),
		g.Element().Add(g.Identity(), g.Element().BaseScale(k)),
		g.Element().Subtract(g.Element().BaseScale(k), g.Identity()),
		g.Element().Set(g.Element().BaseScale(k)),
	}
	// half by doubling
	h := g.Element().BaseScale(Mul(k, Inv(B(2), N)))
	ps = append(ps, h.Add(h, h))
	return ps
}

func checkPaths(c *Ctx, ng NamedGroup, k *big.Int, what string) bool {
	want := ng.R.Mul(ng.R.Gen(), k)
	key := ng.R.Key(want)
	var first encs
	for i, e := range pathsTo(c, ng, k) {
		tag := fmt.Sprintf("%s (path %d)", what, i)
		if !same(c, ng, e, want, tag) {
			return false
		}
		en, ok := encode(c, ng, e, tag)
		if !ok {
			return false
		}
		en2, ok := encode(c, ng, e, tag)
		if !ok || en2 != en {
			c.Violate("%s: encoding %s twice gives different results", ng.Name, tag)
			return false
		}
		if i == 0 {
			first = en
		} else {
			c.Event("same_element_other_path")
			if en != first {
				c.Violate("%s: %s encodes as %x / %s / %q although the same element computed as k*G encodes as %x / %s / %q", ng.Name, tag,
					en.bin, en.js, en.str, first.bin, first.js, first.str)
				return false
			}
		}
		if i == 0 || c.R.IntN(4) == 0 {
			if !roundTrip(c, ng, e, key, tag) {
				return false
			}
		}
		c.Eval(ng.Name, key, i)
	}
	return true
}

func c15paths(c *Ctx, ng NamedGroup, i int) {
	ks := []*big.Int{RandMod(c.R, ng.R.Order()), RandMod(c.R, ng.R.Order()), B(int64(i + 1)), Sub(ng.R.Order(), B(int64(i+1)))}
	for _, k := range ks {
		if !checkPaths(c, ng, k, k.Text(16)+"*G") {
			return
		}
	}
	c.Sample(map[string]any{"group": ng.Name, "scalar": ks[0].Text(16)})
}

func c15identity(c *Ctx, ng NamedGroup) {
	g, N := ng.G, ng.R.Order()
	if !checkPaths(c, ng, B(0), "identity") {
		return
	}
	p := g.Random()
	ids := []group.Element{g.Identity(), g.Element().BaseScale(N), g.Element().Scale(p, B(0)), g.Element().Scale(p, N),
		g.Element().Subtract(p, p), g.Element().Add(p, g.Element().Negate(p)), g.Element().Negate(g.Identity()),
		g.Element().Scale(g.Identity(), B(5)), g.Element().Set(g.Identity()), g.Element().Add(g.Identity(), g.Identity()),
		g.Element().Subtract(g.Identity(), g.Identity()), g.Element().Scale(g.Identity(), N), g.Element().Scale(g.Element().BaseScale(B(0)), B(0))}
	x := g.Element().Set(p)
	ids = append(ids, x.Subtract(x, x))
	var first encs
	for i, e := range ids {
		tag := fmt.Sprintf("identity #%d", i)
		en, ok := encode(c, ng, e, tag)
		if !ok {
			return
		}
		if !same(c, ng, e, ng.R.Zero(), tag) {
			return
		}
		if i == 0 {
			first = en
		} else if en != first {
			c.Violate("%s: %s encodes as %x / %s / %q but Identity() as %x / %s / %q", ng.Name, tag, en.bin, en.js, en.str, first.bin, first.js, first.str)
			return
		}
		c.Event("same_element_other_path")
		if !roundTrip(c, ng, e, ng.R.Key(ng.R.Zero()), tag) {
			return
		}
		if !e.IsIdentity() {
			c.Violate("%s: %s is not recognised as identity", ng.Name, tag)
		}
		c.Eval(ng.Name, tag)
	}
}

func c15injective(c *Ctx, ng NamedGroup) {
	bin, js, str := map[string]string{}, map[string]string{}, map[string]string{}
	n := 420
	if c.Thorough() {
		n = 4000
	}
	N := ng.R.Order()
	e := ng.G.Identity()
	gen := ng.G.Generator()
	put := func(m map[string]string, enc, key, what string) bool {
		if o, ok := m[enc]; ok && o != key {
			c.Violate("%s: the %s encoding %x stands for two different elements", ng.Name, what, enc)
			return false
		}
		m[enc] = key
		return true
	}
	for i := 0; i < n; i++ {
		x := e
		if i%3 == 2 {
			x = ng.G.Element().Negate(e)
		} else if i%3 == 1 && i%2 == 0 {
			x = ng.G.Element().BaseScale(RandMod(c.R, N))
		}
		p, ok := read(c, ng, x, "multiple")
		if !ok {
			return
		}
		en, ok := encode(c, ng, x, "multiple")
		if !ok {
			return
		}
		k := ng.R.Key(p)
		if !put(bin, en.bin, k, "binary") || !put(js, en.js, k, "JSON") || !put(str, en.str, k, "textual") {
			return
		}
		c.Eval(ng.Name, k)
		c.Event("injectivity_probe")
		if i%3 == 2 { // the same multiple is probed with both signs
			e = ng.G.Element().Add(e, gen)
		}
	}
}

// c15special: elements with unusual coordinates, of unknown discrete logarithm.
func c15special(c *Ctx, ng NamedGroup) {
	g, N := ng.G, ng.R.Order()
	by := map[encs]string{}
	bin, str, js := map[string]string{}, map[string]string{}, map[string]string{}
	for _, p := range append(ng.Specials(), ng.R.Zero(), ng.R.Gen()) {
		p, key := p, ng.R.Key(p)
		var e group.Element
		var err error
		if pn, st := Safe(func() { e, err = ng.Make(p) }); pn != nil || err != nil {
			c.Violate("%s: the encoding of the element %.160s is not decoded: panic=%v err=%v [%s]", ng.Name, key, pn, err, st)
			return
		}
		if !same(c, ng, e, p, "decoding "+key) || !roundTrip(c, ng, e, key, key) {
			return
		}
		first, _ := encode(c, ng, e, key)
		if o, ok := by[first]; ok && o != key {
			c.Violate("%s: %.100s and %.100s have the same encodings", ng.Name, o, key)
			return
		}
		for _, m := range []struct {
			m map[string]string
			e string
			k string
		}{{bin, first.bin, "binary"}, {js, first.js, "JSON"}, {str, first.str, "textual"}} {
			if o, ok := m.m[m.e]; ok && o != key {
				c.Violate("%s: %.100s and %.100s have the same %s encoding %x", ng.Name, o, key, m.k, m.e)
				return
			}
			m.m[m.e] = key
		}
		by[first] = key
		r := g.Element().BaseScale(RandMod(c.R, N))
		h := g.Element().Scale(e, Inv(B(2), N))
		paths := []group.Element{
			g.Element().Set(e), g.Element().Add(e, g.Identity()), g.Element().Add(g.Identity(), e), g.Element().Subtract(e, g.Identity()),
			g.Element().Subtract(g.Element().Add(e, r), r), g.Element().Negate(g.Element().Negate(e)), g.Element().Scale(e, B(1)),
			g.Element().Scale(e, Add(N, B(1))), g.Element().Scale(g.Element().Negate(e), B(-1)), g.Element().Scale(g.Element().Scale(e, B(7)), Inv(B(7), N)),
			h.Add(h, h), g.Element().Add(e, g.Element().Scale(e, N)),
		}
		for i, x := range paths {
			en, ok := encode(c, ng, x, key)
			if !ok {
				return
			}
			if en != first {
				c.Violate("%s: %.100s encodes as %x / %s / %q, and computed otherwise (path %d) as %x / %s / %q", ng.Name, key, first.bin, first.js, first.str, i, en.bin, en.js, en.str)
				return
			}
			c.Event("same_element_other_path")
			c.Eval(ng.Name, key, "special", i)
		}
		if !roundTrip(c, ng, paths[c.R.IntN(len(paths))], key, key+" computed") {
			return
		}
		c.Event("special_element")
	}
}

func c15zeros(c *Ctx, ng NamedGroup, k int64) {
	if checkPaths(c, ng, B(k), fmt.Sprintf("%d*G (leading-zero encoding)", k)) {
		c.Event("leading_zero")
	}
	checkPaths(c, ng, B(-k), fmt.Sprintf("-%d*G (leading-zero encoding)", k))
}

// ---------------- C16 ----------------

func c16(tier string) []Case {
	var cs []Case
	for _, name := range groupList(tier) {
		name := name
		n := 8
		if tier == "thorough" {
			n = 120
		}
		for i := 0; i < n; i++ {
			cs = append(cs, Case{fmt.Sprintf("history/%s/%d", name, i), func(c *Ctx) { c16history(c, Named(name)) }})
		}
		cs = append(cs, Case{"constants/" + name, func(c *Ctx) { c16constants(c, Named(name)) }})
	}
	return cs
}

func constants(c *Ctx, ng NamedGroup) (string, bool) {
	var s string
	for _, e := range []group.Element{ng.G.Generator(), ng.G.Identity(), ng.G.Element().BaseScale(B(1)), ng.G.Element().BaseScale(B(12345))} {
		en, ok := encode(c, ng, e, "group constant")
		if !ok {
			return "", false
		}
		s += fmt.Sprintf("%x|", en.bin)
	}
	return s + ng.G.N().String() + ng.G.P().String() + ng.G.Name(), true
}

// c16constants modifies, in place, everything the group hands out.
func c16constants(c *Ctx, ng NamedGroup) {
	before, ok := constants(c, ng)
	if !ok {
		return
	}
	src := []func() group.Element{ng.G.Generator, ng.G.Identity, ng.G.Random, func() group.Element { return ng.G.Element().BaseScale(B(1)) },
		func() group.Element { return ng.G.Element().Set(ng.G.Generator()) }}
	p := ng.G.Random()
	pb, _ := p.MarshalBinary()
	pj, _ := p.MarshalJSON()
	idb, _ := ng.G.Identity().MarshalBinary()
	idj, _ := ng.G.Identity().MarshalJSON()
	mods := map[string]func(e group.Element){
		"Add":             func(e group.Element) { e.Add(e, e) },
		"AddP":            func(e group.Element) { e.Add(p, p) },
		"Subtract":        func(e group.Element) { e.Subtract(e, p) },
		"Negate":          func(e group.Element) { e.Negate(e) },
		"Scale":           func(e group.Element) { e.Scale(e, B(7)) },
		"Scale0":          func(e group.Element) { e.Scale(e, B(0)) },
		"BaseScale":       func(e group.Element) { e.BaseScale(B(9)) },
		"Set":             func(e group.Element) { e.Set(p) },
		"SetBytes":        func(e group.Element) { e.SetBytes(append([]byte{}, pb...)) },
		"UnmarshalBinary": func(e group.Element) { _ = e.UnmarshalBinary(append([]byte{}, pb...)) },
		"UnmarshalJSON":   func(e group.Element) { _ = e.UnmarshalJSON(append([]byte{}, pj...)) },
		"UnmarshalBinId":  func(e group.Element) { _ = e.UnmarshalBinary(append([]byte{}, idb...)) },
		"UnmarshalJSONId": func(e group.Element) { _ = e.UnmarshalJSON(append([]byte{}, idj...)) },
		"MarshalBinary": func(e group.Element) {
			b, _ := e.MarshalBinary()
			for i := range b {
				b[i] ^= 0xff
			}
		},
		"MarshalJSON": func(e group.Element) {
			b, _ := e.MarshalJSON()
			for i := range b {
				b[i] ^= 0xff
			}
		},
	}
	for _, name := range keys(mods) {
		for i, s := range src {
			e := s()
			if pn, st := Safe(func() { mods[name](e) }); pn != nil {
				c.Violate("%s: %s panics: %v [%s]", ng.Name, name, pn, st)
				return
			}
			after, ok := constants(c, ng)
			if !ok {
				return
			}
			if after != before {
				c.Violate("%s: %s on element obtained from source %d changed the group's constants (generator, identity, order or base scaling)", ng.Name, name, i)
				return
			}
			c.Event("ops")
			c.Eval(ng.Name, "const", name, i)
		}
	}
}

func keys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

func c16history(c *Ctx, ng NamedGroup) {
	const W = 5
	regs := make([]group.Element, W)
	snap := make([]encs, W)
	for i := range regs {
		switch i {
		case 0:
			regs[i] = ng.G.Generator()
		case 1:
			regs[i] = ng.G.Identity()
		default:
			regs[i] = ng.G.Random()
		}
		var ok bool
		if snap[i], ok = encode(c, ng, regs[i], "initial register"); !ok {
			return
		}
	}
	consts, ok := constants(c, ng)
	if !ok {
		return
	}
	trace := ""
	for s := 0; s < 30; s++ {
		d, a, b := c.R.IntN(W), c.R.IntN(W), c.R.IntN(W)
		k := randScalar(c, ng.R.Order())
		k0 := k.String()
		op := c.R.IntN(14)
		names := []string{"Add", "Add", "Subtract", "Negate", "Scale", "BaseScale", "Set", "UnmarshalBinary", "UnmarshalJSON", "SetBytes", "MarshalBinary+clobber", "String/IsEqual/IsIdentity", "Generator", "Identity"}
		desc := fmt.Sprintf("r%d.%s(r%d,r%d,%s)", d, names[op], a, b, k.Text(16))
		trace += desc + "; "
		if len(trace) > 500 {
			trace = "..." + trace[len(trace)-497:]
		}
		wrote := true
		pn, st := Safe(func() {
			switch op {
			case 0, 1:
				regs[d].Add(regs[a], regs[b])
			case 2:
				regs[d].Subtract(regs[a], regs[b])
			case 3:
				regs[d].Negate(regs[a])
			case 4:
				regs[d].Scale(regs[a], k)
			case 5:
				regs[d].BaseScale(k)
			case 6:
				regs[d].Set(regs[a])
			case 7:
				_ = regs[d].UnmarshalBinary([]byte(snap[a].bin))
			case 8:
				_ = regs[d].UnmarshalJSON([]byte(snap[a].js))
			case 9:
				regs[d].SetBytes([]byte(snap[a].bin))
			case 10:
				wrote = false
				x, _ := regs[d].MarshalBinary()
				y, _ := regs[d].MarshalJSON()
				for i := range x {
					x[i] = 0xff
				}
				for i := range y {
					y[i] = 0xff
				}
			case 11:
				wrote = false
				_ = regs[d].String()
				regs[d].IsEqual(regs[a])
				regs[d].IsIdentity()
				_ = regs[a].GroupOrder()
			case 12:
				regs[d] = ng.G.Generator()
			case 13:
				regs[d] = ng.G.Identity()
			}
		})
		if pn != nil {
			c.Violate("%s: %s panics: %v [%s] after %s", ng.Name, desc, pn, st, trace)
			return
		}
		if k.String() != k0 {
			c.Violate("%s: %s changed its scalar", ng.Name, desc)
			return
		}
		for i := range regs {
			en, ok := encode(c, ng, regs[i], fmt.Sprintf("r%d after %s", i, trace))
			if !ok {
				return
			}
			if i == d && wrote {
				snap[i] = en
			} else if en != snap[i] {
				c.Violate("%s: %s changed r%d from %s to %s; history %s", ng.Name, desc, i, snap[i].js, en.js, trace)
				return
			}
		}
		if s%5 == 4 {
			cc, ok := constants(c, ng)
			if !ok {
				return
			}
			if cc != consts {
				c.Violate("%s: group constants changed; history %s", ng.Name, trace)
				return
			}
		}
		c.Event("ops")
		if d == a || d == b {
			c.Event("aliased_ops")
		}
		c.Eval(ng.Name, desc, snap[d].bin)
	}
	c.Sample(map[string]any{"group": ng.Name, "trace": trace})
}

var _ = bytes.Equal
var _ = rand.Reader
