package lib

import (
	"fmt"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C06", Rule: "(a) challenges read from the scalars the verifiers use on the transparent group: replaying a transcript with exactly one earlier element changed must change every later challenge, transcripts a careless hash could confuse (two elements exchanged, changed by opposite amounts, negated, the identity in either place, changed in the last coordinate only) must have different challenges, and y and z must differ; (b) components fitted to the challenges afterwards; the challenges have their full length and never repeat over many transcripts; (c) consistency proofs with short challenges, in which one component is solved for each of the 256 challenges: an unbound component is accepted every time, a bound one about 63% of the time", Together: []string{"bp/", "sigma/W", "multi/", "sigma/Xp"}, Cases: c06, Require: map[string]int{"challenge_moved": 20}, Prefer: map[string]int{"challenge_width_seen": 60, "challenge_moved": 150, "related_transcripts_distinguished": 500, "solve_transcripts": 300, "patched_rejected": 5000}},
	)
}

func c06(tier string) []Case {
	var cs []Case
	reps := 2
	if tier == "thorough" {
		reps = 15
	}
	for _, b := range bpEnds {
		for r := 0; r < reps; r++ {
			b := b
			cs = append(cs, Case{fmt.Sprintf("bp/%d/%d", b, r), func(c *Ctx) { c06bp(c, b) }})
			n := int64(B(b).BitLen() - 1)
			for _, m := range divisors(n) {
				m := m
				if tier == "quick" && m > 4 && r > 0 {
					continue
				}
				cs = append(cs, Case{fmt.Sprintf("multi/%d/%d/%d", b, m, r), func(c *Ctx) { c06multi(c, b, m) }})
			}
		}
	}
	for r := 0; r < reps; r++ {
		for _, comp := range sigmaComponents {
			comp := comp
			cs = append(cs, Case{fmt.Sprintf("sigma/%s/%d", comp, r), func(c *Ctx) { c06sigma(c, comp) }})
		}
		cs = append(cs, Case{fmt.Sprintf("sigma/same-tape/%d", r), c06tape})
		cs = append(cs, Case{fmt.Sprintf("related/%d", r), c06related})
		for _, w := range []string{"statement", "first move"} {
			w := w
			cs = append(cs, Case{fmt.Sprintf("confuse/%s/%d", w, r), func(c *Ctx) { c06confuse(c, w) }})
		}
	}
	for _, b := range bpEnds {
		b := b
		cs = append(cs, Case{fmt.Sprintf("width/range/%d", b), func(c *Ctx) { c06width(c, b, 0) }})
		for _, m := range divisors(int64(B(b).BitLen() - 1)) {
			m := m
			if m <= 4 || tier != "quick" {
				cs = append(cs, Case{fmt.Sprintf("width/multi/%d/%d", b, m), func(c *Ctx) { c06width(c, b, m) }})
			}
		}
	}
	for _, bc := range []uint16{8, 16, 64, 120, 128, 224, 225, 256} {
		bc := bc
		cs = append(cs, Case{fmt.Sprintf("width/sigma/%d", bc), func(c *Ctx) { c06widthSigma(c, bc) }})
	}
	for _, name := range realGroups {
		name := name
		ends, ms := []int64{4}, []int{2}
		if tier != "quick" {
			ends, ms = []int64{2, 16, 256}, []int{1, 2, 4}
		}
		for _, b := range ends {
			b := b
			cs = append(cs, Case{fmt.Sprintf("real/range/%s/%d", name, b), func(c *Ctx) { c06real(c, name, b, 0) }})
		}
		for _, m := range ms {
			m := m
			cs = append(cs, Case{fmt.Sprintf("real/multi/%s/%d", name, m), func(c *Ctx) { c06real(c, name, 16, m) }})
		}
		cs = append(cs, Case{fmt.Sprintf("real/sigma/%s", name), func(c *Ctx) { c06realSigma(c, name) }})
	}
	for _, b := range bpEnds {
		b := b
		for r := 0; r < reps; r++ {
			cs = append(cs, Case{fmt.Sprintf("fit/%d/%d", b, r), func(c *Ctx) { c06fit(c, b) }})
		}
	}
	return cs
}

func largeFactors(o Obs, e group.Element, N *big.Int) []*big.Int {
	var out []*big.Int
	for _, f := range o.Factors(e) {
		f = Mod(f, N)
		if f.BitLen() > 80 && Sub(N, f).BitLen() > 80 {
			out = append(out, f)
		}
	}
	return out
}

// chal is one observation point: the scalars an element of the transcript is multiplied with.
type chal struct {
	name  string
	elem  func() group.Element
	after []string // transcript parts sent before this challenge
}

// c06obs replays a transcript with single changes.
func c06obs(c *Ctx, g *TGroup, what string, run func(), leaves []Leaf, chals []chal) {
	N := g.N()
	base := g.Observe(run)
	before := map[string][]*big.Int{}
	for _, ch := range chals {
		before[ch.name] = largeFactors(base, ch.elem(), N)
		if len(before[ch.name]) == 0 {
			c.Event("challenge_not_observable")
		}
	}
	byPath := map[string]Leaf{}
	for _, l := range leaves {
		byPath[l.Path] = l
	}
	for _, l := range leaves {
		var restore func()
		l := l
		if l.Elem != nil {
			old := l.Elem
			restore = func() { l.SetElem(old) }
			l.SetElem(old.(*TElem).Plus(g.Generator().(*TElem), RandNZ(c.R, N)))
		} else {
			old := l.Int
			restore = func() { l.SetInt(old) }
			l.SetInt(RandMod(c.R, N))
		}
		o := g.Observe(run)
		for _, ch := range chals {
			dep := false
			for _, a := range ch.after {
				dep = dep || a == l.Path
			}
			if !dep {
				continue
			}
			now := largeFactors(o, ch.elem(), N)
			for _, f := range before[ch.name] {
				for _, f2 := range now {
					if f.Cmp(f2) == 0 {
						c.Violate("%s: challenge %s stays the same when %s, which precedes it, is replaced", what, ch.name, l.Path)
						restore()
						return
					}
				}
			}
			if len(now) > 0 && len(before[ch.name]) > 0 {
				c.Event("challenge_moved")
				c.Eval(what, ch.name, l.Path)
			}
		}
		restore()
	}
	c06pairs(c, g, what, run, leaves, chals)
}

// c06pairs compares transcripts which a careless hash could confuse: two elements exchanged, one made larger and the
// other one smaller by the same amount, an element negated or changed only in its last coordinate, the identity
// in one place or in the other, the same element twice.
func c06pairs(c *Ctx, g *TGroup, what string, run func(), leaves []Leaf, chals []chal) {
	N := g.N()
	preceding := map[string]bool{}
	for _, ch := range chals {
		for _, a := range ch.after {
			preceding[a] = true
		}
	}
	var el []Leaf
	for _, l := range leaves {
		if l.Elem != nil && preceding[l.Path] {
			el = append(el, l)
		}
	}
	type setting map[int]*TElem
	apply := func(s setting) map[string][]*big.Int {
		for i, e := range s {
			el[i].SetElem(e)
		}
		o := g.Observe(run)
		out := map[string][]*big.Int{}
		for _, ch := range chals {
			if e := ch.elem().(*TElem); len(e.Support()) > 0 {
				out[ch.name] = largeFactors(o, e, N)
			}
		}
		for i := range s {
			el[i].SetElem(el[i].Elem)
		}
		return out
	}
	base := apply(setting{})
	compare := func(how string, a, b map[string][]*big.Int, changed ...int) bool {
		for _, ch := range chals {
			dep := true // every changed element precedes the challenge
			for _, i := range changed {
				d := false
				for _, x := range ch.after {
					d = d || x == el[i].Path
				}
				dep = dep && d
			}
			if !dep {
				continue
			}
			for _, f := range a[ch.name] {
				for _, f2 := range b[ch.name] {
					if f.Cmp(f2) == 0 {
						c.Violate("%s: challenge %s is the same for two transcripts that differ before it: %s", what, ch.name, how)
						return false
					}
				}
			}
			if len(a[ch.name]) > 0 && len(b[ch.name]) > 0 {
				c.Event("related_transcripts_distinguished")
				c.Eval(what, ch.name, how)
			}
		}
		return true
	}
	id := g.Identity().(*TElem)
	for i, l := range el {
		e := l.Elem.(*TElem)
		sup := e.Support()
		if len(sup) == 0 {
			continue
		}
		last := g.Combo(map[int]*big.Int{sup[len(sup)-1]: B(1)})
		if !compare(l.Path+" negated", base, apply(setting{i: g.Element().Negate(e).(*TElem)}), i) ||
			!compare(l.Path+" differs in its last coordinate", base, apply(setting{i: e.Plus(last, B(1+c.R.Int64N(9)))}), i) {
			return
		}
	}
	n := len(el)
	var pairs [][2]int
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if j == i+1 || c.Thorough() || n < 9 || c.R.IntN(n*n) < 24 {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	for _, ij := range pairs {
		i, j := ij[0], ij[1]
		a, b := el[i].Elem.(*TElem), el[j].Elem.(*TElem)
		if a.Same(b) || len(a.Support()) == 0 || len(b.Support()) == 0 {
			continue
		}
		names := el[i].Path + " and " + el[j].Path
		d := RandNZ(c.R, N)
		G := g.Generator().(*TElem)
		r1, r2 := id.Plus(a, RandNZ(c.R, N)), id.Plus(b, RandNZ(c.R, N))
		if !compare(names+" exchanged", base, apply(setting{i: b, j: a}), i, j) ||
			!compare(names+" changed by opposite amounts", base, apply(setting{i: a.Plus(G, d), j: b.Plus(G, Neg(d))}), i, j) ||
			!compare("the identity is "+el[i].Path+" or "+el[j].Path, apply(setting{i: id, j: a}), apply(setting{i: a, j: id}), i, j) ||
			!compare(names+" are the same element, which one differs", apply(setting{i: r1, j: r1}), apply(setting{i: r2, j: r2}), i, j) {
			return
		}
	}
}

func chalList(v []string, x *bp.InnerProductProof, V0, T1, T2 func() group.Element, Hh []group.Element, Uu group.Element) []chal {
	ast := append(append([]string{}, v...), "A", "S")
	xt := append(append([]string{}, ast...), "T1", "T2")
	cs := []chal{
		{"z", V0, ast},
		{"x", T1, xt},
		{"x (second use)", T2, xt},
	}
	if len(Hh) > 1 {
		cs = append(cs, chal{"y", func() group.Element { return Hh[1] }, ast})
	}
	ip := []string{"InnerProductProof.P"}
	cs = append(cs, chal{"inner-product x", func() group.Element { return Uu }, ip})
	pre := append([]string{}, ip...)
	for i := range x.L {
		i := i
		pre = append(pre, fmt.Sprintf("InnerProductProof.L[%d]", i), fmt.Sprintf("InnerProductProof.R[%d]", i))
		cs = append(cs, chal{fmt.Sprintf("round %d (L)", i), func() group.Element { return x.L[i] }, except(pre, fmt.Sprintf("InnerProductProof.L[%d]", i))})
		cs = append(cs, chal{fmt.Sprintf("round %d (R)", i), func() group.Element { return x.R[i] }, except(pre, fmt.Sprintf("InnerProductProof.R[%d]", i))})
	}
	return cs
}

func except(l []string, x string) []string {
	var o []string
	for _, s := range l {
		if s != x {
			o = append(o, s)
		}
	}
	return o
}

func c06uu(g *TGroup) group.Element {
	u, _ := g.Element().MapToGroup(bp.SEEDU)
	return u
}

func c06bp(c *Ctx, b int64) {
	g := TCurve()
	params := mustBP(c, b, g)
	v := RandMod(c.R, B(b))
	proof, ok := proveOne(c, params, v, "transparent")
	if !ok {
		return
	}
	p := Clone(proof)
	cs := chalList([]string{"V"}, &p.InnerProductProof, func() group.Element { return p.V }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, c06uu(g))
	// an observation point that is itself replaced is compared through the other points
	run := func() { _, _ = p.Verify() }
	c06obs(c, g, "range proof", run, Leaves(p, false), cs)
	// y, z and x are different challenges
	o := g.Observe(run)
	distinctChallenges(c, g, "range proof", o, p.V, p.T1, params.Hh, params.Gg)
	// the inner-product argument on its own
	ip := proof.InnerProductProof
	q := Clone(ip)
	runIP := func() { _, _ = q.Verify() }
	var cis []chal
	pre := []string{"P", "Cc"}
	cis = append(cis, chal{"x", func() group.Element { return q.Params.Uu }, pre})
	for i := range q.L {
		i := i
		pre = append(append([]string{}, pre...), fmt.Sprintf("L[%d]", i), fmt.Sprintf("R[%d]", i))
		cis = append(cis, chal{fmt.Sprintf("round %d (L)", i), func() group.Element { return q.L[i] }, except(pre, fmt.Sprintf("L[%d]", i))})
		cis = append(cis, chal{fmt.Sprintf("round %d (R)", i), func() group.Element { return q.R[i] }, except(pre, fmt.Sprintf("R[%d]", i))})
	}
	c06obs(c, g, "inner-product argument", runIP, Leaves(q, false), cis)
	// and its generators are part of its statement
	for _, k := range []string{"Gg", "Hh"} {
		before := map[string][]*big.Int{}
		o := g.Observe(runIP)
		for _, ch := range cis {
			before[ch.name] = largeFactors(o, ch.elem(), g.N())
		}
		q2 := Clone(ip)
		i := c.R.IntN(len(q2.Params.Gg))
		if k == "Gg" {
			q2.Params.Gg[i] = g.Element().Add(q2.Params.Gg[i], g.Generator())
		} else {
			q2.Params.Hh[i] = g.Element().Add(q2.Params.Hh[i], g.Generator())
		}
		o2 := g.Observe(func() { _, _ = q2.Verify() })
		for _, ch := range cis {
			now := largeFactors(o2, ch.elem(), g.N())
			for _, f := range before[ch.name] {
				for _, f2 := range now {
					if f.Cmp(f2) == 0 {
						c.Violate("inner-product argument: challenge %s stays the same when generator %s[%d] is replaced", ch.name, k, i)
						return
					}
				}
			}
			if len(now) > 0 && len(before[ch.name]) > 0 {
				c.Event("challenge_moved")
			}
		}
	}
}

func distinctChallenges(c *Ctx, g *TGroup, what string, o Obs, V, T1 group.Element, Hh, Gg []group.Element) {
	N := g.N()
	if len(Hh) < 2 {
		return
	}
	for _, yi := range largeFactors(o, Hh[1], N) {
		y := Inv(yi, N)
		for _, z2 := range largeFactors(o, V, N) {
			if MulM(y, y, N).Cmp(z2) == 0 {
				c.Violate("%s: the challenges y and z are equal", what)
				return
			}
		}
		for _, x := range largeFactors(o, T1, N) {
			if x.Cmp(y) == 0 || MulM(x, x, N).Cmp(MulM(y, y, N)) == 0 {
				c.Violate("%s: the challenges y and x are equal", what)
				return
			}
			for _, z2 := range largeFactors(o, V, N) {
				if MulM(x, x, N).Cmp(z2) == 0 {
					c.Violate("%s: the challenges x and z are equal", what)
					return
				}
			}
			c.Event("challenges_distinct")
		}
	}
}

func c06multi(c *Ctx, b int64, m int) {
	g := TCurve()
	params := mustBP(c, b, g)
	vs := vecValues(c, params.N/int64(m), m, 2)
	proof, ok := multiOne(c, params, vs, "transparent")
	if !ok {
		return
	}
	p := Clone(proof)
	var names []string
	for j := range p.Vs {
		names = append(names, fmt.Sprintf("Vs[%d]", j))
	}
	cs := chalList(names, &p.InnerProductProof, func() group.Element { return p.Vs[0] }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, c06uu(g))
	run := func() { _, _ = p.Verify() }
	c06obs(c, g, "aggregated range proof", run, Leaves(p, false), cs)
	distinctChallenges(c, g, "aggregated range proof", g.Observe(run), p.Vs[0], p.T1, params.Hh, params.Gg)
}

// shortest returns the length of the shortest number a factor could have been derived from: itself, its
// negative, inverse or square root.
func shortest(f, N *big.Int) int {
	n := N.BitLen()
	if f.Sign() == 0 {
		return 0
	}
	for _, v := range []*big.Int{f, Inv(f, N)} {
		for _, w := range []*big.Int{v, new(big.Int).ModSqrt(v, N)} {
			if w == nil {
				continue
			}
			for _, x := range []*big.Int{w, Sub(N, w)} {
				if x.BitLen() < n {
					n = x.BitLen()
				}
			}
		}
	}
	return n
}

// c06width: a short challenge can be hit by trial, whatever it depends on. The scalars an element is
// multiplied with are followed over many transcripts; with one of the challenges short, they all stay short, and with
// few possible challenges, two different transcripts have the same.
func c06width(c *Ctx, b int64, m int) {
	g := TCurve()
	N := g.N()
	params := mustBP(c, b, g)
	what := "range proof"
	var run func()
	var ip *bp.InnerProductProof
	var vary []*group.Element
	var cs []chal
	if m == 0 {
		pf, ok := proveOne(c, params, RandMod(c.R, B(b)), "transparent")
		if !ok {
			return
		}
		p := Clone(pf)
		ip = &p.InnerProductProof
		run = func() { _, _ = p.Verify() }
		vary = []*group.Element{&p.A, &p.T1, &ip.P}
		cs = chalList([]string{"V"}, ip, func() group.Element { return p.V }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, c06uu(g))
	} else {
		what = "aggregated range proof"
		pf, ok := multiOne(c, params, vecValues(c, params.N/int64(m), m, 2), "transparent")
		if !ok {
			return
		}
		p := Clone(pf)
		ip = &p.InnerProductProof
		run = func() { _, _ = p.Verify() }
		vary = []*group.Element{&p.A, &p.T1, &ip.P}
		cs = chalList(nil, ip, func() group.Element { return p.Vs[0] }, func() group.Element { return p.T1 }, func() group.Element { return p.T2 }, params.Hh, c06uu(g))
	}
	T := 24
	if b == 2 {
		T = 400
	}
	if c.Thorough() {
		T *= 20
	}
	widest := make([]int, len(cs))
	seen := make([]map[string]int, len(cs))
	for i := range seen {
		seen[i] = map[string]int{}
	}
	for t := 0; t < T; t++ {
		for _, e := range vary {
			*e = g.Element().Add(*e, g.Element().BaseScale(RandNZ(c.R, N)))
		}
		o := g.Observe(run)
		for i, ch := range cs {
			key := ""
			for _, f := range o.Factors(ch.elem()) {
				f = Mod(f, N)
				key += f.Text(36) + ","
				if w := shortest(f, N); w > widest[i] {
					widest[i] = w
				}
			}
			if key == "" {
				continue
			}
			if t0, ok := seen[i][key]; ok {
				c.Violate("%s over 2^%d: the challenge %s is the same in two of %d transcripts (%d and %d) which differ before it", what, params.N, ch.name, T, t0, t)
				return
			}
			seen[i][key] = t
		}
		c.Eval("width", what, b, m, t)
	}
	for i, ch := range cs {
		if len(seen[i]) < T {
			c.Event("challenge_not_observable")
			continue
		}
		// a number below the order is shorter than it by 40 bits once in 2^40
		if widest[i] <= N.BitLen()-40 {
			c.Violate("%s over 2^%d: the challenge %s has at most %d bits in %d transcripts (the group order has %d): it can be hit by trial", what, params.N, ch.name, widest[i], T, N.BitLen())
			return
		}
		c.Event("challenge_width_seen")
	}
}

// c06widthSigma: the challenge of the consistency proof has the declared length.
func c06widthSigma(c *Ctx, bc uint16) {
	// a group with room for the longest challenge
	gff, gec := TField(), NewTGroup("transparent", StdOrder["P-384"])
	p, err := sigmaSetup(16, bc, 384, gff, gec)
	if err != nil {
		c.Violate("setup with 16-bit secrets and %d-bit challenges for a 384-bit group is refused: %v", bc, err)
		return
	}
	T := 80
	if bc >= 64 {
		T = 2000
	}
	moved := new(big.Int)
	var first *big.Int
	seen := map[string]bool{}
	for t := 0; t < T; t++ {
		pf := voteproof.Prove(RandMod(c.R, B(65536)), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N()), p)
		ch := pf.Challenge
		if ch.Sign() < 0 || ch.BitLen() > int(bc) {
			c.Violate("consistency proof with %d-bit challenges: the challenge has %d bits", bc, ch.BitLen())
			return
		}
		if first == nil {
			first = ch
		}
		moved.Or(moved, new(big.Int).Xor(first, ch))
		if bc >= 64 && seen[ch.String()] {
			c.Violate("consistency proof with %d-bit challenges: two of %d transcripts have the same challenge", bc, T)
			return
		}
		seen[ch.String()] = true
		c.Eval("width", "sigma", bc, t)
	}
	n := 0
	for i := 0; i < moved.BitLen(); i++ {
		n += int(moved.Bit(i))
	}
	// the hash is cut to whole bytes
	if want := int(bc) / 8 * 8; n < want {
		c.Violate("consistency proof with %d-bit challenges: only %d bits of the challenge differ over %d transcripts", bc, n, T)
		return
	}
	c.Event("challenge_width_seen")
}

// c06fit disturbs one element and fits another one to the challenges; any acceptance shows a loose component.
func c06fit(c *Ctx, b int64) {
	g := TCurve()
	params := mustBP(c, b, g)
	proof, ok := proveOne(c, params, RandMod(c.R, B(b)), "transparent")
	if !ok {
		return
	}
	vf := func(m *bp.BulletProof) func() (bool, error) { return m.Verify }
	for i, l := range Leaves(Clone(proof), false) {
		if l.Elem == nil || (!c.Thorough() && (i > 5 || b > 65536) && c.R.IntN(3) > 0) {
			continue
		}
		m := Clone(proof)
		Leaves(m, false)[i].SetElem(g.Element().Add(l.Elem, g.Element().BaseScale(RandNZ(c.R, g.N()))))
		path := l.Path
		patches(c, g, *m, vf, func(p2 string, _ *bp.BulletProof) {
			if path != p2 {
				c.Violate("range proof over 2^%d: %s replaced and %s fitted to the challenges afterwards: the proof verifies", params.N, path, p2)
			}
		})
		c.Eval("fit", b, path)
	}
}

// ---------------- consistency proof ----------------

var sigmaComponents = []string{"W", "Kp", "Kq1", "Kq2", "Y", "Xp", "Xq1", "Xq2"}

// sigmaSetup gives parameters over transparent groups.
// electionKey is a public key; over a transparent group its discrete logarithm does not exist.
func electionKey(gff group.Group) group.Element {
	if _, ok := gff.(*TGroup); ok {
		h, _ := gff.Element().MapToGroup("verif-election-key")
		return h
	}
	return gff.Element().BaseScale(Mod(Hex("d3adbeefcafe0123456789abcdef55aa77ee11"), gff.N()))
}

func sigmaSetup(bx uint8, bc, bg uint16, gff, gec group.Group) (voteproof.ProofParams, error) {
	return sigmaSetupFor(bx, bc, bg, 0, 65535, gff, gec)
}

// sigmaSetupFor is sigmaSetup for a candidate range.
func sigmaSetupFor(bx uint8, bc, bg, rangeLo, rangeHi uint16, gff, gec group.Group) (voteproof.ProofParams, error) {
	var ap voteproof.AlgebraicParameters
	hf := electionKey(gff)
	he, _ := gec.Element().MapToGroup(bp.SEEDH)
	ap.GFF = voteproof.GroupParameters{G: gff.Generator(), H: hf, N: gff.N(), F: gff.P(), I: gff}
	ap.GEC = voteproof.GroupParameters{G: gec.Generator(), H: he, N: gec.N(), F: gec.P(), I: gec}
	return voteproof.Setup(bx, bc, bg, rangeLo, rangeHi, ap)
}

func ped(gp voteproof.GroupParameters, m, r *big.Int) group.Element {
	return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
}

// statement returns the commitments for a secret.
func statement(p voteproof.ProofParams, m, rp, rq1, rq2 *big.Int) voteproof.VerCommitments {
	return voteproof.VerCommitments{
		Y:   p.GFF.I.Element().BaseScale(rp),
		Xp:  ped(p.GFF, m, rp),
		Xq1: ped(p.GEC, m, rq1),
		Xq2: ped(p.GEC, m, rq2),
	}
}

type sigmaRun struct {
	p    voteproof.ProofParams
	comm voteproof.VerCommitments
	pf   voteproof.SigmaProof
}

// solveFor sets one component so that its equation holds for challenge ch.
func (s *sigmaRun) solveFor(comp string, ch *big.Int) {
	ff, ec := s.p.GFF, s.p.GEC
	N := ff.N
	pf, cm := &s.pf, &s.comm
	sub := func(gp voteproof.GroupParameters, a, b group.Element) group.Element {
		return gp.I.Element().Subtract(a, b)
	}
	switch comp {
	case "W":
		pf.W = sub(ff, ff.I.Element().BaseScale(pf.Sp), ff.I.Element().Scale(cm.Y, ch))
	case "Y":
		cm.Y = ff.I.Element().Scale(sub(ff, ff.I.Element().BaseScale(pf.Sp), pf.W), Inv(ch, N))
	case "Kp":
		pf.Kp = sub(ff, ped(ff, pf.Z, pf.Sp), ff.I.Element().Scale(cm.Xp, ch))
	case "Xp":
		cm.Xp = ff.I.Element().Scale(sub(ff, ped(ff, pf.Z, pf.Sp), pf.Kp), Inv(ch, N))
	case "Kq1":
		pf.Kq1 = sub(ec, ped(ec, pf.Z, pf.Sq1), ec.I.Element().Scale(cm.Xq1, ch))
	case "Xq1":
		cm.Xq1 = ec.I.Element().Scale(sub(ec, ped(ec, pf.Z, pf.Sq1), pf.Kq1), Inv(ch, ec.N))
	case "Kq2":
		pf.Kq2 = sub(ec, ped(ec, pf.Z, pf.Sq2), ec.I.Element().Scale(cm.Xq2, ch))
	case "Xq2":
		cm.Xq2 = ec.I.Element().Scale(sub(ec, ped(ec, pf.Z, pf.Sq2), pf.Kq2), Inv(ch, ec.N))
	}
}

func (s *sigmaRun) verify(c *Ctx) bool {
	ok := false
	p := s.pf
	pn, _ := Safe(func() { ok = p.Verify(s.comm) })
	return ok && pn == nil
}

// zRange returns the interval of the integer response.
func zRange(p voteproof.ProofParams) (lo, hi *big.Int) {
	e := int(p.Bx) + int(p.Bc)
	return Pow2(e), Pow2(e + p.Bb)
}

func c06sigma(c *Ctx, comp string) {
	gff, gec := TField(), TCurve()
	p, err := sigmaSetup(16, 8, 256, gff, gec)
	if err != nil {
		c.Violate("setup with 16-bit secrets and 8-bit challenges is refused: %v", err)
		return
	}
	const T = 60
	hits := 0
	for t := 0; t < T; t++ {
		// The other three equations are made true by commitments that are honest for one fixed
		// challenge guess; only the solved component moves with the guess. To make every equation hold for
		// every guess all other commitments would have to move too, so instead the other equations are
		// trivial: zero statements (secret 0, zero blinding) whose commitments do not depend on the challenge.
		lo, hi := zRange(p)
		z := Add(lo, RandMod(c.R, Sub(hi, lo)))
		sp, sq1, sq2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		s := &sigmaRun{p: p}
		s.comm = voteproof.VerCommitments{Y: gff.Identity(), Xp: gff.Identity(), Xq1: gec.Identity(), Xq2: gec.Identity()}
		s.pf.Params = p
		s.pf.Z, s.pf.Sp, s.pf.Sq1, s.pf.Sq2 = z, sp, sq1, sq2
		s.pf.W = gff.Element().BaseScale(sp)
		s.pf.Kp = ped(p.GFF, z, sp)
		s.pf.Kq1, s.pf.Kq2 = ped(p.GEC, z, sq1), ped(p.GEC, z, sq2)
		// the statement component belonging to comp is arbitrary, or comp itself is the statement
		switch comp {
		case "W":
			s.comm.Y = gff.Element().BaseScale(RandNZ(c.R, gff.N()))
		case "Kp":
			s.comm.Xp = gff.Element().BaseScale(RandNZ(c.R, gff.N()))
		case "Kq1":
			s.comm.Xq1 = gec.Element().BaseScale(RandNZ(c.R, gec.N()))
		case "Kq2":
			s.comm.Xq2 = gec.Element().BaseScale(RandNZ(c.R, gec.N()))
		case "Y":
			s.pf.W = gff.Element().BaseScale(RandNZ(c.R, gff.N()))
		case "Xp":
			s.pf.Kp = gff.Element().BaseScale(RandNZ(c.R, gff.N()))
		case "Xq1":
			s.pf.Kq1 = gec.Element().BaseScale(RandNZ(c.R, gec.N()))
		case "Xq2":
			s.pf.Kq2 = gec.Element().BaseScale(RandNZ(c.R, gec.N()))
		}
		hit := false
		for g := int64(0); g < 256 && !hit; g++ {
			if g == 0 && (comp[0] == 'Y' || comp[0] == 'X') {
				continue
			}
			s.pf.Challenge = B(g)
			s.solveFor(comp, B(g))
			hit = s.verify(c)
		}
		if hit {
			hits++
		}
		c.Event("solve_transcripts")
		c.Eval(comp, t, z)
	}
	c.EventN("solve_hits", hits)
	// bound: Binomial(60, 0.632); all 60 has probability 1e-12. For statement components g=0 is
	// excluded, so an unbound one still succeeds unless the challenge is 0: allow one miss there.
	lim := T
	if comp[0] == 'Y' || comp[0] == 'X' {
		lim = T - 2
	}
	if hits >= lim {
		c.Violate("consistency proof: %s can be chosen after the challenge: %d of %d transcripts with an arbitrary statement were completed (a bound component would allow about 38)", comp, hits, T)
	}
}

// c06tape: with identical commitments, different statements must have different challenges.
func c06tape(c *Ctx) {
	gff, gec := TField(), TCurve()
	p, err := sigmaSetup(16, 128, 256, gff, gec)
	if err != nil {
		c.Violate("setup with 16-bit secrets and 128-bit challenges is refused: %v", err)
		return
	}
	m, rp, r1, r2 := B(1000), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
	key := c.R.Uint64()
	run := func(m, rp, r1, r2 *big.Int) voteproof.SigmaProof {
		c.Tape.Reseed("c06", key)
		return voteproof.Prove(m, rp, r1, r2, p)
	}
	a := run(m, rp, r1, r2)
	for _, v := range []struct {
		what string
		pf   voteproof.SigmaProof
	}{
		{"the ciphertext", run(m, Add(rp, B(1)), r1, r2)},
		{"the first commitment", run(m, rp, Add(r1, B(1)), r2)},
		{"the second commitment", run(m, rp, r1, Add(r2, B(1)))},
		{"the secret", run(B(1001), rp, r1, r2)},
	} {
		same := a.W.IsEqual(v.pf.W) && a.Kp.IsEqual(v.pf.Kp) && a.Kq1.IsEqual(v.pf.Kq1) && a.Kq2.IsEqual(v.pf.Kq2)
		if same && a.Challenge.Cmp(v.pf.Challenge) == 0 {
			c.Violate("consistency proof: with the same commitments the challenge does not depend on %s", v.what)
			return
		}
		if same {
			c.Event("challenge_moved")
		}
		c.Eval("tape", v.what, key)
	}
}
