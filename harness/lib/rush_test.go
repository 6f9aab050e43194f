package lib

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

// Many short operations at the same time: what one of them does must not show in another one.

const rushFor = 1200 * time.Millisecond

func rushes(prop, tier string) []Case {
	var cs []Case
	reps := 1
	if tier == "thorough" {
		reps = 20
	}
	var names []string
	run := func(c *Ctx, n string) {}
	switch prop {
	case "C07":
		names, run = []string{"transparent", "P-256"}, rushProve
	case "C08":
		names, run = []string{"transparent", "P-256"}, rushJudge
	case "C09":
		names, run = []string{"transparent", "P-256"}, rushMulti
	case "C10":
		names, run = []string{"transparent", "P-256"}, rushSigma
	case "C14":
		names, run = AllNamed, rushGroup
	case "C15":
		names, run = AllNamed, rushEncode
	case "C17":
		names, run = CurveNames, rushSeeds
	case "C20":
		names, run = []string{"vectors"}, rushVectors
	}
	for r := 0; r < reps; r++ {
		for _, n := range names {
			n := n
			cs = append(cs, Case{fmt.Sprintf("rush/%s/%d", n, r), func(c *Ctx) { run(c, n) }})
		}
	}
	return cs
}

func yes(b bool) string {
	if b {
		return "accepted"
	}
	return "rejected"
}

func rushProve(c *Ctx, gn string) {
	g := bpGroup(gn)
	var ops []RushOp
	for _, b := range []int64{4, 16, 256} {
		if gn != "transparent" && b > 4 {
			continue
		}
		p := mustBP(c, b, g)
		for _, v := range []*big.Int{B(0), B(b - 1), RandMod(c.R, B(b)), RandMod(c.R, B(b))} {
			v := v
			ops = append(ops, RushOp{fmt.Sprintf("a range proof for %v in [0,2^%d)", v, p.N), func() string {
				pf, gamma, err := bp.Prove(Cp(v), p)
				if err != nil {
					return err.Error()
				}
				ok, err := pf.Verify()
				if err != nil {
					return err.Error()
				}
				if !opens(c, g, p.H, pf.V, v, gamma) {
					return "commitment not opened"
				}
				return yes(ok)
			}})
		}
	}
	Rush(c, gn, 8000, rushFor, ops)
}

func rushJudge(c *Ctx, gn string) {
	g := bpGroup(gn)
	var ops []RushOp
	for _, b := range []int64{4, 16} {
		p := mustBP(c, b, g)
		for k := int64(0); k < 3; k++ {
			pf, ok := proveOne(c, p, B(k), gn)
			if !ok {
				return
			}
			ops = append(ops, RushOp{"the verdict on a true range proof", func() string { return yes(verdict(c, Clone(pf).Verify)) }})
			for _, m := range Spoiled(c, pf, []group.Group{g}, 4) {
				m := *m
				ops = append(ops, RushOp{"the verdict on an altered range proof", func() string { return yes(verdict(c, Clone(m).Verify)) }})
			}
		}
	}
	Rush(c, gn, 15000, rushFor, ops)
}

func rushMulti(c *Ctx, gn string) {
	g := bpGroup(gn)
	var ops []RushOp
	for _, b := range []int64{4, 16, 256} {
		if gn != "transparent" && b > 16 {
			continue
		}
		p := mustBP(c, b, g)
		for _, m := range []int{1, 2, 4} {
			if int64(m) > p.N {
				continue
			}
			vs := make([]*big.Int, m)
			for i := range vs {
				vs[i] = RandMod(c.R, Pow2(int(p.N)/m))
			}
			ops = append(ops, RushOp{fmt.Sprintf("an aggregated proof for %v", vs), func() string {
				in := make([]*big.Int, len(vs))
				for i := range vs {
					in[i] = Cp(vs[i])
				}
				pf, _, err := bp.MultiProve(in, p)
				if err != nil {
					return err.Error()
				}
				ok, err := pf.Verify()
				if err != nil {
					return err.Error()
				}
				return yes(ok)
			}})
			if b != 16 {
				continue
			}
			pf, ok := multiOne(c, p, vs, gn)
			if !ok {
				return
			}
			for _, m := range Spoiled(c, pf, []group.Group{g}, 2) {
				m := *m
				ops = append(ops, RushOp{"the verdict on an altered aggregated proof", func() string { return yes(verdict(c, Clone(m).Verify)) }})
			}
		}
	}
	Rush(c, gn, 12000, 2*rushFor, ops)
}

func rushSigma(c *Ctx, gn string) {
	gec := bpGroup(gn)
	ff := "modp512"
	if gn == "transparent" {
		ff = "transparent"
	}
	gff := ffGroup(ff)
	p, ok := sigmaOrViolate(c, 16, 128, uint16(gec.N().BitLen()), gff, gec)
	if !ok {
		return
	}
	var ops []RushOp
	for k := 0; k < 4; k++ {
		m, rp, r1, r2 := RandMod(c.R, Pow2(16)), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		comm := statement(p, m, rp, r1, r2)
		ops = append(ops, RushOp{"a consistency proof", func() string {
			pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p)
			return yes(pf.Verify(comm))
		}})
		pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p)
		for _, x := range Spoiled(c, pf, []group.Group{gec, gff}, 3) {
			x := *x
			ops = append(ops, RushOp{"the verdict on an altered consistency proof", func() string {
				q := Clone(x)
				return yes(verdict(c, func() (bool, error) { return q.Verify(comm), nil }))
			}})
		}
	}
	Rush(c, gn, 15000, rushFor, ops)
}

// rushGroup: every operation has operands of its own.
func rushGroup(c *Ctx, name string) {
	ng := Named(name)
	pts := somePoints(ng, c, 3)
	key := func(e group.Element) string {
		p, err := ng.R.Read(e)
		if err != nil {
			return err.Error()
		}
		return ng.R.Key(p)
	}
	own := func(e group.Element) group.Element { return ng.G.Element().Set(e) }
	var ops []RushOp
	for k := 0; k < 40; k++ {
		a, b := pts[c.R.IntN(len(pts))].e, pts[c.R.IntN(len(pts))].e
		s := randScalar(c, ng.R.Order())
		kind := k % 8
		var x, y group.Element = own(a), own(b)
		names := []string{"Add", "Subtract", "Negate", "Scale", "BaseScale", "Scale", "IsEqual", "Scale"}
		ops = append(ops, RushOp{names[kind], nil})
		mine := make(chan [2]group.Element, 9) // operands nobody else works on
		for i := 0; i < cap(mine); i++ {
			mine <- [2]group.Element{own(x), own(y)}
		}
		ops[k].Run = func() string {
			o := <-mine
			defer func() { mine <- o }()
			k := Cp(s)
			switch kind {
			case 0:
				return key(ng.G.Element().Add(o[0], o[1]))
			case 1:
				return key(ng.G.Element().Subtract(o[0], o[1]))
			case 2:
				return key(ng.G.Element().Negate(o[0]))
			case 4:
				return key(ng.G.Element().BaseScale(k))
			case 6:
				return fmt.Sprint(o[0].IsEqual(o[1]), o[0].IsIdentity())
			}
			return key(ng.G.Element().Scale(o[0], k))
		}
	}
	Rush(c, name, 20000, rushFor, ops)
}

func rushEncode(c *Ctx, name string) {
	ng := Named(name)
	pts := somePoints(ng, c, 3)
	var ops []RushOp
	for _, p := range pts {
		mine := make(chan group.Element, 9)
		for i := 0; i < cap(mine); i++ {
			mine <- ng.G.Element().Set(p.e)
		}
		ops = append(ops, RushOp{"the encodings of an element", func() string {
			e := <-mine
			defer func() { mine <- e }()
			b, err := e.MarshalBinary()
			js, err2 := json.Marshal(e)
			if err != nil || err2 != nil {
				return fmt.Sprint(err, err2)
			}
			return hex.EncodeToString(b) + " " + string(js) + " " + hex.EncodeToString([]byte(e.String()))
		}}, RushOp{"decoding an element", func() string {
			e := <-mine
			defer func() { mine <- e }()
			b, err := e.MarshalBinary()
			js, err2 := json.Marshal(e)
			if err != nil || err2 != nil {
				return fmt.Sprint(err, err2)
			}
			x, y := ng.G.Element(), ng.G.Element()
			err, err2 = x.UnmarshalBinary(b), json.Unmarshal(js, y)
			if err != nil || err2 != nil {
				return fmt.Sprint(err != nil, err2 != nil) // how it was refused when it ran alone is judged elsewhere
			}
			return fmt.Sprint(x.IsEqual(e), y.IsEqual(e))
		}})
	}
	Rush(c, name, 20000, rushFor, ops)
}

func rushSeeds(c *Ctx, name string) {
	ng := Named(name)
	var ops []RushOp
	for i := 0; i < 12; i++ {
		s := fmt.Sprint(bp.SEEDH, []string{"g", "h", "u"}[i%3], i/3)
		ops = append(ops, RushOp{"the base of seed " + s, func() string {
			e, err := ng.G.Element().MapToGroup(s)
			if err != nil {
				return err.Error()
			}
			b, err := e.MarshalBinary()
			return fmt.Sprint(hex.EncodeToString(b), err)
		}})
	}
	Rush(c, name, 12000, rushFor, ops)
}

func copies(a []*big.Int) []*big.Int {
	out := make([]*big.Int, len(a))
	for i := range a {
		out[i] = Cp(a[i])
	}
	return out
}

func rushVectors(c *Ctx, _ string) {
	g := TCurve()
	N := g.N()
	var ops []RushOp
	for k := 0; k < 6; k++ {
		n := 1 + c.R.IntN(8)
		a, b, x := vec(c, n, N), vec(c, n, N), RandMod(c.R, N)
		es := make([]group.Element, n)
		for i := range es {
			es[i] = g.Element().BaseScale(a[i])
		}
		add := func(label string, f func(a, b []*big.Int, x *big.Int) any) {
			ops = append(ops, RushOp{label, func() string {
				return fmt.Sprint(f(copies(a), copies(b), Cp(x)))
			}})
		}
		add("VectorAdd", func(a, b []*big.Int, x *big.Int) any { r, err := bp.VectorAdd(a, b, N); return str(r, err) })
		add("VectorMul", func(a, b []*big.Int, x *big.Int) any { r, err := bp.VectorMul(a, b, N); return str(r, err) })
		add("VectorAddConst", func(a, b []*big.Int, x *big.Int) any { return str(bp.VectorAddConst(a, x, N)) })
		add("VectorScalarMul", func(a, b []*big.Int, x *big.Int) any { r, err := bp.VectorScalarMul(a, x, N); return str(r, err) })
		add("VectorInnerProduct", func(a, b []*big.Int, x *big.Int) any { return str(bp.VectorInnerProduct(a, b, N)) })
		add("ScalarProduct", func(a, b []*big.Int, x *big.Int) any { r, err := bp.ScalarProduct(a, b, g); return str(r, err) })
		add("VectorExp", func(a, b []*big.Int, x *big.Int) any {
			r, err := bp.VectorExp(es, b, g)
			if err != nil {
				return err.Error()
			}
			return r.String()
		})
		add("PedersenCommit", func(a, b []*big.Int, x *big.Int) any { return util.PedersenCommit(a[0], x, es[0], g).String() })
		add("Decompose", func(a, b []*big.Int, x *big.Int) any { return str(util.Decompose(x, 2, 300)) })
	}
	Rush(c, "helpers", 20000, rushFor, ops)
}
