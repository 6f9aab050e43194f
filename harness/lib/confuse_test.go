package lib

import (
	"fmt"
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

// Statements that look alike when their texts are joined: (Y,Xp) and (Y',Xp') with text(Y)text(Xp) = text(Y')text(Xp').
// In a tiny safe-prime group all logarithms are known, so for any statement and first move there is, for each of the
// 256 challenges, a response that satisfies the equations; the one the verifier accepts shows the challenge it derives.

type tinyGroup struct {
	g   group.Group
	p   int64
	n   int64
	log map[int64]int64 // member -> logarithm
	mem []int64
}

var tiny = sync.OnceValue(func() *tinyGroup {
	q := int64(14001)
	for ; ; q += 2 {
		if B(q).ProbablyPrime(20) && B(2*q+1).ProbablyPrime(20) {
			break
		}
	}
	p := 2*q + 1
	t := &tinyGroup{g: group.NewModPGroup("tiny", fmt.Sprintf("%x", p), "4"), p: p, n: q, log: map[int64]int64{}}
	x := int64(1)
	for i := int64(0); i < q; i++ {
		t.log[x] = i
		t.mem = append(t.mem, x)
		x = x * 4 % p
	}
	return t
})

func (t *tinyGroup) elem(x int64) group.Element { return t.g.Element().BaseScale(B(t.log[x])) }

// tinyReader returns a function that reads the challenge derived for Y, Xp, Xq1, Xq2, W, Kp, Kq1, Kq2 (-1: cannot be told).
func tinyReader(c *Ctx, t *tinyGroup) func(in [8]int64) int {
	n := B(t.n)
	h := 1 + c.R.Int64N(t.n-1)
	gp := voteproof.GroupParameters{G: t.g.Generator(), H: t.g.Element().BaseScale(B(h)), N: t.g.N(), F: t.g.P(), I: t.g}
	par, err := voteproof.Setup(8, 8, 30, 0, 255, voteproof.AlgebraicParameters{GFF: gp, GEC: gp})
	if err != nil {
		c.Event("tiny_group_refused")
		return nil
	}
	zl := Pow2(16)
	hi := Inv(B(h), n)
	return func(in [8]int64) int {
		var e [8]group.Element
		var l [8]*big.Int
		for i, x := range in {
			e[i], l[i] = t.elem(x), B(t.log[x])
		}
		found := -1
		for ch := int64(0); ch < 256; ch++ {
			sp := Mod(Add(l[4], Mul(B(ch), l[0])), n)
			z := Mod(Sub(Add(l[5], Mul(B(ch), l[1])), Mul(B(h), sp)), n)
			z = Add(Add(z, zl), Sub(n, Mod(zl, n)))
			sq := func(k, x *big.Int) *big.Int { return MulM(Sub(Add(k, Mul(B(ch), x)), z), hi, n) }
			pf := voteproof.SigmaProof{Params: par}
			pf.W, pf.Kp, pf.Kq1, pf.Kq2 = e[4], e[5], e[6], e[7]
			pf.Challenge, pf.Z, pf.Sp, pf.Sq1, pf.Sq2 = B(ch), z, sp, sq(l[6], l[2]), sq(l[7], l[3])
			ok := false
			pn, _ := Safe(func() { ok = pf.Verify(voteproof.VerCommitments{Y: e[0], Xp: e[1], Xq1: e[2], Xq2: e[3]}) })
			if pn == nil && ok {
				if found >= 0 {
					c.Event("challenge_not_unique")
					return -1
				}
				found = int(ch)
			}
		}
		if found >= 0 {
			c.Event("derived_challenge_read")
		}
		return found
	}
}

// c06related: transcripts that differ only in ways a careless hash does not see.
func c06related(c *Ctx) {
	t := tiny()
	derive := tinyReader(c, t)
	if derive == nil {
		return
	}
	names := []string{"Y", "Xp", "Xq1", "Xq2", "W", "Kp", "Kq1", "Kq2"}
	pick := func() int64 {
		for {
			if x := t.mem[c.R.IntN(len(t.mem))]; x > 1 {
				return x
			}
		}
	}
	mul := func(x, y int64) int64 { return x * y % t.p }
	inv := func(x int64) int64 { return Inv(B(x), B(t.p)).Int64() }
	like := func(x int64, key func(int64) int64) int64 { // another member with the same key
		for k := 0; k < 200000; k++ {
			if y := pick(); y != x && key(y) == key(x) {
				return y
			}
		}
		return x
	}
	type rel struct {
		name string
		f    func(in [8]int64) (a, b [8]int64)
	}
	var rels []rel
	for i := range names {
		i := i
		rels = append(rels,
			rel{names[i] + " inverted", func(in [8]int64) (a, b [8]int64) { a, b = in, in; b[i] = inv(a[i]); return }},
			rel{names[i] + " differs in the last digit", func(in [8]int64) (a, b [8]int64) {
				a, b = in, in
				b[i] = like(a[i], func(x int64) int64 { return x / 10 })
				return
			}},
			rel{names[i] + " differs in the leading digits", func(in [8]int64) (a, b [8]int64) {
				a, b = in, in
				b[i] = like(a[i], func(x int64) int64 { return x % 1000 })
				return
			}},
			rel{names[i] + " is the identity or the generator", func(in [8]int64) (a, b [8]int64) { a, b = in, in; a[i], b[i] = 1, 4; return }},
		)
		for j := i + 1; j < len(names); j++ {
			j := j
			both := names[i] + " and " + names[j]
			rels = append(rels,
				rel{both + " exchanged", func(in [8]int64) (a, b [8]int64) { a, b = in, in; b[i], b[j] = a[j], a[i]; return }},
				rel{both + " changed by opposite amounts", func(in [8]int64) (a, b [8]int64) {
					a, b = in, in
					d := pick()
					b[i], b[j] = mul(a[i], d), mul(a[j], inv(d))
					return
				}},
				rel{both + " inverted", func(in [8]int64) (a, b [8]int64) { a, b = in, in; b[i], b[j] = inv(a[i]), inv(a[j]); return }},
				rel{both + ": the identity in either place", func(in [8]int64) (a, b [8]int64) {
					a, b = in, in
					a[i], b[i], b[j] = 1, a[j], 1
					return
				}},
				rel{both + " are the same element, which one differs", func(in [8]int64) (a, b [8]int64) {
					a, b = in, in
					a[j] = a[i]
					b[i] = pick()
					b[j] = b[i]
					return
				}},
			)
		}
	}
	for _, r := range rels {
		same, diff := 0, 0
		for try := 0; try < 60 && same < 6 && diff == 0; try++ {
			var in [8]int64
			for i := range in {
				in[i] = pick()
			}
			a, b := r.f(in)
			if a == b {
				continue
			}
			d1, d2 := derive(a), derive(b)
			if d1 < 0 || d2 < 0 {
				break
			}
			if d1 == d2 {
				same++
			} else {
				diff++
			}
			c.Eval("related", r.name, a, b)
		}
		if diff > 0 {
			c.Event("related_transcripts_distinguished")
		}
		if same >= 6 && diff == 0 {
			c.Violate("consistency proof: the challenge does not depend on everything before it: %d of %d pairs of transcripts have the same challenge (%s)", same, same, r.name)
			return
		}
	}
}

func c06confuse(c *Ctx, where string) {
	t := tiny()
	derive := tinyReader(c, t)
	if derive == nil {
		return
	}
	a := 0
	if where == "first move" {
		a = 4
	}
	for _, enc := range []struct {
		name string
		f    func(x int64) string
	}{
		{"text", func(x int64) string { return t.elem(x).String() }},
		{"decimal", func(x int64) string { return fmt.Sprint(x) }},
		{"hexadecimal", func(x int64) string { return fmt.Sprintf("%x", x) }},
		{"binary", func(x int64) string {
			b, _ := t.elem(x).MarshalBinary()
			return string(b)
		}},
		{"bytes", func(x int64) string { return string(B(x).Bytes()) }},
	} {
		inv := make(map[string]int64, len(t.mem))
		for _, x := range t.mem {
			inv[enc.f(x)] = x
		}
		same, diff := 0, 0
		for try := 0; try < 3000 && same+diff < 7; try++ {
			var in [8]int64
			for i := range in {
				in[i] = t.mem[c.R.IntN(len(t.mem))]
			}
			if try%2 == 0 { // short texts are confused more often
				in[a] = t.mem[c.R.IntN(len(t.mem))]
				if in[a] > t.p/10 {
					continue
				}
			}
			s := enc.f(in[a]) + enc.f(in[a+1])
			alt := in
			for cut := 1; cut < len(s); cut++ {
				x, ok1 := inv[s[:cut]]
				y, ok2 := inv[s[cut:]]
				if ok1 && ok2 && x != in[a] && enc.f(x)+enc.f(y) == s {
					alt[a], alt[a+1] = x, y
					break
				}
			}
			if alt == in {
				continue
			}
			d1, d2 := derive(in), derive(alt)
			if d1 < 0 || d2 < 0 {
				break
			}
			if d1 == d2 {
				same++
			} else {
				diff++
			}
			c.Event("confusable_pairs")
			c.Eval("confuse", where, enc.name, in, alt)
		}
		if same >= 6 && diff == 0 {
			c.Violate("consistency proof: the challenge does not depend on the complete %s: %d pairs whose %s encodings only join to the same string have the same challenge", where, same, enc.name)
			return
		}
	}
}
