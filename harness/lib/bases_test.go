package lib

import (
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"

	circl "github.com/cloudflare/circl/group"
	"github.com/ing-bank/zkrp/crypto/p256"
	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C17", Rule: "hashed elements and generated bases of all curves: membership by reference, equality with the standard hash-to-curve functions, injectivity over many similar seeds, determinism across receivers, tapes and processes, pairwise difference, prefix property, linear independence in the transparent group", Together: []string{"seeds/", "bases/", "independent/"}, Cases: c17, Require: map[string]int{"hashed": 1000, "base_compared": 500, "other_process": 1, "standard_compared": 200}})
}

var bpEnds = []int64{2, 4, 16, 256, 65536, 4294967296}

func c17(tier string) []Case {
	cs := rushes("C17", tier)
	for _, name := range CurveNames {
		name := name
		parts := 6
		if tier == "thorough" {
			parts = 80
		}
		for i := 0; i < parts; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("seeds/%s/%d", name, i), func(c *Ctx) { c17seeds(c, Named(name), i) }})
		}
		cs = append(cs, Case{"bases/" + name, func(c *Ctx) { c17bases(c, Named(name)) }})
		cs = append(cs, Case{"process/" + name, func(c *Ctx) { c17process(c, name) }})
	}
	for _, name := range CurveNames {
		name := name
		parts, n := 2, 3000
		if name == "P-384" {
			n = 1500
		}
		if tier == "thorough" {
			parts, n = 8, 40000
		}
		for i := 0; i < parts; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("many/%s/%d", name, i), func(c *Ctx) { c17many(c, Named(name), n) }})
		}
		cs = append(cs, Case{"standard/" + name, func(c *Ctx) { c17standard(c, Named(name)) }})
	}
	for _, b := range bpEnds {
		b := b
		cs = append(cs, Case{fmt.Sprintf("independent/%d", b), func(c *Ctx) { c17independent(c, b) }})
	}
	return cs
}

func c17seeds(c *Ctx, ng NamedGroup, part int) {
	var seeds []string
	base := bp.SEEDH
	if part == 0 {
		seeds = []string{"", "\x00", "\x00\x00", " ", "a", "A", "aa", "a ", " a", "ä", "0", "00", "1", "10", "é\xff\xfe", strings.Repeat("x", 64), strings.Repeat("x", 65),
			strings.Repeat("x", 127), strings.Repeat("x", 128), strings.Repeat("x", 129), strings.Repeat("x", 1000), bp.SEEDU}
		// seeds that share all but the last/first bytes
		l := strings.Repeat("prefix", 60)
		seeds = append(seeds, l, l+"a", l+"b", "a"+l, "b"+l)
	}
	for i := part * 40; i < part*40+40; i++ {
		seeds = append(seeds, base+"g"+fmt.Sprint(i), base+"h"+fmt.Sprint(i))
	}
	n := 160
	for i := 0; i < n; i++ {
		seeds = append(seeds, fmt.Sprintf("seed-%d-%d-%d", c.Seed, part, i))
	}
	seen := map[string]string{}
	for _, s := range seeds {
		hash := func(recv group.Element) (group.Element, bool) {
			var e group.Element
			var err error
			if p, st := Safe(func() { e, err = recv.MapToGroup(s) }); p != nil || err != nil || e == nil {
				c.Violate("%s: hashing seed %.60q fails: %v %v [%s]", ng.Name, s, p, err, st)
				return nil, false
			}
			return e, true
		}
		e1, ok := hash(ng.G.Element())
		if !ok {
			return
		}
		p, ok := read(c, ng, e1, fmt.Sprintf("MapToGroup(%.60q)", s))
		if !ok {
			return
		}
		k := ng.R.Key(p)
		if e1.IsIdentity() || k == ng.R.Key(ng.R.Zero()) {
			c.Violate("%s: seed %.60q hashes to the identity", ng.Name, s)
		}
		if k == ng.R.Key(ng.R.Gen()) {
			c.Violate("%s: seed %.60q hashes to the generator", ng.Name, s)
		}
		if o, dup := seen[k]; dup && o != s {
			c.Violate("%s: seeds %.60q and %.60q hash to the same element", ng.Name, o, s)
			return
		}
		seen[k] = s
		// other receivers, another group instance, another tape
		c.Tape.Reseed("other", s, len(seen))
		recv := ng.G.Random()
		e2, ok := hash(recv)
		if !ok {
			return
		}
		e3, ok := hash(Curve(ng.Name).Identity())
		if !ok {
			return
		}
		if !e1.IsEqual(e2) || !e1.IsEqual(e3) {
			c.Violate("%s: seed %.60q hashes to different elements", ng.Name, s)
			return
		}
		c.EventN("hashed", 3)
		c.Eval(ng.Name, s)
	}
	c.Sample(map[string]any{"group": ng.Name, "seeds": len(seeds), "last": seeds[len(seeds)-1]})
}

// c17many looks for two seeds with the same element among many which differ little: by a digit in front or behind
// (where counters are put), by a separator, or by one letter.
func c17many(c *Ctx, ng NamedGroup, n int) {
	seen := map[string]string{}
	hash := func(s string) bool {
		var k []byte
		var err error
		if pn, st := Safe(func() {
			var e group.Element
			if e, err = ng.G.Element().MapToGroup(s); err == nil {
				k, err = e.MarshalBinary()
			}
		}); pn != nil || err != nil {
			c.Violate("%s: hashing seed %.60q fails: %v %v [%s]", ng.Name, s, pn, err, st)
			return false
		}
		if o, dup := seen[string(k)]; dup && o != s {
			c.Violate("%s: seeds %.60q and %.60q hash to the same element", ng.Name, o, s)
			return false
		}
		seen[string(k)] = s
		c.Event("hashed")
		return true
	}
	// the first two pairs had the same element once
	for _, s := range []string{"seed149", "1seed149", "seed8470", "0seed8470"} {
		if !hash(s) {
			return
		}
	}
	for len(seen) < n {
		s := fmt.Sprintf("%d-%x", c.R.IntN(50), c.R.Uint32())
		if c.R.IntN(2) == 0 {
			s = fmt.Sprintf("%x", c.R.Uint64()>>(4*c.R.IntN(15)))
		}
		for _, v := range []string{s, "0" + s, "1" + s, "2" + s, "3" + s, ":" + s, "1:" + s, s + "0", s + "1", s + ":", s + "\x00"} {
			if !hash(v) {
				return
			}
		}
		c.Eval(ng.Name, "many", s)
	}
}

// c17standard compares with the hash-to-curve functions the groups are defined with: RFC 9380 with an empty domain
// separation tag, and try-and-increment for secp256k1. Any other construction is either not reproducible by
// the other party or, like a multiple of the generator, has a known logarithm.
func c17standard(c *Ctx, ng NamedGroup) {
	want := func(s string) RPt {
		var e group.Element = ng.G.Element()
		var b []byte
		var err error
		switch ng.Name {
		case "secp256k1":
			p, err := p256.MapToGroup(":" + s)
			if err != nil {
				Bug("reference hashing: %v", err)
			}
			pt, err := ng.R.Read(mustDecode(ng, append(p.X.FillBytes(make([]byte, 32)), p.Y.FillBytes(make([]byte, 32))...)))
			if err != nil {
				Bug("reference hashing: %v", err)
			}
			return pt
		case "P-256":
			b, err = circl.P256.HashToElement([]byte(s), nil).MarshalBinary()
		case "P-384":
			b, err = circl.P384.HashToElement([]byte(s), nil).MarshalBinary()
		case "ristretto255":
			b, err = circl.Ristretto255.HashToElement([]byte(s), nil).MarshalBinary()
		}
		if err == nil {
			err = e.UnmarshalBinary(b)
		}
		var pt RPt
		if err == nil {
			pt, err = ng.R.Read(e)
		}
		if err != nil {
			Bug("reference hashing for %s: %v", ng.Name, err)
		}
		return pt
	}
	seeds := []string{"", "a", bp.SEEDH, bp.SEEDU, strings.Repeat("x", 200), "\x00\xff", "7"}
	for i := 0; i < 40; i++ {
		seeds = append(seeds, fmt.Sprintf("%x", c.R.Uint64()), bp.SEEDH+"g"+fmt.Sprint(i))
	}
	for _, s := range seeds {
		var e group.Element
		var err error
		if pn, st := Safe(func() { e, err = ng.G.Element().MapToGroup(s) }); pn != nil || err != nil {
			c.Violate("%s: hashing seed %.60q fails: %v %v [%s]", ng.Name, s, pn, err, st)
			return
		}
		if !same(c, ng, e, want(s), fmt.Sprintf("hashing the seed %.60q", s)) {
			return
		}
		c.Event("hashed")
		c.Event("standard_compared")
		c.Eval(ng.Name, "standard", s)
	}
}

func mustDecode(ng NamedGroup, b []byte) group.Element {
	e := ng.G.Element()
	if err := e.UnmarshalBinary(b); err != nil {
		Bug("reference hashing for %s: %v", ng.Name, err)
	}
	return e
}

func basesOf(p bp.BulletProofSetupParams) []group.Element {
	var l []group.Element
	l = append(l, p.H)
	for i := range p.Gg {
		l = append(l, p.Gg[i], p.Hh[i])
	}
	return l
}

func uu(g group.Group) group.Element {
	e, err := g.Element().MapToGroup(bp.SEEDU)
	if err != nil {
		Bug("hashing SEEDU: %v", err)
	}
	return e
}

func c17bases(c *Ctx, ng NamedGroup) {
	var prev []string
	for _, b := range bpEnds {
		p, err := bp.Setup(b, ng.G)
		if err != nil {
			c.Violate("%s: Setup(%d) fails: %v", ng.Name, b, err)
			return
		}
		c.Tape.Reseed("bases", b)
		p2, err := bp.Setup(b, Curve(ng.Name))
		if err != nil {
			c.Violate("%s: Setup(%d) fails the second time: %v", ng.Name, b, err)
			return
		}
		if int64(len(p.Gg)) != p.N || int64(len(p.Hh)) != p.N {
			c.Violate("%s: Setup(%d) has %d/%d bases for N=%d", ng.Name, b, len(p.Gg), len(p.Hh), p.N)
			return
		}
		same(c, ng, p.G, ng.R.Gen(), "params.G")
		l, l2 := basesOf(p), basesOf(p2)
		all := append([]group.Element{ng.G.Generator(), uu(ng.G)}, l...)
		keys := map[string]int{}
		var cur []string
		for i, e := range all {
			pt, ok := read(c, ng, e, fmt.Sprintf("base #%d of Setup(%d)", i, b))
			if !ok {
				return
			}
			k := ng.R.Key(pt)
			if k == ng.R.Key(ng.R.Zero()) {
				c.Violate("%s: base #%d of Setup(%d) is the identity", ng.Name, i, b)
			}
			if j, dup := keys[k]; dup {
				c.Violate("%s: bases #%d and #%d of Setup(%d) coincide", ng.Name, j, i, b)
				return
			}
			nk := ng.R.Key(ng.R.Neg(pt))
			if j, dup := keys[nk]; dup {
				c.Violate("%s: bases #%d and #%d of Setup(%d) are opposite", ng.Name, j, i, b)
				return
			}
			keys[k] = i
			if i >= 2 {
				cur = append(cur, k)
			}
			c.Event("base_compared")
			c.Eval(ng.Name, b, k)
		}
		for i := range l {
			if !l[i].IsEqual(l2[i]) {
				c.Violate("%s: base #%d of Setup(%d) differs between two runs", ng.Name, i, b)
				return
			}
		}
		for i := range prev {
			if prev[i] != cur[i] {
				c.Violate("%s: base #%d of Setup(%d) is not the one of the smaller range", ng.Name, i, b)
				return
			}
			c.Event("base_compared")
		}
		prev = cur
	}
}

func digestOf(name string) string {
	h := sha256.New()
	g := Curve(name)
	for i := 0; i < 40; i++ {
		e, err := g.Element().MapToGroup(fmt.Sprintf("digest-%d", i))
		if err != nil {
			return "error " + err.Error()
		}
		b, _ := e.MarshalBinary()
		h.Write(b)
	}
	p, err := bp.Setup(65536, g)
	if err != nil {
		return "error " + err.Error()
	}
	for _, e := range append(basesOf(p), uu(g)) {
		b, _ := e.MarshalBinary()
		h.Write(b)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// digestMain is run in a second process with the real random source.
func digestMain() {
	_ = os.WriteFile(os.Getenv("VERIF_OUT"), []byte(digestOf(os.Getenv("VERIF_DIGEST"))), 0o644)
}

func c17process(c *Ctx, name string) {
	mine := digestOf(name)
	f, err := os.CreateTemp("", "verif-digest")
	if err != nil {
		Bug("%v", err)
	}
	defer os.Remove(f.Name())
	f.Close()
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$")
	cmd.Env = append(os.Environ(), "VERIF_DIGEST="+name, "VERIF_OUT="+f.Name())
	if err := cmd.Run(); err != nil {
		Bug("second process: %v", err)
	}
	other, _ := os.ReadFile(f.Name())
	if string(other) != mine {
		c.Violate("%s: bases differ between two processes (%s / %s)", name, mine, other)
	}
	c.Event("other_process")
	c.Eval(name, mine)
}

// c17independent: in the transparent group the bases must be linearly independent, i.e. no base may be
// computable from the others with known coefficients.
func c17independent(c *Ctx, b int64) {
	g := TCurve()
	p, err := bp.Setup(b, g)
	if err != nil {
		c.Violate("Setup(%d): %v", b, err)
		return
	}
	els := append([]group.Element{g.Generator(), uu(g)}, basesOf(p)...)
	var rows []*TElem
	for i, e := range els {
		r := e.(*TElem).Clone()
		for _, o := range rows {
			r.Reduce(o)
		}
		if len(r.Support()) == 0 {
			c.Violate("base #%d of Setup(%d) is a known combination of the generator and the other bases", i, b)
			return
		}
		rows = append(rows, r)
		c.Event("base_compared")
	}
	c.Event("independent_sets")
	c.Eval("independent", b, len(els))
}
