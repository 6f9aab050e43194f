package lib

import (
	"fmt"
	"math"
	"math/big"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C10", Rule: "consistency proofs over a grid of secret/challenge/slack lengths, transparent and real groups, edge and random secrets (must verify); transcripts with short challenges in which exactly one of the four relations fails or the integer response leaves its interval, tried until the challenge check passes by chance (must never verify, controls must); foreign challenges and mismatched statements at full length", Together: []string{"complete/", "real/", "mismatch/", "foreign/"}, Cases: c10, Require: map[string]int{"proof_verified": 300, "history": 100, "control_accepted": 10, "false_relation_tries": 20000, "response_outside_tries": 5000, "foreign_challenge_rejected": 50, "foreign_answered": 2000, "mismatch_rejected": 100}},
		Check{Prop: "C11", Rule: "blinding values read from published proofs over the transparent group: non-zero, full width (chi-square), never repeated, no constant difference/sum/ratio between components, entropy drawn from crypto/rand, nothing published while the source fails or delivers too little; integer responses inside the interval and uniform for extreme secrets", Cases: c11, Require: map[string]int{"independent_blindings": 50, "blinding_values": 20000, "response_sampled": 8000}, Prefer: map[string]int{"randomness_faults": 300}},
		Check{Prop: "C18", Rule: "range ends and length parameters over edge values and grids; error or acceptance observed, accepted parameters exercised by proving and verifying under a randomness budget", Together: []string{"range/", "sigma/"}, Cases: c18, Require: map[string]int{"setup_judged": 300, "accepted_exercised": 60}},
	)
}

func ffGroup(name string) group.Group {
	switch name {
	case "transparent":
		return TField()
	case "rfc":
		return RFCGroup()
	}
	n := 0
	fmt.Sscanf(name, "modp%d", &n)
	return ModP(n)
}

// ---------------- C10 ----------------

func c10(tier string) []Case {
	cs := atOnce("C10", tier)
	for _, bx := range []uint8{1, 2, 8, 16, 32, 64} {
		for _, bc := range []uint16{8, 16, 64, 120, 128, 184, 224, 232, 248} {
			for _, bb := range []int{1, 2, 8, 15, 60, 120} {
				bg := int(bx) + int(bc) + bb + 1
				if bg > 256 {
					continue
				}
				bx, bc := bx, bc
				cs = append(cs, Case{fmt.Sprintf("complete/%d/%d/%d", bx, bc, bb), func(c *Ctx) { c10complete(c, "transparent", "transparent", bx, bc, uint16(bg), 3) }})
			}
		}
	}
	reps := 1
	if tier == "thorough" {
		reps = 5
	}
	for r := 0; r < reps; r++ {
		for _, ec := range CurveNames {
			for _, ff := range []string{"modp512", "modp1024", "rfc"} {
				ec, ff := ec, ff
				cs = append(cs, Case{fmt.Sprintf("real/%s/%s/%d", ec, ff, r), func(c *Ctx) {
					bg := uint16(StdOrder[ec].BitLen())
					c10complete(c, ff, ec, 16, 224, bg, 2)
					c10complete(c, ff, ec, 16, 128, bg, 2)
					c10mismatch(c, ff, ec)
				}})
			}
		}
		for i := 0; i < 24; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("hostile/%d/%d", i, r), func(c *Ctx) { c10hostile(c, i) }})
		}
		for i := 0; i < 6; i++ {
			i := i
			cs = append(cs, Case{fmt.Sprintf("aborts/%d/%d", i, r), func(c *Ctx) { c10aborts(c, i) }})
		}
		for i := 0; i < 4; i++ {
			cs = append(cs, Case{fmt.Sprintf("mismatch/%d/%d", i, r), func(c *Ctx) { c10mismatch(c, "transparent", "transparent") }})
		}
		for _, rel := range []string{"none", "Y", "Xp", "Xq1", "Xq2", "rp"} {
			for k := 0; k < 4; k++ {
				rel, k := rel, k
				cs = append(cs, Case{fmt.Sprintf("relation/%s/%d/%d", rel, k, r), func(c *Ctx) { c10relation(c, rel, k, "transparent", "transparent") }})
			}
			if tier == "thorough" {
				rel := rel
				cs = append(cs, Case{fmt.Sprintf("relation-real/%s/%d", rel, r), func(c *Ctx) { c10relation(c, rel, r, "modp256", "P-256") }})
			}
		}
		for _, z := range []string{"lo", "lo-1", "hi-1", "hi", "0", "neg", "hi+N", "half-lo", "-lo", "mid"} {
			for k := 0; k < 3; k++ {
				z, k := z, k
				cs = append(cs, Case{fmt.Sprintf("interval/%s/%d/%d", z, k, r), func(c *Ctx) { c10interval(c, z, k) }})
			}
		}
		for k := 0; k < 4; k++ {
			k := k
			cs = append(cs, Case{fmt.Sprintf("foreign/%d/%d", k, r), func(c *Ctx) { c10foreign(c, k) }})
		}
		for _, rel := range []string{"W", "Kp", "Kq1", "Kq2"} {
			for _, how := range degenerateFails {
				rel, how := rel, how
				cs = append(cs, Case{fmt.Sprintf("degenerate/%s/%s/%d", rel, how, r), func(c *Ctx) { c10degenerate(c, rel, how) }})
			}
		}
	}
	// orders longer than the hash
	for _, bx := range []uint8{1, 16, 64, 120, 127} {
		for _, bc := range []uint16{128, 192, 232, 240, 248, 256} {
			for _, bg := range []uint16{260, 300, 383, 384} {
				bx, bc, bg := bx, bc, bg
				if int(bg)-1-int(bx)-int(bc) < 1 {
					continue
				}
				cs = append(cs, Case{fmt.Sprintf("complete-long/%d/%d/%d", bx, bc, bg), func(c *Ctx) { c10complete(c, "transparent", "transparent-long", bx, bc, bg, 2) }})
			}
		}
	}
	return cs
}

// proveSigma proves and judges a true statement.
func proveSigma(c *Ctx, p voteproof.ProofParams, m, rp, r1, r2 *big.Int, what string) (voteproof.SigmaProof, voteproof.VerCommitments, bool) {
	var pf voteproof.SigmaProof
	comm := statement(p, m, rp, r1, r2)
	c.Tape.Op(4 * 400)
	pn, st := Safe(func() { pf = voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p) })
	c.Tape.Op(0)
	if pn != nil {
		c.Violate("%s: proving secret %v (x=%d c=%d b=%d) fails: %v [%s]", what, m, p.Bx, p.Bc, p.Bb, pn, st)
		return pf, comm, false
	}
	ok := false
	q := pf
	pn, st = Safe(func() { ok = q.Verify(comm) })
	if pn != nil || !ok {
		c.Violate("%s: consistency proof for secret %v (x=%d c=%d b=%d) is rejected: %v [%s]", what, m, p.Bx, p.Bc, p.Bb, pn, st)
		return pf, comm, false
	}
	lo, hi := zRange(p)
	if pf.Z.Cmp(lo) < 0 || pf.Z.Cmp(hi) >= 0 {
		c.Violate("%s: published response %x outside of [2^%d, 2^%d)", what, pf.Z, lo.BitLen()-1, hi.BitLen()-1)
		return pf, comm, false
	}
	c.Event("proof_verified")
	c.Eval(what, p.Bx, p.Bc, p.Bb, m, pf.Z)
	return pf, comm, true
}

func sigmaOrViolate(c *Ctx, bx uint8, bc, bg uint16, gff, gec group.Group) (voteproof.ProofParams, bool) {
	p, err := sigmaSetup(bx, bc, bg, gff, gec)
	if err != nil {
		c.Violate("setup with %d-bit secrets, %d-bit challenges and a %d-bit order is refused: %v", bx, bc, bg, err)
		return p, false
	}
	return p, true
}

func c10complete(c *Ctx, ff, ec string, bx uint8, bc, bg uint16, rnd int) {
	gff, gec := ffGroup(ff), bpGroup(ec)
	p, ok := sigmaOrViolate(c, bx, bc, bg, gff, gec)
	if !ok {
		return
	}
	top := Sub(Pow2(int(bx)), B(1))
	ms := []*big.Int{B(0), top, B(1)}
	for i := 0; i < rnd; i++ {
		ms = append(ms, RandMod(c.R, Pow2(int(bx))))
	}
	for i, m := range ms {
		rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		switch i {
		case 0:
			rp, r1 = B(0), B(0)
		case 1:
			r2, r1 = Sub(gec.N(), B(1)), B(1)
		case 2:
			r2 = r1
		}
		if _, _, ok := proveSigma(c, p, m, rp, r1, r2, ff+"/"+ec); !ok {
			return
		}
	}
	c.Sample(map[string]any{"ff": ff, "ec": ec, "x": bx, "c": bc, "b": p.Bb})
}

// c10hostile: true statements with extreme randomness of the statement and of the prover.
func c10hostile(c *Ctx, i int) {
	ff, ec, n := "transparent", "transparent", 160
	if i%6 == 5 {
		ff, ec, n = "modp512", CurveNames[(i/6)%len(CurveNames)], 12
	}
	gff, gec := ffGroup(ff), bpGroup(ec)
	bg := uint16(gec.N().BitLen())
	p, ok := sigmaOrViolate(c, []uint8{16, 1, 8, 64}[i%4], []uint16{128, 64, 176, 16}[(i/4)%4], bg, gff, gec)
	if !ok {
		return
	}
	pick := func(N *big.Int) *big.Int {
		switch c.R.IntN(6) {
		case 0:
			return B(0)
		case 1:
			return B(int64(1 + c.R.IntN(3)))
		case 2:
			return Sub(N, B(int64(1+c.R.IntN(3))))
		case 3:
			return RandBits(c.R, 1+c.R.IntN(N.BitLen()-1))
		}
		return RandMod(c.R, N)
	}
	defer func() { c.Tape.Inject = nil }()
	for k := 0; k < n; k++ {
		m := RandBits(c.R, c.R.IntN(int(p.Bx)+1))
		rp, r1, r2 := pick(gff.N()), pick(gec.N()), pick(gec.N())
		c.Hostile(i + k)
		pf, comm, ok := proveSigma(c, p, m, rp, r1, r2, ff+"/"+ec)
		c.Tape.Inject = nil
		if !ok {
			return
		}
		c.Event("hostile_tape")
		if k%8 == 0 {
			for _, s := range Spoiled(c, pf, []group.Group{gff, gec}, 6) {
				Safe(func() { s.Verify(comm) })
			}
			if ok := false; func() bool { Safe(func() { ok = pf.Verify(comm) }); return !ok }() {
				c.Violate("%s/%s: consistency proof for secret %v is rejected after spoiled copies of it", ff, ec, m)
				return
			}
			c.Event("history")
		}
	}
}

var setupRanges = [][2]uint16{{0, 65535}, {0, 65535}, {101, 2000}, {0, 0}, {1, 1}, {65535, 65535}, {500, 500}, {0, 1}, {65534, 65535}, {255, 256}, {32767, 32768}, {0, 32768}}

// c10aborts: the prover has to start over many times before it may answer.
func c10aborts(c *Ctx, i int) {
	gff, gec := ffGroup("transparent"), bpGroup("transparent")
	bx, bc := []uint8{16, 1, 8}[i%3], []uint16{224, 128, 64, 16}[i%4]
	bg := uint16(int(bx) + int(bc) + 1 + []int{1, 2, 15}[i/2])
	if i == 5 {
		bg = uint16(gec.N().BitLen())
	}
	p, ok := sigmaOrViolate(c, bx, bc, bg, gff, gec)
	if !ok {
		return
	}
	defer func() { c.Tape.Inject = nil }()
	for _, starts := range []int{1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300} {
		m := RandBits(c.R, 1+c.R.IntN(int(p.Bx)))
		rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		left := 4 * starts // an attempt draws the integer and three blinding values
		how := []int{0, 1, 255}[c.R.IntN(3)]
		c.Tape.Inject = func(n int) []byte {
			if left == 0 {
				return nil
			}
			left--
			return []byte{byte(how)} // too small to mask anything
		}
		_, _, ok := proveSigma(c, p, m, rp, r1, r2, fmt.Sprintf("after %d attempts with a tiny mask", starts))
		c.Tape.Inject = nil
		if !ok {
			return
		}
		c.Event("aborts_forced")
	}
}

// c10mismatch: full-length proofs against a statement with one other component.
func c10mismatch(c *Ctx, ff, ec string) {
	gff, gec := ffGroup(ff), bpGroup(ec)
	p, ok := sigmaOrViolate(c, 16, 128, uint16(gec.N().BitLen()), gff, gec)
	if !ok {
		return
	}
	m, rp, r1, r2 := B(int64(c.R.IntN(65536))), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
	pf, comm, ok := proveSigma(c, p, m, rp, r1, r2, ff+"/"+ec)
	if !ok {
		return
	}
	m2s := []*big.Int{Add(m, B(1)), Sub(m, B(1)), Add(m, B(65536)), Neg(m), RandMod(c.R, gec.N())}
	try := func(what string, cm voteproof.VerCommitments, q voteproof.SigmaProof) {
		got := false
		pn, _ := Safe(func() { got = q.Verify(cm) })
		if pn == nil && got {
			c.Violate("%s/%s: consistency proof for secret %v verifies with %s", ff, ec, m, what)
		}
		c.Event("mismatch_rejected")
		c.Eval(ff, ec, what, m)
	}
	for _, m2 := range m2s {
		if Mod(m2, gec.N()).Cmp(m) == 0 {
			continue
		}
		o := statement(p, m2, rp, r1, r2)
		for i, what := range []string{"a ciphertext of %v", "a first commitment to %v", "a second commitment to %v", "both commitments to %v", "ciphertext and commitments of %v"} {
			cm := comm
			switch i {
			case 0:
				cm.Xp = o.Xp
			case 1:
				cm.Xq1 = o.Xq1
			case 2:
				cm.Xq2 = o.Xq2
			case 3:
				cm.Xq1, cm.Xq2 = o.Xq1, o.Xq2
			case 4:
				cm = o
			}
			try(fmt.Sprintf(what, m2), cm, pf)
		}
	}
	o := statement(p, m, Add(rp, B(1)), Add(r1, B(1)), Add(r2, B(1)))
	cm := comm
	cm.Y = o.Y
	try("other randomness in the first half", cm, pf)
	cm = comm
	cm.Xp = o.Xp
	try("other randomness in the second half", cm, pf)
	cm = comm
	cm.Y, cm.Xp = o.Y, o.Xp
	try("a re-randomised ciphertext", cm, pf)
	q := pf
	q.Sp = Mod(Add(pf.Sp, pf.Challenge), gff.N())
	try("a re-randomised ciphertext and adjusted response", cm, q)
	cm = comm
	cm.Xq1 = o.Xq1
	q = pf
	q.Sq1 = Mod(Add(pf.Sq1, pf.Challenge), gec.N())
	try("a re-randomised first commitment and adjusted response", cm, q)
	cm = comm
	cm.Xq2 = o.Xq2
	q = pf
	q.Sq2 = Mod(Add(pf.Sq2, pf.Challenge), gec.N())
	try("a re-randomised second commitment and adjusted response", cm, q)
	cm = comm
	cm.Xq1, cm.Xq2 = comm.Xq2, comm.Xq1
	try("exchanged commitments", cm, pf)
	gs := []group.Group{gff, gec}
	Mutants(c, pf, gs, ff == "transparent", func(name string, x *voteproof.SigmaProof) { try("altered "+name, comm, *x) })
	Twins(c, pf, gs, 20, func(name string, x *voteproof.SigmaProof) { try("equalled "+name, comm, *x) })
}

// simulate builds a transcript in which all relations hold for challenge ch.
func simulate(c *Ctx, p voteproof.ProofParams, m, rp, r1, r2, z, ch *big.Int) *sigmaRun {
	gff, gec := p.GFF.I, p.GEC.I
	s := &sigmaRun{p: p, comm: statement(p, m, rp, r1, r2)}
	s.pf.Params = p
	s.pf.Challenge = ch
	s.pf.Z = z
	s.pf.Sp, s.pf.Sq1, s.pf.Sq2 = RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
	for _, k := range []string{"W", "Kp", "Kq1", "Kq2"} {
		s.solveFor(k, ch)
	}
	return s
}

func c10relation(c *Ctx, rel string, variant int, ff, ec string) {
	gff, gec := ffGroup(ff), bpGroup(ec)
	p, ok := sigmaOrViolate(c, 16, 8, uint16(min(gec.N().BitLen(), gff.N().BitLen())), gff, gec)
	if !ok {
		return
	}
	lo, hi := zRange(p)
	tries, accepted := 1500, 0
	if c.Thorough() {
		tries = 6000
	}
	if ff != "transparent" {
		tries = 1200
	}
	// d is how far off the failing relation is
	var d *big.Int
	switch variant % 4 {
	case 0:
		d = B(1)
	case 1:
		d = B(-1)
	case 2:
		d = B(65536)
	case 3:
		d = RandNZ(c.R, gec.N())
	}
	for t := 0; t < tries; t++ {
		m, rp, r1, r2 := B(int64(c.R.IntN(65536))), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		z := Add(lo, RandMod(c.R, Sub(hi, lo)))
		ch := B(1 + int64(c.R.IntN(255)))
		s := simulate(c, p, m, rp, r1, r2, z, ch)
		// One relation refers to another value; the transcript was made for the original one.
		switch rel {
		case "Y":
			s.comm.Y = gff.Element().BaseScale(Add(rp, d))
		case "rp": // second half with other randomness
			s.comm.Xp = ped(p.GFF, m, Add(rp, d))
		case "Xp":
			s.comm.Xp = ped(p.GFF, Add(m, d), rp)
		case "Xq1":
			s.comm.Xq1 = ped(p.GEC, Add(m, d), r1)
		case "Xq2":
			s.comm.Xq2 = ped(p.GEC, Add(m, d), r2)
		}
		if s.verify(c) {
			accepted++
			if rel != "none" {
				c.Violate("%s/%s: consistency proof verifies although the relation of %s is off by %v", ff, ec, rel, d)
				return
			}
		}
		if rel != "none" {
			c.Event("false_relation_tries")
		}
	}
	if rel == "none" {
		c.EventN("control_accepted", accepted)
	}
	c.Eval("relation", rel, variant, ff, ec)
}

// Special values under which a verifier might be tempted to skip or merge checks.
var degenerateSetups = []string{"", "Sq1=Sq2", "Sp=Sq1", "Sp=Sq2", "Sp=0", "Sq1=0", "Sq2=0", "Z=lo", "Z=hi-1", "r1=r2", "m=0", "rp=0", "r1=0", "m=0,r=0", "Z even", "Sq1=Z", "Sp=Z", "ch=0", "ch=1",
	"Sp long", "Sq1 long", "Sq2 long", "Sp huge", "Sq1 huge", "Sq2 huge", "Sp negative", "Sq1 negative", "Sq2 negative", "Sp=N", "Sq1=N", "Sq2=N", "Sp small", "Sq1 small", "Sq2 small", "all small", "all long"}

// How the failing relation fails.
var degenerateFails = []string{"statement", "statement identity", "statement generator", "statement copy", "K identity", "K generator", "K copy", "K negated", "K statement"}

// c10degenerate: exactly one relation fails, and the transcript has a coincidence
// (equal or trivial values) elsewhere or in the failing relation itself.
func c10degenerate(c *Ctx, rel, how string) {
	gff, gec := TField(), TCurve()
	p, ok := sigmaOrViolate(c, 16, 8, 256, gff, gec)
	if !ok {
		return
	}
	lo, hi := zRange(p)
	N := gec.N()
	tries := 1300
	if c.Thorough() {
		tries = 3000
	}
	for _, su := range degenerateSetups {
		n := 0
		for t := 0; t < tries; t++ {
			m, rp, r1, r2 := B(int64(c.R.IntN(65536))), RandMod(c.R, gff.N()), RandMod(c.R, N), RandMod(c.R, N)
			z := Add(lo, RandMod(c.R, Sub(hi, lo)))
			ch := B(1 + int64(c.R.IntN(255)))
			s := &sigmaRun{p: p}
			s.pf.Params = p
			sp, s1, s2 := RandMod(c.R, N), RandMod(c.R, N), RandMod(c.R, N)
			switch su {
			case "Sq1=Sq2":
				s2 = s1
			case "Sp=Sq1":
				sp = s1
			case "Sp=Sq2":
				sp = s2
			case "Sp=0":
				sp = B(0)
			case "Sq1=0":
				s1 = B(0)
			case "Sq2=0":
				s2 = B(0)
			case "Z=lo":
				z = lo
			case "Z=hi-1":
				z = Sub(hi, B(1))
			case "r1=r2":
				r2 = r1
			case "m=0":
				m = B(0)
			case "rp=0":
				rp = B(0)
			case "r1=0":
				r1 = B(0)
			case "m=0,r=0":
				m, rp, r1, r2 = B(0), B(0), B(0), B(0)
			case "Z even":
				z = Sub(z, B(int64(z.Bit(0))))
				if z.Cmp(lo) < 0 {
					z = lo
				}
			case "Sq1=Z":
				s1 = z
			case "Sp=Z":
				sp = z
			case "ch=0":
				ch = B(0)
			case "ch=1":
				ch = B(1)
			default:
				sp, s1, s2 = OddResponse(c.R, su, "Sp", sp, gff.N()), OddResponse(c.R, su, "Sq1", s1, N), OddResponse(c.R, su, "Sq2", s2, N)
			}
			s.comm = statement(p, m, rp, r1, r2)
			s.pf.Challenge, s.pf.Z, s.pf.Sp, s.pf.Sq1, s.pf.Sq2 = ch, z, sp, s1, s2
			for _, k := range []string{"W", "Kp", "Kq1", "Kq2"} {
				s.solveFor(k, ch)
			}
			var K, X *group.Element
			var oK, oX group.Element
			gi := group.Group(gec)
			switch rel {
			case "W":
				K, X, oK, oX, gi = &s.pf.W, &s.comm.Y, s.pf.Kp, s.comm.Xp, gff
			case "Kp":
				K, X, oK, oX, gi = &s.pf.Kp, &s.comm.Xp, s.pf.W, s.comm.Y, gff
			case "Kq1":
				K, X, oK, oX = &s.pf.Kq1, &s.comm.Xq1, s.pf.Kq2, s.comm.Xq2
			case "Kq2":
				K, X, oK, oX = &s.pf.Kq2, &s.comm.Xq2, s.pf.Kq1, s.comm.Xq1
			}
			switch how {
			case "statement":
				*X = gi.Element().Add(*X, gi.Generator())
			case "statement identity":
				*X = gi.Identity()
			case "statement generator":
				*X = gi.Generator()
			case "statement copy":
				*X = oX
			case "K identity":
				*K = gi.Identity()
			case "K generator":
				*K = gi.Generator()
			case "K copy":
				*K = oK
			case "K negated":
				*K = gi.Element().Negate(*K)
			case "K statement":
				*K = *X
			}
			// the relation still holds: nothing to judge
			r := &sigmaRun{p: p, comm: s.comm, pf: s.pf}
			r.solveFor(rel, ch)
			now := map[string]group.Element{"W": r.pf.W, "Kp": r.pf.Kp, "Kq1": r.pf.Kq1, "Kq2": r.pf.Kq2}[rel]
			if (*K).IsEqual(now) {
				continue
			}
			n++
			c.Event("false_relation_tries")
			if s.verify(c) {
				c.Violate("consistency proof verifies although the relation of %s fails (%s; %s)", rel, how, su)
				return
			}
		}
		if n > 0 {
			c.Eval("degenerate", rel, how, su)
		}
	}
}

func c10interval(c *Ctx, which string, k int) {
	gff, gec := TField(), TCurve()
	bx := []uint8{16, 1, 64}[k%3]
	bg := []uint16{256, 30, 200}[k%3]
	p, ok := sigmaOrViolate(c, bx, 8, bg, gff, gec)
	if !ok {
		return
	}
	lo, hi := zRange(p)
	N := gec.N()
	var z *big.Int
	inside := false
	switch which {
	case "lo":
		z, inside = lo, true
	case "lo-1":
		z = Sub(lo, B(1))
	case "hi-1":
		z, inside = Sub(hi, B(1)), true
	case "hi":
		z = hi
	case "0":
		z = B(0)
	case "neg":
		z = B(-1)
	case "hi+N":
		z = Add(hi, Mul(N, gff.N()))
	case "half-lo":
		z = new(big.Int).Rsh(lo, 1)
	case "-lo":
		z = Neg(lo)
	case "mid":
		z, inside = Add(lo, RandMod(c.R, Sub(hi, lo))), true
	}
	acc := 0
	for t := 0; t < 16; t++ {
		m, rp, r1, r2 := RandMod(c.R, Pow2(int(bx))), RandMod(c.R, gff.N()), RandMod(c.R, N), RandMod(c.R, N)
		for ch := int64(0); ch < 256; ch++ {
			s := simulate(c, p, m, rp, r1, r2, z, B(ch))
			if s.verify(c) {
				acc++
				if !inside {
					c.Violate("consistency proof with response %v, outside of [2^%d,2^%d), verifies", z, lo.BitLen()-1, hi.BitLen()-1)
					return
				}
				break
			}
			if !inside {
				c.Event("response_outside_tries")
			}
		}
		c.Eval("interval", which, k, t)
	}
	// 16 transcripts, each completed with probability 1-1/e: none at all has probability 1e-7
	if inside {
		c.EventN("control_accepted", acc)
		if acc == 0 {
			c.Violate("consistency proofs with response at %s of [2^%d,2^%d) are never accepted", which, lo.BitLen()-1, hi.BitLen()-1)
		}
	}
}

// c10foreign: all relations hold, but the challenge is not the derived one.
func c10foreign(c *Ctx, k int) {
	gff, gec := TField(), TCurve()
	p, ok := sigmaOrViolate(c, 16, []uint16{64, 128, 200, 224}[k%4], 256, gff, gec)
	if !ok {
		return
	}
	lo, hi := zRange(p)
	N := gec.N()
	try := func(what string, s *sigmaRun) {
		if s.verify(c) {
			c.Violate("consistency proof verifies with a challenge of the prover's choice: %s", what)
		}
		c.Event("foreign_challenge_rejected")
		c.Eval("foreign", k, what)
	}
	for t := 0; t < 10; t++ {
		m, rp, r1, r2 := B(int64(c.R.IntN(65536))), RandMod(c.R, gff.N()), RandMod(c.R, N), RandMod(c.R, N)
		z := Add(lo, RandMod(c.R, Sub(hi, lo)))
		for _, ch := range []*big.Int{B(0), B(1), B(-1), RandBits(c.R, int(p.Bc)), Mul(N, gff.N()), Sub(Pow2(int(p.Bc)), B(1))} {
			try(fmt.Sprintf("%x", ch), simulate(c, p, m, rp, r1, r2, z, ch))
		}
		// a real proof whose challenge is changed to an equivalent or related integer
		pf, comm, ok := proveSigma(c, p, m, rp, r1, r2, "transparent")
		if !ok {
			return
		}
		for _, d := range []*big.Int{Mul(N, gff.N()), Neg(Mul(N, gff.N())), Pow2(int(p.Bc)), N, gff.N()} {
			q := pf
			q.Challenge = Add(pf.Challenge, d)
			try(fmt.Sprintf("derived challenge + %x", d), &sigmaRun{p, comm, q})
		}
		// The nonces of a real proof are known to its maker: answer another challenge with the same first move.
		m = B(int64(c.R.IntN(4)))
		pf2, comm2, ok := proveSigma(c, p, m, rp, r1, r2, "transparent")
		if !ok {
			return
		}
		answer := func(what string, ch *big.Int) {
			if ch.Cmp(pf2.Challenge) == 0 {
				return
			}
			d := Sub(ch, pf2.Challenge)
			q := pf2
			q.Challenge = ch
			q.Z = Add(pf2.Z, Mul(d, m))
			q.Sp = Mod(Add(pf2.Sp, Mul(d, rp)), gff.N())
			q.Sq1 = Mod(Add(pf2.Sq1, Mul(d, r1)), N)
			q.Sq2 = Mod(Add(pf2.Sq2, Mul(d, r2)), N)
			if q.Z.Cmp(lo) < 0 || q.Z.Cmp(hi) >= 0 {
				return
			}
			try("same first move, "+what, &sigmaRun{p, comm2, q})
			c.Event("foreign_answered")
		}
		x := pf2.Challenge
		bc := int(p.Bc)
		answer("negated challenge", Neg(x))
		answer("zero", B(0))
		answer("random", RandBits(c.R, bc))
		for b := 0; b < bc; b++ {
			answer(fmt.Sprintf("bit %d flipped", b), new(big.Int).Xor(x, Pow2(b)))
		}
		for _, w := range []int{8, 16, 31, 32, 63, 64, 96, 120, 128, 160, 192, 216, bc, bc + 8, 256, 256 + 64} {
			if w < bc {
				h := Pow2(w)
				answer(fmt.Sprintf("same low %d bits", w), Add(Mod(x, h), Mul(RandBits(c.R, bc-w), h)))
				answer(fmt.Sprintf("low %d bits only", w), Mod(x, h))
				answer(fmt.Sprintf("without low %d bits", w), Sub(x, Mod(x, h)))
				answer(fmt.Sprintf("other low %d bits", w), Add(Sub(x, Mod(x, h)), RandBits(c.R, w)))
				answer(fmt.Sprintf("shifted right by %d", w), new(big.Int).Rsh(x, uint(w)))
			}
			if w == bc || w == bc+8 {
				answer(fmt.Sprintf("with bit %d", w), Add(x, Pow2(w)))
				answer(fmt.Sprintf("minus 2^%d", w), Sub(x, Pow2(w)))
			}
			answer(fmt.Sprintf("plus 2^%d", w), Add(x, Pow2(w)))
		}
		by := x.FillBytes(make([]byte, bc/8))
		for i, j := 0, len(by)-1; i < j; i, j = i+1, j-1 {
			by[i], by[j] = by[j], by[i]
		}
		answer("reversed bytes", new(big.Int).SetBytes(by))
		q := pf
		q.Challenge = Neg(pf.Challenge)
		try("negated challenge", &sigmaRun{p, comm, q})
		// zero challenge: commitments alone satisfy the relations
		for _, x := range Mod0(pf.Challenge) {
			q := pf
			q.Challenge = x
			try("truncated challenge", &sigmaRun{p, comm, q})
		}
	}
}

// Mod0 lists truncations of a challenge.
func Mod0(x *big.Int) []*big.Int {
	var o []*big.Int
	for _, n := range []int{8, 32, 64, 128} {
		y := Mod(x, Pow2(n))
		if y.Cmp(x) != 0 {
			o = append(o, y)
		}
		z := new(big.Int).Rsh(x, uint(n))
		if z.Cmp(x) != 0 {
			o = append(o, z)
		}
	}
	return o
}

// ---------------- C11 ----------------

func c11(tier string) []Case {
	cs := atOnce("C11", tier)
	n := 6
	if tier == "thorough" {
		n = 40
	}
	for i := 0; i < n; i++ {
		i := i
		cs = append(cs, Case{fmt.Sprintf("bp/%d", i), func(c *Ctx) { c11bp(c, i) }})
		cs = append(cs, Case{fmt.Sprintf("multi/%d", i), func(c *Ctx) { c11multi(c, i) }})
		cs = append(cs, Case{fmt.Sprintf("sigma/%d", i), func(c *Ctx) { c11sigma(c, i) }})
	}
	for i := 0; i < 4; i++ {
		i := i
		cs = append(cs, Case{fmt.Sprintf("independent/%d", i), func(c *Ctx) { c11independent(c, i) }})
	}
	for i := 0; i < 6; i++ {
		i := i
		cs = append(cs, Case{fmt.Sprintf("aborts/%d", i), func(c *Ctx) { c10aborts(c, i) }})
	}
	for _, bb := range []int{1, 2, 3, 4, 6} {
		for _, bc := range []uint16{8, 9, 12, 15, 16, 20, 30, 128} {
			bb, bc := bb, bc
			cs = append(cs, Case{fmt.Sprintf("response/%d/%d", bb, bc), func(c *Ctx) { c11response(c, bb, bc) }})
		}
	}
	return cs
}

// chi2 returns a chi-square tail probability bound via the Wilson-Hilferty normal approximation.
func chi2(bins []int) float64 {
	n := 0
	for _, b := range bins {
		n += b
	}
	e := float64(n) / float64(len(bins))
	x := 0.0
	for _, b := range bins {
		x += (float64(b) - e) * (float64(b) - e) / e
	}
	k := float64(len(bins) - 1)
	z := (math.Cbrt(x/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
	return 0.5 * math.Erfc(z/math.Sqrt2)
}

// pool collects named blinding values of several proofs.
type pool struct {
	N     *big.Int
	names []string
	rows  [][]*big.Int
	seen  map[string]string
}

func newPool(N *big.Int) *pool { return &pool{N: N, seen: map[string]string{}} }

func (p *pool) add(c *Ctx, what string, names []string, vals []*big.Int) bool {
	p.names = names
	p.rows = append(p.rows, vals)
	for i, v := range vals {
		c.Event("blinding_values")
		if v.Sign() == 0 {
			c.Violate("%s: %s is not blinded (blinding value 0)", what, names[i])
			return false
		}
		if v.BitLen() < p.N.BitLen()-64 {
			c.Violate("%s: blinding value of %s has %d bits only", what, names[i], v.BitLen())
			return false
		}
		k := v.String()
		if o, ok := p.seen[k]; ok {
			c.Violate("%s: %s uses the same blinding value as %s", what, names[i], o)
			return false
		}
		p.seen[k] = fmt.Sprintf("%s of proof %d", names[i], len(p.rows)-1)
	}
	return true
}

// judge looks for relations that persist across proofs and for skewed distributions.
func (p *pool) judge(c *Ctx, what string) {
	if len(p.rows) < 4 {
		return
	}
	N := p.N
	inv := func(x *big.Int) *big.Int { return Inv(x, N) }
	for i := range p.names {
		for j := range p.names {
			if i == j {
				continue
			}
			for rel, f := range map[string]func(r []*big.Int) *big.Int{
				"difference": func(r []*big.Int) *big.Int { return Mod(Sub(r[i], r[j]), N) },
				"sum":        func(r []*big.Int) *big.Int { return Mod(Add(r[i], r[j]), N) },
				"ratio":      func(r []*big.Int) *big.Int { return MulM(r[i], inv(r[j]), N) },
			} {
				if f(p.rows[0]).Cmp(f(p.rows[1])) == 0 {
					c.Violate("%s: the %s of the blinding values of %s and %s is the same in every proof", what, rel, p.names[i], p.names[j])
					return
				}
			}
		}
		// relation to the previous proof
		d1 := Mod(Sub(p.rows[1][i], p.rows[0][i]), N)
		d2 := Mod(Sub(p.rows[2][i], p.rows[1][i]), N)
		if d1.Cmp(d2) == 0 {
			c.Violate("%s: the blinding values of %s advance by a constant", what, p.names[i])
			return
		}
	}
	// distribution over [0,N): 16 bins by value, 16 bins by low bits; per component and pooled
	all := make([]int, 16)
	low := make([]int, 16)
	for i := range p.names {
		b1, b2 := make([]int, 16), make([]int, 16)
		for _, r := range p.rows {
			k := int(new(big.Int).Div(Mul(r[i], B(16)), N).Int64())
			l := int(r[i].Bit(0) | r[i].Bit(1)<<1 | r[i].Bit(2)<<2 | r[i].Bit(3)<<3)
			b1[k]++
			b2[l]++
			all[k]++
			low[l]++
		}
		if len(p.rows) >= 160 {
			if q := chi2(b1); q < 1e-12 {
				c.Violate("%s: blinding values of %s are not uniform over the group order: %v", what, p.names[i], b1)
				return
			}
			if q := chi2(b2); q < 1e-12 {
				c.Violate("%s: low bits of the blinding values of %s are not uniform: %v", what, p.names[i], b2)
				return
			}
			c.Event("distribution_judged")
		}
	}
	if chi2(all) < 1e-12 || chi2(low) < 1e-12 {
		c.Violate("%s: blinding values are not uniform over the group order: %v %v", what, all, low)
	}
}

func c11bp(c *Ctx, i int) {
	g := TCurve()
	b := []int64{2, 4, 16, 16, 256, 16}[i%6]
	params := mustBP(c, b, g)
	N := g.N()
	hb, _, _ := params.H.(*TElem).SingleBasis()
	pl := newPool(N)
	v := RandMod(c.R, B(b))
	runs := 200
	if b > 16 {
		runs = 40
	}
	for k := 0; k < runs; k++ {
		if k%50 == 49 {
			v = RandMod(c.R, B(b))
		}
		c.Tape.Op(0)
		before := c.Tape.Bytes()
		proof, gamma, err := bp.Prove(Cp(v), params)
		drawn := c.Tape.Bytes() - before
		if err != nil {
			c.Violate("Prove: %v", err)
			return
		}
		names := []string{"V", "A", "S", "T1", "T2"}
		var vals []*big.Int
		for _, e := range []group.Element{proof.V, proof.A, proof.S, proof.T1, proof.T2} {
			vals = append(vals, e.(*TElem).Coef(hb))
		}
		if gamma == nil || Mod(gamma, N).Cmp(vals[0]) != 0 {
			c.Violate("range proof: returned blinding factor is not the one of the commitment")
			return
		}
		S := proof.S.(*TElem)
		for n := range params.Gg {
			gi, _, _ := params.Gg[n].(*TElem).SingleBasis()
			hi, _, _ := params.Hh[n].(*TElem).SingleBasis()
			names = append(names, fmt.Sprintf("sL[%d]", n), fmt.Sprintf("sR[%d]", n))
			vals = append(vals, S.Coef(gi), S.Coef(hi))
		}
		if !pl.add(c, "range proof", names, vals) {
			return
		}
		if drawn < len(vals)*(N.BitLen()/8-1) {
			c.Violate("range proof: %d blinding values were made from %d random bytes only", len(vals), drawn)
			return
		}
		c.Event("entropy_checked")
		c.Eval("bp", b, k, proof.V.String())
	}
	pl.judge(c, "range proof")
}

func c11multi(c *Ctx, i int) {
	g := TCurve()
	b := []int64{4, 16, 16, 256, 16, 4}[i%6]
	m := []int{2, 2, 4, 4, 1, 1}[i%6]
	params := mustBP(c, b, g)
	N := g.N()
	hb, _, _ := params.H.(*TElem).SingleBasis()
	pl := newPool(N)
	vs := vecValues(c, params.N/int64(m), m, 0)
	for k := 0; k < 60; k++ {
		c.Tape.Op(0)
		before := c.Tape.Bytes()
		proof, _, err := bp.MultiProve(vs, params)
		drawn := c.Tape.Bytes() - before
		if err != nil {
			c.Violate("MultiProve: %v", err)
			return
		}
		names := []string{"A", "S", "T1", "T2"}
		es := []group.Element{proof.A, proof.S, proof.T1, proof.T2}
		for j := range proof.Vs {
			names = append(names, fmt.Sprintf("Vs[%d]", j))
			es = append(es, proof.Vs[j])
		}
		var vals []*big.Int
		for _, e := range es {
			vals = append(vals, e.(*TElem).Coef(hb))
		}
		S := proof.S.(*TElem)
		for n := range params.Gg {
			gi, _, _ := params.Gg[n].(*TElem).SingleBasis()
			hi, _, _ := params.Hh[n].(*TElem).SingleBasis()
			names = append(names, fmt.Sprintf("sL[%d]", n), fmt.Sprintf("sR[%d]", n))
			vals = append(vals, S.Coef(gi), S.Coef(hi))
		}
		if !pl.add(c, "aggregated range proof", names, vals) {
			return
		}
		if drawn < len(vals)*(N.BitLen()/8-1) {
			c.Violate("aggregated range proof: %d blinding values were made from %d random bytes only", len(vals), drawn)
			return
		}
		c.Event("entropy_checked")
		c.Eval("multi", b, m, k, proof.A.String())
	}
	pl.judge(c, "aggregated range proof")
}

func c11sigma(c *Ctx, i int) {
	gff, gec := TField(), TCurve()
	p, ok := sigmaOrViolate(c, 16, []uint16{128, 224, 64}[i%3], 256, gff, gec)
	if !ok {
		return
	}
	hf, _, _ := p.GFF.H.(*TElem).SingleBasis()
	he, _, _ := p.GEC.H.(*TElem).SingleBasis()
	plF, plE := newPool(gff.N()), newPool(gec.N())
	m := []*big.Int{B(0), B(65535), B(1234)}[i%3]
	rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
	ks := map[string]bool{}
	lo, hi := zRange(p)
	for k := 0; k < 200; k++ {
		pf, _, ok := proveSigma(c, p, m, rp, r1, r2, "transparent")
		if !ok {
			return
		}
		// commitments of the first move: W = t G, Kp = k G + t H, Kq = k G + t' H
		if !plF.add(c, "consistency proof", []string{"W", "Kp (integer)"}[:1], []*big.Int{pf.W.(*TElem).Coef(0)}) {
			return
		}
		if pf.Kp.(*TElem).Coef(hf).Cmp(pf.W.(*TElem).Coef(0)) != 0 {
			c.Violate("consistency proof: W and Kp do not use the same randomness")
			return
		}
		if !plE.add(c, "consistency proof", []string{"Kq1", "Kq2"}, []*big.Int{pf.Kq1.(*TElem).Coef(he), pf.Kq2.(*TElem).Coef(he)}) {
			return
		}
		kk := Sub(pf.Z, Mul(pf.Challenge, m))
		if kk.Sign() < 0 || kk.Cmp(hi) >= 0 {
			c.Violate("consistency proof: integer blinding %v outside of [0,2^%d)", kk, hi.BitLen()-1)
			return
		}
		if ks[kk.String()] {
			c.Violate("consistency proof: integer blinding used twice")
			return
		}
		ks[kk.String()] = true
		// the three commitments contain the same integer
		for _, e := range []group.Element{pf.Kp, pf.Kq1, pf.Kq2} {
			t := e.(*TElem)
			if Mod(Sub(t.Coef(0), kk), t.GroupOrder()).Sign() != 0 {
				c.Violate("consistency proof: commitments contain different integers")
				return
			}
		}
		for _, l := range []*big.Int{pf.Sp, pf.Sq1, pf.Sq2} {
			if ks[l.String()] {
				c.Violate("consistency proof: response used twice")
				return
			}
			ks[l.String()] = true
		}
		_ = lo
	}
	plF.judge(c, "consistency proof")
	plE.judge(c, "consistency proof")
}

// c11independent: every blinding value has randomness of its own.
func c11independent(c *Ctx, i int) {
	g := TCurve()
	N := g.N()
	bl := func(out *[]Blinding, name string, x *big.Int) {
		*out = append(*out, Blinding{name, x, N.BitLen()})
	}
	vecs := func(out *[]Blinding, params bp.BulletProofSetupParams, A, S, T1, T2 group.Element) {
		hb, _, _ := params.H.(*TElem).SingleBasis()
		for n, e := range []group.Element{A, S, T1, T2} {
			bl(out, []string{"A", "S", "T1", "T2"}[n], e.(*TElem).Coef(hb))
		}
		for n := range params.Gg {
			gi, _, _ := params.Gg[n].(*TElem).SingleBasis()
			hi, _, _ := params.Hh[n].(*TElem).SingleBasis()
			bl(out, fmt.Sprintf("sL[%d]", n), S.(*TElem).Coef(gi))
			bl(out, fmt.Sprintf("sR[%d]", n), S.(*TElem).Coef(hi))
		}
	}
	b := []int64{2, 4, 16, 256}[i%4]
	params := mustBP(c, b, g)
	hb, _, _ := params.H.(*TElem).SingleBasis()
	v := RandMod(c.R, B(b))
	if !Independent(c, fmt.Sprintf("range proof in [0,%d)", b), []any{c.Seed, "bp", i}, func() (out []Blinding, ok bool) {
		pn, _ := Safe(func() {
			pf, _, err := bp.Prove(Cp(v), params)
			if err != nil {
				return
			}
			bl(&out, "V", pf.V.(*TElem).Coef(hb))
			vecs(&out, params, pf.A, pf.S, pf.T1, pf.T2)
			ok = true
		})
		return out, ok && pn == nil
	}) {
		return
	}
	for _, m := range divisors(params.N) {
		vs := vecValues(c, params.N/int64(m), m, 2)
		if !Independent(c, fmt.Sprintf("aggregated range proof of %d values, %d bits", m, params.N), []any{c.Seed, "multi", i, m}, func() (out []Blinding, ok bool) {
			pn, _ := Safe(func() {
				in := make([]*big.Int, m)
				for j := range vs {
					in[j] = Cp(vs[j])
				}
				pf, _, err := bp.MultiProve(in, params)
				if err != nil {
					return
				}
				for j, V := range pf.Vs {
					bl(&out, fmt.Sprintf("Vs[%d]", j), V.(*TElem).Coef(hb))
				}
				vecs(&out, params, pf.A, pf.S, pf.T1, pf.T2)
				ok = true
			})
			return out, ok && pn == nil
		}) {
			return
		}
	}
	gff := TField()
	p, ok := sigmaOrViolate(c, 16, []uint16{128, 224, 64, 200}[i%4], 256, gff, g)
	if !ok {
		return
	}
	he, _, _ := p.GEC.H.(*TElem).SingleBasis()
	m := RandMod(c.R, B(65536))
	rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, N), RandMod(c.R, N)
	_, hi := zRange(p)
	Independent(c, "consistency proof", []any{c.Seed, "sigma", i}, func() (out []Blinding, ok bool) {
		pn, _ := Safe(func() {
			c.Tape.Op(4000)
			pf := voteproof.Prove(Cp(m), Cp(rp), Cp(r1), Cp(r2), p)
			c.Tape.Op(0)
			out = append(out, Blinding{"W", pf.W.(*TElem).Coef(0), gff.N().BitLen()})
			bl(&out, "Kq1", pf.Kq1.(*TElem).Coef(he))
			bl(&out, "Kq2", pf.Kq2.(*TElem).Coef(he))
			out = append(out, Blinding{"the integer", Sub(pf.Z, Mul(pf.Challenge, m)), hi.BitLen() - 1})
			ok = true
		})
		return out, ok && pn == nil
	})
}

// c11response samples the integer response for extreme secrets.
func c11response(c *Ctx, bb int, bc uint16) {
	gff, gec := TField(), TCurve()
	bx := uint8(8)
	p, ok := sigmaOrViolate(c, bx, bc, uint16(int(bx)+int(bc)+bb+1), gff, gec)
	if !ok {
		return
	}
	lo, hi := zRange(p)
	runs := 700
	if c.Thorough() {
		runs = 6000
	}
	for _, m := range []*big.Int{B(0), B(255), B(128)} {
		bins := make([]int, 16)
		low := make([]int, 16)
		rp, r1, r2 := RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		for k := 0; k < runs; k++ {
			c.Tape.Op(4 * 400)
			var pf voteproof.SigmaProof
			pn, st := Safe(func() { pf = voteproof.Prove(m, rp, r1, r2, p) })
			c.Tape.Op(0)
			if pn != nil {
				c.Violate("proving secret %v (x=%d c=%d b=%d) fails: %v [%s]", m, bx, bc, bb, pn, st)
				return
			}
			if pf.Z.Cmp(lo) < 0 || pf.Z.Cmp(hi) >= 0 {
				c.Violate("secret %v: published response %x outside of [2^%d,2^%d)", m, pf.Z, lo.BitLen()-1, hi.BitLen()-1)
				return
			}
			if pf.Challenge.Sign() < 0 || pf.Challenge.BitLen() > int(bc) {
				c.Violate("challenge %x is longer than the agreed %d bits", pf.Challenge, bc)
				return
			}
			bins[int(new(big.Int).Div(Mul(Sub(pf.Z, lo), B(16)), Sub(hi, lo)).Int64())]++
			low[int(pf.Z.Bit(0)|pf.Z.Bit(1)<<1|pf.Z.Bit(2)<<2|pf.Z.Bit(3)<<3)]++
			c.Event("response_sampled")
		}
		if chi2(bins) < 1e-12 {
			c.Violate("responses for secret %v (x=%d c=%d b=%d) are not uniform over the interval: %v", m, bx, bc, bb, bins)
			return
		}
		if chi2(low) < 1e-12 {
			c.Violate("low bits of the responses for secret %v (x=%d c=%d b=%d) are not uniform: %v", m, bx, bc, bb, low)
			return
		}
		c.Eval("response", bb, bc, m, bins)
	}
	c.Sample(map[string]any{"slack": bb, "challenge": bc, "samples_per_secret": runs})
}

// ---------------- C18 ----------------

func c18(tier string) []Case {
	var cs []Case
	for _, gn := range bpGroups {
		gn := gn
		cs = append(cs, Case{"range/" + gn, func(c *Ctx) { c18range(c, gn) }})
	}
	for _, bg := range []int{1, 2, 8, 16, 17, 18, 25, 26, 64, 128, 200, 240, 241, 242, 248, 255, 256} {
		bg := bg
		cs = append(cs, Case{fmt.Sprintf("sigma/%d", bg), func(c *Ctx) { c18sigma(c, bg) }})
	}
	for _, bg := range []int{300, 383, 384} {
		bg := bg
		cs = append(cs, Case{fmt.Sprintf("sigma/%d", bg), func(c *Ctx) { c18sigma(c, bg) }})
	}
	return cs
}

func c18range(c *Ctx, gn string) {
	g := bpGroup(gn)
	good := map[int64]bool{}
	for _, b := range bpEnds {
		good[b] = true
	}
	cand := []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 128, 255, 256, 257, 512, 1024, 65535, 65536, 65537, 1 << 20, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 48, 1 << 62, math.MaxInt64, math.MaxInt64 - 1, -1, -2, -4, -16, -256, -65536, -(1 << 32), math.MinInt64, math.MinInt64 + 1, -3}
	for s := 0; s < 63; s++ {
		cand = append(cand, 1<<s, -(1 << s), 1<<s+1, 1<<s-1, 3<<s)
	}
	for i := 0; i < 40; i++ {
		cand = append(cand, int64(c.R.Uint64()), int64(c.R.Uint64()>>c.R.IntN(64)))
	}
	seen := map[int64]bool{}
	for _, b := range cand {
		if seen[b] {
			continue
		}
		seen[b] = true
		var p bp.BulletProofSetupParams
		var err error
		pn, st := Safe(func() { p, err = bp.Setup(b, g) })
		if pn != nil {
			c.Violate("%s: range setup crashes for range end %d: %v [%s]", gn, b, pn, st)
			return
		}
		c.Event("setup_judged")
		c.Eval("range", gn, b)
		if (err == nil) != good[b] {
			c.Violate("%s: range setup for range end %d: error %v", gn, b, err)
			return
		}
		if err != nil {
			continue
		}
		if Pow2(int(p.N)).Cmp(B(b)) != 0 || len(p.Gg) != int(p.N) || len(p.Hh) != int(p.N) || p.GP == nil || p.G == nil || p.H == nil {
			c.Violate("%s: parameters for range end %d describe 2^%d with %d/%d bases", gn, b, p.N, len(p.Gg), len(p.Hh))
			return
		}
		if !p.G.IsEqual(g.Generator()) {
			c.Violate("%s: parameters for range end %d do not contain the group generator", gn, b)
			return
		}
		if _, ok := proveOne(c, p, RandMod(c.R, B(b)), gn); !ok {
			return
		}
		c.Event("accepted_exercised")
	}
}

func c18sigma(c *Ctx, bg int) {
	gff, gec := NewTGroup("ff", RFCGroup().N()), NewTGroup("ec", StdOrder["P-384"])
	bxs := []int{0, 1, 2, 8, 16, 32, 64, 100, 128, 200, 240, 255}
	bcs := []int{0, 1, 7, 8, 9, 16, 64, 128, 200, 224, 239, 240, 248, 255, 256, 257, 264, 300, 512, 1000, 32768, 65279, 65280, 65300, 65400, 65500, 65520, 65528, 65534, 65535}
	for i := 0; i < 3; i++ {
		bxs = append(bxs, c.R.IntN(256))
		bcs = append(bcs, c.R.IntN(300))
	}
	// the boundary of the slack
	for _, bx := range bxs {
		for _, d := range []int{-1, 0, 1, 2} {
			if bc := bg - 1 - bx - d; bc >= 0 {
				bcs = append(bcs, bc)
			}
		}
	}
	for _, bx := range bxs {
		for _, bc := range bcs {
			var p voteproof.ProofParams
			var err error
			rg := setupRanges[c.R.IntN(len(setupRanges))]
			pn, st := Safe(func() { p, err = sigmaSetupFor(uint8(bx), uint16(bc), uint16(bg), rg[0], rg[1], gff, gec) })
			if pn != nil {
				c.Violate("consistency-proof setup crashes for x=%d c=%d order length %d: %v [%s]", bx, bc, bg, pn, st)
				return
			}
			c.Event("setup_judged")
			c.Eval("sigma", bg, bx, bc)
			bb := bg - 1 - bx - bc
			if err == nil && bb < 1 {
				c.Violate("consistency-proof setup accepts x=%d c=%d although no slack is left in an order of %d bits", bx, bc, bg)
				return
			}
			if err == nil && bc > 256 {
				c.Violate("consistency-proof setup accepts x=%d c=%d (order length %d) although the challenge hash has 256 bits", bx, bc, bg)
				return
			}
			if err != nil {
				if bb >= 1 && bc >= 8 && bc <= 256 && bx >= 1 {
					c.Violate("consistency-proof setup refuses x=%d c=%d b=%d (order length %d): %v", bx, bc, bb, bg, err)
					return
				}
				continue
			}
			if p.Bb != bb || int(p.Bx) != bx || int(p.Bc) != bc || int(p.Bg) != bg || p.RangeLo != rg[0] || p.RangeHi != rg[1] || p.GFF.I == nil || p.GEC.I == nil {
				c.Violate("consistency-proof setup for x=%d c=%d order length %d, candidates [%d,%d] returns x=%d c=%d b=%d, candidates [%d,%d]", bx, bc, bg, rg[0], rg[1], p.Bx, p.Bc, p.Bb, p.RangeLo, p.RangeHi)
				return
			}
			if c.R.IntN(3) > 0 && !c.Thorough() && bb > 1 && bc != 256 {
				continue
			}
			m := RandMod(c.R, Pow2(bx))
			if _, _, ok := proveSigma(c, p, m, RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N()), "transparent"); !ok {
				return
			}
			c.Event("accepted_exercised")
		}
	}
}
