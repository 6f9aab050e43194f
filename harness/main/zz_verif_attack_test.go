package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	zzbp "github.com/takakv/msc-poc/bulletproofs"
	zzgroup "github.com/takakv/msc-poc/group"
	zzvp "github.com/takakv/msc-poc/voteproof"
	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	zz_checks = append(zz_checks,
		zzv.Check{Prop: "C03", Rule: "ballots built with the real provers for false statements: values below/above the range, shifted and exchanged bounds, values equal only modulo 2^16 or the proof group's order, parts about different values, in which as few parts as possible are wrong (one failing part per family, controls with none); accepted => decryption inside the range and all parts about that value", Together: []string{"transparent/", "real/"}, Rounds: 3, Cases: zz_c03, Require: map[string]int{"attack_rejected": 1500, "control_accepted": 60, "single_fault_attack": 300, "coincidence_tries": 50000}, Prefer: map[string]int{"forged_range_proof": 1000}},
		zzv.Check{Prop: "C04", Rule: "accepted ballots with one component altered, exchanged or spliced from another ballot, or re-randomised with responses adjusted to match (over the transparent groups also repaired from the observed verification equations); must be rejected", Together: []string{"mutants/transparent/", "special/", "mutants/"}, Cases: zz_c04, Require: map[string]int{"altered_rejected": 2000, "rerandomised_rejected": 100}, Prefer: map[string]int{"patched_rejected": 2000}},
		zzv.Check{Prop: "C05", Rule: "wire-format ballots proven for false statements under attacker-chosen parameters that are embedded in the ballot (weak challenge/slack lengths, known or trivial bases, other bounds, other inner-product generators, other orders); must be rejected by decode+verify; the same alterations on honest ballots must not matter to the verdict being the collector's", Together: []string{"honest/", "range/transparent/", "sigma/transparent/"}, Rounds: 3, Cases: zz_c05, Require: map[string]int{"foreign_params_rejected": 200, "attack_accepted_under_own_params": 20, "control_accepted": 8}},
	)
}

// zz_spec says what the parts of a ballot are about.
type zz_spec struct {
	m      *big.Int // encrypted value
	a, b   *big.Int // values of the lower and the upper range proof
	s      *big.Int // secret of the consistency proof
	pl, pu zzbp.BulletProofSetupParams
	rp     zzvp.ProofParams // parameters of the consistency proof
	wiring int              // which blinding factors the consistency proof uses
	clean  bool             // embedded parameters replaced by the collector's
	r      *big.Int         // encryption randomness, nil: random
	dup    int              // 1: the lower proof stands in for the upper one too, 2: the other way round
}

// zz_forge builds a ballot with the real provers.
func (e *zz_elec) forge(c *zzv.Ctx, s zz_spec) (bd BallotData, ok bool) {
	pn, _ := zzv.Safe(func() {
		c.Tape.Op(600)
		defer c.Tape.Op(0)
		G := e.pp.FFGroupParams.I
		N := e.pp.ECGroupParams.N
		r := zzv.RandNZ(c.R, e.pp.FFGroupParams.N)
		if s.r != nil {
			r = zzv.Cp(s.r)
		}
		bd.Ballot.U = G.Element().BaseScale(r)
		bd.Ballot.V = G.Element().Add(G.Element().BaseScale(zzv.Mod(s.m, e.pp.FFGroupParams.N)), G.Element().Scale(e.pp.EGPK, r))
		lo, r1, err := zzbp.Prove(zzv.Cp(s.a), s.pl)
		if err != nil || r1 == nil {
			return
		}
		up, r2, err := zzbp.Prove(zzv.Cp(s.b), s.pu)
		if err != nil || r2 == nil {
			return
		}
		switch s.dup {
		case 1:
			up, r2 = lo, r1
		case 2:
			lo, r1 = up, r2
		}
		n2 := zzv.Sub(N, r2)
		x, y := r1, n2
		switch s.wiring {
		case 1:
			y = r1
		case 2:
			x = n2
		case 3:
			y = r2
		case 4:
			x, y = n2, r1
		case 5:
			x, y = zzv.B(0), zzv.B(0)
		case 6:
			x = zzv.Sub(N, r1)
		}
		c.Tape.Op(600)
		vp := zzvp.Prove(zzv.Cp(s.s), r, x, y, s.rp)
		bd.BpLower, bd.BpUpper, bd.VoteProof = lo, up, vp
		ok = true
	})
	if pn != nil {
		c.Event("forgery_impossible")
		return bd, false
	}
	if ok && s.clean {
		bd.BpLower.Params = e.pp.BPParams
		bd.BpUpper.Params = e.pp.BPParams
		bd.VoteProof.Params = e.pp.RPParams
	}
	return bd, ok
}

func (e *zz_elec) spec(m int64) zz_spec {
	return zz_spec{m: zzv.B(m), a: zzv.B(m - int64(e.lo)), b: zzv.B(int64(e.hi) - m), s: zzv.B(m), pl: e.pp.BPParams, pu: e.pp.BPParams, rp: e.pp.RPParams, clean: true}
}

// judge: acceptance of a ballot whose parts are known.
func (e *zz_elec) judgeFalse(c *zzv.Ctx, what string, s zz_spec, wire bool) bool {
	bd, ok := e.forge(c, s)
	if !ok {
		return true
	}
	acc := e.accepted(c, bd)
	if wire {
		acc = e.acceptedWire(c, bd) || acc
	}
	if acc {
		m, dec := e.plain(bd.Ballot)
		in := dec && m >= int(e.lo) && m <= int(e.hi)
		N := e.pp.ECGroupParams.N
		same := in && zzv.Mod(zzv.Sub(s.a, zzv.B(int64(m)-int64(e.lo))), N).Sign() == 0 && zzv.Mod(zzv.Sub(s.b, zzv.B(int64(e.hi)-int64(m))), N).Sign() == 0
		if !same {
			c.Violate("%s: accepted a ballot (%s) that encrypts %v with range proofs about %v and %v", e.Name, what, s.m, zz_short(s.a), zz_short(s.b))
			return false
		}
		c.Event("true_statement_accepted")
	} else {
		c.Event("attack_rejected")
	}
	c.Eval(e.Name, what, s.m, s.a, s.b, s.s, s.wiring)
	return true
}

func zz_short(x *big.Int) string {
	t := x.String()
	if len(t) > 24 {
		return t[:20] + "..."
	}
	return t
}

func zz_c03(tier string) []zzv.Case {
	cs := zz_rush("C03", tier)
	n := 36
	if tier == "thorough" {
		n = 600
	}
	for i := 0; i < n; i++ {
		i := i
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("transparent/%d", i), Run: func(c *zzv.Ctx) { zz_c03run(c, "transparent", "transparent", i) }})
	}
	for rel := 0; rel < 4; rel++ {
		for _, how := range []string{"statement", "identity", "K identity", "K copy", "K negated", "K generator"} {
			if how == "identity" && rel > 1 {
				continue
			}
			rel, how := rel, how
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("coincidence/%d/%s", rel, how), Run: func(c *zzv.Ctx) { zz_c03coincidence(c, rel, how) }})
		}
	}
	fs := 2
	if tier == "thorough" {
		fs = 20
	}
	for part := 0; part < 5; part++ {
		for _, low := range []bool{true, false} {
			for i := 0; i < fs; i++ {
				part, low, i := part, low, i
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("forged/%d/%v/%d", part, low, i), Run: func(c *zzv.Ctx) { zz_c03forged(c, part, low, i) }})
			}
		}
	}
	for i := 0; i < 4; i++ {
		for _, ec := range zzv.CurveNames {
			if i > 1 && ec == "P-384" && tier == "quick" {
				continue
			}
			ec, i := ec, i
			ff := []string{"modp512", "rfc", "modp1024", "modp512"}[i]
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("real/%s/%d", ec, i), Run: func(c *zzv.Ctx) { zz_c03run(c, ec, ff, i) }})
		}
	}
	return cs
}

// zz_c03coincidence: valid range proofs and a consistency proof in which exactly one relation fails while other
// values coincide or are trivial. Short challenges, tried until the challenge fits by chance.
func zz_c03coincidence(c *zzv.Ctx, rel int, how string) {
	rg := []zz_range{{5, 8}, {0, 3}, {7, 7}, {65530, 65533}}[c.R.IntN(4)]
	e := zz_election(c, "transparent", "transparent", rg.lo, rg.hi, zz_opt{bc: 8, bp: 4})
	lo, hi := int64(rg.lo), int64(rg.hi)
	ff, ec := e.pp.RPParams.GFF, e.pp.RPParams.GEC
	zl := zzv.Pow2(int(e.pp.RPParams.Bx) + int(e.pp.RPParams.Bc))
	zh := zzv.Pow2(int(e.pp.RPParams.Bx) + int(e.pp.RPParams.Bc) + e.pp.RPParams.Bb)
	ped := func(gp zzvp.GroupParameters, m, r *big.Int) zzgroup.Element {
		return gp.I.Element().Add(gp.I.Element().BaseScale(m), gp.I.Element().Scale(gp.H, r))
	}
	tries := 1100
	if c.Thorough() {
		tries = 3000
	}
	for _, su := range []string{"", "Sq1=Sq2", "Sp=Sq1", "Sp=Sq2", "Sp=0", "Sq1=0", "Sq2=0", "Z=lo", "Z=hi-1", "one range proof", "Sp=Z", "ch=1", "Sp long", "Sq1 long", "Sq2 long", "Sp negative", "Sq1 negative", "Sq2 negative", "all small"} {
		m := lo + c.R.Int64N(hi-lo+1)
		sp := e.spec(m)
		if su == "one range proof" {
			sp.dup, sp.b = 1, sp.a
		}
		// the parts that are wrong: value or randomness, in the statement only
		dm, r := zzv.B([]int64{1, -1, 4, 65536, 3}[c.R.IntN(5)]), zzv.RandNZ(c.R, ff.N)
		var bd BallotData
		ok := false
		pn, _ := zzv.Safe(func() {
			lp, _, err1 := zzbp.Prove(sp.a, e.pp.BPParams)
			up, _, err2 := zzbp.Prove(sp.b, e.pp.BPParams)
			if sp.dup == 1 {
				up = lp
			}
			bd.BpLower, bd.BpUpper, ok = lp, up, err1 == nil && err2 == nil
		})
		if pn != nil || !ok {
			continue
		}
		Y, Xp := ff.I.Element().BaseScale(r), ped(ff, zzv.B(m), r)
		Xq1 := ec.I.Element().Add(ec.I.Element().BaseScale(zzv.B(lo)), bd.BpLower.V)
		Xq2 := ec.I.Element().Subtract(ec.I.Element().BaseScale(zzv.B(hi)), bd.BpUpper.V)
		bd.Ballot.U, bd.Ballot.V = Y, Xp
		if how == "statement" {
			switch rel {
			case 0:
				bd.Ballot.U = ff.I.Element().Add(Y, ff.I.Generator())
			case 1:
				bd.Ballot.V = ff.I.Element().Add(Xp, ff.I.Element().BaseScale(dm))
			case 2:
				Xq1 = ec.I.Element().Add(Xq1, ec.I.Element().BaseScale(dm))
			case 3:
				Xq2 = ec.I.Element().Add(Xq2, ec.I.Element().BaseScale(dm))
			}
		} else if how == "identity" && rel < 2 {
			if rel == 0 {
				bd.Ballot.U = ff.I.Identity()
			} else {
				bd.Ballot.V = ff.I.Identity()
			}
		}
		for t := 0; t < tries; t++ {
			z := zzv.Add(zl, zzv.RandMod(c.R, zzv.Sub(zh, zl)))
			ch := zzv.B(1 + int64(c.R.IntN(255)))
			s0, s1, s2 := zzv.RandMod(c.R, ec.N), zzv.RandMod(c.R, ec.N), zzv.RandMod(c.R, ec.N)
			switch su {
			case "Sq1=Sq2":
				s2 = s1
			case "Sp=Sq1":
				s0 = s1
			case "Sp=Sq2":
				s0 = s2
			case "Sp=0":
				s0 = zzv.B(0)
			case "Sq1=0":
				s1 = zzv.B(0)
			case "Sq2=0":
				s2 = zzv.B(0)
			case "Z=lo":
				z = zl
			case "Z=hi-1":
				z = zzv.Sub(zh, zzv.B(1))
			case "Sp=Z":
				s0 = z
			case "ch=1":
				ch = zzv.B(1)
			default:
				s0, s1, s2 = zzv.OddResponse(c.R, su, "Sp", s0, ff.N), zzv.OddResponse(c.R, su, "Sq1", s1, ec.N), zzv.OddResponse(c.R, su, "Sq2", s2, ec.N)
			}
			sub := func(g zzgroup.Group, a, x zzgroup.Element) zzgroup.Element {
				return g.Element().Subtract(a, g.Element().Scale(x, ch))
			}
			K := []zzgroup.Element{sub(ff.I, ff.I.Element().BaseScale(s0), Y), sub(ff.I, ped(ff, z, s0), Xp), sub(ec.I, ped(ec, z, s1), Xq1), sub(ec.I, ped(ec, z, s2), Xq2)}
			was := K[rel]
			if su == "one range proof" && how == "statement" && rel == 3 {
				// as built
			} else {
				g := ff.I
				if rel > 1 {
					g = ec.I
				}
				switch how {
				case "K identity":
					K[rel] = g.Identity()
				case "K copy":
					K[rel] = K[rel^1]
				case "K negated":
					K[rel] = g.Element().Negate(K[rel])
				case "K generator":
					K[rel] = g.Generator()
				}
				if how[0] == 'K' && K[rel].IsEqual(was) {
					continue
				}
			}
			bd.VoteProof = zzvp.SigmaProof{Params: e.pp.RPParams}
			bd.VoteProof.W, bd.VoteProof.Kp, bd.VoteProof.Kq1, bd.VoteProof.Kq2 = K[0], K[1], K[2], K[3]
			bd.VoteProof.Challenge, bd.VoteProof.Z, bd.VoteProof.Sp, bd.VoteProof.Sq1, bd.VoteProof.Sq2 = ch, z, s0, s1, s2
			if e.accepted(c, bd) {
				c.Violate("%s: accepted a ballot whose relation %d fails (%s; %s)", e.Name, rel, how, su)
				return
			}
			c.Event("coincidence_tries")
		}
		c.Eval(e.Name, "coincidence", rel, how, su)
	}
}

// zz_c03forged: a ballot for a value outside the range, consistent in everything, in which the false range proof
// comes from the adversarial prover.
func zz_c03forged(c *zzv.Ctx, part int, low bool, i int) {
	rg := []zz_range{{101, 2000}, {1000, 60000}, {32768, 65534}, {2, 3}, {256, 511}}[i%5]
	e := zz_election(c, "transparent", "transparent", rg.lo, rg.hi, zz_opt{})
	m := int64(rg.hi) + 1
	if low {
		m = int64(rg.lo) - 1
	}
	if i >= 5 {
		if low {
			m = int64(c.R.IntN(int(rg.lo)))
		} else {
			m = int64(rg.hi) + 1 + int64(c.R.IntN(65535-int(rg.hi)))
		}
	}
	s := e.spec(m)
	G, N := e.pp.FFGroupParams.I, e.pp.ECGroupParams.N
	r := zzv.RandNZ(c.R, e.pp.FFGroupParams.N)
	var bd BallotData
	bd.Ballot.U = G.Element().BaseScale(r)
	bd.Ballot.V = G.Element().Add(G.Element().BaseScale(s.m), G.Element().Scale(e.pp.EGPK, r))
	gamma := zzv.RandNZ(c.R, N)
	ok := false
	pn, st := zzv.Safe(func() {
		c.Tape.Op(1200)
		defer c.Tape.Op(0)
		r1, r2 := gamma, gamma
		var err error
		value := s.a
		if low {
			bd.BpUpper, r2, err = zzbp.Prove(zzv.Cp(s.b), e.pp.BPParams)
		} else {
			value = s.b
			bd.BpLower, r1, err = zzbp.Prove(zzv.Cp(s.a), e.pp.BPParams)
		}
		if err != nil {
			return
		}
		bd.VoteProof = zzvp.Prove(zzv.Cp(s.s), r, r1, zzv.Sub(N, r2), e.pp.RPParams)
		c.Tape.Op(0)
		ok = true
		k := 0
		zzbp.ZZForgeries(c, e.pp.BPParams, value, gamma, part, func(how string, pf zzbp.BulletProof) bool {
			x := bd
			if low {
				x.BpLower = pf
			} else {
				x.BpUpper = pf
			}
			k++
			if e.accepted(c, x) || (k%16 == 0 && e.acceptedWire(c, x)) {
				c.Violate("%s: accepted a ballot for %d; its range proof for %v is forged: %s", e.Name, m, value, how)
				return true
			}
			c.Event("attack_rejected")
			c.Event("forged_range_proof")
			c.Eval(e.Name, "forged", m, how)
			return false
		})
	})
	if pn != nil || !ok {
		c.Event("forgery_impossible")
		_ = st
	}
}

// mixRangeProofs: a consistent ballot for m outside the range, in which the false range proof borrows single
// components, pairs of them, or all but its commitment from the true one.
func (e *zz_elec) mixRangeProofs(c *zzv.Ctx, m int64, real bool) bool {
	bd, ok := e.forge(c, e.spec(m))
	if !ok {
		return true
	}
	low := m < int64(e.lo) // the lower proof is the false one
	pick := func(b *BallotData) (f, t *zzbp.BulletProof) {
		if low {
			return &b.BpLower, &b.BpUpper
		}
		return &b.BpUpper, &b.BpLower
	}
	n := 0
	{
		f, _ := pick(&bd)
		n = len(zzv.Leaves(f, false))
	}
	try := func(what string, sel func(i int, path string) bool) bool {
		x := zzv.Clone(bd)
		f, t := pick(x)
		fl, tl := zzv.Leaves(f, false), zzv.Leaves(t, false)
		if len(fl) != len(tl) {
			return true
		}
		for i := range fl {
			if fl[i].Path == "V" || !sel(i, fl[i].Path) {
				continue
			}
			if fl[i].Elem != nil {
				fl[i].SetElem(tl[i].Elem)
			} else {
				fl[i].SetInt(tl[i].Int)
			}
			what += " " + fl[i].Path
		}
		if e.accepted(c, *x) {
			c.Violate("%s: accepted a ballot for %d whose false range proof has from the other one:%s", e.Name, m, what)
			return false
		}
		c.Event("attack_rejected")
		c.Event("borrowed_components")
		c.Eval(e.Name, "borrowed", m, what)
		return true
	}
	if !real {
		for k := 0; k < n; k++ {
			if !try("", func(i int, _ string) bool { return i == k }) || !try(" (all but one)", func(i int, _ string) bool { return i != k }) {
				return false
			}
		}
	}
	for k := 0; k < 3; k++ {
		a, b := c.R.IntN(n), c.R.IntN(n)
		if !try("", func(i int, _ string) bool { return i == a || i == b }) {
			return false
		}
	}
	return try("", func(int, string) bool { return true })
}

func zz_c03run(c *zzv.Ctx, ec, ff string, i int) {
	rgs := []zz_range{{101, 2000}, {101, 101}, {1000, 60000}, {1, 65534}, {32768, 65534}, {0, 65535}, {256, 511}, {2, 3}, {20000, 20001}, {0, 100},
		{101, 65535}, {1, 65535}, {65535, 65535}, {0, 0}, {0, 65534}, {65534, 65535}, {0, 1}, {1, 1}, {32767, 32768}, {4096, 65535}, {0, 32767}, {101, 32868}}
	rg := rgs[i%len(rgs)]
	if i >= len(rgs) {
		lo := uint16(c.R.IntN(60000))
		rg = zz_range{lo, lo + uint16(c.R.IntN(5535))}
	}
	real := ec != "transparent"
	e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
	lo, hi := int64(rg.lo), int64(rg.hi)
	N := e.pp.ECGroupParams.N
	cost := 2
	if ec == "P-384" || ff == "rfc" {
		cost = 5
	}
	lim := func(n int) bool { return !real || c.R.IntN(cost*n) == 0 || (c.Thorough() && c.R.IntN(n) == 0) }
	// controls: the factory makes acceptable ballots
	for _, m := range []int64{lo, hi, lo + (hi-lo)/2} {
		bd, ok := e.forge(c, e.spec(m))
		if !ok || !e.accepted(c, bd) {
			c.Violate("%s: a ballot for candidate %d built with the program's provers is rejected", e.Name, m)
			return
		}
		c.Event("control_accepted")
	}
	out := []int64{lo - 1, hi + 1, lo - 2, hi + 2, 0, 65535, -1, 65536, lo - 65536, hi + 65536, lo - (hi - lo) - 1, lo - 101, hi + 100, lo / 2, lo + 65536, hi - 65536, lo - 32768}
	var bad []int64
	for _, m := range out {
		if m < lo || m > hi {
			bad = append(bad, m)
		}
	}
	if real {
		c.R.Shuffle(len(bad), func(a, b int) { bad[a], bad[b] = bad[b], bad[a] })
		bad = bad[:min(len(bad), 6-cost)]
		for _, m := range []int64{lo - 1, hi + 1} {
			bad = append(bad, m)
		}
	}
	sfault := func() { c.Event("single_fault_attack") }
	for _, m := range bad {
		// 1. everything consistent: exactly the range proof(s) on the violated side are false
		if !e.judgeFalse(c, "consistent out-of-range value", e.spec(m), real && lim(2)) {
			return
		}
		sfault()
		// 2. the out-of-range side shows a valid range proof about something else
		for _, x := range []int64{0, 1, 65535, lo, hi, hi - lo, m & 0xffff} {
			if x < 0 || x > 65535 || !lim(6) {
				continue
			}
			for _, w := range []int{0, 1, 2, 3, 4, 5, 6} {
				if !lim(5) || (w > 0 && c.R.IntN(2) == 0) {
					continue
				}
				s := e.spec(m)
				s.wiring = w
				if m < lo {
					s.a = zzv.B(x)
				} else {
					s.b = zzv.B(x)
				}
				if !e.judgeFalse(c, fmt.Sprintf("valid range proof about another value, wiring %d", w), s, false) {
					return
				}
			}
		}
		// 3. proofs about shifted bounds: both range proofs valid
		for _, s1 := range []int64{0, 1, lo - 1, lo + 1, hi, -lo, lo & 255, lo >> 8, lo + 65536, lo - 65536, 2 * lo} {
			for _, s2 := range []int64{hi, 65535, hi + 1, hi - 1, 65536, lo, 0, hi + 65536, 2 * hi, hi | 255} {
				if m-s1 < 0 || m-s1 > 65535 || s2-m < 0 || s2-m > 65535 || !lim(12) {
					continue
				}
				s := e.spec(m)
				s.a, s.b = zzv.B(m-s1), zzv.B(s2-m)
				if !e.judgeFalse(c, fmt.Sprintf("bounds %d and %d", s1, s2), s, false) {
					return
				}
				sfault()
			}
		}
		// one range proof in both places
		for dup := 1; dup <= 2; dup++ {
			for _, w := range []int{0, 1, 2, 3} {
				if !lim(2) {
					continue
				}
				s := e.spec(m)
				s.dup, s.wiring = dup, w
				if dup == 1 {
					s.b = s.a
				} else {
					s.a = s.b
				}
				if !e.judgeFalse(c, "one range proof in both places", s, false) {
					return
				}
			}
		}
		// components of the true range proof in the place of those of the false one
		if m == lo-1 || m == hi+1 || c.Thorough() {
			if !e.mixRangeProofs(c, m, real) {
				return
			}
		}
		// upper proof about m itself / lower about the negated value
		for _, f := range []func(s *zz_spec){
			func(s *zz_spec) { s.b = zzv.B(m) },
			func(s *zz_spec) { s.b = zzv.B(m - hi) },
			func(s *zz_spec) { s.a = zzv.B(lo - m) },
			func(s *zz_spec) { s.a, s.b = s.b, s.a },
			func(s *zz_spec) { s.a = zzv.Cp(s.b) },
			func(s *zz_spec) { s.b = zzv.Cp(s.a) },
			func(s *zz_spec) { s.b = zzv.Cp(s.a); s.wiring = 1 },
			func(s *zz_spec) { s.a = zzv.Cp(s.b); s.wiring = 2 },
		} {
			if !lim(1) {
				continue
			}
			s := e.spec(m)
			f(&s)
			if !e.judgeFalse(c, "rearranged values", s, false) {
				return
			}
		}
	}
	// 4. ciphertext about another value than the (valid) range proofs
	for _, in := range []int64{lo, hi, lo + c.R.Int64N(hi-lo+1)} {
		if !lim(2) {
			continue
		}
		for _, d := range []*big.Int{zzv.B(1), zzv.B(-1), zzv.B(65536), zzv.B(-65536), N, zzv.Neg(N), zzv.Mul(N, zzv.B(3)), zzv.B(hi - lo + 1), zzv.RandNZ(c.R, N)} {
			for _, sec := range []bool{false, true} {
				s := e.spec(in)
				s.m = zzv.Add(s.m, d)
				if sec {
					s.s = s.m
				}
				if s.m.Sign() < 0 && e.tff == nil {
					s.m = zzv.Mod(s.m, e.pp.FFGroupParams.N)
				}
				if !lim(3) {
					continue
				}
				if !e.judgeFalse(c, "ciphertext off by "+zz_short(d), s, false) {
					return
				}
			}
		}
		// equal modulo the order of the proof group only: provable if the response may be larger
		for _, t := range []int64{1, 2, 65537} {
			for _, bb := range []int{30, 60, 100} {
				if real && !c.Thorough() && (bb != 60 || t == 2) {
					continue
				}
				s := e.spec(in)
				s.m = zzv.Add(s.m, zzv.Mul(N, zzv.B(t)))
				s.s = zzv.Cp(s.m)
				s.rp.Bb = e.pp.RPParams.Bb + N.BitLen() + bb
				if s.rp.Bb+240 >= e.pp.FFGroupParams.N.BitLen() && e.tff == nil && ff != "rfc" && ff != "modp1024" {
					continue
				}
				if !e.judgeFalse(c, fmt.Sprintf("value plus %d times the proof group's order, %d extra bits of slack", t, bb), s, false) {
					return
				}
				sfault()
			}
		}
		// a response above the interval for a true value: not a false statement, but parts proven for other bounds
		// 5. range proofs over another range
		for _, b := range []int64{2, 4, 16, 256, 1 << 32} {
			if !lim(3) {
				continue
			}
			pr, err := zzbp.Setup(b, e.pp.ECGroupParams.I)
			if err != nil {
				continue
			}
			for _, m := range []int64{lo - 1, hi + 1, in} {
				s := e.spec(m)
				if m < lo || c.R.IntN(2) == 0 {
					s.pl = pr
					s.a = zzv.Mod(s.a, zzv.B(b))
				}
				if m > hi || c.R.IntN(2) == 0 {
					s.pu = pr
					s.b = zzv.Mod(s.b, zzv.B(b))
				}
				if !e.judgeFalse(c, fmt.Sprintf("range proof for [0,%d)", b), s, real) {
					return
				}
			}
		}
	}
	// 6. parts of two honest ballots for different candidates
	if hi > lo {
		m1, m2 := lo, hi
		b1, ok1 := e.forge(c, e.spec(m1))
		b2, ok2 := e.forge(c, e.spec(m2))
		if ok1 && ok2 {
			for mask := 1; mask < 15; mask++ {
				if !lim(3) {
					continue
				}
				x := b1
				if mask&1 != 0 {
					x.Ballot = b2.Ballot
				}
				if mask&2 != 0 {
					x.BpLower = b2.BpLower
				}
				if mask&4 != 0 {
					x.BpUpper = b2.BpUpper
				}
				if mask&8 != 0 {
					x.VoteProof = b2.VoteProof
				}
				if e.accepted(c, x) {
					c.Violate("%s: accepted a mixture (mask %d) of ballots for %d and %d", e.Name, mask, m1, m2)
					return
				}
				c.Event("attack_rejected")
				c.Eval(e.Name, "mixture", mask)
			}
		}
	}
	// 7. exchanged range proofs of a true ballot
	if bd, ok := e.forge(c, e.spec(lo)); ok && hi > lo {
		bd.BpLower, bd.BpUpper = bd.BpUpper, bd.BpLower
		if e.accepted(c, bd) {
			c.Violate("%s: accepted a ballot with exchanged range proofs", e.Name)
			return
		}
		c.Event("attack_rejected")
	}
	c.Sample(map[string]any{"election": e.Name, "out_of_range_values": fmt.Sprint(bad)})
}

// ---------------- C04 ----------------

func zz_c04(tier string) []zzv.Case {
	cs := append(zz_together("C04", tier), zz_rush("C04", tier)...)
	n, full := 12, 2
	if tier == "thorough" {
		n, full = 100, 10
	}
	for i := 0; i < n; i++ {
		i := i
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("mutants/transparent/%d", i), Run: func(c *zzv.Ctx) { zz_c04mutants(c, "transparent", "transparent", i, 0, 1) }})
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("rerandomise/transparent/%d", i), Run: func(c *zzv.Ctx) { zz_c04rerandomise(c, "transparent", "transparent", i) }})
	}
	for _, k := range zz_c04kinds {
		for _, ec := range append([]string{"transparent"}, zzv.CurveNames...) {
			k, ec := k, ec
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("special/%s/%s", k, ec), Run: func(c *zzv.Ctx) { zz_c04special(c, k, ec) }})
		}
	}
	for i := 0; i < 16; i++ {
		i := i
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("repair/transparent/%d", i), Run: func(c *zzv.Ctx) { zz_c04repair(c, i) }})
	}
	for _, ec := range zzv.CurveNames {
		for i := 0; i < full; i++ {
			ff := []string{"modp512", "rfc"}[i%2]
			for part := 0; part < 4; part++ {
				ec, i, part := ec, i, part
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("mutants/%s/%d/%d", ec, i, part), Run: func(c *zzv.Ctx) { zz_c04mutants(c, ec, ff, i, part, 4) }})
			}
			ec, i := ec, i
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("rerandomise/%s/%d", ec, i), Run: func(c *zzv.Ctx) { zz_c04rerandomise(c, ec, ff, i) }})
		}
	}
	return cs
}

func (e *zz_elec) twoBallots(c *zzv.Ctx) (a, b BallotData, ok bool) {
	a, ok = e.castJudged(c)
	if !ok {
		return
	}
	b, ok = e.castJudged(c)
	return
}

// zz_c04mutants alters, exchanges and splices components; part/parts selects a share of the (many) variants.
func zz_c04mutants(c *zzv.Ctx, ec, ff string, i, part, parts int) {
	rg := []zz_range{{101, 2000}, {0, 65535}, {500, 500}, {1000, 1001}}[i%4]
	e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
	c.Tape.Reseed(c.Seed, ec, ff, i)
	a, b, ok := e.twoBallots(c)
	if !ok {
		return
	}
	real := ec != "transparent"
	k := 0
	try := func(what string, m *BallotData) {
		k++
		if k%parts != part {
			return
		}
		if real && !c.Thorough() && k%3 != int(c.Seed%3) && i > 0 {
			return
		}
		if e.accepted(c, *m) {
			c.Violate("%s: ballot with altered component (%s) is accepted", e.Name, what)
			return
		}
		c.Event("altered_rejected")
		c.Eval(e.Name, what, a.VoteProof.Z)
	}
	zzv.Mutants(c, a, e.groups(), !real, func(n string, m *BallotData) { try(n, m) })
	if i%4 != 2 || real { // ballots for the same candidate are equally bound
		zzv.Splices(a, b, func(n string, m *BallotData) { try(n, m) })
	}
	twins := 24
	if real {
		twins = 6
	}
	zzv.Twins(c, a, e.groups(), twins, func(n string, m *BallotData) { try(n, m) })
	swaps := 0
	zzv.Swaps(c, a, func(n string, m *BallotData) {
		swaps++
		// all exchanges between corresponding components of the two range proofs and a sample of the others
		if !real || swaps%17 == i%17 {
			if !real && swaps%4 != i%4 {
				return
			}
			try(n, m)
		}
	})
	// whole parts
	for mask := 1; mask < 15; mask++ {
		x := a
		if mask&1 != 0 {
			x.Ballot = b.Ballot
		}
		if mask&2 != 0 {
			x.BpLower = b.BpLower
		}
		if mask&4 != 0 {
			x.BpUpper = b.BpUpper
		}
		if mask&8 != 0 {
			x.VoteProof = b.VoteProof
		}
		try(fmt.Sprintf("parts %04b of another ballot", mask), &x)
	}
	x := a
	x.BpLower, x.BpUpper = a.BpUpper, a.BpLower
	try("exchanged range proofs", &x)
	x = a
	x.BpLower.InnerProductProof = a.BpUpper.InnerProductProof
	try("inner-product part of the other range proof", &x)
	x = a
	x.BpUpper.InnerProductProof = b.BpUpper.InnerProductProof
	try("inner-product part of another ballot", &x)
	x = a
	x.VoteProof.SigmaCommit = b.VoteProof.SigmaCommit
	try("consistency commitments of another ballot", &x)
	x = a
	x.VoteProof.SigmaResponse = b.VoteProof.SigmaResponse
	try("consistency responses of another ballot", &x)
	// lists of the inner-product parts
	for _, up := range []bool{false, true} {
		for _, f := range []func(p *zzbp.InnerProductProof){
			func(p *zzbp.InnerProductProof) { p.L, p.R = p.R, p.L },
			func(p *zzbp.InnerProductProof) { p.L, p.R = p.L[1:], p.R[1:] },
			func(p *zzbp.InnerProductProof) { p.L, p.R = p.L[:len(p.L)-1], p.R[:len(p.R)-1] },
			func(p *zzbp.InnerProductProof) { p.L, p.R = p.L[:0], p.R[:0] },
			func(p *zzbp.InnerProductProof) {
				g := e.pp.ECGroupParams.I
				p.L, p.R = append(p.L, g.Identity()), append(p.R, g.Identity())
			},
			func(p *zzbp.InnerProductProof) {
				for q, r := 0, len(p.L)-1; q < r; q, r = q+1, r-1 {
					p.L[q], p.L[r] = p.L[r], p.L[q]
					p.R[q], p.R[r] = p.R[r], p.R[q]
				}
			},
		} {
			y := zzv.Clone(a)
			if up {
				f(&y.BpUpper.InnerProductProof)
			} else {
				f(&y.BpLower.InnerProductProof)
			}
			try(fmt.Sprintf("inner-product rounds (upper: %v)", up), y)
		}
	}
}

var zz_c04kinds = []string{"twin", "twin bits", "no randomness", "randomness 1", "randomness -1", "candidate 0", "one candidate"}

// zz_c04special alters ballots with something special about them: the same range proof for both bounds, degenerate randomness.
func zz_c04special(c *zzv.Ctx, kind, ec string) {
	rg := zz_range{101, 2001}
	switch kind {
	case "twin bits":
		rg = zz_range{0, 65534}
	case "candidate 0":
		rg = zz_range{0, 9}
	case "one candidate":
		rg = zz_range{77, 77}
	}
	ff := "modp512"
	if ec == "transparent" {
		ff = ec
	}
	e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
	s := e.spec((int64(rg.lo) + int64(rg.hi)) / 2)
	switch kind {
	case "twin", "twin bits":
		s.dup = 1
	case "one candidate":
		s.dup = 2
	case "no randomness":
		s.r = zzv.B(0)
	case "randomness 1":
		s.r = zzv.B(1)
	case "randomness -1":
		s.r = zzv.Sub(e.pp.FFGroupParams.N, zzv.B(1))
	case "candidate 0":
		s = e.spec(0)
		s.r = zzv.B(1)
	}
	a, ok := e.forge(c, s)
	if !ok || !e.accepted(c, a) {
		c.Event("special_ballot_rejected")
		return
	}
	c.Event("special_ballot_accepted")
	k := 0
	try := func(what string, m *BallotData) {
		k++
		if ec != "transparent" && !c.Thorough() && c.R.IntN(12) > 0 {
			return
		}
		if e.accepted(c, *m) {
			c.Violate("%s: ballot (%s) with altered component (%s) is accepted", e.Name, kind, what)
			return
		}
		c.Event("altered_rejected")
		c.Eval(e.Name, kind, what, a.VoteProof.Z)
	}
	zzv.Mutants(c, a, e.groups(), false, func(n string, m *BallotData) { try(n, m) })
	if s.dup > 0 { // both places changed alike
		n := len(zzv.Leaves(zzv.Clone(a.BpLower), false))
		for i := 0; i < n; i++ {
			l := zzv.Leaves(zzv.Clone(a.BpLower), false)[i]
			m := zzv.Clone(a)
			for _, bp := range []*zzbp.BulletProof{&m.BpLower, &m.BpUpper} {
				if t := zzv.Leaves(bp, false)[i]; l.Elem != nil {
					g := e.pp.ECGroupParams.I
					t.SetElem(g.Element().Add(l.Elem, g.Generator()))
				} else {
					t.SetInt(zzv.Add(l.Int, zzv.B(1)))
				}
			}
			try(l.Path+" of both range proofs", m)
		}
	}
}

// zz_c04rerandomise: the classic malleability attacks.
func zz_c04rerandomise(c *zzv.Ctx, ec, ff string, i int) {
	rg := []zz_range{{101, 2000}, {0, 65535}, {500, 500}, {1000, 1001}}[i%4]
	e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
	a, b, ok := e.twoBallots(c)
	if !ok {
		return
	}
	F, E := e.pp.FFGroupParams, e.pp.ECGroupParams
	fi, ei := F.I, E.I
	ch := a.VoteProof.Challenge
	try := func(what string, x BallotData) {
		for _, t := range []BallotData{x} {
			if e.accepted(c, t) {
				c.Violate("%s: %s is accepted", e.Name, what)
				return
			}
		}
		c.Event("rerandomised_rejected")
		c.Eval(e.Name, what, a.VoteProof.Z)
	}
	deltas := []*big.Int{zzv.B(1), zzv.B(-1), zzv.RandNZ(c.R, E.N)}
	if ec != "transparent" {
		deltas = deltas[1:]
	}
	for _, d := range deltas {
		x := a
		x.Ballot.U = fi.Element().Add(a.Ballot.U, fi.Element().BaseScale(d))
		x.Ballot.V = fi.Element().Add(a.Ballot.V, fi.Element().Scale(e.pp.EGPK, d))
		try("re-randomised ciphertext", x)
		x.VoteProof.Sp = zzv.Mod(zzv.Add(a.VoteProof.Sp, zzv.Mul(ch, d)), F.N)
		try("re-randomised ciphertext with adjusted response", x)
		x = a
		x.VoteProof.Sp = zzv.Mod(zzv.Add(a.VoteProof.Sp, d), F.N)
		x.VoteProof.W = fi.Element().Add(a.VoteProof.W, fi.Element().BaseScale(d))
		x.VoteProof.Kp = fi.Element().Add(a.VoteProof.Kp, fi.Element().Scale(e.pp.EGPK, d))
		try("re-randomised first move with adjusted response", x)
		// another vote: ciphertext and commitments shifted together
		x = a
		x.Ballot.V = fi.Element().Add(a.Ballot.V, fi.Element().BaseScale(d))
		x.BpLower.V = ei.Element().Add(a.BpLower.V, ei.Element().BaseScale(d))
		x.BpUpper.V = ei.Element().Subtract(a.BpUpper.V, ei.Element().BaseScale(d))
		try("shifted vote", x)
		x.VoteProof.Z = zzv.Add(a.VoteProof.Z, zzv.Mul(ch, d))
		try("shifted vote with adjusted response", x)
		x = a
		x.VoteProof.Z = zzv.Add(a.VoteProof.Z, d)
		x.VoteProof.Kp = fi.Element().Add(a.VoteProof.Kp, fi.Element().BaseScale(d))
		x.VoteProof.Kq1 = ei.Element().Add(a.VoteProof.Kq1, ei.Element().BaseScale(d))
		x.VoteProof.Kq2 = ei.Element().Add(a.VoteProof.Kq2, ei.Element().BaseScale(d))
		try("shifted integer response", x)
		// re-randomised commitments
		for side := 0; side < 2; side++ {
			x = a
			hd := ei.Element().Scale(E.H, d)
			if side == 0 {
				x.BpLower.V = ei.Element().Add(a.BpLower.V, hd)
				x.VoteProof.Sq1 = zzv.Mod(zzv.Add(a.VoteProof.Sq1, zzv.Mul(ch, d)), E.N)
			} else {
				x.BpUpper.V = ei.Element().Add(a.BpUpper.V, hd)
				x.VoteProof.Sq2 = zzv.Mod(zzv.Sub(a.VoteProof.Sq2, zzv.Mul(ch, d)), E.N)
			}
			try("re-randomised commitment with adjusted response", x)
			x = a
			if side == 0 {
				x.VoteProof.Kq1 = ei.Element().Add(a.VoteProof.Kq1, hd)
				x.VoteProof.Sq1 = zzv.Mod(zzv.Add(a.VoteProof.Sq1, d), E.N)
			} else {
				x.VoteProof.Kq2 = ei.Element().Add(a.VoteProof.Kq2, hd)
				x.VoteProof.Sq2 = zzv.Mod(zzv.Add(a.VoteProof.Sq2, d), E.N)
			}
			try("re-randomised consistency commitment with adjusted response", x)
			// inside a range proof: A and S masks against Mu, T masks against Taux
			y := zzv.Clone(a)
			p := &y.BpLower
			if side == 1 {
				p = &y.BpUpper
			}
			p.A = ei.Element().Add(p.A, hd)
			p.Mu = zzv.Mod(zzv.Add(p.Mu, d), E.N)
			try("re-randomised A with adjusted Mu", *y)
			y = zzv.Clone(a)
			p = &y.BpLower
			if side == 1 {
				p = &y.BpUpper
			}
			p.InnerProductProof.A, p.InnerProductProof.B = zzv.MulM(p.InnerProductProof.A, zzv.B(2), E.N), zzv.MulM(p.InnerProductProof.B, zzv.Inv(zzv.B(2), E.N), E.N)
			try("rescaled final scalars of the inner product", *y)
		}
		// combination of two accepted ballots
		x = a
		x.Ballot.U = fi.Element().Add(a.Ballot.U, b.Ballot.U)
		x.Ballot.V = fi.Element().Add(a.Ballot.V, b.Ballot.V)
		try("sum of two ciphertexts", x)
		x = a
		x.Ballot = b.Ballot
		x.VoteProof = b.VoteProof
		try("ciphertext and consistency proof of another ballot", x)
	}
	// challenge replaced and everything else refitted to it
	x := a
	nc := zzv.Add(ch, zzv.B(1))
	x.VoteProof.Challenge = nc
	x.VoteProof.W = fi.Element().Subtract(a.VoteProof.W, a.Ballot.U)
	x.VoteProof.Kp = fi.Element().Subtract(a.VoteProof.Kp, a.Ballot.V)
	xq1 := ei.Element().Add(ei.Element().BaseScale(zzv.B(int64(rg.lo))), a.BpLower.V)
	xq2 := ei.Element().Subtract(ei.Element().BaseScale(zzv.B(int64(rg.hi))), a.BpUpper.V)
	x.VoteProof.Kq1 = ei.Element().Subtract(a.VoteProof.Kq1, xq1)
	x.VoteProof.Kq2 = ei.Element().Subtract(a.VoteProof.Kq2, xq2)
	try("transcript refitted to another challenge", x)
}

// zz_c04repair alters one component and then tries to repair every other from the failing equations.
func zz_c04repair(c *zzv.Ctx, i int) {
	e := zz_election(c, "transparent", "transparent", 101, 2000, zz_opt{bp: 65536})
	a, _, ok := e.twoBallots(c)
	if !ok {
		return
	}
	ls := zzv.Leaves(zzv.Clone(a), false)
	gs := []*zzv.TGroup{e.tec, e.tff}
	per := 3
	if c.Thorough() {
		per = 20
	}
	for k := 0; k < per; k++ {
		j := (i*per + k*7 + int(c.Seed)) % len(ls)
		l := ls[j]
		m := zzv.Clone(a)
		ml := zzv.Leaves(m, false)[j]
		if l.Elem != nil {
			g := zzgroup.Group(e.tec)
			if !zzv.SameGroupElem(l.Elem, g.Element()) {
				g = e.tff
			}
			ml.SetElem(g.Element().Add(l.Elem, g.Element().BaseScale(zzv.RandNZ(c.R, g.N()))))
		} else {
			ml.SetInt(zzv.Add(l.Int, zzv.B(1)))
		}
		zzv.Patches(c, gs, *m, func(p *BallotData) func() (bool, error) {
			return func() (bool, error) { return zz_verify(*p, e.pp), nil }
		}, func(path string, r *BallotData) {
			if path != l.Path {
				c.Violate("%s: %s altered and %s fitted afterwards: the ballot is accepted", e.Name, l.Path, path)
			}
		})
		c.Eval("repair", l.Path)
	}
}

// ---------------- C05 ----------------

func zz_c05(tier string) []zzv.Case {
	var cs []zzv.Case
	n := 2
	if tier == "thorough" {
		n = 20
	}
	for r := 0; r < n; r++ {
		for _, ec := range zzv.CurveNames {
			ec, r := ec, r
			ff := []string{"modp1024", "rfc"}[r%2]
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("sigma/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c05sigma(c, ec, ff) }})
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("range/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c05range(c, ec, ff) }})
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("honest/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c05honest(c, ec, ff) }})
		}
		for k := 0; k < 6; k++ {
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("sigma/transparent/%d/%d", k, r), Run: func(c *zzv.Ctx) { zz_c05sigma(c, "transparent", "transparent") }})
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("range/transparent/%d/%d", k, r), Run: func(c *zzv.Ctx) { zz_c05range(c, "transparent", "transparent") }})
		}
	}
	return cs
}

// zz_c05sigma: false statements proven under embedded consistency-proof parameters.
func zz_c05sigma(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	N := e.pp.ECGroupParams.N
	FN := e.pp.FFGroupParams.N
	type atk struct {
		name string
		f    func(s *zz_spec)
	}
	gff := e.pp.FFGroupParams.I
	far := func(s *zz_spec) { s.m = zzv.B(5); s.s = zzv.B(5) } // below the range, range proofs about an in-range vote
	atks := []atk{
		// m + N: equal to a valid vote only in the proof group; the embedded slack admits the response
		{"huge embedded slack", func(s *zz_spec) {
			s.m = zzv.Add(s.m, N)
			s.s = s.m
			s.rp.Bb = N.BitLen() + 80
		}},
		// no challenge bits: nothing needs to be proven
		{"embedded challenge length 0", func(s *zz_spec) { far(s); s.rp.Bc = 0; s.rp.Bb += 224 }},
		// commitment base with known logarithm / identity in the proof group
		{"embedded commitment base of known logarithm", func(s *zz_spec) {}},
		{"embedded election key = identity", func(s *zz_spec) { s.rp.GFF.H = gff.Identity() }},
		{"embedded election key = generator", func(s *zz_spec) { s.rp.GFF.H = gff.Generator() }},
		{"embedded bounds 0..65535", func(s *zz_spec) {
			s.m, s.s = zzv.B(5), zzv.B(5)
			s.a, s.b = zzv.B(5), zzv.B(65530)
			s.rp.RangeLo, s.rp.RangeHi = 0, 65535
		}},
		{"embedded lower bound", func(s *zz_spec) {
			s.m, s.s = zzv.B(5), zzv.B(5)
			s.a, s.b = zzv.B(3), zzv.B(int64(e.hi)-5)
			s.rp.RangeLo = 2
		}},
		{"embedded upper bound", func(s *zz_spec) {
			s.m, s.s = zzv.B(30000), zzv.B(30000)
			s.a, s.b = zzv.B(30000-int64(e.lo)), zzv.B(7)
			s.rp.RangeHi = 30007
		}},
		{"embedded challenge length 0, slack as usual", func(s *zz_spec) { far(s); s.rp.Bc = 0 }},
		{"embedded secret length, slack as usual", func(s *zz_spec) { s.m = zzv.Add(s.m, N); s.s = s.m; s.rp.Bx = 255 }},
		{"embedded commitment base between two commitments", func(s *zz_spec) {}},
		{"embedded secret length", func(s *zz_spec) { s.m = zzv.Add(s.m, N); s.s = s.m; s.rp.Bx = 255; s.rp.Bb = N.BitLen() + 80 }},
	}
	for _, a := range atks {
		s := e.spec(500)
		s.clean = false
		a.f(&s)
		bd, ok := e.forge(c, s)
		if !ok {
			continue
		}
		// How the attack completes under the embedded parameters.
		switch a.name {
		case "embedded challenge length 0", "embedded challenge length 0, slack as usual":
			// any statement: commitments fitted for the empty challenge, which is 0
			bd.VoteProof.Challenge = zzv.B(0)
		case "embedded commitment base between two commitments":
			if bd, ok = zz_c05between(c, e, s); !ok {
				c.Event("attack_not_built")
				continue
			}
		case "embedded commitment base of known logarithm", "embedded election key = identity", "embedded election key = generator":
			bd = zz_c05known(c, e, a.name, s)
		}
		// Would a collector that trusts the embedded parameters accept? (shows that the attack is a real one)
		if zz_c05trusting(c, e, bd, s) {
			c.Event("attack_accepted_under_own_params")
		} else {
			c.Event("attack_weak: " + a.name)
		}
		if _, in := e.plain(bd.Ballot); in {
			if m, _ := e.plain(bd.Ballot); m >= 101 && m <= 2000 {
				zzv.Bug("attack %s is not about a false statement", a.name)
			}
		}
		acc := e.accepted(c, bd)
		if ec != "transparent" || true {
			acc = e.acceptedWire(c, bd) || acc
		}
		if acc {
			c.Violate("%s: a ballot for no candidate is accepted because of its own %s", e.Name, a.name)
			return
		}
		c.Event("foreign_params_rejected")
		c.Eval(e.Name, a.name, bd.VoteProof.Z)
	}
	_ = FN
}

// zz_c05known builds a ballot for a false statement whose consistency proof holds for bases known to the attacker.
func zz_c05known(c *zzv.Ctx, e *zz_elec, name string, s zz_spec) BallotData {
	G := e.pp.FFGroupParams.I
	var bd BallotData
	switch name {
	case "embedded commitment base of known logarithm":
		// H' = 7G everywhere in the proof group: the range proofs open to in-range values, the consistency proof
		// opens the same commitments to another value.
		N := e.pp.ECGroupParams.N
		seven := zzv.B(7)
		h := e.pp.ECGroupParams.I.Element().BaseScale(seven)
		pr := e.pp.BPParams
		pr.H = h
		r := zzv.RandNZ(c.R, e.pp.FFGroupParams.N)
		m := zzv.B(5)
		lo, r1, err1 := zzbp.Prove(zzv.B(3), pr)
		up, r2, err2 := zzbp.Prove(zzv.B(4), pr)
		if err1 != nil || err2 != nil {
			zzv.Bug("cannot prove")
		}
		// lo + 3 + 7 r1 = 5 + 7 x;  hi - 4 - 7 r2 = 5 + 7 y
		x := zzv.Mod(zzv.Add(r1, zzv.MulM(zzv.B(int64(e.lo)+3-5), zzv.Inv(seven, N), N)), N)
		y := zzv.Mod(zzv.Add(zzv.Neg(r2), zzv.MulM(zzv.B(int64(e.hi)-4-5), zzv.Inv(seven, N), N)), N)
		rp := s.rp
		rp.GEC.H = h
		bd.Ballot.U = G.Element().BaseScale(r)
		bd.Ballot.V = G.Element().Add(G.Element().BaseScale(m), G.Element().Scale(e.pp.EGPK, r))
		bd.BpLower, bd.BpUpper = lo, up
		bd.VoteProof = zzvp.Prove(m, r, x, y, rp)
	default:
		// ElGamal key replaced: the proof shows V = m*G + r*H' only for H'; the ciphertext is made for H'.
		r := zzv.RandNZ(c.R, e.pp.FFGroupParams.N)
		b, ok := e.forge(c, s)
		if !ok {
			zzv.Bug("cannot forge")
		}
		bd = b
		bd.Ballot.U = G.Element().BaseScale(r)
		bd.Ballot.V = G.Element().Add(G.Element().BaseScale(s.s), G.Element().Scale(s.rp.GFF.H, r))
		// prove with the same randomness: rebuild the whole consistency proof
		lo, r1, err1 := zzbp.Prove(zzv.Cp(s.a), s.pl)
		up, r2, err2 := zzbp.Prove(zzv.Cp(s.b), s.pu)
		if err1 != nil || err2 != nil {
			zzv.Bug("cannot prove")
		}
		bd.BpLower, bd.BpUpper = lo, up
		bd.VoteProof = zzvp.Prove(zzv.Cp(s.s), r, r1, zzv.Sub(e.pp.ECGroupParams.N, r2), s.rp)
	}
	return bd
}

// zz_c05between: both range-proof commitments, shifted back, are the same element X (the second blinding factor is
// dictated through the randomness source to be minus the first); with the base X - 5G both open to 5.
func zz_c05between(c *zzv.Ctx, e *zz_elec, s zz_spec) (bd BallotData, ok bool) {
	G, ei, N := e.pp.FFGroupParams.I, e.pp.ECGroupParams.I, e.pp.ECGroupParams.N
	defer func() { c.Tape.Inject = nil }()
	pn, _ := zzv.Safe(func() {
		v := zzv.B(500)
		lo, r1, err := zzbp.Prove(zzv.Sub(v, zzv.B(int64(e.lo))), e.pp.BPParams)
		if err != nil {
			return
		}
		want := zzv.Mod(zzv.Neg(r1), N)
		width := (N.BitLen() + 7) / 8
		for pos := 0; pos < 90 && !ok; pos++ {
			n := 0
			c.Tape.Inject = func(size int) []byte {
				n++
				if n-1 == pos && size == width {
					return want.FillBytes(make([]byte, width))
				}
				return nil
			}
			up, r2, err := zzbp.Prove(zzv.Sub(zzv.B(int64(e.hi)), v), e.pp.BPParams)
			c.Tape.Inject = nil
			if err != nil {
				return
			}
			if r2.Cmp(want) != 0 {
				continue
			}
			m := zzv.B(5)
			X := ei.Element().Add(ei.Element().BaseScale(zzv.B(int64(e.lo))), lo.V)
			rp := s.rp
			rp.GEC.H = ei.Element().Subtract(X, ei.Element().BaseScale(m))
			r := zzv.RandNZ(c.R, e.pp.FFGroupParams.N)
			bd.Ballot.U = G.Element().BaseScale(r)
			bd.Ballot.V = G.Element().Add(G.Element().BaseScale(m), G.Element().Scale(e.pp.EGPK, r))
			bd.BpLower, bd.BpUpper = lo, up
			bd.VoteProof = zzvp.Prove(m, r, zzv.B(1), zzv.B(1), rp)
			ok = true
		}
	})
	return bd, ok && pn == nil
}

// zz_c05trusting verifies the parts with the embedded parameters, as a careless collector would.
func zz_c05trusting(c *zzv.Ctx, e *zz_elec, bd BallotData, s zz_spec) bool {
	return zzv.Verdict(c, func() (bool, error) {
		ok1, err := bd.BpLower.Verify()
		if err != nil || !ok1 {
			return false, err
		}
		ok2, err := bd.BpUpper.Verify()
		if err != nil || !ok2 {
			return false, err
		}
		ei := e.pp.ECGroupParams.I
		p := bd.VoteProof.Params
		return bd.VoteProof.Verify(zzvp.VerCommitments{
			Y: bd.Ballot.U, Xp: bd.Ballot.V,
			Xq1: ei.Element().Add(ei.Element().BaseScale(zzv.B(int64(p.RangeLo))), bd.BpLower.V),
			Xq2: ei.Element().Subtract(ei.Element().BaseScale(zzv.B(int64(p.RangeHi))), bd.BpUpper.V),
		}), nil
	})
}

// zz_c05range: false range statements proven under embedded range-proof parameters (wire format).
func zz_c05range(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	ei := e.pp.ECGroupParams.I
	own := e.pp.BPParams
	type atk struct {
		name string
		m    int64
		mk   func() (zzbp.BulletProofSetupParams, *big.Int, bool) // parameters and the value to prove
	}
	wide, err := zzbp.Setup(1<<32, ei)
	if err != nil {
		zzv.Bug("setup: %v", err)
	}
	atks := []atk{
		{"wider embedded range", 65536 + 300, func() (zzbp.BulletProofSetupParams, *big.Int, bool) { return wide, zzv.B(65536 + 300 - 101), true }},
		{"embedded commitment base with known logarithm", 5, func() (zzbp.BulletProofSetupParams, *big.Int, bool) {
			p := own
			p.H = ei.Element().BaseScale(zzv.B(7))
			return p, zzv.B(3), true
		}},
		{"embedded generators all equal", 5, func() (zzbp.BulletProofSetupParams, *big.Int, bool) {
			p := own
			p.Gg, p.Hh = nil, nil
			for range own.Gg {
				p.Gg = append(p.Gg, ei.Generator())
				p.Hh = append(p.Hh, ei.Generator())
			}
			return p, zzv.B(3), true
		}},
		{"embedded generators identity", 5, func() (zzbp.BulletProofSetupParams, *big.Int, bool) {
			p := own
			p.Gg, p.Hh = nil, nil
			for range own.Gg {
				p.Gg = append(p.Gg, ei.Identity())
				p.Hh = append(p.Hh, ei.Identity())
			}
			return p, zzv.B(3), true
		}},
	}
	for _, a := range atks {
		pr, v, ok := a.mk()
		if !ok {
			continue
		}
		var bd BallotData
		pn, _ := zzv.Safe(func() {
			s := e.spec(500)
			s.pl = pr
			s.a = v
			s.clean = false
			b, ok2 := e.forge(c, s)
			if !ok2 {
				panic("no proof")
			}
			bd = b
		})
		if pn != nil {
			c.Event("forgery_impossible")
			continue
		}
		if zzv.Verdict(c, func() (bool, error) { p := bd.BpLower; return p.Verify() }) {
			c.Event("attack_accepted_under_own_params")
		}
		// the decoded lower proof on its own must not verify under the collector's parameters
		js, err := json.Marshal(bd.BpLower)
		if err != nil {
			zzv.Bug("marshal: %v", err)
		}
		acc := zzv.Verdict(c, func() (bool, error) {
			p, err := zzbp.BulletProofUnmarshalJSON(js, own)
			if err != nil {
				return false, nil
			}
			return p.Verify()
		})
		if acc {
			c.Violate("%s: a range proof made for other parameters (%s) verifies after decoding with the collector's", e.Name, a.name)
			return
		}
		if e.acceptedWire(c, bd) {
			c.Violate("%s: a ballot whose range proof was made for other parameters (%s) is accepted", e.Name, a.name)
			return
		}
		c.Event("foreign_params_rejected")
		c.Eval(e.Name, a.name, bd.VoteProof.Z)
	}
	// inner-product part with its own generators: V is out of range, the inner-product statement is proven for
	// generators of the attacker's choice (see also C08's in-package provers)
	for _, m := range []int64{5, 65536 + 300} {
		s := e.spec(m)
		bd, ok := e.forge(c, s)
		if !ok {
			continue
		}
		good, ok := e.forge(c, e.spec(500))
		if !ok {
			continue
		}
		for k := 0; k < 3; k++ {
			x := zzv.Clone(bd)
			switch k {
			case 0:
				x.BpLower.InnerProductProof = good.BpLower.InnerProductProof
				x.BpUpper.InnerProductProof = good.BpUpper.InnerProductProof
			case 1: // one round less, halved generators
				for _, p := range []*zzbp.InnerProductProof{&x.BpLower.InnerProductProof, &x.BpUpper.InnerProductProof} {
					p.Params.Gg, p.Params.Hh = p.Params.Gg[:8], p.Params.Hh[:8]
					p.L, p.R = p.L[:3], p.R[:3]
				}
			case 2:
				for _, p := range []*zzbp.InnerProductProof{&x.BpLower.InnerProductProof, &x.BpUpper.InnerProductProof} {
					p.Params.Gg, p.Params.Hh = nil, nil
					p.L, p.R = nil, nil
				}
			}
			if e.accepted(c, *x) || e.acceptedWire(c, *x) {
				c.Violate("%s: a ballot for %d with foreign inner-product parameters (%d) is accepted", e.Name, m, k)
				return
			}
			c.Event("foreign_params_rejected")
			c.Eval(e.Name, "ip", m, k)
		}
	}
}

// zz_c05honest: what an honest ballot says about parameters does not change the collector's opinion.
func zz_c05honest(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	bd, ok := e.castJudged(c)
	if !ok {
		return
	}
	if !e.acceptedWire(c, bd) {
		c.Violate("%s: an accepted honest ballot is rejected after the wire round trip", e.Name)
		return
	}
	c.Event("control_accepted")
	other := zz_election(c, ec, ff, 600, 700, zz_opt{})
	ob, ok := e.forge(c, e.spec(650))
	if !ok {
		zzv.Bug("no second ballot")
	}
	ob.VoteProof.Params = other.pp.RPParams
	doc, odoc := zz_encode(c, bd), zz_encode(c, ob)
	if doc == nil || odoc == nil {
		return
	}
	root, oroot := zzv.ParseJSON(doc), zzv.ParseJSON(odoc)
	bad := *zzv.Clone(bd)
	bad.VoteProof.Z = zzv.Add(bad.VoteProof.Z, zzv.B(1))
	badRoot := zzv.ParseJSON(zz_encode(c, bad))
	verdict := func(d []byte) (acc, decoded bool) {
		acc = zzv.Verdict(c, func() (bool, error) {
			b, err := zz_decode(d, e.pp)
			if err != nil {
				return false, nil
			}
			decoded = true
			return zz_verify(b, e.pp), nil
		})
		return
	}
	for _, path := range zzv.JPaths(root) {
		if !strings.Contains("/"+path+"/", "/Params/") || strings.Contains(path, "/GP/") || strings.Contains(path, "/I/") {
			continue
		}
		g := e.pp.ECGroupParams.I
		if strings.Contains(path, "/GFF/") {
			g = e.pp.FFGroupParams.I
		}
		old := zzv.JGet(root, path)
		pat := zzv.JPattern(path)
		last := path[strings.LastIndex(path, "/")+1:]
		var repl []any
		if l := len(path) - len(last) - 1; last == "G" || last == "H" || last == "Uu" || (l > 2 && (strings.HasSuffix(path[:l], "Gg") || strings.HasSuffix(path[:l], "Hh"))) {
			if strings.Contains(pat, "*") && c.R.IntN(24) != 0 {
				continue
			}
			for _, x := range []zzgroup.Element{g.Generator(), g.Identity(), g.Element().BaseScale(zzv.RandNZ(c.R, g.N()))} {
				b, err := json.Marshal(x)
				if err != nil {
					zzv.Bug("%v", err)
				}
				repl = append(repl, zzv.ParseJSON(b))
			}
		} else if n, isNum := old.(json.Number); isNum && strings.ToUpper(last) != "X" && strings.ToUpper(last) != "Y" {
			v, _ := new(big.Int).SetString(n.String(), 10)
			for _, x := range []*big.Int{zzv.B(0), zzv.B(1), zzv.B(200), zzv.Add(v, zzv.B(1)), zzv.Sub(v, zzv.B(1)), new(big.Int).Rsh(v, 1)} {
				if x.Cmp(v) != 0 {
					repl = append(repl, json.Number(x.String()))
				}
			}
		} else if last == "Params" {
			repl = append(repl, zzv.JGet(oroot, path))
		} else if list, isList := old.([]any); isList && len(list) > 1 {
			rev := append([]any{}, list...)
			for i := range rev {
				rev[i] = list[len(list)-1-i]
			}
			repl = append(repl, rev)
		} else {
			continue
		}
		for _, x := range repl {
			acc, decoded := verdict(zzv.JSet(root, path, x, false))
			if !decoded {
				c.Event("claims_refused_by_decoder")
				continue
			}
			if !acc {
				c.Violate("%s: an honest ballot is rejected after changing only the public parameter %s that it carries", e.Name, pat)
				return
			}
			if acc, _ := verdict(zzv.JSet(badRoot, path, x, false)); acc {
				c.Violate("%s: an altered proof is accepted after changing the embedded %s", e.Name, pat)
				return
			}
			c.Event("claims_ignored")
			c.Event("foreign_params_rejected")
			c.Eval(e.Name, pat, bd.VoteProof.Z)
		}
	}
}
