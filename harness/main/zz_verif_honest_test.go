package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"

	zzbp "github.com/takakv/msc-poc/bulletproofs"
	zzgroup "github.com/takakv/msc-poc/group"
	zzvp "github.com/takakv/msc-poc/voteproof"
	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	zz_checks = append(zz_checks,
		zzv.Check{Prop: "C01", Rule: "ballots cast by the program's voter and judged by its collector: four curves and the transparent group x candidate ranges (narrow ones force every edge candidate) x fresh, sparse, small and saturated random tapes; every ballot must be produced within a randomness budget and be accepted in memory, repeatedly, after the wire round trip, and after the collector has seen spoiled copies of it", Together: []string{"real/", "volume/", "history/"}, Cases: zz_c01, Require: map[string]int{"honest_ballot_accepted": 400, "hostile_tape": 60, "spoiled_seen": 100}},
		zzv.Check{Prop: "C02", Rule: "ciphertexts of the program's encryption decrypted by an independent implementation (and read off the transparent group); returned randomness must open both halves, be in [1,N-1], never repeat, be uniform (chi-square), depend on as much of the random tape as it is long, and not appear when the source fails; the voter's choices over narrow and wide ranges must hit every candidate and never leave the range", Together: []string{"choices/", "encrypt/", "real/", "wide/"}, Cases: zz_c02, Require: map[string]int{"ciphertext_decrypted": 1200, "choice_observed": 800, "range_covered": 10, "source_judged": 5}, Prefer: map[string]int{"randomness_faults": 20}},
		zzv.Check{Prop: "C11", Rule: "blinding values of whole ballots over the transparent groups: fresh, full width, unrelated between ciphertext, both range proofs and consistency proof; two ballots for the same candidate share no randomised component (also on real groups)", Cases: zz_c11, Require: map[string]int{"independent_blindings": 50, "ballot_pair_compared": 500, "ballot_blindings": 2000}},
		zzv.Check{Prop: "C18", Rule: "election setup for every curve: all parameter groups compared with the standards, with each other and with what proving needs", Together: []string{"election/"}, Cases: zz_c18, Require: map[string]int{"election_setup_judged": 4}},
	)
}

type zz_range struct{ lo, hi uint16 }

var zz_ranges = []zz_range{{101, 2000}, {0, 65535}, {0, 0}, {65535, 65535}, {1, 1}, {101, 101}, {0, 1}, {65534, 65535}, {32767, 32768}, {255, 256}, {0, 65534}, {1, 65535}, {1000, 1003}, {0, 32767}, {32768, 65535}, {500, 60000}}

func zz_c01(tier string) []zzv.Case {
	cs := append(zz_together("C01", tier), zz_rush("C01", tier)...)
	reps := 1
	if tier == "thorough" {
		reps = 30
	}
	for r := 0; r < reps; r++ {
		for _, ec := range zzv.CurveNames {
			for i, rg := range zz_ranges {
				ec, rg := ec, rg
				ff := []string{"modp512", "rfc", "modp1024"}[(i+r)%3]
				if tier == "quick" && ec == "P-384" && i > 9 {
					continue
				}
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("real/%s/%d-%d/%d", ec, rg.lo, rg.hi, r), Run: func(c *zzv.Ctx) {
					e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
					for k := 0; k < 2; k++ {
						if !zz_c01ballot(c, e, k == 0) {
							return
						}
					}
				}})
			}
			for k := 0; k < 3; k++ {
				ec, k := ec, k
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("tape/%s/%d/%d", ec, k, r), Run: func(c *zzv.Ctx) { zz_c01tape(c, ec, k) }})
			}
			ec := ec
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("program/%s/%d", ec, r), Run: func(c *zzv.Ctx) {
				pp, err := setup(zzv.Curve(ec))
				if err != nil {
					c.Violate("%s: election setup fails: %v", ec, err)
					return
				}
				e := &zz_elec{Name: "program's own election over " + ec, ec: ec, ff: "rfc", pp: pp, sk: zzv.B(13), lo: pp.candidateMin, hi: pp.candidateMax, ref: zzv.RefModP(zzv.RFCPrime(), zzv.B(2))}
				for k := 0; k < 2; k++ {
					if !zz_c01ballot(c, e, true) {
						return
					}
				}
			}})
		}
		for _, ec := range append([]string{"transparent"}, zzv.CurveNames...) {
			ec := ec
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("history/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c01history(c, ec) }})
		}
		for k := 0; k < 4; k++ {
			k := k
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("aborts/%d/%d", k, r), Run: func(c *zzv.Ctx) { zz_c01aborts(c, k) }})
		}
		for k := 0; k < 24; k++ {
			k := k
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("volume/%d/%d", k, r), Run: func(c *zzv.Ctx) {
				n := 12
				for i := 0; i < n; i++ {
					rg := zz_ranges[c.R.IntN(len(zz_ranges))]
					if c.R.IntN(3) == 0 {
						a, b := uint16(c.R.Uint32()), uint16(c.R.Uint32())
						rg = zz_range{min(a, b), max(a, b)}
					}
					e := zz_election(c, "transparent", "transparent", rg.lo, rg.hi, zz_opt{bc: []uint16{224, 128, 64, 16}[k%4]})
					if k%2 == 1 {
						zz_hostile(c, i+k)
					}
					ok := zz_c01ballot(c, e, i%4 == 0)
					c.Tape.Inject = nil
					if !ok {
						return
					}
				}
			}})
		}
	}
	return cs
}

func zz_c01ballot(c *zzv.Ctx, e *zz_elec, wire bool) bool {
	bd, ok := e.castJudged(c)
	if !ok {
		return false
	}
	if !e.accepted(c, bd) {
		c.Violate("%s: an accepted honest ballot is rejected when verified again", e.Name)
		return false
	}
	m, dec := e.plain(bd.Ballot)
	if wire && !(e.tec != nil) {
		if !e.acceptedWire(c, bd) {
			c.Violate("%s: an accepted honest ballot (candidate %d) is rejected after the wire round trip", e.Name, m)
			return false
		}
		c.Event("wire_accepted")
	}
	_ = dec
	c.Eval(e.Name, m, bd.VoteProof.Z)
	c.Sample(map[string]any{"election": e.Name, "candidate": m})
	return true
}

// zz_c01history: honest ballots among spoiled copies of them, which the collector sees first and in between.
func zz_c01history(c *zzv.Ctx, ec string) {
	ff, n, ballots := "modp512", 6, 2
	if ec == "transparent" {
		ff, n, ballots = ec, 40, 8
	}
	rg := zz_ranges[c.R.IntN(len(zz_ranges))]
	e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
	var bds []BallotData
	for i := 0; i < ballots; i++ {
		var bd BallotData
		c.Tape.Op(200000)
		pn, st := zzv.Safe(func() { bd = zz_cast(e.pp) })
		c.Tape.Op(0)
		if pn != nil {
			c.Violate("%s: casting a vote fails: %v [%s]", e.Name, pn, st)
			return
		}
		bds = append(bds, bd)
	}
	for _, when := range []string{"after spoiled copies of it", "after being accepted and more spoiled copies"} {
		for i, bd := range bds {
			for _, s := range zzv.Spoiled(c, bd, e.groups(), n) {
				if e.accepted(c, *s) {
					c.Event("spoiled_accepted") // not for this check to judge
				}
				c.Event("spoiled_seen")
			}
			for _, other := range bds[:i] {
				if c.R.IntN(3) == 0 && !e.accepted(c, other) {
					c.Violate("%s: an honest ballot is rejected after other ballots and spoiled copies of them", e.Name)
					return
				}
			}
			if !e.accepted(c, bd) {
				m, _ := e.plain(bd.Ballot)
				c.Violate("%s: honest ballot (candidate %d) is rejected %s", e.Name, m, when)
				return
			}
			c.Event("honest_ballot_accepted")
			c.Eval(e.Name, when, bd.VoteProof.Z)
		}
	}
}

// zz_c01aborts: ballots whose consistency proof has to be started over many times.
func zz_c01aborts(c *zzv.Ctx, k int) {
	defer func() { c.Tape.Inject = nil }()
	for i, starts := range []int{1, 3, 9, 10, 17, 33, 65, 100, 130, 257} {
		m := []uint16{1, 65535, 101, 2}[(i+k)%4]
		e := zz_election(c, "transparent", "transparent", m, m, zz_opt{bp: 4})
		c.Tape.Reseed(c.Seed, "aborts", k, i)
		if !zz_c01ballot(c, e, false) {
			return
		}
		skip, left := len(c.Tape.Sizes())-4, 4*starts // the last attempt draws the integer and three blinding values
		c.Tape.Reseed(c.Seed, "aborts", k, i)
		c.Tape.Inject = func(n int) []byte {
			if skip > 0 {
				skip--
				return nil
			}
			if left == 0 {
				return nil
			}
			left--
			return []byte{byte(k % 2)}
		}
		ok := zz_c01ballot(c, e, true)
		c.Tape.Inject = nil
		if !ok {
			return
		}
		c.Event("aborts_forced")
	}
}

// zz_hostile makes the random tape extreme: zero, saturated, tiny or repeated draws now and then.
func zz_hostile(c *zzv.Ctx, mode int) { c.Hostile(mode) }

func zz_c01tape(c *zzv.Ctx, ec string, k int) {
	rg := zz_ranges[c.R.IntN(len(zz_ranges))]
	e := zz_election(c, ec, "modp512", rg.lo, rg.hi, zz_opt{})
	for i := 0; i < 2; i++ {
		zz_hostile(c, k*2+i)
		ok := zz_c01ballot(c, e, true)
		c.Tape.Inject = nil
		if !ok {
			return
		}
		c.EventN("hostile_tape", 3)
	}
}

// ---------------- C02 ----------------

func zz_c02(tier string) []zzv.Case {
	cs := append(zz_together("C02", tier), zz_rush("C02", tier)...)
	reps := 1
	if tier == "thorough" {
		reps = 20
	}
	for r := 0; r < reps; r++ {
		for _, ff := range []string{"modp64", "modp256", "modp512", "modp1024", "rfc", "transparent"} {
			for k := 0; k < 4; k++ {
				ff, k := ff, k
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("encrypt/%s/%d/%d", ff, k, r), Run: func(c *zzv.Ctx) { zz_c02encrypt(c, ff, k) }})
			}
		}
		for _, ff := range []string{"modp256", "modp512", "modp1024", "transparent", "rfc"} {
			ff, r := ff, r
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("source/%s/%d", ff, r), Run: func(c *zzv.Ctx) { zz_c02source(c, ff, r) }})
		}
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("distribution/%d", r), Run: func(c *zzv.Ctx) { zz_c02dist(c) }})
		for i, rg := range []zz_range{{101, 104}, {0, 0}, {65535, 65535}, {7, 7}, {0, 1}, {65534, 65535}, {0, 3}, {65533, 65535}, {1, 2}, {255, 257}, {32767, 32769}, {101, 105}} {
			rg := rg
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("choices/%d/%d", i, r), Run: func(c *zzv.Ctx) { zz_c02choices(c, rg) }})
		}
		for i := 0; i < 4; i++ {
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("wide/%d/%d", i, r), Run: func(c *zzv.Ctx) { zz_c02wide(c) }})
		}
		for _, ec := range zzv.CurveNames {
			ec := ec
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("real/%s/%d", ec, r), Run: func(c *zzv.Ctx) {
				lo := uint16(c.R.IntN(65536))
				hi := lo + uint16(c.R.IntN(65536-int(lo)))
				e := zz_election(c, ec, "modp512", lo, hi, zz_opt{})
				for i := 0; i < 2; i++ {
					zz_c02judge(c, e)
				}
			}})
		}
	}
	return cs
}

// zz_c02source: the randomness of an encryption is all drawn, also while the source fails or delivers piecemeal.
func zz_c02source(c *zzv.Ctx, ff string, rep int) {
	ec := "P-256"
	if ff == "transparent" {
		ec = ff
	}
	e := zz_election(c, ec, ff, 0, 65535, zz_opt{})
	choice := uint16(c.R.Uint32())
	N := e.pp.FFGroupParams.N
	zzv.Independent(c, "encryption over "+ff, []any{c.Seed, ff, rep}, func() (out []zzv.Blinding, ok bool) {
		pn, _ := zzv.Safe(func() {
			_, r := zz_encrypt(choice, e.pp)
			if r != nil {
				out, ok = append(out, zzv.Blinding{Name: "encryption randomness", X: zzv.Cp(r), Bits: N.BitLen()}), true
			}
		})
		return out, ok && pn == nil
	})
	c.Event("source_judged")
}

func zz_c02encrypt(c *zzv.Ctx, ff string, k int) {
	choices := []uint16{0, 1, 2, 101, 255, 256, 257, 2000, 32767, 32768, 65534, 65535}
	for i := 0; i < 60; i++ {
		choices = append(choices, uint16(c.R.Uint32()))
	}
	gff := zz_ffGroup(ff)
	N := gff.N()
	sk := []*big.Int{nil, zzv.B(1), zzv.Sub(N, zzv.B(1)), zzv.B(13)}[k%4]
	ec := "P-256"
	bc := uint16(224)
	if ff == "transparent" {
		ec = "transparent"
	}
	e := zz_election(c, ec, ff, 0, 65535, zz_opt{sk: sk, bc: bc})
	seen := map[string]bool{}
	if ff == "rfc" && !c.Thorough() {
		choices = choices[:24]
	}
	for i, m := range choices {
		if i%5 == 4 {
			zz_hostile(c, i)
		}
		var ct ElGamalCiphertext
		var r *big.Int
		c.Tape.Op(2000)
		pn, st := zzv.Safe(func() { ct, r = zz_encrypt(m, e.pp) })
		c.Tape.Op(0)
		hostile := c.Tape.Inject != nil
		c.Tape.Inject = nil
		if pn != nil {
			c.Violate("%s: encrypting %d fails: %v [%s]", ff, m, pn, st)
			return
		}
		if r == nil || r.Sign() <= 0 || r.Cmp(N) >= 0 {
			c.Violate("%s: encryption randomness %v is not in [1,N-1]", ff, r)
			return
		}
		got, ok := e.plain(ct)
		if !ok || got != int(m) {
			c.Violate("%s: ciphertext of %d decrypts to %d (valid: %v)", ff, m, got, ok)
			return
		}
		G := e.pp.FFGroupParams.I
		if !ct.U.IsEqual(G.Element().BaseScale(r)) {
			c.Violate("%s: returned randomness does not open the first half of the ciphertext of %d", ff, m)
			return
		}
		if !ct.V.IsEqual(G.Element().Add(G.Element().BaseScale(zzv.B(int64(m))), G.Element().Scale(e.pp.EGPK, r))) {
			c.Violate("%s: returned randomness does not open the second half of the ciphertext of %d", ff, m)
			return
		}
		if !hostile && ff != "modp64" {
			if seen[r.String()] || seen[ct.U.String()] {
				c.Violate("%s: encryption randomness used twice", ff)
				return
			}
			seen[r.String()], seen[ct.U.String()] = true, true
		}
		c.Event("ciphertext_decrypted")
		c.Eval(ff, k, m, r)
	}
}

// zz_c02dist: randomness is uniform over the whole exponent range.
func zz_c02dist(c *zzv.Ctx) {
	e := zz_election(c, "transparent", "transparent", 0, 65535, zz_opt{})
	N := e.pp.FFGroupParams.N
	n := 4000
	top, low, byMsg := make([]int, 16), make([]int, 16), map[string]bool{}
	bits := make([]int, N.BitLen())
	for i := 0; i < n; i++ {
		before := c.Tape.Bytes()
		ct, r := zz_encrypt(uint16(i), e.pp)
		if d := c.Tape.Bytes() - before; d < N.BitLen()/8-1 {
			c.Violate("encryption randomness of %d bits is made from %d random bytes", N.BitLen(), d)
			return
		}
		if byMsg[r.String()] {
			c.Violate("encryption randomness used twice within %d encryptions", n)
			return
		}
		byMsg[r.String()] = true
		top[new(big.Int).Div(zzv.Mul(r, zzv.B(16)), N).Int64()]++
		low[r.Bit(0)|r.Bit(1)<<1|r.Bit(2)<<2|r.Bit(3)<<3]++
		for b := range bits {
			bits[b] += int(r.Bit(b))
		}
		_ = ct
	}
	if p := zz_chi2(top); p < 1e-12 {
		c.Violate("encryption randomness is not uniform over the exponent range: %v", top)
	}
	if p := zz_chi2(low); p < 1e-12 {
		c.Violate("low bits of the encryption randomness are not uniform: %v", low)
	}
	for b := 0; b < len(bits)-1; b++ {
		// the order of the transparent field group starts with ones, so all lower bits are balanced; 9 sigma
		if d := math.Abs(float64(bits[b]) - float64(n)/2); d > 9*math.Sqrt(float64(n))/2 {
			c.Violate("bit %d of the encryption randomness is set %d times out of %d", b, bits[b], n)
			return
		}
	}
	c.Eval("distribution", top, low)
	c.Event("distribution_judged")
}

func zz_chi2(bins []int) float64 {
	n := 0
	for _, b := range bins {
		n += b
	}
	exp := float64(n) / float64(len(bins))
	x := 0.0
	for _, b := range bins {
		x += (float64(b) - exp) * (float64(b) - exp) / exp
	}
	k := float64(len(bins) - 1)
	// Wilson-Hilferty
	z := (math.Cbrt(x/k) - (1 - 2/(9*k))) / math.Sqrt(2/(9*k))
	return 0.5 * math.Erfc(z/math.Sqrt2)
}

// zz_c02judge casts and reads the choice.
func zz_c02judge(c *zzv.Ctx, e *zz_elec) (int, BallotData, bool) {
	var bd BallotData
	c.Tape.Op(200000)
	pn, st := zzv.Safe(func() { bd = zz_cast(e.pp) })
	c.Tape.Op(0)
	if pn != nil {
		c.Violate("%s: casting a vote fails: %v [%s]", e.Name, pn, st)
		return 0, bd, false
	}
	m, ok := e.plain(bd.Ballot)
	if !ok || m < int(e.lo) || m > int(e.hi) {
		c.Violate("%s: the voter's ballot encrypts %d (valid ciphertext: %v), not a candidate", e.Name, m, ok)
		return m, bd, false
	}
	if e.tec != nil {
		// the range proofs must be about the very same choice
		a, b := bd.BpLower.V.(*zzv.TElem).Coef(0), bd.BpUpper.V.(*zzv.TElem).Coef(0)
		if a.Cmp(zzv.B(int64(m)-int64(e.lo))) != 0 || b.Cmp(zzv.B(int64(e.hi)-int64(m))) != 0 {
			c.Violate("%s: ballot encrypts %d but its range proofs are about %v and %v", e.Name, m, a, b)
			return m, bd, false
		}
	}
	c.Event("choice_observed")
	c.Eval(e.Name, m, bd.VoteProof.Z)
	return m, bd, true
}

func zz_c02choices(c *zzv.Ctx, rg zz_range) {
	e := zz_election(c, "transparent", "transparent", rg.lo, rg.hi, zz_opt{bc: 64})
	k := int(rg.hi-rg.lo) + 1
	// the probability to miss a candidate of a uniform choice is below k*(1-1/k)^n < 1e-12
	n := 3
	if k > 1 {
		n = int(math.Ceil(math.Log(1e-12/float64(k)) / math.Log(1-1/float64(k))))
	}
	hit := map[int]int{}
	for i := 0; i < n; i++ {
		m, _, ok := zz_c02judge(c, e)
		if !ok {
			return
		}
		hit[m]++
	}
	if len(hit) != k {
		var ks []int
		for m := range hit {
			ks = append(ks, m)
		}
		sort.Ints(ks)
		c.Violate("%s: %d votes only ever choose %v", e.Name, n, ks)
		return
	}
	c.Event("range_covered")
	c.Sample(map[string]any{"range": e.Name, "votes": n, "histogram": fmt.Sprint(hit)})
}

func zz_c02wide(c *zzv.Ctx) {
	lo := uint16(c.R.IntN(1000))
	hi := uint16(40000 + c.R.IntN(25536))
	e := zz_election(c, "transparent", "transparent", lo, hi, zz_opt{bc: 64})
	n := 60
	bins := make([]int, 4)
	for i := 0; i < n; i++ {
		m, _, ok := zz_c02judge(c, e)
		if !ok {
			return
		}
		bins[(m-int(lo))*4/(int(hi)-int(lo)+1)]++
	}
	for _, b := range bins { // a quarter of the range without a vote: probability 4*0.75^60 = 1.3e-7 per case
		if b == 0 && zz_chi2(bins) < 1e-9 {
			c.Violate("%s: %d choices are spread %v over the quarters of the range", e.Name, n, bins)
			return
		}
	}
	c.Event("range_covered")
}

// ---------------- C11 ----------------

func zz_c11(tier string) []zzv.Case {
	cs := zz_together("C11", tier)
	n := 6
	if tier == "thorough" {
		n = 60
	}
	for i := 0; i < n; i++ {
		i := i
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("ballots/transparent/%d", i), Run: func(c *zzv.Ctx) { zz_c11transparent(c, i) }})
	}
	for i := 0; i < 3; i++ {
		i := i
		cs = append(cs, zzv.Case{ID: fmt.Sprintf("independent/%d", i), Run: func(c *zzv.Ctx) { zz_c11independent(c, i) }})
	}
	for _, ec := range zzv.CurveNames {
		ec := ec
		cs = append(cs, zzv.Case{ID: "ballots/" + ec, Run: func(c *zzv.Ctx) {
			e := zz_election(c, ec, "modp512", 500, 500, zz_opt{})
			var all []map[string]string
			for i := 0; i < 4; i++ {
				bd, ok := e.castJudged(c)
				if !ok {
					return
				}
				if !zz_share(c, e, all, bd) {
					return
				}
				all = append(all, zz_components(bd))
			}
		}})
	}
	return cs
}

// zz_components lists the randomised components of a ballot (inner-product parts included).
func zz_components(bd BallotData) map[string]string {
	out := map[string]string{}
	for _, l := range zzv.Leaves(&bd, false) {
		if l.Elem != nil {
			out[l.Path] = l.Elem.String()
		} else {
			out[l.Path] = l.Int.String()
		}
	}
	return out
}

// zz_share reports components in common: between ballots and between parts of one ballot.
func zz_share(c *zzv.Ctx, e *zz_elec, all []map[string]string, bd BallotData) bool {
	me := zz_components(bd)
	own := map[string]string{}
	for p, v := range me {
		if q, dup := own[v]; dup && !zz_sameByDesign(p, q) {
			c.Violate("%s: components %s and %s of one ballot are equal", e.Name, p, q)
			return false
		}
		own[v] = p
	}
	for _, o := range all {
		for p, v := range o {
			if q, dup := own[v]; dup {
				c.Violate("%s: component %s of one ballot reappears as %s of another ballot for the same candidate", e.Name, p, q)
				return false
			}
		}
		c.Event("ballot_pair_compared")
	}
	return true
}

// zz_sameByDesign: the inner-product part restates t(x) of its range proof.
func zz_sameByDesign(p, q string) bool {
	f := func(a, b string) bool {
		return (a == "BpLower.Tprime" && b == "BpLower.InnerProductProof.Cc") || (a == "BpUpper.Tprime" && b == "BpUpper.InnerProductProof.Cc")
	}
	return f(p, q) || f(q, p)
}

// zz_c11independent: every blinding value of a ballot has randomness of its own.
func zz_c11independent(c *zzv.Ctx, i int) {
	m := []uint16{101, 65535, 0}[i%3]
	e := zz_election(c, "transparent", "transparent", m, m, zz_opt{bp: []int64{4, 2, 16}[i%3]})
	par := e.pp.BPParams
	hb, _, _ := par.H.(*zzv.TElem).SingleBasis()
	zzv.Independent(c, "ballot", []any{c.Seed, "ballot", i}, func() (out []zzv.Blinding, ok bool) {
		pn, _ := zzv.Safe(func() {
			c.Tape.Op(4000)
			bd := zz_cast(e.pp)
			c.Tape.Op(0)
			add := func(name string, x *big.Int, N *big.Int) {
				out = append(out, zzv.Blinding{Name: name, X: x, Bits: N.BitLen()})
			}
			coef := func(x zzgroup.Element, b int) *big.Int { return x.(*zzv.TElem).Coef(b) }
			vp := bd.VoteProof
			NE, NF := e.pp.ECGroupParams.N, e.pp.FFGroupParams.N
			add("ciphertext", coef(bd.Ballot.U, 0), NF)
			add("W", coef(vp.W, 0), NF)
			add("Kq1", coef(vp.Kq1, hb), NE)
			add("Kq2", coef(vp.Kq2, hb), NE)
			add("k", zzv.Sub(vp.Z, zzv.Mul(vp.Challenge, zzv.B(int64(m)))), zzv.Pow2(int(e.pp.RPParams.Bx)+int(e.pp.RPParams.Bc)+e.pp.RPParams.Bb-1))
			for s, p := range []zzbp.BulletProof{bd.BpLower, bd.BpUpper} {
				n := []string{"BpLower.", "BpUpper."}[s]
				for k, x := range []zzgroup.Element{p.V, p.A, p.S, p.T1, p.T2} {
					add(n+[]string{"V", "A", "S", "T1", "T2"}[k], coef(x, hb), NE)
				}
				for k := range par.Gg {
					gi, _, _ := par.Gg[k].(*zzv.TElem).SingleBasis()
					hi, _, _ := par.Hh[k].(*zzv.TElem).SingleBasis()
					add(fmt.Sprintf("%ssL[%d]", n, k), coef(p.S, gi), NE)
					add(fmt.Sprintf("%ssR[%d]", n, k), coef(p.S, hi), NE)
				}
			}
			ok = true
		})
		return out, ok && pn == nil
	})
}

func zz_c11transparent(c *zzv.Ctx, i int) {
	m := []uint16{0, 65535, 101, 500}[i%4]
	e := zz_election(c, "transparent", "transparent", m, m, zz_opt{})
	hb, _, _ := e.pp.BPParams.H.(*zzv.TElem).SingleBasis()
	kb, _, _ := e.pp.EGPK.(*zzv.TElem).SingleBasis()
	NE, NF := e.pp.ECGroupParams.N, e.pp.FFGroupParams.N
	var all []map[string]string
	seen := map[string]string{}
	// relations between blinding values that must not repeat from ballot to ballot
	rel := map[string]map[string]int{}
	small := zzv.Pow2(128)
	n := 24
	for k := 0; k < n; k++ {
		before := c.Tape.Bytes()
		bd, ok := e.castJudged(c)
		if !ok {
			return
		}
		drawn := c.Tape.Bytes() - before
		if !zz_share(c, e, all, bd) {
			return
		}
		all = append(all, zz_components(bd))
		type bv struct {
			name string
			x, N *big.Int
		}
		coef := func(x zzgroup.Element, b int) *big.Int { return x.(*zzv.TElem).Coef(b) }
		vp := bd.VoteProof
		vs := []bv{
			{"ciphertext", coef(bd.Ballot.U, 0), NF}, {"W", coef(vp.W, 0), NF},
			{"BpLower.V", coef(bd.BpLower.V, hb), NE}, {"BpLower.A", coef(bd.BpLower.A, hb), NE}, {"BpLower.S", coef(bd.BpLower.S, hb), NE}, {"BpLower.T1", coef(bd.BpLower.T1, hb), NE}, {"BpLower.T2", coef(bd.BpLower.T2, hb), NE},
			{"BpUpper.V", coef(bd.BpUpper.V, hb), NE}, {"BpUpper.A", coef(bd.BpUpper.A, hb), NE}, {"BpUpper.S", coef(bd.BpUpper.S, hb), NE}, {"BpUpper.T1", coef(bd.BpUpper.T1, hb), NE}, {"BpUpper.T2", coef(bd.BpUpper.T2, hb), NE},
			{"Kq1", coef(vp.Kq1, hb), NE}, {"Kq2", coef(vp.Kq2, hb), NE},
			{"k", zzv.Sub(vp.Z, zzv.Mul(vp.Challenge, zzv.B(int64(m)))), NE},
		}
		if coef(vp.Kp, kb).Cmp(coef(vp.W, 0)) != 0 || coef(bd.Ballot.V, kb).Cmp(coef(bd.Ballot.U, 0)) != 0 {
			c.Violate("%s: halves of the ciphertext or of its commitment use different randomness", e.Name)
			return
		}
		need := 0
		for _, v := range vs {
			if v.x.Cmp(small) < 0 || zzv.Sub(v.N, v.x).Cmp(small) < 0 {
				c.Violate("%s: blinding value of %s is only %d bits long", e.Name, v.name, v.x.BitLen())
				return
			}
			for _, x := range []*big.Int{v.x, zzv.Sub(v.N, v.x)} {
				if o, dup := seen[x.String()]; dup {
					c.Violate("%s: blinding value of %s equals (up to sign) that of %s", e.Name, v.name, o)
					return
				}
			}
			seen[v.x.String()] = fmt.Sprintf("%s of ballot %d", v.name, k)
			need += v.N.BitLen()/8 - 1
			c.Event("ballot_blindings")
		}
		for a := range vs {
			for b := range vs {
				if a == b {
					continue
				}
				for what, x := range map[string]*big.Int{
					"difference": zzv.Mod(zzv.Sub(vs[a].x, vs[b].x), vs[a].N),
					"sum":        zzv.Mod(zzv.Add(vs[a].x, vs[b].x), vs[a].N),
					"ratio":      zzv.MulM(vs[a].x, zzv.Inv(vs[b].x, vs[a].N), vs[a].N),
				} {
					key := what + " of " + vs[a].name + " and " + vs[b].name
					if rel[key] == nil {
						rel[key] = map[string]int{}
					}
					rel[key][x.String()]++
					if rel[key][x.String()] > 1 {
						c.Violate("%s: the %s of blinding values is the same in two ballots", e.Name, key)
						return
					}
				}
			}
		}
		if drawn < need+2*32*16 { // plus the blinding vectors of both range proofs
			c.Violate("%s: a ballot with %d bytes of blinding values is made from %d random bytes", e.Name, need+2*32*16, drawn)
			return
		}
		c.Eval(e.Name, k, vp.Z)
	}
}

// ---------------- C18 ----------------

func zz_c18(tier string) []zzv.Case {
	var cs []zzv.Case
	for _, ec := range zzv.CurveNames {
		ec := ec
		cs = append(cs, zzv.Case{ID: "election/" + ec, Run: func(c *zzv.Ctx) { zz_c18setup(c, ec) }})
	}
	return cs
}

func zz_c18setup(c *zzv.Ctx, ec string) {
	g := zzv.Curve(ec)
	var pp PublicParameters
	var err error
	if pn, st := zzv.Safe(func() { pp, err = setup(g) }); pn != nil || err != nil {
		c.Violate("%s: election setup fails: %v %v [%s]", ec, err, pn, st)
		return
	}
	bad := func(f string, a ...any) { c.Violate("election setup over %s: %s", ec, fmt.Sprintf(f, a...)) }
	js := func(x any) string { b, _ := json.Marshal(x); return string(b) }
	one := func(what string, gp zzvp.GroupParameters, n, f *big.Int, ref zzv.Ref) {
		if gp.I == nil || gp.G == nil || gp.H == nil || gp.N == nil || gp.F == nil {
			bad("%s group parameters are incomplete", what)
			return
		}
		if gp.N.Cmp(n) != 0 || gp.I.N().Cmp(n) != 0 {
			bad("%s group order is stated as %v, it is %v", what, gp.N, n)
		}
		if gp.F.Cmp(f) != 0 || gp.I.P().Cmp(f) != 0 {
			bad("%s field size is stated as %v, it is %v", what, gp.F, f)
		}
		p, err := ref.Read(gp.G)
		if err != nil || ref.Key(p) != ref.Key(ref.Gen()) {
			bad("%s generator is not the group's (%v)", what, err)
		}
		h, err := ref.Read(gp.H)
		if err != nil || ref.Key(h) == ref.Key(ref.Zero()) || ref.Key(h) == ref.Key(ref.Gen()) {
			bad("%s second generator is not usable (%v)", what, err)
		}
	}
	q := new(big.Int).Rsh(zzv.RFCPrime(), 1)
	rff, rec := zzv.RefModP(zzv.RFCPrime(), zzv.B(2)), zzv.RefOf(g)
	one("ElGamal", pp.FFGroupParams, q, zzv.RFCPrime(), rff)
	one("ElGamal (proof)", pp.RPParams.GFF, q, zzv.RFCPrime(), rff)
	one("Bulletproofs", pp.ECGroupParams, zzv.StdOrder[ec], zzv.StdField[ec], rec)
	one("Bulletproofs (proof)", pp.RPParams.GEC, zzv.StdOrder[ec], zzv.StdField[ec], rec)
	for _, p := range [][3]any{
		{"election key and ElGamal parameters", pp.EGPK, pp.FFGroupParams.H},
		{"election key and consistency-proof parameters", pp.EGPK, pp.RPParams.GFF.H},
		{"commitment base and Bulletproofs group", pp.BPParams.H, pp.ECGroupParams.H},
		{"commitment base and consistency-proof parameters", pp.BPParams.H, pp.RPParams.GEC.H},
		{"generator and range-proof parameters", pp.BPParams.G, pp.ECGroupParams.G},
		{"lowest candidate", pp.candidateMin, pp.RPParams.RangeLo},
		{"highest candidate", pp.candidateMax, pp.RPParams.RangeHi},
	} {
		if js(p[1]) != js(p[2]) {
			bad("%s disagree: %s and %s", p[0], js(p[1]), js(p[2]))
		}
	}
	if pp.BPParams.GP == nil || pp.BPParams.GP.Name() != g.Name() {
		bad("range proofs use another group")
	}
	if pp.BPParams.N != int64(pp.RPParams.Bx) || len(pp.BPParams.Gg) != int(pp.BPParams.N) || len(pp.BPParams.Hh) != int(pp.BPParams.N) {
		bad("range proofs cover %d bits with %d/%d bases, the secret has %d", pp.BPParams.N, len(pp.BPParams.Gg), len(pp.BPParams.Hh), pp.RPParams.Bx)
	}
	if int(pp.RPParams.Bg) != zzv.StdOrder[ec].BitLen() {
		bad("order length is stated as %d, it is %d", pp.RPParams.Bg, zzv.StdOrder[ec].BitLen())
	}
	if pp.RPParams.Bb < 1 || int(pp.RPParams.Bx)+int(pp.RPParams.Bc)+pp.RPParams.Bb > zzv.StdOrder[ec].BitLen()-1 {
		bad("lengths x=%d c=%d b=%d do not fit the order", pp.RPParams.Bx, pp.RPParams.Bc, pp.RPParams.Bb)
	}
	if pp.RPParams.Bc < 128 || pp.RPParams.Bc > 256 {
		bad("challenge length %d", pp.RPParams.Bc)
	}
	if pp.candidateMin > pp.candidateMax || big.NewInt(int64(pp.candidateMax)).BitLen() > int(pp.RPParams.Bx) {
		bad("candidate range %d..%d does not fit the secret length", pp.candidateMin, pp.candidateMax)
	}
	e := &zz_elec{Name: "program's own election over " + ec, ec: ec, ff: "rfc", pp: pp}
	if _, err := rff.Read(pp.EGPK); err != nil {
		bad("election key is no group member: %v", err)
	}
	var bd BallotData
	ok := false
	pn, st := zzv.Safe(func() { bd = zz_cast(pp); ok = zz_verify(bd, e.pp) })
	if pn != nil || !ok {
		bad("a ballot cast with the parameters is rejected (%v) [%s]", pn, st)
	}
	c.Event("election_setup_judged")
	c.Event("setup_judged")
	c.Event("accepted_exercised")
	c.Eval(ec, js(pp.RPParams))
	c.Sample(map[string]any{"curve": ec, "x": pp.RPParams.Bx, "c": pp.RPParams.Bc, "b": pp.RPParams.Bb, "lo": pp.candidateMin, "hi": pp.candidateMax})
}
