package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand/v2"

	zzbp "github.com/takakv/msc-poc/bulletproofs"
	zzvp "github.com/takakv/msc-poc/voteproof"
	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	zz_checks = append(zz_checks,
		zzv.Check{Prop: "C19", Rule: "built with the race detector: goroutines cast, verify, encode and decode over the same public parameters and the same (valid and invalid) ballots with injected pauses; no race report, no crash, verdicts and encodings as before, parameters, ballots and group constants unchanged; sequential histories in permuted orders give the same verdicts", Cases: zz_c19, Require: map[string]int{"storm": 8, "concurrent_ops": 200, "sequential_verdict": 40, "state_compared": 16, "cold_start": 4}},
	)
}

func zz_c19(tier string) []zzv.Case {
	var cs []zzv.Case
	reps := 2
	if tier == "thorough" {
		reps = 40
	}
	for r := 0; r < reps; r++ {
		for i, ec := range zzv.CurveNames {
			ec, r := ec, r
			ff := []string{"modp512", "rfc", "modp1024", "modp512"}[(i+r)%4]
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("storm/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c19storm(c, ec, ff, r) }})
			if r%2 == 0 && r < 12 {
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("cold/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c19cold(c, ec, ff) }})
			}
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("history/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c19history(c, ec, ff) }})
		}
	}
	return cs
}

// zz_pool makes ballots of both verdicts with their documents.
func zz_pool(c *zzv.Ctx, e *zz_elec) (bds []BallotData, docs [][]byte, want []bool, ok bool) {
	for k := 0; k < 2; k++ {
		bd, ok := e.castJudged(c)
		if !ok {
			return nil, nil, nil, false
		}
		bds = append(bds, bd)
		bad := zzv.Clone(bd)
		switch k {
		case 0:
			bad.VoteProof.Sq1 = zzv.Add(bad.VoteProof.Sq1, zzv.B(1))
		case 1:
			bad.BpUpper.InnerProductProof.A = zzv.Add(bad.BpUpper.InnerProductProof.A, zzv.B(1))
		}
		bds = append(bds, *bad)
	}
	swapped := *zzv.Clone(bds[0])
	swapped.Ballot = bds[2].Ballot
	bds = append(bds, swapped)
	for i := range bds {
		want = append(want, i == 0 || i == 2)
		d, err := json.Marshal(bds[i])
		if err != nil {
			c.Violate("%s: ballot can not be serialized: %v", e.Name, err)
			return nil, nil, nil, false
		}
		docs = append(docs, d)
	}
	return bds, docs, want, true
}

func zz_c19history(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	bds, docs, want, ok := zz_pool(c, e)
	if !ok {
		return
	}
	before := zzv.Fingerprint(e.pp, bds)
	for k := 0; k < 14; k++ {
		i := c.R.IntN(len(bds))
		what := ""
		got := false
		pn, st := zzv.Safe(func() {
			switch c.R.IntN(3) {
			case 0:
				what = "verified again"
				got = zz_verify(bds[i], e.pp)
			case 1:
				what = "decoded and verified"
				d, err := zz_decode(docs[i], e.pp)
				if err == nil {
					got = zz_verify(d, e.pp)
				}
			case 2:
				what = "verified after another ballot was cast"
				_ = zz_cast(e.pp)
				got = zz_verify(bds[i], e.pp)
			}
		})
		if pn != nil {
			c.Violate("%s: ballot %d, %s: crash %v [%s]", e.Name, i, what, pn, st)
			return
		}
		if got != want[i] {
			c.Violate("%s: ballot %d, %s: verdict %v, was %v", e.Name, i, what, got, want[i])
			return
		}
		if d, err := json.Marshal(bds[i]); err != nil || string(d) != string(docs[i]) {
			c.Violate("%s: ballot %d, %s: its document changed (%v)", e.Name, i, what, err)
			return
		}
		c.Event("sequential_verdict")
		c.Eval(e.Name, k, i, what, c.R.Uint64())
	}
	if diff := zzv.SameFingerprint(before, zzv.Fingerprint(e.pp, bds)); diff != "" {
		c.Violate("%s: casting and verifying modified parameters or ballots: %s", e.Name, diff)
		return
	}
	c.Event("state_compared")
}

func zz_c19storm(c *zzv.Ctx, ec, ff string, rep int) {
	c.RealRandom()
	opt := zz_opt{}
	lo, hi := uint16(101), uint16(2000)
	if rep%2 == 1 {
		opt.bp, lo, hi = 256, 7, 200
	}
	e := zz_election(c, ec, ff, lo, hi, opt)
	bds, docs, want, ok := zz_pool(c, e)
	if !ok {
		return
	}
	before := zzv.Fingerprint(e.pp, bds)
	n := 8
	if c.Thorough() {
		n = 14
	}
	ok = zzv.Storm(c, e.Name, 6, n, func(r *mrand.Rand, gi, k int) (string, string) {
		i := r.IntN(len(bds))
		switch x := r.IntN(7); x {
		case 0:
			bd := zz_cast(e.pp)
			if !zz_verify(bd, e.pp) {
				return "cast", "honest ballot is rejected"
			}
			return "cast", ""
		case 1, 2:
			if got := zz_verify(bds[i], e.pp); got != want[i] {
				return "verify", fmt.Sprintf("verdict of ballot %d is %v, was %v", i, got, want[i])
			}
			return "verify", ""
		case 3:
			d, err := json.Marshal(bds[i])
			if err != nil || string(d) != string(docs[i]) {
				return "encode", fmt.Sprintf("another document (%v)", err)
			}
			return "encode", ""
		case 4:
			d, err := zz_decode(docs[i], e.pp)
			if err != nil {
				return "decode", err.Error()
			}
			if got := zz_verify(d, e.pp); got != want[i] {
				return "decode", fmt.Sprintf("verdict of decoded ballot %d is %v, was %v", i, got, want[i])
			}
			return "decode", ""
		case 5:
			ct, _ := zz_encrypt(uint16(r.Uint32()), e.pp)
			if ct.U == nil || ct.V == nil {
				return "encrypt", "incomplete"
			}
			return "encrypt", ""
		default:
			v := zzv.B(int64(r.IntN(200)))
			p, _, err := zzbp.Prove(v, e.pp.BPParams)
			if err != nil {
				return "prove", err.Error()
			}
			if ok, err := p.Verify(); !ok {
				return "prove", fmt.Sprintf("proof for %v does not verify: %v", v, err)
			}
			_ = zzvp.Prove(v, zzv.B(5), zzv.B(6), zzv.B(7), e.pp.RPParams)
			return "prove", ""
		}
	})
	if !ok {
		return
	}
	if diff := zzv.SameFingerprint(before, zzv.Fingerprint(e.pp, bds)); diff != "" {
		c.Violate("%s: concurrent casting and verifying modified parameters or ballots: %s", e.Name, diff)
		return
	}
	c.Event("state_compared")
	c.Sample(map[string]any{"election": e.Name, "goroutines": 6, "ops_each": n})
}

// zz_c19cold: in a process of its own, the first casts, decodings and verifications happen at the same time.
func zz_c19cold(c *zzv.Ctx, ec, ff string) {
	if !c.Cold() {
		return
	}
	c.RealRandom()
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	before := zzv.Fingerprint(e.pp)
	if !zzv.Storm(c, "cold "+e.Name, 5, 1, func(r *mrand.Rand, gi, k int) (string, string) {
		bd := zz_cast(e.pp)
		if gi%2 == 0 {
			b, err := json.Marshal(bd)
			if err != nil {
				return "cold_cast", err.Error()
			}
			if bd, err = zz_decode(b, e.pp); err != nil {
				return "cold_cast", err.Error()
			}
		}
		if !zz_verify(bd, e.pp) {
			return "cold_cast", "honest ballot is rejected"
		}
		return "cold_cast", ""
	}) {
		return
	}
	if diff := zzv.SameFingerprint(before, zzv.Fingerprint(e.pp)); diff != "" {
		c.Violate("%s: first concurrent casts modified the parameters: %s", e.Name, diff)
	}
}
