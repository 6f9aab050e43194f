package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand/v2"
	"sync"

	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

// Voters and collectors of one election (the same parameters) working at the same time.

func zz_together(prop, tier string) []zzv.Case {
	var cs []zzv.Case
	reps := 1
	if tier == "thorough" {
		reps = 25
	}
	for r := 0; r < reps; r++ {
		for k, ec := range append([]string{"transparent"}, zzv.CurveNames...) {
			k, ec := k, ec
			ff := "transparent"
			if ec != "transparent" {
				ff = []string{"modp512", "rfc", "modp512", "modp1024"}[(k+r)%4]
			}
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("at-once/%s/%d", ec, r), Run: func(c *zzv.Ctx) {
				switch prop {
				case "C01":
					zz_togetherCast(c, ec, ff, r)
				case "C02":
					zz_togetherEncrypt(c, ec, ff)
				case "C04":
					zz_togetherBad(c, ec, ff)
				case "C11":
					zz_togetherFresh(c, ec, ff)
				}
			}})
		}
	}
	return cs
}

// zz_togetherCast: honest ballots for two elections over the same groups.
func zz_togetherCast(c *zzv.Ctx, ec, ff string, r int) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	es := []*zz_elec{e, e}
	if ec != "transparent" {
		es[1] = zz_election(c, ec, ff, 7, 7, zz_opt{bp: 256})
	}
	_, _ = e.plain(zz_cast(e.pp).Ballot)
	defer c.Overlap(e.groups()...)()
	var mu sync.Mutex
	zzv.Storm(c, e.Name, 4, 3, func(r *mrand.Rand, gi, k int) (string, string) {
		e := es[(gi+k)%2]
		bd := zz_cast(e.pp)
		if k%2 == 0 {
			b, err := json.Marshal(bd)
			if err != nil {
				return "cast", err.Error()
			}
			if bd, err = zz_decode(b, e.pp); err != nil {
				return "cast", "an honest ballot can not be decoded: " + err.Error()
			}
		}
		if !zz_verify(bd, e.pp) {
			return "cast", "an honest ballot is rejected"
		}
		mu.Lock() // (decrypting fills a table)
		m, ok := e.plain(bd.Ballot)
		mu.Unlock()
		if !ok || m < int(e.lo) || m > int(e.hi) {
			return "cast", fmt.Sprintf("a ballot encrypts %d (%v)", m, ok)
		}
		c.Event("honest_ballot_accepted")
		return "cast", ""
	})
}

// zz_togetherEncrypt: every ciphertext decrypts to what was encrypted, opens with the returned randomness, and
// none shares its randomness with another.
func zz_togetherEncrypt(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 0, 65535, zz_opt{})
	G := e.pp.FFGroupParams.I
	ct0, _ := zz_encrypt(1, e.pp)
	_, _ = e.plain(ct0)
	defer c.Overlap(G)()
	var mu sync.Mutex
	seen := map[string]string{}
	zzv.Storm(c, "encryption over "+ff, 6, 12, func(r *mrand.Rand, gi, k int) (string, string) {
		choice := uint16(gi)
		if k%2 == 0 {
			choice = uint16(7 + k)
		}
		ct, rnd := zz_encrypt(choice, e.pp)
		if rnd == nil || ct.U == nil || ct.V == nil {
			return "encrypt", "incomplete"
		}
		mu.Lock()
		defer mu.Unlock()
		m, ok := e.plain(ct)
		if !ok || m != int(choice) {
			return "encrypt", fmt.Sprintf("ciphertext of %d decrypts to %d (%v)", choice, m, ok)
		}
		if !ct.U.IsEqual(G.Element().BaseScale(rnd)) {
			return "encrypt", "the returned randomness is not the ciphertext's"
		}
		me := fmt.Sprintf("%d/%d", gi, k)
		for _, s := range []string{ct.U.String(), "r " + rnd.String()} {
			if o, dup := seen[s]; dup {
				return "encrypt", fmt.Sprintf("encryptions %s and %s have the same randomness", o, me)
			}
			seen[s] = me
		}
		c.Event("encrypted_at_once")
		return "encrypt", ""
	})
}

// zz_togetherBad: altered ballots stay rejected while good ones are being cast and verified.
func zz_togetherBad(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	var good, bad []BallotData
	for k := 0; k < 2; k++ {
		bd, ok := e.castJudged(c)
		if !ok {
			return
		}
		good = append(good, bd)
		for _, m := range zzv.Spoiled(c, bd, e.groups(), 8) {
			bad = append(bad, *m)
		}
	}
	x := *zzv.Clone(good[0])
	x.Ballot = good[1].Ballot
	bad = append(bad, x)
	x = *zzv.Clone(good[0])
	x.VoteProof = good[1].VoteProof
	bad = append(bad, x)
	x = *zzv.Clone(good[0])
	x.BpLower, x.BpUpper = good[1].BpLower, good[1].BpUpper
	bad = append(bad, x)
	defer c.Overlap(e.groups()...)()
	for i := range bad { // the same altered ballot comes in several times, after a good one
		if i > 5 && i < len(bad)-3 {
			continue
		}
		if !zz_verify(*zzv.Clone(good[i%2]), e.pp) {
			c.Violate("%s: honest ballot is rejected", e.Name)
			return
		}
		if !zzv.Crowd(c, e.Name, 3, func() string {
			ok := false
			zzv.Safe(func() { ok = zz_verify(*zzv.Clone(bad[i]), e.pp) })
			if ok {
				return fmt.Sprintf("altered ballot %d is accepted", i)
			}
			c.Event("altered_rejected")
			return ""
		}) {
			return
		}
	}
	zzv.Storm(c, e.Name, 4, 8, func(r *mrand.Rand, gi, k int) (string, string) {
		if (gi/2+k)%2 == 0 {
			if !zz_verify(*zzv.Clone(good[r.IntN(2)]), e.pp) {
				return "good", "an honest ballot is rejected"
			}
			return "good", ""
		}
		i := zzv.Hot(r, k, len(bad))
		ok := false
		zzv.Safe(func() { ok = zz_verify(*zzv.Clone(bad[i]), e.pp) })
		if ok {
			return "bad", fmt.Sprintf("altered ballot %d is accepted", i)
		}
		c.Event("altered_rejected")
		return "bad", ""
	})
}

// zz_togetherFresh: ballots for one candidate cast at the same time have nothing in common.
func zz_togetherFresh(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 777, 777, zz_opt{bp: 256})
	end := c.Overlap(e.groups()...)
	var mu sync.Mutex
	var bds []BallotData
	ok := zzv.Storm(c, e.Name, 5, 3, func(r *mrand.Rand, gi, k int) (string, string) {
		bd := zz_cast(e.pp)
		mu.Lock()
		bds = append(bds, bd)
		mu.Unlock()
		return "cast", ""
	})
	end()
	if !ok {
		return
	}
	var all []map[string]string
	for _, bd := range bds {
		if !zz_share(c, e, all, bd) {
			return
		}
		all = append(all, zz_components(bd))
	}
	// what the responses hide
	masks := map[string]int{}
	for i, bd := range bds {
		k := zzv.Sub(bd.VoteProof.Z, zzv.Mul(bd.VoteProof.Challenge, zzv.B(777))).String()
		if j, dup := masks[k]; dup {
			c.Violate("%s: ballots %d and %d have the same mask in their responses", e.Name, i, j)
			return
		}
		masks[k] = i
	}
	c.EventN("cast_at_once", len(bds))
}
