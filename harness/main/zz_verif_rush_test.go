package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

// zz_rush makes cases in which many voters or collectors work at the same time, without any pauses.
func zz_rush(prop, tier string) []zzv.Case {
	var cs []zzv.Case
	reps := 1
	if tier == "thorough" {
		reps = 20
	}
	for r := 0; r < reps; r++ {
		for k, ec := range []string{"transparent", "P-256", "ristretto255", "secp256k1", "P-384"} {
			ec := ec
			ff := []string{"transparent", "modp512", "modp64", "modp512", "modp1024"}[k]
			if prop != "C02" && k > 1 {
				continue
			}
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("rush/%s/%d", ec, r), Run: func(c *zzv.Ctx) {
				if prop == "C02" {
					zz_rushEncrypt(c, ec, ff)
					return
				}
				if ff == "modp64" {
					ff = "modp512"
				}
				zz_rushBallots(c, prop, ec, ff)
			}})
		}
	}
	return cs
}

func zz_rushEncrypt(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 0, 65535, zz_opt{})
	G := e.pp.FFGroupParams.I
	var ops []zzv.RushOp
	for _, m := range []int64{0, 1, 101, 2000, 65535} {
		m := m
		ops = append(ops, zzv.RushOp{Label: fmt.Sprintf("encrypting %d", m), Run: func() string {
			ct, rnd := zz_encrypt(uint16(m), e.pp)
			v := G.Element().Add(G.Element().BaseScale(zzv.B(m)), G.Element().Scale(e.pp.EGPK, rnd))
			return fmt.Sprintf("randomness of the ciphertext: %v, value encrypted: %v", ct.U.IsEqual(G.Element().BaseScale(rnd)), ct.V.IsEqual(v))
		}})
	}
	zzv.Rush(c, "encryption over "+ff, 6000, 1200*time.Millisecond, ops)
}

func zz_rushBallots(c *zzv.Ctx, prop, ec, ff string) {
	e := zz_election(c, ec, ff, 101, 2000, zz_opt{})
	bds, docs, _, ok := zz_pool(c, e)
	if !ok {
		return
	}
	var ops []zzv.RushOp
	add := func(label string, f func() string) { ops = append(ops, zzv.RushOp{Label: label, Run: f}) }
	verdict := func(bd BallotData) string {
		ok := false
		if pn, _ := zzv.Safe(func() { ok = zz_verify(bd, e.pp) }); pn != nil {
			return "refused"
		}
		if ok {
			return "accepted"
		}
		return "refused"
	}
	switch prop {
	case "C01":
		add("the verdict on an honest ballot", func() string { return verdict(zz_cast(e.pp)) })
		add("the verdict on an honest ballot sent over the wire", func() string {
			b, err := json.Marshal(zz_cast(e.pp))
			if err != nil {
				return err.Error()
			}
			bd, err := zz_decode(b, e.pp)
			if err != nil {
				return err.Error()
			}
			return verdict(bd)
		})
	case "C03":
		for _, m := range []int64{100, 2001, 0, 65535, 101, 2000} {
			s := e.spec(m)
			s.a, s.b = zzv.Mod(s.a, zzv.Pow2(int(e.pp.BPParams.N))), zzv.Mod(s.b, zzv.Pow2(int(e.pp.BPParams.N)))
			if bd, ok := e.forge(c, s); ok {
				add(fmt.Sprintf("the verdict on a ballot for %d", m), func() string { return verdict(*zzv.Clone(bd)) })
			}
		}
	case "C04":
		for i := range bds {
			i := i
			add(fmt.Sprintf("the verdict on ballot %d", i), func() string { return verdict(*zzv.Clone(bds[i])) })
		}
		for _, m := range zzv.Spoiled(c, bds[0], e.groups(), 12) {
			m := *m
			add("the verdict on an altered ballot", func() string { return verdict(*zzv.Clone(m)) })
		}
	case "C12":
		for i := range docs {
			i := i
			add(fmt.Sprintf("ballot %d written, read and written again", i), func() string {
				bd, err := zz_decode(docs[i], e.pp)
				if err != nil {
					return err.Error()
				}
				b, err := json.Marshal(bd)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(bytes.Equal(b, docs[i]))
			})
		}
	case "C13":
		for i := range docs {
			d := docs[i]
			for k := 0; k < 4; k++ {
				x := append([]byte{}, d...)
				switch k {
				case 1:
					x = x[:c.R.IntN(len(x))]
				case 2: // some digit
					for t := 0; t < 200; t++ {
						if p := c.R.IntN(len(x)); x[p] >= '0' && x[p] < '9' {
							x[p]++
							break
						}
					}
				case 3:
					x = bytes.Replace(x, []byte(`"x"`), []byte(`"xx"`), 1)
				}
				add(fmt.Sprintf("reading document %d/%d", i, k), func() string {
					var bd BallotData
					var err error
					if pn, st := zzv.Safe(func() { bd, err = zz_decode(x, e.pp) }); pn != nil {
						return fmt.Sprintf("crash: %v [%s]", pn, st)
					}
					if err != nil {
						return "refused"
					}
					return verdict(bd)
				})
			}
		}
	}
	zzv.Rush(c, e.Name, 4000, 1500*time.Millisecond, ops)
}
