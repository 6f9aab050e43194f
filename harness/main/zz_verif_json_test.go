package main

import (
	"encoding/json"
	"fmt"
	"strings"

	zzgroup "github.com/takakv/msc-poc/group"
	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	zz_checks = append(zz_checks,
		zzv.Check{Prop: "C12", Rule: "whole ballots (four curves x field groups x candidate ranges, fresh and extreme random tapes) serialized, decoded with the collector's parameters, compared component by component, serialized again (same bytes) and judged again; rejected ballots stay rejected", Together: []string{"ballot/"}, Rounds: 6, Cases: zz_c12, Require: map[string]int{"ballot_roundtrip": 60, "component_compared": 4000}},
		zzv.Check{Prop: "C13", Rule: "every structural and value mutation of serialized ballots, non-member encodings in every element position, cut, spliced and random documents, decoded and judged by the collector: no crash; what decodes is complete and consists of members", Together: []string{"splice/"}, Rounds: 2, Cases: zz_c13, Require: map[string]int{"document_refused": 2000, "non_member_refused": 500, "decoded_verified": 60}},
	)
}

func zz_c12(tier string) []zzv.Case {
	cs := zz_rush("C12", tier)
	reps := 1
	if tier == "thorough" {
		reps = 25
	}
	for r := 0; r < reps; r++ {
		for _, ec := range zzv.CurveNames {
			for i, rg := range zz_ranges[:8] {
				ec, rg, i := ec, rg, i
				ff := []string{"modp512", "rfc", "modp1024", "modp512"}[(i+r)%4]
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("ballot/%s/%d-%d/%d", ec, rg.lo, rg.hi, r), Run: func(c *zzv.Ctx) {
					e := zz_election(c, ec, ff, rg.lo, rg.hi, zz_opt{})
					for k := 0; k < 2; k++ {
						if k == 1 {
							zz_hostile(c, i+r)
						}
						bd, ok := e.castJudged(c)
						c.Tape.Inject = nil
						if !ok || !zz_c12ballot(c, e, bd) {
							return
						}
					}
				}})
			}
		}
	}
	return cs
}

func zz_c12ballot(c *zzv.Ctx, e *zz_elec, bd BallotData) bool {
	js := zz_encode(c, bd)
	if js == nil {
		return false
	}
	var d BallotData
	var err error
	pn, st := zzv.Safe(func() { d, err = zz_decode(js, e.pp) })
	if pn != nil || err != nil {
		c.Violate("%s: honest ballot can not be decoded: %v %v [%s]", e.Name, err, pn, st)
		return false
	}
	if !zzv.SameLeaves(c, e.Name+": ballot", &bd, &d, true) {
		return false
	}
	js2 := zz_encode(c, d)
	if string(js2) != string(js) {
		c.Violate("%s: serializing the decoded ballot gives another document", e.Name)
		return false
	}
	if !e.accepted(c, d) {
		c.Violate("%s: an accepted ballot is rejected after the round trip", e.Name)
		return false
	}
	// The document may be laid out differently on its way.
	var any1 any = zzv.ParseJSON(js)
	js3, _ := json.MarshalIndent(any1, " ", "\t")
	if d3, err := zz_decode(js3, e.pp); err != nil || !zzv.SameLeaves(c, e.Name+": reformatted ballot", &bd, &d3, true) {
		if err != nil {
			c.Violate("%s: honest ballot can not be decoded after reformatting: %v", e.Name, err)
		}
		return false
	}
	// A ballot that is rejected in memory is not accepted from the wire.
	bad := zzv.Clone(bd)
	switch c.R.IntN(4) {
	case 0:
		bad.VoteProof.Z = zzv.Add(bad.VoteProof.Z, zzv.B(1))
	case 1:
		bad.BpUpper.Taux = zzv.Add(bad.BpUpper.Taux, zzv.B(1))
	case 2:
		bad.BpLower, bad.BpUpper = bad.BpUpper, bad.BpLower
	case 3:
		bad.Ballot.U, bad.Ballot.V = bad.Ballot.V, bad.Ballot.U
	}
	v1 := e.accepted(c, *bad)
	if v2 := e.acceptedWire(c, *bad); v1 != v2 {
		c.Violate("%s: altered ballot: verdict %v in memory, %v from the wire", e.Name, v1, v2)
		return false
	}
	c.Event("ballot_roundtrip")
	c.Eval(e.Name, bd.VoteProof.Z)
	c.Sample(map[string]any{"election": e.Name, "bytes": len(js)})
	return true
}

func zz_c13(tier string) []zzv.Case {
	cs := zz_rush("C13", tier)
	reps, parts := 1, 4
	if tier == "thorough" {
		reps = 12
	}
	for r := 0; r < reps; r++ {
		for i, ec := range zzv.CurveNames {
			for p := 0; p < parts; p++ {
				ec, p := ec, p
				ff := []string{"modp512", "modp1024", "modp512", "rfc"}[(i+r)%4]
				cs = append(cs, zzv.Case{ID: fmt.Sprintf("ballot/%s/%d/%d", ec, p, r), Run: func(c *zzv.Ctx) { zz_c13ballot(c, ec, ff, p, parts) }})
			}
			ec := ec
			ff := []string{"modp512", "modp1024", "modp512", "rfc"}[(i+r+1)%4]
			cs = append(cs, zzv.Case{ID: fmt.Sprintf("splice/%s/%d", ec, r), Run: func(c *zzv.Ctx) { zz_c13splice(c, ec, ff) }})
		}
	}
	return cs
}

// zz_collector decodes and judges one document; false: stop (a violation was reported).
func zz_collector(c *zzv.Ctx, e *zz_elec, read func(zzgroup.Element) error, what string, d []byte, must bool, verify bool) bool {
	var bd BallotData
	var err error
	pn, st := zzv.Safe(func() { bd, err = zz_decode(d, e.pp) })
	if pn != nil {
		c.Violate("%s: decoding a ballot (%s) crashes: %v [%s]", e.Name, what, pn, st)
		return false
	}
	c.Eval(e.Name, what, zzv.Uint64(string(d)))
	if err != nil {
		c.Event("document_refused")
		if must {
			c.Event("non_member_refused")
		}
		return true
	}
	if must {
		c.Violate("%s: ballot (%s) is decoded without error", e.Name, what)
		return false
	}
	if _, bad := zzv.CheckLeaves(&bd, true, read); bad != "" {
		c.Violate("%s: ballot (%s) is decoded although %s", e.Name, what, bad)
		return false
	}
	c.Event("document_decoded")
	if !verify {
		return true
	}
	pn, st = zzv.Safe(func() { _ = zz_verify(bd, e.pp) })
	if pn != nil {
		c.Violate("%s: judging a decoded ballot (%s) crashes: %v [%s]", e.Name, what, pn, st)
		return false
	}
	c.Event("decoded_verified")
	return true
}

func zz_c13ballot(c *zzv.Ctx, ec, ff string, part, parts int) {
	bp := int64(65536)
	lo, hi := uint16(101), uint16(2000)
	if part%2 == 1 { // a small range makes judging what decodes cheap
		bp, lo, hi = 4, 10, 13
	}
	e := zz_election(c, ec, ff, lo, hi, zz_opt{bp: bp})
	bd, ok := e.castJudged(c)
	if !ok {
		return
	}
	doc := zz_encode(c, bd)
	gff, gec := e.pp.FFGroupParams.I, e.pp.ECGroupParams.I
	read := zzv.Reader(gff, gec)
	rec := zzv.RefOf(gec)
	isElem := func(p string) (zzgroup.Group, zzv.Ref) {
		q := zzv.JPattern(p)
		switch q {
		case "ballot/u", "ballot/v", "voteProof/W", "voteProof/Kp":
			return gff, e.ref
		case "voteProof/Kq1", "voteProof/Kq2":
			return gec, rec
		}
		for _, x := range []string{"lbProof/", "ubProof/"} {
			if y, ok := strings.CutPrefix(q, x); ok {
				switch y {
				case "V", "A", "S", "T1", "T2", "InnerProductProof/P", "InnerProductProof/L/*", "InnerProductProof/R/*":
					return gec, rec
				}
			}
		}
		return nil, nil
	}
	n, decoded := 0, 0
	zzv.DocMutants(c, doc, 1, isElem, func(what string, d []byte, must bool) bool {
		n++
		if n%parts != part && (n/parts)%2 == 0 { // each part judges its share and some of the others'
			return true
		}
		decoded++
		return zz_collector(c, e, read, what, d, must, bp < 16 || decoded%40 == 0 || c.Thorough() && decoded%4 == 0)
	})
}

// zz_c13splice exchanges whole parts between documents of different ballots, groups and kinds.
func zz_c13splice(c *zzv.Ctx, ec, ff string) {
	e := zz_election(c, ec, ff, 10, 13, zz_opt{bp: 4})
	bd, ok := e.castJudged(c)
	if !ok {
		return
	}
	roots := []any{zzv.ParseJSON(zz_encode(c, bd))}
	for _, o := range zzv.CurveNames {
		if o == ec {
			continue
		}
		e2 := zz_election(c, o, []string{"modp512", "modp1024", "modp512"}[c.R.IntN(3)], 10, 13, zz_opt{bp: []int64{4, 16, 256}[c.R.IntN(3)]})
		b2, ok := e2.castJudged(c)
		if !ok {
			return
		}
		roots = append(roots, zzv.ParseJSON(zz_encode(c, b2)))
	}
	read := zzv.Reader(e.pp.FFGroupParams.I, e.pp.ECGroupParams.I)
	paths := zzv.JPaths(roots[0])
	for i := 0; i < 600; i++ {
		src := roots[c.R.IntN(len(roots))]
		sp := zzv.JPaths(src)
		from, to := sp[c.R.IntN(len(sp))], paths[c.R.IntN(len(paths))]
		if i%2 == 0 {
			from = to
		}
		d := zzv.JSet(roots[0], to, zzv.JGet(src, from), false)
		if !zz_collector(c, e, read, from+" of another ballot in "+to, d, false, true) {
			return
		}
	}
	for i := 0; i < 300; i++ {
		b := make([]byte, c.R.IntN(80))
		for j := range b {
			b[j] = []byte("{}[]\":,0123456789ubal otV.eE-\\")[c.R.IntN(30)]
		}
		if !zz_collector(c, e, read, "random text", b, false, true) {
			return
		}
	}
}
