package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	bp "github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	. "github.com/takakv/msc-poc/zzverif/vlib"
)

func init() {
	checks = append(checks,
		Check{Prop: "C12", Rule: "range proofs (all ranges, all curves, fresh and extreme random tapes) and consistency proofs (all curves x field groups) serialized, decoded with the collector's parameters, compared component by component, serialized again (same bytes) and verified again", Together: []string{"range/", "sigma/"}, Cases: c12, Require: map[string]int{"proof_roundtrip": 60, "component_compared": 1500}},
		Check{Prop: "C13", Rule: "element decoders of every group fed well-formed non-members (judged by the reference), truncated, extended, flipped and random bytes; proof decoders fed every structural and value mutation of valid documents; no crash, and what decodes is complete and consists of members", Together: []string{"element/", "range/", "sigma/"}, Rounds: 6, Cases: c13, Require: map[string]int{"element_refused": 500, "document_refused": 1000, "non_member_refused": 300, "member_decoded": 100}},
	)
}

// ---------------- C12 ----------------

func c12(tier string) []Case {
	var cs []Case
	reps := 1
	if tier == "thorough" {
		reps = 25
	}
	for r := 0; r < reps; r++ {
		for _, gn := range CurveNames {
			for _, b := range bpEnds {
				gn, b := gn, b
				cs = append(cs, Case{fmt.Sprintf("range/%s/%d/%d", gn, b, r), func(c *Ctx) { c12range(c, gn, b) }})
			}
			for _, ff := range []string{"modp512", "rfc", "modp1024"} {
				gn, ff := gn, ff
				cs = append(cs, Case{fmt.Sprintf("sigma/%s/%s/%d", gn, ff, r), func(c *Ctx) { c12sigma(c, gn, ff) }})
			}
		}
	}
	return cs
}

func sparseTape(c *Ctx) {
	c.Tape.Inject = func(n int) []byte {
		switch c.R.IntN(12) {
		case 0:
			return []byte{0}
		case 1:
			return []byte{byte(c.R.IntN(5))}
		}
		return nil
	}
}

func c12range(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	for k := 0; k < 2; k++ {
		if k == 1 {
			sparseTape(c)
		}
		v := RandMod(c.R, B(b))
		if k == 1 {
			v = []*big.Int{B(0), B(b - 1), v}[c.R.IntN(3)]
		}
		proof, _, err := bp.Prove(v, params)
		c.Tape.Inject = nil
		if err != nil {
			c.Violate("%s: Prove: %v", gn, err)
			return
		}
		what := fmt.Sprintf("%s: range proof for 2^%d", gn, params.N)
		js, err := json.Marshal(proof)
		if err != nil {
			c.Violate("%s can not be serialized: %v", what, err)
			return
		}
		var d bp.BulletProof
		pn, st := Safe(func() { d, err = bp.BulletProofUnmarshalJSON(js, params) })
		if pn != nil || err != nil {
			c.Violate("%s can not be decoded: %v %v [%s]", what, err, pn, st)
			return
		}
		if !SameLeaves(c, what, &proof, &d, true) {
			return
		}
		js2, err := json.Marshal(d)
		if err != nil || string(js2) != string(js) {
			c.Violate("%s: serializing the decoded proof gives another document (%v)", what, err)
			return
		}
		p1, p2 := proof, d
		v1 := verdict(c, func() (bool, error) { return p1.Verify() })
		v2 := verdict(c, func() (bool, error) { return p2.Verify() })
		if !v1 || !v2 {
			c.Violate("%s: verdict %v becomes %v", what, v1, v2)
			return
		}
		// a rejected proof stays rejected
		m := Clone(proof)
		m.Taux = Add(m.Taux, B(1))
		js3, _ := json.Marshal(m)
		if q, err := bp.BulletProofUnmarshalJSON(js3, params); err == nil && verdict(c, func() (bool, error) { return q.Verify() }) {
			c.Violate("%s: a rejected proof verifies after the round trip", what)
			return
		}
		c.Event("proof_roundtrip")
		c.Eval(what, k, proof.Taux)
		c.Sample(map[string]any{"group": gn, "bits": params.N, "bytes": len(js)})
	}
}

func c12sigma(c *Ctx, gn, ff string) {
	gff, gec := ffGroup(ff), bpGroup(gn)
	p, ok := sigmaOrViolate(c, 16, []uint16{128, 224, 64}[c.R.IntN(3)], uint16(gec.N().BitLen()), gff, gec)
	if !ok {
		return
	}
	p.RangeLo, p.RangeHi = uint16(c.R.Uint32()), uint16(c.R.Uint32())
	for k := 0; k < 2; k++ {
		m, rp, r1, r2 := B(int64(c.R.IntN(65536))), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N())
		if k == 1 {
			sparseTape(c)
			rp, r1 = B(0), B(0)
		}
		pf, comm, ok := proveSigma(c, p, m, rp, r1, r2, ff+"/"+gn)
		c.Tape.Inject = nil
		if !ok {
			return
		}
		what := fmt.Sprintf("%s/%s: consistency proof", ff, gn)
		js, err := json.Marshal(pf)
		if err != nil {
			c.Violate("%s can not be serialized: %v", what, err)
			return
		}
		var d voteproof.SigmaProof
		pn, st := Safe(func() { d, err = voteproof.ProofUnmarshalJSON(js, gff, gec) })
		if pn != nil || err != nil {
			c.Violate("%s can not be decoded: %v %v [%s]", what, err, pn, st)
			return
		}
		if !SameLeaves(c, what, &pf, &d, true) {
			return
		}
		js2, err := json.Marshal(d)
		if err != nil || string(js2) != string(js) {
			c.Violate("%s: serializing the decoded proof gives another document (%v)", what, err)
			return
		}
		if q := d; !verdict(c, func() (bool, error) { return q.Verify(comm), nil }) {
			c.Violate("%s is rejected after the round trip", what)
			return
		}
		c.Event("proof_roundtrip")
		c.Eval(what, k, pf.Z)
	}
}

// ---------------- C13 ----------------

func c13(tier string) []Case {
	var cs []Case
	reps := 1
	if tier == "thorough" {
		reps = 20
	}
	for r := 0; r < reps; r++ {
		for _, n := range AllNamed {
			n := n
			for k := 0; k < 2; k++ {
				cs = append(cs, Case{fmt.Sprintf("element/%s/%d/%d", n, k, r), func(c *Ctx) { c13element(c, Named(n)) }})
			}
		}
		for i, gn := range CurveNames {
			gn := gn
			for k, b := range []int64{2, 16, 65536} {
				b := b
				if tier == "quick" && k == 2 && gn == "P-384" {
					continue
				}
				cs = append(cs, Case{fmt.Sprintf("range/%s/%d/%d", gn, b, r), func(c *Ctx) { c13range(c, gn, b) }})
			}
			ff := []string{"modp512", "modp256", "modp1024", "rfc"}[(i+r)%4]
			cs = append(cs, Case{fmt.Sprintf("sigma/%s/%s/%d", gn, ff, r), func(c *Ctx) { c13sigma(c, gn, ff) }})
		}
	}
	return cs
}

func c13element(c *Ctx, ng NamedGroup) {
	N := ng.R.Order()
	judge := func(what string, buf []byte, js bool, must bool) bool {
		e := ng.G.Element()
		in := string(buf)
		var err error
		pn, st := Safe(func() {
			if js {
				err = e.UnmarshalJSON(buf)
			} else {
				err = e.UnmarshalBinary(buf)
			}
		})
		if pn != nil {
			c.Violate("%s: decoding %s (%.60q) crashes: %v [%s]", ng.Name, what, in, pn, st)
			return false
		}
		if string(buf) != in {
			c.Violate("%s: decoding %s modifies its input", ng.Name, what)
			return false
		}
		c.Eval(ng.Name, what, in)
		if err != nil {
			c.Event("element_refused")
			if must {
				c.Event("non_member_refused")
			}
			return true
		}
		if must {
			c.Violate("%s: %s (%.80q) is decoded without error", ng.Name, what, in)
			return false
		}
		var rerr error
		pn, st = Safe(func() { _, rerr = ng.R.Read(e) })
		if pn != nil || rerr != nil {
			c.Violate("%s: decoding %s (%.80q) gives no group member: %v %v [%s]", ng.Name, what, in, rerr, pn, st)
			return false
		}
		c.Event("member_decoded")
		return true
	}
	for rep := 0; rep < 4; rep++ {
		k := RandMod(c.R, N)
		if rep == 0 {
			k = B(0)
		}
		e := ng.G.Element().BaseScale(k)
		js, err1 := e.MarshalJSON()
		bin, err2 := e.MarshalBinary()
		if err1 != nil || err2 != nil {
			c.Violate("%s: element can not be encoded: %v %v", ng.Name, err1, err2)
			return
		}
		root := ParseJSON(js)
		for _, nm := range NonMembers(c, ng.G, ng.R, root) {
			if !judge("JSON non-member "+nm.Kind, nm.Doc, true, true) {
				return
			}
		}
		for _, v := range JValues(c, root) {
			if v.Del {
				continue
			}
			b, err := json.Marshal(v.Val)
			if err != nil {
				continue
			}
			if !judge("JSON "+v.Kind, b, true, v.Malformed && v.Kind != "nested") {
				return
			}
		}
		for _, p := range JPaths(root) {
			for _, v := range JValues(c, JGet(root, p)) {
				if !judge("JSON "+p+" "+v.Kind, JSet(root, p, v.Val, v.Del), true, v.Malformed) {
					return
				}
			}
		}
		for _, s := range []string{"", " ", "{", "nul", "[1", "\"", "{\"X\":", "{}x", "null", "NaN", "{\"X\":1,\"X\":2,\"Y\":3}", strings.Repeat("[", 20000)} {
			if !judge("JSON text", []byte(s), true, true) {
				return
			}
		}
		for i := 0; i < 30; i++ {
			b := append([]byte{}, js...)
			if len(b) > 0 {
				b[c.R.IntN(len(b))] = byte(c.R.Uint32())
			}
			if !judge("JSON flipped byte", b, true, false) {
				return
			}
		}
		// binary
		for i := 0; i < 60; i++ {
			b := append([]byte{}, bin...)
			kind := "flipped bit"
			must := false
			switch i % 6 {
			case 0, 1:
				if len(b) > 0 {
					b[c.R.IntN(len(b))] ^= 1 << c.R.IntN(8)
				}
			case 2:
				kind = "cut"
				b = b[:c.R.IntN(len(b)+1)]
			case 3:
				kind = "extended"
				b = append(b, make([]byte, 1+c.R.IntN(40))...)
			case 4:
				kind = "random"
				b = make([]byte, len(bin))
				for j := range b {
					b[j] = byte(c.R.Uint32())
				}
				if len(b) > 0 && c.R.IntN(2) == 0 && len(bin) > 0 {
					b[0] = bin[0]
				}
			case 5:
				kind = "saturated"
				b = make([]byte, []int{0, 1, 2, 31, 32, 33, 48, 49, 64, 65, 96, 97, 200}[c.R.IntN(13)])
				fill := []byte{0, 0xff, 4, 2, 3}[c.R.IntN(5)]
				for j := range b {
					b[j] = fill
				}
			}
			if !judge("binary "+kind, b, false, must) {
				return
			}
		}
		// wrong length: zero bytes inserted somewhere (no standard encoding has such a length)
		std := map[int]bool{0: true, 1: true, 32: true, 33: true, 48: true, 49: true, 64: true, 65: true, 96: true, 97: true, len(bin): true}
		for _, at := range []int{0, 1, len(bin) / 2, len(bin)/2 + 1, len(bin)} {
			for _, n := range []int{1, 2, 3, 5, 32, 48} {
				if at > len(bin) {
					continue
				}
				b := append(append(append([]byte{}, bin[:at]...), make([]byte, n)...), bin[at:]...)
				if !judge("binary with zero bytes inserted", b, false, !std[len(b)] && !strings.HasPrefix(ng.Name, "modp") && !strings.HasPrefix(ng.Name, "rfc")) {
					return
				}
			}
		}
		if !judge("nothing", nil, false, ng.Name != "secp256k1" || true) {
			return
		}
	}
	// elements with unusual coordinates: only some of them leave room for a second, unreduced encoding
	for _, p := range ng.Specials() {
		p := p
		var js, bin []byte
		if pn, _ := Safe(func() {
			e, err := ng.Make(p)
			if err == nil {
				js, _ = e.MarshalJSON()
				bin, _ = e.MarshalBinary()
			}
		}); pn != nil || js == nil {
			c.Event("special_not_decoded")
			continue
		}
		for _, nm := range NonMembers(c, ng.G, ng.R, ParseJSON(js)) {
			if !judge("JSON non-member "+nm.Kind, nm.Doc, true, true) {
				return
			}
		}
		if isCurve(ng.Name) && ng.Name != "ristretto255" {
			w := (ng.R.Field().BitLen() + 7) / 8
			for i, v := range p.V {
				own := v.FillBytes(make([]byte, w))
				big := Add(v, ng.R.Field())
				at := bytes.LastIndex(bin, own)
				if i == 0 {
					at = bytes.Index(bin, own)
				}
				if at < 0 || big.BitLen() > 8*w {
					continue
				}
				b := append([]byte{}, bin...)
				copy(b[at:], big.FillBytes(make([]byte, w)))
				if !judge(fmt.Sprintf("binary with coordinate %d increased by the field size", i), b, false, true) {
					return
				}
				c.Event("unreduced_binary")
			}
		}
	}
}

func c13range(c *Ctx, gn string, b int64) {
	params := mustBP(c, b, bpGroup(gn))
	proof, _, err := bp.Prove(RandMod(c.R, B(b)), params)
	if err != nil {
		c.Violate("%s: Prove: %v", gn, err)
		return
	}
	doc, _ := json.Marshal(proof)
	read := Reader(params.GP)
	r := RefOf(params.GP)
	isElem := func(p string) (group.Group, Ref) {
		pat := JPattern(p)
		switch pat {
		case "V", "A", "S", "T1", "T2", "InnerProductProof/P", "InnerProductProof/L/*", "InnerProductProof/R/*":
			return params.GP, r
		}
		return nil, nil
	}
	ver := 0
	DocMutants(c, doc, 2, isElem, func(what string, d []byte, must bool) bool {
		var p bp.BulletProof
		var err error
		pn, st := Safe(func() { p, err = bp.BulletProofUnmarshalJSON(d, params) })
		if pn != nil {
			c.Violate("%s: decoding a range proof (%s) crashes: %v [%s]", gn, what, pn, st)
			return false
		}
		c.Eval(gn, b, what, Uint64(string(d)))
		if err != nil {
			c.Event("document_refused")
			if must {
				c.Event("non_member_refused")
			}
			return true
		}
		if must {
			c.Violate("%s: range proof (%s) is decoded without error", gn, what)
			return false
		}
		if _, bad := CheckLeaves(&p, true, read); bad != "" {
			c.Violate("%s: range proof (%s) is decoded although %s", gn, what, bad)
			return false
		}
		c.Event("document_decoded")
		ver++
		if ver%3 != 0 && b > 16 && !c.Thorough() {
			return true
		}
		pn, st = Safe(func() { _, _ = p.Verify() })
		if pn != nil {
			c.Violate("%s: verifying a decoded range proof (%s) crashes: %v [%s]", gn, what, pn, st)
			return false
		}
		c.Event("decoded_verified")
		return true
	})
}

func c13sigma(c *Ctx, gn, ff string) {
	gff, gec := ffGroup(ff), bpGroup(gn)
	p, ok := sigmaOrViolate(c, 16, 64, 160, gff, gec)
	if !ok {
		return
	}
	pf, comm, ok := proveSigma(c, p, B(777), RandMod(c.R, gff.N()), RandMod(c.R, gec.N()), RandMod(c.R, gec.N()), ff+"/"+gn)
	if !ok {
		return
	}
	doc, _ := json.Marshal(pf)
	read := Reader(gff, gec)
	rec := RefOf(gec)
	rff := RefModP(gff.P(), B(4))
	isElem := func(p string) (group.Group, Ref) {
		switch p {
		case "W", "Kp":
			return gff, rff
		case "Kq1", "Kq2":
			return gec, rec
		}
		return nil, nil
	}
	DocMutants(c, doc, 2, isElem, func(what string, d []byte, must bool) bool {
		var q voteproof.SigmaProof
		var err error
		pn, st := Safe(func() { q, err = voteproof.ProofUnmarshalJSON(d, gff, gec) })
		if pn != nil {
			c.Violate("%s/%s: decoding a consistency proof (%s) crashes: %v [%s]", ff, gn, what, pn, st)
			return false
		}
		c.Eval(ff, gn, what, Uint64(string(d)))
		if err != nil {
			c.Event("document_refused")
			if must {
				c.Event("non_member_refused")
			}
			return true
		}
		if must {
			c.Violate("%s/%s: consistency proof (%s) is decoded without error", ff, gn, what)
			return false
		}
		if _, bad := CheckLeaves(&q, true, read); bad != "" {
			c.Violate("%s/%s: consistency proof (%s) is decoded although %s", ff, gn, what, bad)
			return false
		}
		c.Event("document_decoded")
		q.Params = p // the collector's
		pn, st = Safe(func() { _ = q.Verify(comm) })
		if pn != nil {
			c.Violate("%s/%s: verifying a decoded consistency proof (%s) crashes: %v [%s]", ff, gn, what, pn, st)
			return false
		}
		c.Event("decoded_verified")
		return true
	})
}
