package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"testing"
	"time"

	zzbp "github.com/takakv/msc-poc/bulletproofs"
	zzgroup "github.com/takakv/msc-poc/group"
	zzvp "github.com/takakv/msc-poc/voteproof"
	zzv "github.com/takakv/msc-poc/zzverif/vlib"
)

var zz_checks []zzv.Check

func TestVerif(t *testing.T) { zzv.Main(t, zz_checks) }

// zz_call calls a function of the program, supplying arguments by type (so that by-value and by-pointer
// parameters or an added parameter of a known type make no difference), and returns the results.
func zz_call(f any, pool ...any) []reflect.Value {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	used := make([]bool, len(pool))
	var in []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		want := ft.In(i)
		found := false
		for pass := 0; pass < 2 && !found; pass++ {
			for k, a := range pool {
				if a == nil || (pass == 0 && used[k]) {
					continue
				}
				av := reflect.ValueOf(a)
				switch {
				case av.Type().AssignableTo(want) && (want.Kind() != reflect.Interface || want.NumMethod() > 0):
				case want.Kind() == reflect.Ptr && av.Type() == want.Elem():
					p := reflect.New(av.Type())
					p.Elem().Set(av)
					av = p
				case av.Kind() == reflect.Ptr && av.Type().Elem() == want:
					av = av.Elem()
				default:
					continue
				}
				in = append(in, av)
				used[k] = true
				found = true
				break
			}
		}
		if !found {
			zzv.Bug("no argument of type %v for %v", want, ft)
		}
	}
	return fv.Call(in)
}

func zz_result[T any](rs []reflect.Value) T {
	var z T
	for _, r := range rs {
		if r.Type() == reflect.TypeOf(z) {
			return r.Interface().(T)
		}
		if r.Kind() == reflect.Ptr && r.Type().Elem() == reflect.TypeOf(z) {
			return r.Elem().Interface().(T)
		}
	}
	zzv.Bug("no result of type %T", z)
	return z
}

func zz_cast(pp PublicParameters) BallotData { return zz_result[BallotData](zz_call(castVote, pp)) }

func zz_verify(bd BallotData, pp PublicParameters) bool {
	return zz_result[bool](zz_call(verifyVote, bd, pp.RPParams, pp, pp.BPParams))
}

func zz_encrypt(choice uint16, pp PublicParameters) (ElGamalCiphertext, *big.Int) {
	rs := zz_call(encryptVote, choice, pp.EGPK, pp.FFGroupParams.I, pp.FFGroupParams, pp)
	return zz_result[ElGamalCiphertext](rs), zz_resultInt(rs)
}

func zz_resultInt(rs []reflect.Value) *big.Int {
	for _, r := range rs {
		if x, ok := r.Interface().(*big.Int); ok {
			return x
		}
	}
	zzv.Bug("no integer result")
	return nil
}

func zz_decode(b []byte, pp PublicParameters) (BallotData, error) {
	rs := zz_call(BallotDataUnmarshalJSON, b, pp)
	var err error
	for _, r := range rs {
		if e, ok := r.Interface().(error); ok {
			err = e
		}
	}
	if err != nil {
		return BallotData{}, err
	}
	return zz_result[BallotData](rs), nil
}

func zz_encode(c *zzv.Ctx, bd BallotData) []byte {
	b, err := json.Marshal(bd)
	if err != nil {
		c.Violate("ballot can not be serialized: %v", err)
		return nil
	}
	return b
}

// zz_elec is one election.
type zz_elec struct {
	Name   string
	pp     PublicParameters
	ec, ff string
	tec    *zzv.TGroup // set if transparent
	tff    *zzv.TGroup
	sk     *big.Int // secret key (real groups)
	lo, hi uint16
	table  map[string]int
	ref    zzv.Ref
}

type zz_opt struct {
	bc uint16 // challenge length, default 224
	bp int64  // range of the range proofs, default 65536
	sk *big.Int
}

var zz_bpCacheMu sync.Mutex
var zz_bpCache = map[string]zzbp.BulletProofSetupParams{}

func zz_ffGroup(ff string) zzgroup.Group {
	switch ff {
	case "transparent":
		return zzv.TField()
	case "rfc":
		return zzv.RFCGroup()
	}
	n := 0
	fmt.Sscanf(ff, "modp%d", &n)
	return zzv.ModP(n)
}

// zz_election builds public parameters the way the program's setup does, for other ranges, keys and groups.
func zz_election(c *zzv.Ctx, ec, ff string, lo, hi uint16, o zz_opt) *zz_elec {
	e := &zz_elec{Name: fmt.Sprintf("%s/%s [%d,%d]", ec, ff, lo, hi), ec: ec, ff: ff, lo: lo, hi: hi}
	if o.bc == 0 {
		o.bc = 224
	}
	if o.bp == 0 {
		o.bp = 65536
	}
	var gec zzgroup.Group
	if ec == "transparent" {
		e.tec = zzv.TCurve()
		gec = e.tec
	} else {
		gec = zzv.Curve(ec)
	}
	gff := zz_ffGroup(ff)
	var key zzgroup.Element
	if ff == "transparent" {
		e.tff = gff.(*zzv.TGroup)
		key, _ = gff.Element().MapToGroup("verif-election-key")
	} else {
		e.sk = o.sk
		if e.sk == nil {
			e.sk = zzv.RandNZ(c.R, gff.N())
		}
		key = gff.Element().BaseScale(e.sk)
		if ff == "rfc" {
			e.ref = zzv.RefModP(zzv.RFCPrime(), zzv.B(2))
		} else {
			e.ref = zzv.Named(ff).R
		}
	}
	ck := fmt.Sprintf("%s/%d", ec, o.bp)
	zz_bpCacheMu.Lock()
	bpp, ok := zz_bpCache[ck]
	zz_bpCacheMu.Unlock()
	if !ok || ec == "transparent" {
		var err error
		bpp, err = zzbp.Setup(o.bp, gec)
		if err != nil {
			c.Violate("%s: range-proof setup for %d fails: %v", ec, o.bp, err)
			zzv.Bug("range-proof setup for %s fails: %v", ec, err)
		}
		if ec != "transparent" {
			zz_bpCacheMu.Lock()
			zz_bpCache[ck] = bpp
			zz_bpCacheMu.Unlock()
		}
	}
	var ap zzvp.AlgebraicParameters
	ap.GFF = zzvp.GroupParameters{G: gff.Generator(), H: key, N: gff.N(), F: gff.P(), I: gff}
	ap.GEC = zzvp.GroupParameters{G: gec.Generator(), H: bpp.H, N: gec.N(), F: gec.P(), I: gec}
	rp, err := zzvp.Setup(16, o.bc, uint16(gec.N().BitLen()), lo, hi, ap)
	if err != nil {
		c.Violate("%s: consistency-proof setup fails: %v", e.Name, err)
		zzv.Bug("consistency-proof setup fails: %v", err)
	}
	e.pp = PublicParameters{FFGroupParams: ap.GFF, ECGroupParams: ap.GEC, EGPK: key, candidateMin: lo, candidateMax: hi, BPParams: bpp, RPParams: rp}
	return e
}

func (e *zz_elec) groups() []zzgroup.Group {
	return []zzgroup.Group{e.pp.FFGroupParams.I, e.pp.ECGroupParams.I}
}

// plain decrypts to the exponent of the plaintext; ok is false if it is no number up to 65535 (or the
// ciphertext is malformed).
func (e *zz_elec) plain(ct ElGamalCiphertext) (int, bool) {
	if e.tff != nil {
		U, V := ct.U.(*zzv.TElem), ct.V.(*zzv.TElem)
		kb, _, _ := e.pp.EGPK.(*zzv.TElem).SingleBasis()
		for _, b := range U.Support() {
			if b != 0 {
				return 0, false
			}
		}
		for _, b := range V.Support() {
			if b != 0 && b != kb {
				return 0, false
			}
		}
		if V.Coef(kb).Cmp(U.Coef(0)) != 0 || V.Coef(0).BitLen() > 16 {
			return 0, false
		}
		return int(V.Coef(0).Int64()), true
	}
	u, err := e.ref.Read(ct.U)
	if err != nil {
		return 0, false
	}
	v, err := e.ref.Read(ct.V)
	if err != nil {
		return 0, false
	}
	if e.table == nil {
		e.table = make(map[string]int, 65536)
		x := e.ref.Zero()
		for i := 0; i < 65536; i++ {
			e.table[e.ref.Key(x)] = i
			x = e.ref.Add(x, e.ref.Gen())
		}
	}
	m := e.ref.Add(v, e.ref.Mul(u, zzv.Mod(zzv.Neg(e.sk), e.ref.Order())))
	i, ok := e.table[e.ref.Key(m)]
	return i, ok
}

// castJudged casts one ballot and judges termination and the verdict.
func (e *zz_elec) castJudged(c *zzv.Ctx) (BallotData, bool) {
	var bd BallotData
	c.Tape.Op(200000)
	pn, st := zzv.Safe(func() { bd = zz_cast(e.pp) })
	c.Tape.Op(0)
	if pn != nil {
		c.Violate("%s: casting a vote fails: %v [%s]", e.Name, pn, st)
		return bd, false
	}
	ok := false
	pn, st = zzv.Safe(func() { ok = zz_verify(bd, e.pp) })
	if pn != nil {
		c.Violate("%s: verifying an honest ballot crashes: %v [%s]", e.Name, pn, st)
		return bd, false
	}
	if !ok {
		m, _ := e.plain(bd.Ballot)
		c.Violate("%s: honest ballot (candidate %d) is rejected", e.Name, m)
		return bd, false
	}
	c.Event("honest_ballot_accepted")
	return bd, true
}

func (e *zz_elec) accepted(c *zzv.Ctx, bd BallotData) bool {
	return zzv.Verdict(c, func() (bool, error) { return zz_verify(bd, e.pp), nil })
}

// acceptedWire sends the ballot through the wire format first.
func (e *zz_elec) acceptedWire(c *zzv.Ctx, bd BallotData) bool {
	return zzv.Verdict(c, func() (bool, error) {
		b, err := json.Marshal(bd)
		if err != nil {
			return false, err
		}
		d, err := zz_decode(b, e.pp)
		if err != nil {
			c.Event("refused_by_decoder")
			return false, nil
		}
		return zz_verify(d, e.pp), nil
	})
}

var _ = time.Now
