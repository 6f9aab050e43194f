package vlib

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/takakv/msc-poc/group"
)

// JNode is a place in a JSON document.
type JNode struct {
	Path string
	Val  any
	set  func(root any, v any, del bool)
}

// ParseJSON keeps numbers exact.
func ParseJSON(doc []byte) any {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		Bug("own document does not parse: %v", err)
	}
	return v
}

func jcopy(v any) any {
	switch t := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[k] = jcopy(x)
		}
		return m
	case []any:
		a := make([]any, len(t))
		for i, x := range t {
			a[i] = jcopy(x)
		}
		return a
	}
	return v
}

// JPaths lists all places below the root, in a fixed order.
func JPaths(v any) []string {
	var out []string
	var w func(v any, p string)
	w = func(v any, p string) {
		if p != "" {
			out = append(out, p)
		}
		switch t := v.(type) {
		case map[string]any:
			for _, k := range SortedKeys(t) {
				w(t[k], strings.TrimPrefix(p+"/"+k, "/"))
			}
		case []any:
			for i := range t {
				w(t[i], fmt.Sprintf("%s/%d", p, i))
			}
		}
	}
	w(v, "")
	return out
}

// JGet looks a place up.
func JGet(v any, path string) any {
	for _, k := range strings.Split(path, "/") {
		switch t := v.(type) {
		case map[string]any:
			v = t[k]
		case []any:
			i := 0
			fmt.Sscanf(k, "%d", &i)
			if i >= len(t) {
				return nil
			}
			v = t[i]
		default:
			return nil
		}
	}
	return v
}

// JSet returns a document with one place replaced (del: removed).
func JSet(root any, path string, val any, del bool) []byte {
	r := jcopy(root)
	ks := strings.Split(path, "/")
	var up func(v any, ks []string) any
	up = func(v any, ks []string) any {
		if len(ks) == 0 {
			return val
		}
		switch t := v.(type) {
		case map[string]any:
			if len(ks) == 1 && del {
				delete(t, ks[0])
			} else {
				t[ks[0]] = up(t[ks[0]], ks[1:])
			}
			return t
		case []any:
			i := 0
			fmt.Sscanf(ks[0], "%d", &i)
			if i >= len(t) {
				return t
			}
			if len(ks) == 1 && del {
				return append(append([]any{}, t[:i]...), t[i+1:]...)
			}
			t[i] = up(t[i], ks[1:])
			return t
		}
		return v
	}
	r = up(r, ks)
	b, err := json.Marshal(r)
	if err != nil {
		Bug("mutated document does not serialize: %v", err)
	}
	return b
}

// JPattern collapses list indices.
func JPattern(path string) string { return regexp.MustCompile(`/\d+`).ReplaceAllString(path, "/*") }

// JVal is a replacement value.
type JVal struct {
	Kind string
	Val  any
	Del  bool
	// Malformed: certainly no value of the kind that was there (element or list).
	Malformed bool
}

var huge = new(big.Int).Lsh(big.NewInt(1), 20000)

// JValues lists hostile replacements for a value.
func JValues(c *Ctx, old any) []JVal {
	num := func(s string) json.Number { return json.Number(s) }
	out := []JVal{
		{"delete", nil, true, true}, {"null", nil, false, true}, {"true", true, false, true},
		{"{}", map[string]any{}, false, true}, {"[]", []any{}, false, true}, {"[[]]", []any{[]any{}}, false, true},
		{"empty string", "", false, true}, {"text", "AAAA", false, true}, {"garbage", "\x00\xff{[", false, true}, {"long text", strings.Repeat("A", 3000), false, true},
		{"0", num("0"), false, false}, {"1", num("1"), false, false}, {"-1", num("-1"), false, false}, {"1.5", num("1.5"), false, true}, {"1e400", num("1e400"), false, true}, {"-0", num("-0"), false, false},
		{"huge", num(huge.String()), false, false}, {"-huge", num("-" + huge.String()), false, false}, {"2^64", num("18446744073709551616"), false, false}, {"2^31", num("2147483648"), false, false},
		{"nested", map[string]any{"X": map[string]any{"X": num("1")}, "x": []any{num("1")}}, false, true},
	}
	switch t := old.(type) {
	case []any:
		if len(t) > 0 {
			out = append(out, JVal{"drop first", t[1:], false, false}, JVal{"drop last", t[:len(t)-1], false, false}, JVal{"one", t[:1], false, false},
				JVal{"repeat last", append(append([]any{}, t...), t[len(t)-1]), false, false}, JVal{"doubled", append(append([]any{}, t...), t...), false, false},
				JVal{"nulls", make([]any, len(t)), false, true}, JVal{"longer with nulls", append(append([]any{}, t...), make([]any, 40)...), false, true})
			big := []any{}
			for len(big) < 300 {
				big = append(big, t[0])
			}
			out = append(out, JVal{"300 entries", big, false, false})
		}
	case string:
		if len(t) > 2 {
			b := []byte(t)
			b[c.R.IntN(len(b))] ^= 1
			out = append(out, JVal{"cut", t[:len(t)-1], false, false}, JVal{"cut half", t[:len(t)/2], false, false}, JVal{"doubled", t + t, false, false}, JVal{"flipped", string(b), false, false})
		}
	case json.Number:
		s := t.String()
		if len(s) > 1 {
			out = append(out, JVal{"cut", num(strings.TrimLeft(s[1:], "0") + "0"), false, false}, JVal{"doubled", num(s + s), false, false}, JVal{"negated", num("-" + strings.TrimPrefix(s, "-")), false, false}, JVal{"as text", s, false, false})
		}
	}
	return out
}

// JMember is an encoding of something that is not a group member.
type JMember struct {
	Kind string
	Val  any
	Doc  []byte
}

// NonMembers lists JSON encodings of well-formed values that are no members of the group, judged by the
// independent reference alone.
func NonMembers(c *Ctx, g group.Group, r Ref, sample any) []JMember {
	num := func(x *big.Int) json.Number { return json.Number(x.String()) }
	var out []JMember
	add := func(k string, v any) {
		b, err := json.Marshal(v)
		if err != nil {
			Bug("%v", err)
		}
		out = append(out, JMember{k, v, b})
	}
	switch t := sample.(type) {
	case map[string]any:
		w, ok := r.(*weier)
		if !ok {
			Bug("coordinates in group %s", r.Name())
		}
		var kx, ky string
		for k := range t {
			if strings.EqualFold(k, "x") {
				kx = k
			}
			if strings.EqualFold(k, "y") {
				ky = k
			}
		}
		if kx == "" || ky == "" {
			Bug("unknown point encoding %v", SortedKeys(t))
		}
		get := func(k string) *big.Int {
			x, _ := new(big.Int).SetString(t[k].(json.Number).String(), 10)
			return x
		}
		x, y := get(kx), get(ky)
		pt := func(k string, x, y *big.Int) {
			inField := x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(w.p) < 0 && y.Cmp(w.p) < 0
			if inField && (w.OnCurve(x, y) || (x.Sign() == 0 && y.Sign() == 0)) {
				return
			}
			m := map[string]any{}
			for q, v := range t {
				m[q] = v
			}
			m[kx], m[ky] = num(x), num(y)
			add(k, m)
		}
		pt("y+1", x, Add(y, B(1)))
		pt("x+1", Add(x, B(1)), y)
		pt("x+p", Add(x, w.p), y)
		pt("y+p", x, Add(y, w.p))
		pt("x-p", Sub(x, w.p), y)
		pt("y-p", x, Sub(y, w.p))
		pt("-y", x, Neg(y))
		pt("swapped", y, x)
		pt("(0,1)", B(0), B(1))
		pt("(1,1)", B(1), B(1))
		pt("(p,p)", w.p, w.p)
		pt("(x,0)", x, B(0))
		pt("(0,y)", B(0), y)
		pt("(0,p)", B(0), w.p)
		pt("huge", huge, huge)
		pt("random", RandMod(c.R, w.p), RandMod(c.R, w.p))
		// a point of the twist / of another curve a, b'
		for i := int64(1); i < 4; i++ {
			pt("off-curve", RandMod(c.R, w.p), B(i))
		}
	case string:
		rs, ok := r.(*rist)
		if !ok {
			Bug("text in group %s", r.Name())
		}
		bad := func(k string, b []byte) {
			if len(b) == 32 {
				if _, err := rs.decode(b); err == nil {
					return
				}
			}
			add(k, base64.StdEncoding.EncodeToString(b))
		}
		leb := func(x *big.Int) []byte {
			b := make([]byte, 32)
			Mod(x, Pow2(256)).FillBytes(b)
			for i, j := 0, 31; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return b
		}
		own, _ := base64.StdEncoding.DecodeString(t)
		if len(own) == 32 {
			s := le(own)
			bad("s+p", leb(Add(s, rs.p)))
			bad("-s", leb(Sub(rs.p, s)))
			bad("high bit", leb(Add(s, Pow2(255))))
			bad("s+1", leb(Add(s, B(1))))
			bad("s+2", leb(Add(s, B(2))))
			bad("cut", own[:31])
			bad("longer", append(append([]byte{}, own...), 0))
			bad("doubled", append(append([]byte{}, own...), own...))
		}
		bad("p", leb(rs.p))
		bad("p+1", leb(Add(rs.p, B(1))))
		bad("p-1", leb(Sub(rs.p, B(1))))
		bad("ones", leb(Sub(Pow2(256), B(1))))
		bad("2^255-1", leb(Sub(Pow2(255), B(1))))
		bad("2^255", leb(Pow2(255)))
		bad("1", leb(B(1)))
		bad("empty", nil)
		bad("one byte", []byte{0})
		for i := 0; i < 6; i++ {
			bad("random", leb(RandBits(c.R, 256)))
		}
	case json.Number:
		m, ok := r.(*modp)
		if !ok {
			Bug("number in group %s", r.Name())
		}
		x, _ := new(big.Int).SetString(t.String(), 10)
		n := func(k string, v *big.Int) {
			if v.Sign() > 0 && v.Cmp(m.p) < 0 && big.Jacobi(v, m.p) == 1 {
				return
			}
			add(k, num(v))
		}
		n("p-x", Sub(m.p, x))
		n("-x", Neg(x))
		n("x+p", Add(x, m.p))
		n("0", B(0))
		n("p", m.p)
		n("p-1", Sub(m.p, B(1)))
		n("p+1", Add(m.p, B(1)))
		n("-1", B(-1))
		n("2p", Mul(m.p, B(2)))
		n("huge", huge)
		nr := B(2)
		for big.Jacobi(nr, m.p) != -1 {
			nr = Add(nr, B(1))
		}
		n("non-residue", nr)
		n("x*non-residue", MulM(x, nr, m.p))
	default:
		Bug("unknown element encoding %T", sample)
	}
	return out
}

// CheckLeaves reports components of a decoded structure that are missing or no members; params: also the embedded
// parameters' elements. refs maps a group to its reference.
func CheckLeaves(ptr any, params bool, read func(e group.Element) error) (n int, bad string) {
	return checkLeaves(ptr, params, read)
}

// SameLeaves compares two structures component by component.
func SameLeaves(c *Ctx, what string, a, b any, params bool) bool {
	la, lb := Leaves(a, params), Leaves(b, params)
	if len(la) != len(lb) {
		c.Violate("%s: %d components become %d", what, len(la), len(lb))
		return false
	}
	for i := range la {
		if la[i].Path != lb[i].Path {
			c.Violate("%s: component %s becomes %s", what, la[i].Path, lb[i].Path)
			return false
		}
		if la[i].Elem != nil {
			x, _ := la[i].Elem.MarshalBinary()
			y, _ := lb[i].Elem.MarshalBinary()
			if lb[i].Elem == nil || !la[i].Elem.IsEqual(lb[i].Elem) || string(x) != string(y) || la[i].Elem.String() != lb[i].Elem.String() {
				c.Violate("%s: element %s changes: %.60s becomes %.60s", what, la[i].Path, la[i].Elem, lb[i].Elem)
				return false
			}
		} else if lb[i].Int == nil || la[i].Int.Cmp(lb[i].Int) != 0 {
			c.Violate("%s: number %s changes: %v becomes %v", what, la[i].Path, la[i].Int, lb[i].Int)
			return false
		}
		c.Event("component_compared")
	}
	return true
}

// Reader tells whether an element is a member, whichever of the groups it belongs to.
func Reader(gs ...group.Group) func(e group.Element) error {
	type gr struct {
		g group.Group
		r Ref
	}
	var l []gr
	for _, g := range gs {
		if strings.HasPrefix(g.Name(), "ModP") || strings.HasPrefix(g.Name(), "RFC") {
			gen := B(4)
			if strings.HasPrefix(g.Name(), "RFC") {
				gen = B(2)
			}
			l = append(l, gr{g, RefModP(g.P(), gen)})
		} else {
			l = append(l, gr{g, RefOf(g)})
		}
	}
	return func(e group.Element) error {
		for _, x := range l {
			if SameGroupElem(e, x.g.Element()) {
				_, err := x.r.Read(e)
				return err
			}
		}
		return fmt.Errorf("element of an unknown group")
	}
}

// DocMutants runs structural and value mutations of a document. isElem: the place holds a group element whose
// absence or malformation must be reported.
func DocMutants(c *Ctx, doc []byte, per int, isElem func(path string) (group.Group, Ref), f func(what string, doc []byte, must bool) bool) {
	root := ParseJSON(doc)
	byPat := map[string][]string{}
	for _, p := range JPaths(root) {
		byPat[JPattern(p)] = append(byPat[JPattern(p)], p)
	}
	for _, pat := range SortedKeys(byPat) {
		ps := byPat[pat]
		for k := 0; k < per && k < len(ps); k++ {
			p := ps[c.R.IntN(len(ps))]
			if k == 0 {
				p = ps[len(ps)-1]
			}
			var g group.Group
			var r Ref
			if isElem != nil {
				g, r = isElem(p)
			}
			old := JGet(root, p)
			for _, v := range JValues(c, old) {
				if !f(p+": "+v.Kind, JSet(root, p, v.Val, v.Del), g != nil && v.Malformed && !(v.Del && strings.HasSuffix(pat, "/*"))) {
					return
				}
			}
			if g != nil {
				for _, nm := range NonMembers(c, g, r, old) {
					if !f(p+": non-member "+nm.Kind, JSet(root, p, nm.Val, false), true) {
						return
					}
				}
			}
		}
	}
	// sister lists changed together: their lengths agree, only not with what the proof needs
	sisters := map[string][]string{}
	for _, p := range JPaths(root) {
		if l, ok := JGet(root, p).([]any); ok && len(l) > 0 {
			up := ""
			if i := strings.LastIndex(p, "/"); i >= 0 {
				up = p[:i]
			}
			k := fmt.Sprintf("%s#%d", up, len(l))
			sisters[k] = append(sisters[k], p)
		}
	}
	for _, k := range SortedKeys(sisters) {
		ps := sisters[k]
		if len(ps) < 2 {
			continue
		}
		for _, how := range []string{"[]", "drop first", "drop last", "one", "repeat last", "repeat last twice", "doubled", "70 entries", "reversed"} {
			var d any = root
			for _, p := range ps {
				t := JGet(root, p).([]any)
				n := len(t)
				var o []any
				switch how {
				case "[]":
					o = []any{}
				case "drop first":
					o = t[1:]
				case "drop last":
					o = t[:n-1]
				case "one":
					o = t[:1]
				case "repeat last":
					o = append(append([]any{}, t...), t[n-1])
				case "repeat last twice":
					o = append(append([]any{}, t...), t[n-1], t[n-1])
				case "doubled":
					o = append(append([]any{}, t...), t...)
				case "70 entries":
					for len(o) < 70 {
						o = append(o, t[len(o)%n])
					}
				case "reversed":
					for i := range t {
						o = append(o, t[n-1-i])
					}
				}
				d = ParseJSON(JSet(d, p, o, false))
			}
			b, _ := json.Marshal(d)
			if !f(strings.Join(ps, "+")+": "+how, b, false) {
				return
			}
		}
	}
	// elements and numbers replaced by special ones, alone and everywhere at once
	if isElem != nil {
		var all []string
		for _, p := range JPaths(root) {
			if g, _ := isElem(p); g != nil {
				all = append(all, p)
			}
		}
		for _, kind := range []string{"identity", "generator", "same"} {
			var every any = root
			for _, p := range all {
				g, _ := isElem(p)
				e := g.Identity()
				if kind == "generator" {
					e = g.Generator()
				}
				b, err := e.MarshalJSON()
				if err != nil {
					continue
				}
				v := ParseJSON(b)
				if kind == "same" {
					v = nil
					for _, o := range all {
						if og, _ := isElem(o); og == g {
							v = JGet(root, o)
							break
						}
					}
				}
				if !f(p+": "+kind, JSet(root, p, v, false), false) {
					return
				}
				every = ParseJSON(JSet(every, p, v, false))
			}
			b, _ := json.Marshal(every)
			if !f("all elements: "+kind, b, false) {
				return
			}
		}
	}
	for _, z := range []string{"0", "1", "-1"} {
		var every any = root
		for _, p := range JPaths(root) {
			if strings.Contains(strings.ToLower(p), "params") {
				continue
			}
			if _, ok := JGet(root, p).(json.Number); ok {
				every = ParseJSON(JSet(every, p, json.Number(z), false))
			}
		}
		b, _ := json.Marshal(every)
		if !f("all numbers: "+z, b, false) {
			return
		}
	}
	// several places at once
	paths := JPaths(root)
	for i := 0; i < 60; i++ {
		var d any = root
		what := ""
		for k := 0; k < 2+c.R.IntN(3); k++ {
			p := paths[c.R.IntN(len(paths))]
			vs := JValues(c, JGet(root, p))
			v := vs[c.R.IntN(len(vs))]
			if v.Malformed && c.R.IntN(4) > 0 {
				continue
			}
			if JGet(d, p) == nil {
				continue
			}
			d = ParseJSON(JSet(d, p, v.Val, v.Del))
			what += p + ": " + v.Kind + "; "
		}
		b, _ := json.Marshal(d)
		if !f("several: "+what, b, false) {
			return
		}
	}
	for _, s := range []string{"", "null", "[]", "{}", "0", "true", "\"\"", "{", "[[[[", "\x00", string(doc[:len(doc)/2]), string(doc[:len(doc)-1]), string(doc) + "}", string(doc) + string(doc), strings.Repeat("{\"a\":", 11000)} {
		if !f("text", []byte(s), true) {
			return
		}
	}
	for i := 0; i < 40; i++ {
		b := append([]byte{}, doc...)
		for k := 0; k <= c.R.IntN(3); k++ {
			b[c.R.IntN(len(b))] = []byte("0123456789{}[]\",:.-eE\x00\xff")[c.R.IntN(23)]
		}
		if !f("flipped bytes", b, false) {
			return
		}
	}
}
