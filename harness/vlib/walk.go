package vlib

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"github.com/takakv/msc-poc/group"
)

var (
	elemType = reflect.TypeOf((*group.Element)(nil)).Elem()
	intType  = reflect.TypeOf((*big.Int)(nil))
)

// Leaf is a settable component of a proof structure.
type Leaf struct {
	Path string
	Elem group.Element // nil if scalar
	Int  *big.Int
	set  reflect.Value
}

func (l Leaf) SetElem(e group.Element) { l.set.Set(reflect.ValueOf(&e).Elem()) }
func (l Leaf) SetInt(x *big.Int)       { l.set.Set(reflect.ValueOf(x)) }

// Clone copies a structure so that its leaves can be replaced without touching the original (slices are copied).
func Clone[T any](v T) *T {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	cloneSlices(p.Elem())
	return p.Interface().(*T)
}

func cloneSlices(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				cloneSlices(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		v.Set(n)
		if v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				cloneSlices(v.Index(i))
			}
		}
	}
}

// Leaves lists the components of *ptr; fields named Params are skipped unless params is set.
func Leaves(ptr any, params bool) []Leaf {
	var out []Leaf
	walk(reflect.ValueOf(ptr).Elem(), "", params, &out)
	return out
}

func walk(v reflect.Value, path string, params bool, out *[]Leaf) {
	switch {
	case v.Type() == elemType:
		if !v.IsNil() {
			*out = append(*out, Leaf{Path: path, Elem: v.Interface().(group.Element), set: v})
		}
	case v.Type() == intType:
		if !v.IsNil() {
			*out = append(*out, Leaf{Path: path, Int: v.Interface().(*big.Int), set: v})
		}
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || (f.Name == "Params" && !params) {
				continue
			}
			p := path
			if !f.Anonymous {
				p = strings.TrimPrefix(path+"."+f.Name, ".")
			}
			walk(v.Field(i), p, params, out)
		}
	case v.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), params, out)
		}
	}
}

// Mutation is one altered component.
type Mutation struct {
	Name  string
	Apply func(ptr any) bool // false: not applicable
}

// groupFor picks the group an element belongs to.
func groupFor(e group.Element, gs []group.Group) group.Group {
	for _, g := range gs {
		x := g.Element()
		if reflect.TypeOf(x) == reflect.TypeOf(e) {
			if t, ok := e.(*TElem); ok {
				if t.g == x.(*TElem).g {
					return g
				}
				continue
			}
			if x.GroupOrder().Cmp(e.GroupOrder()) == 0 {
				return g
			}
		}
	}
	Bug("no group for element %T", e)
	return nil
}

// ElemMutants lists elements different from e.
func ElemMutants(c *Ctx, e group.Element, g group.Group, full bool) map[string]group.Element {
	m := map[string]group.Element{
		"+G":     g.Element().Add(e, g.Generator()),
		"neg":    g.Element().Negate(e),
		"ident":  g.Identity(),
		"random": g.Element().BaseScale(RandNZ(c.R, g.N())),
	}
	if full {
		m["double"] = g.Element().Add(e, e)
		m["gen"] = g.Generator()
		m["-G"] = g.Element().Subtract(e, g.Generator())
		m["half"] = g.Element().Scale(e, Inv(B(2), g.N()))
	}
	for k, x := range m {
		if x.IsEqual(e) {
			delete(m, k)
		}
	}
	return m
}

// IntMutants lists integers that differ from x modulo every given order.
func IntMutants(c *Ctx, x *big.Int, orders []*big.Int, full bool) map[string]*big.Int {
	n := orders[0]
	m := map[string]*big.Int{
		"+1":     Add(x, B(1)),
		"-1":     Sub(x, B(1)),
		"zero":   B(0),
		"random": RandMod(c.R, n),
	}
	if full {
		m["neg"] = Sub(n, x)
		m["double"] = Add(x, x)
		m["flip"] = new(big.Int).Xor(x, Pow2(c.R.IntN(200)))
		m["below zero"] = Sub(Neg(x), B(1))
		m["over the order"] = Add(Add(x, n), B(1))
		m["huge"] = Add(x, Pow2(n.BitLen()*2+1))
	}
	for k, y := range m {
		for _, o := range orders {
			if Mod(Sub(x, y), o).Sign() == 0 {
				delete(m, k)
			}
		}
	}
	return m
}

// Mutants calls f with every singly-altered copy of v.
func Mutants[T any](c *Ctx, v T, gs []group.Group, full bool, f func(name string, m *T)) {
	base := Clone(v)
	n := len(Leaves(base, false))
	var orders []*big.Int
	for _, g := range gs {
		orders = append(orders, g.N())
	}
	for i := 0; i < n; i++ {
		l := Leaves(base, false)[i]
		if l.Elem != nil {
			ms := ElemMutants(c, l.Elem, groupFor(l.Elem, gs), full)
			for _, k := range SortedKeys(ms) {
				m := Clone(v)
				Leaves(m, false)[i].SetElem(ms[k])
				f(l.Path+"/"+k, m)
			}
		} else {
			ms := IntMutants(c, l.Int, orders, full)
			for _, k := range SortedKeys(ms) {
				m := Clone(v)
				Leaves(m, false)[i].SetInt(ms[k])
				f(l.Path+"/"+k, m)
			}
		}
	}
}

// Spoiled returns up to n copies of v with one altered component each.
func Spoiled[T any](c *Ctx, v T, gs []group.Group, n int) []*T {
	var all []*T
	Mutants(c, v, gs, false, func(_ string, m *T) { all = append(all, m) })
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:min(n, len(all))]
}

// Swaps calls f with copies in which two components of equal kind are exchanged.
func Swaps[T any](c *Ctx, v T, f func(name string, m *T)) {
	base := Clone(v)
	ls := Leaves(base, false)
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			m := Clone(v)
			ml := Leaves(m, false)
			switch {
			case ls[i].Elem != nil && ls[j].Elem != nil:
				if !SameGroupElem(ls[i].Elem, ls[j].Elem) || ls[i].Elem.IsEqual(ls[j].Elem) {
					continue
				}
				ml[i].SetElem(ls[j].Elem)
				ml[j].SetElem(ls[i].Elem)
			case ls[i].Int != nil && ls[j].Int != nil:
				if ls[i].Int.Cmp(ls[j].Int) == 0 {
					continue
				}
				ml[i].SetInt(ls[j].Int)
				ml[j].SetInt(ls[i].Int)
			default:
				continue
			}
			f(ls[i].Path+"<->"+ls[j].Path, m)
		}
	}
}

// Twins calls f with up to n copies in which two components of equal kind were given one common value: that of
// either of them, or a special one. Components with related names come first.
func Twins[T any](c *Ctx, v T, gs []group.Group, n int, f func(name string, m *T)) {
	base := Clone(v)
	ls := Leaves(base, false)
	var orders []*big.Int
	for _, g := range gs {
		orders = append(orders, g.N())
	}
	same := func(x, y *big.Int) bool { // as residues
		for _, o := range orders {
			if Mod(Sub(x, y), o).Sign() == 0 {
				return true
			}
		}
		return false
	}
	type twin struct {
		what string
		m    *T
	}
	var near, far []twin
	for i := range ls {
		for j := i + 1; j < len(ls); j++ {
			a, b := ls[i], ls[j]
			rel := a.Path[:strings.LastIndexAny("."+a.Path, ".")] == b.Path[:strings.LastIndexAny("."+b.Path, ".")]
			if !rel && c.R.IntN(len(ls)) >= 4 {
				continue
			}
			add := func(what string, set func(l Leaf)) {
				m := Clone(v)
				ml := Leaves(m, false)
				set(ml[i])
				set(ml[j])
				t := twin{a.Path + "=" + b.Path + "=" + what, m}
				if rel {
					near = append(near, t)
				} else {
					far = append(far, t)
				}
			}
			switch {
			case a.Elem != nil && b.Elem != nil && SameGroupElem(a.Elem, b.Elem):
				g := groupFor(a.Elem, gs)
				vals := map[string]group.Element{"first": a.Elem, "second": b.Elem, "generator": g.Generator(), "identity": g.Identity()}
				for _, k := range SortedKeys(vals) {
					x := vals[k]
					if !x.IsEqual(a.Elem) || !x.IsEqual(b.Elem) {
						add(k, func(l Leaf) { l.SetElem(x) })
					}
				}
			case a.Int != nil && b.Int != nil:
				vals := map[string]*big.Int{"first": a.Int, "second": b.Int, "zero": B(0), "one": B(1)}
				for _, k := range SortedKeys(vals) {
					x := vals[k]
					if !same(x, a.Int) || !same(x, b.Int) {
						add(k, func(l Leaf) { l.SetInt(x) })
					}
				}
			}
		}
	}
	for _, l := range [][]twin{near, far} {
		c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	for i := 0; i < n; i++ {
		if i < len(near) {
			f(near[i].what, near[i].m)
		}
		if i%4 == 0 && i/4 < len(far) {
			f(far[i/4].what, far[i/4].m)
		}
	}
}

// Splices calls f with copies of a in which one component is taken from b.
func Splices[T any](a, b T, f func(name string, m *T)) {
	la, lb := Leaves(Clone(a), false), Leaves(Clone(b), false)
	byPath := map[string]Leaf{}
	for _, l := range lb {
		byPath[l.Path] = l
	}
	for i, l := range la {
		o, ok := byPath[l.Path]
		if !ok {
			continue
		}
		m := Clone(a)
		ml := Leaves(m, false)
		if l.Elem != nil && o.Elem != nil {
			if l.Elem.IsEqual(o.Elem) {
				continue
			}
			ml[i].SetElem(o.Elem)
		} else if l.Int != nil && o.Int != nil {
			if l.Int.Cmp(o.Int) == 0 {
				continue
			}
			ml[i].SetInt(o.Int)
		} else {
			continue
		}
		f("splice "+l.Path, m)
	}
}

// SameGroupElem tells whether two elements can be compared.
func SameGroupElem(a, b group.Element) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if t, ok := a.(*TElem); ok {
		return t.g == b.(*TElem).g
	}
	return a.GroupOrder().Cmp(b.GroupOrder()) == 0
}

func SortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

// ---- observation of a run over a transparent group ----

type ScaleObs struct {
	X *TElem
	S *big.Int
}

// Obs is what the hooks of a transparent group saw.
type Obs struct {
	Scales []ScaleObs
	Resid  []*TElem // non-zero differences of compared elements, non-zero operands of identity tests
}

// Observe runs f with hooks installed.
func (g *TGroup) Observe(f func()) Obs {
	var o Obs
	var mu sync.Mutex
	g.OnScale = func(x *TElem, s *big.Int) {
		mu.Lock()
		defer mu.Unlock()
		o.Scales = append(o.Scales, ScaleObs{x, s})
	}
	add := func(e *TElem) {
		mu.Lock()
		defer mu.Unlock()
		e = e.Clone()
		e.c = trim(e.c)
		if len(e.c) > 0 && len(o.Resid) < 64 {
			o.Resid = append(o.Resid, e)
		}
	}
	g.OnEqual = func(a, b *TElem) {
		add(&TElem{g: g, c: lin(g.q, a.c, b.c, new(big.Int).Sub(g.q, big.NewInt(1)))})
	}
	g.OnIdentity = func(a *TElem) { add(a) }
	defer func() { g.OnScale, g.OnEqual, g.OnIdentity = nil, nil, nil }()
	Safe(f)
	return o
}

// Factors lists the distinct scalars X was multiplied with.
func (o Obs) Factors(x group.Element) []*big.Int {
	t := x.(*TElem)
	var out []*big.Int
	for _, s := range o.Scales {
		if !t.same(s.X) {
			continue
		}
		dup := false
		for _, v := range out {
			if v.Cmp(s.S) == 0 {
				dup = true
			}
		}
		if !dup {
			out = append(out, s.S)
		}
	}
	return out
}

// Plus returns e + f*o.
func (e *TElem) Plus(o *TElem, f *big.Int) *TElem {
	return &TElem{g: e.g, c: lin(e.g.q, e.c, o.c, Mod(f, e.g.q))}
}

func (e *TElem) Same(o *TElem) bool { return e.same(o) }

// checkLeaves walks all exported components; a nil scalar or element outside of Params is an omission.
func checkLeaves(ptr any, params bool, read func(e group.Element) error) (n int, bad string) {
	var w func(v reflect.Value, path string, inParams bool)
	w = func(v reflect.Value, path string, inParams bool) {
		if bad != "" {
			return
		}
		switch {
		case v.Type() == elemType:
			if v.IsNil() {
				if !inParams {
					bad = path + " is missing"
				}
				return
			}
			n++
			var err error
			if p, _ := Safe(func() { err = read(v.Interface().(group.Element)) }); p != nil {
				bad = fmt.Sprintf("%s is unusable: %v", path, p)
			} else if err != nil {
				bad = fmt.Sprintf("%s: %v", path, err)
			}
		case v.Type() == intType:
			n++
			if v.IsNil() && !inParams {
				bad = path + " is missing"
			}
		case v.Kind() == reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() || (f.Name == "Params" && !params) {
					continue
				}
				p := path
				if !f.Anonymous {
					p = strings.TrimPrefix(path+"."+f.Name, ".")
				}
				w(v.Field(i), p, inParams || f.Name == "Params")
			}
		case v.Kind() == reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				w(v.Index(i), fmt.Sprintf("%s[%d]", path, i), inParams)
			}
		}
	}
	w(reflect.ValueOf(ptr).Elem(), "", false)
	return
}
