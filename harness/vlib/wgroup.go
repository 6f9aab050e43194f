package vlib

import (
	"math/big"
	"sync"

	"github.com/takakv/msc-poc/group"
)

// WGroup stands in front of one of the repository's groups and notes the scalars its elements are multiplied with.
// Everything else, texts and encodings included, is that of the group behind it.
type WGroup struct {
	group.Group
	mu     sync.Mutex
	scales []wScale
	on     bool
	// Twist, if set, may replace the result of an operation.
	Twist func(i int, e group.Element) group.Element
	ops   int
}

type wScale struct {
	x string
	s *big.Int
}

// WElem is an element of a WGroup. The embedded nil interface keeps it an Element when methods are added to that
// interface; calling one of those is a panic the cases report as such.
type WElem struct {
	group.Element
	g *WGroup
	e group.Element
}

func NewWGroup(g group.Group) *WGroup { return &WGroup{Group: g} }

func (g *WGroup) wrap(e group.Element) group.Element { return &WElem{g: g, e: e} }
func (g *WGroup) Element() group.Element             { return g.wrap(g.Group.Element()) }
func (g *WGroup) Generator() group.Element           { return g.wrap(g.Group.Generator()) }
func (g *WGroup) Identity() group.Element            { return g.wrap(g.Group.Identity()) }
func (g *WGroup) Random() group.Element              { return g.wrap(g.Group.Random()) }

func key(e group.Element) string {
	b, _ := e.MarshalBinary()
	return string(b)
}

// Observe runs f and returns the scalars elements were multiplied with.
func (g *WGroup) Observe(f func()) func(x group.Element) []*big.Int {
	g.mu.Lock()
	g.scales, g.on = nil, true
	g.mu.Unlock()
	Safe(f)
	g.mu.Lock()
	sc := g.scales
	g.scales, g.on = nil, false
	g.mu.Unlock()
	return func(x group.Element) []*big.Int {
		k := key(x)
		var out []*big.Int
		for _, s := range sc {
			if s.x == k {
				out = append(out, s.s)
			}
		}
		return out
	}
}

// Ops counts the operations so far and starts again from zero.
func (g *WGroup) Ops() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := g.ops
	g.ops = 0
	return n
}

func (e *WElem) in(a group.Element) group.Element {
	w, ok := a.(*WElem)
	if !ok {
		panic("incompatible group element type")
	}
	return w.e
}

func (e *WElem) out() group.Element {
	e.g.mu.Lock()
	i := e.g.ops
	e.g.ops++
	tw := e.g.Twist
	e.g.mu.Unlock()
	if tw != nil {
		e.e = tw(i, e.e)
	}
	return e
}

func (e *WElem) Add(a, b group.Element) group.Element {
	e.e = e.g.Group.Element().Add(e.in(a), e.in(b))
	return e.out()
}
func (e *WElem) Subtract(a, b group.Element) group.Element {
	e.e = e.g.Group.Element().Subtract(e.in(a), e.in(b))
	return e.out()
}
func (e *WElem) Negate(a group.Element) group.Element {
	e.e = e.g.Group.Element().Negate(e.in(a))
	return e.out()
}
func (e *WElem) Scale(a group.Element, s *big.Int) group.Element {
	x := e.in(a)
	e.g.mu.Lock()
	if e.g.on {
		e.g.scales = append(e.g.scales, wScale{key(x), new(big.Int).Set(s)})
	}
	e.g.mu.Unlock()
	e.e = e.g.Group.Element().Scale(x, s)
	return e.out()
}
func (e *WElem) BaseScale(s *big.Int) group.Element {
	e.e = e.g.Group.Element().BaseScale(s)
	return e.out()
}
func (e *WElem) Set(a group.Element) group.Element {
	e.e = e.g.Group.Element().Set(e.in(a))
	return e
}
func (e *WElem) SetBytes(b []byte) group.Element {
	e.e = e.g.Group.Element().SetBytes(b)
	return e
}
func (e *WElem) MapToGroup(s string) (group.Element, error) {
	x, err := e.g.Group.Element().MapToGroup(s)
	if err != nil {
		return nil, err
	}
	e.e = x
	return e, nil
}
func (e *WElem) IsEqual(b group.Element) bool         { return e.e.IsEqual(e.in(b)) }
func (e *WElem) IsIdentity() bool                     { return e.e.IsIdentity() }
func (e *WElem) GroupOrder() *big.Int                 { return e.e.GroupOrder() }
func (e *WElem) FieldOrder() *big.Int                 { return e.e.FieldOrder() }
func (e *WElem) String() string                       { return e.e.String() }
func (e *WElem) MarshalBinary() ([]byte, error)       { return e.e.MarshalBinary() }
func (e *WElem) UnmarshalBinary(b []byte) error       { return e.e.UnmarshalBinary(b) }
func (e *WElem) MarshalJSON() ([]byte, error)         { return e.e.MarshalJSON() }
func (e *WElem) UnmarshalJSON(b []byte) error         { return e.e.UnmarshalJSON(b) }
func (g *WGroup) Wrap(e group.Element) group.Element  { return g.wrap(e) }
func (g *WGroup) Inner(e group.Element) group.Element { return e.(*WElem).e }
