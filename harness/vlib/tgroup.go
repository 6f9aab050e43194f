package vlib

import (
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/takakv/msc-poc/group"
)

// TGroup is the transparent group: elements are formal linear combinations, over Z_q, of the generator
// (basis 0) and of one basis per hashed seed. Code written against group.Group runs on it unmodified,
// while a monitor can read every representation.
type TGroup struct {
	q     *big.Int
	name  string
	basis map[string]int
	mu    sync.Mutex

	// OnScale sees every scalar multiplication X*s.
	OnScale func(x *TElem, s *big.Int)
	// OnEqual sees the operands of every equality test.
	OnEqual func(a, b *TElem)
	// OnIdentity sees the operand of every identity test.
	OnIdentity func(a *TElem)
	// Fault, if set, may replace the result of the i-th computed element.
	Fault func(op string, i int, e *TElem)
	ops   int
}

// TElem is an element of a TGroup. The embedded nil interface keeps it assignable should the interface grow.
type TElem struct {
	group.Element
	g *TGroup
	c []*big.Int // nil entries are zero; no trailing zeros
}

var (
	tgroups atomic.Int64
	tgCase  string
)

// NewTGroup: every instance has its own bases, so every instance has its own name (the code may well keep what it derived per group name).
func NewTGroup(name string, q *big.Int) *TGroup {
	name = fmt.Sprintf("%s#%s%d", name, tgCase, tgroups.Add(1))
	return &TGroup{q: q, name: name, basis: map[string]int{}}
}

func (g *TGroup) Name() string { return g.name }
func (g *TGroup) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"group": g.name})
}
func (g *TGroup) P() *big.Int              { return g.q }
func (g *TGroup) N() *big.Int              { return g.q }
func (g *TGroup) Element() group.Element   { return &TElem{g: g} }
func (g *TGroup) Identity() group.Element  { return &TElem{g: g} }
func (g *TGroup) Generator() group.Element { return &TElem{g: g, c: []*big.Int{big.NewInt(1)}} }
func (g *TGroup) Random() group.Element {
	r, _ := rand.Int(rand.Reader, g.q)
	return &TElem{g: g, c: trim([]*big.Int{r})}
}

// ResetOps restarts the operation counter used by Fault.
func (g *TGroup) ResetOps() { g.ops = 0 }
func (g *TGroup) Ops() int  { return g.ops }

// Basis returns the basis index of a hashed seed (creating it).
func (g *TGroup) Basis(seed string) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	i, ok := g.basis[seed]
	if !ok {
		i = len(g.basis) + 1
		g.basis[seed] = i
	}
	return i
}

func trim(c []*big.Int) []*big.Int {
	for len(c) > 0 && (c[len(c)-1] == nil || c[len(c)-1].Sign() == 0) {
		c = c[:len(c)-1]
	}
	return c
}

func (e *TElem) t(a group.Element) *TElem {
	x, ok := a.(*TElem)
	if !ok || x == nil {
		panic("incompatible group element type")
	}
	if x.g != e.g {
		panic("incompatible groups")
	}
	return x
}

func (e *TElem) done(op string) group.Element {
	g := e.g
	g.mu.Lock()
	n := g.ops
	g.ops++
	g.mu.Unlock()
	if g.Fault != nil {
		g.Fault(op, n, e)
	}
	return e
}

func lin(q *big.Int, a, b []*big.Int, s *big.Int) []*big.Int { // a + s*b
	n := max(len(a), len(b))
	out := make([]*big.Int, n)
	for i := 0; i < n; i++ {
		var v *big.Int
		if i < len(b) && b[i] != nil && b[i].Sign() != 0 {
			if s == nil {
				v = b[i]
			} else {
				v = new(big.Int).Mul(b[i], s)
				v.Mod(v, q)
			}
		}
		if i < len(a) && a[i] != nil {
			if v == nil {
				v = a[i]
			} else {
				v = new(big.Int).Add(a[i], v)
				if v.Cmp(q) >= 0 {
					v.Sub(v, q)
				}
			}
		}
		out[i] = v
	}
	return trim(out)
}

func (e *TElem) Add(a, b group.Element) group.Element {
	e.c = lin(e.g.q, e.t(a).c, e.t(b).c, nil)
	return e.done("add")
}
func (e *TElem) Subtract(a, b group.Element) group.Element {
	e.c = lin(e.g.q, e.t(a).c, e.t(b).c, new(big.Int).Sub(e.g.q, big.NewInt(1)))
	return e.done("sub")
}
func (e *TElem) Negate(a group.Element) group.Element {
	e.c = lin(e.g.q, nil, e.t(a).c, new(big.Int).Sub(e.g.q, big.NewInt(1)))
	return e.done("neg")
}
func (e *TElem) Scale(a group.Element, s *big.Int) group.Element {
	x := e.t(a)
	if e.g.OnScale != nil {
		e.g.OnScale(&TElem{g: e.g, c: x.c}, new(big.Int).Set(s))
	}
	e.c = lin(e.g.q, nil, x.c, new(big.Int).Mod(s, e.g.q))
	return e.done("scale")
}
func (e *TElem) BaseScale(s *big.Int) group.Element {
	e.c = trim([]*big.Int{new(big.Int).Mod(s, e.g.q)})
	return e.done("base")
}
func (e *TElem) Set(a group.Element) group.Element {
	e.c = e.t(a).c
	return e
}
func (e *TElem) SetBytes(b []byte) group.Element { _ = e.UnmarshalBinary(b); return e }
func (e *TElem) MapToGroup(s string) (group.Element, error) {
	i := e.g.Basis(s)
	e.c = make([]*big.Int, i+1)
	e.c[i] = big.NewInt(1)
	return e, nil
}
func (e *TElem) IsEqual(a group.Element) bool {
	x := e.t(a)
	if e.g.OnEqual != nil {
		e.g.OnEqual(e, x)
	}
	return e.same(x)
}
func (e *TElem) same(x *TElem) bool {
	for i := 0; i < max(len(e.c), len(x.c)); i++ {
		if e.Coef(i).Cmp(x.Coef(i)) != 0 {
			return false
		}
	}
	return true
}
func (e *TElem) IsIdentity() bool {
	if e.g.OnIdentity != nil {
		e.g.OnIdentity(e)
	}
	return len(trim(e.c)) == 0
}
func (e *TElem) GroupOrder() *big.Int { return e.g.q }
func (e *TElem) FieldOrder() *big.Int { return e.g.q }
func (e *TElem) String() string {
	var sb strings.Builder
	sb.WriteString("T(")
	for i, v := range trim(e.c) {
		if i > 0 {
			sb.WriteByte(',')
		}
		if v != nil && v.Sign() != 0 {
			sb.WriteString(v.Text(62))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
func (e *TElem) MarshalBinary() ([]byte, error) { return []byte(e.String()), nil }
func (e *TElem) UnmarshalBinary(b []byte) error {
	s := string(b)
	if !strings.HasPrefix(s, "T(") || !strings.HasSuffix(s, ")") {
		return errors.New("bad transparent element")
	}
	s = s[2 : len(s)-1]
	var c []*big.Int
	if s != "" {
		for _, p := range strings.Split(s, ",") {
			v := new(big.Int)
			if p != "" {
				if _, ok := v.SetString(p, 62); !ok || v.Sign() < 0 || v.Cmp(e.g.q) >= 0 {
					return errors.New("bad transparent coefficient")
				}
			}
			c = append(c, v)
		}
	}
	e.c = trim(c)
	return nil
}
func (e *TElem) MarshalJSON() ([]byte, error) { return json.Marshal(e.String()) }
func (e *TElem) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	return e.UnmarshalBinary([]byte(s))
}

// Coef is the coefficient of a basis.
func (e *TElem) Coef(i int) *big.Int {
	if i >= len(e.c) || e.c[i] == nil {
		return new(big.Int)
	}
	return e.c[i]
}

// Support lists the bases with non-zero coefficients.
func (e *TElem) Support() []int {
	var s []int
	for i, v := range e.c {
		if v != nil && v.Sign() != 0 {
			s = append(s, i)
		}
	}
	return s
}

// Combo builds sum coef[i]*basis[i].
func (g *TGroup) Combo(m map[int]*big.Int) *TElem {
	n := 0
	for i := range m {
		n = max(n, i+1)
	}
	c := make([]*big.Int, n)
	for i, v := range m {
		c[i] = Mod(v, g.q)
	}
	return &TElem{g: g, c: trim(c)}
}

// Offset adds d*G in place (used by Fault).
func (e *TElem) Offset(d *big.Int) {
	e.c = lin(e.g.q, e.c, []*big.Int{Mod(d, e.g.q)}, nil)
}

// SingleBasis reports whether e is s*basis_i for one i, and returns i and s.
func (e *TElem) SingleBasis() (int, *big.Int, bool) {
	s := e.Support()
	if len(s) != 1 {
		return 0, nil, false
	}
	return s[0], e.c[s[0]], true
}

func (e *TElem) Describe() string {
	var p []string
	for _, i := range e.Support() {
		p = append(p, fmt.Sprintf("%s*b%d", e.c[i].Text(16), i))
	}
	return strings.Join(p, "+")
}

// Clone copies the element.
func (e *TElem) Clone() *TElem { return &TElem{g: e.g, c: append([]*big.Int{}, e.c...)} }

// Reduce eliminates o's leading basis from e (Gaussian elimination).
func (e *TElem) Reduce(o *TElem) {
	s := o.Support()
	if len(s) == 0 {
		return
	}
	l := s[len(s)-1]
	if e.Coef(l).Sign() == 0 {
		return
	}
	f := MulM(Neg(e.Coef(l)), Inv(o.Coef(l), e.g.q), e.g.q)
	e.c = lin(e.g.q, e.c, o.c, f)
}
