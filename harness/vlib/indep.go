package vlib

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
)

// Blinding is a value that has to be as random as its width says.
type Blinding struct {
	Name string
	X    *big.Int
	Bits int
}

// Independent decides whether the blinding values of one run are made from randomness of their own. The run is
// repeated on the same random tape with one piece (eight bytes) of it changed at a time; a value depends on the pieces
// whose change changes it. If values share pieces so that together they depend on less randomness than their widths
// add up to, some of them is a function of the others (or of nothing): no assignment of enough own pieces to every
// value exists. A change that shifts the rest of the tape only adds dependencies, so it can hide but never fake that.
func Independent(c *Ctx, what string, key []any, run func() ([]Blinding, bool)) bool {
	c.Tape.Reseed(key...)
	base, ok := run()
	if !ok {
		return true
	}
	sizes := c.Tape.Sizes()
	if os.Getenv("VERIF_OUTAGE") != "" {
		return outage(c, what, key, base, len(sizes), run)
	}
	if !c.outages() {
		return false
	}
	type piece struct{ draw, byt int }
	var ps []piece
	for d, n := range sizes {
		for o := 0; o < n; o += 8 {
			e := min(o+8, n)
			if e-o < 8 && o > 0 && e-o < 4 {
				continue
			}
			ps = append(ps, piece{d, e - 1})
		}
	}
	if len(ps) > 6000 {
		return true
	}
	dep := make([][]int, len(base)) // value -> pieces
	for k, p := range ps {
		c.Tape.Reseed(key...)
		c.Tape.Flip(p.draw, p.byt)
		got, ok := run()
		c.Event("tape_pieces_changed")
		for i := range base {
			if !ok || len(got) != len(base) || got[i].X.Cmp(base[i].X) != 0 {
				dep[i] = append(dep[i], k)
			}
		}
	}
	c.Tape.Reseed(key...)
	// assignment of pieces to values, by augmenting paths
	owner := make([]int, len(ps))
	for k := range owner {
		owner[k] = -1
	}
	var seen []bool
	var grab func(i int) bool
	grab = func(i int) bool {
		for _, k := range dep[i] {
			if seen[k] {
				continue
			}
			seen[k] = true
			if owner[k] < 0 || grab(owner[k]) {
				owner[k] = i
				return true
			}
		}
		return false
	}
	for i, b := range base {
		for n := 0; n < max(1, b.Bits/64); n++ {
			seen = make([]bool, len(ps))
			if !grab(i) {
				c.Violate("%s: %s has no randomness of its own: it depends on %d pieces of the random tape, which other blinding values depend on too (%d wanted)", what, b.Name, len(dep[i]), max(1, b.Bits/64))
				return false
			}
		}
		c.Event("independent_blindings")
	}
	c.Eval("independence", what, fmt.Sprint(key...), len(ps))
	return true
}

// outages runs the case again in a process of its own, where only the outages are tried: code which does parts of its
// work in goroutines of its own takes the whole process down when the source fails. That publishes nothing.
func (c *Ctx) outages() bool {
	if c.faulted {
		return true
	}
	c.faulted = true
	r, text, err := c.child("VERIF_OUTAGE=1")
	if r == nil {
		if !regexp.MustCompile(`(?m)^(panic|fatal error): `).MatchString(text) {
			Bug("outage process gave no result: %v: %.500s", err, text)
		}
		c.Event("fault_ended_process")
		return true
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range []string{"randomness_faults", "fault_no_proof"} {
		c.res.Events[k] += r.Events[k]
	}
	c.res.Violations = append(c.res.Violations, r.Violations...)
	c.res.Errors = append(c.res.Errors, r.Errors...)
	return len(r.Violations) == 0
}

// outage repeats the run while the source of randomness fails or delivers piecemeal: the run may fail, but it must not
// publish values that were not drawn.
func outage(c *Ctx, what string, key []any, base []Blinding, draws int, run func() ([]Blinding, bool)) bool {
	defer c.Tape.Reseed(key...)
	need := 0
	for _, b := range base {
		need += max(0, b.Bits/8-1)
	}
	judge := func(how string) bool {
		c.Tape.Op(20000)
		got, ok := run()
		c.Tape.Op(0)
		c.Event("randomness_faults")
		if !ok {
			c.Event("fault_no_proof")
			return true
		}
		if n := c.Tape.Given(); n < need {
			c.Violate("%s: published although the randomness source %s: %d bytes of blinding values, %d random bytes", what, how, need, n)
			return false
		}
		seen := map[string]bool{}
		for _, b := range got {
			if b.X.Sign() == 0 || b.X.BitLen() < b.Bits-100 || seen[b.X.String()] {
				c.Violate("%s: published with a degenerate blinding value (%s) when the randomness source %s", what, b.Name, how)
				return false
			}
			seen[b.X.String()] = true
		}
		return true
	}
	for j := 0; j < min(draws, 200); j++ {
		for _, ever := range []bool{true, false} {
			c.Tape.Reseed(key...)
			c.Tape.Fail(j, ever)
			how := fmt.Sprintf("fails once, at read %d", j)
			if ever {
				how = fmt.Sprintf("fails from read %d on", j)
			}
			if !judge(how) {
				return false
			}
		}
	}
	for _, n := range []int{1, 3, 8, 31} {
		c.Tape.Reseed(key...)
		c.Tape.Short(n)
		if !judge(fmt.Sprintf("delivers %d bytes at a time", n)) {
			return false
		}
	}
	return true
}
