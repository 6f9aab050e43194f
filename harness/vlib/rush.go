package vlib

import (
	"crypto/rand"
	"fmt"
	mrand "math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// RushOp is an operation whose outcome does not depend on what else is going on.
type RushOp struct {
	Label string
	Run   func() string
}

// Rush repeats short operations in many goroutines without any pauses, and compares every outcome with the one the
// operation has when it runs alone. It stops after n operations or the given time.
func Rush(c *Ctx, what string, n int, limit time.Duration, ops []RushOp) bool {
	old := rand.Reader
	rand.Reader = realReader
	defer func() { rand.Reader = old }()
	alone := make([]string, len(ops))
	for i, op := range ops {
		var again string
		pn, st := Safe(func() { alone[i], again = op.Run(), op.Run() })
		if pn != nil {
			c.Violate("%s: %s panics: %v [%s]", what, op.Label, pn, st)
			return false
		}
		if alone[i] != again {
			c.Violate("%s: %s has different outcomes when repeated: %.100s, %.100s", what, op.Label, alone[i], again)
			return false
		}
	}
	procs := runtime.GOMAXPROCS(8)
	defer runtime.GOMAXPROCS(procs)
	const g = 8
	var done atomic.Int64
	var bad atomic.Pointer[string]
	var wg sync.WaitGroup
	start := make(chan struct{})
	for gi := 0; gi < g; gi++ {
		r := mrand.New(mrand.NewPCG(c.R.Uint64(), c.R.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for bad.Load() == nil && done.Add(1) <= int64(n) {
				i := r.IntN(len(ops))
				var got string
				pn, st := Safe(func() { got = ops[i].Run() })
				if pn != nil {
					got = fmt.Sprintf("crash: %v [%s]", pn, st)
				}
				if got != alone[i] {
					s := fmt.Sprintf("%s gives %.120s, and %.120s when it runs alone", ops[i].Label, got, alone[i])
					bad.CompareAndSwap(nil, &s)
				}
			}
		}()
	}
	stop := time.AfterFunc(limit, func() { done.Add(int64(n)) })
	close(start)
	wg.Wait()
	stop.Stop()
	k := int(done.Load()) - g
	if k > n {
		k = k - n
	}
	if k > 0 {
		c.EventN("rushed_ops", k)
	}
	c.Eval("rush", what, len(ops))
	if s := bad.Load(); s != nil {
		c.Violate("%s: while %d goroutines work: %s", what, g, *s)
		return false
	}
	return true
}
