package vlib

import (
	"crypto/rand"
	"fmt"
	mrand "math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takakv/msc-poc/group"
)

// yieldingReader gives out randomness after pauses which let others run: from the tape of the case that the
// goroutine belongs to, otherwise from the system.
type yieldingReader struct {
	n     atomic.Uint64
	tapes sync.Map // goroutine -> *Tape
}

// goroutine identifies the calling goroutine.
func goroutine() string {
	var b [40]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) < 2 {
		return ""
	}
	return f[1]
}

func (y *yieldingReader) Read(p []byte) (int, error) {
	k := y.n.Add(1)
	if k%5 == 0 {
		time.Sleep(20 * time.Microsecond)
	} else {
		runtime.Gosched()
	}
	src := realReader
	if t, ok := y.tapes.Load(goroutine()); ok {
		src = t.(*Tape)
	}
	n, err := src.Read(p)
	if k%7 == 0 {
		runtime.Gosched()
	}
	return n, err
}

// Overlap prepares for operations at the same time: real randomness and group operations with pauses in between,
// several processors. It returns the function that ends it.
func (c *Ctx) Overlap(gs ...group.Group) func() {
	old := rand.Reader
	rand.Reader = &yieldingReader{}
	procs := runtime.GOMAXPROCS(4)
	for _, g := range gs {
		if t, ok := g.(*TGroup); ok {
			t := t
			t.Fault = func(op string, i int, e *TElem) {
				switch {
				case i%61 == 0:
					time.Sleep(20 * time.Microsecond)
				case i%5 == 0:
					runtime.Gosched()
				}
			}
		}
	}
	return func() {
		rand.Reader = old
		runtime.GOMAXPROCS(procs)
		for _, g := range gs {
			if t, ok := g.(*TGroup); ok {
				t.Fault = nil
			}
		}
	}
}

// together makes cases which run some of the property's cases at the same time.
func together(ch Check, cases []Case, tier string) []Case {
	if len(ch.Together) == 0 {
		return nil
	}
	n := ch.Rounds
	if n == 0 {
		n = 12
	}
	if tier == "thorough" {
		n *= 6
	}
	byPrefix := map[string][]Case{}
	for _, cs := range cases {
		for _, p := range ch.Together {
			if strings.HasPrefix(cs.ID, p) {
				byPrefix[p] = append(byPrefix[p], cs)
			}
		}
	}
	var out []Case
	for i := 0; i < n; i++ {
		i := i
		out = append(out, Case{fmt.Sprintf("together/%d", i), func(c *Ctx) {
			var pick []Case
			for k := 0; k < 2; k++ {
				l := byPrefix[ch.Together[(i+k)%len(ch.Together)]]
				if len(l) == 0 {
					Bug("no cases %s", ch.Together[(i+k)%len(ch.Together)])
				}
				if k > 0 { // over the same group, if there is such a case
					if seg := strings.Split(pick[0].ID, "/"); len(seg) > 1 && c.R.IntN(3) > 0 {
						var same []Case
						for _, x := range l {
							if strings.Contains(x.ID+"/", "/"+seg[1]+"/") {
								same = append(same, x)
							}
						}
						if len(same) > 0 {
							l = same
						}
					}
				}
				cs := l[c.R.IntN(len(l))]
				// the same workload with other random choices works on the same kind of values
				pick = append(pick, cs, cs)
			}
			c.together(pick)
		}})
	}
	return out
}

func (c *Ctx) together(pick []Case) {
	defer c.Overlap()()
	reader := rand.Reader.(*yieldingReader)
	var ids []string
	for _, p := range pick {
		ids = append(ids, p.ID)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, cs := range pick {
		cs := cs
		var k [32]byte
		for i := range k {
			k[i] = byte(c.R.Uint32())
		}
		d := &Ctx{Prop: c.Prop, ID: c.ID, Tier: c.Tier, Seed: c.Seed, R: mrand.New(mrand.NewChaCha8(k)), Tape: NewTape(k), mu: c.mu, res: c.res, dist: c.dist,
			note: fmt.Sprintf(" [in %s, while %s run at the same time]", cs.ID, strings.Join(ids, ", "))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			me := goroutine()
			reader.tapes.Store(me, d.Tape)
			defer reader.tapes.Delete(me)
			<-start
			runCase(d, cs)
		}()
	}
	close(start)
	wg.Wait()
	c.EventN("cases_run_together", len(pick))
	c.Eval("together", strings.Join(ids, ","))
}

// Hot picks one of n things; goroutines at the same step k often pick the same one.
func Hot(r *mrand.Rand, k, n int) int {
	if r.IntN(3) > 0 {
		return k / 2 % n
	}
	return r.IntN(n)
}

// Crowd lets n goroutines do the same thing at about the same time. It reports what went wrong.
func Crowd(c *Ctx, what string, n int, op func() (wrong string)) bool {
	var wg sync.WaitGroup
	start := make(chan struct{})
	wrongs := make([]string, n)
	for i := 0; i < n; i++ {
		i := i
		pause := time.Duration(0)
		if i > 0 {
			pause = time.Duration(c.R.IntN(40*i*i)) * time.Microsecond
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if pause > 0 {
				time.Sleep(pause)
			}
			if pn, st := Safe(func() { wrongs[i] = op() }); pn != nil {
				wrongs[i] = fmt.Sprintf("crash: %v [%s]", pn, st)
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Event("crowd")
	for _, w := range wrongs {
		if w != "" {
			c.Violate("%s: %d at the same time: %s", what, n, w)
			return false
		}
	}
	return true
}
