// Package vlib is the common part of the runtime monitors: case runner, random tape, reference
// implementations and the transparent group. It is compiled into /repo's module through an overlay.
package vlib

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Case is one replayable unit of workload.
type Case struct {
	ID  string
	Run func(c *Ctx)
}

// Check describes how a property is exercised.
type Check struct {
	Prop string
	Rule string
	// Cases builds the deterministic case list.
	Cases func(tier string) []Case
	// Require lists the minimal number of monitor events without which the run is inconclusive.
	Require map[string]int
	// Prefer lists the usual minimum of events that depend on what the hooks can see of the implementation; fewer
	// of them weaken the run (noted in the evidence) but do not make it inconclusive.
	Prefer map[string]int
	// Together lists prefixes of cases which do not depend on the tape: several of them are also run at the same time.
	Together []string
	Rounds   int // how often, 0: 12
}

type violation struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
}

type result struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Events      map[string]int `json:"events"`
	Distinct    []string       `json:"distinct"`
	Samples     []any          `json:"samples"`
	Violations  []violation    `json:"violations"`
	Errors      []string       `json:"errors"`
	Require     map[string]int `json:"require"`
	Prefer      map[string]int `json:"prefer"`
	Cases       int            `json:"cases"`
	Notes       map[string]int `json:"notes"`
}

// Ctx is handed to a case.
type Ctx struct {
	Prop, ID, Tier string
	Seed           uint64
	R              *mrand.Rand
	Tape           *Tape

	mu   *sync.Mutex
	res  *result
	dist map[string]bool
	note string // appended to violations

	faulted bool // the outages of this case were tried
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Event counts something a monitor has observed.
func (c *Ctx) Event(kind string) { c.EventN(kind, 1) }
func (c *Ctx) EventN(kind string, n int) {
	c.mu.Lock()
	c.res.Events[kind] += n
	c.mu.Unlock()
}

// Eval counts one judged execution; the parts identify it (distinct executions are counted once).
func (c *Ctx) Eval(parts ...any) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	k := hex.EncodeToString(h[:8])
	c.mu.Lock()
	c.res.Evaluations++
	if len(parts) > 0 {
		c.dist[k] = true
	}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Violate(format string, a ...any) {
	c.mu.Lock()
	if len(c.res.Violations) < 20 {
		c.res.Violations = append(c.res.Violations, violation{c.ID, fmt.Sprintf(format, a...) + c.note})
	}
	c.mu.Unlock()
}

// Harness is panicked with when the harness itself (not the code under test) cannot go on.
type Harness struct{ Msg string }

func Bug(format string, a ...any) { panic(Harness{fmt.Sprintf(format, a...)}) }

// Safe runs f and returns the panic value (nil if none) and a short stack.
func Safe(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(Harness); ok {
				panic(h)
			}
			p = r
			stack = shortStack()
		}
	}()
	f()
	return nil, ""
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "debug/stack") {
			f := strings.TrimSpace(l)
			if i := strings.LastIndex(f, " +0x"); i > 0 {
				f = f[:i]
			}
			out = append(out, f)
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// Main runs the shard of the property's cases selected by the environment.
func Main(t *testing.T, checks []Check) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("not run by the check driver")
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	shard, shards := 0, 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &shard, &shards)
	}
	only := os.Getenv("VERIF_CASE")
	claims := os.Getenv("VERIF_CLAIMS")
	for _, ch := range checks {
		if ch.Prop != prop {
			continue
		}
		res := &result{Rule: ch.Rule, Events: map[string]int{}, Require: ch.Require, Prefer: ch.Prefer, Notes: map[string]int{}}
		dist := map[string]bool{}
		mu := &sync.Mutex{}
		cases := ch.Cases(tier)
		cases = append(cases, together(ch, cases, tier)...)
		for i, cs := range cases {
			if only != "" {
				if cs.ID != only {
					continue
				}
			} else if claims != "" { // work sharing between the shard processes
				f, err := os.OpenFile(fmt.Sprintf("%s/%d", claims, i), os.O_CREATE|os.O_EXCL, 0o644)
				if err != nil {
					continue
				}
				f.Close()
			} else if i%shards != shard {
				continue
			}
			c := &Ctx{Prop: prop, ID: cs.ID, Tier: tier, Seed: seed, mu: mu, res: res, dist: dist}
			key := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s", seed, prop, cs.ID)))
			c.R = mrand.New(mrand.NewChaCha8(key))
			key2 := sha256.Sum256(append([]byte("tape"), key[:]...))
			c.Tape = NewTape(key2)
			rand.Reader = c.Tape
			tgCase = fmt.Sprintf("%x-", key[:5])
			tgroups.Store(0)
			res.Cases++
			if os.Getenv("GOMAXPROCS") != "" {
				runtime.GOMAXPROCS([]int{2, 1, 2, 3, 2, 4, 2, 6}[key[31]%8])
			}
			t0 := time.Now()
			done := make(chan struct{})
			go watchdog(c, done, res, dist, out)
			runCase(c, cs)
			close(done)
			res.Notes[cs.ID] = int(time.Since(t0).Milliseconds())
			if len(res.Violations) >= 8 {
				break
			}
		}
		if err := writeResult(res, dist, out); err != nil {
			t.Fatal(err)
		}
		return
	}
	t.Fatalf("no check for %s in this binary", prop)
}

func writeResult(res *result, dist map[string]bool, out string) error {
	for k := range dist {
		res.Distinct = append(res.Distinct, k)
	}
	sort.Strings(res.Distinct)
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o644)
}

// HangLimit: cases take seconds (the longest under a minute on a loaded machine).
const HangLimit = 420 * time.Second

// watchdog reports an operation that does not come back.
func watchdog(c *Ctx, done chan struct{}, res *result, dist map[string]bool, out string) {
	lim := HangLimit
	if c.Thorough() {
		lim *= 4
	}
	select {
	case <-done:
		return
	case <-time.After(lim):
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	where := "?"
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "zz_verif") {
			where = strings.TrimSpace(l)
			break
		}
	}
	c.Violate("no answer after %v, last seen at %s", lim, where)
	c.mu.Lock()
	_ = writeResult(res, dist, out)
	os.Exit(3)
}

func runCase(c *Ctx, cs Case) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(Harness); ok {
				c.mu.Lock()
				c.res.Errors = append(c.res.Errors, c.ID+": "+h.Msg)
				c.mu.Unlock()
				return
			}
			st := shortStack()
			if os.Getenv("VERIF_STACK") != "" {
				st = string(debug.Stack())
			}
			c.Violate("panic: %v [%s]", r, st)
		}
	}()
	cs.Run(c)
}

// Tape replaces crypto/rand.Reader: seeded, counted, budgeted, and able to dictate draws.
type Tape struct {
	mu     sync.Mutex
	src    *mrand.ChaCha8
	Reads  int
	bytes  int
	Budget int // 0 = default
	used   int
	owner  string // goroutine that started the budget period
	Inject func(n int) []byte // nil result: draw normally

	sizes []int // lengths of the draws since Reseed
	flip  [2]int
	flips bool

	short    int // longest read, if positive
	failFrom int // with fails: the first draw since Reseed that fails
	fails    int // 0 none, 1 only that one, 2 all from then on
	given    int // bytes handed out since Reseed
}

// Short makes the tape hand out at most n bytes per read (until Reseed).
func (t *Tape) Short(n int) { t.mu.Lock(); t.short = n; t.mu.Unlock() }

// Fail makes reads of the tape fail: only the given one (counted since Reseed), or all from it on (until Reseed).
func (t *Tape) Fail(draw int, ever bool) {
	t.mu.Lock()
	t.failFrom, t.fails = draw, 1
	if ever {
		t.fails = 2
	}
	t.mu.Unlock()
}

// Given is the number of bytes handed out since Reseed.
func (t *Tape) Given() int { t.mu.Lock(); defer t.mu.Unlock(); return t.given }

var errOutage = errors.New("randomness source fails")

// Sizes are the lengths of the draws since Reseed.
func (t *Tape) Sizes() []int { t.mu.Lock(); defer t.mu.Unlock(); return append([]int{}, t.sizes...) }

// Flip makes the tape differ in the lowest bit of one byte of one draw (counted since Reseed) from then on.
func (t *Tape) Flip(draw, byt int) {
	t.mu.Lock()
	t.flip, t.flips = [2]int{draw, byt}, true
	t.mu.Unlock()
}

// BudgetExceeded is panicked with when an operation draws more randomness than any terminating run would.
type BudgetExceeded struct{ Reads int }

func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("no termination: more than %d random draws in one operation", b.Reads)
}

func NewTape(key [32]byte) *Tape { return &Tape{src: mrand.NewChaCha8(key)} }

// Reseed makes the following draws a function of key only.
func (t *Tape) Reseed(key ...any) {
	k := sha256.Sum256([]byte(fmt.Sprint(key...)))
	t.mu.Lock()
	t.src = mrand.NewChaCha8(k)
	t.used = 0
	t.sizes, t.flips = nil, false
	t.short, t.fails, t.given = 0, 0, 0
	t.mu.Unlock()
}

// Op starts a new budget period.
func (t *Tape) Op(budget int) {
	t.mu.Lock()
	t.Budget = budget
	t.used = 0
	t.owner = goroutine()
	t.mu.Unlock()
}

// Bytes is the number of bytes handed out so far.
func (t *Tape) Bytes() int { t.mu.Lock(); defer t.mu.Unlock(); return t.bytes }

func (t *Tape) Used() int { t.mu.Lock(); defer t.mu.Unlock(); return t.used }

func (t *Tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Reads++
	t.bytes += len(p)
	t.used++
	if t.Budget > 0 && t.used > t.Budget {
		if t.owner != goroutine() { // a panic there could not be caught: that goroutine ends, the operation panics at its next draw
			runtime.Goexit()
		}
		b := t.Budget
		t.Budget = 0
		panic(BudgetExceeded{b})
	}
	if t.fails > 0 && (len(t.sizes) == t.failFrom || (t.fails == 2 && len(t.sizes) > t.failFrom)) {
		t.bytes -= len(p)
		t.sizes = append(t.sizes, 0)
		return 0, errOutage
	}
	if t.short > 0 && len(p) > t.short {
		t.bytes -= len(p) - t.short
		p = p[:t.short]
	}
	t.given += len(p)
	if t.Inject != nil {
		if b := t.Inject(len(p)); b != nil {
			for i := range p {
				p[i] = 0
			}
			copy(p[max(0, len(p)-len(b)):], b)
			return len(p), nil
		}
	}
	n, err := t.src.Read(p)
	if t.flips && len(t.sizes) == t.flip[0] && t.flip[1] < len(p) {
		p[t.flip[1]] ^= 1
	}
	if len(t.sizes) < 1<<16 {
		t.sizes = append(t.sizes, len(p))
	}
	return n, err
}

// Uint64 derives a number from parts (for deterministic choices outside of c.R).
func Uint64(parts ...any) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return binary.BigEndian.Uint64(h[:8])
}

// Hostile makes some draws of the tape zero, saturated, small or a power of two.
func (c *Ctx) Hostile(mode int) {
	r := c.R
	p := []float64{0.02, 0.1, 0.3}[mode%3]
	kind := mode % 5
	// a fresh generator: draws of the tape must not disturb the case's own choices
	c.Tape.Inject = func(n int) []byte {
		if r.Float64() > p {
			return nil
		}
		k := kind
		if k == 4 {
			k = r.IntN(4)
		}
		switch k {
		case 0:
			return []byte{0}
		case 1: // saturated
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xff
			}
			return b
		case 2: // small
			return []byte{byte(r.IntN(4))}
		default: // a power of two
			b := make([]byte, n)
			if n > 0 {
				b[r.IntN(n)] = 1 << r.IntN(8)
			}
			return b
		}
	}
}

// DrawPatterns runs an operation of about the given number of draws under combinations of draws: one zero and one
// short, and mixtures of zero, short, saturated and random ones. Draws after those are random.
func (c *Ctx) DrawPatterns(draws, n int, run func(what string) bool) {
	type pat map[int]byte
	var ps []pat
	if draws*(draws-1) <= n {
		for j := 0; j < draws; j++ {
			for k := 0; k < draws; k++ {
				if j != k {
					ps = append(ps, pat{j: 0, k: 1})
				}
			}
		}
	}
	for len(ps) < n {
		p := pat{}
		if len(ps)%2 == 0 && draws > 1 {
			j, k := c.R.IntN(draws), c.R.IntN(draws)
			p[j] = 0
			p[k] = 1
		} else {
			for j := 0; j < draws; j++ {
				if c.R.IntN(5) < 2 {
					p[j] = byte(c.R.IntN(4))
				}
			}
		}
		ps = append(ps, p)
	}
	for _, p := range ps {
		p := p
		i := -1
		small := byte(1 + c.R.IntN(255))
		c.Tape.Inject = func(n int) []byte {
			i++
			k, ok := p[i]
			if !ok || n == 0 {
				return nil
			}
			b := make([]byte, n)
			switch k {
			case 1:
				b[n-1] = small
			case 2:
				for j := n / 2; j < n; j++ {
					b[j] = small + byte(j)
				}
			case 3:
				for j := range b {
					b[j] = 0xff
				}
			}
			return b
		}
		ok := run(fmt.Sprintf("draws %v", p))
		c.Tape.Inject = nil
		if !ok {
			return
		}
	}
}
