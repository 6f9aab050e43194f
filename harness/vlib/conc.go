package vlib

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/takakv/msc-poc/group"
)

var realReader io.Reader = rand.Reader

// RealRandom removes the tape: its lock would order the goroutines and hide races.
func (c *Ctx) RealRandom() { rand.Reader = realReader }

// Fingerprint captures everything observable about a structure: every element (all encodings), integer, flag and
// unexported plain field, and the constants of every group in it.
func Fingerprint(vs ...any) map[string]string {
	out := map[string]string{}
	for i, v := range vs {
		rv := reflect.ValueOf(v)
		for rv.Kind() == reflect.Ptr && rv.Type() != intType {
			rv = rv.Elem()
		}
		fpWalk(rv, fmt.Sprintf("%d", i), out, 0)
	}
	return out
}

var groupType = reflect.TypeOf((*group.Group)(nil)).Elem()

func fpElem(e group.Element) string {
	b, _ := e.MarshalBinary()
	j, _ := e.MarshalJSON()
	return hex.EncodeToString(b) + "|" + string(j) + "|" + e.String()
}

func fpGroup(g group.Group) string {
	return fmt.Sprintf("%s N=%v P=%v G=%s I=%s", g.Name(), g.N(), g.P(), fpElem(g.Generator()), fpElem(g.Identity()))
}

func fpWalk(v reflect.Value, path string, out map[string]string, depth int) {
	if depth > 12 {
		return
	}
	if v.CanInterface() {
		switch {
		case v.Type() == elemType:
			if v.IsNil() {
				out[path] = "nil"
			} else {
				out[path] = fpElem(v.Interface().(group.Element))
			}
			return
		case v.Type() == intType:
			out[path] = fmt.Sprint(v.Interface().(*big.Int))
			return
		case v.Type() == groupType:
			if v.IsNil() {
				out[path] = "nil"
			} else {
				out[path] = fpGroup(v.Interface().(group.Group))
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fpWalk(v.Field(i), path+"."+v.Type().Field(i).Name, out, depth+1)
		}
	case reflect.Slice, reflect.Array:
		out[path+".len"] = fmt.Sprint(v.Len())
		for i := 0; i < v.Len(); i++ {
			fpWalk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out, depth+1)
		}
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.String:
		out[path] = fmt.Sprint(v)
	}
}

// SameFingerprint reports the first difference.
func SameFingerprint(a, b map[string]string) string {
	for _, k := range SortedKeys(a) {
		if a[k] != b[k] {
			return fmt.Sprintf("%s: %.80s became %.80s", k, a[k], b[k])
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d values became %d", len(a), len(b))
	}
	return ""
}

// Storm runs n operations in each of g goroutines with random pauses and yields; op must report what it did (the
// label) and what is wrong ("" if nothing). The returned string identifies the interleaving of completions.
func Storm(c *Ctx, what string, g, n int, op func(r *mrand.Rand, gi, k int) (label, wrong string)) bool {
	type rec struct {
		g     int
		label string
	}
	logs := make([][]rec, g)
	stamps := make([][]int64, g)
	wrongs := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	t0 := time.Now()
	for gi := 0; gi < g; gi++ {
		gi := gi
		r := mrand.New(mrand.NewPCG(c.R.Uint64(), c.R.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < n; k++ {
				switch r.IntN(6) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
				}
				var label, wrong string
				pn, st := Safe(func() { label, wrong = op(r, gi, k) })
				if pn != nil {
					wrong = fmt.Sprintf("crash: %v [%s]", pn, st)
				}
				logs[gi] = append(logs[gi], rec{gi, label})
				stamps[gi] = append(stamps[gi], int64(time.Since(t0)))
				if wrong != "" {
					wrongs[gi] = label + ": " + wrong
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	ok := true
	for gi := range wrongs {
		if wrongs[gi] != "" {
			c.Violate("%s: while %d goroutines work: %s", what, g, wrongs[gi])
			ok = false
		}
	}
	// merge by completion time
	idx := make([]int, g)
	h := sha256.New()
	total := 0
	for {
		best := -1
		for gi := range idx {
			if idx[gi] < len(stamps[gi]) && (best < 0 || stamps[gi][idx[gi]] < stamps[best][idx[best]]) {
				best = gi
			}
		}
		if best < 0 {
			break
		}
		fmt.Fprintf(h, "%d:%s;", best, logs[best][idx[best]].label)
		c.Event("op_" + logs[best][idx[best]].label)
		idx[best]++
		total++
	}
	c.EventN("concurrent_ops", total)
	c.Event("storm")
	c.Eval("interleaving", what, hex.EncodeToString(h.Sum(nil)))
	return ok
}

// Cold runs the case in a process of its own, so that its first use of the code is already concurrent (nothing
// was initialised by earlier cases). It returns true in that process; elsewhere it starts it, takes over its
// observations and returns false.
func (c *Ctx) Cold() bool {
	if os.Getenv("VERIF_COLD") != "" {
		return true
	}
	res, text, runErr := c.child("VERIF_COLD=1")
	os.Stderr.WriteString(text) // race reports are read by the driver
	raced := strings.Contains(text, "WARNING: DATA RACE")
	if m := regexp.MustCompile(`(?m)^fatal error: .*$`).FindString(text); m != "" {
		c.Violate("cold start: %s", m)
		return false
	}
	if res == nil {
		if raced {
			return false
		}
		if m := regexp.MustCompile(`(?m)^panic: .*$`).FindString(text); m != "" {
			c.Violate("cold start: %s", m)
			return false
		}
		Bug("cold process gave no result: %v: %.500s", runErr, text)
	}
	r := *res
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Evaluations += r.Evaluations
	for k, n := range r.Events {
		c.res.Events[k] += n
	}
	c.res.Events["cold_start"]++
	for _, d := range r.Distinct {
		c.dist[d] = true
	}
	c.res.Violations = append(c.res.Violations, r.Violations...)
	c.res.Errors = append(c.res.Errors, r.Errors...)
	return false
}

// child runs this case in a process of its own, with the given variable set, and returns what it observed (nil if it
// did not live to tell), what it wrote to stderr and how it ended.
func (c *Ctx) child(env string) (*result, string, error) {
	f, err := os.CreateTemp("", "verif-child-*.json")
	if err != nil {
		Bug("child: %v", err)
	}
	f.Close()
	os.Remove(f.Name())
	defer os.Remove(f.Name())
	cmd := exec.Command(os.Args[0], "-test.run", "^TestVerif$", "-test.timeout", "0")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_OUT=") && !strings.HasPrefix(e, "VERIF_CASE=") && !strings.HasPrefix(e, "VERIF_COLD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env, "VERIF_CASE="+c.ID, "VERIF_OUT="+f.Name())
	var errOut strings.Builder
	cmd.Stderr = &errOut
	runErr := cmd.Run()
	b, err := os.ReadFile(f.Name())
	if err != nil {
		return nil, errOut.String(), runErr
	}
	var r result
	if err := json.Unmarshal(b, &r); err != nil {
		Bug("child result: %v", err)
	}
	return &r, errOut.String(), runErr
}
