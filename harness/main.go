// Command driver replays behaviours generated from the Quint specifications
// on the code under test and compares the projected state after every call.
//
//	driver -spec ring -cfg JSON -prop R02 -out result.json -progress file trace...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Cfg is the configuration shared with the generated specification instance.
type Cfg map[string]interface{}

func (c Cfg) Int(k string, def int) int {
	if x, ok := c[k].(float64); ok {
		return int(x)
	}
	return def
}
func (c Cfg) Bool(k string) bool { b, _ := c[k].(bool); return b }
func (c Cfg) Str(k string) string {
	s, _ := c[k].(string)
	return s
}
func (c Cfg) Uints(k string) []uint64 {
	l, _ := c[k].([]interface{})
	r := []uint64{}
	for _, x := range l {
		switch y := x.(type) {
		case string:
			b, _ := new(big.Int).SetString(y, 10)
			r = append(r, b.Uint64())
		case float64:
			r = append(r, uint64(y))
		}
	}
	return r
}
func (c Cfg) Ints(k string) []int {
	r := []int{}
	for _, x := range c.Uints(k) {
		r = append(r, int(x))
	}
	return r
}

// violation is raised (panic) by a comparison that fails.
type violation struct{ msg string }

// skip ends the replay of a trace without verdict (its state diverged for a
// reason that belongs to another property).
type skip struct{ why string }

type Result struct {
	Traces     int                      `json:"traces"`
	Steps      int                      `json:"steps"`
	Checks     int                      `json:"checks"`
	Ops        map[string]int           `json:"ops"`
	Keys       []uint32                 `json:"keys"`
	Skipped    map[string]int           `json:"skipped"`
	Violations []map[string]interface{} `json:"violations"`
	Samples    []interface{}            `json:"samples"`
	Notes      map[string]float64       `json:"notes"`
}

// R is the run-time reporter handed to the replayers.
type R struct {
	prop     string
	cfg      Cfg
	seed     int64
	res      Result
	seen     map[uint32]bool
	progress *os.File
	trace    *Trace
	step     int
	desc     string
}

// For tells whether the check being run decides one of the given properties.
func (r *R) For(props ...string) bool {
	if r.prop == "*" {
		return true
	}
	for _, p := range props {
		if p == r.prop {
			return true
		}
	}
	return false
}

// Step announces the call about to be replayed.
func (r *R) Step(i int, op, desc string) {
	r.step, r.desc = i, desc
	r.res.Steps++
	r.res.Ops[op]++
	if op != "Init" && op != "Load" {
		h := fnv.New32a()
		h.Write([]byte(op + "|" + desc))
		if k := h.Sum32(); !r.seen[k] {
			r.seen[k] = true
			r.res.Keys = append(r.res.Keys, k)
		}
	}
	if r.progress != nil {
		b := fmt.Sprintf("%s\n%d\n%s\n", r.trace.File, i, desc)
		if len(b) > 4000 {
			b = b[:4000]
		}
		b += strings.Repeat(" ", 4096-len(b))
		r.progress.WriteAt([]byte(b), 0)
	}
}

// Count adds to the number of comparisons made.
func (r *R) Count(n int) { r.res.Checks += n }

// Note keeps the maximum of a measured quantity.
func (r *R) Note(k string, x float64) {
	if y, ok := r.res.Notes[k]; !ok || x > y {
		r.res.Notes[k] = x
	}
}

func (r *R) Fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// FailFor raises a violation when the check decides one of props; otherwise it
// abandons the trace, whose states no longer correspond.
func (r *R) FailFor(props string, format string, a ...interface{}) {
	if r.For(strings.Split(props, " ")...) {
		r.Fail(format, a...)
	}
	panic(skip{"other property: " + fmt.Sprintf(format, a...)})
}

// Replayer replays one trace.
type Replayer func(r *R, t *Trace)

var replayers = map[string]Replayer{}

func (r *R) runTrace(f Replayer, t *Trace) {
	r.trace = t
	r.res.Traces++
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case skip:
				w := x.why
				if len(w) > 160 {
					w = w[:160]
				}
				r.res.Skipped[w]++
				return
			case violation:
				r.record(x.msg, "")
				return
			}
			st := string(debug.Stack())
			if origin := panicOrigin(st); origin {
				r.record(fmt.Sprintf("the call panicked: %v", e), st)
				return
			}
			fmt.Fprintf(os.Stderr, "%v\n%s\n", e, st)
			die("driver panic in trace %s step %d (%s)", t.File, r.step, r.desc)
		}
	}()
	f(r, t)
}

// panicOrigin: is the innermost non-runtime frame of the stack in the code under test?
func panicOrigin(st string) bool {
	lines := strings.Split(st, "\n")
	past := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			past = true
			continue
		}
		if !past || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") || strings.HasPrefix(l, "math/big.") ||
			strings.HasPrefix(l, "encoding/") || strings.HasPrefix(l, "math/bits.") || strings.HasPrefix(l, "math.") ||
			strings.HasPrefix(l, "reflect.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "fmt.") || strings.HasPrefix(l, "strconv.") {
			continue
		}
		return strings.HasPrefix(l, "fast-ksw/")
	}
	return false
}

func (r *R) record(msg, stack string) {
	r.res.Violations = append(r.res.Violations, map[string]interface{}{
		"trace": r.trace.File, "step": r.step, "call": r.desc, "what": msg, "stack": stack})
}

func (r *R) Sample(x interface{}) {
	if len(r.res.Samples) < 3 {
		r.res.Samples = append(r.res.Samples, x)
	}
}

func main() {
	spec := flag.String("spec", "", "")
	cfgs := flag.String("cfg", "{}", "")
	prop := flag.String("prop", "*", "")
	out := flag.String("out", "", "")
	prog := flag.String("progress", "", "")
	seed := flag.Int64("seed", 1, "")
	maxv := flag.Int("maxv", 5, "")
	budget := flag.Float64("budget", 0, "seconds after which remaining traces are left out (0: none)")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	r := &R{prop: *prop, seed: *seed, seen: map[uint32]bool{}}
	r.res.Ops = map[string]int{}
	r.res.Skipped = map[string]int{}
	r.res.Notes = map[string]float64{}
	r.res.Keys = []uint32{}
	r.res.Violations = []map[string]interface{}{}
	r.res.Samples = []interface{}{}
	if err := json.Unmarshal([]byte(*cfgs), &r.cfg); err != nil {
		die("bad cfg: %v", err)
	}
	if *prog != "" {
		f, err := os.Create(*prog)
		if err != nil {
			die("%v", err)
		}
		r.progress = f
	}
	f, ok := replayers[*spec]
	if !ok {
		names := []string{}
		for k := range replayers {
			names = append(names, k)
		}
		sort.Strings(names)
		die("unknown spec %q (have %v)", *spec, names)
	}
	start := time.Now()
	for _, file := range flag.Args() {
		if *budget > 0 && time.Since(start).Seconds() > *budget {
			r.res.Notes["traces_left_out"]++
			continue
		}
		t := loadTrace(file)
		if len(t.States) == 0 {
			die("empty trace %s", file)
		}
		r.runTrace(f, t)
		if len(r.res.Violations) >= *maxv {
			break
		}
		t.States = nil
	}
	runtime.GC()
	b, _ := json.Marshal(r.res)
	if *out == "" {
		fmt.Println(string(b))
	} else if err := os.WriteFile(*out, b, 0o644); err != nil {
		die("%v", err)
	}
}
