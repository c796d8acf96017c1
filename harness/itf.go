package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Val is a value of the specification language as found in an ITF trace.
type Val struct{ v interface{} }

// Trace is one behaviour of a specification.
type Trace struct {
	File   string
	States []Val
}

func loadTrace(file string) *Trace {
	data, err := os.ReadFile(file)
	if err != nil {
		die("cannot read trace: %v", err)
	}
	var doc struct {
		States []interface{} `json:"states"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		die("cannot parse trace %s: %v", file, err)
	}
	t := &Trace{File: file}
	for _, s := range doc.States {
		if m, ok := s.(map[string]interface{}); ok {
			for k, x := range m { // variables of an instance are qualified
				if i := strings.LastIndex(k, "::"); i >= 0 {
					m[k[i+2:]] = x
				}
			}
		}
		t.States = append(t.States, Val{s})
	}
	return t
}

// F is a record field.
func (v Val) F(name string) Val {
	m, ok := v.v.(map[string]interface{})
	if !ok {
		die("trace: not a record when reading %q: %v", name, v.v)
	}
	x, ok := m[name]
	if !ok {
		die("trace: no field %q", name)
	}
	return Val{x}
}

func (v Val) Has(name string) bool {
	m, ok := v.v.(map[string]interface{})
	if !ok {
		return false
	}
	_, ok = m[name]
	return ok
}

func (v Val) Big() *big.Int {
	switch x := v.v.(type) {
	case float64:
		return big.NewInt(int64(x))
	case map[string]interface{}:
		if s, ok := x["#bigint"].(string); ok {
			r, ok := new(big.Int).SetString(s, 10)
			if ok {
				return r
			}
		}
	}
	die("trace: not an integer: %v", v.v)
	return nil
}

func (v Val) Int() int       { return int(v.Big().Int64()) }
func (v Val) Uint64() uint64 { return v.Big().Uint64() }
func (v Val) Bool() bool {
	b, ok := v.v.(bool)
	if !ok {
		die("trace: not a boolean: %v", v.v)
	}
	return b
}
func (v Val) Str() string {
	s, ok := v.v.(string)
	if !ok {
		die("trace: not a string: %v", v.v)
	}
	return s
}
func (v Val) List() []Val {
	var l []interface{}
	switch x := v.v.(type) {
	case []interface{}:
		l = x
	case map[string]interface{}:
		if y, ok := x["#tup"].([]interface{}); ok {
			l = y
		} else if y, ok := x["#set"].([]interface{}); ok {
			l = y
		} else {
			die("trace: not a list: %v", v.v)
		}
	default:
		die("trace: not a list: %v", v.v)
	}
	r := make([]Val, len(l))
	for i := range l {
		r[i] = Val{l[i]}
	}
	return r
}
func (v Val) Bigs() []*big.Int {
	l := v.List()
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = l[i].Big()
	}
	return r
}
func (v Val) Ints() []int {
	l := v.List()
	r := make([]int, len(l))
	for i := range l {
		r[i] = l[i].Int()
	}
	return r
}

func (v Val) JSON() string {
	b, _ := json.Marshal(simplify(v.v))
	return string(b)
}

// simplify replaces the bigint wrappers so that recorded actions are readable.
func simplify(x interface{}) interface{} {
	switch y := x.(type) {
	case map[string]interface{}:
		if s, ok := y["#bigint"].(string); ok {
			return json.RawMessage(s)
		}
		m := map[string]interface{}{}
		for k, e := range y {
			m[k] = simplify(e)
		}
		return m
	case []interface{}:
		r := make([]interface{}, len(y))
		for i := range y {
			r[i] = simplify(y[i])
		}
		return r
	}
	return x
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

// Uints is a list of word-size integers.
func (v Val) Uints() []uint64 {
	l := v.List()
	out := make([]uint64, len(l))
	for i := range l {
		out[i] = l[i].Uint64()
	}
	return out
}
