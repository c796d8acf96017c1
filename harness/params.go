package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// Replay of spec/params.qnt over registers of parameter sets of both packages.

func init() { replayers["params"] = replayParams }

type parSet struct {
	c ckks.Parameters
	r rlwe.Parameters
}

type parReplay struct {
	r    *R
	regs []parSet
	// registers created differently than specified because of a recorded deviation
}

// Soft records a violation once per run and lets the behaviour go on.
func (r *R) Soft(props, msg string) {
	if !r.For(props) {
		return
	}
	for _, v := range r.res.Violations {
		if v["what"] == msg {
			return
		}
	}
	r.record(msg, "")
}

func u64s(v Val) []uint64 { return v.Uints() }

// nilIf gives nil for a missing field and a non-nil list otherwise.
func givenWords(mode int, l []uint64) []uint64 {
	if mode == 0 {
		return nil
	}
	return append([]uint64{}, l...)
}
func givenInts(mode int, l []int) []int {
	if mode == 0 {
		return nil
	}
	return append([]int{}, l...)
}

func toFloat(b *big.Int) float64 { f, _ := new(big.Float).SetInt(b).Float64(); return f }

func ckksLiteral(t Val) ckks.ParametersLiteral {
	return ckks.ParametersLiteral{LogN: t.F("logn").Int(), Q: givenWords(t.F("mq").Int(), u64s(t.F("qs"))), P: givenWords(t.F("mp").Int(), u64s(t.F("ps"))),
		LogQ: givenInts(t.F("mlq").Int(), t.F("lqs").Ints()), LogP: givenInts(t.F("mlp").Int(), t.F("lps").Ints()),
		H: t.F("h").Int(), Sigma: float64(t.F("sg").Int()) / 10, LogSlots: t.F("slots").Int(), DefaultScale: toFloat(t.F("sc").Big()), RingType: ring.Type(t.F("ci").Int())}
}

func rlweLiteral(l ckks.ParametersLiteral) rlwe.ParametersLiteral {
	return rlwe.ParametersLiteral{LogN: l.LogN, Q: l.Q, P: l.P, LogQ: l.LogQ, LogP: l.LogP, Sigma: l.Sigma, H: l.H, RingType: l.RingType}
}

// direct builds a set with the constructors that take every field as it is.
func direct(logn int, qs, ps []uint64, h int, sg float64, ci int, slots int, sc float64) (p parSet, rerr, cerr error) {
	p.r, rerr = rlwe.NewParameters(logn, qs, ps, h, sg, ring.Type(ci))
	if rerr != nil {
		return p, rerr, rerr
	}
	p.c, cerr = ckks.NewParameters(p.r, slots, sc)
	return
}

func (p *parReplay) build(s Val) parSet {
	q, rerr, cerr := direct(s.F("logn").Int(), u64s(s.F("qs")), u64s(s.F("ps")), s.F("h").Int(), float64(s.F("sg").Int())/10, s.F("ci").Int(), s.F("slots").Int(), toFloat(s.F("sc").Big()))
	if rerr != nil || cerr != nil {
		p.r.FailFor("P01", "the parameter set %s is refused: %v %v", s.JSON(), rerr, cerr)
	}
	return q
}

func replayParams(r *R, t *Trace) {
	p := &parReplay{r: r}
	for i, s := range t.States {
		a := s.F("act")
		op := a.F("op").Str()
		regs := s.F("regs").List()
		if op == "Init" {
			for _, g := range regs {
				p.regs = append(p.regs, p.build(g))
			}
			continue
		}
		desc := map[string]interface{}{"op": op, "x": a.F("x").Int(), "z": a.F("z").Int(), "k": a.F("k").Int()}
		key := ""
		switch op {
		case "Literal", "LiteralJSON", "Direct", "Fast":
			key = a.F("lit").JSON()
		case "Ring":
			key = fmt.Sprint(u64s(a.F("ms")))
		default:
			key = regs[a.F("x").Int()].JSON()
		}
		b, _ := json.Marshal(desc)
		r.Step(i, op, string(b)+" "+key)
		if i == 1 {
			r.Sample(string(b) + " " + key)
		}
		p.step(op, a, regs)
	}
}

func equalWords(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (p *parReplay) step(op string, a Val, regs []Val) {
	r := p.r
	x, z, k := a.F("x").Int(), a.F("z").Int(), a.F("k").Int()
	verdict := func(what string, err error, ok bool) {
		r.Count(1)
		if ok != (err == nil) {
			r.FailFor("P01", "%s: error %v, expected success: %v", what, err, ok)
		}
	}
	ok, rok := a.F("ok").Bool(), a.F("rlweOk").Bool()
	empty := func(q parSet, rerr, cerr error) {
		if rerr != nil && (!q.r.Equals(rlwe.Parameters{}) || q.r.RingQ() != nil || q.r.RingP() != nil) {
			r.FailFor("P01", "refused rlwe parameters are not the empty ones")
		}
		if cerr != nil && (!q.c.Equals(ckks.Parameters{}) || q.c.RingQ() != nil) {
			r.FailFor("P01", "refused ckks parameters are not the empty ones")
		}
	}
	switch op {
	case "Literal", "LiteralJSON":
		l := ckksLiteral(a.F("lit"))
		rl := rlweLiteral(l)
		var q parSet
		var rerr, cerr error
		if op == "Literal" {
			q.r, rerr = rlwe.NewParametersFromLiteral(rl)
			q.c, cerr = ckks.NewParametersFromLiteral(l)
		} else {
			jr, e1 := json.Marshal(rl)
			jc, e2 := json.Marshal(l)
			if e1 != nil || e2 != nil {
				die("cannot write a literal: %v %v", e1, e2)
			}
			if z%2 == 0 { // over the set it replaces
				q = p.regs[z]
			}
			rerr, cerr = json.Unmarshal(jr, &q.r), json.Unmarshal(jc, &q.c)
		}
		verdict("rlwe "+op, rerr, rok)
		verdict("ckks "+op, cerr, ok)
		if op == "Literal" {
			empty(q, rerr, cerr)
		}
		if ok {
			p.regs[z] = q
		}
	case "Direct":
		t := a.F("lit")
		q, rerr, cerr := direct(t.F("logn").Int(), u64s(t.F("qs")), u64s(t.F("ps")), t.F("h").Int(), float64(t.F("sg").Int())/10, t.F("ci").Int(), t.F("slots").Int(), toFloat(t.F("sc").Big()))
		verdict("rlwe.NewParameters", rerr, rok)
		if rok {
			verdict("ckks.NewParameters", cerr, ok)
		}
		empty(q, rerr, cerr)
		if ok {
			p.regs[z] = q
		}
	case "Binary":
		q := p.regs[z]
		if k%2 == 0 && x != z {
			q = parSet{}
		}
		src := p.regs[x]
		br, e1 := src.r.MarshalBinary()
		bc, e2 := src.c.MarshalBinary()
		if e1 != nil || e2 != nil {
			r.FailFor("P01", "MarshalBinary: %v %v", e1, e2)
		}
		if len(br) != src.r.MarshalBinarySize() || len(bc) != src.c.MarshalBinarySize() {
			r.FailFor("P01", "MarshalBinary wrote %d and %d bytes, announced %d and %d", len(br), len(bc), src.r.MarshalBinarySize(), src.c.MarshalBinarySize())
		}
		keepr, keepc := append([]byte{}, br...), append([]byte{}, bc...)
		verdict("rlwe UnmarshalBinary", q.r.UnmarshalBinary(br), true)
		verdict("ckks UnmarshalBinary", q.c.UnmarshalBinary(bc), true)
		// the set does not keep the bytes
		for i := range br {
			br[i] ^= 0x5a
		}
		for i := range bc {
			bc[i] ^= 0x5a
		}
		p.regs[z] = q
		b2, _ := q.c.MarshalBinary()
		b3, _ := q.r.MarshalBinary()
		if string(b2) != string(keepc) || string(b3) != string(keepr) {
			r.FailFor("P01", "the encoding of a decoded set differs from the bytes it was decoded from")
		}
	case "JSON":
		q := p.regs[z]
		if k%2 == 0 && x != z {
			q = parSet{}
		}
		src := p.regs[x]
		jr, e1 := json.Marshal(src.r)
		jc, e2 := json.Marshal(src.c)
		if e1 != nil || e2 != nil {
			r.FailFor("P01", "MarshalJSON: %v %v", e1, e2)
		}
		verdict("rlwe UnmarshalJSON of "+string(jr), json.Unmarshal(jr, &q.r), true)
		verdict("ckks UnmarshalJSON of "+string(jc), json.Unmarshal(jc, &q.c), true)
		s := regs[z]
		if s.F("h").Int() == 0 && q.r.HammingWeight() == q.r.N()/2 && q.c.HammingWeight() == q.c.N()/2 {
			r.Soft("P01", "JSON replaces a Hamming weight of zero by the default")
		} else if s.F("sg").Int() == 0 && q.r.Sigma() == rlwe.DefaultSigma && q.c.Sigma() == rlwe.DefaultSigma {
			r.Soft("P01", "JSON replaces a standard deviation of zero by the default")
		} else if s.F("slots").Int() == 0 && q.c.LogSlots() == q.c.MaxLogSlots() {
			r.Soft("P01", "JSON replaces a single slot by the default number of slots")
		} else {
			p.regs[z] = q
			break
		}
		p.regs[z] = p.build(s)
	case "CopyNew":
		q := parSet{p.regs[x].c.CopyNew(), p.regs[x].r.CopyNew()}
		p.regs[z] = q
	case "Cut", "CutJSON":
		var q parSet
		src := p.regs[x]
		for v := 0; v < 2; v++ {
			var b []byte
			var err error
			un := func(b []byte) error { return nil }
			if op == "Cut" {
				b, err = src.r.MarshalBinary()
				un = q.r.UnmarshalBinary
				if v == 1 {
					b, err = src.c.MarshalBinary()
					un = q.c.UnmarshalBinary
				}
			} else {
				b, err = json.Marshal(src.r)
				un = q.r.UnmarshalJSON
				if v == 1 {
					b, err = json.Marshal(src.c)
					un = q.c.UnmarshalJSON
				}
			}
			if err != nil {
				r.FailFor("P01", "cannot encode: %v", err)
			}
			n := k % len(b)
			if k%3 == 0 {
				n = len(b) - 1 - k/3%12
			}
			r.Count(1)
			if err := un(append([]byte{}, b[:n]...)); err == nil {
				r.FailFor("P01", "%d of the %d bytes of an encoding are accepted as a parameter set", n, len(b))
			}
		}
	case "Equal":
		r.Count(4)
		xs, zs := p.regs[x], p.regs[z]
		if g := xs.c.Equals(zs.c); g != a.F("eq").Bool() {
			r.FailFor("P01", "ckks parameters: Equals returned %v for %s and %s", g, regs[x].JSON(), regs[z].JSON())
		}
		if g := zs.c.Equals(xs.c); g != a.F("eq").Bool() {
			r.FailFor("P01", "ckks parameters: Equals is not symmetric")
		}
		if g := xs.r.Equals(zs.r); g != a.F("eqr").Bool() {
			r.FailFor("P01", "rlwe parameters: Equals returned %v for %s and %s", g, regs[x].JSON(), regs[z].JSON())
		}
		if g := zs.r.Equals(xs.c.Parameters); g != a.F("eqr").Bool() {
			r.FailFor("P01", "rlwe parameters: Equals is not symmetric")
		}
	case "Standard":
		qr, e1 := p.regs[x].r.StandardParameters()
		qc, e2 := p.regs[x].c.StandardParameters()
		verdict("rlwe StandardParameters", e1, true)
		verdict("ckks StandardParameters", e2, true)
		p.regs[z] = parSet{qc, qr}
	case "Fast":
		p.fast(a)
		return
	case "Rotations":
		// as sets: the order does not matter, and a rotation by zero needs no key
		c, n, b := p.regs[x].c, z, a.F("gamma").Int()
		v := a.F("view")
		set := func(what string, got, want []int) {
			g, w := map[int]bool{}, map[int]bool{}
			for _, e := range got {
				g[e] = true
			}
			for _, e := range want {
				w[e] = true
			}
			delete(g, 0)
			delete(w, 0)
			r.Count(1)
			ok := len(g) == len(w)
			for e := range w {
				ok = ok && g[e]
			}
			if !ok {
				r.FailFor("P01", "%s(%d, %d) is %v, expected the rotations %v", what, k, n, got, want)
			}
		}
		set("RotationsForInnerSum", c.RotationsForInnerSum(k, n), v.F("mq").Ints())
		set("RotationsForInnerSumLog", c.RotationsForInnerSumLog(k, n), v.F("mp").Ints())
		set("RotationsForReplicate", c.RotationsForReplicate(k, n), v.F("ql").Ints())
		set("RotationsForReplicateLog", c.RotationsForReplicateLog(k, n), v.F("bl").Ints())
		k = n % 6
		n = b
		set("RotationsForTrace", c.RotationsForTrace(k, b), a.F("ts").Ints())
		return
	case "Shapes":
		p.shapes(p.regs[x], k, z, a.F("gamma").Int(), a.F("ts").Ints())
		return
	case "Default":
		t := a.F("lit")
		lists := [][]ckks.ParametersLiteral{ckks.DefaultParams, ckks.DefaultConjugateInvariantParams, ckks.DefaultPostQuantumParams, ckks.DefaultPostQuantumConjugateInvariantParams}
		q, err := ckks.NewParametersFromLiteral(lists[k/5][k%5])
		verdict("a default set", err, true)
		ann := t.F("sc").Int()
		if q.LogN() != t.F("logn").Int() || q.LogSlots() != t.F("slots").Int() || int(q.RingType()) != t.F("ci").Int() || q.LogQP() > ann+1 || q.LogQP() < ann-1 {
			r.FailFor("P01", "default set %d: degree 2^%d, 2^%d slots, type %v, %d bits; announced %s", k, q.LogN(), q.LogSlots(), q.RingType(), q.LogQP(), t.JSON())
		}
		return
	case "Ring":
		ms := u64s(a.F("ms"))
		g, err := ring.NewRingFromType(1<<k, append([]uint64{}, ms...), ring.Type(x))
		verdict(fmt.Sprintf("NewRingFromType(%d, %v, %d)", 1<<k, ms, x), err, ok)
		var g2 *ring.Ring
		var e2 error
		if x == 1 {
			g2, e2 = ring.NewRingConjugateInvariant(1<<k, ms)
		} else {
			g2, e2 = ring.NewRing(1<<k, ms)
		}
		verdict("NewRing", e2, ok)
		if ok && (g.N != 1<<k || g2.N != 1<<k || !equalWords(g.Modulus, ms) || !equalWords(g2.Modulus, ms) || !g.AllowsNTT || int(g.Type()) != x || int(g2.Type()) != x || g.NthRoot != uint64(2<<k<<x)) {
			r.FailFor("P01", "ring of degree 2^%d modulo %v reports degree %d, moduli %v, type %v", k, ms, g.N, g.Modulus, g.Type())
		}
		return
	default:
		die("params: unknown call %q", op)
	}
	for i := range regs {
		if i == z && a.F("view").F("n").Int() > 0 {
			p.view(regs[i], a.F("view"), p.regs[i].c)
		}
		p.fields(regs[i], p.regs[i])
	}
}

// fields compares what a set is made of.
func (p *parReplay) fields(s Val, q parSet) {
	r := p.r
	for v, g := range []rlwe.Parameters{q.c.Parameters, q.r} {
		r.Count(6)
		what := []string{"ckks", "rlwe"}[v]
		if g.LogN() != s.F("logn").Int() || !equalWords(g.Q(), u64s(s.F("qs"))) || !equalWords(g.P(), u64s(s.F("ps"))) || g.HammingWeight() != s.F("h").Int() ||
			g.Sigma() != float64(s.F("sg").Int())/10 || int(g.RingType()) != s.F("ci").Int() {
			r.FailFor("P01", "%s parameters: logN %d Q %v P %v H %d sigma %v type %v, expected %s", what, g.LogN(), g.Q(), g.P(), g.HammingWeight(), g.Sigma(), g.RingType(), s.JSON())
		}
		np := len(u64s(s.F("ps")))
		if rq := g.RingQ(); rq == nil || rq.N != 1<<s.F("logn").Int() || !equalWords(rq.Modulus, u64s(s.F("qs"))) || int(rq.Type()) != s.F("ci").Int() {
			r.FailFor("P01", "%s parameters: the ring for Q does not fit %s", what, s.JSON())
		}
		if rp := g.RingP(); (rp == nil) != (np == 0) || np > 0 && (rp.N != 1<<s.F("logn").Int() || !equalWords(rp.Modulus, u64s(s.F("ps"))) || int(rp.Type()) != s.F("ci").Int()) {
			r.FailFor("P01", "%s parameters: the ring for P does not fit %s", what, s.JSON())
		}
		if qp := g.RingQP(); qp.RingQ != g.RingQ() || qp.RingP != g.RingP() {
			r.FailFor("P01", "%s parameters: RingQP holds other rings", what)
		}
		// what is handed out is a copy
		l, m, n := g.Q(), g.P(), g.QP()
		for i := range l {
			l[i] = 1
		}
		for i := range m {
			m[i] = 1
		}
		for i := range n {
			n[i] = 1
		}
		if !equalWords(g.Q(), u64s(s.F("qs"))) || !equalWords(g.P(), u64s(s.F("ps"))) {
			r.FailFor("P01", "%s parameters: changing the returned moduli changes the set", what)
		}
	}
	if q.c.LogSlots() != s.F("slots").Int() || q.c.DefaultScale() != toFloat(s.F("sc").Big()) {
		r.FailFor("P01", "ckks parameters: 2^%d slots, scale %v, expected %s", q.c.LogSlots(), q.c.DefaultScale(), s.JSON())
	}
}

// view compares what a set reports.
func (p *parReplay) view(s, v Val, c ckks.Parameters) {
	r := p.r
	num := func(what string, got int, want Val) {
		r.Count(1)
		if new(big.Int).SetInt64(int64(got)).Cmp(want.Big()) != 0 {
			r.FailFor("P01", "%s is %d, expected %v (%s)", what, got, want.Big(), s.JSON())
		}
	}
	bigv := func(what string, got, want *big.Int) {
		r.Count(1)
		if got.Cmp(want) != 0 {
			r.FailFor("P01", "%s is %v, expected %v", what, got, want)
		}
	}
	num("N", c.N(), v.F("n"))
	num("NthRoot", int(c.RingQ().NthRoot), v.F("ord"))
	num("LogQ", c.LogQ(), v.F("bq"))
	num("LogP", c.LogP(), v.F("bp"))
	num("LogQP", c.LogQP(), v.F("bqp"))
	num("MaxLevel", c.MaxLevel(), v.F("maxlevel"))
	num("rlwe MaxLevel", c.Parameters.MaxLevel(), v.F("maxlevel"))
	num("Beta", c.Beta(), v.F("beta"))
	num("MaxLogSlots", c.MaxLogSlots(), v.F("maxslots"))
	qs, ps := u64s(s.F("qs")), u64s(s.F("ps"))
	if c.MaxSlots() != 1<<v.F("maxslots").Int() || c.Slots() != 1<<s.F("slots").Int() || c.QCount() != len(qs) || c.PCount() != len(ps) || c.QPCount() != len(qs)+len(ps) || c.Alpha() != len(ps) {
		r.FailFor("P01", "counts: %d slots of %d, %d+%d=%d moduli, alpha %d (%s)", c.Slots(), c.MaxSlots(), c.QCount(), c.PCount(), c.QPCount(), c.Alpha(), s.JSON())
	}
	if !equalWords(c.QP(), append(append([]uint64{}, qs...), ps...)) {
		r.FailFor("P01", "QP is %v", c.QP())
	}
	bigv("QBigInt", c.QBigInt(), v.F("q").Big())
	bigv("PBigInt", c.PBigInt(), v.F("p").Big())
	bigv("QPBigInt", c.QPBigInt(), new(big.Int).Mul(v.F("q").Big(), v.F("p").Big()))
	mq, mp, ql, bl := v.F("mq").List(), v.F("mp").List(), v.F("ql").Bigs(), v.F("bl").List()
	for i := range mq {
		num(fmt.Sprintf("QiOverflowMargin(%d)", i), c.QiOverflowMargin(i), mq[i])
		bigv("QLvl", c.QLvl(i), ql[i])
		num("LogQLvl", c.LogQLvl(i), bl[i])
		if c.QiFloat64(i) != float64(qs[i]) {
			r.FailFor("P01", "QiFloat64(%d) is %v", i, c.QiFloat64(i))
		}
	}
	for i := range mp {
		num(fmt.Sprintf("PiOverflowMargin(%d)", i), c.PiOverflowMargin(i), mp[i])
	}
	if v.F("p").Big().Sign() > 0 {
		R := new(big.Int).Lsh(big.NewInt(1), 64)
		for i, w := range ckks.GenSwitchkeysRescalingParams(qs, ps) {
			q := new(big.Int).SetUint64(qs[i])
			x := new(big.Int).SetUint64(w)
			if x.Cmp(q) >= 0 || x.Sub(x.Mul(x, v.F("p").Big()), R).Mod(x, q).Sign() != 0 {
				r.FailFor("P01", "the rescaling parameter modulo %d is %d (%s)", qs[i], w, s.JSON())
			}
		}
	}
	ord := v.F("ord").Uint64()
	powers := ring.GenGaloisParams(ord/2, rlwe.GaloisGen)
	if uint64(len(powers)) != ord/4 {
		r.FailFor("P01", "GenGaloisParams gives %d elements of a ring of order %d", len(powers), ord)
	}
	for _, g := range v.F("gal").List() {
		k, e := g.F("k").Int(), g.F("g").Uint64()
		r.Count(3)
		if got := powers[((k%len(powers))+len(powers))%len(powers)]; got != e {
			r.FailFor("P01", "power %d of the generator is %d, expected %d (%s)", k, got, e, s.JSON())
		}
		if got := c.GaloisElementForColumnRotationBy(k); got != e {
			r.FailFor("P01", "Galois element of a rotation by %d is %d, expected %d (%s)", k, got, e, s.JSON())
		}
		if got := c.InverseGaloisElement(e); got != g.F("inv").Uint64() {
			r.FailFor("P01", "inverse of the Galois element %d is %d, expected %d (%s)", e, got, g.F("inv").Uint64(), s.JSON())
		}
	}
	if s.F("ci").Int() == 0 {
		if got := c.GaloisElementForRowRotation(); got != v.F("ord").Uint64()-1 {
			r.FailFor("P01", "Galois element of the conjugation is %d (%s)", got, s.JSON())
		}
	}
	// as sets: the order of the list does not matter
	want, got := map[uint64]bool{}, map[uint64]bool{}
	for _, e := range u64s(v.F("row")) {
		want[e] = true
	}
	for _, e := range c.GaloisElementsForRowInnerSum() {
		got[e] = true
	}
	for e := range want {
		if !got[e] {
			r.FailFor("P01", "GaloisElementsForRowInnerSum lacks %d (%s)", e, s.JSON())
		}
	}
	if len(got) != len(want) {
		r.FailFor("P01", "GaloisElementsForRowInnerSum has %d elements, expected %d (%s)", len(got), len(want), s.JSON())
	}
}

func (p *parReplay) fast(a Val) {
	r := p.r
	l, ts, gamma, v := ckksLiteral(a.F("lit")), u64s(a.F("ts")), a.F("gamma").Int(), a.F("view")
	fr := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: l.LogN, Q: l.Q, P: l.P, T: ts, LogQ: l.LogQ, LogP: l.LogP, Sigma: l.Sigma, H: l.H, Gamma: gamma})
	fc := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: l.LogN, Q: l.Q, P: l.P, T: ts, LogQ: l.LogQ, LogP: l.LogP, Sigma: l.Sigma, LogSlots: l.LogSlots, DefaultScale: l.DefaultScale, H: l.H, Gamma: gamma})
	ms := u64s(a.F("ms"))
	n := v.F("n").Int()
	r.Count(6)
	for i, g := range []*ring.Ring{fr.RingR(), fc.RingR()} {
		if g.N != n || !equalWords(g.Modulus, ms) {
			r.FailFor("P01", "the ring R of the %s parameters has degree %d and moduli %v, expected %d and %v", []string{"frlwe", "fckks"}[i], g.N, g.Modulus, n, ms)
		}
	}
	if g := fr.RingT(); g.N != n || !equalWords(g.Modulus, ts) || fr.Gamma() != gamma {
		r.FailFor("P01", "the ring T has degree %d and moduli %v, gamma %d, expected %d, %v, %d", g.N, g.Modulus, fr.Gamma(), n, ts, gamma)
	}
	for i := range ts {
		max := uint64(0)
		for _, x := range ts[:i+1] {
			if x > max {
				max = x
			}
		}
		want := new(big.Int).Quo(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(max))
		if int64(fr.TiOverflowMargin(i)) != want.Int64() {
			r.FailFor("P01", "TiOverflowMargin(%d) is %d, expected %v", i, fr.TiOverflowMargin(i), want)
		}
	}
	for _, g := range []rlwe.Parameters{fr.Parameters, fc.Parameters.Parameters} {
		if g.N() != n || g.QBigInt().Cmp(v.F("q").Big()) != 0 || g.PBigInt().Cmp(v.F("p").Big()) != 0 || g.Beta() != v.F("beta").Int() || g.MaxLevel() != v.F("maxlevel").Int() {
			r.FailFor("P01", "fast parameters do not describe the set they were made from: N %d Q %v P %v", g.N(), g.Q(), g.P())
		}
	}
	want, err := ckks.NewParametersFromLiteral(l)
	if err != nil || !fc.Parameters.Equals(want) || !fr.Parameters.Equals(want.Parameters) {
		r.FailFor("P01", "fast parameters differ from the ordinary ones of the same description (%v)", err)
	}
}

// shapes: what the packages allocate for a set of parameters
func (p *parReplay) shapes(s parSet, lq, lp, deg int, w []int) {
	r := p.r
	n, rowsQ, rowsP, digits, digitsFull, nq, np, polys := w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]
	ctx := ""
	poly := func(q *ring.Poly, rows int, ntt bool) {
		r.Count(1)
		if q == nil && rows == 0 {
			return
		}
		if q == nil || len(q.Coeffs) != rows || q.IsNTT != ntt || q.IsMForm {
			r.FailFor("P01", "%s: a polynomial %v, must have %d rows, NTT flag %v", ctx, q != nil, rows, ntt)
		}
		for _, row := range q.Coeffs {
			if len(row) != n {
				r.FailFor("P01", "%s: a row has %d coefficients, must have %d", ctx, len(row), n)
			}
			for _, c := range row {
				if c != 0 {
					r.FailFor("P01", "%s: not zero", ctx)
				}
			}
		}
	}
	qp := func(q rlwe.PolyQP, a, b int) { poly(q.Q, a, false); poly(q.P, b, false) }
	gadget := func(k *rlwe.SwitchingKey, digits, a, b int) {
		if len(k.Value) != digits {
			r.FailFor("P01", "%s: %d digits, must be %d", ctx, len(k.Value), digits)
		}
		for _, v := range k.Value {
			qp(v[0], a, b)
			qp(v[1], a, b)
		}
	}
	element := func(v []*ring.Poly, polys, rows int, ntt bool) {
		if len(v) != polys {
			r.FailFor("P01", "%s: %d polynomials, must be %d", ctx, len(v), polys)
		}
		for i, q := range v {
			poly(q, rows, ntt)
			for j := range v {
				if i != j && rows > 0 && &q.Coeffs[0][0] == &v[j].Coeffs[0][0] {
					r.FailFor("P01", "%s: polynomials share their coefficients", ctx)
				}
			}
		}
	}
	err := attempt(func() error {
		for i, c := range []rlwe.Parameters{s.r, s.c.Parameters} {
			ctx = fmt.Sprintf("secret key (%d)", i)
			qp(rlwe.NewSecretKey(c).Value, nq, np)
			ctx = fmt.Sprintf("public key (%d)", i)
			pk := rlwe.NewPublicKey(c)
			qp(pk.Value[0], nq, np)
			qp(pk.Value[1], nq, np)
			ctx = fmt.Sprintf("pair of polynomials (%d)", i)
			rqp := c.RingQP()
			qp(rqp.NewPoly(), nq, np)
			qp(rqp.NewPolyLvl(lq, lp), rowsQ, rowsP)
			ctx = "rlwe ciphertext"
			element(rlwe.NewCiphertext(c, deg, lq).Value, polys, rowsQ, false)
			ctx = "rlwe ciphertext in NTT form"
			element(rlwe.NewCiphertextNTT(c, deg, lq).Value, polys, rowsQ, true)
			ctx = "rlwe plaintext"
			poly(rlwe.NewPlaintext(c, lq).Value, rowsQ, false)
		}
		ctx = "ckks secret key"
		qp(ckks.NewSecretKey(s.c).Value, nq, np)
		ctx = "ckks public key"
		pk := ckks.NewPublicKey(s.c)
		qp(pk.Value[0], nq, np)
		qp(pk.Value[1], nq, np)
		ctx = "ckks ciphertext"
		ct := ckks.NewCiphertext(s.c, deg, lq, 12.5)
		element(ct.Value, polys, rowsQ, true)
		ctx = "ckks plaintext"
		pt := ckks.NewPlaintext(s.c, lq, 12.5)
		poly(pt.Value, rowsQ, true)
		if ct.ScalingFactor() != 12.5 || pt.ScalingFactor() != 12.5 || ct.Level() != lq || pt.Level() != lq || ct.Degree() != deg || pt.Degree() != 0 {
			r.FailFor("P01", "a ciphertext or plaintext of level %d and degree %d reports %d, %d, %d, scale %v", lq, deg, ct.Level(), pt.Level(), ct.Degree(), ct.Scale)
		}
		// elements made of given polynomials share them
		ctx = "elements made of polynomials"
		a, b := s.c.RingQ().NewPoly(), s.c.RingQ().NewPoly()
		c := ckks.NewCiphertextAtLevelFromPoly(lq, [2]*ring.Poly{a, b})
		element(c.Value, 2, rowsQ, true)
		q := ckks.NewPlaintextAtLevelFromPoly(lq, a)
		poly(q.Value, rowsQ, true)
		for i := 0; i < rowsQ; i++ {
			if &c.Value[0].Coeffs[i][0] != &a.Coeffs[i][0] || &c.Value[1].Coeffs[i][0] != &b.Coeffs[i][0] || &q.Value.Coeffs[i][0] != &a.Coeffs[i][0] {
				r.FailFor("P01", "%s: row %d is not the given one", ctx, i)
			}
		}
		if a.IsNTT || b.IsNTT || a.Level() != nq-1 {
			r.FailFor("P01", "%s: a given polynomial was changed", ctx)
		}
		// the element of lower degree first
		e0, e1 := rlwe.NewCiphertext(s.r, deg, 0), rlwe.NewCiphertext(s.r, 1, 0)
		s0, s1, same := rlwe.GetSmallestLargest(e0, e1)
		if same != (deg == 1) || (deg <= 1) != (s0 == e0 && s1 == e1) || (deg > 1) != (s0 == e1 && s1 == e0) {
			r.FailFor("P01", "GetSmallestLargest does not order elements of degrees %d and 1", deg)
		}
		if np == 0 {
			return nil
		}
		ctx = "switching key"
		gadget(rlwe.NewSwitchingKey(s.r, lq, lp), digits, rowsQ, rowsP)
		gadget(ckks.NewSwitchingKey(s.c), digitsFull, nq, np)
		ctx = "relinearization key"
		rlk := rlwe.NewRelinKey(s.r, deg)
		crlk := ckks.NewRelinearizationKey(s.c)
		if len(rlk.Keys) != deg || len(crlk.Keys) != 2 {
			r.FailFor("P01", "%s: %d keys for degree %d (ckks %d)", ctx, len(rlk.Keys), deg, len(crlk.Keys))
		}
		for _, k := range append(rlk.Keys, crlk.Keys...) {
			gadget(k, digitsFull, nq, np)
		}
		ctx = "rotation keys"
		for _, set := range []*rlwe.RotationKeySet{rlwe.NewRotationKeySet(s.r, []uint64{5, 25, 5}), ckks.NewRotationKeySet(s.c, []uint64{5, 25, 5})} {
			if len(set.Keys) != 2 || set.Keys[5] == set.Keys[25] {
				r.FailFor("P01", "%s: %d keys for two Galois elements", ctx, len(set.Keys))
			}
			for _, g := range []uint64{5, 25, 3} {
				k, ok := set.GetRotationKey(g)
				if ok != (g != 3) || ok != (k != nil) {
					r.FailFor("P01", "%s: the key for %d is there: %v", ctx, g, ok)
				}
				if ok {
					gadget(k, digitsFull, nq, np)
				}
			}
		}
		return nil
	})
	if err != nil {
		r.FailFor("P01", "%s: %v", ctx, err)
	}
}
