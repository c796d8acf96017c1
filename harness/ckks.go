package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["ckks"] = replayCKKS }

type ckksCtx struct {
	*heCtx
	rlks []*rlwe.RelinearizationKey
	rtks []*rlwe.RotationKeySet
	swk  []*rlwe.SwitchingKey // i: from key i to key 1-i
	khs  uint64
	pa   *ckks.Ciphertext // operands of the probe
	pb   *ckks.Ciphertext
}

var ckksCache *ckksCtx

func getCkksCtx(r *R) *ckksCtx {
	if ckksCache != nil {
		return ckksCache
	}
	c := &ckksCtx{heCtx: newHeCtx(r, 2)}
	for i := 0; i < 2; i++ {
		c.rlks = append(c.rlks, c.kgen.GenRelinearizationKey(c.sks[i], 2))
		c.rtks = append(c.rtks, c.kgen.GenRotationKeysForRotations(r.cfg.Ints("ROTS"), !c.ci, c.sks[i]))
		c.swk = append(c.swk, c.kgen.GenSwitchingKey(c.sks[i], c.sks[1-i]))
	}
	c.khs = c.keyHash()
	ckksCache = c
	return c
}

func (c *ckksCtx) keyHash() uint64 {
	ks := append([]*rlwe.SwitchingKey{}, c.swk...)
	for i := 0; i < 2; i++ {
		ks = append(ks, c.rlks[i].Keys...)
		ids := []uint64{}
		for g := range c.rtks[i].Keys {
			ids = append(ids, g)
		}
		sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
		for _, g := range ids {
			ks = append(ks, c.rtks[i].Keys[g])
		}
	}
	return hashSwk(ks...) ^ hashPolys(c.sks[0].Value.Q, c.sks[0].Value.P, c.sks[1].Value.Q, c.sks[1].Value.P)
}

func (c *ckksCtx) newEval(key int) ckks.Evaluator {
	return ckks.NewEvaluator(c.params, rlwe.EvaluationKey{Rlk: c.rlks[key], Rtks: c.rtks[key]})
}

// a register of the implementation
type heReg struct {
	ct   *ckks.Ciphertext
	pt   *ckks.Plaintext
	none bool // no operand at all
}

func (x heReg) op() ckks.Operand {
	if x.none {
		return nil
	}
	if x.ct != nil {
		return x.ct
	}
	return x.pt
}
func (x heReg) polys() []*ring.Poly {
	if x.ct != nil {
		return x.ct.Value
	}
	return []*ring.Poly{x.pt.Value}
}
func (x heReg) scale() float64 { return x.op().ScalingFactor() }
func (x heReg) level() int     { return len(x.polys()[0].Coeffs) - 1 }
func (x heReg) copy() heReg {
	if x.ct != nil {
		return heReg{ct: copyCt(x.ct)}
	}
	return heReg{pt: &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: copyPoly(x.pt.Value)}, Scale: x.pt.Scale}}
}
func copyPoly(p *ring.Poly) *ring.Poly {
	q := &ring.Poly{IsNTT: p.IsNTT}
	for _, l := range p.Coeffs {
		q.Coeffs = append(q.Coeffs, append([]uint64{}, l...))
	}
	return q
}
func copyCt(c *ckks.Ciphertext) *ckks.Ciphertext {
	o := &rlwe.Ciphertext{}
	for _, p := range c.Value {
		o.Value = append(o.Value, copyPoly(p))
	}
	return &ckks.Ciphertext{Ciphertext: o, Scale: c.Scale}
}
func hashReg(x heReg) uint64 {
	return hashPolys(x.polys()...)*31 + math.Float64bits(x.scale())
}

// constants of an action as the types the interface accepts
func (c *ckksCtx) constant(a Val) interface{} {
	cr, ci := a.F("cr").Big(), a.F("ci").Big()
	switch a.F("kind").Int() {
	case 0:
		return fixF(cr, -60)
	case 1:
		return complex(fixF(cr, -60), fixF(ci, -60))
	case 2:
		return uint64(fixF(cr, -60))
	case 3:
		return int64(fixF(cr, -60))
	}
	return int(fixF(cr, -60))
}
func gaussian(a Val) (interface{}, interface{}) {
	cr, ci := a.F("cr").Big(), a.F("ci").Big()
	x, y := new(big.Int).Rsh(cr, 60), new(big.Int).Rsh(ci, 60)
	switch a.F("kind").Int() {
	case 2:
		return x.Uint64(), y.Uint64()
	case 3:
		return x.Int64(), y.Int64()
	}
	return x, y
}

type byPow2 interface {
	MulByPow2(ct0 *ckks.Ciphertext, pow2 int, ctOut *ckks.Ciphertext)
	MulByPow2New(ct0 *ckks.Ciphertext, pow2 int) *ckks.Ciphertext
}
type hoister interface {
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
}

// call performs action a on registers x, y with receiver z and returns the
// receiver (a new ciphertext for the New variants) and the results of every
// rotation of a hoisted call.
func (c *ckksCtx) call(ev ckks.Evaluator, a Val, x, y, z heReg) (out heReg, err error, all []*ckks.Ciphertext) {
	op, isNew, k := a.F("op").Str(), a.F("new").Bool(), a.F("k").Int()
	scale := fixF(a.F("sc").Big(), -64)
	var ct *ckks.Ciphertext
	if z.ct != nil {
		ct = z.ct
	}
	two := func(f func(ckks.Operand, ckks.Operand, *ckks.Ciphertext), g func(ckks.Operand, ckks.Operand) *ckks.Ciphertext) {
		if isNew {
			ct = g(x.op(), y.op())
		} else {
			f(x.op(), y.op(), ct)
		}
	}
	one := func(f func(*ckks.Ciphertext, *ckks.Ciphertext), g func(*ckks.Ciphertext) *ckks.Ciphertext) {
		if isNew {
			ct = g(x.ct)
		} else {
			f(x.ct, ct)
		}
	}
	switch op {
	case "Add":
		two(ev.Add, ev.AddNew)
	case "Sub":
		two(ev.Sub, ev.SubNew)
	case "AddNoMod":
		two(ev.AddNoMod, ev.AddNoModNew)
	case "SubNoMod":
		two(ev.SubNoMod, ev.SubNoModNew)
	case "Mul":
		two(ev.Mul, ev.MulNew)
	case "MulRelin":
		two(ev.MulRelin, ev.MulRelinNew)
	case "MulAndAdd":
		ev.MulAndAdd(x.op(), y.op(), ct)
	case "MulRelinAndAdd":
		ev.MulRelinAndAdd(x.op(), y.op(), ct)
	case "Neg":
		one(ev.Neg, ev.NegNew)
	case "Reduce":
		one(func(p, q *ckks.Ciphertext) { err = ev.Reduce(p, q) }, ev.ReduceNew)
	case "MultByi":
		one(ev.MultByi, ev.MultByiNew)
	case "DivByi":
		one(ev.DivByi, ev.DivByiNew)
	case "MulByPow2":
		e := ev.(byPow2)
		one(func(p, q *ckks.Ciphertext) { e.MulByPow2(p, k, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return e.MulByPow2New(p, k) })
	case "ScaleUp":
		f := math.Exp2(float64(k))
		one(func(p, q *ckks.Ciphertext) { ev.ScaleUp(p, f, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return ev.ScaleUpNew(p, f) })
	case "AddConst":
		v := c.constant(a)
		one(func(p, q *ckks.Ciphertext) { ev.AddConst(p, v, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return ev.AddConstNew(p, v) })
	case "MultByConst":
		v := c.constant(a)
		one(func(p, q *ckks.Ciphertext) { ev.MultByConst(p, v, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return ev.MultByConstNew(p, v) })
	case "MultByConstAndAdd":
		ev.MultByConstAndAdd(x.ct, c.constant(a), ct)
	case "MultByGaussianInteger":
		u, v := gaussian(a)
		ev.MultByGaussianInteger(x.ct, u, v, ct)
	case "MultByGaussianIntegerAndAdd":
		u, v := gaussian(a)
		ev.MultByGaussianIntegerAndAdd(x.ct, u, v, ct)
	case "Relinearize":
		one(ev.Relinearize, ev.RelinearizeNew)
	case "SwitchKeys":
		sw := c.swk[a.F("kind").Int()]
		one(func(p, q *ckks.Ciphertext) { ev.SwitchKeys(p, sw, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return ev.SwitchKeysNew(p, sw) })
	case "Rotate":
		one(func(p, q *ckks.Ciphertext) { ev.Rotate(p, k, q) }, func(p *ckks.Ciphertext) *ckks.Ciphertext { return ev.RotateNew(p, k) })
	case "Conjugate":
		one(ev.Conjugate, ev.ConjugateNew)
	case "Rescale", "RescaleZeroScale":
		if isNew {
			type rn interface {
				RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
			}
			ct, err = ev.(rn).RescaleNew(x.ct, scale)
		} else {
			err = ev.Rescale(x.ct, scale, ct)
		}
	case "SetScale":
		ev.SetScale(ct, scale)
	case "DropLevel":
		if isNew {
			ct = ev.DropLevelNew(x.ct, k)
		} else {
			ev.DropLevel(ct, k)
		}
	case "Hoist", "HoistNoModDown":
		lvl := x.ct.Level()
		ks := ev.GetKeySwitcher()
		h := ev.(hoister)
		pc := c.params.PCount()
		ks.DecomposeNTT(lvl, pc-1, pc, x.ct.Value[1], ks.PoolDecompQP)
		rots := a.F("ks").Ints()
		if op == "Hoist" {
			for _, k := range rots {
				o := ckks.NewCiphertext(c.params, 1, lvl, x.ct.Scale)
				h.PermuteNTTHoisted(lvl, x.ct.Value[0], x.ct.Value[1], ks.PoolDecompQP, k, o.Value[0], o.Value[1])
				all = append(all, o)
			}
		} else {
			m := h.RotateHoistedNoModDownNew(lvl, rots, x.ct.Value[0], ks.PoolDecompQP)
			for _, k := range rots {
				o := ckks.NewCiphertext(c.params, 1, lvl, x.ct.Scale)
				for u := 0; u < 2; u++ {
					ks.BasisExtender.ModDownQPtoQNTT(lvl, pc-1, m[k][u].Q, m[k][u].P, o.Value[u])
				}
				all = append(all, o)
			}
		}
		ct = all[len(all)-1]
	default:
		die("ckks: unknown call %s", op)
	}
	return heReg{ct: ct}, err, all
}

// specification's register
type specCt struct {
	deg, lvl, b, key int
	sc               float64
	re, im           []*big.Float
	err              float64
	maxv             float64
}

func specReg(v Val) specCt {
	s := specCt{deg: v.F("deg").Int(), lvl: v.F("lvl").Int(), b: v.F("b").Int(), key: v.F("key").Int(), sc: fixF(v.F("sc").Big(), -64), err: fixF(v.F("err").Big(), -60)}
	for _, x := range v.F("re").Bigs() {
		s.re = append(s.re, fixToFloat(x))
	}
	for _, x := range v.F("im").Bigs() {
		s.im = append(s.im, fixToFloat(x))
	}
	for j := range s.re {
		a, _ := s.re[j].Float64()
		b, _ := s.im[j].Float64()
		s.maxv = math.Max(s.maxv, math.Max(math.Abs(a), math.Abs(b)))
	}
	return s
}

// slotDiff: largest distance between the decoded slots and the expected ones
func (h *heCtx) slotDiff(level int, value []*ring.Poly, key int, scale float64, re, im []*big.Float) (float64, int) {
	dr, di := h.decode(level, value, key)
	sc := bf().SetFloat64(scale)
	worst, at := 0.0, 0
	for j := range re {
		x, _ := bf().Sub(bf().Quo(dr[j], sc), re[j]).Float64()
		y := 0.0
		if !h.ci {
			y, _ = bf().Sub(bf().Quo(di[j], sc), im[j]).Float64()
		}
		if d := math.Hypot(x, y); d > worst {
			worst, at = d, j
		}
	}
	return worst, at
}

func (c *ckksCtx) load(s specCt, pt bool) heReg {
	m := c.encodePoly(s.re, s.im, s.sc)
	if pt {
		p := c.encrypt(s.lvl, 0, m, 0)
		return heReg{pt: &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p[0]}, Scale: s.sc}}
	}
	return heReg{ct: &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{Value: c.encrypt(s.lvl, s.deg, m, s.key)}, Scale: s.sc}}
}

func slotProp(op string) string {
	switch op {
	case "Rotate", "Conjugate", "Hoist", "HoistNoModDown":
		return "C03"
	}
	return "C01"
}

// compare judges register s of the specification against x of the code.
func (c *ckksCtx) compare(r *R, op string, s specCt, x heReg, words bool) {
	r.Count(1)
	val := slotProp(op)
	meta := "C02"
	ps := x.polys()
	if len(ps)-1 != s.deg {
		r.FailFor(meta, "the result has degree %d instead of %d", len(ps)-1, s.deg)
	}
	lvl := x.level()
	for u, p := range ps {
		if len(p.Coeffs) != len(ps[0].Coeffs) {
			r.FailFor(meta, "the polynomials of the result have %d and %d limbs (0 and %d)", len(ps[0].Coeffs), len(p.Coeffs), u)
		}
		if !p.IsNTT {
			r.FailFor(meta+" C04", "polynomial %d of the result is not flagged as transformed", u)
		}
	}
	if lvl != s.lvl {
		r.FailFor(meta, "the result has level %d instead of %d", lvl, s.lvl)
	}
	sc := x.scale()
	if math.IsNaN(sc) || math.Abs(sc-s.sc) > s.sc*math.Exp2(-40) {
		if val != "C03" {
			// the values may still be right under the scale the rules give
			r.FailFor(meta, "the result has scale %g instead of %g", sc, s.sc)
		}
		r.FailFor(meta+" "+val, "the result has scale %g instead of %g", sc, s.sc)
	}
	if s.b == 0 && words {
		for u, p := range ps {
			for i, l := range p.Coeffs {
				for k, w := range l {
					if w > c.params.Q()[i] { // the negative of zero may be the modulus itself
						r.FailFor("C04", "word %d of limb %d of polynomial %d is %d, larger than the modulus %d", k, i, u, w, c.params.Q()[i])
					}
				}
			}
		}
	}
	tol := s.err*math.Sqrt2 + (s.maxv+s.err)*math.Exp2(-44)
	d, j := c.slotDiff(lvl, ps, s.key, sc, s.re, s.im)
	r.Note("largest error over bound", d/tol)
	if !(d <= tol) {
		er, _ := s.re[j].Float64()
		ei, _ := s.im[j].Float64()
		r.FailFor(val, "slot %d is %g away from %g%+gi (allowed %g)", j, d, er, ei, tol)
	}
}

func replayCKKS(r *R, t *Trace) {
	c := getCkksCtx(r)
	np := r.cfg.Int("NP", 1)
	nc := r.cfg.Int("NC", 3)
	evs := []ckks.Evaluator{c.newEval(0), c.newEval(1)}
	regs := make([]heReg, nc+np)
	c04 := r.For("C04")
	for i, st := range t.States {
		a := st.F("act")
		op := a.F("op").Str()
		desc := fmt.Sprintf("%s x=%d y=%d z=%d new=%v k=%d", op, a.F("x").Int(), a.F("y").Int(), a.F("z").Int(), a.F("new").Bool(), a.F("k").Int())
		switch op {
		case "AddConst", "MultByConst", "MultByConstAndAdd", "MultByGaussianInteger", "MultByGaussianIntegerAndAdd":
			desc += fmt.Sprintf(" kind=%d c=%g%+gi", a.F("kind").Int(), fixF(a.F("cr").Big(), -60), fixF(a.F("ci").Big(), -60))
		case "Rescale", "SetScale":
			desc += fmt.Sprintf(" scale=%g", fixF(a.F("sc").Big(), -64))
		case "Hoist", "HoistNoModDown":
			desc += fmt.Sprintf(" ks=%v", a.F("ks").Ints())
		}
		spec := st.F("regs").List()
		zi := a.F("z").Int()
		if op == "Init" {
			r.Step(i, op, desc)
			for k := range regs {
				regs[k] = c.load(specReg(spec[k]), k >= nc)
			}
			continue
		}
		x, y, z := regs[a.F("x").Int()], regs[a.F("y").Int()], regs[zi]
		meta := func(g heReg) string {
			return fmt.Sprintf("(deg %d lvl %d scale %.4g)", len(g.polys())-1, g.level(), g.scale())
		}
		if op != "Load" {
			desc += " " + meta(x) + meta(y) + meta(z)
		}
		r.Step(i, op, desc)
		if op == "Load" {
			regs[zi] = c.load(specReg(spec[zi]), zi >= nc)
			c.compare(r, op, specReg(spec[zi]), regs[zi], false)
			continue
		}
		if a.F("bad").Int() >= 0 {
			c.refused(r, evs[0], a, op, regs, x, y, z)
			continue
		}
		s := specReg(spec[zi])
		fail := a.F("fail").Bool()
		key := specReg(t.States[i-1].F("regs").List()[a.F("x").Int()]).key
		if a.F("y").Int() != a.F("x").Int() && x.pt != nil {
			key = specReg(t.States[i-1].F("regs").List()[a.F("y").Int()]).key
		}
		if op == "SetScale" {
			key = s.key
		}
		before := make([]uint64, len(regs))
		for k := range regs {
			before[k] = hashReg(regs[k])
		}
		var saved []heReg
		if c04 {
			for k := range regs {
				saved = append(saved, regs[k].copy())
			}
		}
		if op == "RescaleZeroScale" {
			x = x.copy()
			x.ct.Scale = 0
			z = x
		}
		hz := hashReg(z)
		out, err, all := c.call(evs[key], a, x, y, z)
		if fail {
			if err == nil {
				r.FailFor("C02", "the call reports no error")
			}
			if hashReg(z) != hz {
				r.FailFor("C02 C04", "the call reports an error (%v) but has modified its receiver", err)
			}
		} else if err != nil {
			r.FailFor("C02 "+slotProp(op), "the call reports an error: %v", err)
		}
		// nothing but the receiver changes
		for k := range regs {
			if k == zi && !a.F("new").Bool() && !fail {
				continue
			}
			r.Count(1)
			if hashReg(regs[k]) != before[k] {
				r.FailFor("C04", "the call modified register %d, which is not its receiver", k)
			}
		}
		if c04 && c.keyHash() != c.khs {
			c.khs = c.keyHash()
			r.FailFor("C04", "the call modified a key")
		}
		if fail {
			continue
		}
		regs[zi] = out
		for n, k := range a.F("ks").Ints() {
			if n < len(all)-1 {
				e := specReg(t.States[i-1].F("regs").List()[a.F("x").Int()])
				e.err = s.err
				e.lvl = s.lvl
				e.re, e.im = rotSlots(e.re, k), rotSlots(e.im, k)
				c.compare(r, op, e, heReg{ct: all[n]}, true)
			}
		}
		c.compare(r, op, s, out, true)
		if i < 3 {
			r.Sample(map[string]interface{}{"call": desc, "level": s.lvl, "degree": s.deg, "scale": s.sc, "slots": st.F("regs").List()[zi].F("re").JSON(), "allowed error": s.err})
		}
		if !c04 {
			continue
		}
		// the same call again: other evaluators, other receivers, the same result
		same := func(what string, ev ckks.Evaluator, x, y, z heReg) {
			r.Count(1)
			o, e2, _ := c.call(ev, a, x, y, z)
			if e2 != nil {
				r.Fail("the same call %s reports an error: %v", what, e2)
			}
			if len(o.polys()) != len(out.polys()) || o.level() != out.level() || math.Float64bits(o.scale()) != math.Float64bits(out.scale()) {
				r.Fail("the same call %s gives another degree, level or scale: %s instead of %s", what, meta(o), meta(out))
			}
			for u, p := range o.polys() {
				for l := range p.Coeffs {
					q := uint64(0)
					if s.b > 0 {
						q = c.params.Q()[l]
					}
					for k, w := range p.Coeffs[l] {
						v := out.polys()[u].Coeffs[l][k]
						if w != v && (q == 0 || w%q != v%q) {
							r.Fail("the same call %s gives another result: polynomial %d limb %d word %d is %d instead of %d", what, u, l, k, w, v)
						}
					}
				}
			}
		}
		pick := func(k int) heReg { return saved[k].copy() }
		xi, yi := a.F("x").Int(), a.F("y").Int()
		pre := func() (heReg, heReg, heReg) { // with the same aliasing as the first call
			m := map[int]heReg{}
			for _, k := range []int{xi, yi, zi} {
				if _, ok := m[k]; !ok {
					m[k] = pick(k)
				}
			}
			return m[xi], m[yi], m[zi]
		}
		x1, y1, z1 := pre()
		same("on a fresh evaluator", c.newEval(key), x1, y1, z1)
		x1, y1, z1 = pre()
		same("repeated on the same evaluator", evs[key], x1, y1, z1)
		acc := op == "MulAndAdd" || op == "MulRelinAndAdd" || op == "MultByConstAndAdd" || op == "MultByGaussianIntegerAndAdd" || op == "SetScale" || op == "DropLevel"
		if !acc && !a.F("new").Bool() {
			zl := saved[zi]
			// a receiver that is no operand: zero, then arbitrary words
			fr := heReg{ct: ckks.NewCiphertext(c.params, len(zl.polys())-1, zl.level(), 1)}
			same("with a new receiver", c.newEval(key), pick(xi), pick(yi), fr)
			dirty := heReg{ct: ckks.NewCiphertext(c.params, len(zl.polys())-1, zl.level(), 12345)}
			for _, p := range dirty.ct.Value {
				for l := range p.Coeffs {
					for k := range p.Coeffs[l] {
						p.Coeffs[l][k] = c.rng.Uint64() % c.params.Q()[l]
					}
				}
			}
			same("with a receiver in use", evs[key], pick(xi), pick(yi), dirty)
		}
	}
}

// evaluators of the first key without one of the keys
func (c *ckksCtx) without(what string) ckks.Evaluator {
	switch what {
	case "rlk":
		return ckks.NewEvaluator(c.params, rlwe.EvaluationKey{Rtks: c.rtks[0]})
	case "rtk":
		return ckks.NewEvaluator(c.params, rlwe.EvaluationKey{Rlk: c.rlks[0]})
	}
	return ckks.NewEvaluator(c.params, rlwe.EvaluationKey{})
}

// probe: the words of a few calls on fixed operands. They do not depend on
// what the evaluator was asked before.
func (c *ckksCtx) probe(r *R, ev ckks.Evaluator, rlk, rtk bool) map[string]uint64 {
	if c.pa == nil {
		L := len(c.params.Q())
		var re, im []*big.Float
		for j := 0; j < 1<<c.params.LogSlots(); j++ {
			re, im = append(re, bf().SetFloat64(float64(j%5)/4)), append(im, bf().SetFloat64(0))
		}
		m := c.encodePoly(re, im, c.params.DefaultScale())
		c.pa = &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{Value: c.encrypt(L-1, 1, m, 0)}, Scale: c.params.DefaultScale()}
		c.pb = &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{Value: c.encrypt(L-2, 1, m, 0)}, Scale: 2 * c.params.DefaultScale()}
	}
	out := map[string]uint64{}
	put := func(n string, x *ckks.Ciphertext) *ckks.Ciphertext { out[n] = hashReg(heReg{ct: x}); return x }
	put("Add", ev.AddNew(c.pa, c.pb))
	put("MultByConst", ev.MultByConstNew(c.pa, 0.3))
	m := put("Mul", ev.MulNew(c.pa, c.pb))
	if rlk {
		put("MulRelin", ev.MulRelinNew(c.pb, c.pa))
		m = put("Relinearize", ev.RelinearizeNew(m))
	}
	if rtk && len(c.rtks[0].Keys) > 0 {
		put("Rotate", ev.RotateNew(c.pa, r.cfg.Ints("ROTS")[0]))
	}
	o := ckks.NewCiphertext(c.params, m.Degree(), m.Level(), 1)
	if err := ev.Rescale(m, c.params.DefaultScale(), o); err == nil {
		put("Rescale", o)
	}
	return out
}

// refused: a request that cannot be carried out is refused and changes nothing.
func (c *ckksCtx) refused(r *R, ev ckks.Evaluator, a Val, op string, regs []heReg, x, y, z heReg) {
	bad, k := a.F("bad").Int(), a.F("k").Int()
	kind := a.F("kind").Int()
	rlk, rtk := true, true
	coeff := func(g heReg) heReg {
		g = g.copy()
		ps := g.polys()
		ps[((k%len(ps))+len(ps))%len(ps)].IsNTT = false
		return g
	}
	xo := x
	switch bad {
	case 1:
		x = coeff(x)
		if op == "Rescale" && z.ct == xo.ct {
			z = x
		}
	case 2:
		y = coeff(y)
	case 3:
		x = heReg{none: true}
	case 4:
		y = heReg{none: true}
	case 6:
		if op == "Rotate" || op == "Conjugate" {
			rtk = false
			ev = c.without("rtk")
		} else {
			rlk = false
			ev = c.without("rlk")
		}
		if kind == 0 {
			rlk, rtk = false, false
			ev = c.without("all")
		}
	case 11:
		x = x.copy()
		x.ct.Scale = 0
		if z.ct == xo.ct {
			z = x
		}
	}
	state := func() (h []uint64) {
		for _, g := range append(append([]heReg{}, regs...), x, y, z) {
			if g.none || (g.ct == nil && g.pt == nil) {
				continue
			}
			v := hashReg(g)
			for _, p := range g.polys() {
				v = v*31 + uint64(len(p.Coeffs))
				if p.IsNTT {
					v = v*31 + 7
				}
			}
			h = append(h, v)
		}
		return
	}
	h0 := state()
	err := attempt(func() (e error) {
		if bad == 8 {
			c.badConstant(ev, a, op, kind, x, z)
			return nil
		}
		_, e, _ = c.call(ev, a, x, y, z)
		return
	})
	r.Count(2 + len(h0))
	if err == nil {
		r.FailFor("E01", "the request is not refused (reason %d)", bad)
	}
	h1 := state()
	for n := range h0 {
		if h0[n] != h1[n] {
			what := fmt.Sprintf("register %d", n)
			if n >= len(regs) {
				what = "one of its operands"
			}
			r.FailFor("E01", "the request is refused (%v) but has changed %s (reason %d)", err, what, bad)
		}
	}
	if c.keyHash() != c.khs {
		c.khs = c.keyHash()
		r.FailFor("E01", "the request is refused (%v) but has changed a key", err)
	}
	// the evaluator works as before
	ref := c.probe(r, c.newEval(0), rlk, rtk)
	got := c.probe(r, ev, rlk, rtk)
	for n, v := range ref {
		r.Count(1)
		if got[n] != v {
			r.FailFor("E01", "after a refused request (%v) the evaluator gives another result for %s", err, n)
		}
	}
}

// badConstant asks for an operation with a constant of a type it does not take.
func (c *ckksCtx) badConstant(ev ckks.Evaluator, a Val, op string, kind int, x, z heReg) {
	isNew := a.F("new").Bool()
	var v interface{} = []interface{}{float32(2), int32(3), "1", nil, uint32(1), complex64(1)}[kind]
	switch op {
	case "AddConst":
		if isNew {
			ev.AddConstNew(x.ct, v)
		} else {
			ev.AddConst(x.ct, v, z.ct)
		}
	case "MultByConst":
		if isNew {
			ev.MultByConstNew(x.ct, v)
		} else {
			ev.MultByConst(x.ct, v, z.ct)
		}
	case "MultByConstAndAdd":
		ev.MultByConstAndAdd(x.ct, v, z.ct)
	case "MultByGaussianInteger":
		ev.MultByGaussianInteger(x.ct, v, int64(1), z.ct)
	case "MultByGaussianIntegerAndAdd":
		ev.MultByGaussianIntegerAndAdd(x.ct, v, int64(1), z.ct)
	}
}

func rotSlots(v []*big.Float, k int) []*big.Float {
	n := len(v)
	o := make([]*big.Float, n)
	for j := range o {
		o[j] = v[((j+k)%n+n)%n]
	}
	return o
}
