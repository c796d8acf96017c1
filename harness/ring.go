package main

import (
	"math/big"
	"math/bits"

	"fast-ksw/ring"
)

func init() { replayers["ring"] = replayRing }

// ---- arithmetic independent of the code under test
func mulmod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a%q, b%q)
	_, r := bits.Div64(hi, lo, q)
	return r
}
func addmod(a, b, q uint64) uint64 {
	s, c := bits.Add64(a%q, b%q, 0)
	_, r := bits.Div64(c, s, q)
	return r
}
func submod(a, b, q uint64) uint64 { return addmod(a, q-b%q, q) }
func powmod(a, e, q uint64) uint64 {
	r := uint64(1) % q
	a %= q
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulmod(r, a, q)
		}
		a = mulmod(a, a, q)
	}
	return r
}

// evalPoints are the points at which the transform of a ring evaluates
// polynomials, limb by limb, found by transforming X and checked to be exactly
// the primitive roots (or, in the conjugate-invariant ring, the sums of a
// primitive root and its inverse).
type evalPoints struct {
	n    int
	ci   bool
	pts  [][]uint64
	gaps map[[2]int][]uint64
}

func newEvalPoints(r *R, rg *ring.Ring) *evalPoints {
	n := rg.N
	e := &evalPoints{n: n, ci: rg.Type() == ring.ConjugateInvariant}
	p := rg.NewPoly()
	for i := range rg.Modulus {
		p.Coeffs[i][1] = 1
	}
	out := rg.NewPoly()
	rg.NTT(p, out)
	for i, q := range rg.Modulus {
		pts := append([]uint64{}, out.Coeffs[i]...)
		seen := map[uint64]bool{}
		for _, x := range pts {
			if seen[x] || x >= q {
				r.FailFor("R01", "the transform of X modulo %d does not take each value once (value %d)", q, x)
			}
			seen[x] = true
			if !e.ci {
				if powmod(x, uint64(n), q) != q-1 {
					r.FailFor("R01", "the transform of X modulo %d has the value %d, not a primitive 2N-th root of unity", q, x)
				}
			} else if e.dickson(x, n, q) != 0 {
				r.FailFor("R01", "the transform of X+1/X modulo %d has the value %d, not the sum of a primitive 4N-th root and its inverse", q, x)
			}
		}
		e.pts = append(e.pts, pts)
	}
	return e
}

// dickson is the value of X^k + X^-k for X + X^-1 = y.
func (e *evalPoints) dickson(y uint64, k int, q uint64) uint64 {
	a, b := 2%q, y%q // for j and j+1, j the leading bits of k
	for i := bits.Len(uint(k)) - 1; i >= 0; i-- {
		m := submod(mulmod(a, b, q), y%q, q)
		if k>>uint(i)&1 == 0 {
			a, b = submod(mulmod(a, a, q), 2%q, q), m
		} else {
			a, b = m, submod(mulmod(b, b, q), 2%q, q)
		}
	}
	return a
}

// powers gives the gap-th powers (conjugate-invariant: the values of X^gap + X^-gap) at the points.
func (e *evalPoints) powers(i int, q uint64, gap int) []uint64 {
	if e.gaps == nil {
		e.gaps = map[[2]int][]uint64{}
	}
	g := e.gaps[[2]int{i, gap}]
	if g == nil {
		g = make([]uint64, e.n)
		for t, x := range e.pts[i] {
			if e.ci {
				g[t] = e.dickson(x, gap, q)
			} else {
				g[t] = powmod(x, uint64(gap), q)
			}
		}
		e.gaps[[2]int{i, gap}] = g
	}
	return g
}

// eval computes the transform of the polynomial with coefficients v at the
// positions j*gap, modulo the i-th prime.
func (e *evalPoints) eval(i int, q uint64, v []uint64, gap int) []uint64 {
	out := make([]uint64, e.n)
	for t, g := range e.powers(i, q, gap) {
		var acc uint64
		if !e.ci {
			for j := len(v) - 1; j >= 0; j-- {
				acc = addmod(mulmod(acc, g, q), v[j], q)
			}
		} else {
			acc = v[0] % q
			d0, d1 := 2%q, g
			for j := 1; j < len(v); j++ {
				acc = addmod(acc, mulmod(v[j], d1, q), q)
				d0, d1 = d1, submod(mulmod(g, d1, q), d0, q)
			}
		}
		out[t] = acc
	}
	return out
}

type ringCtx struct {
	rg   *ring.Ring
	pts  *evalPoints
	N    int // specification degree
	lift int // code degree = N * lift
	qs   []uint64
}

var ringCtxCache *ringCtx

func getRingCtx(r *R) *ringCtx {
	if ringCtxCache != nil {
		return ringCtxCache
	}
	c := &ringCtx{N: r.cfg.Int("N", 16), lift: r.cfg.Int("lift", 1), qs: r.cfg.Uints("QS")}
	t := ring.Standard
	if r.cfg.Bool("CI") {
		t = ring.ConjugateInvariant
	}
	var err error
	c.rg, err = ring.NewRingFromType(c.N*c.lift, c.qs, t)
	if err != nil {
		r.Fail("cannot create the ring: %v", err)
	}
	c.pts = newEvalPoints(r, c.rg)
	ringCtxCache = c
	return c
}

// via is the ring by its k-th constructor
func (c *ringCtx) via(r *R, k int) *ring.Ring {
	n, ci := c.N*c.lift, c.rg.Type() == ring.ConjugateInvariant
	rg, err := c.rg, error(nil)
	switch k {
	case 0:
		rg, err = ring.NewRingFromType(n, c.qs, c.rg.Type())
	case 1:
		if ci {
			rg, err = ring.NewRingConjugateInvariant(n, c.qs)
		} else {
			rg, err = ring.NewRing(n, c.qs)
		}
	case 2:
		if ci {
			rg, err = ring.NewRingWithCustomNTT(n, c.qs, ring.NumberTheoreticTransformerConjugateInvariant{}, 4*n)
		} else {
			rg, err = ring.NewRingWithCustomNTT(n, c.qs, ring.NumberTheoreticTransformerStandard{}, 2*n)
		}
	case 3: // derived from the ring of the other type
		var o *ring.Ring
		if ci {
			if o, err = ring.NewRing(2*n, c.qs); err == nil {
				rg, err = o.ConjugateInvariantRing()
			}
		} else if n > 16 {
			if o, err = ring.NewRingConjugateInvariant(n/2, c.qs); err == nil {
				rg, err = o.StandardRing()
			}
		}
	case 4: // still the same after others were derived from it
		if ci {
			_, err = rg.StandardRing()
		} else if n > 16 {
			_, err = rg.ConjugateInvariantRing()
		}
	case 5: // derived twice, or itself
		var o *ring.Ring
		if ci {
			if o, err = rg.StandardRing(); err == nil {
				rg, err = o.ConjugateInvariantRing()
			}
		} else {
			rg, err = rg.StandardRing()
		}
	}
	if err != nil {
		r.Fail("constructor %d of the ring: %v", k, err)
	}
	return rg
}

// quot multiplies words by (s + index) divided by themselves
func (c *ringCtx) quot(r *R, k, lvl int, s *big.Int, x, z *ring.Poly) {
	rg := c.rg
	y := rg.NewPolyLvl(lvl)
	for i := range y.Coeffs {
		q := c.qs[i]
		qb := new(big.Int).SetUint64(q)
		w := powmod(2, 64, q)
		for j := range y.Coeffs[i] {
			v := new(big.Int).Add(s, big.NewInt(int64(j/c.lift)))
			v.Mod(v, qb)
			if j%c.lift != 0 {
				v.SetInt64(0)
			}
			t := v.Uint64()
			if k <= 3 {
				t = mulmod(t, powmod(x.Coeffs[i][j], q-2, q), q)
			}
			switch k {
			case 2, 3, 6:
				t = mulmod(t, w, q)
			case 4, 5:
				t = mulmod(t, powmod(w, q-2, q), q)
			}
			y.Coeffs[i][j] = t
		}
	}
	switch k {
	case 0:
		rg.MulCoeffsLvl(lvl, x, y, z)
	case 1:
		rg.MulCoeffsConstantLvl(lvl, x, y, z)
	case 2:
		rg.MulCoeffsMontgomeryLvl(lvl, x, y, z)
	case 3:
		rg.MulCoeffsMontgomeryConstantLvl(lvl, x, y, z)
	case 4:
		rg.MFormLvl(lvl, y, z)
	case 5:
		rg.MFormConstantLvl(lvl, y, z)
	case 6:
		rg.InvMFormLvl(lvl, y, z)
	}
}

// fill stores a specification register into a polynomial.
func (c *ringCtx) fill(reg Val, p *ring.Poly) {
	for i, l := range reg.List() {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = 0
		}
		for j, x := range l.F("v").List() {
			p.Coeffs[i][j*c.lift] = x.Uint64()
		}
	}
}

func clonePoly(p *ring.Poly) *ring.Poly {
	q := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm, Coeffs: make([][]uint64, len(p.Coeffs))}
	for i := range p.Coeffs {
		q.Coeffs[i] = append([]uint64{}, p.Coeffs[i]...)
	}
	return q
}

func sameWords(a, b *ring.Poly) bool {
	if len(a.Coeffs) != len(b.Coeffs) {
		return false
	}
	for i := range a.Coeffs {
		if len(a.Coeffs[i]) != len(b.Coeffs[i]) {
			return false
		}
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j] != b.Coeffs[i][j] {
				return false
			}
		}
	}
	return true
}

// compare checks a polynomial against a specification register.
func (c *ringCtx) compare(r *R, name string, reg Val, p *ring.Poly) {
	limbs := reg.List()
	if len(p.Coeffs) != len(limbs) {
		r.Fail("%s has %d limbs, expected %d", name, len(p.Coeffs), len(limbs))
	}
	for i, l := range limbs {
		b := l.F("b").Int()
		if b < 0 {
			continue
		}
		q := c.qs[i]
		if len(p.Coeffs[i]) != c.N*c.lift {
			r.Fail("%s limb %d has %d words, expected %d", name, i, len(p.Coeffs[i]), c.N*c.lift)
		}
		want := make([]uint64, c.N*c.lift)
		v := make([]uint64, c.N)
		for j, x := range l.F("v").List() {
			v[j] = x.Uint64()
		}
		if l.F("ntt").Bool() {
			want = c.pts.eval(i, q, v, c.lift)
		} else {
			for j := range v {
				want[j*c.lift] = v[j]
			}
		}
		for j, w := range p.Coeffs[i] {
			r.Count(1)
			if w%q != want[j] {
				r.Fail("%s: word %d modulo prime %d (%d) is %d, expected %d (transformed: %v)", name, j, i, q, w%q, want[j], l.F("ntt").Bool())
			}
			if b == 0 && w >= q {
				r.Fail("%s: word %d modulo prime %d (%d) is %d: not reduced", name, j, i, q, w)
			}
			if b > 0 {
				hi, lo := bits.Mul64(uint64(b), q)
				if hi == 0 && w > lo {
					r.Fail("%s: word %d modulo prime %d (%d) is %d: beyond the documented range [0, %d q]", name, j, i, q, w, b)
				}
			}
		}
	}
}

func uniformNTT(reg Val, lvl int) bool { return reg.List()[0].F("ntt").Bool() }

func replayRing(r *R, t *Trace) {
	c := getRingCtx(r)
	rg := c.rg
	defer func() { c.rg = rg }()
	first := t.States[0].F("regs").List()
	P := make([]*ring.Poly, len(first))
	for i, reg := range first {
		P[i] = ring.NewPoly(rg.N, len(reg.List()))
		c.fill(reg, P[i])
	}
	pool := ring.NewPoly(rg.N, len(c.qs))
	for i := range pool.Coeffs {
		for j := range pool.Coeffs[i] {
			pool.Coeffs[i][j] = uint64(i*7 + j)
		}
	}
	r.Sample(map[string]interface{}{"trace": t.File, "calls": callNames(t)})
	for i := 1; i < len(t.States); i++ {
		a := t.States[i].F("act")
		op := a.F("op").Str()
		r.Step(i, op, a.JSON())
		x, y, z := P[a.F("x").Int()], P[a.F("y").Int()], P[a.F("z").Int()]
		lvl, full, k := a.F("lvl").Int(), a.F("full").Bool(), a.F("k").Int()
		s := a.F("s").Big()
		vec := a.F("vec").Bigs()
		out := a.F("out").Bigs()
		before := make([]*ring.Poly, len(P))
		for j := range P {
			before[j] = clonePoly(P[j])
		}
		c.call(r, a, op, x, y, z, lvl, full, k, s, vec, out, pool, t.States[i].F("regs").List()[a.F("z").Int()], t.States[i-1])
		for j := range P {
			if j != a.F("z").Int() && op != "Equal" && !sameWords(before[j], P[j]) {
				r.Fail("register %d is not the receiver and was modified", j)
			}
		}
		for j, reg := range t.States[i].F("regs").List() {
			c.compare(r, "register "+string(rune('0'+j)), reg, P[j])
		}
	}
}

func callNames(t *Trace) []string {
	n := []string{}
	for i := 1; i < len(t.States); i++ {
		n = append(n, t.States[i].F("act").F("op").Str())
	}
	return n
}

func (c *ringCtx) call(r *R, a Val, op string, x, y, z *ring.Poly, lvl int, full bool, k int, s *big.Int, vec, out []*big.Int, pool *ring.Poly, zafter Val, prev Val) {
	rg := c.rg
	qi, mred := c.qs[lvl], rg.MredParams[lvl]
	su := new(big.Int).And(s, new(big.Int).SetUint64(^uint64(0))).Uint64()
	vecu := func() []uint64 {
		v := make([]uint64, c.N)
		for i := range v {
			v[i] = vec[i].Uint64()
		}
		return v
	}
	big2 := func() []*big.Int {
		v := make([]*big.Int, rg.N)
		for i := range v {
			v[i] = new(big.Int)
			if i%c.lift == 0 {
				v[i].Set(vec[i/c.lift])
			}
		}
		return v
	}
	switch op {
	case "Ring":
		c.rg = c.via(r, k)
	case "Quot":
		c.quot(r, int(out[0].Int64()), lvl, s, x, z)
	case "Load":
		c.fill(zafter, z)
	case "Add":
		if full {
			rg.Add(x, y, z)
		} else {
			rg.AddLvl(lvl, x, y, z)
		}
	case "Sub":
		if full {
			rg.Sub(x, y, z)
		} else {
			rg.SubLvl(lvl, x, y, z)
		}
	case "AddNoMod":
		if full {
			rg.AddNoMod(x, y, z)
		} else {
			rg.AddNoModLvl(lvl, x, y, z)
		}
	case "SubNoMod":
		if full {
			rg.SubNoMod(x, y, z)
		} else {
			rg.SubNoModLvl(lvl, x, y, z)
		}
	case "MulCoeffs":
		if full {
			rg.MulCoeffs(x, y, z)
		} else {
			rg.MulCoeffsLvl(lvl, x, y, z)
		}
	case "MulCoeffsConstant":
		if full {
			rg.MulCoeffsConstant(x, y, z)
		} else {
			rg.MulCoeffsConstantLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomery":
		if full {
			rg.MulCoeffsMontgomery(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryConstant":
		if full {
			rg.MulCoeffsMontgomeryConstant(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryConstantLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryConstantAndNeg":
		rg.MulCoeffsMontgomeryConstantAndNegLvl(lvl, x, y, z)
	case "MulCoeffsAndAdd":
		if full {
			rg.MulCoeffsAndAdd(x, y, z)
		} else {
			rg.MulCoeffsAndAddLvl(lvl, x, y, z)
		}
	case "MulCoeffsAndAddNoMod":
		if full {
			rg.MulCoeffsAndAddNoMod(x, y, z)
		} else {
			rg.MulCoeffsAndAddNoModLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryAndAdd":
		if full {
			rg.MulCoeffsMontgomeryAndAdd(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryAndAddLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryAndAddNoMod":
		if full {
			rg.MulCoeffsMontgomeryAndAddNoMod(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryAndAddNoModLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryConstantAndAddNoMod":
		if full {
			rg.MulCoeffsMontgomeryConstantAndAddNoMod(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryConstantAndAddNoModLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryAndSub":
		if full {
			rg.MulCoeffsMontgomeryAndSub(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryAndSubLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryAndSubNoMod":
		if full {
			rg.MulCoeffsMontgomeryAndSubNoMod(x, y, z)
		} else {
			rg.MulCoeffsMontgomeryAndSubNoModLvl(lvl, x, y, z)
		}
	case "MulCoeffsMontgomeryConstantAndSubNoMod":
		rg.MulCoeffsMontgomeryConstantAndSubNoModLvl(lvl, x, y, z)
	case "Neg":
		if full {
			rg.Neg(x, z)
		} else {
			rg.NegLvl(lvl, x, z)
		}
	case "Reduce":
		if full {
			rg.Reduce(x, z)
		} else {
			rg.ReduceLvl(lvl, x, z)
		}
	case "ReduceConstant":
		if full {
			rg.ReduceConstant(x, z)
		} else {
			rg.ReduceConstantLvl(lvl, x, z)
		}
	case "MForm":
		if full {
			rg.MForm(x, z)
		} else {
			rg.MFormLvl(lvl, x, z)
		}
	case "MFormConstant":
		rg.MFormConstantLvl(lvl, x, z)
	case "InvMForm":
		if full {
			rg.InvMForm(x, z)
		} else {
			rg.InvMFormLvl(lvl, x, z)
		}
	case "AddScalar":
		if full {
			rg.AddScalar(x, su, z)
		} else {
			rg.AddScalarLvl(lvl, x, su, z)
		}
	case "SubScalar":
		if full {
			rg.SubScalar(x, su, z)
		} else {
			rg.SubScalarLvl(lvl, x, su, z)
		}
	case "AddScalarBigint":
		if full {
			rg.AddScalarBigint(x, s, z)
		} else {
			rg.AddScalarBigintLvl(lvl, x, s, z)
		}
	case "SubScalarBigint":
		if full {
			rg.SubScalarBigint(x, s, z)
		} else {
			rg.SubScalarBigintLvl(lvl, x, s, z)
		}
	case "MulScalar":
		if full {
			rg.MulScalar(x, su, z)
		} else {
			rg.MulScalarLvl(lvl, x, su, z)
		}
	case "MulScalarBigint":
		if full {
			rg.MulScalarBigint(x, s, z)
		} else {
			rg.MulScalarBigintLvl(lvl, x, s, z)
		}
	case "MulByPow2":
		if full && len(x.Coeffs) == len(c.qs) && x != z {
			w := rg.MulByPow2New(x, k)
			rg.MulByPow2(x, k, z)
			for i := range z.Coeffs {
				for j := range z.Coeffs[i] {
					if w.Coeffs[i][j] != z.Coeffs[i][j] {
						r.Fail("the result in a new polynomial differs from the result in a receiver")
					}
				}
			}
		} else if full {
			rg.MulByPow2(x, k, z)
		} else {
			rg.MulByPow2Lvl(lvl, x, k, z)
		}
	case "MulByVectorMontgomery":
		if full {
			rg.MulByVectorMontgomery(x, vecu(), z)
		} else {
			rg.MulByVectorMontgomeryLvl(lvl, x, vecu(), z)
		}
	case "MulByVectorMontgomeryAndAddNoMod":
		if full {
			rg.MulByVectorMontgomeryAndAddNoMod(x, vecu(), z)
		} else {
			rg.MulByVectorMontgomeryAndAddNoModLvl(lvl, x, vecu(), z)
		}
	case "AddVecNoModAndMulScalarMontgomeryVec":
		ring.AddVecNoModAndMulScalarMontgomeryVec(x.Coeffs[lvl], y.Coeffs[lvl], z.Coeffs[lvl], su, qi, mred)
	case "AddScalarNoModVec":
		ring.AddScalarNoModVec(x.Coeffs[lvl], z.Coeffs[lvl], su)
	case "AddScalarNoModAndNegTwoQiNoModVec":
		ring.AddScalarNoModAndNegTwoQiNoModVec(x.Coeffs[lvl], z.Coeffs[lvl], su, qi)
	case "MulScalarMontgomeryVec":
		ring.MulScalarMontgomeryVec(x.Coeffs[lvl], z.Coeffs[lvl], su, qi, mred)
	case "MulScalarMontgomeryConstantVec":
		ring.MulScalarMontgomeryConstantVec(x.Coeffs[lvl], z.Coeffs[lvl], su, qi, mred)
	case "MulScalarMontgomeryAndAddVec":
		ring.MulScalarMontgomeryAndAddVec(x.Coeffs[lvl], z.Coeffs[lvl], su, qi, mred)
	case "SubVecAndMulScalarMontgomeryTwoQiVec":
		ring.SubVecAndMulScalarMontgomeryTwoQiVec(x.Coeffs[lvl], y.Coeffs[lvl], z.Coeffs[lvl], su, qi, mred)
	case "NTT":
		if full {
			rg.NTT(x, z)
		} else {
			rg.NTTLvl(lvl, x, z)
		}
	case "NTTLazy":
		if full {
			rg.NTTLazy(x, z)
		} else {
			rg.NTTLazyLvl(lvl, x, z)
		}
	case "InvNTT":
		if full {
			rg.InvNTT(x, z)
		} else {
			rg.InvNTTLvl(lvl, x, z)
		}
	case "InvNTTLazy":
		if full {
			rg.InvNTTLazy(x, z)
		} else {
			rg.InvNTTLazyLvl(lvl, x, z)
		}
	case "NTTSingle":
		rg.NTTSingle(lvl, x.Coeffs[lvl], z.Coeffs[lvl])
	case "NTTSingleLazy":
		rg.NTTSingleLazy(lvl, x.Coeffs[lvl], z.Coeffs[lvl])
	case "InvNTTSingle":
		rg.InvNTTSingle(lvl, x.Coeffs[lvl], z.Coeffs[lvl])
	case "InvNTTSingleLazy":
		rg.InvNTTSingleLazy(lvl, x.Coeffs[lvl], z.Coeffs[lvl])
	case "MultByMonomial":
		// X of the specification is X^lift of the code
		w := rg.MultByMonomialNew(x, k*c.lift)
		rg.MultByMonomial(x, k*c.lift, z)
		if !sameWords(w, z) {
			r.Fail("the result in a new polynomial differs from the result in a receiver")
		}
	case "Permute":
		rg.Permute(x, c.galois(k, r.step), z)
	case "PermuteNTT":
		g := c.galois(k, r.step)
		if full {
			rg.PermuteNTT(x, g, z)
		} else if a.F("s").Int() == 1 {
			rg.PermuteNTTLvl(lvl, x, g, z)
		} else {
			rg.PermuteNTTWithIndexLvl(lvl, x, rg.PermuteNTTIndex(g), z)
		}
	case "PermuteNTTAndAddNoMod":
		rg.PermuteNTTWithIndexAndAddNoModLvl(lvl, x, rg.PermuteNTTIndex(c.galois(k, r.step)), z)
	case "BitReverse":
		rg.BitReverse(x, z)
	case "Shift":
		rg.Shift(x, k*c.lift, z)
	case "Mod":
		if full {
			rg.Mod(x, su, z)
		} else {
			rg.ModLvl(lvl, x, su, z)
		}
	case "RotateValues":
		u, v := copyPoly(x), rg.NewPoly()
		rg.Rotate(u, k, v)
		if r.step%2 == 0 {
			rg.Rotate(u, k, u)
			if !sameWords(u, v) {
				r.FailFor("R03", "Rotate in place differs from Rotate into another polynomial")
			}
		} else if !sameWords(u, x) {
			r.FailFor("R03", "Rotate changed its operand")
		}
		u = copyPoly(x)
		rg.NTT(u, u)
		rg.NTT(v, v)
		for i := range v.Coeffs {
			q, pts := rg.Modulus[i], c.pts.pts[i]
			where := map[uint64]int{}
			for t, p := range pts {
				where[p] = t
			}
			far := powmod(pts[0], uint64(2*(k+8*rg.N)), q)
			for t, p := range pts {
				if u2, ok := where[mulmod(p, far, q)]; !ok || v.Coeffs[i][t] != u.Coeffs[i][u2] {
					r.FailFor("R03", "Rotate by %d: value %d modulo prime %d is %d, must be the value %d of the operand", k, t, i, v.Coeffs[i][t], u2)
				}
			}
		}
		r.Count(len(v.Coeffs) * rg.N)
	case "CopyLvl", "CopyValuesLvl", "Copy", "CopyValues":
		// the flags go with the copies of whole polynomials, not with those of the values
		f := [4]bool{r.step%3 == 0, r.step%5 < 2, r.step%3 == 1, r.step%7 < 3}
		z.IsNTT, z.IsMForm = f[2], f[3]
		x.IsNTT, x.IsMForm = f[0], f[1]
		want := [2]bool{x.IsNTT, x.IsMForm}
		if op == "CopyValues" || op == "CopyValuesLvl" {
			want = [2]bool{z.IsNTT, z.IsMForm}
		}
		switch op {
		case "CopyLvl":
			ring.CopyLvl(lvl, x, z)
		case "CopyValuesLvl":
			ring.CopyValuesLvl(lvl, x, z)
		case "Copy":
			if r.step%2 == 0 {
				ring.Copy(x, z)
			} else {
				z.Copy(x)
			}
		case "CopyValues":
			if r.step%2 == 0 {
				ring.CopyValues(x, z)
			} else {
				z.CopyValues(x)
			}
		}
		if got := [2]bool{z.IsNTT, z.IsMForm}; got != want || x != z && (x.IsNTT != f[0] || x.IsMForm != f[1]) {
			r.FailFor("R02", "%s: flags %v of the receiver, must be %v", op, got, want)
		}
		x.IsNTT, x.IsMForm, z.IsNTT, z.IsMForm = false, false, false, false
	case "Zero":
		z.Zero()
	case "SetBig":
		if len(z.Coeffs) == len(c.qs) {
			rg.SetCoefficientsBigint(big2(), z)
		} else {
			rg.SetCoefficientsBigintLvl(lvl, big2(), z)
		}
	case "SetBigLvl":
		rg.SetCoefficientsBigintLvl(lvl, big2(), z)
	case "SetInt64":
		v := make([]int64, c.N*c.lift)
		for i := range vec {
			v[i*c.lift] = vec[i].Int64()
		}
		rg.SetCoefficientsInt64(v, z)
	case "SetUint64":
		v := make([]uint64, c.N*c.lift)
		for i := range vec {
			v[i*c.lift] = vec[i].Uint64()
		}
		rg.SetCoefficientsUint64(v, z)
	case "SetString":
		v := make([]string, c.N*c.lift)
		for i := range v {
			v[i] = "0"
		}
		for i := range vec {
			v[i*c.lift] = vec[i].String()
		}
		rg.SetCoefficientsString(v, z)
	case "ToBig", "ToBigCentered":
		got := make([]*big.Int, len(out))
		for i := range got {
			got[i] = big.NewInt(int64(i))
		}
		if op == "ToBigCentered" {
			rg.PolyToBigintCenteredLvl(lvl, x, k, got)
		} else if full {
			rg.PolyToBigint(x, k, got)
		} else {
			rg.PolyToBigintLvl(lvl, x, k, got)
		}
		for i := range out {
			if got[i].Cmp(out[i]) != 0 {
				r.Fail("coefficient %d reads as %v, expected %v", i, got[i], out[i])
			}
		}
	case "ToString":
		got := rg.PolyToString(x)
		for i := range out {
			if got[i] != out[i].String() {
				r.Fail("coefficient %d prints as %s, expected %v", i, got[i], out[i])
			}
		}
	case "Equal":
		var got bool
		if full {
			got = rg.Equal(x, y)
		} else {
			got = rg.EqualLvl(lvl, x, y)
		}
		if got != (out[0].Sign() != 0) {
			r.Fail("equality test returned %v, expected %v", got, out[0].Sign() != 0)
		}
	case "DivFloor", "DivRound":
		ntt := s.Sign() != 0
		switch {
		case op == "DivFloor" && full && ntt:
			rg.DivFloorByLastModulusManyNTTLvl(lvl, k, x, pool, z)
		case op == "DivFloor" && full:
			rg.DivFloorByLastModulusManyLvl(lvl, k, x, pool, z)
		case op == "DivFloor" && ntt:
			rg.DivFloorByLastModulusNTTLvl(lvl, x, pool, z)
		case op == "DivFloor":
			rg.DivFloorByLastModulusLvl(lvl, x, z)
		case full && ntt:
			rg.DivRoundByLastModulusManyNTTLvl(lvl, k, x, pool, z)
		case full:
			rg.DivRoundByLastModulusManyLvl(lvl, k, x, pool, z)
		case ntt:
			rg.DivRoundByLastModulusNTTLvl(lvl, x, pool, z)
		default:
			rg.DivRoundByLastModulusLvl(lvl, x, z)
		}
	default:
		die("ring: unknown call %q", op)
	}
}

// galois lifts a Galois element of the specification's ring to the code's ring.
func (c *ringCtx) galois(k int, step int) uint64 {
	nth := uint64(2 * c.N)
	if c.rg.Type() == ring.ConjugateInvariant {
		nth = uint64(4 * c.N)
	}
	g := uint64(k)%nth + nth*uint64(step*37%c.lift)
	// an element beyond the first period stays beyond it
	return g%(nth*uint64(c.lift)) + nth*uint64(c.lift)*(uint64(k)/nth)
}
