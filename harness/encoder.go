package main

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["encoder"] = replayEncoder }

type encReg struct{ pt *ckks.Plaintext }

type encCtx struct {
	r      *R
	params ckks.Parameters
	ci     bool
	N      int
	crt    []*crtBasis
	ecd    [2]ckks.Encoder
	big    [2]ckks.EncoderBigComplex
	prec   int

	fresh    ckks.Encoder // asked nothing else
	freshBig ckks.EncoderBigComplex
}

var encCache *encCtx

func getEncCtx(r *R) *encCtx {
	if encCache != nil {
		encCache.r = r
		return encCache
	}
	h := newHeCtx(r, 0)
	c := &encCtx{r: r, params: h.params, ci: h.ci, N: h.N, crt: h.crt, prec: r.cfg.Int("BIGPREC", 128)}
	c.ecd[0] = ckks.NewEncoder(c.params)
	c.ecd[1] = c.ecd[0].ShallowCopy()
	if !c.ci {
		c.big[0] = ckks.NewEncoderBigComplex(c.params, c.prec)
		c.big[1] = c.big[0].ShallowCopy()
	}
	encCache = c
	return c
}

// floats: fixed point 2^-60 to doubles (exact by construction)
func (c *encCtx) floats(v Val) []float64 {
	out := []float64{}
	for _, x := range v.Bigs() {
		f := fixToFloat(x)
		y, acc := f.Float64()
		if acc != big.Exact {
			die("the specification chose a value that is no double: %v", x)
		}
		out = append(out, y)
	}
	return out
}
func (c *encCtx) bigs(re, im []float64) []*ring.Complex {
	out := make([]*ring.Complex, len(re))
	for i := range re {
		out[i] = ring.NewComplex(ring.NewFloat(re[i], c.prec), ring.NewFloat(im[i], c.prec))
	}
	return out
}
func cplx(re, im []float64) []complex128 {
	out := make([]complex128, len(re))
	for i := range re {
		out[i] = complex(re[i], im[i])
	}
	return out
}

// poly compares the integers of a polynomial with the wanted coefficients
func (c *encCtx) poly(what string, rg *ring.Ring, crt *crtBasis, p *ring.Poly, ntt, mont bool, want Val, tol *big.Int) {
	r := c.r
	if len(p.Coeffs) < len(crt.q) {
		r.Fail("%s: %d limbs, want %d", what, len(p.Coeffs), len(crt.q))
	}
	lvl := len(crt.q) - 1
	t := ring.NewPoly(c.N, lvl+1)
	for i := 0; i <= lvl; i++ {
		for k, x := range p.Coeffs[i] {
			if x >= rg.Modulus[i] {
				r.Fail("%s: word %d of limb %d is %d, not reduced modulo %d", what, k, i, x, rg.Modulus[i])
			}
			t.Coeffs[i][k] = x
		}
	}
	if mont {
		rg.InvMFormLvl(lvl, t, t)
	}
	if ntt {
		rg.InvNTTLvl(lvl, t, t)
	}
	w := want.Bigs()
	d, h := new(big.Int), new(big.Int)
	for k := range w {
		// integer coefficient minus wanted, modulo Q, as fixed point
		h.Rsh(w[k], 60)
		d.Sub(crt.get(t.Coeffs, k), h)
		d.Mod(d, crt.Q)
		if d.Cmp(crt.half) > 0 {
			d.Sub(d, crt.Q)
		}
		d.Lsh(d, 60)
		d.Sub(d, new(big.Int).Sub(w[k], new(big.Int).Lsh(h, 60)))
		if d.CmpAbs(tol) > 0 {
			r.Fail("%s: coefficient %d is off by %g, allowed %g", what, k, fixF(d, -60), fixF(tol, -60))
		}
		c.note("error/bound encode", d, tol)
	}
	r.Count(len(w))
}

func (c *encCtx) note(k string, d, tol *big.Int) {
	if tol.Sign() > 0 {
		c.r.Note(k, fixF(new(big.Int).Abs(d), -60)/fixF(tol, -60))
	}
}

func (c *encCtx) slots(what string, got []*big.Float, want Val, tol *big.Int) {
	r := c.r
	w := want.Bigs()
	if len(got) != len(w) {
		r.Fail("%s: %d values returned, want %d", what, len(got), len(w))
	}
	for k := range w {
		x := new(big.Float).SetPrec(400).SetMantExp(got[k], 60)
		d, _ := x.Sub(x, new(big.Float).SetPrec(400).SetInt(w[k])).Int(nil)
		if d.CmpAbs(tol) > 0 {
			r.Fail("%s: value %d is %s, want %g (allowed error %g)", what, k, got[k].Text('g', 17), fixF(w[k], -60), fixF(tol, -60))
		}
		c.note("error/bound decode", d, tol)
	}
	r.Count(len(w))
}
func fl(x float64) *big.Float {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return bf().SetMantExp(bf().SetInt64(1), 4000)
	}
	return bf().SetFloat64(x)
}

func (c *encCtx) checkReg(what string, g *ckks.Plaintext, w Val) {
	r := c.r
	if g == nil || g.Plaintext == nil || g.Value == nil {
		r.Fail("%s: no plaintext", what)
	}
	lvl := w.F("lvl").Int()
	if g.Level() != lvl {
		r.Fail("%s: level %d, want %d", what, g.Level(), lvl)
	}
	if g.Scale != fixF(w.F("sc").Big(), -64) {
		r.Fail("%s: scale %g, want %g", what, g.Scale, fixF(w.F("sc").Big(), -64))
	}
	if g.Value.IsNTT != w.F("ntt").Bool() {
		r.Fail("%s: IsNTT is %v", what, g.Value.IsNTT)
	}
	tol := w.F("tol").Big()
	if new(big.Int).Rsh(tol, 58).Cmp(c.crt[lvl].half) >= 0 {
		return // too coarse for this modulus
	}
	c.poly(what, c.params.RingQ(), c.crt[lvl], g.Value, g.Value.IsNTT, false, w.F("co"), tol)
}

func replayEncoder(r *R, t *Trace) {
	c := getEncCtx(r)
	rq := c.params.RingQ()
	regs := []*ckks.Plaintext{}
	for i, st := range t.States {
		a := st.F("act")
		op := a.F("op").Str()
		want := st.F("regs").List()
		out := st.F("out")
		x := a.F("x").Int()
		desc := fmt.Sprintf("%s x=%d new=%v ls=%d len=%d kind=%d big=%v mont=%v qp=%v sigma=%d lvl=%d sc=%s who=%d re=%s im=%s", op, x, a.F("new").Bool(), a.F("ls").Int(),
			len(a.F("re").List()), a.F("kind").Int(), a.F("big").Bool(), a.F("mont").Bool(), a.F("qp").Bool(), a.F("sigma").Int(), a.F("lvl").Int(), a.F("sc").JSON(), a.F("who").Int(), a.F("re").JSON(), a.F("im").JSON())
		if op == "Idle" {
			continue
		}
		r.Step(i, op, desc)
		load := func(k int) *ckks.Plaintext {
			w := want[k]
			lvl := w.F("lvl").Int()
			p := ckks.NewPlaintext(c.params, lvl, fixF(w.F("sc").Big(), -64))
			m := w.F("co").Bigs()
			tq, q := new(big.Int), new(big.Int)
			for l := 0; l <= lvl; l++ {
				q.SetUint64(rq.Modulus[l])
				for k := range m {
					p.Value.Coeffs[l][k] = tq.Mod(tq.Rsh(m[k], 60), q).Uint64()
				}
			}
			p.Value.IsNTT = w.F("ntt").Bool()
			if p.Value.IsNTT {
				rq.NTTLvl(lvl, p.Value, p.Value)
			}
			return p
		}
		if op == "Init" {
			for k := range want {
				regs = append(regs, load(k))
			}
			continue
		}
		who := a.F("who").Int() & 1
		ls := a.F("ls").Int()
		isBig := a.F("big").Bool()
		sigma := float64(a.F("sigma").Int()) / 16
		ecd := c.ecd[who]
		sc := fixF(a.F("sc").Big(), -64)
		lvl := a.F("lvl").Int()
		var hs []uint64
		for _, g := range regs {
			hs = append(hs, hashPolys(g.Value)*31+math.Float64bits(g.Scale))
		}
		if a.F("bad").Int() > 0 {
			c.refused(r, a, op, regs, ecd, c.big[who])
			continue
		}
		tol := out.F("tol").Big()
		wrote := -1
		switch op {
		case "Load":
			regs[x] = load(x)
			wrote = x
			continue
		case "Encode", "EncodeSlots", "Embed":
			re, im := c.floats(a.F("re")), c.floats(a.F("im"))
			var v interface{} = cplx(re, im)
			if a.F("kind").Int() == 1 {
				v = append([]float64{}, re...)
			}
			if op == "Embed" {
				p := rlwe.PolyQP{Q: ring.NewPoly(c.N, lvl+1)}
				c.dirty(p.Q)
				var arg interface{} = p.Q
				plv := a.F("plvl").Int()
				if a.F("qp").Bool() {
					p.P = ring.NewPoly(c.N, plv+1)
					c.dirty(p.P)
					arg = p
				}
				mont := a.F("mont").Bool()
				ecd.Embed(v, ls, sc, mont, arg)
				if r.Count(1); !p.Q.IsNTT || (p.P != nil && !p.P.IsNTT) {
					r.FailFor("C05", "Embed gives a polynomial in the NTT domain that is not marked so")
				}
				if new(big.Int).Rsh(tol, 58).Cmp(c.crt[lvl].half) < 0 {
					c.poly("Embed", rq, c.crt[lvl], p.Q, true, mont, out.F("re"), tol)
				}
				if p.P != nil {
					pc := newCRT(c.params.RingP().Modulus[:plv+1])
					if new(big.Int).Rsh(tol, 58).Cmp(pc.half) < 0 {
						c.poly("Embed (P part)", c.params.RingP(), pc, p.P, true, mont, out.F("re"), tol)
					}
				}
			} else {
				new := a.F("new").Bool()
				switch {
				case isBig && new:
					regs[x] = c.big[who].EncodeNew(c.bigs(re, im), lvl, sc, ls)
				case isBig:
					c.big[who].Encode(c.bigs(re, im), regs[x], ls)
				case op == "Encode" && new:
					regs[x] = ecd.EncodeNew(v, lvl, sc, ls)
				case op == "Encode":
					ecd.Encode(v, regs[x], ls)
				case new:
					regs[x] = ecd.EncodeSlotsNew(v, lvl, sc, ls)
				default:
					ecd.EncodeSlots(v, regs[x], ls)
				}
				wrote = x
			}
			switch y := v.(type) {
			case []complex128:
				for k := range y {
					if y[k] != complex(re[k], im[k]) {
						r.Fail("%s changed the values it was given", op)
					}
				}
			case []float64:
				for k := range y {
					if y[k] != re[k] {
						r.Fail("%s changed the values it was given", op)
					}
				}
			}
		case "EncodeCoeffs":
			v := c.floats(a.F("re"))
			if a.F("new").Bool() {
				regs[x] = ecd.EncodeCoeffsNew(v, lvl, sc)
			} else {
				ecd.EncodeCoeffs(v, regs[x])
			}
			wrote = x
		case "Sum":
			y, z := a.F("kind").Int(), a.F("who").Int()
			p := ckks.NewPlaintext(c.params, want[x].F("lvl").Int(), fixF(want[x].F("sc").Big(), -64))
			rq.AddLvl(p.Level(), regs[y].Value, regs[z].Value, p.Value)
			regs[x] = p
			wrote = x
		case "Decode", "DecodeSlots":
			var re, im []*big.Float
			if isBig {
				var res []*ring.Complex
				if sigma == 0 {
					res = c.big[who].Decode(regs[x], ls)
				} else {
					res = c.big[who].DecodePublic(regs[x], ls, sigma)
				}
				for _, z := range res {
					re, im = append(re, z.Real()), append(im, z.Imag())
				}
			} else {
				var res []complex128
				switch {
				case sigma == 0 && op == "Decode":
					res = ecd.Decode(regs[x], ls)
				case sigma == 0:
					res = ecd.DecodeSlots(regs[x], ls)
				case op == "Decode":
					res = ecd.DecodePublic(regs[x], ls, sigma)
				default:
					res = ecd.DecodeSlotsPublic(regs[x], ls, sigma)
				}
				for _, z := range res {
					re, im = append(re, fl(real(z))), append(im, fl(imag(z)))
				}
				if sigma >= 16 && len(res) > 4 && c.visible(want[x]) {
					same := true
					for k, z := range ecd.Decode(regs[x], ls) {
						same = same && z == res[k]
					}
					if same {
						r.Fail("%s with sigma %g adds no error", op, sigma)
					}
				}
			}
			c.slots(op+" real part", re, out.F("re"), tol)
			c.slots(op+" imaginary part", im, out.F("im"), tol)
		case "DecodeCoeffs":
			var res []float64
			if sigma == 0 {
				res = ecd.DecodeCoeffs(regs[x])
			} else {
				res = ecd.DecodeCoeffsPublic(regs[x], sigma)
				if c.visible(want[x]) {
					same := true
					for k, z := range ecd.DecodeCoeffs(regs[x]) {
						same = same && z == res[k]
					}
					if same && sigma >= 3 {
						r.Fail("DecodeCoeffsPublic with sigma %g adds no error", sigma)
					}
				}
			}
			f := []*big.Float{}
			for _, z := range res {
				f = append(f, fl(z))
			}
			c.slots(op, f, out.F("re"), tol)
		case "StdSlot", "StdCoeff":
			re, im := c.floats(a.F("re")), c.floats(a.F("im"))
			v := cplx(re, im)
			have := make([]complex128, len(v))
			for k := range have {
				have[k] = complex(float64(k%3), float64(-k%2))
				v[k] += have[k]
			}
			var s float64
			if op == "StdSlot" {
				s = ecd.GetErrSTDSlotDomain(v, have, 8)
			} else {
				s = ecd.GetErrSTDCoeffDomain(v, have, 8)
			}
			n := float64(2 * len(v))
			got := fl(s / 8 * n)
			got.Mul(got, got)
			got.SetMantExp(got, 120)
			lo, hi := bf().SetInt(out.F("lo").Big()), bf().SetInt(out.F("hi").Big())
			if got.Cmp(lo) < 0 || got.Cmp(hi) > 0 {
				r.Fail("%s is %g, its square times n^2 outside [%g, %g]", op, s, fixF(out.F("lo").Big(), -120), fixF(out.F("hi").Big(), -120))
			}
			r.Count(1)
		default:
			die("encoder: unknown operation %q", op)
		}
		if wrote >= 0 {
			c.checkReg(op, regs[wrote], want[wrote])
		}
		for k, g := range regs {
			if k != wrote && hashPolys(g.Value)*31+math.Float64bits(g.Scale) != hs[k] {
				r.Fail("%s changed plaintext %d", op, k)
			}
		}
		if i == 3 {
			r.Sample(map[string]string{"trace": t.File, "call": desc})
		}
	}
}

// refused: a request that cannot be carried out is refused and changes nothing.
func (c *encCtx) refused(r *R, a Val, op string, regs []*ckks.Plaintext, ecd ckks.Encoder, bigEcd ckks.EncoderBigComplex) {
	bad, ls, n, lvl, isNew := a.F("bad").Int(), a.F("ls").Int(), a.F("len").Int(), a.F("lvl").Int(), a.F("new").Bool()
	sc := fixF(a.F("sc").Big(), -64)
	pt := regs[a.F("x").Int()]
	re, im := make([]float64, n), make([]float64, n)
	for k := range re {
		re[k], im[k] = float64(k+1), float64(-k)
	}
	var v interface{} = cplx(re, im)
	if a.F("kind").Int() == 1 {
		v = re
	}
	if bad == 4 {
		v = []interface{}{[]int{1, 2}, []complex64{1}, nil, [2]float64{1, 2}, c.bigs(re, im)}[(n+ls)%5]
	}
	p := rlwe.PolyQP{Q: ring.NewPoly(c.N, lvl+1), P: ring.NewPoly(c.N, c.params.PCount())}
	c.dirty(p.Q)
	c.dirty(p.P)
	state := func() (h []uint64) {
		for _, g := range append(append([]*ckks.Plaintext{}, regs...), &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p.Q}}, &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p.P}}) {
			x := hashPolys(g.Value)*31 + math.Float64bits(g.Scale) + uint64(len(g.Value.Coeffs))
			if g.Value.IsNTT {
				x++
			}
			h = append(h, x)
		}
		for k := range re {
			h = append(h, math.Float64bits(re[k]))
		}
		return
	}
	h0 := state()
	err := attempt(func() error {
		switch {
		case a.F("big").Bool() && op == "Decode":
			bigEcd.Decode(pt, ls)
		case a.F("big").Bool() && isNew:
			bigEcd.EncodeNew(c.bigs(re, im), lvl, sc, ls)
		case a.F("big").Bool():
			bigEcd.Encode(c.bigs(re, im), pt, ls)
		case op == "Encode" && isNew:
			ecd.EncodeNew(v, lvl, sc, ls)
		case op == "Encode":
			ecd.Encode(v, pt, ls)
		case op == "EncodeSlots" && isNew:
			ecd.EncodeSlotsNew(v, lvl, sc, ls)
		case op == "EncodeSlots":
			ecd.EncodeSlots(v, pt, ls)
		case op == "Embed":
			var to interface{} = p.Q
			if a.F("qp").Bool() {
				to = p
			}
			if bad == 5 {
				to = []interface{}{pt, &p, p.Q.Coeffs, nil}[n%4]
			}
			ecd.Embed(v, ls, sc, isNew, to)
		case op == "EncodeCoeffs" && isNew:
			ecd.EncodeCoeffsNew(re, lvl, sc)
		case op == "EncodeCoeffs":
			ecd.EncodeCoeffs(re, pt)
		case op == "Decode" && isNew:
			ecd.DecodePublic(pt, ls, 1)
		case op == "Decode":
			ecd.Decode(pt, ls)
		case isNew:
			ecd.DecodeSlotsPublic(pt, ls, 1)
		default:
			ecd.DecodeSlots(pt, ls)
		}
		return nil
	})
	if err == nil {
		r.FailFor("E01", "the request is not refused (reason %d)", bad)
	}
	h1 := state()
	r.Count(2 + len(h0))
	for k := range h0 {
		if h0[k] != h1[k] {
			r.FailFor("E01", "the request is refused (%v) but has changed an operand (%d)", err, k)
		}
	}
	// the encoder works as before
	if c.fresh == nil {
		c.fresh = ckks.NewEncoder(c.params)
		if !c.ci {
			c.freshBig = ckks.NewEncoderBigComplex(c.params, c.prec)
		}
	}
	w, g := c.probe(c.fresh, c.freshBig), c.probe(ecd, bigEcd)
	for k := range w {
		r.Count(1)
		if w[k] != g[k] {
			r.FailFor("E01", "after a refused request (%v) the encoder gives another result (call %d of the probe)", err, k)
		}
	}
}

// probe: the words of a few encodings and decodings
func (c *encCtx) probe(ecd ckks.Encoder, b ckks.EncoderBigComplex) (h []uint64) {
	ls := c.params.MaxLogSlots() - 1
	vals := make([]complex128, 1<<ls)
	for k := range vals {
		vals[k] = complex(float64(k)+0.25, float64(-3*k))
	}
	pt := ecd.EncodeNew(vals[:len(vals)-1], c.params.MaxLevel(), 1<<20, ls)
	h = append(h, hashPolys(pt.Value))
	for _, z := range ecd.Decode(pt, ls+1) {
		h = append(h, math.Float64bits(real(z)), math.Float64bits(imag(z)))
	}
	h = append(h, hashPolys(ecd.EncodeCoeffsNew([]float64{1, -2}, 0, 8).Value))
	if b != nil {
		bv := make([]*ring.Complex, len(vals))
		for k, z := range vals {
			bv[k] = ring.NewComplex(ring.NewFloat(real(z), c.prec), ring.NewFloat(imag(z), c.prec))
		}
		pt := b.EncodeNew(bv, c.params.MaxLevel(), 1<<20, ls)
		h = append(h, hashPolys(pt.Value))
		for _, z := range b.Decode(pt, ls) {
			x, _ := z.Real().Float64()
			y, _ := z.Imag().Float64()
			h = append(h, math.Float64bits(x), math.Float64bits(y))
		}
	}
	return
}

// visible: flooding noise of a few units shows in double precision
func (c *encCtx) visible(w Val) bool {
	for _, x := range w.F("co").Bigs() {
		if x.BitLen() > 60+44 {
			return false
		}
	}
	return true
}

func (c *encCtx) dirty(p *ring.Poly) {
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = uint64(3*k+7*i) + 1
		}
	}
}
