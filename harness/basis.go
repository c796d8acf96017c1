package main

import (
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["basis"] = replayBasis }

// basisCtx holds the objects of package ring under test over the bases Q and P.
type basisCtx struct {
	n      int
	qs, ps []uint64
	cq, cp *ringCtx
	qp     rlwe.RingQP
	be     [2]*ring.BasisExtender // an extender and its shallow copy
	dec    *ring.Decomposer
	ts     []uint64
	simple []*ring.SimpleScaler
	rns    []*ring.RNSScaler
	ringT  []*ring.Ring
	copies int
}

var basisCtxCache *basisCtx

func getBasisCtx(r *R) *basisCtx {
	if basisCtxCache != nil {
		return basisCtxCache
	}
	c := &basisCtx{n: r.cfg.Int("N", 16), qs: r.cfg.Uints("QS"), ps: r.cfg.Uints("PS"), ts: r.cfg.Uints("TS")}
	typ := ring.Standard
	if r.cfg.Bool("CI") {
		typ = ring.ConjugateInvariant
	}
	mk := func(ms []uint64) *ringCtx {
		rg, err := ring.NewRingFromType(c.n, ms, typ)
		if err != nil {
			r.Fail("cannot create the ring: %v", err)
		}
		return &ringCtx{rg: rg, pts: newEvalPoints(r, rg), N: c.n, lift: 1, qs: ms}
	}
	c.cq, c.cp = mk(c.qs), mk(c.ps)
	c.qp = rlwe.RingQP{RingQ: c.cq.rg, RingP: c.cp.rg}
	c.be[0] = ring.NewBasisExtender(c.cq.rg, c.cp.rg)
	c.be[1] = c.be[0].ShallowCopy()
	c.dec = ring.NewDecomposer(c.cq.rg, c.cp.rg)
	for _, t := range c.ts {
		c.simple = append(c.simple, ring.NewSimpleScaler(t, c.cq.rg))
		if t&1 == 1 {
			rt, err := ring.NewRing(c.n, []uint64{t})
			if err != nil {
				die("cannot create the plaintext ring modulo %d: %v", t, err)
			}
			c.ringT = append(c.ringT, rt)
			c.rns = append(c.rns, ring.NewRNSScaler(c.cq.rg, rt))
		} else {
			c.ringT = append(c.ringT, nil)
			c.rns = append(c.rns, nil)
		}
	}
	basisCtxCache = c
	return c
}

// settle compares limbs computed by a basis extension with the specification
// at the coefficients where the code may legitimately take X+M or X-M, requires one choice for all
// moduli, and then stores the specification's choice so that the behaviours stay together.
func settle(r *R, cc *ringCtx, lvl int, limbs []Val, p *ring.Poly, amb []int, d *big.Int) {
	ntt := limbs[0].F("ntt").Bool()
	work := p
	if ntt {
		work = ring.NewPoly(cc.N, lvl+1)
		cc.rg.InvNTTLvl(lvl, p, work)
	}
	shift := make([]int, len(amb))
	for j, e := range amb {
		if e == 0 {
			continue
		}
		seen := false
		for i := 0; i <= lvl; i++ {
			q := cc.qs[i]
			dq := new(big.Int).Mod(d, new(big.Int).SetUint64(q)).Uint64()
			want := limbs[i].F("v").List()[j].Uint64()
			got := work.Coeffs[i][j] % q
			choice := 2
			switch {
			case got == want:
				choice = 0
			case e == 1 && got == addmod(want, dq, q):
				choice = 1
			case e == -1 && got == submod(want, dq, q):
				choice = -1
			}
			r.Count(1)
			if choice == 2 {
				r.FailFor("R04", "coefficient %d modulo prime %d (%d) is %d, expected %d (or, within the floating-point ambiguity, %+d times %v more)", j, i, q, got, want, e, d)
			}
			if dq == 0 {
				continue
			}
			if !seen {
				seen = true
				shift[j] = choice
				if choice != 0 {
					r.Note("ambiguous extensions taken the other way", 1)
				}
			} else if choice != shift[j] {
				r.FailFor("R04", "coefficient %d is extended inconsistently: modulo the first prime it is the residue shifted by %d, modulo prime %d by %d", j, shift[j], i, choice)
			}
		}
	}
	changed := false
	for j := range shift {
		if shift[j] == 0 {
			continue
		}
		changed = true
		for i := 0; i <= lvl; i++ {
			work.Coeffs[i][j] = limbs[i].F("v").List()[j].Uint64()
		}
	}
	if changed && ntt {
		cc.rg.NTTLvl(lvl, work, p)
	}
}

func replayBasis(r *R, t *Trace) {
	c := getBasisCtx(r)
	first := t.States[0].F("regs").List()
	P := make([]rlwe.PolyQP, len(first))
	load := func(reg Val, p rlwe.PolyQP) {
		for _, h := range []struct {
			cc *ringCtx
			p  *ring.Poly
			ls []Val
		}{{c.cq, p.Q, reg.F("q").List()}, {c.cp, p.P, reg.F("p").List()}} {
			for i, l := range h.ls {
				v := l.F("v").Uints()
				if l.F("ntt").Bool() {
					v = h.cc.pts.eval(i, h.cc.qs[i], v, 1)
				}
				copy(h.p.Coeffs[i], v)
			}
		}
	}
	for i, reg := range first {
		P[i] = c.qp.NewPoly()
		load(reg, P[i])
	}
	r.Sample(map[string]interface{}{"trace": t.File, "calls": callNames(t)})
	for i := 1; i < len(t.States); i++ {
		a := t.States[i].F("act")
		op := a.F("op").Str()
		r.Step(i, op, a.JSON())
		xi, yi, zi := a.F("x").Int(), a.F("y").Int(), a.F("z").Int()
		x, y, z := P[xi], P[yi], P[zi]
		lq, lp, k := a.F("lq").Int(), a.F("lp").Int(), a.F("k").Int()
		amb := []int{}
		for _, e := range a.F("amb").List() {
			amb = append(amb, e.Int())
		}
		d := a.F("d").Big()
		be := c.be[0]
		if a.F("alt").Bool() {
			be = c.be[1]
		}
		after := t.States[i].F("regs").List()
		limbs := func(f string, lvl int) []Val { return after[zi].F(f).List()[:lvl+1] }
		before := make([]rlwe.PolyQP, len(P))
		for j := range P {
			before[j] = rlwe.PolyQP{Q: clonePoly(P[j].Q), P: clonePoly(P[j].P)}
		}
		prop := "R04"
		switch op {
		case "Load":
			load(after[zi], z)
		case "Reduce":
			c.cq.rg.Reduce(x.Q, z.Q)
			c.cp.rg.Reduce(x.P, z.P)
			prop = "R02"
		case "ModUpQtoP":
			be.ModUpQtoP(lq, lp, x.Q, z.P)
			if len(amb) > 0 {
				settle(r, c.cp, lp, limbs("p", lp), z.P, amb, d)
			}
		case "ModUpPtoQ":
			be.ModUpPtoQ(lp, lq, x.P, z.Q)
			if len(amb) > 0 {
				settle(r, c.cq, lq, limbs("q", lq), z.Q, amb, d)
			}
		case "ModDownQPtoQ":
			be.ModDownQPtoQ(lq, lp, x.Q, y.P, z.Q)
			if len(amb) > 0 {
				settle(r, c.cq, lq, limbs("q", lq), z.Q, amb, d)
			}
		case "ModDownQPtoQNTT":
			be.ModDownQPtoQNTT(lq, lp, x.Q, y.P, z.Q)
			if len(amb) > 0 {
				settle(r, c.cq, lq, limbs("q", lq), z.Q, amb, d)
			}
		case "ModDownQPtoP":
			be.ModDownQPtoP(lq, lp, x.Q, y.P, z.P)
			if len(amb) > 0 {
				settle(r, c.cp, lp, limbs("p", lp), z.P, amb, d)
			}
		case "Decompose":
			c.dec.DecomposeAndSplit(lq, lp, lp+1, k, x.Q, z.Q, z.P)
			if len(amb) > 0 {
				c.settleBoth(r, lq, lp, limbs("q", lq), limbs("p", lp), z, amb, d)
			}
		case "ExtendSmall":
			var outQ *ring.Poly
			if k > 0 {
				outQ = z.Q
			}
			c.qp.ExtendBasisSmallNormAndCenter(x.Q, lp, outQ, z.P)
		case "ScaleRNS", "ScaleSimple":
			c.scale(r, op, k, x.Q, a.F("s").Big().Uint64(), a.F("out").Bigs(), amb)
			prop = "R05"
		default:
			if prop = c.callQP(op, lq, lp, k, x, y, z); prop == "R02 flags" {
				r.FailFor("R02", "a copy does not have the flags of the original")
			}
		}
		for j := range P {
			if j != zi && !(sameWords(before[j].Q, P[j].Q) && sameWords(before[j].P, P[j].P)) {
				r.FailFor(prop, "register %d is not the receiver of %s and was modified", j, op)
			}
		}
		r.under(prop, func() {
			for j, reg := range after {
				c.cq.compare(r, "modulo Q, register "+string(rune('0'+j)), reg.F("q"), P[j].Q)
				c.cp.compare(r, "modulo P, register "+string(rune('0'+j)), reg.F("p"), P[j].P)
			}
		})
	}
}

// under runs comparisons whose failures belong to the given properties.
func (r *R) under(props string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				r.FailFor(props, "%s", v.msg)
			}
			panic(e)
		}
	}()
	f()
}

// settleBoth treats the limbs of Q and of P as one list of target moduli.
func (c *basisCtx) settleBoth(r *R, lq, lp int, ql, pl []Val, z rlwe.PolyQP, amb []int, d *big.Int) {
	joint := &ringCtx{N: c.n, qs: append(append([]uint64{}, c.qs[:lq+1]...), c.ps[:lp+1]...), rg: c.cq.rg}
	p := &ring.Poly{Coeffs: append(append([][]uint64{}, z.Q.Coeffs[:lq+1]...), z.P.Coeffs[:lp+1]...)}
	settle(r, joint, lq+lp+1, append(append([]Val{}, ql...), pl...), p, amb, d)
}

func (c *basisCtx) scale(r *R, op string, ti int, x *ring.Poly, t uint64, want []*big.Int, amb []int) {
	out := ring.NewPoly(c.n, 1)
	for j := range out.Coeffs[0] {
		out.Coeffs[0][j] = uint64(j) * 1234567
	}
	if op == "ScaleRNS" {
		c.rns[ti].DivByQOverTRounded(x, out)
	} else {
		c.simple[ti].DivByQOverTRounded(x, out)
	}
	for j, w := range want {
		got := out.Coeffs[0][j]
		r.Count(1)
		if got == w.Uint64() {
			continue
		}
		// a tie of the rounding within the floating-point ambiguity of the extension
		if amb[j] == 1 && got == submod(w.Uint64(), 1, t) || amb[j] == -1 && got == addmod(w.Uint64(), 1, t) {
			continue
		}
		r.FailFor("R05", "coefficient %d scaled by %d/Q is %d, expected %v", j, t, got, w)
	}
}

func (c *basisCtx) callQP(op string, lq, lp, k int, x, y, z rlwe.PolyQP) string {
	qp := c.qp
	switch op {
	case "Add":
		qp.AddLvl(lq, lp, x, y, z)
	case "AddNoMod":
		qp.AddNoModLvl(lq, lp, x, y, z)
	case "Sub":
		qp.SubLvl(lq, lp, x, y, z)
	case "MForm":
		qp.MFormLvl(lq, lp, x, z)
	case "InvMForm":
		qp.InvMFormLvl(lq, lp, x, z)
	case "MulMont":
		qp.MulCoeffsMontgomeryLvl(lq, lp, x, y, z)
	case "MulMontConst":
		qp.MulCoeffsMontgomeryConstantLvl(lq, lp, x, y, z)
	case "MulMontConstAddNoMod":
		qp.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lp, x, y, z)
	case "MulMontAdd":
		qp.MulCoeffsMontgomeryAndAddLvl(lq, lp, x, y, z)
	case "MulMontSub":
		qp.MulCoeffsMontgomeryAndSubLvl(lq, lp, x, y, z)
	case "MulMontConstSubNoMod":
		qp.MulCoeffsMontgomeryConstantAndSubNoModLvl(lq, lp, x, y, z)
	case "Copy":
		// the whole-polynomial copies take the rows both have
		view := rlwe.PolyQP{Q: &ring.Poly{Coeffs: x.Q.Coeffs[:lq+1]}, P: &ring.Poly{Coeffs: x.P.Coeffs[:lp+1]}}
		c.copies++
		view.Q.IsNTT, view.P.IsMForm = c.copies%3 == 0, c.copies%5 < 2
		flags := func(p rlwe.PolyQP) bool {
			return p.Q.IsNTT == (c.copies%3 == 0) && !p.Q.IsMForm && !p.P.IsNTT && p.P.IsMForm == (c.copies%5 < 2)
		}
		switch c.copies % 4 {
		case 0:
			qp.CopyValuesLvl(lq, lp, x, z)
		case 1:
			z.CopyValues(view)
		case 2:
			z.Copy(view)
			if !flags(z) {
				return "R02 flags"
			}
			z.Q.IsNTT, z.P.IsMForm = false, false
		case 3:
			y := view.CopyNew()
			if !flags(y) {
				return "R02 flags"
			}
			view.Q, view.P = nil, nil
			qp.CopyValuesLvl(lq, lp, y, z)
			for _, p := range []*ring.Poly{y.Q, y.P} { // nothing is shared with the copy
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] = 1
					}
				}
			}
		}
	case "NTT":
		qp.NTTLvl(lq, lp, x, z)
		return "R01"
	case "NTTLazy":
		qp.NTTLazyLvl(lq, lp, x, z)
		return "R01"
	case "InvNTT":
		qp.InvNTTLvl(lq, lp, x, z)
		return "R01"
	case "Permute":
		qp.PermuteNTTWithIndexLvl(lq, lp, x, c.cq.rg.PermuteNTTIndex(uint64(k)), z)
		return "R03"
	case "PermuteAddNoMod":
		qp.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, x, c.cq.rg.PermuteNTTIndex(uint64(k)), z)
		return "R03"
	default:
		die("unknown operation %s", op)
	}
	return "R02"
}
