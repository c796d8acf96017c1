package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// Replay of spec/numbers.qnt: primes, modular words and helpers. Every step is one call whose result is the
// specification's.

func init() { replayers["numbers"] = replayNumbers }

// attempt runs f; a refusal by panic counts as an error.
func attempt(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return f()
}

func bool01(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func replayNumbers(r *R, t *Trace) {
	for i, s := range t.States {
		a := s.F("act")
		op := a.F("op").Str()
		if op == "Init" {
			continue
		}
		args, bs, want, bad := a.F("a").Bigs(), a.F("b").Bigs(), a.F("res").Bigs(), a.F("err").Bool()
		r.Step(i, op, a.JSON())
		r.Count(1)
		if i == 1 {
			r.Sample(a.JSON())
		}
		numbersStep(r, op, args, bs, want, bad)
	}
}

func words(l []*big.Int) []uint64 {
	out := make([]uint64, len(l))
	for i, x := range l {
		out[i] = x.Uint64()
	}
	return out
}

func ints(l []*big.Int) []int {
	out := make([]int, len(l))
	for i, x := range l {
		out[i] = int(x.Int64())
	}
	return out
}

func numbersStep(r *R, op string, ab, bb, wb []*big.Int, bad bool) {
	want := words(wb)
	list := func(got []uint64) {
		if len(got) != len(want) {
			r.FailFor("R07", "%s returned %d values %v, expected %v", op, len(got), got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				r.FailFor("R07", "%s returned %v, expected %v (position %d)", op, got, want, i)
			}
		}
	}
	one := func(got uint64) { list([]uint64{got}) }
	verdict := func(err error) bool {
		if bad != (err != nil) {
			r.FailFor("R07", "%s: error %v, expected an error: %v", op, err, bad)
		}
		return !bad
	}
	switch op {
	case "Generate":
		x := ints(ab)
		var got []uint64
		if verdict(attempt(func() error { got = ring.GenerateNTTPrimes(x[0], x[1], x[2]); return nil })) {
			list(got)
		}
	case "Largest":
		x := ints(ab)
		var got []uint64
		if verdict(attempt(func() error { got = ring.GenerateNTTPrimesP(x[0], x[1], x[2]); return nil })) {
			list(got)
		}
	case "Next", "Previous":
		var got uint64
		f := ring.NextNTTPrime
		if op == "Previous" {
			f = ring.PreviousNTTPrime
		}
		if verdict(attempt(func() (err error) { got, err = f(ab[0].Uint64(), int(ab[1].Int64())); return err })) {
			one(got)
		}
	case "Chain":
		x, p := ints(ab), ints(bb)
		q, pp, err := rlwe.GenModuli(x[0], x[1:], p)
		if verdict(err) {
			list(append(append([]uint64{}, q...), pp...))
			if len(q) != len(x)-1 {
				r.FailFor("R07", "GenModuli returned %d primes for Q, expected %d", len(q), len(x)-1)
			}
		}
	case "IsPrime":
		one(bool01(ring.IsPrime(ab[0].Uint64())))
	case "Root":
		p, logn, ci := ab[0].Uint64(), int(ab[1].Int64()), ab[2].Int64() == 1
		if ci {
			logn--
		}
		if logn < 4 {
			logn, ci = 4, false
		}
		checkRoots(r, p, 1<<logn, ci)
	case "CAdd", "CSub", "CMul", "CDiv":
		fl := func(x *big.Int) *big.Float { return new(big.Float).SetPrec(400).SetInt(x) }
		x, y := ring.NewComplex(fl(ab[0]), fl(ab[1])), ring.NewComplex(fl(bb[0]), fl(bb[1]))
		x0, y0 := x.Copy(), y.Copy()
		z := ring.NewComplex(fl(big.NewInt(77)), fl(big.NewInt(-78)))
		switch ab[2].Int64() { // the result may be an operand
		case 1:
			z = x
		case 2:
			z = y
		}
		switch op {
		case "CAdd":
			z.Add(x, y)
		case "CSub":
			z.Sub(x, y)
		case "CMul":
			ring.NewComplexMultiplier().Mul(x, y, z)
		case "CDiv":
			ring.NewComplexMultiplier().Div(x, y, z)
		}
		for i, w := range wb {
			if z[i].Cmp(fl(w)) != 0 {
				r.FailFor("R07", "part %d is %v, must be %v", i, z[i], w)
			}
			if z != x && x[i].Cmp(x0[i]) != 0 || z != y && y[i].Cmp(y0[i]) != 0 {
				r.FailFor("R07", "an operand was changed")
			}
		}
		r.Count(2)
		w := ring.NewComplex(new(big.Float), new(big.Float))
		w.Set(z)
		re, _ := fl(wb[0]).Float64()
		im, _ := fl(wb[1]).Float64()
		if w.Float64() != complex(re, im) || w.Real().Cmp(z[0]) != 0 || w.Imag().Cmp(z[1]) != 0 || w[0] == z[0] || w[1] == z[1] {
			r.FailFor("R07", "Set, Real, Imag or Float64 do not give the number")
		}
	case "Equal":
		a, b := words(ab), words(bb)
		one(bool01(utils.EqualSliceUint64(a, b)))
		ai, bi := make([]int64, len(a)), make([]int64, len(b))
		a8, b8 := []uint8{}, []uint8{}
		for i := range a {
			ai[i] = int64(a[i])
			for k := 0; k < 8; k++ {
				a8 = append(a8, uint8(a[i]>>(8*k)))
			}
		}
		for i := range b {
			bi[i] = int64(b[i])
			for k := 0; k < 8; k++ {
				b8 = append(b8, uint8(b[i]>>(8*k)))
			}
		}
		one(bool01(utils.EqualSliceInt64(ai, bi)))
		one(bool01(utils.EqualSliceUint8(a8, b8)))
	case "IsIn":
		a := words(ab)
		one(bool01(utils.IsInSliceUint64(bb[0].Uint64(), a)))
		l := []int{}
		for _, x := range a {
			l = append(l, int(x))
		}
		one(bool01(utils.IsInSliceInt(int(bb[0].Uint64()), l)))
	case "AllDistinct":
		one(bool01(utils.AllDistinct(words(ab))))
	case "Rotate", "RotateSlots":
		a, k := words(ab), int(bb[0].Int64())
		keep := append([]uint64{}, a...)
		if op == "RotateSlots" {
			list(utils.RotateUint64Slots(a, k))
		} else {
			list(utils.RotateUint64Slice(a, k))
			list(utils.RotateSlice(a, k).([]uint64))
			ai, af, ac := make([]int64, len(a)), make([]float64, len(a)), make([]complex128, len(a))
			idx := map[float64]uint64{}
			for i, x := range a {
				ai[i], af[i], ac[i] = int64(x), float64(i), complex(float64(i), -float64(i))
				idx[float64(i)] = x
			}
			for v := 0; v < 2; v++ {
				gi, gf, gc := utils.RotateInt64Slice(ai, k), utils.RotateFloat64Slice(af, k), utils.RotateComplex128Slice(ac, k)
				if v == 1 {
					gi, gf, gc = utils.RotateSlice(ai, k).([]int64), utils.RotateSlice(af, k).([]float64), utils.RotateSlice(ac, k).([]complex128)
				}
				wi, wf, wc := []uint64{}, []uint64{}, []uint64{}
				for i := range a {
					wi, wf, wc = append(wi, uint64(gi[i])), append(wf, idx[gf[i]]), append(wc, idx[real(gc[i])])
					if imag(gc[i]) != -real(gc[i]) {
						r.FailFor("R07", "RotateComplex128Slice changed a value")
					}
				}
				list(wi)
				list(wf)
				list(wc)
			}
		}
		for i := range a {
			if a[i] != keep[i] {
				r.FailFor("R07", "%s changed its input", op)
			}
		}
	case "MaxSlice":
		one(utils.MaxSliceUint64(words(ab)))
	case "MinMax":
		x, y := ab[0].Uint64(), ab[1].Uint64()
		list([]uint64{utils.MinUint64(x, y), utils.MaxUint64(x, y)})
		if x>>62 == 0 && y>>62 == 0 {
			list([]uint64{uint64(utils.MinInt(int(x), int(y))), uint64(utils.MaxInt(int(x), int(y)))})
			if got := uint64(ring.Min(int(x), int(y))); got != want[0] {
				r.FailFor("R07", "ring.Min(%d,%d) = %d", x, y, got)
			}
			if utils.MinInt(-int(x), -int(y)) != -int(want[1]) || utils.MaxInt(-int(x), -int(y)) != -int(want[0]) || ring.Min(-int(x), -int(y)) != -int(want[1]) {
				r.FailFor("R07", "minimum or maximum of %d and %d", -int(x), -int(y))
			}
			if x>>52 == 0 && y>>52 == 0 && utils.MaxFloat64(-float64(x), -float64(y)) != -float64(want[0]) {
				r.FailFor("R07", "MaxFloat64(%d,%d)", -int(x), -int(y))
			}
		}
	case "BitReverse":
		one(utils.BitReverse64(ab[0].Uint64(), ab[1].Uint64()))
	case "Hamming":
		one(utils.HammingWeight64(ab[0].Uint64()))
	case "DivRound":
		x, d, z := new(big.Int).Set(ab[0]), new(big.Int).Set(ab[1]), new(big.Int)
		ring.DivRound(x, d, z)
		if z.Cmp(wb[0]) != 0 || x.Cmp(ab[0]) != 0 || d.Cmp(ab[1]) != 0 {
			r.FailFor("R07", "DivRound(%v, %v) = %v, expected %v", ab[0], ab[1], z, wb[0])
		}
		ring.DivRound(x, d, x)
		if x.Cmp(wb[0]) != 0 {
			r.FailFor("R07", "DivRound(%v, %v) in place = %v, expected %v", ab[0], ab[1], x, wb[0])
		}
	case "ModExp":
		one(ring.ModExp(ab[0].Uint64(), ab[1].Uint64(), bb[0].Uint64()))
	default:
		q := bb[0].Uint64()
		u, qi := ring.BRedParams(q), ring.MRedParams(q)
		var x, y uint64
		if len(ab) > 0 {
			x = ab[0].Uint64()
		}
		if len(ab) > 1 {
			y = ab[1].Uint64()
		}
		lazy := func(got uint64) {
			if got > 2*q-1 {
				r.FailFor("R07", "%s(%d,%d) modulo %d returned %d, above 2q-1", op, x, y, q, got)
			}
			one(got % q)
		}
		switch op {
		case "MForm":
			one(ring.MForm(x, q, u))
		case "MFormConstant":
			lazy(ring.MFormConstant(x, q, u))
		case "InvMForm":
			one(ring.InvMForm(x, q, qi))
		case "InvMFormConstant":
			lazy(ring.InvMFormConstant(x, q, qi))
		case "MRedParams":
			// q times the parameter is one modulo 2^64
			if q*qi != 1 {
				r.FailFor("R07", "MRedParams(%d) = %d is not the inverse", q, qi)
			}
			one(qi)
		case "MRed":
			one(ring.MRed(x, y, q, qi))
		case "MRedConstant":
			lazy(ring.MRedConstant(x, y, q, qi))
		case "BRedAdd":
			one(ring.BRedAdd(x, q, u))
		case "BRedAddConstant":
			lazy(ring.BRedAddConstant(x, q, u))
		case "BRed":
			one(ring.BRed(x, y, q, u))
		case "BRedConstant":
			lazy(ring.BRedConstant(x, y, q, u))
		case "CRed":
			one(ring.CRed(x, q))
		case "PowerOf2":
			one(ring.PowerOf2(x, int(y), q, qi))
		case "ModexpMontgomery":
			one(ring.ModexpMontgomery(x, int(y), q, qi, u))
		default:
			die("numbers: unknown call %q", op)
		}
	}
}

// checkRoots: the transform of X takes every root of X^n+1 (or of its image in the subring) exactly once.
func checkRoots(r *R, p uint64, n int, ci bool) {
	rg, m := (*ring.Ring)(nil), 2*n
	err := attempt(func() (e error) {
		if ci {
			m = 4 * n
			rg, e = ring.NewRingConjugateInvariant(n, []uint64{p})
		} else {
			rg, e = ring.NewRing(n, []uint64{p})
		}
		return
	})
	if err != nil {
		r.FailFor("R07", "no ring of degree %d for the prime %d: %v", n, p, err)
	}
	P := new(big.Int).SetUint64(p)
	psi := new(big.Int).SetUint64(ring.InvMForm(rg.PsiMont[0], p, rg.MredParams[0]))
	if new(big.Int).Exp(psi, big.NewInt(int64(m/2)), P).Uint64() != p-1 {
		r.FailFor("R07", "the root %v chosen modulo %d does not have order %d", psi, p, m)
	}
	x, y := rg.NewPoly(), rg.NewPoly()
	x.Coeffs[0][1] = 1
	rg.NTT(x, y)
	seen := map[uint64]bool{}
	for _, v := range y.Coeffs[0] {
		if seen[v] {
			r.FailFor("R07", "degree %d modulo %d: a root is used twice", n, p)
		}
		seen[v] = true
		w := new(big.Int).SetUint64(v)
		if !ci {
			if new(big.Int).Exp(w, big.NewInt(int64(n)), P).Uint64() != p-1 {
				r.FailFor("R07", "degree %d modulo %d: %d is not a root of X^n+1", n, p, v)
			}
			continue
		}
		// v = z + 1/z with z^(2n) = -1: the sequence t_{2k} = t_k^2 - 2 ends at t_{2n} = -2
		for k := 1; k < 2*n; k *= 2 {
			w.Mul(w, w).Sub(w, big.NewInt(2)).Mod(w, P)
		}
		if new(big.Int).Add(w, big.NewInt(2)).Cmp(P) != 0 {
			r.FailFor("R07", "degree %d modulo %d: %d is not a root in the subring", n, p, v)
		}
	}
	rg.InvNTT(y, y)
	for k, v := range y.Coeffs[0] {
		if v != bool01(k == 1) {
			r.FailFor("R07", "degree %d modulo %d: the inverse transform does not give X back", n, p)
		}
	}
}
