package main

import (
	"encoding/binary"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// Projections of the homomorphic layer that do not use the code's encoder,
// encryptor or decryptor: secrets as integers, encryption and decryption by
// schoolbook products, the canonical embedding by its definition in
// high-precision arithmetic.

const prec = 160

// cosTable returns cos(2*pi*k/m) for k in [0,m), m a power of two >= 4.
func cosTable(m int) []*big.Float {
	nf := func(x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }
	// cos and sin of 2*pi/m by halving
	c, s := nf(0), nf(1) // angle pi/2 = 2*pi/4
	for k := 4; k < m; k *= 2 {
		// cos(t/2) = sqrt((1+cos t)/2), sin(t/2) = sin t / (2 cos(t/2))
		h := nf(0).Add(nf(1), c)
		h.Quo(h, nf(2)).Sqrt(h)
		s = nf(0).Quo(s, nf(0).Mul(nf(2), h))
		c = h
	}
	t := make([]*big.Float, m)
	x, y := nf(1), nf(0)
	for k := 0; k < m; k++ {
		t[k] = nf(0).Set(x)
		x1 := nf(0).Sub(nf(0).Mul(x, c), nf(0).Mul(y, s))
		y1 := nf(0).Add(nf(0).Mul(x, s), nf(0).Mul(y, c))
		x, y = x1, y1
	}
	return t
}

// embedding of slots into polynomials in Y = X^gap, with 2*slots (or, in the
// conjugate-invariant ring, slots) coefficients.
type embedding struct {
	slots int
	ci    bool
	m     int // order of the root of unity
	cos   []*big.Float
	pow5  []int
}

func newEmbedding(slots int, ci bool) *embedding {
	e := &embedding{slots: slots, ci: ci, m: 4 * slots}
	e.cos = cosTable(maxInt(e.m, 4))
	p := 1
	for j := 0; j < slots; j++ {
		e.pow5 = append(e.pow5, p)
		p = p * 5 % e.m
	}
	return e
}
func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func (e *embedding) c(k int) *big.Float { return e.cos[((k%e.m)+e.m)%e.m] }
func (e *embedding) s(k int) *big.Float { return e.c(k - e.m/4) }
func (e *embedding) size() int {
	if e.ci {
		return e.slots
	}
	return 2 * e.slots
}

func bf() *big.Float { return new(big.Float).SetPrec(prec) }

// encode: the coefficients (real numbers) of the polynomial with the given slots
func (e *embedding) encode(re, im []*big.Float) []*big.Float {
	n := e.size()
	out := make([]*big.Float, n)
	for k := 0; k < n; k++ {
		acc := bf()
		for j := 0; j < e.slots; j++ {
			t := e.pow5[j] * k
			acc.Add(acc, bf().Mul(re[j], e.c(t)))
			if !e.ci {
				acc.Add(acc, bf().Mul(im[j], e.s(t)))
			}
		}
		// standard: a_k = (1/slots) sum Re(v_j conj(zeta^(5^j k))); conjugate-invariant: a_0 = mean, a_k = mean of v_j cos
		acc.Quo(acc, bf().SetInt64(int64(e.slots)))
		out[k] = acc
	}
	return out
}

// decode: the slots of a polynomial with integer coefficients
func (e *embedding) decode(a []*big.Int) (re, im []*big.Float) {
	n := e.size()
	f := make([]*big.Float, n)
	for k := range f {
		f[k] = bf().SetInt(a[k])
	}
	re, im = make([]*big.Float, e.slots), make([]*big.Float, e.slots)
	for j := 0; j < e.slots; j++ {
		x, y := bf(), bf()
		for k := 0; k < n; k++ {
			t := e.pow5[j] * k
			c := bf().Mul(f[k], e.c(t))
			x.Add(x, c)
			if e.ci && k > 0 {
				x.Add(x, c)
			}
			if !e.ci {
				y.Add(y, bf().Mul(f[k], e.s(t)))
			}
		}
		re[j], im[j] = x, y
	}
	return
}

// crtBasis reconstructs integers from residues.
type crtBasis struct {
	q    []uint64
	Q    *big.Int
	half *big.Int
	w    []*big.Int // (Q/q_i) * inv
}

func newCRT(q []uint64) *crtBasis {
	b := &crtBasis{q: q, Q: big.NewInt(1)}
	for _, x := range q {
		b.Q.Mul(b.Q, new(big.Int).SetUint64(x))
	}
	b.half = new(big.Int).Rsh(b.Q, 1)
	for _, x := range q {
		qi := new(big.Int).SetUint64(x)
		h := new(big.Int).Quo(b.Q, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(h, qi), qi)
		b.w = append(b.w, h.Mul(h, inv))
	}
	return b
}

// get is the integer in [0,Q) with the residues words[0][k], words[1][k]...
func (b *crtBasis) get(words [][]uint64, k int) *big.Int {
	r, t := new(big.Int), new(big.Int)
	for i := range b.q {
		r.Add(r, t.Mul(b.w[i], t.SetUint64(words[i][k]%b.q[i])))
	}
	return r.Mod(r, b.Q)
}

// centered representative of get
func (b *crtBasis) centered(words [][]uint64, k int) *big.Int {
	r := b.get(words, k)
	if r.Cmp(b.half) > 0 {
		r.Sub(r, b.Q)
	}
	return r
}

// ringMul: a * s modulo q, schoolbook, for s with small integer coefficients
func ringMul(a []uint64, s []int64, ci bool, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, n)
	addmul := func(k int, x uint64, m int64) {
		if m == 0 || x == 0 {
			return
		}
		neg := m < 0
		if neg {
			m = -m
		}
		p := x
		if m != 1 {
			p = mulmod(x, uint64(m), q)
		}
		if neg {
			p = q - p
		}
		out[k] += p
		if out[k] >= q {
			out[k] -= q
		}
	}
	if !ci {
		for i, m := range s {
			if m == 0 {
				continue
			}
			for j, x := range a {
				if k := i + j; k < n {
					addmul(k, x, m)
				} else {
					addmul(k-n, x, -m)
				}
			}
		}
		return out
	}
	// conjugate-invariant: u is a unfolded into Z[X]/(X^2n+1)
	u := make([]uint64, 2*n)
	copy(u, a)
	for i := 1; i < n; i++ {
		u[2*n-i] = (q - a[i]) % q
	}
	for i, m := range s {
		if m == 0 {
			continue
		}
		for k := 0; k < n; k++ {
			if i == 0 {
				addmul(k, u[k], m)
				continue
			}
			if k-i >= 0 {
				addmul(k, u[k-i], m)
			} else {
				addmul(k, u[2*n+k-i], -m)
			}
			addmul(k, u[k+i], m)
		}
	}
	return out
}

func smallMod(x int64, q uint64) uint64 {
	m := x % int64(q)
	if m < 0 {
		m += int64(q)
	}
	return uint64(m)
}

// secretInts reads the coefficients of a secret key.
func secretInts(rg *ring.Ring, p *ring.Poly) []int64 {
	t := p.CopyNew()
	rg.InvMForm(t, t)
	rg.InvNTT(t, t)
	q := rg.Modulus[0]
	out := make([]int64, rg.N)
	for i := range out {
		x := t.Coeffs[0][i]
		if x > q/2 {
			out[i] = -int64(q - x)
		} else {
			out[i] = int64(x)
		}
	}
	return out
}

// phase computes c0 + c1*s + c2*s^2 as residues, all polynomials of a
// ciphertext brought to coefficient form first.
func phase(rg *ring.Ring, level int, value []*ring.Poly, s []int64, ci bool) [][]uint64 {
	var acc [][]uint64
	for u := len(value) - 1; u >= 0; u-- {
		t := ring.NewPoly(rg.N, level+1)
		for i := 0; i <= level; i++ {
			copy(t.Coeffs[i], value[u].Coeffs[i])
			for k := range t.Coeffs[i] {
				t.Coeffs[i][k] %= rg.Modulus[i]
			}
		}
		if value[u].IsNTT {
			rg.InvNTTLvl(level, t, t)
		}
		if acc == nil {
			acc = t.Coeffs
			continue
		}
		for i := 0; i <= level; i++ {
			q := rg.Modulus[i]
			acc[i] = ringMul(acc[i], s, ci, q)
			for k := range acc[i] {
				acc[i][k] = addmod(acc[i][k], t.Coeffs[i][k], q)
			}
		}
	}
	return acc
}

// heCtx is what the CKKS replayers share.
type heCtx struct {
	params ckks.Parameters
	ci     bool
	N      int
	emb    *embedding
	gap    int
	crt    []*crtBasis
	kgen   rlwe.KeyGenerator
	sks    []*rlwe.SecretKey
	sInts  [][]int64
	rng    *rand.Rand
}

func newHeCtx(r *R, keys int) *heCtx {
	n := r.cfg.Int("N", 16)
	logN := 0
	for 1<<logN < n {
		logN++
	}
	lit := ckks.ParametersLiteral{LogN: logN, Q: r.cfg.Uints("QS"), P: r.cfg.Uints("PS"), LogSlots: r.cfg.Int("LOGSLOTS", 3),
		DefaultScale: math.Exp2(float64(r.cfg.Int("LOGSCALE", 40))), Sigma: rlwe.DefaultSigma, RingType: ring.Standard}
	if r.cfg.Bool("CI") {
		lit.RingType = ring.ConjugateInvariant
	}
	p, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		r.Fail("cannot create the parameters: %v", err)
	}
	h := &heCtx{params: p, ci: lit.RingType == ring.ConjugateInvariant, N: n, rng: rand.New(rand.NewSource(r.seed))}
	h.emb = newEmbedding(p.Slots(), h.ci)
	h.gap = n / h.emb.size()
	for l := 0; l <= p.MaxLevel(); l++ {
		h.crt = append(h.crt, newCRT(lit.Q[:l+1]))
	}
	h.kgen = rlwe.NewKeyGenerator(p.Parameters)
	for i := 0; i < keys; i++ {
		sk := h.kgen.GenSecretKey()
		if w := r.cfg.Int("SKHW", 0); w > 0 { // few non-zero coefficients, for decryption at large degrees
			sk = h.kgen.GenSecretKeyWithHammingWeight(w)
		}
		h.sks = append(h.sks, sk)
		h.sInts = append(h.sInts, secretInts(p.RingQ(), h.sks[i].Value.Q))
	}
	return h
}

// encodePoly: rounded coefficients of scale * slots, at full degree N
func (h *heCtx) encodePoly(re, im []*big.Float, scale float64) []*big.Int {
	c := h.emb.encode(re, im)
	sc := bf().SetFloat64(scale)
	out := make([]*big.Int, h.N)
	for i := range out {
		out[i] = new(big.Int)
	}
	half := bf().SetFloat64(0.5)
	for k := range c {
		x := bf().Mul(c[k], sc)
		if x.Sign() >= 0 {
			x.Add(x, half)
		} else {
			x.Sub(x, half)
		}
		x.Int(out[k*h.gap])
	}
	return out
}

func (h *heCtx) toNTT(level int, m []*big.Int) *ring.Poly {
	rg := h.params.RingQ()
	p := ring.NewPoly(h.N, level+1)
	t, q := new(big.Int), new(big.Int)
	for i := 0; i <= level; i++ {
		q.SetUint64(rg.Modulus[i])
		for k := range m {
			p.Coeffs[i][k] = t.Mod(m[k], q).Uint64()
		}
	}
	rg.NTTLvl(level, p, p)
	p.IsNTT = true
	return p
}

// encrypt: a ciphertext of the given degree for message m under key, error at most 8
func (h *heCtx) encrypt(level, deg int, m []*big.Int, key int) []*ring.Poly {
	rg := h.params.RingQ()
	out := make([]*ring.Poly, deg+1)
	acc := make([]*big.Int, h.N)
	for i := range acc {
		acc[i] = new(big.Int).Set(m[i])
		if deg > 0 {
			acc[i].Add(acc[i], big.NewInt(int64(h.rng.Intn(17)-8)))
		}
	}
	base := h.toNTT(level, acc)
	for u := deg; u >= 1; u-- {
		p := ring.NewPoly(h.N, level+1)
		for i := 0; i <= level; i++ {
			for k := range p.Coeffs[i] {
				p.Coeffs[i][k] = h.rng.Uint64() % rg.Modulus[i]
			}
		}
		p.IsNTT = true
		out[u] = p
	}
	if deg > 0 {
		ph := phase(rg, level, append([]*ring.Poly{zeroPoly(h.N, level)}, out[1:]...), h.sInts[key], h.ci)
		t := &ring.Poly{Coeffs: ph}
		rg.NTTLvl(level, t, t)
		for i := 0; i <= level; i++ {
			q := rg.Modulus[i]
			for k := range base.Coeffs[i] {
				base.Coeffs[i][k] = submod(base.Coeffs[i][k], t.Coeffs[i][k], q)
			}
		}
	}
	out[0] = base
	return out
}

func zeroPoly(n, level int) *ring.Poly { p := ring.NewPoly(n, level+1); p.IsNTT = true; return p }

// decode: slots of the phase of value under key
func (h *heCtx) decode(level int, value []*ring.Poly, key int) (re, im []*big.Float) {
	ph := phase(h.params.RingQ(), level, value, h.sInts[key], h.ci)
	a := make([]*big.Int, h.emb.size())
	for k := range a {
		a[k] = h.crt[level].centered(ph, k*h.gap)
	}
	return h.emb.decode(a)
}

// ---- bit-level views
func hashPolys(ps ...*ring.Poly) uint64 {
	f := fnv.New64a()
	var b [8]byte
	for _, p := range ps {
		if p == nil {
			f.Write([]byte{9})
			continue
		}
		if p.IsNTT {
			f.Write([]byte{1})
		} else {
			f.Write([]byte{2})
		}
		for _, l := range p.Coeffs {
			f.Write([]byte{3})
			for _, x := range l {
				binary.LittleEndian.PutUint64(b[:], x)
				f.Write(b[:])
			}
		}
	}
	return f.Sum64()
}
func hashSwk(keys ...*rlwe.SwitchingKey) uint64 {
	ps := []*ring.Poly{}
	for _, k := range keys {
		for _, v := range k.Value {
			ps = append(ps, v[0].Q, v[0].P, v[1].Q, v[1].P)
		}
	}
	return hashPolys(ps...)
}

// fixToFloat: fixed point 2^-60 to a big.Float
func fixToFloat(x *big.Int) *big.Float {
	f := bf().SetInt(x)
	return f.SetMantExp(f, -60)
}
func fixF(x *big.Int, e int) float64 {
	f := bf().SetInt(x)
	f.SetMantExp(f, e)
	r, _ := f.Float64()
	return r
}
