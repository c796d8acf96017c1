package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["rlwe"] = replayRLWE }

// stats accumulates samples whose distribution is checked once there are enough of them.
type stats struct {
	n          int
	sum, sumsq float64
}

func (s *stats) add(x float64) { s.n++; s.sum += x; s.sumsq += x * x }

// stdErr checks the standard deviation once n samples are in: within 10% (the statistical error is below 1.2%)
func (s *stats) check(r *R, props, what string, sigma float64, need int) {
	if s.n < need {
		return
	}
	m := s.sum / float64(s.n)
	d := math.Sqrt(s.sumsq/float64(s.n) - m*m)
	r.Note("std of "+what, d)
	r.Count(1)
	n := s.n
	*s = stats{}
	if math.Abs(d-sigma) > sigma*0.1 || math.Abs(m) > 0.15*sigma {
		r.FailFor(props, "%s: standard deviation %.3f and mean %.3f over %d samples, the parameters say %.3f", what, d, m, n, sigma)
	}
}

type rlweCtx struct {
	p        [3]rlwe.Parameters // by dim
	ok       [3]bool
	ci       [3]bool
	cp       ckks.Parameters
	crt      []*crtBasis
	crtP     *crtBasis
	sigma    float64
	bound    int64
	kgen     [3]rlwe.KeyGenerator
	rng      *rand.Rand
	masks    map[uint64]bool
	sts      map[string]*stats
	freq     map[float64]*[2]int
	ks       [2]*rlwe.KeySwitcher
	known    int
	up       int // X of the specification is X^up of the code
	uses     [][3]int
	rounding [2][3][3][5]int
}

var rlweCache *rlweCtx

func getRlweCtx(r *R) *rlweCtx {
	if rlweCache != nil {
		return rlweCache
	}
	c := &rlweCtx{masks: map[uint64]bool{}, sts: map[string]*stats{}, freq: map[float64]*[2]int{}, rng: rand.New(rand.NewSource(r.seed))}
	c.sigma, c.up = 3.2, r.cfg.Int("LIFT", 1)
	c.bound = int64(r.cfg.Int("BOUND", 19))
	qs, ps := r.cfg.Uints("QS"), r.cfg.Uints("PS")
	for d, n := range []int{r.cfg.Int("N", 16), r.cfg.Int("NS", 0), r.cfg.Int("NCI", 0)} {
		if n == 0 {
			continue
		}
		n *= c.up
		logN := 0
		for 1<<logN < n {
			logN++
		}
		ty := ring.Standard
		if c.ci[d] = d == 2 || (d == 0 && r.cfg.Bool("CI")); c.ci[d] {
			ty = ring.ConjugateInvariant
		}
		p, err := rlwe.NewParameters(logN, qs, ps, r.cfg.Int("HW", 8), c.sigma, ty)
		if err != nil {
			r.Fail("cannot create the parameters: %v", err)
		}
		c.p[d], c.ok[d] = p, true
		c.kgen[d] = rlwe.NewKeyGenerator(p)
	}
	cp, err := ckks.NewParameters(c.p[0], c.p[0].LogN()-1, 1024)
	if err != nil {
		r.Fail("cannot create the CKKS parameters: %v", err)
	}
	c.cp = cp
	for l := range qs {
		c.crt = append(c.crt, newCRT(qs[:l+1]))
	}
	if len(ps) > 0 {
		c.ks[0] = rlwe.NewKeySwitcher(c.p[0])
		c.ks[1] = c.ks[0].ShallowCopy()
	}
	rlweCache = c
	return c
}

func (c *rlweCtx) st(k string) *stats {
	if c.sts[k] == nil {
		c.sts[k] = &stats{}
	}
	return c.sts[k]
}

// bigs and smalls: a polynomial of the specification as one of the code
func (c *rlweCtx) bigs(l []*big.Int) []*big.Int {
	if c.up == 1 {
		return l
	}
	o, zero := make([]*big.Int, len(l)*c.up), new(big.Int)
	for i := range o {
		if o[i] = zero; i%c.up == 0 {
			o[i] = l[i/c.up]
		}
	}
	return o
}
func (c *rlweCtx) smalls(l []int64) []int64 {
	o := make([]int64, len(l)*c.up)
	for i := range l {
		o[i*c.up] = l[i]
	}
	return o
}

// fresh tells whether a mask was never seen before
func (c *rlweCtx) fresh(p *ring.Poly) bool {
	h := hashPolys(&ring.Poly{Coeffs: p.Coeffs[:1]})
	if c.masks[h] {
		return false
	}
	c.masks[h] = true
	return true
}

// a polynomial with small coefficients, in the form keys use
func keyPoly(rg *ring.Ring, s []int64, level int) *ring.Poly {
	p := ring.NewPoly(rg.N, level+1)
	for i := 0; i <= level; i++ {
		for k := range s {
			p.Coeffs[i][k] = smallMod(s[k], rg.Modulus[i])
		}
	}
	rg.NTTLvl(level, p, p)
	rg.MFormLvl(level, p, p)
	return p
}

func (c *rlweCtx) makeSk(dim int, s []int64, lq, lp int) *rlwe.SecretKey {
	sk := &rlwe.SecretKey{}
	sk.Value.Q = keyPoly(c.p[dim].RingQ(), s, lq)
	if c.p[dim].PCount() > 0 {
		sk.Value.P = keyPoly(c.p[dim].RingP(), s, lp)
	}
	return sk
}

type rlweRun struct {
	*rlweCtx
	sparse bool // judge only the coefficients the specification has
	r      *R
	secs   [][]int64
	sdim   []int
	sks    []*rlwe.SecretKey
	pks    map[int]*rlwe.PublicKey
	swk    map[string]*rlwe.SwitchingKey
	rlk    map[int]*rlwe.RelinearizationKey
	enc    map[string]rlwe.Encryptor
	dec    map[string]rlwe.Decryptor
	cenc   map[string]ckks.Encryptor
	cdec   map[string]ckks.Decryptor
	cts    []*ckks.Ciphertext
	pts    []*ckks.Plaintext
}

func ints64(v Val) []int64 {
	l := v.Bigs()
	o := make([]int64, len(l))
	for i := range l {
		o[i] = l[i].Int64()
	}
	return o
}

// seen: the secret as a polynomial of the ring a ciphertext lives in
func (c *rlweRun) seen(key, dim int) []int64 {
	s := c.secs[key]
	if c.sdim[key] == dim {
		return s
	}
	n := c.p[dim].N()
	out := make([]int64, n)
	if c.sdim[key] == 1 {
		for i := range s {
			out[i*n/len(s)] = s[i]
		}
		return out
	}
	copy(out, s)
	for i := 1; i < len(s); i++ {
		out[n-i] = -s[i]
	}
	return out
}

func (c *rlweRun) encryptRaw(dim, lvl, deg int, ntt bool, m []*big.Int, key int) *ckks.Ciphertext {
	rg := c.p[dim].RingQ()
	n := rg.N
	ct := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: math.Exp2(30)}
	base := ring.NewPoly(n, lvl+1)
	t, q := new(big.Int), new(big.Int)
	for k := 0; k < n; k++ {
		x := new(big.Int).Add(m[k], big.NewInt(int64(c.rng.Intn(3)-1)))
		for i := 0; i <= lvl; i++ {
			q.SetUint64(rg.Modulus[i])
			base.Coeffs[i][k] = t.Mod(x, q).Uint64()
		}
	}
	ct.Value = append(ct.Value, base)
	for u := 1; u <= deg; u++ {
		p := ring.NewPoly(n, lvl+1)
		for i := 0; i <= lvl; i++ {
			for k := range p.Coeffs[i] {
				p.Coeffs[i][k] = c.rng.Uint64() % rg.Modulus[i]
			}
		}
		ct.Value = append(ct.Value, p)
	}
	zero := ring.NewPoly(n, lvl+1)
	ph := phase(rg, lvl, append([]*ring.Poly{zero}, ct.Value[1:]...), c.seen(key, dim), c.ci[dim])
	for i := 0; i <= lvl; i++ {
		for k := range base.Coeffs[i] {
			base.Coeffs[i][k] = submod(base.Coeffs[i][k], ph[i][k], rg.Modulus[i])
		}
	}
	if ntt {
		for _, p := range ct.Value {
			rg.NTTLvl(lvl, p, p)
			p.IsNTT = true
		}
	}
	return ct
}

// compare: centered difference of residues with the expected integers
func (c *rlweRun) diffs(lvl int, words [][]uint64, m []*big.Int) (max *big.Int, all []*big.Int) {
	b := c.crt[lvl]
	max = new(big.Int)
	for k := range m {
		if c.sparse && k%c.up != 0 {
			continue
		}
		d := b.get(words, k)
		d.Sub(d, m[k]).Mod(d, b.Q)
		if d.Cmp(b.half) > 0 {
			d.Sub(d, b.Q)
		}
		all = append(all, d)
		if d.CmpAbs(max) > 0 {
			max = new(big.Int).Abs(d)
		}
	}
	return
}

func (c *rlweRun) checkCt(props string, i int, e Val) []*big.Int {
	r := c.r
	ct := c.cts[i]
	dim, lvl, deg := e.F("dim").Int(), e.F("lvl").Int(), e.F("deg").Int()
	rg := c.p[dim].RingQ()
	r.Count(4)
	if ct.Degree() != deg {
		r.FailFor(props, "the ciphertext has degree %d, must be %d", ct.Degree(), deg)
	}
	for u, p := range ct.Value {
		if p.Level() != lvl {
			r.FailFor(props, "component %d of the ciphertext is at level %d, must be %d", u, p.Level(), lvl)
		}
		if p.IsNTT != e.F("ntt").Bool() {
			r.FailFor(props, "component %d of the ciphertext has IsNTT=%v, must be %v", u, p.IsNTT, e.F("ntt").Bool())
		}
		for j := range p.Coeffs {
			if len(p.Coeffs[j]) != rg.N {
				r.FailFor(props, "component %d of the ciphertext has degree %d, must be %d", u, len(p.Coeffs[j]), rg.N)
			}
			for _, x := range p.Coeffs[j] {
				if x > rg.Modulus[j] {
					r.FailFor(props, "component %d of the ciphertext holds the word %d above its modulus %d", u, x, rg.Modulus[j])
				}
			}
		}
	}
	if sc := math.Exp2(float64(e.F("sc").Int())); ct.Scale != sc {
		r.FailFor(props, "the ciphertext has scale %v, must be %v", ct.Scale, sc)
	}
	if e.F("junk").Bool() {
		return nil
	}
	ph := phase(rg, lvl, ct.Value, c.seen(e.F("key").Int(), dim), c.ci[dim])
	d, all := c.diffs(lvl, ph, c.bigs(e.F("m").Bigs()))
	r.Count(rg.N)
	if d.Cmp(e.F("err").Big()) > 0 {
		r.FailFor(props, "the ciphertext (degree %d, level %d) decrypts to a message that is off by %v (bound %v)", deg, lvl, d, e.F("err").Big())
	}
	return all
}

func (c *rlweRun) checkPt(props string, i int, e Val, wrong bool) {
	r := c.r
	pt := c.pts[i]
	lvl := e.F("lvl").Int()
	rg := c.p[0].RingQ()
	r.Count(3 + rg.N)
	if pt.Value.Level() != lvl {
		r.FailFor(props, "the plaintext is at level %d, must be %d", pt.Value.Level(), lvl)
	}
	if pt.Value.IsNTT != e.F("ntt").Bool() {
		r.FailFor(props, "the plaintext has IsNTT=%v, must be %v", pt.Value.IsNTT, e.F("ntt").Bool())
	}
	if sc := math.Exp2(float64(e.F("sc").Int())); pt.Scale != sc {
		r.FailFor(props, "the plaintext has scale %v, must be %v", pt.Scale, sc)
	}
	for j := range pt.Value.Coeffs {
		for _, x := range pt.Value.Coeffs[j] {
			if x >= rg.Modulus[j] {
				r.FailFor(props, "the plaintext holds the word %d, not reduced modulo %d", x, rg.Modulus[j])
			}
		}
	}
	ph := phase(rg, lvl, []*ring.Poly{pt.Value}, nil, c.ci[0])
	d, _ := c.diffs(lvl, ph, c.bigs(e.F("m").Bigs()))
	if e.F("junk").Bool() {
		if wrong && new(big.Int).Lsh(d, 8).Cmp(c.crt[lvl].Q) < 0 {
			r.FailFor(props, "decryption under another key is within %v of the message", d)
		}
		return
	}
	if d.Cmp(e.F("err").Big()) > 0 {
		r.FailFor(props, "the decrypted message is off by %v (bound %v)", d, e.F("err").Big())
	}
}

// keyRows checks the relation of every row of a switching key
func (c *rlweRun) keyRows(props string, swk *rlwe.SwitchingKey, e Val) {
	r := c.r
	lq, lp := e.F("lq").Int(), e.F("lp").Int()
	sin, sout := c.smalls(ints64(e.F("sin"))), c.smalls(ints64(e.F("sout")))
	rq, rp := c.p[0].RingQ(), c.p[0].RingP()
	rows := (lq + lp + 1) / (lp + 1)
	if len(swk.Value) != rows {
		r.FailFor(props, "the key has %d rows, must be %d", len(swk.Value), rows)
	}
	P := big.NewInt(1)
	for j := 0; j <= lp; j++ {
		P.Mul(P, new(big.Int).SetUint64(rp.Modulus[j]))
	}
	for i, v := range swk.Value {
		if v[0].Q.Level() != lq || v[1].Q.Level() != lq || v[0].P.Level() != lp || v[1].P.Level() != lp {
			r.FailFor(props, "row %d of the key has the wrong levels", i)
		}
		fac := make([]*big.Int, lq+lp+2)
		for j := range fac {
			fac[j] = new(big.Int)
			if j <= lq && j/(lp+1) == i {
				fac[j].Set(P)
			}
		}
		c.rowCheck(props, fmt.Sprintf("row %d of the key", i), v, lq, lp, sout, sin, fac, rq, rp)
	}
}

// b + a*sout - fac*sin must be the same small error modulo every prime
func (c *rlweRun) rowCheck(props, what string, v [2]rlwe.PolyQP, lq, lp int, sout, sin []int64, fac []*big.Int, rq, rp *ring.Ring) {
	r := c.r
	if !c.fresh(v[1].Q) {
		r.FailFor(props, "%s uses a mask that another row used before", what)
	}
	mont := fac != nil
	var ref []int64
	check := func(rg *ring.Ring, b, a *ring.Poly, levels, off int) {
		for j := 0; j < levels; j++ {
			q := rg.Modulus[j]
			B, A := append([]uint64{}, b.Coeffs[j]...), append([]uint64{}, a.Coeffs[j]...)
			for k := range B {
				if B[k] >= q || A[k] >= q {
					r.FailFor(props, "%s holds a word that is not reduced modulo %d", what, q)
				}
			}
			rg.InvNTTSingle(j, B, B)
			rg.InvNTTSingle(j, A, A)
			if mont {
				ring.InvMFormVec(B, B, q, rg.MredParams[j])
				ring.InvMFormVec(A, A, q, rg.MredParams[j])
			}
			ph := ringMul(A, sout, c.ci[0], q)
			e := make([]int64, len(B))
			for k := range B {
				x := addmod(ph[k]%q, B[k]%q, q)
				if mont && fac[off+j].Sign() != 0 {
					f := new(big.Int).Mod(fac[off+j], new(big.Int).SetUint64(q)).Uint64()
					x = submod(x, mulmod(f, smallMod(sin[k], q), q), q)
				}
				if x > q/2 {
					e[k] = -int64(q - x)
				} else {
					e[k] = int64(x)
				}
				if e[k] > c.bound || e[k] < -c.bound {
					r.FailFor(props, "%s: the relation is off by %d at coefficient %d modulo prime %d (%d), error bound %d", what, e[k], k, off+j, q, c.bound)
				}
			}
			r.Count(len(B))
			if ref == nil {
				ref = e
				continue
			}
			for k := range e {
				if e[k] != ref[k] {
					r.FailFor(props, "%s: the error differs between primes at coefficient %d (%d and %d)", what, k, ref[k], e[k])
				}
			}
		}
	}
	check(rq, v[0].Q, v[1].Q, lq+1, 0)
	if lp >= 0 {
		check(rp, v[0].P, v[1].P, lp+1, lq+1)
	}
	s := c.st("key errors")
	for _, x := range ref {
		s.add(float64(x))
	}
	s.check(r, props, "key errors", c.sigma, 4000)
}

// secretCheck: coefficients of a generated secret key, the same modulo every prime
func (c *rlweRun) secretCheck(props string, sk *rlwe.SecretKey) []int64 {
	r := c.r
	var ref []int64
	each := func(rg *ring.Ring, p *ring.Poly) {
		if p.Level() != len(rg.Modulus)-1 {
			r.FailFor(props, "the secret key is at level %d", p.Level())
		}
		t := copyPoly(p)
		for j, q := range rg.Modulus {
			for _, x := range t.Coeffs[j] {
				if x >= q {
					r.FailFor(props, "the secret key holds a word that is not reduced")
				}
			}
			ring.InvMFormVec(t.Coeffs[j], t.Coeffs[j], q, rg.MredParams[j])
			rg.InvNTTSingle(j, t.Coeffs[j], t.Coeffs[j])
			s := make([]int64, rg.N)
			for k, x := range t.Coeffs[j] {
				if x > q/2 {
					s[k] = -int64(q - x)
				} else {
					s[k] = int64(x)
				}
			}
			r.Count(rg.N)
			if ref == nil {
				ref = s
				continue
			}
			for k := range s {
				if s[k] != ref[k] {
					r.FailFor(props, "the secret key has coefficient %d equal to %d and %d modulo different primes", k, ref[k], s[k])
				}
			}
		}
	}
	each(c.p[0].RingQ(), sk.Value.Q)
	if c.p[0].PCount() > 0 {
		each(c.p[0].RingP(), sk.Value.P)
	}
	return ref
}

func (c *rlweRun) pk(key int) *rlwe.PublicKey {
	if c.pks[key] == nil {
		c.pks[key] = c.kgen[0].GenPublicKey(c.sks[key])
	}
	return c.pks[key]
}

func (c *rlweRun) encKey(kind, key int) interface{} {
	if kind == 1 {
		return c.pk(key)
	}
	return c.sks[key]
}

func (c *rlweRun) other(key int) int {
	for k := range c.secs {
		if k != key && c.sdim[k] == 0 {
			return k
		}
	}
	return key
}

func (c *rlweRun) encryptor(kind, key, who int) rlwe.Encryptor {
	id := fmt.Sprint(kind, key, who)
	if c.enc[id] == nil {
		var e rlwe.Encryptor
		switch who {
		case 0:
			e = rlwe.NewEncryptor(c.p[0], c.encKey(kind, key))
		case 1:
			e = c.encryptor(kind, key, 0).ShallowCopy()
		case 2:
			e = c.encryptor(kind, c.other(key), 0).WithKey(c.encKey(kind, key))
		case 3:
			e = c.encryptor(1-kind, key, 0).WithKey(c.encKey(kind, key))
		}
		c.enc[id] = e
	}
	return c.enc[id]
}
func (c *rlweRun) cencryptor(kind, key, who int) ckks.Encryptor {
	id := fmt.Sprint(kind, key, who)
	if c.cenc[id] == nil {
		var e ckks.Encryptor
		switch who {
		case 0:
			e = ckks.NewEncryptor(c.cp, c.encKey(kind, key))
		case 1:
			e = c.cencryptor(kind, key, 0).ShallowCopy()
		case 2:
			e = c.cencryptor(kind, c.other(key), 0).WithKey(c.encKey(kind, key))
		case 3:
			e = c.cencryptor(1-kind, key, 0).WithKey(c.encKey(kind, key))
		}
		c.cenc[id] = e
	}
	return c.cenc[id]
}
func (c *rlweRun) decryptor(key, who int) rlwe.Decryptor {
	who %= 3
	id := fmt.Sprint(key, who)
	if c.dec[id] == nil {
		var e rlwe.Decryptor
		switch who {
		case 0:
			e = rlwe.NewDecryptor(c.p[0], c.sks[key])
		case 1:
			e = c.decryptor(key, 0).ShallowCopy()
		case 2:
			e = c.decryptor(c.other(key), 0).WithKey(c.sks[key])
		}
		c.dec[id] = e
	}
	return c.dec[id]
}
func (c *rlweRun) cdecryptor(key, who int) ckks.Decryptor {
	who %= 3
	id := fmt.Sprint(key, who)
	if c.cdec[id] == nil {
		var e ckks.Decryptor
		switch who {
		case 0:
			e = ckks.NewDecryptor(c.cp, c.sks[key])
		case 1:
			e = c.cdecryptor(key, 0).ShallowCopy()
		case 2:
			e = c.cdecryptor(c.other(key), 0).WithKey(c.sks[key])
		}
		c.cdec[id] = e
	}
	return c.cdec[id]
}

func (c *rlweRun) nthRoot() uint64 { return c.p[0].RingQ().NthRoot }

// genSwitching makes the key [in, out, levelQ, levelP, level of the input key]
func (c *rlweRun) genSwitching(ks []int) *rlwe.SwitchingKey {
	a, b := ks[0], ks[1]
	lpIn := c.p[0].PCount() - 1
	return c.kgen[0].GenSwitchingKey(c.makeSk(c.sdim[a], c.secs[a], ks[4], lpIn), c.makeSk(c.sdim[b], c.secs[b], ks[2], ks[3]))
}

func (c *rlweRun) switching(ks []int) *rlwe.SwitchingKey {
	id := fmt.Sprint(ks)
	if c.swk[id] == nil {
		if c.sdim[ks[0]] == 2 || c.sdim[ks[1]] == 2 {
			a, b := ks[0], ks[1]
			if c.sdim[a] == 2 {
				a, b = b, a
			}
			var x, y *rlwe.SwitchingKey
			if c.rng.Intn(2) == 0 {
				x, y = c.kgen[0].GenSwitchingKeysForRingSwap(c.sks[a], c.sks[b])
			} else {
				u, v := ckks.NewKeyGenerator(c.cp).GenSwitchingKeysForBridge(c.sks[a], c.sks[b])
				x, y = &u.SwitchingKey, &v.SwitchingKey
			}
			c.swk[fmt.Sprint([]int{a, b, ks[2], ks[3], ks[4]})] = x
			c.swk[fmt.Sprint([]int{b, a, ks[2], ks[3], ks[4]})] = y
		} else {
			c.swk[id] = c.genSwitching(ks)
		}
	}
	return c.swk[id]
}

// keySwitch returns the two polynomials the key-switching procedures give for cx
func (c *rlweRun) keySwitch(kind, who, lvl int, cx *ring.Poly, swk *rlwe.SwitchingKey) (p0, p1 *ring.Poly) {
	r := c.r
	ks := c.ks[who]
	rg, rp := c.p[0].RingQ(), c.p[0].RingP()
	lp := swk.Value[0][0].P.Level()
	p0, p1 = ks.Pool[4].Q, ks.Pool[5].Q
	before := hashPolys(cx)
	hoisted := func(noModDown bool) {
		n := (lvl + lp + 1) / (lp + 1)
		dec := make([]rlwe.PolyQP, n)
		for i := range dec {
			dec[i] = c.p[0].RingQP().NewPoly()
		}
		ks.DecomposeNTT(lvl, lp, lp+1, cx, dec)
		if noModDown {
			ks.KeyswitchHoistedNoModDown(lvl, dec, swk, p0, p1, ks.Pool[4].P, ks.Pool[5].P)
			be := ks.BasisExtender
			be.ModDownQPtoQNTT(lvl, lp, p0, ks.Pool[4].P, p0)
			be.ModDownQPtoQNTT(lvl, lp, p1, ks.Pool[5].P, p1)
		} else {
			ks.KeyswitchHoisted(lvl, dec, swk, p0, p1, ks.Pool[4].P, ks.Pool[5].P)
		}
	}
	switch kind {
	case 0, 4:
		ks.SwitchKeysInPlace(lvl, cx, swk, p0, p1)
	case 1:
		hoisted(false)
	case 2:
		ks.SwitchKeysInPlaceNoModDown(lvl, cx, swk, p0, ks.Pool[4].P, p1, ks.Pool[5].P)
		be := ks.BasisExtender
		be.ModDownQPtoQNTT(lvl, lp, p0, ks.Pool[4].P, p0)
		be.ModDownQPtoQNTT(lvl, lp, p1, ks.Pool[5].P, p1)
		if !cx.IsNTT {
			rg.InvNTTLvl(lvl, p0, p0)
			rg.InvNTTLvl(lvl, p1, p1)
		}
	case 3:
		hoisted(true)
	}
	_ = rp
	trim := func(p *ring.Poly) *ring.Poly {
		t := ring.NewPoly(rg.N, lvl+1)
		for i := 0; i <= lvl; i++ {
			for k, x := range p.Coeffs[i] {
				if x > 2*rg.Modulus[i] {
					r.FailFor("K01", "the key switch gives the word %d, above twice the modulus %d", x, rg.Modulus[i])
				}
				t.Coeffs[i][k] = x % rg.Modulus[i]
			}
		}
		t.IsNTT = cx.IsNTT || kind == 1 || kind == 3
		return t
	}
	p0, p1 = trim(p0), trim(p1)
	if hashPolys(cx) != before {
		r.FailFor("K01 C04", "the key switch changed its input polynomial")
	}
	// the direct and hoisted procedures give the same polynomials
	if kind == 0 && c.rng.Intn(3) == 0 {
		q0, q1 := c.keySwitch(1, 1-who, lvl, cx, swk)
		if !cx.IsNTT {
			rg.InvNTTLvl(lvl, q0, q0)
			rg.InvNTTLvl(lvl, q1, q1)
		}
		for i := 0; i <= lvl; i++ {
			for k := range q0.Coeffs[i] {
				d0 := submod(q0.Coeffs[i][k], p0.Coeffs[i][k], rg.Modulus[i])
				d1 := submod(q1.Coeffs[i][k], p1.Coeffs[i][k], rg.Modulus[i])
				r.Count(2)
				if d0 != 0 || d1 != 0 {
					r.FailFor("K01", "the hoisted key switch differs from the direct one (level %d, prime %d, coefficient %d)", lvl, i, k)
				}
			}
		}
	}
	return
}

func toRep(rg *ring.Ring, p *ring.Poly, ntt bool) *ring.Poly {
	t := copyPoly(p)
	if p.IsNTT && !ntt {
		rg.InvNTTLvl(t.Level(), t, t)
	} else if !p.IsNTT && ntt {
		rg.NTTLvl(t.Level(), t, t)
	}
	t.IsNTT = ntt
	return t
}
func addPolys(rg *ring.Ring, a, b *ring.Poly) *ring.Poly {
	a = toRep(rg, a, b.IsNTT)
	t := copyPoly(b)
	for i := range t.Coeffs {
		q := rg.Modulus[i]
		for k := range t.Coeffs[i] {
			t.Coeffs[i][k] = addmod(a.Coeffs[i][k]%q, b.Coeffs[i][k]%q, q)
		}
	}
	return t
}

func (c *rlweRun) newCt(dim, deg, lvl int, ntt, dirty bool) *ckks.Ciphertext {
	var el *rlwe.Ciphertext
	if ntt {
		el = rlwe.NewCiphertextNTT(c.p[dim], deg, lvl)
	} else {
		el = rlwe.NewCiphertext(c.p[dim], deg, lvl)
	}
	if dirty {
		for _, p := range el.Value {
			for i := range p.Coeffs {
				for k := range p.Coeffs[i] {
					p.Coeffs[i][k] = c.rng.Uint64() % c.p[dim].RingQ().Modulus[i]
				}
			}
			p.IsNTT = c.rng.Intn(2) == 0
		}
	}
	return &ckks.Ciphertext{Ciphertext: el, Scale: math.Exp2(30)}
}

func (c *rlweRun) hashes() []uint64 {
	h := []uint64{}
	for _, x := range c.cts {
		h = append(h, hashPolys(x.Value...))
	}
	for _, x := range c.pts {
		h = append(h, hashPolys(x.Value))
	}
	for _, x := range c.sks {
		h = append(h, hashPolys(x.Value.Q, x.Value.P))
	}
	return h
}

func replayRLWE(r *R, t *Trace) {
	c := &rlweRun{rlweCtx: getRlweCtx(r), r: r, sdim: r.cfg.Ints("SECD"), pks: map[int]*rlwe.PublicKey{}, swk: map[string]*rlwe.SwitchingKey{},
		rlk: map[int]*rlwe.RelinearizationKey{}, enc: map[string]rlwe.Encryptor{}, dec: map[string]rlwe.Decryptor{}, cenc: map[string]ckks.Encryptor{}, cdec: map[string]ckks.Decryptor{}}
	swks := [][]int{}
	if l, ok := r.cfg["SWKS"].([]interface{}); ok {
		for _, x := range l {
			row := []int{}
			for _, y := range x.([]interface{}) {
				row = append(row, int(y.(float64)))
			}
			swks = append(swks, row)
		}
	}
	s0 := t.States[0]
	for k, v := range s0.F("secs").List() {
		c.secs = append(c.secs, c.smalls(ints64(v)))
		c.sks = append(c.sks, c.makeSk(c.sdim[k], c.secs[k], c.p[0].MaxLevel(), c.p[0].PCount()-1))
	}
	rg := c.p[0].RingQ()
	loadCt := func(e Val) *ckks.Ciphertext {
		return c.encryptRaw(e.F("dim").Int(), e.F("lvl").Int(), e.F("deg").Int(), e.F("ntt").Bool(), c.bigs(e.F("m").Bigs()), e.F("key").Int())
	}
	loadPt := func(e Val) *ckks.Plaintext {
		lvl := e.F("lvl").Int()
		p := ring.NewPoly(rg.N, lvl+1)
		q, t := new(big.Int), new(big.Int)
		for k, x := range c.bigs(e.F("m").Bigs()) {
			for i := 0; i <= lvl; i++ {
				p.Coeffs[i][k] = t.Mod(x, q.SetUint64(rg.Modulus[i])).Uint64()
			}
		}
		if e.F("ntt").Bool() {
			rg.NTTLvl(lvl, p, p)
			p.IsNTT = true
		}
		return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p}, Scale: math.Exp2(float64(e.F("sc").Int()))}
	}
	for i, e := range s0.F("cts").List() {
		_ = i
		c.cts = append(c.cts, loadCt(e))
	}
	for _, e := range s0.F("pts").List() {
		c.pts = append(c.pts, loadPt(e))
	}
	for i := 1; i < len(t.States); i++ {
		st := t.States[i]
		a := st.F("act")
		op := a.F("op").Str()
		if op == "Idle" {
			continue
		}
		cts, pts, out := st.F("cts").List(), st.F("pts").List(), st.F("out").List()
		x, z, p, key, kind, who, api, nw := a.F("x").Int(), a.F("z").Int(), a.F("p").Int(), a.F("key").Int(), a.F("kind").Int(), a.F("who").Int(), a.F("api").Int(), a.F("new").Bool()
		lvl, ntt, dirty := a.F("lvl").Int(), a.F("ntt").Bool(), a.F("dirty").Bool()
		if op == "LoadCt" {
			r.Step(i, "Load", "load")
			c.cts[z] = loadCt(cts[z])
			continue
		}
		if op == "LoadPt" {
			r.Step(i, "Load", "load")
			c.pts[p] = loadPt(pts[p])
			continue
		}
		desc := fmt.Sprintf("%s %s", op, a.JSON())
		r.Step(i, op, desc)
		before := c.hashes()
		tz, tp := -1, -1 // registers the call may change
		switch op {
		case "Encrypt", "EncryptFromCRP":
			tz = z
			pt := c.pts[p]
			var crp *ring.Poly
			if op == "EncryptFromCRP" {
				crp = ring.NewPoly(rg.N, a.F("deg").Int()+1)
				for l := range crp.Coeffs {
					for k := range crp.Coeffs[l] {
						crp.Coeffs[l][k] = c.rng.Uint64() % rg.Modulus[l]
					}
				}
			}
			crpH := hashPolys(crp)
			if api == 1 {
				e := c.cencryptor(kind, key, who)
				switch {
				case crp == nil && nw:
					c.cts[z] = e.EncryptNew(pt)
				case crp == nil:
					e.Encrypt(pt, c.cts[z])
				case nw:
					c.cts[z] = e.EncryptFromCRPNew(pt, crp)
				default:
					e.EncryptFromCRP(pt, crp, c.cts[z])
				}
			} else {
				if nw {
					c.cts[z] = c.newCt(0, 1, lvl, ntt, false)
				}
				if crp == nil {
					c.encryptor(kind, key, who).Encrypt(pt.Plaintext, c.cts[z].Ciphertext)
				} else {
					c.encryptor(kind, key, who).EncryptFromCRP(pt.Plaintext, crp, c.cts[z].Ciphertext)
				}
			}
			diffs := c.checkCt("C06", z, cts[z])
			c1 := c.cts[z].Value[1]
			if crp != nil {
				if hashPolys(crp) != crpH {
					r.FailFor("C06", "the reference polynomial was changed")
				}
				u := toRep(rg, c1, true)
				for l := range u.Coeffs {
					for k := range u.Coeffs[l] {
						if u.Coeffs[l][k] != crp.Coeffs[l][k] {
							r.FailFor("C06", "the second component is not the reference polynomial")
						}
					}
				}
			} else if !c.fresh(c1) {
				r.FailFor("C06", "two encryptions share the same mask")
			}
			if diffs != nil && pts[p].F("err").Int() == 0 && kind == 0 {
				s := c.st("fresh encryption errors")
				zero := true
				for _, d := range diffs {
					f, _ := new(big.Float).SetInt(d).Float64()
					s.add(f)
					zero = zero && d.Sign() == 0
				}
				if zero {
					r.FailFor("C06", "the encryption carries no error at all")
				}
				s.check(r, "C06", "fresh encryption errors", c.sigma, 4000)
			}
		case "Decrypt":
			tp = p
			if api == 1 {
				d := c.cdecryptor(key, who)
				if nw {
					c.pts[p] = d.DecryptNew(c.cts[x])
				} else {
					d.Decrypt(c.cts[x], c.pts[p])
				}
			} else {
				if nw {
					c.pts[p] = &ckks.Plaintext{Plaintext: rlwe.NewPlaintext(c.p[0], lvl), Scale: math.Exp2(20)}
					c.pts[p].Value.IsNTT = ntt
				}
				c.decryptor(key, who).Decrypt(c.cts[x].Ciphertext, c.pts[p].Plaintext)
			}
			c.checkPt("C06", p, pts[p], pts[p].F("junk").Bool())
		case "EncryptKnown":
			c.encryptKnown(c.pts[p], a.F("ks").Ints(), who, api, ntt, lvl, a.F("deg").Int())
		case "CopyPt":
			tp = p
			c.pts[p].Copy(c.pts[x].Plaintext)
			c.checkPt("C06", p, pts[p], pts[p].F("junk").Bool())
		case "CopyNew":
			tz = z
			c.cts[z] = c.cts[x].CopyNew()
			c.checkCt("C06", z, cts[z])
		case "Copy":
			tz = z
			c.cts[z].Copy(c.cts[x])
			c.checkCt("C06", z, cts[z])
		case "Resize":
			tz = z
			c.cts[z].Resize(c.p[0], a.F("deg").Int())
			c.checkCt("C06", z, cts[z])
		case "SwitchKeys", "Relinearize":
			tz = z
			ct := c.cts[x]
			l := ct.Level()
			var swk *rlwe.SwitchingKey
			if op == "SwitchKeys" {
				swk = c.switching(swks[key])
			} else {
				if c.rlk[key] == nil {
					c.rlk[key] = c.kgen[0].GenRelinearizationKey(c.sks[key], 2)
				}
				swk = c.rlk[key].Keys[a.F("deg").Int()-2]
			}
			kh := hashSwk(swk)
			d := ct.Degree()
			p0, p1 := c.keySwitch(kind, who, l, ct.Value[d], swk)
			if hashSwk(swk) != kh {
				r.FailFor("K01 C04", "the key switch changed its key")
			}
			o := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: ct.Scale}
			if op == "SwitchKeys" {
				o.Value = []*ring.Poly{addPolys(rg, ct.Value[0], p0), p1}
			} else {
				o.Value = []*ring.Poly{addPolys(rg, ct.Value[0], p0), addPolys(rg, ct.Value[1], p1)}
				if d == 3 {
					o.Value = append(o.Value, toRep(rg, ct.Value[2], p0.IsNTT))
				}
			}
			c.cts[z] = o
			c.checkCt("K01 K03", z, cts[z])
		case "DegreeUp", "DegreeDown":
			tz = z
			ct := c.cts[x]
			dim := cts[z].F("dim").Int()
			o := c.newCt(dim, ct.Degree(), cts[z].F("lvl").Int(), ct.Value[0].IsNTT, dirty)
			if ct.Value[0].IsNTT {
				if op == "DegreeUp" {
					rlwe.SwitchCiphertextRingDegreeNTT(ct.Ciphertext, nil, nil, o.Ciphertext)
				} else {
					rlwe.SwitchCiphertextRingDegreeNTT(ct.Ciphertext, c.p[1].RingQ(), rg, o.Ciphertext)
				}
			} else {
				rlwe.SwitchCiphertextRingDegree(ct.Ciphertext, o.Ciphertext)
			}
			o.Scale = ct.Scale
			// reported before the register moves, since the input must not change
			if hashPolys(ct.Value...) != before[x] {
				r.FailFor("K03", "%s changed its input ciphertext", op)
			}
			c.cts[z] = o
			// in larger rings, coefficients that the specification's map drops stay beside those it keeps
			c.sparse = op == "DegreeDown" && c.up > 1
			c.checkCt("K03", z, cts[z])
			if c.sparse {
				c.sparse = false
				c.cts[z] = loadCt(cts[z])
			}
		case "Unfold", "Fold":
			tz = z
			ct := c.cts[x]
			dim := cts[z].F("dim").Int()
			o := c.newCt(dim, ct.Degree(), cts[z].F("lvl").Int(), true, dirty)
			for u := range o.Value {
				if op == "Unfold" {
					rg.UnfoldConjugateInvariantToStandard(ct.Level(), ct.Value[u], o.Value[u])
				} else {
					r2 := c.p[2].RingQ()
					r2.FoldStandardToConjugateInvariant(o.Level(), ct.Value[u], rg.PermuteNTTIndex(2*uint64(rg.N)-1), o.Value[u])
				}
				o.Value[u].IsNTT = true
			}
			o.Scale = ct.Scale
			if hashPolys(ct.Value...) != before[x] {
				r.FailFor("K03", "%s changed its input polynomials", op)
			}
			c.cts[z] = o
			c.checkCt("K03", z, cts[z])
		case "GenSecretKey":
			var sk *rlwe.SecretKey
			w := -1
			kg := c.kgen[0]
			prob := []float64{0.5, 0.25, 1.0 / 3, 0.7}[lvl%4]
			switch kind {
			case 0:
				if lvl%2 == 0 {
					sk = kg.GenSecretKey()
				} else {
					var pk *rlwe.PublicKey
					sk, pk = kg.GenKeyPair()
					c.publicKey(pk, c.secretCheck("K02", sk))
				}
				w = c.p[0].HammingWeight()
			case 1:
				sk = kg.GenSecretKeyGaussian()
			case 2:
				sk = kg.GenSecretKeyWithDistrib(prob)
			case 3:
				sk = kg.GenSecretKeyWithHammingWeight(lvl)
				w = lvl
			}
			s := c.secretCheck("K02", sk)
			nz, bound := 0, int64(1)
			if kind == 1 {
				bound = c.bound
			}
			for _, y := range s {
				if y > bound || y < -bound {
					r.FailFor("K02", "the secret key has a coefficient %d", y)
				}
				if y != 0 {
					nz++
				}
			}
			if w >= 0 && nz != w {
				r.FailFor("K02", "the secret key has %d nonzero coefficients, %d were requested", nz, w)
			}
			if kind == 1 {
				g := c.st("gaussian secret coefficients")
				for _, y := range s {
					g.add(float64(y))
				}
				g.check(r, "K02", "gaussian secret coefficients", c.sigma, 4000)
			} else {
				// signs are balanced, and the density is the requested one
				if c.freq[prob] == nil {
					c.freq[prob] = &[2]int{}
				}
				g := c.st("secret signs")
				for _, y := range s {
					if y != 0 {
						g.add(float64(y))
					}
					if kind == 2 {
						c.freq[prob][0]++
						if y == 0 {
							c.freq[prob][1]++
						}
					}
				}
				g.check(r, "K02", "secret signs", 1, 4000)
				if f := c.freq[prob]; f[0] >= 2000 {
					got := float64(f[1]) / float64(f[0])
					r.Count(1)
					// 7 standard deviations
					if math.Abs(got-prob) > 7*math.Sqrt(prob*(1-prob)/float64(f[0])) {
						r.FailFor("K02", "%d of %d coefficients are zero, the requested probability is %.3f", f[1], f[0], prob)
					}
					*f = [2]int{}
				}
			}
		case "GenPublicKey":
			c.publicKey(c.kgen[0].GenPublicKey(c.sks[key]), c.secs[key])
		case "GenSwitchingKey":
			c.keyRows("K02", c.genSwitching(a.F("ks").Ints()), out[0])
		case "GenSwitchingKeysForRingSwap":
			k1, k2 := c.kgen[0].GenSwitchingKeysForRingSwap(c.sks[key], c.sks[x])
			c.keyRows("K02", k1, out[0])
			c.keyRows("K02", k2, out[1])
		case "GenRelinearizationKey":
			rlk := c.kgen[0].GenRelinearizationKey(c.sks[key], a.F("deg").Int())
			if len(rlk.Keys) != len(out) {
				r.FailFor("K02", "%d relinearization keys, must be %d", len(rlk.Keys), len(out))
			}
			for j := range out {
				c.keyRows("K02", rlk.Keys[j], out[j])
			}
		case "GenRotationKeys":
			kg := c.kgen[0]
			l := a.F("ks").Ints()
			gals := []uint64{}
			for _, g := range l {
				// every element of the large group that is this one in the small group
				nth := c.nthRoot() / uint64(c.up)
				gals = append(gals, (uint64(g)+nth*uint64(c.rng.Intn(c.up)))%(nth*uint64(c.up))+nth*uint64(c.up)*(uint64(g)/nth))
			}
			var set *rlwe.RotationKeySet
			var one *rlwe.SwitchingKey
			switch kind {
			case 0:
				set = kg.GenRotationKeysForRotations(l, nw, c.sks[key])
			case 1:
				set = kg.GenRotationKeys(gals, c.sks[key])
			case 2:
				one = kg.GenSwitchingKeyForRotationBy(l[0], c.sks[key])
			case 3:
				one = kg.GenSwitchingKeyForRowRotation(c.sks[key])
			case 4:
				one = kg.GenSwitchingKeyForGalois(gals[0], c.sks[key])
			case 5:
				set = kg.GenRotationKeysForInnerSum(c.sks[key])
			}
			if one != nil {
				c.keyRows("K02", one, out[0])
				break
			}
			ids := map[uint64]Val{}
			for _, e := range out {
				ids[e.F("id").Uint64()] = e
			}
			if c.up > 1 {
				n := 0
				for g, k := range set.Keys {
					if e, ok := ids[g%(c.nthRoot()/uint64(c.up))]; ok {
						c.keyRows("K02", k, e)
						n++
					}
				}
				if n < len(ids) {
					r.FailFor("K02", "the set has %d of the %d keys it must have", n, len(ids))
				}
				break
			}
			if len(set.Keys) != len(ids) {
				r.FailFor("K02", "the set has %d keys, must have %d", len(set.Keys), len(ids))
			}
			for g, e := range ids {
				k, ok := set.GetRotationKey(g)
				if !ok {
					r.FailFor("K02", "the set has no key for the Galois element %d", g)
				}
				c.keyRows("K02", k, e)
			}
		default:
			die("unknown action %s", op)
		}
		after := c.hashes()
		for k := range before {
			if k < len(c.cts) && k == tz || k >= len(c.cts) && k < len(c.cts)+len(c.pts) && k-len(c.cts) == tp {
				continue
			}
			r.Count(1)
			if before[k] != after[k] {
				r.FailFor("C06 K01 K02 K03 C04", "the call changed a register, plaintext or secret key it does not write (%d)", k)
			}
		}
		r.Sample(map[string]interface{}{"call": desc})
	}
}

func (c *rlweRun) publicKey(pk *rlwe.PublicKey, s []int64) {
	lp := c.p[0].PCount() - 1
	var rp *ring.Ring
	if lp >= 0 {
		rp = c.p[0].RingP()
	}
	c.rowCheck("K02", "the public key", pk.Value, c.p[0].MaxLevel(), lp, s, nil, nil, c.p[0].RingQ(), rp)
}

// encryptKnown encrypts under a public key made of two constants, from which the ephemeral polynomial and the errors can be read off
func (c *rlweRun) encryptKnown(pt *ckks.Plaintext, ks []int, who, api int, ntt bool, lvl, outLvl int) {
	r, rg, params := c.r, c.p[0].RingQ(), c.p[0]
	P := big.NewInt(1)
	if params.PCount() > 0 {
		P.SetUint64(params.RingP().Modulus[0])
	}
	near := new(big.Int)
	if params.PCount() > 0 {
		switch ks[2] {
		case 1:
			near.Rsh(P, 1)
		case 2:
			near.Sub(P, new(big.Int).Rsh(P, 54))
		}
	}
	pk := rlwe.NewPublicKey(params)
	for i := range pk.Value {
		k := new(big.Int).Lsh(P, uint(ks[i]))
		k.Add(k, near)
		fill := func(g *ring.Ring, p *ring.Poly) {
			for j, q := range g.Modulus {
				w := new(big.Int).Mod(k, new(big.Int).SetUint64(q)).Uint64()
				for n := range p.Coeffs[j] {
					p.Coeffs[j][n] = w // a constant is the same in every form of the transform
				}
			}
			p.IsNTT = true
		}
		fill(rg, pk.Value[i].Q)
		if params.PCount() > 0 {
			fill(params.RingP(), pk.Value[i].P)
		}
	}
	ct := c.newCt(0, 1, lvl, ntt, false)
	if api == 1 {
		e := ckks.NewEncryptor(c.cp, pk)
		if who == 1 {
			e = e.ShallowCopy()
		} else if who == 2 {
			e = ckks.NewEncryptor(c.cp, c.sks[0]).WithKey(pk)
		}
		e.Encrypt(pt, ct)
	} else {
		e := rlwe.NewEncryptor(params, pk)
		if who == 1 {
			e = e.ShallowCopy()
		} else if who == 2 {
			e = rlwe.NewEncryptor(params, c.sks[0]).WithKey(pk)
		}
		e.Encrypt(pt.Plaintext, ct.Ciphertext)
	}
	if ct.Level() != outLvl || ct.Degree() != 1 {
		r.FailFor("C06", "encryption gives level %d, degree %d; must be level %d, degree 1", ct.Level(), ct.Degree(), outLvl)
	}
	m := toRep(rg, pt.Value, false)
	var us [2][]int64
	for i := range us {
		v := toRep(rg, ct.Value[i], false)
		var ref []int64
		for l := 0; l <= outLvl; l++ {
			q := rg.Modulus[l]
			x := make([]int64, rg.N)
			for n := range x {
				w := v.Coeffs[l][n] % q
				if i == 0 {
					w = submod(w, m.Coeffs[l][n]%q, q)
				}
				if x[n] = int64(w); w > q/2 {
					x[n] = -int64(q - w)
				}
			}
			if ref == nil {
				ref = x
			}
			for n := range x {
				if x[n] != ref[n] {
					r.FailFor("C06", "component %d of an encryption under constants: u*k + e is %d modulo one prime and %d modulo another", i, ref[n], x[n])
				}
			}
		}
		r.Count(rg.N * (outLvl + 1))
		us[i] = make([]int64, rg.N)
		weight, zero := 0, true
		for n, x := range ref {
			u := (x + int64(1)<<(ks[i]-1)) >> ks[i]
			e := x - u<<ks[i]
			bound := c.bound
			if params.PCount() > 0 {
				bound = 2
			}
			if u < -1 || u > 1 || e > bound || e < -bound {
				r.FailFor("C06", "component %d of an encryption under the constant 2^%d holds %d: not an ephemeral coefficient with a small error", i, ks[i], x)
			}
			us[i][n] = u
			zero = zero && e == 0
			if u != 0 {
				weight++
			}
			if params.PCount() == 0 {
				c.st(fmt.Sprintf("errors of component %d", i)).add(float64(e))
			} else {
				// the rounding of (P * 2^k + (P-1)/2) * u + e tells whether there is an e, for some u
				c.rounding[i][ks[2]][u+1][e+2]++
			}
		}
		if i == 1 {
			for n := range us[0] {
				if us[0][n] != us[1][n] {
					r.FailFor("C06", "the two components use different ephemeral polynomials: %v and %v", us[0], us[1])
				}
			}
		}
		if weight != r.cfg.Int("HW", 8) {
			r.FailFor("C06", "the ephemeral polynomial has Hamming weight %d, the parameters say %d", weight, r.cfg.Int("HW", 8))
		}
		if params.PCount() == 0 {
			w := fmt.Sprintf("errors of component %d", i)
			if zero {
				r.FailFor("C06", "component %d of an encryption under constants carries no error at all", i)
			}
			c.st(w).check(r, "C06", w, c.sigma, 2000)
		}
	}
	// where the ephemeral is non-zero, and with which sign, is uniform
	if c.uses == nil {
		c.uses = make([][3]int, rg.N)
	}
	for n, u := range us[0] {
		c.uses[n][u+1]++
	}
	c.known++
	if T := c.known; T%100 == 0 && c.up == 1 {
		p := float64(r.cfg.Int("HW", 8)) / float64(rg.N) / 2
		dev := 6 * math.Sqrt(float64(T)*p*(1-p))
		for n := range c.uses {
			for _, s := range []int{0, 2} {
				if d := float64(c.uses[n][s]) - float64(T)*p; d > dev || d < -dev {
					r.FailFor("C06", "coefficient %d of the ephemeral polynomial was %d in %d of %d encryptions", n, s-1, c.uses[n][s], T)
				}
			}
		}
		r.Note("ephemeral polynomials recovered", float64(T))
		if params.PCount() > 0 {
			for i := range c.rounding {
				seen := false
				for _, hs := range c.rounding[i] {
					for _, h := range hs {
						n, top := 0, 0
						for _, x := range h {
							n += x
							top = maxInt(top, x)
						}
						seen = seen || (n > 60 && float64(top) < 0.85*float64(n))
					}
				}
				if !seen {
					r.FailFor("C06", "component %d of %d encryptions is determined by the ephemeral polynomial: no error (%v)", i, T, c.rounding[i])
				}
				r.Count(1)
			}
		}
	}
}
