package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"strconv"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// Replay of spec/samplers.qnt. Every generator, sampler and polynomial exists twice, with different garbage in the
// receivers; both copies must agree. Every byte drawn is compared with what the same key gave before at that offset.

func init() { replayers["samplers"] = replaySamplers }

// streams is what has been learnt of each key's bytes.
type streams struct {
	data map[string][]byte
	win  map[[16]byte]string // sixteen-byte windows at multiples of 8, with the place they were seen
}

func (s *streams) see(r *R, key string, off int, b []byte) {
	d := s.data[key]
	for i, x := range b {
		if off+i < len(d) {
			if d[off+i] != x {
				r.FailFor("R06", "byte %d of the stream of key %x is %d, it was %d", off+i, key, x, d[off+i])
			}
		} else if off+i == len(d) {
			d = append(d, x)
		} else {
			die("samplers: a hole in the stream")
		}
	}
	from := (len(s.data[key]) - 15 + 7) / 8 * 8
	if from < 0 {
		from = 0
	}
	s.data[key] = d
	for o := from; o+16 <= len(d) && o < 1<<15; o += 8 {
		var w [16]byte
		copy(w[:], d[o:o+16])
		where := fmt.Sprintf("%x at %d", key, o)
		if was, ok := s.win[w]; ok && was != where {
			r.FailFor("R06", "sixteen bytes of the stream of key %s were already those of %s", where, was)
		}
		s.win[w] = where
	}
}

// probe is a generator whose draws are observed; with edges, words at the edges of the ranges replace some.
type probe struct {
	r     *R
	s     *streams
	g     *utils.KeyedPRNG
	key   string
	off   int
	edges []uint64
}

func (p *probe) Clock(sum []byte) {
	before := p.g.GetClock()
	if len(sum) > 0 { // leftovers must not show
		for i := range sum {
			sum[i] ^= 0x5a
		}
	}
	p.g.Clock(sum)
	if p.g.GetClock() != before+1 {
		p.r.FailFor("R06", "a draw moved the clock from %d to %d", before, p.g.GetClock())
	}
	p.s.see(p.r, p.key, p.off, sum)
	p.off += len(sum)
	if len(p.edges) > 0 {
		for i := 0; i+8 <= len(sum); i += 8 {
			if h := sum[i]; h < 90 {
				binary.BigEndian.PutUint64(sum[i:], p.edges[int(h)%len(p.edges)])
			} else if h < 110 { // the widest strip of the Gaussian tables, and its tail
				binary.BigEndian.PutUint64(sum[i:], uint64(h&1)<<63|0x7fffff80<<32|uint64(h)*0x01010101)
			}
		}
	}
}
func (p *probe) GetClock() uint64 { return p.g.GetClock() }
func (p *probe) SetClock(sum []byte, n uint64) error {
	return p.g.SetClock(sum, n)
}

type samRing struct {
	rg     *ring.Ring
	params rlwe.Parameters
}
type twin struct{ a, b *probe }
type twinSampler struct {
	a, b interface{}
	gen  int
	kind int
	ring int
	spec Val
}
type twinPoly struct{ a, b *ring.Poly }

type samCtx struct {
	r     *R
	rings []samRing
	s     *streams
	gens  []twin
	sams  []twinSampler
	pols  []twinPoly
}

func samRings(r *R) []samRing {
	out := []samRing{}
	for _, x := range r.cfg["RINGS"].([]interface{}) {
		c := Cfg(x.(map[string]interface{}))
		t := ring.Standard
		if c.Bool("ci") {
			t = ring.ConjugateInvariant
		}
		p, err := rlwe.NewParameters(c.Int("logn", 0), c.Uints("qs"), c.Uints("ps"), 8, 3.2, t)
		if err != nil {
			die("samplers: %v", err)
		}
		out = append(out, samRing{p.RingQ(), p})
	}
	return out
}

// fullWords fills with words of the whole range; below the modulus when red.
func fullWords(rg *ring.Ring, seed uint64, red bool, p *ring.Poly) {
	x := seed*0x9e3779b97f4a7c15 + 1
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			w := x
			if red {
				w %= rg.Modulus[i]
				if x>>40&7 == 0 {
					w = rg.Modulus[i] - 1 - w%2
				}
			}
			p.Coeffs[i][j] = w
		}
	}
}

func (c *samCtx) fail(f string, a ...interface{}) { c.r.FailFor("R06", f, a...) }

func keyOf(v Val) string {
	l := v.F("key").List()
	b := make([]byte, len(l))
	for i := range l {
		b[i] = byte(l[i].Int())
	}
	return string(b)
}

func (c *samCtx) newProbe(key string, edges []uint64) *probe {
	kb := []byte(key)
	if len(kb) == 0 && len(c.s.data)%2 == 0 {
		kb = nil
	}
	g, err := utils.NewKeyedPRNG(kb)
	if err != nil {
		c.fail("a key of %d bytes is refused: %v", len(key), err)
	}
	for i := range kb { // the generator must not keep the caller's slice
		kb[i] ^= 0xff
	}
	return &probe{r: c.r, s: c.s, g: g, key: key, edges: edges}
}

func newSampler(m Val, g utils.PRNG, rg *ring.Ring) interface{} {
	switch m.F("kind").Int() {
	case 0:
		return ring.NewUniformSampler(g, rg)
	case 1:
		return ring.NewTernarySampler(g, rg, float64(m.F("num").Int())/float64(m.F("den").Int()), m.F("mont").Bool())
	case 2:
		return ring.NewTernarySamplerWithHammingWeight(g, rg, m.F("hw").Int(), m.F("mont").Bool())
	}
	return ring.NewGaussianSampler(g, rg, float64(m.F("sg").Int())/10, m.F("bound").Int())
}

func replaySamplers(r *R, t *Trace) {
	c := &samCtx{r: r, rings: samRings(r), s: &streams{map[string][]byte{}, map[[16]byte]string{}}}
	c.gens = make([]twin, r.cfg.Int("NG", 0))
	c.sams = make([]twinSampler, r.cfg.Int("NS", 0))
	c.pols = make([]twinPoly, r.cfg.Int("NP", 0))
	for i, s := range t.States {
		a := s.F("act")
		op := a.F("op").Str()
		if op == "Init" || op == "None" {
			continue
		}
		r.Step(i, op, a.JSON())
		r.Count(1)
		if len(r.res.Samples) < 3 {
			r.Sample(a.JSON())
		}
		c.step(op, a, s)
		// where the specification knows it, the clock and the number of bytes drawn
		for k, g := range s.F("gens").List() {
			if !g.F("live").Bool() {
				continue
			}
			w := c.gens[k]
			if w.a.GetClock() != w.b.GetClock() || w.a.off != w.b.off {
				c.fail("two generators of one key and one history are at clocks %d and %d, bytes %d and %d", w.a.GetClock(), w.b.GetClock(), w.a.off, w.b.off)
			}
			if n := g.F("clk").Int(); n >= 0 && uint64(n) != w.a.GetClock() {
				c.fail("generator %d is at clock %d, expected %d", k, w.a.GetClock(), n)
			}
			if n := g.F("off").Int(); n >= 0 && n != w.a.off {
				c.fail("generator %d has given %d bytes, expected %d", k, w.a.off, n)
			}
		}
	}
}

func (c *samCtx) step(op string, a Val, st Val) {
	z, x, n, lvl := a.F("z").Int(), a.F("x").Int(), a.F("n").Int(), a.F("lvl").Int()
	switch op {
	case "Gen":
		g := a.F("gen")
		key, edges := keyOf(g), g.F("edges").Uints()
		c.gens[z] = twin{c.newProbe(key, edges), c.newProbe(key, edges)}
	case "GenBad":
		if _, err := utils.NewKeyedPRNG([]byte(keyOf(a.F("gen")))); err == nil {
			c.fail("a key of %d bytes is accepted", len(keyOf(a.F("gen"))))
		}
	case "Draw":
		w := c.gens[z]
		w.a.Clock(make([]byte, n))
		w.b.Clock(make([]byte, n))
	case "SetClock":
		for _, p := range []*probe{c.gens[z].a, c.gens[z].b} {
			d, now := a.F("lo").Int(), p.GetClock()
			if d < 0 && now < uint64(-d) {
				break
			}
			b := bytes.Repeat([]byte{0xa7}, n)
			err := p.g.SetClock(b, uint64(int64(now)+int64(d)))
			if (err != nil) != a.F("err").Bool() {
				c.fail("setting the clock from %d by %d: %v", now, d, err)
			}
			if err != nil || d == 0 {
				if p.GetClock() != now || !bytes.Equal(b, bytes.Repeat([]byte{0xa7}, n)) {
					c.fail("setting the clock from %d by %d moved the generator to %d", now, d, p.GetClock())
				}
				continue
			}
			if p.GetClock() != now+uint64(d) {
				c.fail("setting the clock from %d by %d moved it to %d", now, d, p.GetClock())
			}
			// the same as drawing: a new generator learns the bytes in between
			g, _ := utils.NewKeyedPRNG([]byte(p.key))
			all := make([]byte, p.off+n*d)
			g.Clock(all)
			c.s.see(c.r, p.key, 0, all)
			p.off += n * d
			if !bytes.Equal(b, all[len(all)-n:]) {
				c.fail("setting the clock %d ticks ahead with %d bytes leaves other bytes than drawing", d, n)
			}
		}
	case "Word":
		v, mask := a.F("hi").Uint64(), a.F("lo").Uint64()
		u := ring.RandUniform(c.gens[z].a, v, mask)
		w := ring.RandUniform(c.gens[z].b, v, mask)
		if u >= v {
			c.fail("RandUniform below %d gives %d", v, u)
		}
		if u != w {
			c.fail("RandUniform gives %d and %d on equal generators", u, w)
		}
		// a run of words of a generator of its own: every bit takes both values, and the mean is right
		g, err := utils.NewKeyedPRNG([]byte(fmt.Sprintf("words of step %d below %d", c.r.step, v)))
		if err != nil {
			c.fail("NewKeyedPRNG: %v", err)
		}
		or, and, sum := uint64(0), ^uint64(0), 0.0
		const n = 72
		for i := 0; i < n; i++ {
			u := ring.RandUniform(g, v, mask)
			if u >= v {
				c.fail("RandUniform below %d gives %d", v, u)
			}
			or, and, sum = or|u, and&u, sum+float64(u)/float64(v)
		}
		if v&(v-1) == 0 && (or != v-1 || and != 0) {
			c.fail("RandUniform below %d: bits %x never set, bits %x always set", v, (v-1)&^or, and)
		}
		// uniform on 0, 1/v .. (v-1)/v
		f := float64(v)
		if d := math.Abs(sum/n - (1-1/f)/2); d > 7*math.Sqrt((1-1/(f*f))/12/n) {
			c.fail("RandUniform below %d: the mean of %d words is off by %v of the range", v, n, d)
		}
	case "Fresh":
		for i := 0; i < 2; i++ {
			g, err := utils.NewPRNG()
			if err != nil {
				c.fail("NewPRNG: %v", err)
			}
			b := make([]byte, 256)
			g.Clock(b)
			// an unkeyed generator is a stream of its own
			c.s.see(c.r, fmt.Sprintf("fresh %d of step %d", i, c.r.step), 0, b)
		}
	case "System":
		lo, hi := float64(a.F("lo").Int()), float64(a.F("hi").Int())
		for i := 0; i < 50; i++ {
			f, k := utils.RandFloat64(lo, hi), utils.RandComplex128(lo, hi)
			if !(f >= lo && f <= hi && real(k) >= lo && real(k) <= hi && imag(k) >= lo && imag(k) <= hi) {
				c.fail("random numbers between %v and %v: %v, %v", lo, hi, f, k)
			}
			m := big.NewInt(int64(n))
			if i%2 == 1 {
				m.Mul(m, new(big.Int).Lsh(m, 100))
			}
			if v := ring.RandInt(m); v.Sign() < 0 || v.Cmp(m) >= 0 {
				c.fail("RandInt(%v) gives %v", m, v)
			}
		}
		if lo < hi && (utils.RandFloat64(lo, hi) == utils.RandFloat64(lo, hi) && utils.RandFloat64(lo, hi) == utils.RandFloat64(lo, hi)) || utils.RandUint64() == utils.RandUint64() {
			c.fail("two random numbers are equal")
		}
	case "Sampler":
		m := a.F("sam")
		rg := c.rings[m.F("ring").Int()].rg
		g := m.F("gen").Int()
		c.sams[z] = twinSampler{newSampler(m, c.gens[g].a, rg), newSampler(m, c.gens[g].b, rg), g, m.F("kind").Int(), m.F("ring").Int(), m}
	case "Garbage":
		rg := c.rings[a.F("ring").Int()].rg
		p := twinPoly{rg.NewPolyLvl(lvl), rg.NewPolyLvl(lvl)}
		fullWords(rg, a.F("seed").Uint64(), !a.F("err").Bool(), p.a)
		fullWords(rg, a.F("seed").Uint64()+77777, !a.F("err").Bool(), p.b)
		c.pols[z] = p
	case "ReadNew", "ReadLvlNew", "Read", "ReadLvl", "ReadAndAddLvl", "ReadAndAddFromDistLvl", "ReadFromDistLvl":
		c.read(op, a, x, z, lvl, st.F("pols").List()[z])
	case "ReadQP", "RandomCt":
		c.uniformQP(op, a, z, n, lvl)
	case "Stats":
		c.stats(a, n)
	case "Far":
		c.far(a, n)
	default:
		die("samplers: unknown call %q", op)
	}
}

func (c *samCtx) read(op string, a Val, x, z, lvl int, after Val) {
	m := c.sams[x]
	ri := a.F("ring").Int()
	rg := c.rings[ri].rg
	f := a.F("sam")
	sigma, bound := float64(f.F("sg").Int())/10, f.F("bound").Int()
	add := op == "ReadAndAddLvl" || op == "ReadAndAddFromDistLvl"
	one := func(s interface{}, p *ring.Poly) (old, out *ring.Poly) {
		if p != nil {
			old = clonePoly(p)
		}
		out = p
		switch op {
		case "ReadNew":
			switch s := s.(type) {
			case *ring.UniformSampler:
				out = s.ReadNew()
			case *ring.TernarySampler:
				out = s.ReadNew()
			case *ring.GaussianSampler:
				out = s.ReadNew()
			}
		case "ReadLvlNew":
			switch s := s.(type) {
			case *ring.UniformSampler:
				out = s.ReadLvlNew(lvl)
			case *ring.TernarySampler:
				out = s.ReadLvlNew(lvl)
			case *ring.GaussianSampler:
				out = s.ReadLvlNew(lvl)
			}
		case "Read":
			s.(ring.Sampler).Read(p)
		case "ReadLvl":
			switch s := s.(type) {
			case *ring.UniformSampler:
				s.ReadLvl(lvl, p)
			case *ring.TernarySampler:
				s.ReadLvl(lvl, p)
			case *ring.GaussianSampler:
				s.ReadLvl(lvl, p)
			}
		case "ReadAndAddLvl":
			s.(*ring.GaussianSampler).ReadAndAddLvl(lvl, p)
		case "ReadAndAddFromDistLvl":
			s.(*ring.GaussianSampler).ReadAndAddFromDistLvl(lvl, p, rg, sigma, bound)
		case "ReadFromDistLvl":
			s.(*ring.GaussianSampler).ReadFromDistLvl(lvl, p, rg, sigma, bound)
		}
		return
	}
	oa, na := one(m.a, c.pols[z].a)
	ob, nb := one(m.b, c.pols[z].b)
	if op == "ReadNew" || op == "ReadLvlNew" {
		oa, ob = nil, nil
	}
	sa := c.sample(op, rg, oa, na, lvl, add)
	sb := c.sample(op, rg, ob, nb, lvl, add)
	for i := range sa {
		if !equalWords(sa[i], sb[i]) {
			c.fail("%s: two samplers of one key and one history differ modulo %d", op, rg.Modulus[i])
		}
	}
	c.pols[z] = twinPoly{na, nb}
	if m.kind == 0 && !add && len(c.gens[m.gen].a.edges) == 0 {
		if n := wordPairs(rg, &ring.Poly{Coeffs: na.Coeffs[:lvl+1]}, map[uint64]bool{}); n > 0 {
			c.fail("%s: %d pairs of neighbouring words of one uniform sample were already seen in it", op, n)
		}
	}
	// the integer polynomial behind the sample
	if m.kind != 0 || add {
		mont := m.spec.F("mont").Bool()
		if mont {
			for i := range sa {
				for j := range sa[i] {
					sa[i][j] = ring.InvMForm(sa[i][j], rg.Modulus[i], rg.MredParams[i])
				}
			}
		}
		norm := a.F("norm").Big()
		v := c.small(op, rg, sa, norm)
		if m.kind == 2 && v != nil {
			w := 0
			for _, y := range v {
				if y.Sign() != 0 {
					w++
				}
			}
			want := m.spec.F("hw").Int()
			if want > rg.N {
				want = rg.N
			}
			if w != want {
				c.fail("%s: %d coefficients of a sample of weight %d are not zero", op, w, want)
			}
		}
	}
	// the bound on what the register holds now
	if norm := after.F("norm").Big(); norm.Sign() >= 0 && lvl == len(na.Coeffs)-1 {
		c.small(op+" (accumulated)", rg, na.Coeffs, norm)
	}
}

// sample checks the words of a receiver and gives the words sampled.
func (c *samCtx) sample(op string, rg *ring.Ring, old, p *ring.Poly, lvl int, add bool) [][]uint64 {
	if old == nil && len(p.Coeffs) != lvl+1 || old != nil && len(p.Coeffs) != len(old.Coeffs) {
		c.fail("%s at level %d gives %d limbs", op, lvl, len(p.Coeffs))
	}
	if p.IsNTT || p.IsMForm {
		c.fail("%s marks the polynomial", op)
	}
	out := make([][]uint64, lvl+1)
	for i := range p.Coeffs {
		q := uint64(0)
		if i <= lvl {
			q = rg.Modulus[i]
			out[i] = make([]uint64, rg.N)
		}
		if len(p.Coeffs[i]) != rg.N {
			c.fail("%s gives %d coefficients", op, len(p.Coeffs[i]))
		}
		for j, w := range p.Coeffs[i] {
			if i > lvl {
				if w != old.Coeffs[i][j] {
					c.fail("%s at level %d changes modulus %d", op, lvl, i)
				}
				continue
			}
			if w >= q {
				c.fail("%s gives %d modulo %d (coefficient %d)", op, w, q, j)
			}
			out[i][j] = w
			if add {
				out[i][j] = submod(w, old.Coeffs[i][j], q)
			}
		}
	}
	return out
}

// small reconstructs the integer polynomial, when the moduli determine it, and checks its bound.
func (c *samCtx) small(op string, rg *ring.Ring, v [][]uint64, norm *big.Int) []*big.Int {
	Q := big.NewInt(1)
	for i := range v {
		Q.Mul(Q, new(big.Int).SetUint64(rg.Modulus[i]))
	}
	if new(big.Int).Lsh(norm, 1).Cmp(Q) >= 0 {
		return nil
	}
	basis := make([]*big.Int, len(v))
	for i := range v {
		q := new(big.Int).SetUint64(rg.Modulus[i])
		h := new(big.Int).Quo(Q, q)
		basis[i] = h.Mul(h, new(big.Int).ModInverse(new(big.Int).Mod(h, q), q))
	}
	out := make([]*big.Int, rg.N)
	half := new(big.Int).Rsh(Q, 1)
	for j := range out {
		x := new(big.Int)
		for i := range v {
			x.Add(x, new(big.Int).Mul(basis[i], new(big.Int).SetUint64(v[i][j])))
		}
		x.Mod(x, Q)
		if x.Cmp(half) > 0 {
			x.Sub(x, Q)
		}
		if x.CmpAbs(norm) > 0 {
			c.fail("%s: coefficient %d is %v, beyond %v (modulo %d primes)", op, j, x, norm, len(v))
		}
		out[j] = x
	}
	return out
}

func (c *samCtx) uniformQP(op string, a Val, z, n, lvl int) {
	ri := a.F("ring").Int()
	params := c.rings[ri].params
	g := c.gens[z]
	reduced := func(what string, p *ring.Poly, rg *ring.Ring, k int) {
		if len(p.Coeffs) != k {
			c.fail("%s has %d limbs, expected %d", what, len(p.Coeffs), k)
		}
		for i := range p.Coeffs {
			for _, w := range p.Coeffs[i] {
				if w >= rg.Modulus[i] {
					c.fail("%s: %d modulo %d", what, w, rg.Modulus[i])
				}
			}
		}
	}
	if op == "ReadQP" {
		pa, pb := params.RingQP().NewPoly(), params.RingQP().NewPoly()
		for _, p := range []rlwe.PolyQP{pa, pb} {
			fullWords(params.RingQ(), uint64(z), false, p.Q)
			if p.P != nil {
				fullWords(params.RingP(), uint64(z), false, p.P)
			}
		}
		rlwe.NewUniformSamplerQP(params, g.a).Read(&pa)
		rlwe.NewUniformSamplerQP(params, g.b).Read(&pb)
		reduced("a sample modulo Q", pa.Q, params.RingQ(), params.QCount())
		if params.PCount() > 0 {
			reduced("a sample modulo P", pa.P, params.RingP(), params.PCount())
			if !samePoly(pa.P, pb.P) {
				c.fail("equal generators give different samples modulo P")
			}
		}
		if !samePoly(pa.Q, pb.Q) {
			c.fail("equal generators give different samples modulo Q")
		}
		return
	}
	var x, y *rlwe.Ciphertext
	switch a.F("hi").Int() {
	case 0:
		x, y = rlwe.NewCiphertextRandom(g.a, params, n, lvl), rlwe.NewCiphertextRandom(g.b, params, n, lvl)
	case 1:
		x, y = rlwe.NewCiphertextNTT(params, n, lvl), rlwe.NewCiphertextNTT(params, n, lvl)
		rlwe.PopulateElementRandom(g.a, params, x)
		rlwe.PopulateElementRandom(g.b, params, y)
	case 2:
		cp, err := ckks.NewParameters(params, params.LogN()-1, 1<<30)
		if err != nil {
			c.fail("%v", err)
		}
		u, v := ckks.NewCiphertextRandom(g.a, cp, n, lvl, 12345), ckks.NewCiphertextRandom(g.b, cp, n, lvl, 12345)
		if u.Scale != 12345 {
			c.fail("a random ciphertext of scale 12345 has scale %v", u.Scale)
		}
		x, y = u.Ciphertext, v.Ciphertext
	}
	if len(x.Value) != n+1 || len(y.Value) != n+1 {
		c.fail("a random ciphertext of degree %d has degree %d", n, len(x.Value)-1)
	}
	for i := range x.Value {
		reduced("a random ciphertext", x.Value[i], params.RingQ(), lvl+1)
		if !samePoly(x.Value[i], y.Value[i]) {
			c.fail("equal generators give different ciphertexts")
		}
		for j := 0; j < i; j++ {
			if samePoly(x.Value[i], x.Value[j]) {
				c.fail("parts %d and %d of a random ciphertext are equal", j, i)
			}
		}
	}
}

func samePoly(a, b *ring.Poly) bool {
	if len(a.Coeffs) != len(b.Coeffs) {
		return false
	}
	for i := range a.Coeffs {
		if !equalWords(a.Coeffs[i], b.Coeffs[i]) {
			return false
		}
	}
	return true
}

// anyRead draws a sample of the whole ring by one of the entry points.
func anyRead(s ring.Sampler, pol *ring.Poly, k int) *ring.Poly {
	lvl := len(pol.Coeffs) - 1
	switch k % 4 {
	case 0:
		s.Read(pol)
	case 1:
		switch s := s.(type) {
		case *ring.UniformSampler:
			s.ReadLvl(lvl, pol)
		case *ring.TernarySampler:
			s.ReadLvl(lvl, pol)
		case *ring.GaussianSampler:
			s.ReadLvl(lvl, pol)
		}
	case 2:
		switch s := s.(type) {
		case *ring.UniformSampler:
			return s.ReadNew()
		case *ring.TernarySampler:
			return s.ReadNew()
		case *ring.GaussianSampler:
			return s.ReadNew()
		}
	case 3:
		switch s := s.(type) {
		case *ring.UniformSampler:
			return s.ReadLvlNew(lvl)
		case *ring.TernarySampler:
			return s.ReadLvlNew(lvl)
		case *ring.GaussianSampler:
			return s.ReadLvlNew(lvl)
		}
	}
	return pol
}

// wordPairs counts the neighbouring words of a uniform sample whose low bits were already seen, under any modulus:
// the masks keep low bits, so random bytes used twice show there.
func wordPairs(rg *ring.Ring, p *ring.Poly, used map[uint64]bool) (n int64) {
	for i, l := range p.Coeffs {
		if rg.Modulus[i]>>29 == 0 {
			continue
		}
		for j := 0; j+1 < len(l); j++ {
			k := l[j]&(1<<29-1)<<29 | l[j+1]&(1<<29-1)
			if used[k] {
				n++
			}
			used[k] = true
		}
	}
	return
}

// far counts the coefficients beyond some deviations in a large sample
func (c *samCtx) far(a Val, count int) {
	m := a.F("sam")
	rg := c.rings[m.F("ring").Int()].rg
	g, err := utils.NewKeyedPRNG([]byte(keyOf(a.F("gen"))))
	if err != nil {
		c.fail("no generator: %v", err)
	}
	s := newSampler(m, g, rg).(ring.Sampler)
	limb := 0
	for i, q := range rg.Modulus {
		if q > rg.Modulus[limb] {
			limb = i
		}
	}
	q := rg.Modulus[limb]
	if m.F("kind").Int() == 1 {
		c.farSigns(a, m, count, s, rg, limb)
		return
	}
	sg := uint64(m.F("sg").Int())
	stats := a.F("stats").List()
	beyond, at := make([]int64, len(stats)), make([]uint64, len(stats))
	repeated := -1
	for i, st := range stats {
		if st.F("name").Str() == "repeated" {
			repeated = i
			at[i] = math.MaxUint64
			continue
		}
		k, err := strconv.Atoi(st.F("name").Str()[6:])
		if err != nil {
			die("samplers: unknown statistic %q", st.F("name").Str())
		}
		at[i] = uint64(k) * sg / 100 // k in tenths of a deviation, sg in tenths
	}
	pol := rg.NewPoly()
	flat := make([]int64, 0, count*rg.N)
	for k := 0; k < count; k++ {
		s.Read(pol)
		for _, w := range pol.Coeffs[limb] {
			flat = append(flat, int64(w))
			if w > q/2 {
				w = q - w
			}
			for i := range at {
				if w > at[i] {
					beyond[i]++
				}
			}
		}
	}
	if repeated >= 0 {
		beyond[repeated] = repeatedRuns(flat)
	}
	for i, st := range stats {
		c.statistic(m, count, st.F("name").Str(), big.NewInt(beyond[i]), st)
	}
}

// farSigns: the counts of zeros, of signs and of neighbours in a large ternary sample
func (c *samCtx) farSigns(a, m Val, count int, s ring.Sampler, rg *ring.Ring, limb int) {
	q := rg.Modulus[limb]
	one := uint64(1)
	if m.F("mont").Bool() {
		one = ring.MForm(1, q, rg.BredParams[limb])
	}
	pol := rg.NewPoly()
	var zeros, sum, pairs, signNext, nextSign, signSign int64
	first, prev := int64(2), int64(0)
	next := func(x, y int64) {
		pairs += x * x * y * y
		signNext += x * y * y
		nextSign += x * x * y
		signSign += x * y
	}
	for k := 0; k < count; k++ {
		s.Read(pol)
		for _, w := range pol.Coeffs[limb] {
			x := int64(0)
			switch w {
			case one:
				x = 1
			case q - one:
				x = -1
			case 0:
				zeros++
			default:
				c.fail("a ternary sample has the word %d modulo %d", w, q)
			}
			sum += x
			if first == 2 {
				first = x
			} else {
				next(prev, x)
			}
			prev = x
		}
	}
	next(prev, first)
	got := map[string]int64{"zeros": zeros, "sum": sum, "pairs": pairs, "signNext": signNext, "nextSign": nextSign, "signSign": signSign}
	for _, st := range a.F("stats").List() {
		c.statistic(m, count, st.F("name").Str(), big.NewInt(got[st.F("name").Str()]), st)
	}
}

func (c *samCtx) statistic(m Val, count int, name string, got *big.Int, st Val) {
	e, v, d := st.F("e").Big(), st.F("v").Big(), st.F("d").Big()
	dev := new(big.Int).Sub(new(big.Int).Mul(got, d), e)
	lim := new(big.Int).Mul(big.NewInt(49), new(big.Int).Mul(v, d))
	z := 0.0
	if v.Sign() > 0 {
		x, _ := new(big.Float).SetInt(new(big.Int).Mul(dev, dev)).Float64()
		y, _ := new(big.Float).SetInt(new(big.Int).Mul(v, d)).Float64()
		z = math.Sqrt(x / y)
	}
	c.r.Note("largest deviation", z)
	c.r.Count(1)
	if new(big.Int).Mul(dev, dev).Cmp(lim) > 0 {
		c.fail("%d samples of %s: %s is %v, expected %v/%v (%.1f standard deviations)", count, m.JSON(), name, got, e, d, z)
	}
}

func (c *samCtx) stats(a Val, count int) {
	m := a.F("sam")
	rg := c.rings[m.F("ring").Int()].rg
	p := c.newProbe(keyOf(a.F("gen")), nil)
	s := newSampler(m, p, rg).(ring.Sampler)
	kind := m.F("kind").Int()
	limbs := len(rg.Modulus)
	N := rg.N
	vals := make([][]int64, 0, count) // centered modulo the first prime that is large enough
	limb := 0
	for i, q := range rg.Modulus {
		if q > rg.Modulus[limb] {
			limb = i
		}
	}
	q := rg.Modulus[limb]
	raw := make([][]uint64, limbs)
	pol := rg.NewPoly()
	used := map[uint64]bool{}
	var reused int64
	for k := 0; k < count; k++ {
		pol = anyRead(s, pol, k)
		if kind == 0 {
			reused += wordPairs(rg, pol, used)
		}
		if kind == 0 {
			for i := range raw {
				raw[i] = append(raw[i], pol.Coeffs[i]...)
			}
			continue
		}
		v := make([]int64, N)
		for j, w := range pol.Coeffs[limb] {
			if m.F("mont").Bool() {
				w = ring.InvMForm(w, q, rg.MredParams[limb])
			}
			v[j] = int64(w)
			if w > q/2 {
				v[j] -= int64(q)
			}
		}
		vals = append(vals, v)
	}
	check := func(name string, got *big.Int, st Val) { c.statistic(m, count, name, got, st) }
	if kind == 0 {
		for i := range raw {
			x, qi := raw[i], rg.Modulus[i]
			top, low := make([]int64, 8), make([]int64, 8)
			var ups, nextTop, limbsEq, repeats int64
			topOf := func(w, q uint64) int {
				return int(new(big.Int).Quo(new(big.Int).Lsh(new(big.Int).SetUint64(w), 3), new(big.Int).SetUint64(q)).Int64())
			}
			seen := map[uint64]bool{}
			i2 := (i + 1) % limbs
			tops := make([]int, len(x))
			for j, w := range x {
				tops[j] = topOf(w, qi)
				top[tops[j]]++
				low[w%8]++
				if tops[j] == topOf(raw[i2][j], rg.Modulus[i2]) {
					limbsEq++
				}
				if qi > 1<<55 && seen[w] {
					repeats++
				}
				seen[w] = true
			}
			for j, w := range x {
				k := (j + 1) % len(x)
				if w < x[k] {
					ups++
				}
				if tops[j] == tops[k] {
					nextTop++
				}
			}
			for _, st := range a.F("stats").List() {
				name := st.F("name").Str()
				var got int64
				switch {
				case name == "ups":
					got = ups
				case name == "repeats":
					got = repeats
				case name == "reused":
					got = reused
				case name == "limbs":
					got = limbsEq
				case name == "nextTop":
					got = nextTop
				case name[:3] == "top":
					got = top[name[3]-'0']
				default:
					got = low[name[3]-'0']
				}
				check(name, big.NewInt(got), st)
			}
		}
		return
	}
	flat := make([]int64, 0, count*N)
	for _, v := range vals {
		flat = append(flat, v...)
	}
	sgn := func(x int64) int64 {
		if x > 0 {
			return 1
		} else if x < 0 {
			return -1
		}
		return 0
	}
	abs := func(x int64) int64 { return x * sgn(x) }
	total := func(f func(i int, x, next int64) int64) *big.Int {
		t := new(big.Int)
		for i, x := range flat {
			t.Add(t, big.NewInt(f(i, x, flat[(i+1)%len(flat)])))
		}
		return t
	}
	sg := m.F("sg").Int()
	for _, st := range a.F("stats").List() {
		name := st.F("name").Str()
		var got *big.Int
		switch name {
		case "zeros":
			got = total(func(_ int, x, _ int64) int64 { return 1 - abs(sgn(x)) })
		case "sum":
			got = total(func(_ int, x, _ int64) int64 { return x })
		case "pairs":
			got = total(func(_ int, x, y int64) int64 { return abs(sgn(x)) * abs(sgn(y)) })
		case "signNext":
			got = total(func(_ int, x, y int64) int64 { return sgn(x) * abs(sgn(y)) })
		case "nextSign":
			got = total(func(_ int, x, y int64) int64 { return abs(sgn(x)) * sgn(y) })
		case "signSign":
			got = total(func(_ int, x, y int64) int64 { return sgn(x) * sgn(y) })
		case "signs":
			got = total(func(_ int, x, _ int64) int64 { return sgn(x) })
		case "firstHalf":
			got = total(func(i int, x, _ int64) int64 { return abs(sgn(x)) * int64(1-i%N/(N/2)) })
		case "even":
			got = total(func(i int, x, _ int64) int64 { return abs(sgn(x)) * int64(1-i%2) })
		case "quarter":
			got = total(func(i int, x, _ int64) int64 {
				if k := i % N; k >= N/4 && k < N/2 {
					return abs(sgn(x))
				}
				return 0
			})
		case "sumSquares":
			got = new(big.Int)
			for _, v := range vals {
				t := int64(0)
				for _, x := range v {
					t += sgn(x)
				}
				got.Add(got, big.NewInt(t*t))
			}
		case "repeated":
			got = big.NewInt(repeatedRuns(flat))
		case "squares":
			got = new(big.Int)
			for _, x := range flat {
				b := big.NewInt(x)
				got.Add(got, b.Mul(b, b))
			}
		case "prodNext":
			got = new(big.Int)
			for i, x := range flat {
				b := big.NewInt(x)
				got.Add(got, b.Mul(b, big.NewInt(flat[(i+1)%len(flat)])))
			}
		case "beyond1", "beyond2", "beyond3":
			k := int64(name[6] - '0')
			got = total(func(_ int, x, _ int64) int64 {
				if 10*abs(x) > k*int64(sg) {
					return 1
				}
				return 0
			})
		default:
			die("samplers: unknown statistic %q", name)
		}
		check(name, got, st)
	}
}

// repeatedRuns counts the runs of coefficients that come a second time although, with the frequencies of the sample,
// they are as unlikely as 90 coins falling the same way
func repeatedRuns(flat []int64) (n int64) {
	freq := map[int64]int{}
	for _, x := range flat {
		freq[x]++
	}
	surprise := make(map[int64]float64, len(freq))
	for x, k := range freq {
		surprise[x] = math.Log2(float64(len(flat)) / float64(k))
	}
	const base = 0x9E3779B97F4A7C15
	seen := map[[2]uint64]bool{}
	var h, pow uint64 = 0, 1 // hash of flat[i:j], base^(j-i)
	mix := func(x int64) uint64 { return (uint64(x) + 12345) * 0xD1342543DE82EF95 }
	inv := uint64(1) // inverse of base modulo 2^64
	for k := 0; k < 6; k++ {
		inv *= 2 - base*inv
	}
	s, j := 0.0, 0
	for i := range flat {
		for j < len(flat) && s < 90 {
			h = h*base + mix(flat[j])
			pow *= base
			s += surprise[flat[j]]
			j++
		}
		if s < 90 {
			break
		}
		k := [2]uint64{h, uint64(j - i)}
		if seen[k] {
			n++
		}
		seen[k] = true
		pow *= inv
		h -= mix(flat[i]) * pow
		s -= surprise[flat[i]]
	}
	return
}
