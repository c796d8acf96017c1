package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["fast"] = replayFast }

type fastCtx struct {
	*rlweCtx
	fp   fckks.Parameters
	rp   frlwe.Parameters
	kgen *frlwe.KeyGenerator
	ks   *frlwe.KeySwitcher
	eval *fckks.Evaluator
	emb  *embedding
	gap  int
	crtT *crtBasis

	fresh   *fckks.Evaluator // asked nothing else
	freshKs *frlwe.KeySwitcher
}

var fastCache *fastCtx

func getFastCtx(r *R) *fastCtx {
	if fastCache != nil {
		return fastCache
	}
	c := &fastCtx{rlweCtx: &rlweCtx{masks: map[uint64]bool{}, sts: map[string]*stats{}, freq: map[float64]*[2]int{}, rng: rand.New(rand.NewSource(r.seed))}}
	c.sigma, c.bound = rlwe.DefaultSigma, int64(r.cfg.Int("BOUND", 19))
	c.up = r.cfg.Int("LIFT", 1)
	n, logN := r.cfg.Int("N", 16)*c.up, 0
	for 1<<logN < n {
		logN++
	}
	qs, ps, ts := r.cfg.Uints("QS"), r.cfg.Uints("PS"), r.cfg.Uints("TS")
	c.fp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: logN, Q: qs, P: ps, T: ts, Sigma: c.sigma, LogSlots: r.cfg.Int("LOGSLOTS", 3),
		DefaultScale: math.Exp2(float64(r.cfg.Int("LOGSCALE", 40))), H: r.cfg.Int("HW", 8), Gamma: r.cfg.Int("GAMMA", 1)})
	c.rp = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, Q: qs, P: ps, T: ts, Sigma: c.sigma, H: r.cfg.Int("HW", 8), Gamma: r.cfg.Int("GAMMA", 1)})
	c.p[0], c.ok[0] = c.fp.Parameters.Parameters, true
	c.cp = c.fp.Parameters
	for l := range qs {
		c.crt = append(c.crt, newCRT(qs[:l+1]))
	}
	c.crtT = newCRT(ts)
	c.kgen = fckks.NewKeyGenerator(c.fp)
	c.ks = frlwe.NewKeySwitcher(c.rp)
	c.eval = fckks.NewEvaluator(c.fp)
	c.emb = newEmbedding(c.fp.Slots(), false)
	c.gap = n / c.emb.size()
	fastCache = c
	return c
}

type fastRun struct {
	*rlweRun
	f    *fastCtx
	enc  map[int]*fckks.Encryptor
	dec  map[string]*fckks.Decryptor
	fpk  map[int]*rlwe.PublicKey
	frlk map[int]*frlwe.RelinKey
	frtk map[string]*frlwe.RotationKey
}

func (c *fastRun) gal(key, g int) []int64 {
	s := c.secs[key]
	n := len(s)
	out := make([]int64, n)
	for i, x := range s {
		k := i * g % (2 * n)
		if k < n {
			out[k] = x
		} else {
			out[k-n] = -x
		}
	}
	return out
}

func (c *fastRun) pkOf(key int) *rlwe.PublicKey {
	if c.fpk[key] == nil {
		c.fpk[key] = c.f.kgen.KeyGenerator.GenPublicKey(c.sks[key])
	}
	return c.fpk[key]
}
func (c *fastRun) rlkOf(key int) *frlwe.RelinKey {
	if c.frlk[key] == nil {
		c.frlk[key] = c.f.kgen.GenRelinKey(c.sks[key])
	}
	return c.frlk[key]
}
func (c *fastRun) rtkOf(key, k int) *frlwe.RotationKey {
	id := fmt.Sprint(key, " ", k)
	if c.frtk[id] == nil {
		c.frtk[id] = c.f.kgen.GenRotKey(k, c.sks[key])
	}
	return c.frtk[id]
}
func (c *fastRun) encOf(key int) *fckks.Encryptor {
	if c.enc[key] == nil {
		c.enc[key] = fckks.NewEncryptor(c.f.fp, c.pkOf(key))
	}
	return c.enc[key]
}
func (c *fastRun) decOf(key, g int) *fckks.Decryptor {
	id := fmt.Sprint(key, " ", g)
	if c.dec[id] == nil {
		lp := c.p[0].PCount() - 1
		c.dec[id] = fckks.NewDecryptor(c.f.fp, c.makeSk(0, c.gal(key, g), c.p[0].MaxLevel(), lp))
	}
	return c.dec[id]
}

func (c *fastRun) scaleOk(props string, got float64, sc Val, what string) {
	w, _ := new(big.Float).SetInt(sc.Big()).Float64()
	w /= math.Exp2(64)
	if math.Abs(got-w) > 1e-12*w {
		c.r.FailFor(props, "%s has scale %v, must be %v", what, got, w)
	}
}

func (c *fastRun) checkFast(props string, i int, e Val) {
	r := c.r
	ct := c.cts[i]
	lvl, deg := e.F("lvl").Int(), e.F("deg").Int()
	rg := c.p[0].RingQ()
	r.Count(4)
	if ct.Degree() != deg {
		r.FailFor(props, "the ciphertext has degree %d, must be %d", ct.Degree(), deg)
	}
	for u, p := range ct.Value {
		if p.Level() != lvl {
			r.FailFor(props, "component %d of the ciphertext is at level %d, must be %d", u, p.Level(), lvl)
		}
		if p.IsNTT != e.F("ntt").Bool() {
			r.FailFor(props, "component %d of the ciphertext has IsNTT=%v, must be %v", u, p.IsNTT, e.F("ntt").Bool())
		}
		for j := range p.Coeffs {
			for _, x := range p.Coeffs[j] {
				if x > rg.Modulus[j] {
					r.FailFor(props, "component %d of the ciphertext holds the word %d above its modulus %d", u, x, rg.Modulus[j])
				}
			}
		}
	}
	c.scaleOk(props, ct.Scale, e.F("sc"), "the ciphertext")
	if e.F("junk").Bool() {
		return
	}
	ph := phase(rg, lvl, ct.Value, c.gal(e.F("key").Int(), e.F("g").Int()), false)
	d, _ := c.diffs(lvl, ph, c.bigs(e.F("m").Bigs()))
	r.Count(rg.N)
	if d.Cmp(e.F("err").Big()) > 0 {
		r.FailFor(props, "the ciphertext (level %d) decrypts to a message that is off by %v (bound %v)", lvl, d, e.F("err").Big())
	}
}

// keyT reads a key of the auxiliary ring back into rows over Q and P
func (c *fastRun) keyT(props string, swk *frlwe.SwitchingKey) []rlwe.PolyQP {
	r := c.r
	rt := c.f.rp.RingT()
	rq, rp := c.p[0].RingQ(), c.p[0].RingP()
	lq, lp := c.p[0].MaxLevel(), c.p[0].PCount()-1
	gamma := c.f.rp.Gamma()
	mods := append(append([]uint64{}, rp.Modulus...), rq.Modulus...)
	var rows []rlwe.PolyQP
	if want := (lq + 1 + lp) / (lp + 1); len(swk.Value) != want {
		r.FailFor(props, "the key has %d rows, must be %d", len(swk.Value), want)
	}
	q, t := new(big.Int), new(big.Int)
	for i, row := range swk.Value {
		v := c.p[0].RingQP().NewPoly()
		if want := (len(mods) + gamma - 1) / gamma; len(row) != want {
			r.FailFor(props, "row %d of the key has %d blocks, must be %d", i, len(row), want)
		}
		for j, p := range row {
			u := copyPoly(p)
			R := big.NewInt(1)
			for k := j * gamma; k < (j+1)*gamma && k < len(mods); k++ {
				R.Mul(R, q.SetUint64(mods[k]))
			}
			R.Lsh(R, 1)
			for l, m := range rt.Modulus {
				for _, x := range u.Coeffs[l] {
					if x >= m {
						r.FailFor(props, "block %d of row %d of the key holds a word that is not reduced", j, i)
					}
				}
				ring.InvMFormVec(u.Coeffs[l], u.Coeffs[l], m, rt.MredParams[l])
				rt.InvNTTSingle(l, u.Coeffs[l], u.Coeffs[l])
			}
			for k := 0; k < rt.N; k++ {
				x := c.f.crtT.get(u.Coeffs, k)
				r.Count(1)
				if x.Cmp(R) >= 0 {
					r.FailFor(props, "block %d of row %d of the key stands for an integer above twice the moduli of the block", j, i)
				}
				for m := j * gamma; m < (j+1)*gamma && m < len(mods); m++ {
					w := t.Mod(x, q.SetUint64(mods[m])).Uint64()
					if m <= lp {
						v.P.Coeffs[m][k] = w
					} else {
						v.Q.Coeffs[m-lp-1][k] = w
					}
				}
			}
		}
		rq.NTT(v.Q, v.Q)
		rq.MForm(v.Q, v.Q)
		rp.NTT(v.P, v.P)
		rp.MForm(v.P, v.P)
		rows = append(rows, v)
	}
	return rows
}

func (c *fastRun) checkKey(props string, swk [2]*frlwe.SwitchingKey, sin, sout []int64) {
	rq, rp := c.p[0].RingQ(), c.p[0].RingP()
	lq, lp := c.p[0].MaxLevel(), c.p[0].PCount()-1
	b, a := c.keyT(props, swk[0]), c.keyT(props, swk[1])
	P := big.NewInt(1)
	for _, p := range rp.Modulus {
		P.Mul(P, new(big.Int).SetUint64(p))
	}
	for i := range b {
		fac := make([]*big.Int, lq+lp+2)
		for j := range fac {
			fac[j] = new(big.Int)
			if j <= lq && j/(lp+1) == i {
				fac[j].Set(P)
			}
		}
		c.rowCheck(props, fmt.Sprintf("row %d of the key", i), [2]rlwe.PolyQP{b[i], a[i]}, lq, lp, sout, sin, fac, rq, rp)
	}
}

// refused: a request that cannot be carried out is refused and changes nothing
func (c *fastRun) refused(a Val, rg *ring.Ring, x, y, z, key, rot int, nw bool) {
	r, ev := c.r, c.f.eval
	rlk, rtk := c.rlkOf(key), c.rtkOf(key, rot)
	in, o0, o1 := ring.NewPoly(rg.N, a.F("lvl").Int()+1), rg.NewPoly(), rg.NewPoly()
	for _, p := range []*ring.Poly{in, o0, o1} {
		for l := range p.Coeffs {
			for k := range p.Coeffs[l] {
				p.Coeffs[l][k] = c.rng.Uint64() % rg.Modulus[l]
			}
		}
	}
	in.IsNTT = true
	state := func() []uint64 {
		h := append(c.hashes(), hashFastKey(rlk.Value), hashFastKey(rtk.Value), hashPolys(in), hashPolys(o0), hashPolys(o1))
		for _, ct := range c.cts {
			h = append(h, uint64(ct.Level()), uint64(ct.Degree()), math.Float64bits(ct.Scale))
			for _, p := range ct.Value {
				f := uint64(0)
				if p.IsNTT {
					f = 1
				}
				h = append(h, f)
			}
		}
		return h
	}
	h0 := state()
	p0, p1 := ckks.Operand(c.pts[0]), ckks.Operand(c.pts[1])
	why := a.F("kind").Int()
	err := attempt(func() error {
		switch {
		case (why == 1 || why == 4) && nw:
			ev.MulRelinNew(c.cts[x], c.cts[y], rlk)
		case why == 1 || why == 4:
			ev.MulRelin(c.cts[x], c.cts[y], rlk, c.cts[z])
		case why == 2 && nw:
			ev.RotateNew(c.cts[x], rtk)
		case why == 2:
			ev.Rotate(c.cts[x], rtk, c.cts[z])
		case why == 3 && nw:
			ev.SwitchKeysNew(c.cts[x], rtk.Value)
		case why == 3:
			ev.SwitchKeys(c.cts[x], rtk.Value, c.cts[z])
		case why == 5:
			c.f.ks.SwitchKey(in.Level(), in, rlk.Value[0], rlk.Value[1], o0, o1)
		case a.F("dirty").Bool() && nw:
			ev.AddNew(p0, p1)
		case a.F("dirty").Bool():
			ev.Add(p0, p1, c.cts[z])
		case nw:
			ev.SubNew(p0, p1)
		default:
			ev.Sub(p0, p1, c.cts[z])
		}
		return nil
	})
	if err == nil {
		r.FailFor("E01", "the request is not refused (reason %d)", why)
	}
	h1 := state()
	r.Count(1 + len(h0))
	for k := range h0 {
		if h0[k] != h1[k] {
			r.FailFor("E01", "the request is refused (%v) but has changed an operand or a key (%d)", err, k)
		}
	}
	// the evaluator works as before
	if c.f.fresh == nil {
		c.f.fresh, c.f.freshKs = fckks.NewEvaluator(c.f.fp), frlwe.NewKeySwitcher(c.f.rp)
	}
	probe := func(e *fckks.Evaluator, ks *frlwe.KeySwitcher) []uint64 {
		ct := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{Value: []*ring.Poly{clonePoly(o0), clonePoly(o1)}}, Scale: 3}
		ct.Value[0].IsNTT, ct.Value[1].IsNTT = true, true
		m, t := e.MulRelinNew(ct, ct, rlk), e.RotateNew(ct, rtk)
		u, v := rg.NewPoly(), rg.NewPoly()
		ks.SwitchKey(o0.Level(), o0, rtk.Value[0], rtk.Value[1], u, v)
		return []uint64{hashPolys(m.Value...), hashPolys(t.Value...), hashPolys(u, v)}
	}
	w, g := probe(c.f.fresh, c.f.freshKs), probe(ev, c.f.ks)
	for k := range w {
		r.Count(1)
		if w[k] != g[k] {
			r.FailFor("E01", "after a refused request (%v) the evaluator gives another result (call %d of the probe)", err, k)
		}
	}
}

func (c *fastRun) keyHashes() []uint64 {
	h := []uint64{}
	one := func(s [2]*frlwe.SwitchingKey) {
		for _, k := range s {
			for _, row := range k.Value {
				h = append(h, hashPolys(row...))
			}
		}
	}
	for k := 0; k < len(c.secs); k++ {
		if c.frlk[k] != nil {
			one(c.frlk[k].Value)
		}
	}
	return h
}

func hashFastKey(s [2]*frlwe.SwitchingKey) uint64 {
	ps := []*ring.Poly{}
	for _, k := range s {
		for _, row := range k.Value {
			ps = append(ps, row...)
		}
	}
	return hashPolys(ps...)
}

func replayFast(r *R, t *Trace) {
	f := getFastCtx(r)
	c := &fastRun{rlweRun: &rlweRun{rlweCtx: f.rlweCtx, r: r}, f: f, enc: map[int]*fckks.Encryptor{}, dec: map[string]*fckks.Decryptor{},
		fpk: map[int]*rlwe.PublicKey{}, frlk: map[int]*frlwe.RelinKey{}, frtk: map[string]*frlwe.RotationKey{}}
	s0 := t.States[0]
	lp := c.p[0].PCount() - 1
	for _, v := range s0.F("secs").List() {
		c.secs = append(c.secs, c.smalls(ints64(v)))
		c.sdim = append(c.sdim, 0)
		c.sks = append(c.sks, c.makeSk(0, c.secs[len(c.secs)-1], c.p[0].MaxLevel(), lp))
	}
	rg := c.p[0].RingQ()
	toF := func(sc Val) float64 {
		w, _ := new(big.Float).SetInt(sc.Big()).Float64()
		return w / math.Exp2(64)
	}
	loadCt := func(e Val) *ckks.Ciphertext {
		ct := c.encryptRaw(0, e.F("lvl").Int(), e.F("deg").Int(), e.F("ntt").Bool(), c.bigs(e.F("m").Bigs()), e.F("key").Int())
		ct.Scale = toF(e.F("sc"))
		return ct
	}
	loadPoly := func(m []*big.Int, lvl int) *ring.Poly {
		p := ring.NewPoly(rg.N, lvl+1)
		q, t := new(big.Int), new(big.Int)
		for k, x := range c.bigs(m) {
			for i := 0; i <= lvl; i++ {
				p.Coeffs[i][k] = t.Mod(x, q.SetUint64(rg.Modulus[i])).Uint64()
			}
		}
		return p
	}
	loadPt := func(e Val) *ckks.Plaintext {
		lvl := e.F("lvl").Int()
		p := loadPoly(e.F("m").Bigs(), lvl)
		if e.F("ntt").Bool() {
			rg.NTTLvl(lvl, p, p)
			p.IsNTT = true
		}
		return &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p}, Scale: toF(e.F("sc"))}
	}
	for _, e := range s0.F("cts").List() {
		c.cts = append(c.cts, loadCt(e))
	}
	for _, e := range s0.F("pts").List() {
		c.pts = append(c.pts, loadPt(e))
	}
	for i := 1; i < len(t.States); i++ {
		st := t.States[i]
		a := st.F("act")
		op := a.F("op").Str()
		if op == "Idle" {
			continue
		}
		cts, pts, aux := st.F("cts").List(), st.F("pts").List(), st.F("aux")
		x, y, z, p, key, g, rot, nw := a.F("x").Int(), a.F("y").Int(), a.F("z").Int(), a.F("p").Int(), a.F("key").Int(), a.F("g").Int(), a.F("rot").Int(), a.F("new").Bool()
		if op == "LoadCt" {
			r.Step(i, "Load", "load")
			c.cts[z] = loadCt(cts[z])
			continue
		}
		if op == "LoadPt" {
			r.Step(i, "Load", "load")
			c.pts[p] = loadPt(pts[p])
			continue
		}
		desc := fmt.Sprintf("%s %s", op, a.JSON())
		if op != "SwitchPoly" && op != "GenKey" && op != "GenSkPk" {
			desc += fmt.Sprintf(" levels %d %d %d", c.cts[x].Level(), c.cts[y].Level(), c.cts[z].Level())
		}
		r.Step(i, op, desc)
		if op == "Refuse" {
			c.refused(a, rg, x, y, z, key, rot, nw)
			continue
		}
		before := c.hashes()
		tz, tp := -1, -1
		switch op {
		case "EncryptMsg":
			tz = z
			m := c.bigs(aux.F("m").Bigs())
			sub := make([]*big.Int, c.f.emb.size())
			for k := range sub {
				sub[k] = m[k*c.f.gap]
			}
			re, im := c.f.emb.decode(sub)
			msg := fckks.NewMessage(c.f.fp)
			for k := range re {
				u, _ := re[k].Float64()
				v, _ := im[k].Float64()
				msg.Value[k] = complex(u/c.f.fp.DefaultScale(), v/c.f.fp.DefaultScale())
			}
			keep := append([]complex128{}, msg.Value...)
			if nw {
				c.cts[z] = c.encOf(key).EncryptMsgNew(msg)
			} else {
				c.encOf(key).EncryptMsg(msg, c.cts[z])
			}
			for k := range keep {
				if keep[k] != msg.Value[k] {
					r.FailFor("F01", "encryption changed the message")
				}
			}
			c.checkFast("F01", z, cts[z])
		case "EncryptPt":
			tz = z
			c.encOf(key).Encrypt(c.pts[p], c.cts[z])
			c.checkFast("F01", z, cts[z])
		case "Decrypt":
			tp = p
			c.decOf(key, g).Decrypt(c.cts[x], c.pts[p])
			e := pts[p]
			pt := c.pts[p]
			if pt.Level() != e.F("lvl").Int() || pt.Value.IsNTT != e.F("ntt").Bool() {
				r.FailFor("F01", "the plaintext is at level %d with IsNTT=%v, must be %d and %v", pt.Level(), pt.Value.IsNTT, e.F("lvl").Int(), e.F("ntt").Bool())
			}
			c.scaleOk("F01", pt.Scale, e.F("sc"), "the plaintext")
			if !e.F("junk").Bool() {
				ph := phase(rg, pt.Level(), []*ring.Poly{pt.Value}, nil, false)
				r.Count(rg.N)
				if d, _ := c.diffs(pt.Level(), ph, c.bigs(e.F("m").Bigs())); d.Cmp(e.F("err").Big()) > 0 {
					r.FailFor("F01", "the decrypted message is off by %v (bound %v)", d, e.F("err").Big())
				}
			}
		case "DecryptMsg":
			e := cts[x]
			var msg *fckks.Message
			if nw {
				msg = c.decOf(key, g).DecryptToMsgNew(c.cts[x])
			} else {
				msg = fckks.NewMessage(c.f.fp)
				c.decOf(key, g).DecryptToMsg(c.cts[x], msg)
			}
			b := c.crt[e.F("lvl").Int()]
			m := c.bigs(e.F("m").Bigs())
			sub := make([]*big.Int, c.f.emb.size())
			sum := 0.0
			for k := range sub {
				v := new(big.Int).Set(m[k*c.f.gap])
				if v.Cmp(b.half) > 0 {
					v.Sub(v, b.Q)
				}
				sub[k] = v
				fl, _ := new(big.Float).SetInt(v).Float64()
				sum += math.Abs(fl)
			}
			re, im := c.f.emb.decode(sub)
			sc := toF(e.F("sc"))
			ef, _ := new(big.Float).SetInt(e.F("err").Big()).Float64()
			tol := (float64(len(sub))*(ef+1) + sum*math.Exp2(-42)) / sc
			if msg.Slots() != c.f.fp.Slots() {
				r.FailFor("F01", "the message has %d slots, must be %d", msg.Slots(), c.f.fp.Slots())
			}
			for k := range re {
				u, _ := re[k].Float64()
				v, _ := im[k].Float64()
				r.Count(1)
				if d := math.Max(math.Abs(real(msg.Value[k])-u/sc), math.Abs(imag(msg.Value[k])-v/sc)); !(d <= tol) {
					r.FailFor("F01", "slot %d of the decrypted message is %v, must be %v%+vi (tolerance %v)", k, msg.Value[k], u/sc, v/sc, tol)
				}
			}
		case "MulRelin":
			tz = z
			rlk := c.rlkOf(key)
			h := hashFastKey(rlk.Value)
			if nw {
				c.cts[z] = c.f.eval.MulRelinNew(c.cts[x], c.cts[y], rlk)
			} else {
				c.f.eval.MulRelin(c.cts[x], c.cts[y], rlk, c.cts[z])
			}
			c.checkFast("F01", z, cts[z])
			if h != hashFastKey(rlk.Value) {
				r.FailFor("F01", "the product changed the relinearization key")
			}
		case "Rotate":
			tz = z
			rtk := c.rtkOf(key, rot)
			h := hashFastKey(rtk.Value)
			if nw {
				c.cts[z] = c.f.eval.RotateNew(c.cts[x], rtk)
			} else {
				c.f.eval.Rotate(c.cts[x], rtk, c.cts[z])
			}
			c.checkFast("F01", z, cts[z])
			if h != hashFastKey(rtk.Value) {
				r.FailFor("F01", "the rotation changed its key")
			}
		case "SwitchKeys":
			tz = z
			rtk := c.rtkOf(key, rot)
			h := hashFastKey(rtk.Value)
			if nw {
				c.cts[z] = c.f.eval.SwitchKeysNew(c.cts[x], rtk.Value)
			} else {
				c.f.eval.SwitchKeys(c.cts[x], rtk.Value, c.cts[z])
			}
			c.checkFast("F01", z, cts[z])
			if h != hashFastKey(rtk.Value) {
				r.FailFor("F01", "switching keys changed the key")
			}
		case "Add", "Sub":
			tz = z
			switch {
			case op == "Add" && nw:
				c.cts[z] = c.f.eval.AddNew(c.cts[x], c.cts[y])
			case op == "Add":
				c.f.eval.Add(c.cts[x], c.cts[y], c.cts[z])
			case nw:
				c.cts[z] = c.f.eval.SubNew(c.cts[x], c.cts[y])
			default:
				c.f.eval.Sub(c.cts[x], c.cts[y], c.cts[z])
			}
			c.checkFast("F01", z, cts[z])
		case "Rescale":
			tz = z
			if err := c.f.eval.Rescale(c.cts[z], c.f.fp.DefaultScale(), c.cts[z]); err != nil {
				r.FailFor("F01", "Rescale reports %v", err)
			}
			c.checkFast("F01", z, cts[z])
		case "DropLevel":
			tz = z
			c.f.eval.DropLevel(c.cts[z], 1)
			c.checkFast("F01", z, cts[z])
		case "GenKey":
			sin, sout := c.smalls(ints64(aux.F("sin"))), c.smalls(ints64(aux.F("sout")))
			if a.F("kind").Int() == 0 {
				c.checkKey("F02 K02", c.f.kgen.GenRelinKey(c.sks[key]).Value, sin, sout)
			} else {
				c.checkKey("F02 K02", c.f.kgen.GenRotKey(rot, c.sks[key]).Value, sin, sout)
			}
		case "GenSkPk":
			var sk *rlwe.SecretKey
			var pk *rlwe.PublicKey
			sout := c.smalls(ints64(aux.F("sout")))
			switch a.F("kind").Int() {
			case 0:
				sk = c.f.kgen.GenSecretKey()
			case 1:
				pk = c.f.kgen.GenPublicKey(c.sks[key])
			case 2:
				sk, pk = c.f.kgen.GenKeyPair()
			}
			if sk != nil {
				s := c.secretCheck("F02 K02", sk)
				for _, v := range s {
					if v < -1 || v > 1 {
						r.FailFor("F02 K02", "the secret key is not ternary")
					}
				}
				sout = s
			}
			if pk != nil {
				c.rowCheck("F02 K02", "the public key", [2]rlwe.PolyQP(pk.Value), c.p[0].MaxLevel(), lp, sout, nil, nil, rg, c.p[0].RingP())
			}
		case "SwitchPoly":
			lvl, kind, alias, dirty := a.F("lvl").Int(), a.F("kind").Int(), x, a.F("dirty").Bool()
			swk := [2]*frlwe.SwitchingKey{}
			if kind == 0 {
				swk = c.rlkOf(key).Value
			} else {
				swk = c.rtkOf(key, rot).Value
			}
			h := hashFastKey(swk)
			in := loadPoly(aux.F("a").Bigs(), lvl)
			mk := func() *ring.Poly {
				if !dirty {
					return ring.NewPoly(rg.N, lvl+1)
				}
				o := rg.NewPoly()
				for l := range o.Coeffs {
					for k := range o.Coeffs[l] {
						o.Coeffs[l][k] = c.rng.Uint64() % rg.Modulus[l]
					}
				}
				return o
			}
			o0, o1 := mk(), mk()
			up := []uint64{hashPolys(&ring.Poly{Coeffs: o0.Coeffs[lvl+1:]}), hashPolys(&ring.Poly{Coeffs: o1.Coeffs[lvl+1:]})}
			ih := hashPolys(in)
			if alias == 2 {
				o0 = in
			} else if alias == 3 {
				o1 = in
			}
			c.f.ks.SwitchKey(lvl, in, swk[0], swk[1], o0, o1)
			if alias < 2 && hashPolys(in) != ih {
				r.FailFor("F02", "the key switch changed its input")
			}
			if hashFastKey(swk) != h {
				r.FailFor("F02", "the key switch changed its key")
			}
			if alias < 2 && (hashPolys(&ring.Poly{Coeffs: o0.Coeffs[lvl+1:]}) != up[0] || hashPolys(&ring.Poly{Coeffs: o1.Coeffs[lvl+1:]}) != up[1]) {
				r.FailFor("F02", "the key switch at level %d wrote above that level", lvl)
			}
			for _, o := range []*ring.Poly{o0, o1} {
				for l := 0; l <= lvl; l++ {
					for _, w := range o.Coeffs[l] {
						if w >= rg.Modulus[l] {
							r.FailFor("F02", "the result holds the word %d, not reduced modulo %d", w, rg.Modulus[l])
						}
					}
				}
			}
			ph := phase(rg, lvl, []*ring.Poly{o0, o1}, c.smalls(ints64(aux.F("sout"))), false)
			d, _ := c.diffs(lvl, ph, c.bigs(aux.F("m").Bigs()))
			r.Count(rg.N)
			if d.Cmp(aux.F("err").Big()) > 0 {
				r.FailFor("F02", "at level %d the result is off by %v from the input times the value of the key (bound %v)", lvl, d, aux.F("err").Big())
			}
		default:
			r.Fail("unknown operation %s", op)
		}
		after := c.hashes()
		for k := range before {
			if k == tz || (tp >= 0 && k == len(c.cts)+tp) {
				continue
			}
			if before[k] != after[k] {
				r.FailFor("F01", "%s changed register %d, which is not its receiver", op, k)
			}
		}
	}
}
