package main

import (
	"fmt"
	"math"
	"math/big"
	"runtime/debug"
	"sync"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// Replay of spec/threads.qnt. The steps of a phase run at the same time, each worker's in a goroutine of its own,
// under the race detector; afterwards every result is compared with the specification's and, where the call is
// deterministic, bit for bit with what an object used by nobody else gives on the same operands. The behaviour is
// then run a second time with all the steps in the order of the trace, on the same objects.

func init() { replayers["threads"] = replayThreads }

// thKeys is made once for a configuration: parameters, secrets, public and evaluation keys, shared by all objects.
type thKeys struct {
	*heCtx
	pks  []*rlwe.PublicKey
	evk  []rlwe.EvaluationKey
	swk  [][]*rlwe.SwitchingKey
	big  int
	fast bool
	fp   fckks.Parameters
	frlk []*frlwe.RelinKey
	frtk []map[int]*frlwe.RotationKey
}

var thCache *thKeys

func getThKeys(r *R) *thKeys {
	if thCache != nil {
		return thCache
	}
	nk := r.cfg.Int("NK", 2)
	rots := []int{}
	for _, v := range r.cfg["ROTS"].([]interface{}) {
		rots = append(rots, intOf(v))
	}
	k := &thKeys{big: 96, fast: r.cfg.Bool("FAST")}
	if !k.fast {
		k.heCtx = newHeCtx(r, nk)
		for i := 0; i < nk; i++ {
			k.pks = append(k.pks, k.kgen.GenPublicKey(k.sks[i]))
			k.evk = append(k.evk, rlwe.EvaluationKey{Rlk: k.kgen.GenRelinearizationKey(k.sks[i], 1), Rtks: k.kgen.GenRotationKeysForRotations(rots, !k.ci, k.sks[i])})
		}
		for i := 0; i < nk; i++ {
			row := []*rlwe.SwitchingKey{}
			for j := 0; j < nk; j++ {
				row = append(row, k.kgen.GenSwitchingKey(k.sks[i], k.sks[j]))
			}
			k.swk = append(k.swk, row)
		}
	} else {
		logN := 0
		for 1<<logN < r.cfg.Int("N", 16) {
			logN++
		}
		k.fp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: logN, Q: r.cfg.Uints("QS"), P: r.cfg.Uints("PS"), T: r.cfg.Uints("TS"), Sigma: rlwe.DefaultSigma,
			LogSlots: r.cfg.Int("LOGSLOTS", 3), DefaultScale: math.Exp2(float64(r.cfg.Int("LOGSCALE", 40))), H: 8, Gamma: r.cfg.Int("GAMMA", 1)})
		h := &heCtx{params: k.fp.Parameters, N: 1 << logN}
		h.emb = newEmbedding(k.fp.Slots(), false)
		h.gap = h.N / h.emb.size()
		for l := 0; l <= h.params.MaxLevel(); l++ {
			h.crt = append(h.crt, newCRT(h.params.Q()[:l+1]))
		}
		kg := fckks.NewKeyGenerator(k.fp)
		for i := 0; i < nk; i++ {
			sk := kg.GenSecretKey()
			h.sks = append(h.sks, sk)
			h.sInts = append(h.sInts, secretInts(h.params.RingQ(), sk.Value.Q))
			k.pks = append(k.pks, kg.GenPublicKey(sk))
			k.frlk = append(k.frlk, kg.GenRelinKey(sk))
			m := map[int]*frlwe.RotationKey{}
			for _, x := range rots {
				if m[x] == nil {
					m[x] = kg.GenRotKey(x, sk)
				}
			}
			k.frtk = append(k.frtk, m)
		}
		k.heCtx = h
	}
	thCache = k
	return k
}

func intOf(v interface{}) int {
	switch y := v.(type) {
	case string:
		b, _ := new(big.Int).SetString(y, 10)
		return int(b.Int64())
	case float64:
		return int(y)
	}
	return 0
}

// thObjs is what one worker owns.
type thObjs struct {
	enc  ckks.Encoder
	big  ckks.EncoderBigComplex
	ecr  ckks.Encryptor
	dcr  ckks.Decryptor
	ev   ckks.Evaluator
	ks   *rlwe.KeySwitcher
	be   *ring.BasisExtender
	fecr *fckks.Encryptor
	fdcr *fckks.Decryptor
	fev  *fckks.Evaluator
	key  int // of the evaluator
}

func (k *thKeys) encKey(key int, pk bool) interface{} {
	if pk {
		return k.pks[key]
	}
	return k.sks[key]
}

func (k *thKeys) fresh(key int, pk bool) *thObjs {
	if k.fast {
		return &thObjs{enc: ckks.NewEncoder(k.params), fecr: fckks.NewEncryptor(k.fp, k.pks[key]), fdcr: fckks.NewDecryptor(k.fp, k.sks[key]), fev: fckks.NewEvaluator(k.fp), key: key}
	}
	return &thObjs{enc: ckks.NewEncoder(k.params), big: ckks.NewEncoderBigComplex(k.params, k.big), ecr: ckks.NewEncryptor(k.params, k.encKey(key, pk)),
		dcr: ckks.NewDecryptor(k.params, k.sks[key]), ev: ckks.NewEvaluator(k.params, k.evk[key]), ks: rlwe.NewKeySwitcher(k.params.Parameters),
		be: ring.NewBasisExtender(k.params.RingQ(), k.params.RingP()), key: key}
}

func (k *thKeys) copyOf(o *thObjs, how, key int, pk bool) *thObjs {
	if k.fast {
		if how == 0 {
			key = o.key
		}
		return k.fresh(key, pk)
	}
	n := &thObjs{enc: o.enc.ShallowCopy(), big: o.big.ShallowCopy(), ks: o.ks.ShallowCopy(), be: o.be.ShallowCopy()}
	if how == 0 {
		n.ecr, n.dcr, n.key = o.ecr.ShallowCopy(), o.dcr.ShallowCopy(), o.key
	} else {
		n.ecr, n.dcr, n.key = o.ecr.WithKey(k.encKey(key, pk)), o.dcr.WithKey(k.sks[key]), key
	}
	n.ev = ckks.NewEvaluator(k.params, k.evk[n.key])
	return n
}

// thVal is the content of a register, and thOut what a step gave.
type thVal struct {
	pt *ckks.Plaintext
	ct *ckks.Ciphertext
}
type thOut struct {
	x, y  *thVal // copies of the operands
	val   *thVal
	slots []complex128
	polys []*ring.Poly
	err   interface{}
	stack string
}

func (v *thVal) clone() *thVal {
	if v == nil {
		return nil
	}
	w := &thVal{}
	if v.pt != nil {
		w.pt = &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: v.pt.Value.CopyNew()}, Scale: v.pt.Scale}
	}
	if v.ct != nil {
		w.ct = v.ct.CopyNew()
	}
	return w
}

// do carries out one step with the given objects.
func (k *thKeys) do(o *thObjs, a Val, x, y *thVal) (out thOut) {
	defer func() {
		if e := recover(); e != nil {
			out.err, out.stack = e, string(debug.Stack())
		}
	}()
	p := k.params
	op, lvl, how, kk := a.F("op").Str(), a.F("lvl").Int(), a.F("how").Int(), a.F("k").Int()
	ct := func(c *ckks.Ciphertext) { out.val = &thVal{ct: c} }
	switch op {
	case "Encode":
		v := make([]complex128, p.Slots())
		f := make([]float64, p.Slots())
		b := make([]*ring.Complex, p.Slots())
		for i, w := range a.F("vals").Ints() {
			v[i], f[i] = complex(float64(w), 0), float64(w)
			b[i] = ring.NewComplex(ring.NewFloat(float64(w), k.big), ring.NewFloat(0, k.big))
		}
		pt := ckks.NewPlaintext(p, lvl, p.DefaultScale())
		switch {
		case how == 0:
			o.enc.Encode(v, pt, p.LogSlots())
		case how == 1 || k.ci:
			o.enc.EncodeSlots(f, pt, p.LogSlots())
		default:
			o.big.Encode(b, pt, p.LogSlots())
		}
		out.val = &thVal{pt: pt}
	case "Decode":
		switch {
		case how == 0 && !k.ci && !k.fast:
			for _, c := range o.big.Decode(x.pt, p.LogSlots()) {
				re, _ := c.Real().Float64()
				im, _ := c.Imag().Float64()
				out.slots = append(out.slots, complex(re, im))
			}
		case how == 1:
			out.slots = o.enc.DecodePublic(x.pt, p.LogSlots(), 100)
		default:
			out.slots = o.enc.Decode(x.pt, p.LogSlots())
		}
	case "Encrypt":
		c := ckks.NewCiphertext(p, 1, lvl, p.DefaultScale())
		if k.fast {
			o.fecr.Encrypt(x.pt, c)
		} else {
			o.ecr.Encrypt(x.pt, c)
		}
		ct(c)
	case "Decrypt":
		pt := ckks.NewPlaintext(p, x.ct.Level(), x.ct.Scale)
		if k.fast {
			o.fdcr.Decrypt(x.ct, pt)
		} else {
			o.dcr.Decrypt(x.ct, pt)
		}
		out.val = &thVal{pt: pt}
	case "Add":
		if k.fast {
			ct(o.fev.AddNew(x.ct, y.ct))
		} else {
			ct(o.ev.AddNew(x.ct, y.ct))
		}
	case "AddPlain":
		ct(o.ev.AddNew(x.ct, y.pt))
	case "Sub":
		if k.fast {
			ct(o.fev.SubNew(x.ct, y.ct))
		} else {
			ct(o.ev.SubNew(x.ct, y.ct))
		}
	case "Mul":
		if k.fast {
			ct(o.fev.MulRelinNew(x.ct, y.ct, k.frlk[o.key]))
		} else {
			ct(o.ev.MulRelinNew(x.ct, y.ct))
		}
	case "MulPlain":
		ct(o.ev.MulRelinNew(x.ct, y.pt))
	case "Rotate":
		if k.fast {
			ct(o.fev.RotateNew(x.ct, k.frtk[o.key][kk]))
		} else if kk%2 == 0 {
			ct(o.ev.RotateNew(x.ct, kk))
		} else {
			c := ckks.NewCiphertext(p, 1, x.ct.Level(), x.ct.Scale)
			o.ev.Rotate(x.ct, kk, c)
			ct(c)
		}
	case "Neg":
		ct(o.ev.NegNew(x.ct))
	case "Rescale":
		c := x.ct.CopyNew()
		if err := o.ev.Rescale(c, p.DefaultScale(), c); err != nil {
			panic(err)
		}
		ct(c)
	case "Conjugate":
		ct(o.ev.ConjugateNew(x.ct))
	case "Switch":
		swk := k.swk[kk][a.F("key").Int()]
		c := ckks.NewCiphertext(p, 1, lvl, x.ct.Scale)
		rq := p.RingQ()
		c1 := x.ct.Value[1].CopyNew()
		switch how {
		case 0:
			o.ks.SwitchKeysInPlace(lvl, c1, swk, c.Value[0], c.Value[1])
		case 1:
			o.ks.DecomposeNTT(lvl, p.PCount()-1, p.PCount(), c1, o.ks.PoolDecompQP)
			o.ks.KeyswitchHoisted(lvl, o.ks.PoolDecompQP, swk, c.Value[0], c.Value[1], p.RingP().NewPoly(), p.RingP().NewPoly())
		default:
			o.ev.GetKeySwitcher().SwitchKeysInPlace(lvl, c1, swk, c.Value[0], c.Value[1])
		}
		rq.AddLvl(lvl, c.Value[0], x.ct.Value[0], c.Value[0])
		ct(c)
	case "Extend":
		rq, rp := p.RingQ(), p.RingP()
		lp := p.PCount() - 1
		q, pp, z := rq.NewPolyLvl(lvl), rp.NewPoly(), rq.NewPolyLvl(lvl)
		rq.InvNTTLvl(lvl, x.pt.Value, q)
		o.be.ModUpQtoP(lvl, lp, q, pp)
		switch how {
		case 0:
			o.be.ModDownQPtoQ(lvl, lp, q, pp, z)
		case 1:
			rq.NTTLvl(lvl, q, q)
			rp.NTTLvl(lp, pp, pp)
			o.be.ModDownQPtoQNTT(lvl, lp, q, pp, z)
		case 2:
			z = rp.NewPoly()
			o.be.ModDownQPtoP(lvl, lp, q, pp, z)
		case 3:
			o.be.ModUpPtoQ(lp, lvl, pp, z)
		}
		out.polys = []*ring.Poly{pp, z}
	default:
		die("threads: unknown call %q", op)
	}
	return
}

type thRun struct {
	*thKeys
	r      *R
	objs   []*thObjs
	alone  []*thObjs
	regs   [][]*thVal
	shared []*thVal
}

func (t *thRun) look(w int, ref Val) *thVal {
	i := ref.F("i").Int()
	if ref.F("sh").Bool() {
		return t.shared[i]
	}
	return t.regs[w][i]
}

// operands of a step, and the register its result goes to
func operands(op string) (x, y, z bool) {
	switch op {
	case "Encode":
		return false, false, true
	case "Decode", "Extend":
		return true, false, false
	case "Add", "Sub", "Mul", "MulPlain", "AddPlain":
		return true, true, true
	}
	return true, false, true
}

func (t *thRun) work(steps []Val, out []thOut) {
	for i, a := range steps {
		op, w := a.F("op").Str(), a.F("w").Int()
		hx, hy, hz := operands(op)
		var x, y *thVal
		if hx {
			x = t.look(w, a.F("x"))
		}
		if hy {
			y = t.look(w, a.F("y"))
		}
		cx, cy := x.clone(), y.clone()
		o := t.do(t.objs[w], a, x, y)
		o.x, o.y = cx, cy
		out[i] = o
		if o.err != nil {
			return
		}
		if hz {
			t.regs[w][a.F("z").Int()] = o.val
		}
		out[i].val = o.val.clone()
	}
}

func (t *thRun) fail(f string, a ...interface{}) { t.r.FailFor("T01", f, a...) }

func near(got []complex128, want []int, tol float64) string {
	for i := range want {
		if d := math.Hypot(real(got[i])-float64(want[i]), imag(got[i])); !(d <= tol) {
			return fmt.Sprintf("slot %d is %v, expected %d", i, got[i], want[i])
		}
	}
	return ""
}

func (t *thRun) slots(level int, value []*ring.Poly, key int, scale float64) []complex128 {
	re, im := t.decode(level, value, key)
	out := make([]complex128, len(re))
	for i := range re {
		a, _ := re[i].Float64()
		b, _ := im[i].Float64()
		out[i] = complex(a/scale, b/scale)
	}
	return out
}

const thTol = 1.0 / 64

func (t *thRun) judgeWith(a Val, o thOut, when string, decKey int) {
	op, w := a.F("op").Str(), a.F("w").Int()
	what := fmt.Sprintf("%s by worker %d, %s", op, w, when)
	t.r.Count(1)
	// alone
	k := t.alone[0]
	switch op {
	case "Decrypt":
		k = t.alone[decKey]
	case "Encode", "Decode", "Extend", "Switch":
	default:
		k = t.alone[a.F("key").Int()]
	}
	x := t.do(k, a, o.x, o.y)
	if o.err != nil && !panicOrigin(o.stack) {
		die("driver panic in %s: %v\n%s", what, o.err, o.stack)
	}
	if x.err != nil || t.wrong(a, x) != "" {
		// wrong whoever makes the call: not this property's matter
		t.r.FailFor("C01 C02 C03 C05 C06 K01 F01", "%s: the same call alone gives a wrong result: %v %s", what, x.err, t.wrong(a, x))
	}
	if o.err != nil {
		t.fail("%s panicked: %v\n%s", what, o.err, o.stack)
	}
	if wrong := t.wrong(a, o); wrong != "" {
		t.fail("%s: %s, and alone the call gives the expected result", what, wrong)
	}
	if op == "Encrypt" || op == "Decode" && a.F("how").Int() == 1 {
		return // randomised
	}
	same := len(x.slots) == len(o.slots) && len(x.polys) == len(o.polys)
	for i := range x.slots {
		same = same && x.slots[i] == o.slots[i]
	}
	for i := range x.polys {
		same = same && samePoly(x.polys[i], o.polys[i])
	}
	if o.val != nil && o.val.pt != nil {
		same = same && samePoly(o.val.pt.Value, x.val.pt.Value) && o.val.pt.Scale == x.val.pt.Scale
	}
	if o.val != nil && o.val.ct != nil {
		same = same && len(o.val.ct.Value) == len(x.val.ct.Value) && o.val.ct.Scale == x.val.ct.Scale
		for i := range o.val.ct.Value {
			same = same && samePoly(o.val.ct.Value[i], x.val.ct.Value[i])
		}
	}
	if !same {
		t.fail("%s gives another result than alone on the same operands", what)
	}
}

// wrong compares what a step gave with the specification's message.
func (t *thRun) wrong(a Val, o thOut) string {
	want := a.F("vals").Ints()
	switch a.F("op").Str() {
	case "Encode":
		return near(t.slots(o.val.pt.Level(), []*ring.Poly{o.val.pt.Value}, 0, o.val.pt.Scale), want, thTol)
	case "Decode":
		return near(o.slots, want, thTol)
	case "Decrypt":
		if !a.F("ok").Bool() {
			return "" // under another key the result is compared with that key's decryptor only
		}
		return near(t.slots(o.val.pt.Level(), []*ring.Poly{o.val.pt.Value}, 0, o.val.pt.Scale), want, thTol)
	case "Extend":
		return ""
	case "Encrypt":
	default:
		if l := o.val.ct.Level(); l != a.F("lvl").Int() {
			return fmt.Sprintf("level %d, expected %d", l, a.F("lvl").Int())
		}
	}
	return near(t.slots(o.val.ct.Level(), polysOf(o.val.ct), a.F("key").Int(), o.val.ct.Scale), want, thTol)
}

func polysOf(c *ckks.Ciphertext) []*ring.Poly { return c.Value }

func replayThreads(r *R, tr *Trace) {
	k := getThKeys(r)
	// outcomes must not depend on how the steps of a phase are scheduled
	for _, parallel := range []bool{true, false} {
		t := &thRun{thKeys: k, r: r}
		nw, nr := r.cfg.Int("NW", 4), r.cfg.Int("NR", 3)
		for i := 0; i < r.cfg.Int("NK", 2); i++ {
			t.alone = append(t.alone, k.fresh(i, true))
		}
		t.objs = append(t.objs, k.fresh(0, true))
		for w := 1; w < nw; w++ {
			t.objs = append(t.objs, k.copyOf(t.objs[w-1], 0, 0, true))
		}
		for w := 0; w < nw; w++ {
			t.regs = append(t.regs, make([]*thVal, nr))
		}
		t.shared = make([]*thVal, r.cfg.Int("NSH", 3))
		first := 0
		for i := 1; i <= len(tr.States); i++ {
			if i < len(tr.States) && !tr.States[i].F("act").F("sync").Bool() {
				continue
			}
			t.phase(tr, first+1, i, parallel)
			if i < len(tr.States) {
				t.boundary(i, tr.States[i].F("act"))
			}
			first = i
		}
	}
}

func (t *thRun) boundary(i int, a Val) {
	op, w := a.F("op").Str(), a.F("w").Int()
	t.r.Step(i, op, a.JSON())
	switch op {
	case "Copy":
		t.objs[w] = t.copyOf(t.objs[a.F("src").Int()], a.F("how").Int(), a.F("key").Int(), a.F("ok").Bool())
	case "Publish":
		t.shared[a.F("z").Int()] = t.regs[w][a.F("x").F("i").Int()].clone()
	}
}

func (t *thRun) phase(tr *Trace, from, to int, parallel bool) {
	nw := len(t.objs)
	steps := make([][]Val, nw)
	at := make([][]int, nw)
	when := "while others run"
	if !parallel {
		when = "in turn"
	}
	decKey := map[string]int{}
	for i := from; i < to; i++ {
		a := tr.States[i].F("act")
		op := a.F("op").Str()
		if op == "None" || op == "Init" {
			continue
		}
		t.r.Step(i, op, a.JSON()+" "+when)
		if len(t.r.res.Samples) < 3 {
			t.r.Sample(a.JSON())
		}
		w := a.F("w").Int()
		steps[w] = append(steps[w], a)
		at[w] = append(at[w], i)
		decKey[fmt.Sprint(w)] = tr.States[i].F("objs").List()[w].F("dec").Int()
	}
	outs := make([][]thOut, nw)
	for w := range outs {
		outs[w] = make([]thOut, len(steps[w]))
	}
	if parallel {
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < nw; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				t.work(steps[w], outs[w])
			}(w)
		}
		close(start)
		wg.Wait()
	} else {
		next := make([]int, nw)
		for i := from; i < to; i++ {
			w := tr.States[i].F("act").F("w").Int()
			if j := next[w]; j < len(at[w]) && at[w][j] == i {
				t.work(steps[w][j:j+1], outs[w][j:j+1])
				next[w]++
				if outs[w][j].err != nil {
					break
				}
			}
		}
	}
	for w := range steps {
		for j, a := range steps[w] {
			t.r.step, t.r.desc = at[w][j], a.JSON()+" "+when
			t.judgeWith(a, outs[w][j], when, decKey[fmt.Sprint(w)])
			if outs[w][j].err != nil {
				return
			}
		}
	}
}
