package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

// Replay of spec/serial.qnt: objects are expanded from their description, and every register is compared
// with a fresh expansion of the specification's value after every call.

var serialRings = []struct {
	N    int
	CI   bool
	Mods []uint64
}{
	{16, false, []uint64{1152921504606584833, 1099510054913}},
	{16, true, []uint64{1152921504606584833, 1099510054913}},
	{32, false, []uint64{2305843009211662337}},
	{32, true, []uint64{1125899904679937, 33292289, 786433}},
	{16, false, []uint64{1099510054913, 1152921504606584833}},
	{64, false, []uint64{1125899904679937, 33292289, 786433}},
	{16, false, []uint64{1152921504606584833, 1099510054913, 35184368877569}},
}

func serialRing(i int) *ring.Ring {
	d := serialRings[i%len(serialRings)]
	t := ring.Standard
	if d.CI {
		t = ring.ConjugateInvariant
	}
	r, err := ring.NewRingFromType(d.N, d.Mods, t)
	if err != nil {
		die("%v", err)
	}
	return r
}

func mixWord(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

type objSpec struct {
	kind, logn, n, m, lq, lp, fl int
	seed                         uint64
	sc                           *big.Int
	gals                         []uint64
	small                        bool
	tw                           int
}

func objOf(v Val) objSpec {
	return objSpec{v.F("kind").Int(), v.F("logn").Int(), v.F("n").Int(), v.F("m").Int(), v.F("lq").Int(), v.F("lp").Int(), v.F("fl").Int(),
		v.F("seed").Uint64(), v.F("sc").Big(), v.F("gals").Uints(), v.F("small").Bool(), v.F("tw").Int()}
}

func (o objSpec) scale() float64 {
	f, _ := new(big.Float).SetInt(o.sc).Float64()
	return f / 65536
}

// tweak alters one word of x, if the object has one altered.
func (o objSpec) tweak(x interface{}) {
	if o.tw == 0 {
		return
	}
	ps := []*ring.Poly{}
	qp := func(l ...rlwe.PolyQP) {
		for _, p := range l {
			if p.Q != nil {
				ps = append(ps, p.Q)
			}
			if p.P != nil {
				ps = append(ps, p.P)
			}
		}
	}
	swk := func(k *rlwe.SwitchingKey) {
		for _, r := range k.Value {
			qp(r[0], r[1])
		}
	}
	switch v := x.(type) {
	case *ring.Poly:
		ps = append(ps, v)
	case *rlwe.PolyQP:
		qp(*v)
	case *rlwe.PublicKey:
		qp(v.Value[0], v.Value[1])
	case *rlwe.SwitchingKey:
		swk(v)
	case *rlwe.RelinearizationKey:
		for _, k := range v.Keys {
			swk(k)
		}
	case *rlwe.RotationKeySet:
		g := append([]uint64{}, o.gals...)
		sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
		for _, i := range g {
			swk(v.Keys[i])
		}
	default:
		die("no altered words in %T", x)
	}
	if len(ps) == 0 {
		die("no words in %T", x)
	}
	h := mixWord(uint64(o.tw))
	p := ps[h%uint64(len(ps))]
	if h>>20%3 == 0 {
		p = ps[len(ps)-1]
	}
	l := p.Coeffs[h>>24%uint64(len(p.Coeffs))]
	if h>>30%3 == 0 {
		l = p.Coeffs[len(p.Coeffs)-1]
	}
	k := h >> 34 % uint64(len(l))
	if h>>48%3 == 0 {
		k = uint64(len(l)) - 1
	}
	l[k] ^= 1 << (h >> 50 % 32)
}

func (o objSpec) poly(id, lvl int) *ring.Poly {
	if lvl < 0 {
		return nil
	}
	p := ring.NewPoly(1<<o.logn, lvl+1)
	o.write(p, id)
	return p
}

// write fills a polynomial with the contents number id of the object
func (o objSpec) write(p *ring.Poly, id int) {
	for l := range p.Coeffs {
		for k := range p.Coeffs[l] {
			w := mixWord(o.seed ^ mixWord(uint64(id)<<40|uint64(l)<<20|uint64(k)))
			c := w >> 60
			w &= 1<<61 - 1
			switch c {
			case 0:
				w = 0
			case 1:
				w = 1<<61 - 1
			case 2:
				w = w >> 53
			}
			if o.small {
				w &= 1<<32 - 1
			}
			p.Coeffs[l][k] = w
		}
	}
	b := o.fl >> (2 * (uint(id) % 4))
	p.IsNTT, p.IsMForm = b&1 == 1, b&2 == 2
}

func (o objSpec) qp(id int) rlwe.PolyQP {
	return rlwe.PolyQP{Q: o.poly(2*id, o.lq), P: o.poly(2*id+1, o.lp)}
}

func (o objSpec) swk(id int) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{}
	for j := 0; j < o.m; j++ {
		k.Value = append(k.Value, [2]rlwe.PolyQP{o.qp(100*id + 2*j), o.qp(100*id + 2*j + 1)})
	}
	return k
}

func (o objSpec) build() interface{} {
	x := o.whole()
	o.tweak(x)
	return x
}

func (o objSpec) whole() interface{} {
	switch o.kind {
	case 0:
		return o.poly(0, o.lq)
	case 1:
		x := o.qp(0)
		return &x
	case 2, 3:
		ct := &rlwe.Ciphertext{}
		for i := 0; i <= o.n; i++ {
			ct.Value = append(ct.Value, o.poly(i, o.lq))
		}
		if o.kind == 2 {
			return ct
		}
		return &ckks.Ciphertext{Ciphertext: ct, Scale: o.scale()}
	case 4:
		return &rlwe.SecretKey{Value: o.qp(0)}
	case 5:
		return &rlwe.PublicKey{Value: [2]rlwe.PolyQP{o.qp(0), o.qp(1)}}
	case 6:
		return o.swk(0)
	case 7:
		k := &rlwe.RelinearizationKey{}
		for i := 0; i < o.n; i++ {
			k.Keys = append(k.Keys, o.swk(i))
		}
		return k
	case 8:
		k := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
		for _, g := range o.gals {
			k.Keys[g] = o.swk(int(g % 10007))
		}
		return k
	}
	return serialRing(int(o.seed))
}

// mutate writes the contents of o into the memory of x
func (o objSpec) mutate(x interface{}) {
	pp := func(p *ring.Poly, id int) {
		if p != nil {
			o.write(p, id)
		}
	}
	qp := func(p rlwe.PolyQP, id int) { pp(p.Q, 2*id); pp(p.P, 2*id+1) }
	swk := func(k *rlwe.SwitchingKey, id int) {
		for j := range k.Value {
			qp(k.Value[j][0], 100*id+2*j)
			qp(k.Value[j][1], 100*id+2*j+1)
		}
	}
	switch v := x.(type) {
	case *ring.Poly:
		pp(v, 0)
	case *rlwe.PolyQP:
		qp(*v, 0)
	case *rlwe.Ciphertext:
		for i, p := range v.Value {
			pp(p, i)
		}
	case *ckks.Ciphertext:
		for i, p := range v.Value {
			pp(p, i)
		}
	case *rlwe.SecretKey:
		qp(v.Value, 0)
	case *rlwe.PublicKey:
		qp(v.Value[0], 0)
		qp(v.Value[1], 1)
	case *rlwe.SwitchingKey:
		swk(v, 0)
	case *rlwe.RelinearizationKey:
		for i, k := range v.Keys {
			swk(k, i)
		}
	case *rlwe.RotationKeySet:
		for _, g := range o.gals {
			swk(v.Keys[g], int(g%10007))
		}
	}
}

func diffPoly(a, b *ring.Poly) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("is absent: %v, must be absent: %v", a == nil, b == nil)
	}
	if a == nil {
		return ""
	}
	if len(a.Coeffs) != len(b.Coeffs) {
		return fmt.Sprintf("has %d moduli, must have %d", len(a.Coeffs), len(b.Coeffs))
	}
	for i := range a.Coeffs {
		if len(a.Coeffs[i]) != len(b.Coeffs[i]) {
			return fmt.Sprintf("has %d coefficients, must have %d", len(a.Coeffs[i]), len(b.Coeffs[i]))
		}
		for k := range a.Coeffs[i] {
			if a.Coeffs[i][k] != b.Coeffs[i][k] {
				return fmt.Sprintf("coefficient %d, modulus %d is %d, must be %d", k, i, a.Coeffs[i][k], b.Coeffs[i][k])
			}
		}
	}
	if a.IsNTT != b.IsNTT || a.IsMForm != b.IsMForm {
		return fmt.Sprintf("has flags NTT %v, Montgomery %v, must be %v, %v", a.IsNTT, a.IsMForm, b.IsNTT, b.IsMForm)
	}
	return ""
}

func diffQP(a, b rlwe.PolyQP) string {
	if d := diffPoly(a.Q, b.Q); d != "" {
		return "part Q " + d
	}
	if d := diffPoly(a.P, b.P); d != "" {
		return "part P " + d
	}
	return ""
}

func diffSwk(a, b *rlwe.SwitchingKey) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("is absent: %v, must be absent: %v", a == nil, b == nil)
	}
	if a == nil {
		return ""
	}
	if len(a.Value) != len(b.Value) {
		return fmt.Sprintf("has %d rows, must have %d", len(a.Value), len(b.Value))
	}
	for j := range a.Value {
		for h := 0; h < 2; h++ {
			if d := diffQP(a.Value[j][h], b.Value[j][h]); d != "" {
				return fmt.Sprintf("row %d half %d %s", j, h, d)
			}
		}
	}
	return ""
}

func diffCt(a, b *rlwe.Ciphertext) string {
	if a == nil {
		return "is absent"
	}
	if len(a.Value) != len(b.Value) {
		return fmt.Sprintf("has %d polynomials, must have %d", len(a.Value), len(b.Value))
	}
	for i := range a.Value {
		if d := diffPoly(a.Value[i], b.Value[i]); d != "" {
			return fmt.Sprintf("polynomial %d %s", i, d)
		}
	}
	return ""
}

func diffRing(a, b *ring.Ring) string {
	ta, tb := reflect.TypeOf(a.NumberTheoreticTransformer), reflect.TypeOf(b.NumberTheoreticTransformer)
	if ta != tb {
		return fmt.Sprintf("has the transform %v, must have %v", ta, tb)
	}
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < va.NumField(); i++ {
		f := va.Type().Field(i)
		if f.PkgPath != "" || f.Name == "ModulusBigint" || f.Name == "NumberTheoreticTransformer" {
			continue
		}
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			return fmt.Sprintf("has %s = %.200v, must be %.200v", f.Name, va.Field(i).Interface(), vb.Field(i).Interface())
		}
	}
	if a.ModulusBigint.Cmp(b.ModulusBigint) != 0 {
		return "has another product of moduli"
	}
	pa := a.NewPoly()
	for i := range pa.Coeffs {
		for k := range pa.Coeffs[i] {
			pa.Coeffs[i][k] = mixWord(uint64(i*1000+k)) % a.Modulus[i]
		}
	}
	pb := pa.CopyNew()
	a.NTT(pa, pa)
	b.NTT(pb, pb)
	if d := diffPoly(pa, pb); d != "" {
		return "transforms another way: " + d
	}
	return ""
}

func diffObj(a, b interface{}) string {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return fmt.Sprintf("has type %T, must be %T", a, b)
	}
	switch v := a.(type) {
	case *ring.Poly:
		return diffPoly(v, b.(*ring.Poly))
	case *rlwe.PolyQP:
		return diffQP(*v, *b.(*rlwe.PolyQP))
	case *rlwe.Ciphertext:
		return diffCt(v, b.(*rlwe.Ciphertext))
	case *ckks.Ciphertext:
		w := b.(*ckks.Ciphertext)
		if math.Float64bits(v.Scale) != math.Float64bits(w.Scale) {
			return fmt.Sprintf("has scale %v, must have %v", v.Scale, w.Scale)
		}
		return diffCt(v.Ciphertext, w.Ciphertext)
	case *rlwe.SecretKey:
		return diffQP(v.Value, b.(*rlwe.SecretKey).Value)
	case *rlwe.PublicKey:
		for h := 0; h < 2; h++ {
			if d := diffQP(v.Value[h], b.(*rlwe.PublicKey).Value[h]); d != "" {
				return fmt.Sprintf("half %d %s", h, d)
			}
		}
		return ""
	case *rlwe.SwitchingKey:
		return diffSwk(v, b.(*rlwe.SwitchingKey))
	case *rlwe.RelinearizationKey:
		w := b.(*rlwe.RelinearizationKey)
		if len(v.Keys) != len(w.Keys) {
			return fmt.Sprintf("has %d keys, must have %d", len(v.Keys), len(w.Keys))
		}
		for i := range v.Keys {
			if d := diffSwk(v.Keys[i], w.Keys[i]); d != "" {
				return fmt.Sprintf("key %d %s", i, d)
			}
		}
		return ""
	case *rlwe.RotationKeySet:
		w := b.(*rlwe.RotationKeySet)
		if len(v.Keys) != len(w.Keys) {
			return fmt.Sprintf("has %d keys, must have %d", len(v.Keys), len(w.Keys))
		}
		for g := range w.Keys {
			if d := diffSwk(v.Keys[g], w.Keys[g]); d != "" {
				return fmt.Sprintf("key %d %s", g, d)
			}
		}
		return ""
	case *ring.Ring:
		return diffRing(v, b.(*ring.Ring))
	}
	return "unknown object"
}

type marshaler interface {
	MarshalBinary() ([]byte, error)
}
type unmarshaler interface {
	UnmarshalBinary([]byte) error
}
type measured interface {
	GetDataLen(bool) int
}

func fresh(kind int) interface{} {
	return []interface{}{new(ring.Poly), new(rlwe.PolyQP), new(rlwe.Ciphertext), new(ckks.Ciphertext), new(rlwe.SecretKey), new(rlwe.PublicKey),
		new(rlwe.SwitchingKey), new(rlwe.RelinearizationKey), new(rlwe.RotationKeySet), new(ring.Ring)}[kind]
}

var kindNames = []string{"polynomial", "pair Q,P", "rlwe ciphertext", "ckks ciphertext", "secret key", "public key", "switching key", "relinearization key", "rotation keys", "ring"}

func init() { replayers["serial"] = replaySerial }

func replaySerial(r *R, t *Trace) {
	var objs []interface{}
	for _, v := range t.States[0].F("objs").List() {
		objs = append(objs, objOf(v).build())
	}
	type blob struct {
		b     []byte
		codec int
		o     objSpec
	}
	blobs := make([]blob, len(t.States[0].F("blobs").List()))
	written := map[string][]byte{}
	buf := utils.NewBuffer(nil)
	rnd := uint64(12345)
	junk := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			rnd = mixWord(rnd)
			b[i] = byte(rnd)
		}
		return b
	}
	for i := 1; i < len(t.States); i++ {
		st := t.States[i]
		a := st.F("act")
		op := a.F("op").Str()
		specs := st.F("objs").List()
		x, z := a.F("x").Int(), a.F("z").Int()
		switch op {
		case "Make":
			r.Step(i, "Load", "load")
			objs[z] = objOf(specs[z]).build()
			continue
		case "Mutate":
			r.Step(i, "Load", "mutate")
			objOf(specs[z]).mutate(objs[z])
		case "Encode":
			bs := st.F("blobs").List()[z]
			codec := bs.F("codec").Int()
			o := objOf(bs.F("o"))
			r.Step(i, "Encode "+kindNames[o.kind], fmt.Sprintf("codec %d %s", codec, bs.F("o").JSON()))
			var data []byte
			var err error
			want := -1
			if m, ok := objs[x].(measured); ok {
				want = m.GetDataLen(true)
			}
			switch codec {
			case 0:
				data, err = objs[x].(marshaler).MarshalBinary()
				if err != nil {
					r.FailFor("S01", "encoding fails: %v", err)
				}
				if want >= 0 && len(data) != want {
					r.FailFor("S01", "the encoding has %d bytes, %d were announced", len(data), want)
				}
			case 3:
				v := objs[x].(*ring.Poly)
				want = v.GetDataLen(false)
				b := junk(want + 11)
				at := int(rnd % 8)
				head, tail := append([]byte{}, b[:at]...), append([]byte{}, b[at+want:]...)
				var n int
				if at == 0 {
					n, err = v.WriteCoeffs(b)
				} else {
					n, err = ring.WriteCoeffsTo(at, v.Degree(), v.LenModuli(), v.Coeffs, b)
				}
				if err != nil || n != at+want {
					r.FailFor("S01", "writing %d bytes of words at %d ends at %d: %v", want, at, n, err)
				}
				if !bytes.Equal(head, b[:at]) || !bytes.Equal(tail, b[at+want:]) {
					r.FailFor("S01", "bytes around the words were overwritten")
				}
				data = b[at : at+want : at+want]
			case 1, 2:
				var n int
				var write func([]byte) (int, error)
				switch v := objs[x].(type) {
				case *ring.Poly:
					write = v.WriteTo
					if codec == 2 {
						write = v.WriteTo32
						want = v.GetDataLen32(true)
					}
				case *rlwe.PolyQP:
					write = v.WriteTo
				}
				pad := int(rnd % 9)
				b := junk(want + pad)
				tail := append([]byte{}, b[want:]...)
				n, err = write(b)
				if err != nil {
					r.FailFor("S01", "encoding into a buffer fails: %v", err)
				}
				if n != want {
					r.FailFor("S01", "%d bytes were written, %d were announced", n, want)
				}
				if !bytes.Equal(tail, b[want:]) {
					r.FailFor("S01", "bytes after the encoding were overwritten")
				}
				data = b[:want:want]
				if o.kind == 0 {
					if _, err = write(make([]byte, want-1)); err == nil {
						r.FailFor("S01", "writing into a buffer that is too short is not refused")
					}
				}
			}
			r.Count(len(data))
			key := fmt.Sprint(codec == 2, codec == 3, bs.F("o").JSON())
			if old, ok := written[key]; ok {
				if !bytes.Equal(old, data) {
					r.FailFor("S01", "encoding the same %s again gives other bytes (first difference at %d of %d)", kindNames[o.kind], firstDiff(old, data), len(data))
				}
			} else {
				written[key] = append([]byte{}, data...)
			}
			blobs[z] = blob{data, codec, o}
		case "Decode":
			b := blobs[x]
			isFresh := a.F("fresh").Bool()
			r.Step(i, "Decode "+kindNames[b.o.kind], fmt.Sprintf("fresh %v codec %d %s into %s", isFresh, b.codec, specs[z].JSON(), t.States[i-1].F("objs").List()[z].JSON()))
			if isFresh {
				objs[z] = fresh(b.o.kind)
			}
			data := append([]byte{}, b.b...)
			var err error
			n := len(data)
			switch b.codec {
			case 0:
				err = objs[z].(unmarshaler).UnmarshalBinary(data)
			case 1:
				data = append(data, junk(int(rnd%5))...)
				n, err = objs[z].(interface {
					DecodePolyNew([]byte) (int, error)
				}).DecodePolyNew(data)
			case 3:
				o := objOf(specs[z])
				at := int(rnd % 8)
				data = append(append(junk(at), data...), junk(3)...)
				p := ring.NewPoly(1<<o.logn, o.lq+1)
				objs[z] = p
				if rnd>>10&1 == 0 {
					for _, l := range p.Coeffs {
						for k := range l {
							l[k] = mixWord(uint64(k))
						}
					}
					n, err = ring.DecodeCoeffs(at, 1<<o.logn, o.lq+1, p.Coeffs, data)
				} else {
					p.Coeffs = make([][]uint64, o.lq+1)
					n, err = ring.DecodeCoeffsNew(at, 1<<o.logn, o.lq+1, p.Coeffs, data)
				}
				n -= at
			case 2:
				data = append(data, junk(int(rnd%5))...)
				n, err = objs[z].(*ring.Poly).DecodePolyNew32(data)
			}
			if err != nil {
				r.FailFor("S01", "decoding fails: %v", err)
			}
			if n != len(b.b) {
				r.FailFor("S01", "decoding takes %d bytes of %d", n, len(b.b))
			}
			for k := range data {
				data[k] ^= 0x5a
			}
		case "Cut":
			b := blobs[x]
			w := a.F("ws").List()[0]
			more, v := w.F("b").Int() == 8, w.F("v").Int()
			r.Step(i, "Cut "+kindNames[b.o.kind], fmt.Sprintf("%d whole keys kept, then %d (more %v)", z, v, more))
			cut(r, b.b, b.codec, b.o, z, v, more, a.F("res").Bool(), junk)
		case "Copy":
			r.Step(i, "Copy "+kindNames[specs[z].F("kind").Int()], specs[z].JSON())
			switch v := objs[x].(type) {
			case *ring.Poly:
				objs[z] = v.CopyNew()
			case *rlwe.PolyQP:
				c := v.CopyNew()
				objs[z] = &c
			case *rlwe.Ciphertext:
				objs[z] = v.CopyNew()
			case *ckks.Ciphertext:
				objs[z] = v.CopyNew()
			case *rlwe.SecretKey:
				objs[z] = v.CopyNew()
			case *rlwe.PublicKey:
				objs[z] = v.CopyNew()
			case *rlwe.SwitchingKey:
				objs[z] = v.CopyNew()
			case *rlwe.RelinearizationKey:
				objs[z] = v.CopyNew()
			default:
				die("no copy of %T", v)
			}
		case "Equal":
			r.Step(i, "Equal "+kindNames[specs[z].F("kind").Int()], specs[x].JSON()+" "+specs[z].JSON())
			if a.F("fresh").Bool() {
				objs[z] = objOf(specs[z]).build()
			}
			want := a.F("res").Bool()
			for _, ab := range [][2]interface{}{{objs[x], objs[z]}, {objs[z], objs[x]}} {
				var got bool
				switch v := ab[0].(type) {
				case *ring.Poly:
					got = v.Equals(ab[1].(*ring.Poly))
				case *rlwe.PolyQP:
					got = v.Equals(*ab[1].(*rlwe.PolyQP))
				case *rlwe.PublicKey:
					got = v.Equals(ab[1].(*rlwe.PublicKey))
				case *rlwe.SwitchingKey:
					got = v.Equals(ab[1].(*rlwe.SwitchingKey))
				case *rlwe.RelinearizationKey:
					got = v.Equals(ab[1].(*rlwe.RelinearizationKey))
				case *rlwe.RotationKeySet:
					got = v.Equals(ab[1].(*rlwe.RotationKeySet))
				}
				r.Count(1)
				if got != want {
					r.FailFor("S01", "Equals says %v, must be %v", got, want)
				}
				absent(r, ab[0])
			}
			if v, ok := objs[x].(*rlwe.RotationKeySet); ok {
				if got := v.Includes(objs[z].(*rlwe.RotationKeySet)); got != a.F("inc").Bool() {
					r.FailFor("S01", "Includes says %v, must be %v", got, a.F("inc").Bool())
				}
				for _, e := range [][2]int{{x, x}, {x, z}} {
					o := objs[e[0]].(*rlwe.RotationKeySet)
					for _, g := range specs[e[1]].F("gals").Uints() {
						want := false
						for _, h := range specs[e[0]].F("gals").Uints() {
							want = want || g == h
						}
						key, got := o.GetRotationKey(g)
						if got != want || got != (key != nil) {
							r.FailFor("S01", "GetRotationKey(%d) says %v, must be %v", g, got, want)
						}
					}
				}
			}
		case "Put", "PutMany", "Take", "TakeMany":
			r.Step(i, op, a.F("ws").JSON())
			size := x
			var ws []uint64
			for _, w := range a.F("ws").List() {
				ws = append(ws, w.F("v").Big().Uint64())
			}
			bs := make([]uint8, len(ws))
			got := make([]uint64, len(ws))
			for k, w := range ws {
				bs[k] = byte(w)
			}
			switch {
			case op == "Put" && size == 1:
				buf.WriteUint8(bs[0])
			case op == "Put":
				buf.WriteUint64(ws[0])
			case op == "PutMany" && size == 1:
				buf.WriteUint8Slice(bs)
			case op == "PutMany":
				buf.WriteUint64Slice(ws)
			case op == "Take" && size == 1:
				got[0] = uint64(buf.ReadUint8())
			case op == "Take":
				got[0] = buf.ReadUint64()
			case op == "TakeMany" && size == 1:
				g8 := make([]uint8, len(ws))
				buf.ReadUint8Slice(g8)
				for k := range g8 {
					got[k] = uint64(g8[k])
				}
			default:
				buf.ReadUint64Slice(got)
			}
			r.Count(len(ws))
			if op == "Take" || op == "TakeMany" {
				for k := range ws {
					if got[k] != ws[k] {
						r.FailFor("S01", "word %d read from the buffer is %d, must be %d", k, got[k], ws[k])
					}
				}
			}
			total := 0
			for _, w := range st.F("queue").List() {
				total += w.F("b").Int()
			}
			if len(buf.Bytes()) != total {
				r.FailFor("S01", "the buffer holds %d bytes, must hold %d", len(buf.Bytes()), total)
			}
		default:
			die("unknown operation %s", op)
		}
		for k, v := range specs {
			o := objOf(v)
			r.Count(1)
			if d := diffObj(objs[k], o.build()); d != "" {
				what := "register %d, which the call does not concern, (%s) %s"
				if k == z && (op == "Decode" || op == "Copy") {
					what = "the result %d (%s) %s"
				} else if k == x {
					what = "the source %d (%s) %s"
				}
				r.FailFor("S01", what, k, kindNames[o.kind], d)
			}
		}
	}
	r.Sample(map[string]interface{}{"trace": t.File, "calls": callNames(t)})
}

// cut: what a new receiver says of a document that was cut short, or that something follows
func cut(r *R, data []byte, codec int, o objSpec, keys, v int, more, taken bool, junk func(int) []byte) {
	at := 0
	switch {
	case more:
		at = len(data)
	case o.kind == 8 && o.n == 0:
	case o.kind == 8:
		one := len(data) / o.n
		at = keys*one + one*v/1000
	default:
		at = len(data) * v / 1000
	}
	// the rest of the buffer that held the document still holds the rest of the document
	doc := append(append([]byte{}, data...), junk(v)...)[:at]
	if more {
		doc = doc[:at+v]
	}
	got := fresh(o.kind)
	err := attempt(func() (err error) {
		switch codec {
		case 0:
			err = got.(unmarshaler).UnmarshalBinary(doc)
		case 1:
			_, err = got.(interface {
				DecodePolyNew([]byte) (int, error)
			}).DecodePolyNew(doc)
		case 2:
			_, err = got.(*ring.Poly).DecodePolyNew32(doc)
		case 3:
			p := ring.NewPoly(1<<o.logn, o.lq+1)
			_, err = ring.DecodeCoeffs(0, 1<<o.logn, o.lq+1, p.Coeffs, doc)
		}
		return
	})
	r.Count(1)
	if !taken && err == nil {
		r.FailFor("S01", "%d bytes, where the encoding has %d, are taken for a %s", len(doc), len(data), kindNames[o.kind])
	}
	if !taken {
		return
	}
	if err != nil {
		r.FailFor("S01", "rotation keys cut after %d of %d keys are refused: %v", keys, o.n, err)
	}
	set, whole := got.(*rlwe.RotationKeySet).Keys, o.build().(*rlwe.RotationKeySet).Keys
	if len(set) != keys {
		r.FailFor("S01", "rotation keys cut after %d of %d keys give %d keys", keys, o.n, len(set))
	}
	for g := range set {
		if d := diffSwk(set[g], whole[g]); d != "" {
			r.FailFor("S01", "rotation keys cut after %d of %d keys: key %d %s", keys, o.n, g, d)
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// absent: no object equals an absent one, which equals itself, and copies to an absent one
func absent(r *R, o interface{}) {
	var left, right, none, cp bool
	err := attempt(func() error {
		switch v := o.(type) {
		case *ring.Poly:
			var n *ring.Poly
			left, right, none, cp = v.Equals(n), n.Equals(v), n.Equals(n), true
		case *rlwe.PublicKey:
			var n *rlwe.PublicKey
			left, right, none, cp = v.Equals(n), n.Equals(v), n.Equals(n), n.CopyNew() == nil
		case *rlwe.SwitchingKey:
			var n *rlwe.SwitchingKey
			left, right, none, cp = v.Equals(n), n.Equals(v), n.Equals(n), n.CopyNew() == nil
		case *rlwe.RelinearizationKey:
			var n *rlwe.RelinearizationKey
			left, right, none, cp = v.Equals(n), n.Equals(v), n.Equals(n), n.CopyNew() == nil
		case *rlwe.RotationKeySet:
			var n *rlwe.RotationKeySet
			left, right, none, cp = v.Equals(n), n.Equals(v), n.Equals(n), true
		default:
			none, cp = true, true
		}
		return nil
	})
	r.Count(4)
	if err != nil || left || right || !none || !cp {
		r.FailFor("S01", "%T and an absent object: Equals %v and %v, absent with itself %v, its copy absent %v, %v", o, left, right, none, cp, err)
	}
}
