package main

import (
	"fmt"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func init() { replayers["refuse"] = replayRefuse }

// one set of parameters, with its keys
type refRing struct {
	p    rlwe.Parameters
	cp   ckks.Parameters
	ci   bool
	kg   rlwe.KeyGenerator
	sk   []*rlwe.SecretKey
	pk   []*rlwe.PublicKey
	ints [][]int64
	poly *ring.Poly // in use by the maps
	pt   *ckks.Plaintext
	ct   *ckks.Ciphertext
}

type refCtx struct {
	g   []*refRing
	crt []*crtBasis
}

var refCache *refCtx

func getRefCtx(r *R) *refCtx {
	if refCache != nil {
		return refCache
	}
	c := &refCtx{}
	qs := r.cfg.Uints("QS")
	for l := range qs {
		c.crt = append(c.crt, newCRT(qs[:l+1]))
	}
	for _, row := range r.cfg["RINGS"].([]interface{}) {
		x := row.([]interface{})
		g := &refRing{ci: intOf(x[1]) == 1}
		ty := ring.Standard
		if g.ci {
			ty = ring.ConjugateInvariant
		}
		ps := r.cfg.Uints("PS")
		if intOf(x[2]) == 0 {
			ps = nil
		}
		var err error
		if g.p, err = rlwe.NewParameters(intOf(x[0]), qs, ps, 8, 3.2, ty); err != nil {
			r.Fail("cannot create the parameters: %v", err)
		}
		if g.cp, err = ckks.NewParameters(g.p, g.p.LogN()-1, 1024); err != nil {
			r.Fail("cannot create the CKKS parameters: %v", err)
		}
		g.kg = rlwe.NewKeyGenerator(g.p)
		for k := 0; k < r.cfg.Int("NK", 2); k++ {
			sk := g.kg.GenSecretKey()
			g.sk = append(g.sk, sk)
			g.pk = append(g.pk, g.kg.GenPublicKey(sk))
			g.ints = append(g.ints, secretInts(g.p.RingQ(), sk.Value.Q))
		}
		g.pt = ckks.NewPlaintext(g.cp, g.p.MaxLevel(), 1)
		for i, row := range g.pt.Value.Coeffs {
			for k := range row {
				row[k] = smallMod(int64(k*k+1)<<20, g.p.Q()[i])
			}
		}
		g.p.RingQ().NTT(g.pt.Value, g.pt.Value)
		g.pt.Value.IsNTT = true
		g.ct = ckks.NewCiphertext(g.cp, 1, g.p.MaxLevel(), 1)
		rlwe.NewEncryptor(g.p, g.sk[0]).Encrypt(g.pt.Plaintext, g.ct.Ciphertext)
		g.poly = clonePoly(g.ct.Value[1])
		c.g = append(c.g, g)
	}
	refCache = c
	return c
}

func hashQP(p rlwe.PolyQP) uint64 {
	h := hashPolys(p.Q)
	if p.P != nil {
		h = h*31 + hashPolys(p.P)
	}
	return h
}

func (c *refCtx) hashes() (h []uint64) {
	for _, g := range c.g {
		for k := range g.sk {
			h = append(h, hashQP(g.sk[k].Value), hashQP(g.pk[k].Value[0]), hashQP(g.pk[k].Value[1]))
		}
		h = append(h, hashPolys(g.pt.Value), hashPolys(g.ct.Value[0], g.ct.Value[1]), hashPolys(g.poly))
	}
	return
}

// an encryptor or a decryptor in a slot, with what it was made for
type refSlot struct {
	enc  rlwe.Encryptor
	cenc ckks.Encryptor
	dec  rlwe.Decryptor
	cdec ckks.Decryptor
}

func replayRefuse(r *R, t *Trace) {
	c := getRefCtx(r)
	slots := make([]refSlot, r.cfg.Int("NS", 3))
	for i := 1; i < len(t.States); i++ {
		st := t.States[i]
		a := st.F("act")
		op, api, z, z2 := a.F("op").Str(), a.F("api").Int(), a.F("z").Int(), a.F("z2").Int()
		g, legal := c.g[a.F("ring").Int()], a.F("legal").Bool()
		kind, key, k, lvl := a.F("kind").Int(), a.F("key").Int(), a.F("k").Int(), a.F("lvl").Int()
		o, o2 := c.g[a.F("kr").Int()], c.g[a.F("kr2").Int()]
		r.Step(i, op, fmt.Sprintf("%s(api=%d slot=%d to=%d N=%d ci=%v P=%d; key: kind=%d N=%d,%d; k=%d level=%d) that is possible: %v",
			op, api, z, z2, g.p.N(), g.ci, g.p.PCount(), kind, o.p.N(), o2.p.N(), k, lvl, legal))
		h0 := c.hashes()
		var k0 interface{}
		switch kind {
		case 0:
			k0 = o.sk[key]
		case 1:
			k0 = o.pk[key]
		case 2:
			k0 = &rlwe.PublicKey{Value: [2]rlwe.PolyQP{o.pk[key].Value[0], o2.pk[key].Value[1]}}
		default:
			k0 = []interface{}{nil, *g.sk[key], g.sk[key].Value, g.pk[key].Value, &rlwe.SwitchingKey{}, key}[k]
		}
		var swk []*rlwe.SwitchingKey
		p1, p2 := clonePoly(g.poly), clonePoly(o.poly)
		next := refSlot{}
		err := attempt(func() error {
			ck := a.F("ckks").Bool()
			switch op {
			case "New":
				switch {
				case api == 0 && ck:
					next.cenc = ckks.NewEncryptor(g.cp, k0)
				case api == 0:
					next.enc = rlwe.NewEncryptor(g.p, k0)
				case ck:
					next.cdec = ckks.NewDecryptor(g.cp, o.sk[key])
				default:
					next.dec = rlwe.NewDecryptor(g.p, o.sk[key])
				}
			case "WithKey":
				s := slots[z]
				switch {
				case s.cenc != nil:
					next.cenc = s.cenc.WithKey(k0)
				case s.enc != nil:
					next.enc = s.enc.WithKey(k0)
				case s.cdec != nil:
					next.cdec = s.cdec.WithKey(o.sk[key])
				default:
					next.dec = s.dec.WithKey(o.sk[key])
				}
			case "Mask":
				ct := ckks.NewCiphertext(g.cp, 1, lvl, 1)
				before := hashPolys(ct.Value...)
				defer func() {
					if !legal && hashPolys(ct.Value...) != before {
						r.FailFor("E01", "the ciphertext has changed")
					}
				}()
				if s := slots[z]; s.cenc != nil {
					s.cenc.EncryptFromCRP(g.pt, g.poly, ct)
				} else {
					s.enc.EncryptFromCRP(g.pt.Plaintext, g.poly, ct.Ciphertext)
				}
			case "RowGalois":
				g.p.GaloisElementForRowRotation()
			case "SumGalois":
				g.p.GaloisElementsForRowInnerSum()
			case "Gen":
				sk := g.sk[key]
				sets := func(s *rlwe.RotationKeySet) {
					for _, x := range s.Keys {
						swk = append(swk, x)
					}
				}
				switch api {
				case 0:
					swk = append(swk, g.kg.GenSwitchingKey(sk, g.sk[(key+1)%len(g.sk)]))
				case 1, 2:
					swk = append(swk, g.kg.GenRelinearizationKey(sk, api).Keys...)
				case 3:
					swk = append(swk, g.kg.GenSwitchingKeyForRotationBy(k, sk))
				case 4:
					swk = append(swk, g.kg.GenSwitchingKeyForRowRotation(sk))
				case 5:
					swk = append(swk, g.kg.GenSwitchingKeyForGalois(g.p.GaloisElementForColumnRotationBy(k), sk))
				case 6:
					sets(g.kg.GenRotationKeysForInnerSum(sk))
				case 7, 8:
					sets(g.kg.GenRotationKeysForRotations([]int{k, 1}, api == 8, sk))
				default:
					sets(g.kg.GenRotationKeys([]uint64{g.p.GaloisElementForColumnRotationBy(k)}, sk))
				}
			case "Map":
				rg := g.p.RingQ()
				switch api {
				case 0:
					rg.UnfoldConjugateInvariantToStandard(lvl, p1, p2)
				case 1:
					o.p.RingQ().FoldStandardToConjugateInvariant(lvl, p1, rg.PermuteNTTIndex(rg.NthRoot-1), p2)
				case 2:
					rg.FoldStandardToConjugateInvariant(lvl, p1, rg.PermuteNTTIndex(rg.NthRoot-1), p1)
				default:
					if o == g {
						ring.PadDefaultRingToConjuateInvariant(p1, rg, p1)
					} else {
						ring.PadDefaultRingToConjuateInvariant(p1, rg, p2)
					}
				}
			}
			return nil
		})
		r.Count(1)
		if legal && err != nil {
			r.FailFor("E01", "the request can be carried out and is refused: %v", err)
		}
		if !legal && err == nil {
			r.FailFor("E01", "the request is not refused")
		}
		if legal && (op == "New" || op == "WithKey") {
			slots[z2] = next
		}
		if legal && op == "Gen" && len(swk) == 0 {
			r.FailFor("E01", "no key is generated")
		}
		if !legal && (hashPolys(p1) != hashPolys(g.poly) || hashPolys(p2) != hashPolys(o.poly)) {
			r.FailFor("E01", "the request is refused (%v) but has changed an operand", err)
		}
		h1 := c.hashes()
		r.Count(len(h0))
		for k := range h0 {
			if h0[k] != h1[k] {
				r.FailFor("E01", "a key or an operand has changed (%d)", k)
			}
		}
		// what the slots hold still works, for the keys it was made for
		ss := st.F("slots").List()
		for k := range slots {
			c.works(r, k, slots[k], ss[k])
		}
		if op == "Gen" {
			pk := g.kg.GenPublicKey(g.sk[key])
			cv := []*ring.Poly{clonePoly(pk.Value[0].Q), clonePoly(pk.Value[1].Q)}
			for _, p := range cv {
				p.IsNTT = true
			}
			c.near(r, g, cv, key, false, "after the request the generator's public key")
		}
	}
}

// near: the phase is the message of pt (or zero) with small noise
func (c *refCtx) near(r *R, g *refRing, cv []*ring.Poly, key int, msg bool, what string) {
	lvl := cv[0].Level()
	words := phase(g.p.RingQ(), lvl, cv, g.ints[key], g.ci)
	q, x, lim := c.crt[lvl], new(big.Int), big.NewInt(1<<13)
	for k := range words[0] {
		d := q.get(words, k)
		if msg {
			d.Sub(d, x.SetInt64(int64(k*k+1)<<20))
		}
		d.Mod(d, q.Q)
		if d.Cmp(q.half) > 0 {
			d.Sub(d, q.Q)
		}
		r.Count(1)
		if d.CmpAbs(lim) > 0 {
			r.FailFor("E01", "%s is wrong by %s in coefficient %d", what, d, k)
		}
	}
}

func (c *refCtx) works(r *R, i int, s refSlot, e Val) {
	what, g, key := e.F("what").Int(), c.g[e.F("ring").Int()], e.F("key").Int()
	if what == 0 {
		return
	}
	if what < 3 {
		ct := ckks.NewCiphertext(g.cp, 1, g.p.MaxLevel(), 1)
		if s.cenc != nil {
			s.cenc.Encrypt(g.pt, ct)
		} else {
			s.enc.Encrypt(g.pt.Plaintext, ct.Ciphertext)
		}
		c.near(r, g, ct.Value, key, true, fmt.Sprintf("encryption in slot %d", i))
		return
	}
	pt := ckks.NewPlaintext(g.cp, g.p.MaxLevel(), 1)
	if s.cdec != nil {
		s.cdec.Decrypt(g.ct, pt)
	} else {
		s.dec.Decrypt(g.ct.Ciphertext, pt.Plaintext)
	}
	words := phase(g.p.RingQ(), pt.Level(), g.ct.Value, g.ints[key], g.ci)
	got := clonePoly(pt.Value)
	if got.IsNTT {
		g.p.RingQ().InvNTT(got, got)
	}
	for l := range words {
		for k := range words[l] {
			r.Count(1)
			if words[l][k] != got.Coeffs[l][k]%g.p.Q()[l] {
				r.FailFor("E01", "decryption in slot %d gives another value", i)
			}
		}
	}
}
