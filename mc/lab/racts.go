package lab

import (
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
	"verifmc/mc"
)

// REnv is an environment of the generic layer: operands that are arbitrary
// ring elements, and the instances of a user of mkrlwe.
type REnv struct {
	X              *mc.X
	C              *RL
	I, Judge       *rInst
	A, S, T, L0, N *mkrlwe.Ciphertext // N: in the NTT domain
	U              *mkrlwe.Ciphertext // shares a component with s
	HA, HS, HT     *mkrlwe.HoistedCiphertext
	P, PN          *ring.Poly // a polynomial in either domain
	DP             *mkrlwe.SwitchingKey
	G              *mkrlwe.SwitchingKey // gadget encryption of the first secret
	Pt, PtN        *rlwe.Plaintext
	Pub            *mkrlwe.Ciphertext // a public component only
	Objs           []Obj
	klab           *KeyLab
	rots           []int
	bound          int
}

// rInst are the instances and key containers of one user.
type rInst struct {
	Enc *mkrlwe.Encryptor
	Dec *mkrlwe.Decryptor
	KS  *mkrlwe.KeySwitcher
	KG  *mkrlwe.KeyGenerator
	Rlk *mkrlwe.RelinearizationKeySet
	Rtk *mkrlwe.RotationKeySet
	Cjk *mkrlwe.ConjugationKeySet
	SKs *mkrlwe.SecretKeySet
}

func newRInst(c *RL) *rInst {
	return seg(func() *rInst {
		return &rInst{mkrlwe.NewEncryptor(c.Params), mkrlwe.NewDecryptor(c.Params), mkrlwe.NewKeySwitcher(c.Params), mkrlwe.NewKeyGenerator(c.Params),
			c.RlkSet(), c.RtkSet(), c.CjkSet(), c.SKSet()}
	})
}

// NewREnv builds the operands of an environment.
func NewREnv(x *mc.X, c *RL) *REnv { return newREnv(x, c, 0) }

func newREnv(x *mc.X, c *RL, k int) *REnv {
	e := &REnv{X: x, C: c, Judge: newRInst(c), bound: 12 + c.Lit.LogN}
	p := c.Params
	max := p.MaxLevel()
	id := c.IDs
	e.A = UniformCT(p, max, 1+17*uint64(k), id[0])
	e.S = UniformCT(p, max, 2+17*uint64(k), id[0], id[1])
	e.T = UniformCT(p, (max+1)/2, 3+17*uint64(k), id[len(id)-1], id[1])
	e.L0 = UniformCT(p, 0, 4+17*uint64(k), id[0], id[1])
	e.N = UniformCT(p, max, 5+17*uint64(k), id[0], id[1])
	for _, q := range e.N.Value {
		q.IsNTT = true
	}
	e.U = UniformCT(p, max, 10+17*uint64(k), id[0], id[1])
	e.U.Value[id[1]] = e.S.Value[id[1]]
	ks := e.Judge.KS
	mc.Segment(func() { e.HA, e.HS, e.HT = HoistRL(ks, e.A, max), HoistRL(ks, e.S, max), HoistRL(ks, e.T, e.T.Level()) })
	e.P = UniformPoly(p.RingQ(), max, 6+17*uint64(k))
	e.PN = UniformPoly(p.RingQ(), max, 7+17*uint64(k))
	e.PN.IsNTT = true
	e.DP = mkrlwe.NewSwitchingKey(p)
	mc.Segment(func() { ks.Decompose(max, e.P, e.DP) })
	e.G = mkrlwe.NewSwitchingKey(p)
	mc.Segment(func() { e.Judge.KG.GenSwitchingKey(c.SK[id[0]], e.G) })
	e.Pt, e.PtN = rlwe.NewPlaintext(p.Parameters, max), rlwe.NewPlaintext(p.Parameters, max)
	e.Pt.Value.Copy(UniformPoly(p.RingQ(), max, 8+17*uint64(k)))
	e.PtN.Value.Copy(UniformPoly(p.RingQ(), max, 9+17*uint64(k)))
	e.PtN.Value.IsNTT = true
	e.Objs = []Obj{
		ObjRL("operand a", e.A), ObjRL("operand s", e.S), ObjRL("operand t", e.T), ObjRL("operand u", e.U), ObjRL("operand l0", e.L0), ObjRL("operand n", e.N),
		ObjHoisted("hoisted form of a", e.HA), ObjHoisted("hoisted form of s", e.HS), ObjHoisted("hoisted form of t", e.HT),
		ObjPoly("operand p", e.P), ObjPoly("operand pn", e.PN), ObjSwk("hoisted form of p", e.DP), ObjSwk("operand gadget", e.G),
		ObjPoly("plaintext", e.Pt.Value), ObjPoly("plaintext (NTT)", e.PtN.Value),
	}
	e.klab = NewKeyLab(p)
	e.rots = RotsOf(&c.Keys, id[0])
	e.Fresh()
	return e
}

// Fresh replaces the instances by new ones.
func (e *REnv) Fresh() { e.I = newRInst(e.C) }

// Keep gives the instances the rotation, conjugation and secret key sets of
// the judge: those may be shared.
func (e *REnv) Keep() { e.I.Rtk, e.I.Cjk, e.I.SKs = e.Judge.Rtk, e.Judge.Cjk, e.Judge.SKs }

// Twin is the environment of another thread.
func (e *REnv) Twin(x *mc.X) *REnv {
	f := *e
	f.X = x
	f.Judge = newRInst(e.C)
	f.Judge.Rtk, f.Judge.Cjk, f.Judge.SKs = e.Judge.Rtk, e.Judge.Cjk, e.Judge.SKs
	f.Fresh()
	return &f
}

func (e *REnv) phase(ct *mkrlwe.Ciphertext, level int) []*big.Int {
	return Phase(e.C.Params, Truncate(e.C.Params, ct, level), e.C.SK)
}

// ct is a ciphertext whose phase is known up to bits.
func (e *REnv) ct(name string, ct *mkrlwe.Ciphertext, ids []string, level, bits int, want func() []*big.Int) Out {
	r := e.C.Params.RingQ()
	return Out{
		Objs: []Obj{ObjRL("result of "+name, ct)},
		CT:   ct,
		Sum:  Canon(r, ct),
		Verify: func() {
			x := e.X
			if len(ct.Value) != len(ids)+1 {
				x.Fail("%s: the result has %d components, the parties are %v", name, len(ct.Value), ids)
			}
			for _, id := range append([]string{"0"}, ids...) {
				if ct.Value[id] == nil || len(ct.Value[id].Coeffs) != level+1 {
					x.Fail("%s: the component of %q is missing or not of level %d", name, id, level)
				}
			}
			if b := ErrBits(e.C.Params, level, Phase(e.C.Params, ct, e.C.SK), want()); b > bits {
				x.Fail("%s: the phase of the result is off by %d bits (bound %d)", name, b, bits)
			}
		},
	}
}

// poly is a polynomial whose value is known up to bits.
func (e *REnv) poly(name string, p *ring.Poly, level, bits int, want func() []*big.Int) Out {
	r := e.C.Params.RingQ()
	ct := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": p}}
	return Out{
		Objs: []Obj{ObjPoly("result of "+name, p)},
		CT:   ct,
		Sum:  Canon(r, Truncate(e.C.Params, ct, level)),
		Verify: func() {
			if b := ErrBits(e.C.Params, level, e.phase(ct, level), want()); b > bits {
				e.X.Fail("%s: the result is off by %d bits (bound %d)", name, b, bits)
			}
		},
	}
}

func (e *REnv) key(name string, obj Obj, f func() ([]KeyErr, error)) Out {
	return Out{Objs: []Obj{obj}, Verify: func() {
		if _, err := f(); err != nil {
			e.X.Fail("%s: %v", name, err)
		}
	}}
}

func idsOf(cts ...*mkrlwe.Ciphertext) []string {
	m := map[string]bool{}
	for _, c := range cts {
		for id := range c.Value {
			if id != "0" {
				m[id] = true
			}
		}
	}
	return sortedKeys(m)
}

// RAct is one operation of the generic layer.
type RAct struct {
	Name string
	Fail bool
	Rand bool
	Run  func(e *REnv) Out
}

// RActs lists the acts.
func RActs() []RAct {
	var as []RAct
	add := func(name string, f func(e *REnv) Out) { as = append(as, RAct{Name: name, Run: f}) }
	rnd := func(name string, f func(e *REnv) Out) { as = append(as, RAct{Name: name, Rand: true, Run: f}) }
	fail := func(name string, f func(e *REnv)) {
		as = append(as, RAct{Name: name, Fail: true, Run: func(e *REnv) Out { f(e); return Out{} }})
	}
	type ctp = *mkrlwe.Ciphertext
	type hp = *mkrlwe.HoistedCiphertext
	mul := func(name string, f func(e *REnv) (a, b ctp, ha, hb hp, hoisted bool)) {
		add(name, func(e *REnv) Out {
			a, b, ha, hb, hoisted := f(e)
			level := minI(a.Level(), b.Level())
			ids := idsOf(a, b)
			out := mkrlwe.NewCiphertext(e.C.Params, Set(ids...), level)
			if hoisted {
				e.I.KS.MulAndRelinHoisted(a, b, ha, hb, e.I.Rlk, out)
			} else {
				e.I.KS.MulAndRelin(a, b, e.I.Rlk, out)
			}
			return e.ct(name, out, ids, level, e.bound, func() []*big.Int { return NegaMul(e.phase(a, level), e.phase(b, level)) })
		})
	}
	mul("mul(s,t)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.S, e.T, nil, nil, false })
	mul("mul(s,s)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.S, e.S, nil, nil, false })
	mul("mul(u,s)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.U, e.S, nil, nil, false })
	mul("mulh(s,u,hs)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.S, e.U, e.HS, nil, true })
	mul("mul(a,l0)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.A, e.L0, nil, nil, false })
	mul("mul(t,a)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.T, e.A, nil, nil, false })
	mul("mulh(s,t)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.S, e.T, e.HS, e.HT, true })
	mul("mulh(s,s)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.S, e.S, e.HS, e.HS, true })
	mul("mulh(a,s,nil)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.A, e.S, e.HA, nil, true })
	mul("mulh(t,nil,s)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.T, e.S, nil, e.HS, true })
	mul("mulh(l0,a)", func(e *REnv) (a, b ctp, ha, hb hp, h bool) { return e.L0, e.A, nil, nil, true })

	rot := func(name string, k int, f func(e *REnv) (a ctp, h hp)) {
		add(name, func(e *REnv) Out {
			a, h := f(e)
			out := mkrlwe.NewCiphertext(e.C.Params, a.IDSet(), a.Level())
			r := e.rots[k%len(e.rots)]
			if h != nil {
				e.I.KS.RotateHoisted(a, r, h, e.I.Rtk, out)
			} else {
				e.I.KS.Rotate(a, r, e.I.Rtk, out)
			}
			g := e.C.Params.GaloisElementForColumnRotationBy(r)
			return e.ct(name, out, idsOf(a), a.Level(), e.bound, func() []*big.Int { return Automorph(e.phase(a, a.Level()), g) })
		})
	}
	rot("rot(s,0)", 0, func(e *REnv) (ctp, hp) { return e.S, nil })
	rot("rot(t,1)", 1, func(e *REnv) (ctp, hp) { return e.T, nil })
	rot("rot(l0,2)", 2, func(e *REnv) (ctp, hp) { return e.L0, nil })
	rot("roth(s,1)", 1, func(e *REnv) (ctp, hp) { return e.S, e.HS })
	rot("roth(t,0)", 0, func(e *REnv) (ctp, hp) { return e.T, e.HT })
	conj := func(name string, f func(e *REnv) ctp) {
		add(name, func(e *REnv) Out {
			a := f(e)
			out := mkrlwe.NewCiphertext(e.C.Params, a.IDSet(), a.Level())
			e.I.KS.Conjugate(a, e.I.Cjk, out)
			g := e.C.Params.GaloisElementForRowRotation()
			return e.ct(name, out, idsOf(a), a.Level(), e.bound, func() []*big.Int { return Automorph(e.phase(a, a.Level()), g) })
		})
	}
	conj("conj(s)", func(e *REnv) ctp { return e.S })
	conj("conj(l0)", func(e *REnv) ctp { return e.L0 })

	dec := func(name string, level func(e *REnv) int, f func(e *REnv) *ring.Poly) {
		add(name, func(e *REnv) Out {
			p, l := f(e), level(e)
			d := mkrlwe.NewSwitchingKey(e.C.Params)
			e.I.KS.Decompose(l, p, d)
			h := NewH().Swk(d)
			return Out{Objs: []Obj{ObjSwk("result of "+name, d)}, Sum: h, Verify: func() {
				a, b := e.C.Params.RingQ().NewPoly(), e.C.Params.RingQ().NewPoly()
				e.Judge.KS.ExternalProductHoisted(l, d, e.G, a)
				e.Judge.KS.ExternalProduct(l, p, e.G, b)
				x, y := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": a}}, &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": b}}
				if n := ErrBits(e.C.Params, l, e.phase(x, l), e.phase(y, l)); n > e.bound {
					e.X.Fail("%s: the digits do not recompose (%d bits)", name, n)
				}
			}}
		})
	}
	max := func(e *REnv) int { return e.C.Params.MaxLevel() }
	zero := func(e *REnv) int { return 0 }
	dec("decompose(p)", max, func(e *REnv) *ring.Poly { return e.P })
	dec("decompose(pn)", max, func(e *REnv) *ring.Poly { return e.PN })
	dec("decompose(p,level 0)", zero, func(e *REnv) *ring.Poly { return e.P })

	ext := func(name string, level func(e *REnv) int, p func(e *REnv) *ring.Poly, hoisted bool) {
		add(name, func(e *REnv) Out {
			c, l := e.C.Params.RingQ().NewPoly(), level(e)
			a := p(e)
			if hoisted {
				e.I.KS.ExternalProductHoisted(l, e.DP, e.G, c)
			} else {
				e.I.KS.ExternalProduct(l, a, e.G, c)
			}
			return e.poly(name, c, l, e.bound, func() []*big.Int {
				s := Secret(e.C.Params, e.C.SK[e.C.IDs[0]])
				return NegaMul(e.phase(&mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": a}}, l), Ints(s))
			})
		})
	}
	ext("product(p)", max, func(e *REnv) *ring.Poly { return e.P }, false)
	ext("product(pn)", max, func(e *REnv) *ring.Poly { return e.PN }, false)
	ext("product(pn,level 0)", zero, func(e *REnv) *ring.Poly { return e.PN }, false)
	ext("producth(p)", max, func(e *REnv) *ring.Poly { return e.P }, true)
	ext("producth(p,level 0)", zero, func(e *REnv) *ring.Poly { return e.P }, true)

	enc := func(name string, id, level int, ntt bool, f func(e *REnv) *rlwe.Plaintext) {
		rnd(name, func(e *REnv) Out {
			l := level
			if l < 0 {
				l = e.C.Params.MaxLevel()
			}
			p := e.C.IDs[id]
			ct := mkrlwe.NewCiphertext(e.C.Params, Set(p), l)
			if ntt {
				ct = mkrlwe.NewCiphertextNTT(e.C.Params, Set(p), l)
			}
			pt := f(e)
			e.I.Enc.Encrypt(pt, e.C.PK[p], ct)
			o := e.ct(name, ct, []string{p}, l, e.bound, func() []*big.Int {
				return e.phase(&mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": pt.Value}}, l)
			})
			o.Sum = 0
			return o
		})
	}
	enc("enc(pt)", 0, -1, false, func(e *REnv) *rlwe.Plaintext { return e.Pt })
	enc("enc(pt ntt)", 1, -1, false, func(e *REnv) *rlwe.Plaintext { return e.PtN })
	enc("enc(pt, ntt receiver)", 1, -1, true, func(e *REnv) *rlwe.Plaintext { return e.Pt })
	enc("enc(pt ntt, ntt receiver)", 0, -1, true, func(e *REnv) *rlwe.Plaintext { return e.PtN })
	enc("enc(pt, level 0)", 0, 0, false, func(e *REnv) *rlwe.Plaintext { return e.Pt })

	decr := func(name string, ntt bool, level func(e *REnv) int, f func(e *REnv) ctp) {
		add(name, func(e *REnv) Out {
			ct := f(e)
			pt := rlwe.NewPlaintext(e.C.Params.Parameters, level(e))
			pt.Value.IsNTT = ntt
			e.I.Dec.Decrypt(ct, e.I.SKs, pt)
			l := minI(level(e), ct.Level())
			o := e.poly(name, pt.Value, l, 0, func() []*big.Int { return e.phase(ct, l) })
			v := o.Verify
			o.Verify = func() {
				if pt.Value.IsNTT != ntt || pt.Level() != l {
					e.X.Fail("%s: the plaintext is of level %d, in the NTT domain: %v", name, pt.Level(), pt.Value.IsNTT)
				}
				v()
			}
			return o
		})
	}
	decr("dec(s)", false, max, func(e *REnv) ctp { return e.S })
	decr("dec(n)", false, max, func(e *REnv) ctp { return e.N })
	decr("dec(s) ntt", true, max, func(e *REnv) ctp { return e.S })
	decr("dec(l0)", false, max, func(e *REnv) ctp { return e.L0 })
	decr("dec(n, level 0)", true, zero, func(e *REnv) ctp { return e.N })
	part := func(name string, f func(e *REnv) ctp) {
		add(name, func(e *REnv) Out {
			a := f(e)
			ct := a.CopyNew()
			first, others := split(e.C.IDs, idsOf(a))
			e.I.Dec.PartialDecrypt(ct, e.C.SK[first])
			return e.ct(name, ct, others, a.Level(), 0, func() []*big.Int { return e.phase(a, a.Level()) })
		})
	}
	part("partial(t)", func(e *REnv) ctp { return e.T })
	part("partial(n)", func(e *REnv) ctp { return e.N })

	sec := func(name string, bound int64, f func(e *REnv) *mkrlwe.SecretKey) {
		rnd(name, func(e *REnv) Out {
			sk := f(e)
			return e.key(name, ObjSK("result of "+name, sk), func() ([]KeyErr, error) {
				_, err := e.klab.SecretOf(sk, bound)
				return nil, err
			})
		})
	}
	sec("gensk", 1, func(e *REnv) *mkrlwe.SecretKey { return e.I.KG.GenSecretKey("x") })
	sec("gensk gaussian", e6, func(e *REnv) *mkrlwe.SecretKey { return e.I.KG.GenSecretKeyGaussian("x") })
	sec("gensk sparse", 1, func(e *REnv) *mkrlwe.SecretKey { return e.I.KG.GenSecretKeySparse(5, "x") })
	sec("gensk p=.3", 1, func(e *REnv) *mkrlwe.SecretKey { return e.I.KG.GenSecretKeyWithDistrib(0.3, "x") })
	s0 := func(e *REnv) []int64 { return Secret(e.C.Params, e.C.SK[e.C.IDs[0]]) }
	r0 := func(e *REnv) []int64 { return Secret(e.C.Params, e.C.R[e.C.IDs[0]]) }
	rnd("genpk", func(e *REnv) Out {
		pk := e.I.KG.GenPublicKey(e.C.SK[e.C.IDs[0]])
		return e.key("genpk", ObjPK("result of genpk", pk), func() ([]KeyErr, error) { return e.klab.PK(pk, s0(e)) })
	})
	rnd("genrlk", func(e *REnv) Out {
		k := e.I.KG.GenRelinearizationKey(e.C.SK[e.C.IDs[0]], e.C.R[e.C.IDs[0]])
		return e.key("genrlk", ObjRlk("result of genrlk", k), func() ([]KeyErr, error) { return e.klab.Rlk(k, s0(e), r0(e)) })
	})
	rnd("genrtk", func(e *REnv) Out {
		k := e.I.KG.GenRotationKey(e.rots[1], e.C.SK[e.C.IDs[0]])
		return e.key("genrtk", ObjRtk("result of genrtk", k), func() ([]KeyErr, error) { return e.klab.Rtk(k, e.rots[1], s0(e)) })
	})
	rnd("gencjk", func(e *REnv) Out {
		k := e.I.KG.GenConjugationKey(e.C.SK[e.C.IDs[0]])
		return e.key("gencjk", ObjCjk("result of gencjk", k), func() ([]KeyErr, error) { return e.klab.Cjk(k, s0(e)) })
	})
	rnd("genswk", func(e *REnv) Out {
		k := mkrlwe.NewSwitchingKey(e.C.Params)
		e.I.KG.GenSwitchingKey(e.C.SK[e.C.IDs[0]], k)
		return e.key("genswk", ObjSwk("result of genswk", k), func() ([]KeyErr, error) { return e.klab.Swk(k, s0(e)) })
	})
	fail("dec without key", func(e *REnv) {
		e.I.Dec.Decrypt(e.S, e.C.SKSet(e.C.IDs[1]), rlwe.NewPlaintext(e.C.Params.Parameters, e.C.Params.MaxLevel()))
	})
	fail("mul without key", func(e *REnv) {
		e.I.KS.MulAndRelin(e.S, e.A, e.C.RlkSet(e.C.IDs[0]), mkrlwe.NewCiphertext(e.C.Params, e.S.IDSet(), e.S.Level()))
	})
	fail("mulh without key", func(e *REnv) {
		e.I.KS.MulAndRelinHoisted(e.S, e.A, e.HS, e.HA, e.C.RlkSet(e.C.IDs[0]), mkrlwe.NewCiphertext(e.C.Params, e.S.IDSet(), e.S.Level()))
	})
	fail("rot without key", func(e *REnv) {
		e.I.KS.Rotate(e.S, e.rots[0], e.C.RtkSet(e.C.IDs[1]), mkrlwe.NewCiphertext(e.C.Params, e.S.IDSet(), e.S.Level()))
	})
	fail("conj without key", func(e *REnv) {
		e.I.KS.Conjugate(e.S, e.C.CjkSet(e.C.IDs[0]), mkrlwe.NewCiphertext(e.C.Params, e.S.IDSet(), e.S.Level()))
	})
	return as
}

// e6 bounds the coefficients of gaussian secrets.
const e6 = 20
