package lab

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/mc"
)

// Out is what an act produced.
type Out struct {
	Objs   []Obj
	Sum    H // hash of the result modulo the primes, 0 if the result is random
	CT     *mkrlwe.Ciphertext
	Verify func() // checks the result against the model
}

// Act is one public operation on the fixed operands of an environment.
type Act struct {
	Name string
	Fail bool // the operation must fail loudly
	Rand bool // the result is random: no Sum
	Run  func(e *CEnv) Out
}

// CEnv is a CKKS environment: operands shared by the acts, and the instances in W.
type CEnv struct {
	W, Judge                   *World
	A, B, S, T, L1, L0, SC, S2 *CV
	U, AL                      *CV // share a component of s; all of it, under another header
	Z                          *CV // decrypted by all its parties: no identity left
	HS, HT                     *mkrlwe.HoistedCiphertext
	Pt, PtN, PtL               *ckks.Plaintext
	Msg                        *mkckks.Message
	MsgV, PtV, PtNV, PtLV      []complex128
	Objs                       []Obj // operands
	Cnn                        *CnnEnv
	klab                       *KeyLab
}

func (w *World) fork() *World { return NewWorld(w.X, w.C) }

// NewCEnv builds the operands of an environment; the acts use the instances of W.
func NewCEnv(x *mc.X, c *CK) *CEnv { return newCEnv(x, c, 0) }

// newCEnv: k selects the values of the operands.
func newCEnv(x *mc.X, c *CK, k int) *CEnv {
	e := &CEnv{}
	vec := func(n, i int) []complex128 { return Vec(n, i+17*k) }
	w := NewWorld(x, c)
	e.Judge = w
	n := w.Slots()
	max := c.Params.MaxLevel()
	lo := 1
	if max < 1 {
		lo = 0
	}
	id := c.IDs
	e.A = w.Encrypt(vec(n, 1), id[0], max)
	e.B = w.Encrypt(vec(n, 2), id[1], (max+lo)/2)
	e.S = w.Add(w.Encrypt(vec(n, 3), id[0], max), w.Encrypt(vec(n, 4), id[1], max))
	e.T = w.Add(e.S, w.Encrypt(vec(n, 5), id[len(id)-1], max))
	e.L1 = w.Add(w.Encrypt(vec(n, 6), id[1], lo), w.Encrypt(vec(n, 7), id[0], lo))
	e.L0 = w.Add(w.Encrypt(vec(n, 8), id[0], 0), w.Encrypt(vec(n, 9), id[1], 0))
	// a ciphertext of a larger scale
	e.SC = w.unary(e.B, e.B.CT.CopyNew())
	e.SC.CT.Scale *= 1024
	e.SC.Scale *= 1024
	e.SC.Mag /= 1024
	e.SC.Err /= 1024
	for i := range e.SC.V {
		e.SC.V[i] /= 1024
	}
	// a ciphertext to be rescaled
	e.S2 = w.MulConst(e.S, 0.75)
	e.U = w.Sub(e.S, e.A)
	e.U.CT.Value[id[1]] = e.S.CT.Value[id[1]]
	e.Z = w.Copy(e.S)
	for _, i := range e.S.IDs {
		mc.Segment(func() { w.Dec.PartialDecrypt(e.Z.CT, c.SK[i]) })
	}
	e.Z.IDs = nil
	e.AL = w.unary(e.S, &mkckks.Ciphertext{Ciphertext: e.S.CT.Ciphertext, Scale: e.S.CT.Scale})
	e.HS = seg(func() *mkrlwe.HoistedCiphertext { return w.Ev.HoistedForm(e.S.CT) })
	e.HT = seg(func() *mkrlwe.HoistedCiphertext { return w.Ev.HoistedForm(e.T.CT) })
	e.MsgV = vec(n, 11)
	e.PtV, e.PtNV, e.PtLV = vec(n, 9), vec(n, 10), vec(n, 11)
	e.Pt = w.Plain(e.PtV)
	cp := c.Ckks
	enc := ckks.NewEncoder(cp)
	e.PtN = ckks.NewPlaintext(cp, max, cp.Scale())
	enc.EncodeNTT(e.PtN, e.PtNV, cp.LogSlots())
	e.PtL = ckks.NewPlaintext(cp, max-minI(1, max), cp.Scale())
	enc.EncodeNTT(e.PtL, e.PtLV, cp.LogSlots())
	e.Msg = mkckks.NewMessage(c.Params)
	copy(e.Msg.Value, e.MsgV)
	e.Objs = []Obj{
		ObjCK("operand a", e.A.CT), ObjCK("operand b", e.B.CT), ObjCK("operand s", e.S.CT), ObjCK("operand t", e.T.CT),
		ObjCK("operand l1", e.L1.CT), ObjCK("operand l0", e.L0.CT), ObjCK("operand sc", e.SC.CT), ObjCK("operand s2", e.S2.CT), ObjCK("operand u", e.U.CT), ObjCK("operand z", e.Z.CT),
		ObjHoisted("hoisted form of s", e.HS), ObjHoisted("hoisted form of t", e.HT), ObjPt("plaintext", e.Pt), ObjPt("NTT plaintext", e.PtN), ObjPt("plaintext of a lower level", e.PtL), ObjMsgC("message", e.Msg),
	}
	if c.Lit.Cnn {
		e.Cnn = newCnnEnv(e, vec)
	}
	e.W = w.fork()
	e.klab = NewKeyLab(c.Params.Parameters)
	return e
}

// split returns the first party, in the order of creation, of ids and the others.
func split(all, ids []string) (first string, others []string) {
	var in []string
	for _, id := range all {
		for _, j := range ids {
			if id == j {
				in = append(in, id)
			}
		}
	}
	return in[0], in[1:]
}

// Fresh replaces the instances by new ones.
func (e *CEnv) Fresh() { e.W = e.Judge.fork() }

// Twin is the environment of another thread: the same operands and keys, its own instances.
func (e *CEnv) Twin(x *mc.X) *CEnv {
	f := *e
	f.Judge = NewWorld(x, e.Judge.C)
	f.Judge.Rtk, f.Judge.Cjk, f.Judge.SKs = e.Judge.Rtk, e.Judge.Cjk, e.Judge.SKs
	f.Fresh()
	return &f
}

func (e *CEnv) ct(name string, c *CV) Out {
	j := e.Judge
	ok := j.Fits(c.Mag, c.Err, c.Scale, c.Level)
	return Out{
		Objs: []Obj{ObjCK("result of "+name, c.CT)},
		CT:   c.CT.Ciphertext,
		Sum:  Canon(j.C.Params.RingQ(), c.CT.Ciphertext).U(math.Float64bits(c.CT.Scale)),
		Verify: func() {
			if ok {
				j.Check(c, name)
			} else {
				j.CheckBook(c, name)
			}
		},
	}
}

func (e *CEnv) enc(name string, c *CV) Out {
	o := e.ct(name, c)
	o.Sum = 0
	return o
}

func (e *CEnv) msg(name string, m *mkckks.Message, c *CV) Out {
	o := ObjMsgC("result of "+name, m)
	return Out{Objs: []Obj{o}, Sum: o.Hash(), Verify: func() { e.Judge.CheckMsg(m, c, name) }}
}

func (e *CEnv) key(name string, obj Obj, f func() ([]KeyErr, error)) Out {
	return Out{Objs: []Obj{obj}, Verify: func() {
		if _, err := f(); err != nil {
			e.Judge.X.Fail("%s: %v", name, err)
		}
	}}
}

func (e *CEnv) sec(id string) []int64 { return Secret(e.W.C.Params.Parameters, e.W.C.SK[id]) }
func (e *CEnv) secR(id string) []int64 {
	return Secret(e.W.C.Params.Parameters, e.W.C.R[id])
}

// CkActs lists the acts. Names are unique.
func CkActs() []Act {
	var as []Act
	add := func(name string, f func(e *CEnv) Out) { as = append(as, Act{Name: name, Run: f}) }
	ct := func(name string, f func(e *CEnv) *CV) {
		as = append(as, Act{Name: name, Run: func(e *CEnv) Out { return e.ct(name, f(e)) }})
	}
	rnd := func(name string, f func(e *CEnv) Out) { as = append(as, Act{Name: name, Rand: true, Run: f}) }
	fail := func(name string, f func(e *CEnv)) {
		as = append(as, Act{Name: name, Fail: true, Run: func(e *CEnv) Out { f(e); return Out{} }})
	}
	ct("add(s,b)", func(e *CEnv) *CV { return e.W.Add(e.S, e.B) })
	ct("add(b,t)", func(e *CEnv) *CV { return e.W.Add(e.B, e.T) })
	ct("add(a,l0)", func(e *CEnv) *CV { return e.W.Add(e.A, e.L0) })
	ct("add(s,sc)", func(e *CEnv) *CV { return e.W.Add(e.S, e.SC) })
	ct("add(s,s)", func(e *CEnv) *CV { return e.W.Add(e.S, e.S) })
	ct("add(sc,s)", func(e *CEnv) *CV { return e.W.Add(e.SC, e.S) })
	ct("sub(a,b)", func(e *CEnv) *CV { return e.W.Sub(e.A, e.B) })
	ct("sub(s,s)", func(e *CEnv) *CV { return e.W.Sub(e.S, e.S) })
	ct("sub(sc,t)", func(e *CEnv) *CV { return e.W.Sub(e.SC, e.T) })
	ct("sub(l1,t)", func(e *CEnv) *CV { return e.W.Sub(e.L1, e.T) })
	ct("mul(a,b)", func(e *CEnv) *CV { return e.W.Mul(e.A, e.B) })
	ct("mul(b,t)", func(e *CEnv) *CV { return e.W.Mul(e.B, e.T) })
	ct("mul(s,s)", func(e *CEnv) *CV { return e.W.Mul(e.S, e.S) })
	ct("add(s,alias)", func(e *CEnv) *CV { return e.W.Add(e.S, e.AL) })
	ct("mul(s,alias)", func(e *CEnv) *CV { return e.W.Mul(e.S, e.AL) })
	ct("mul(u,s)", func(e *CEnv) *CV { return e.W.Mul(e.U, e.S) })
	ct("mul(t,l1)", func(e *CEnv) *CV { return e.W.Mul(e.T, e.L1) })
	ct("mulh(s,t)", func(e *CEnv) *CV {
		return e.W.MulModel(e.S, e.T, e.W.Ev.MulRelinHoistedNew(e.S.CT, e.T.CT, e.HS, e.HT, e.W.Rlk))
	})
	ct("mulh(s,s)", func(e *CEnv) *CV {
		return e.W.MulModel(e.S, e.S, e.W.Ev.MulRelinHoistedNew(e.S.CT, e.S.CT, e.HS, e.HS, e.W.Rlk))
	})
	ct("mulh(s,nil,l1,nil)", func(e *CEnv) *CV {
		return e.W.MulModel(e.S, e.L1, e.W.Ev.MulRelinHoistedNew(e.S.CT, e.L1.CT, nil, nil, e.W.Rlk))
	})
	ct("rot(s,1)", func(e *CEnv) *CV { return e.W.Rot(e.S, 1) })
	ct("rot(t,-1)", func(e *CEnv) *CV { return e.W.Rot(e.T, -1) })
	ct("rot(b,0)", func(e *CEnv) *CV { return e.W.Rot(e.B, 0) })
	ct("rot(l0,2)", func(e *CEnv) *CV { return e.W.Rot(e.L0, 2) })
	ct("rot(l1,3)", func(e *CEnv) *CV { return e.W.Rot(e.L1, 3) })
	ct("rot(s,3)", func(e *CEnv) *CV { return e.W.Rot(e.S, 3) })
	ct("roth(s,2)", func(e *CEnv) *CV { return e.W.RotModel(e.S, 2, e.W.Ev.RotateHoistedNew(e.S.CT, 2, e.HS, e.W.Rtk)) })
	ct("roth(t,0)", func(e *CEnv) *CV { return e.W.RotModel(e.T, 0, e.W.Ev.RotateHoistedNew(e.T.CT, 0, e.HT, e.W.Rtk)) })
	ct("conj(s)", func(e *CEnv) *CV { return e.W.Conj(e.S) })
	ct("conj(l1)", func(e *CEnv) *CV { return e.W.Conj(e.L1) })
	ct("const(s,-3)", func(e *CEnv) *CV { return e.W.MulConst(e.S, -3) })
	ct("const(l1,.5)", func(e *CEnv) *CV { return e.W.MulConst(e.L1, 0.5) })
	ct("const(s,.5)", func(e *CEnv) *CV { return e.W.MulConst(e.S, 0.5) })
	ct("add(z,b)", func(e *CEnv) *CV { return e.W.Add(e.Z, e.B) })
	ct("sub(l1,z)", func(e *CEnv) *CV { return e.W.Sub(e.L1, e.Z) })
	ct("mul(s,z)", func(e *CEnv) *CV { return e.W.Mul(e.S, e.Z) })
	ct("mul(z,z)", func(e *CEnv) *CV { return e.W.Mul(e.Z, e.Z) })
	ct("rot(z,3)", func(e *CEnv) *CV { return e.W.Rot(e.Z, 3) })
	ct("conj(z)", func(e *CEnv) *CV { return e.W.Conj(e.Z) })
	ct("mulpt(z)", func(e *CEnv) *CV {
		return e.W.MulPtxtModel(e.Z, e.PtV, e.Pt.Level(), e.Pt.Scale, e.W.Ev.MulPtxtNew(e.Z.CT, e.Pt))
	})
	ct("const(s,1)", func(e *CEnv) *CV { return e.W.MulConst(e.S, 1) })
	ct("const(t,0)", func(e *CEnv) *CV { return e.W.MulConst(e.T, 0.0) })
	ct("const(b,-1)", func(e *CEnv) *CV { return e.W.MulConst(e.B, -1.0) })
	ct("const(l1,i)", func(e *CEnv) *CV { return e.W.MulConst(e.L1, complex(0, 1)) })
	ct("const(a,1-.5i)", func(e *CEnv) *CV { return e.W.MulConst(e.A, complex(1, -0.5)) })
	ct("rescale(s2)", func(e *CEnv) *CV {
		if e.S2.Level == 0 {
			return e.W.Copy(e.S2)
		}
		return e.W.Rescale(e.S2, e.W.C.Params.Scale())
	})
	ct("rescale(s)", func(e *CEnv) *CV {
		if e.S.Level == 0 {
			return e.W.Copy(e.S)
		}
		return e.W.Rescale(e.S, e.W.C.Params.Scale())
	})
	ct("drop(t,1)", func(e *CEnv) *CV { return e.W.Drop(e.T, minI(1, e.T.Level)) })
	ct("drop(s,0)", func(e *CEnv) *CV { return e.W.Drop(e.S, 0) })
	ct("mulpt(s)", func(e *CEnv) *CV {
		return e.W.MulPtxtModel(e.S, e.PtV, e.Pt.Level(), e.Pt.Scale, e.W.Ev.MulPtxtNew(e.S.CT, e.Pt))
	})
	ct("mulpt(l1)", func(e *CEnv) *CV {
		return e.W.MulPtxtModel(e.L1, e.PtV, e.Pt.Level(), e.Pt.Scale, e.W.Ev.MulPtxtNew(e.L1.CT, e.Pt))
	})
	ct("mulpt(b,ntt)", func(e *CEnv) *CV {
		return e.W.MulPtxtModel(e.B, e.PtNV, e.PtN.Level(), e.PtN.Scale, e.W.Ev.MulPtxtNew(e.B.CT, e.PtN))
	})
	ct("mulpt(s,lower)", func(e *CEnv) *CV {
		return e.W.MulPtxtModel(e.S, e.PtLV, e.PtL.Level(), e.PtL.Scale, e.W.Ev.MulPtxtNew(e.S.CT, e.PtL))
	})
	ct("copy(t)", func(e *CEnv) *CV { return e.W.Copy(e.T) })
	add("hoist(t)", func(e *CEnv) Out {
		h := e.W.Ev.HoistedForm(e.T.CT)
		return Out{Objs: []Obj{ObjHoisted("result of hoist(t)", h)}, Verify: func() {
			e.Judge.Check(e.Judge.RotModel(e.T, 1, e.Judge.Ev.RotateHoistedNew(e.T.CT, 1, h, e.Judge.Rtk)), "rotation with hoist(t)")
		}}
	})
	add("hoist(l0)", func(e *CEnv) Out {
		h := e.W.Ev.HoistedForm(e.L0.CT)
		return Out{Objs: []Obj{ObjHoisted("result of hoist(l0)", h)}, Verify: func() {
			e.Judge.Check(e.Judge.RotModel(e.L0, 1, e.Judge.Ev.RotateHoistedNew(e.L0.CT, 1, h, e.Judge.Rtk)), "rotation with hoist(l0)")
		}}
	})
	rnd("encnew", func(e *CEnv) Out {
		p := e.W.C.Params
		c := e.W.Enc.EncryptMsgNew(e.Msg, e.W.C.PK[e.W.C.IDs[1]])
		return e.enc("encnew", &CV{CT: c, V: e.MsgV, Mag: magOf(e.MsgV), Err: e.W.noise(p.Scale()), IDs: []string{e.W.C.IDs[1]}, Level: p.MaxLevel(), Scale: p.Scale()})
	})
	rnd("enc(level 0)", func(e *CEnv) Out { return e.enc("enc(level 0)", e.W.Encrypt(e.MsgV, e.W.C.IDs[0], 0)) })
	rnd("encptxt(ntt)", func(e *CEnv) Out {
		p := e.W.C.Params
		id := e.W.C.IDs[0]
		c := mkckks.NewCiphertext(p, Set(id), p.MaxLevel(), 1)
		e.W.Enc.EncryptPtxt(e.PtN, e.W.C.PK[id], c)
		v := e.PtNV
		return e.enc("encptxt(ntt)", &CV{CT: c, V: v, Mag: magOf(v), Err: e.W.noise(p.Scale()), IDs: []string{id}, Level: p.MaxLevel(), Scale: p.Scale()})
	})
	rnd("encptxt", func(e *CEnv) Out {
		p := e.W.C.Params
		id := e.W.C.IDs[0]
		c := mkckks.NewCiphertext(p, Set(id), p.MaxLevel(), 1)
		e.W.Enc.EncryptPtxt(e.Pt, e.W.C.PK[id], c)
		v := e.PtV
		return e.enc("encptxt", &CV{CT: c, V: v, Mag: magOf(v), Err: e.W.noise(p.Scale()), IDs: []string{id}, Level: p.MaxLevel(), Scale: p.Scale()})
	})
	add("encode", func(e *CEnv) Out {
		pt := e.W.Enc.EncodeMsgNew(e.Msg)
		o := ObjPt("result of encode", pt)
		return Out{Objs: []Obj{o}, Sum: o.Hash(), Verify: func() {
			j := e.Judge
			r := j.MulPtxtModel(e.B, e.MsgV, pt.Level(), pt.Scale, j.Ev.MulPtxtNew(e.B.CT, pt))
			e.ct("product with encode", r).Verify()
		}}
	})
	add("dec(s)", func(e *CEnv) Out { return e.msg("dec(s)", e.W.Dec.Decrypt(e.S.CT, e.W.SKs), e.S) })
	add("dec(l0)", func(e *CEnv) Out { return e.msg("dec(l0)", e.W.Dec.Decrypt(e.L0.CT, e.W.SKs), e.L0) })
	add("dec(t)", func(e *CEnv) Out { return e.msg("dec(t)", e.W.Dec.Decrypt(e.T.CT, e.W.SKs), e.T) })
	add("dec(sc)", func(e *CEnv) Out { return e.msg("dec(sc)", e.W.Dec.Decrypt(e.SC.CT, e.W.SKs), e.SC) })
	add("partial(l1)", func(e *CEnv) Out {
		c := e.L1.CT.CopyNew()
		first, others := split(e.W.C.IDs, e.L1.IDs)
		e.W.Dec.PartialDecrypt(c, e.W.C.SK[first])
		o := e.ct("partial(l1)", &CV{CT: c})
		o.Verify = func() {
			d := *e.L1
			d.CT, d.IDs = c, others
			e.Judge.Check(&d, "partial(l1)")
		}
		return o
	})
	id0 := func(e *CEnv) string { return e.W.C.IDs[0] }
	rnd("gensk", func(e *CEnv) Out {
		sk := e.W.KG.GenSecretKey("x")
		return e.key("gensk", ObjSK("result of gensk", sk), func() ([]KeyErr, error) {
			_, err := e.klab.SecretOf(sk, 1)
			return nil, err
		})
	})
	rnd("genpk", func(e *CEnv) Out {
		pk := e.W.KG.GenPublicKey(e.W.C.SK[id0(e)])
		return e.key("genpk", ObjPK("result of genpk", pk), func() ([]KeyErr, error) { return e.klab.PK(pk, e.sec(id0(e))) })
	})
	rnd("genrlk", func(e *CEnv) Out {
		k := e.W.KG.GenRelinearizationKey(e.W.C.SK[id0(e)], e.W.C.R[id0(e)])
		return e.key("genrlk", ObjRlk("result of genrlk", k), func() ([]KeyErr, error) { return e.klab.Rlk(k, e.sec(id0(e)), e.secR(id0(e))) })
	})
	rnd("genrtk", func(e *CEnv) Out {
		k := e.W.KG.GenRotationKey(-e.W.C.Params.N()/4, e.W.C.SK[id0(e)])
		return e.key("genrtk", ObjRtk("result of genrtk", k), func() ([]KeyErr, error) { return e.klab.Rtk(k, e.W.C.Params.N()/4, e.sec(id0(e))) })
	})
	rnd("gencjk", func(e *CEnv) Out {
		k := e.W.KG.GenConjugationKey(e.W.C.SK[id0(e)])
		return e.key("gencjk", ObjCjk("result of gencjk", k), func() ([]KeyErr, error) { return e.klab.Cjk(k, e.sec(id0(e))) })
	})
	fail("dec without key", func(e *CEnv) { e.W.Dec.Decrypt(e.S.CT, e.W.C.SKSet(e.W.C.IDs[1])) })
	fail("mul without key", func(e *CEnv) { e.W.Ev.MulRelinNew(e.S.CT, e.B.CT, e.W.C.RlkSet(e.W.C.IDs[0])) })
	fail("mulh without key", func(e *CEnv) {
		e.W.Ev.MulRelinHoistedNew(e.S.CT, e.S.CT, e.HS, e.HS, e.W.C.RlkSet(e.W.C.IDs[0]))
	})
	fail("rot without key", func(e *CEnv) { e.W.Ev.RotateNew(e.S.CT, 3, e.W.C.RtkSet(e.W.C.IDs[1])) })
	fail("roth without key", func(e *CEnv) { e.W.Ev.RotateHoistedNew(e.S.CT, 2, e.HS, e.W.C.RtkSet(e.W.C.IDs[1])) })
	fail("conj without key", func(e *CEnv) { e.W.Ev.ConjugateNew(e.S.CT, e.W.C.CjkSet(e.W.C.IDs[0])) })
	fail("roth without reference", func(e *CEnv) { e.W.Ev.RotateHoistedNew(e.S.CT, 3, e.HS, e.W.Rtk) })
	return as
}

// BAct is one public BFV operation.
type BAct struct {
	Name string
	Fail bool
	Rand bool
	Run  func(e *BEnv) Out
}

// BEnv is a BFV environment.
type BEnv struct {
	W, Judge   *BWorld
	A, B, S, T *BV
	U, AL      *BV // share a component of s; all of it, under another header
	N          *BV // in the NTT domain
	Z          *BV // decrypted by all its parties: no identity left
	Msg        *mkbfv.Message
	MsgV       []int64
	// the instances and operands of the layer below the evaluator
	KS             *mkbfv.KeySwitcher
	Conv           *mkbfv.FastBasisExtender
	SR, TR         *mkrlwe.Ciphertext // operands of a product, extended to R
	S1, S2, T1, T2 *mkrlwe.HoistedCiphertext
	G1, G2         *mkrlwe.SwitchingKey // gadget encryption of the first secret
	PQ             *ring.Poly
	PR             *ring.Poly
	Objs           []Obj
	klab           *KeyLab
}

func (w *BWorld) fork() *BWorld { return NewBWorld(w.X, w.C) }

func NewBEnv(x *mc.X, c *BF) *BEnv { return newBEnv(x, c, 0) }

func newBEnv(x *mc.X, c *BF, k int) *BEnv {
	e := &BEnv{}
	w := NewBWorld(x, c)
	e.Judge = w
	id := c.IDs
	vec := func(i int) []int64 { return w.BVec(i + 17*k) }
	e.A = w.Encrypt(vec(1), id[0])
	e.B = w.Encrypt(vec(2), id[1])
	e.S = w.Add(w.Encrypt(vec(3), id[0]), w.Encrypt(vec(4), id[1]))
	e.T = w.Add(e.S, w.Encrypt(vec(5), id[len(id)-1]))
	e.U = w.Sub(e.S, e.A)
	e.U.CT.Value[id[1]] = e.S.CT.Value[id[1]]
	e.Z = w.Copy(e.S)
	for _, i := range e.S.IDs {
		mc.Segment(func() { w.Dec.PartialDecrypt(e.Z.CT, c.SK[i]) })
	}
	e.Z.IDs = nil
	al := *e.S
	al.CT = &mkbfv.Ciphertext{Ciphertext: e.S.CT.Ciphertext}
	e.AL = &al
	e.MsgV = vec(7)
	e.Msg = mkbfv.NewMessage(c.Params)
	copy(e.Msg.Value, e.MsgV)
	n := mkbfv.NewCiphertextNTT(c.Params, Set(id[0]))
	mc.Segment(func() { w.Enc.EncryptMsg(e.Msg, c.PK[id[0]], n) })
	e.N = w.Fresh(e.MsgV, id[0], n)
	e.Objs = []Obj{ObjBF("operand a", e.A.CT), ObjBF("operand b", e.B.CT), ObjBF("operand s", e.S.CT), ObjBF("operand t", e.T.CT), ObjBF("operand u", e.U.CT), ObjBF("operand n", n), ObjBF("operand z", e.Z.CT), ObjMsgB("message", e.Msg)}
	p := c.Params
	ks := seg(func() *mkbfv.KeySwitcher { return mkbfv.NewKeySwitcher(p) })
	conv := seg(func() *mkbfv.FastBasisExtender { return NewConv(p) })
	e.SR = seg(func() *mkrlwe.Ciphertext { return BfvR(p, conv, e.S.CT.Ciphertext, false) })
	e.TR = seg(func() *mkrlwe.Ciphertext { return BfvR(p, conv, e.T.CT.Ciphertext, true) })
	mc.Segment(func() { e.S1, e.S2 = HoistBfv(ks, p, e.SR) })
	mc.Segment(func() { e.T1, e.T2 = HoistBfv(ks, p, e.TR) })
	e.G1, e.G2 = mkrlwe.NewSwitchingKey(p.Parameters), mkrlwe.NewSwitchingKey(p.Parameters)
	mc.Segment(func() { w.KG.GenBFVSwitchingKey(c.SK[id[0]], e.G1, e.G2) })
	e.PQ = UniformPoly(p.RingQ(), p.MaxLevel(), 3+17*uint64(k))
	e.PR = UniformPoly(p.RingR(), len(p.RingR().Modulus)-1, 4+17*uint64(k))
	e.Objs = append(e.Objs, ObjRL("operand s in R", e.SR), ObjRL("operand t in R", e.TR), ObjHoisted("hoisted form 1 of s", e.S1), ObjHoisted("hoisted form 2 of s", e.S2),
		ObjHoisted("hoisted form 1 of t", e.T1), ObjHoisted("hoisted form 2 of t", e.T2), ObjSwk("operand gadget", e.G1, e.G2), ObjPoly("operand q", e.PQ), ObjPoly("operand r", e.PR))
	e.Fresh()
	e.klab = NewKeyLab(c.Params.Parameters)
	return e
}

// NewConv is a basis extender of the BFV layer.
func NewConv(p mkbfv.Parameters) *mkbfv.FastBasisExtender {
	return mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
}

func (e *BEnv) Fresh() {
	e.W = e.Judge.fork()
	mc.Segment(func() { e.KS, e.Conv = mkbfv.NewKeySwitcher(e.W.C.Params), NewConv(e.W.C.Params) })
}

// rounded is a polynomial c of R_mod that agrees with num/den*v up to a few units.
func (e *BEnv) rounded(name string, r *ring.Ring, c *ring.Poly, tol int64, want func() (v []*big.Int, num, den *big.Int)) Out {
	l := len(c.Coeffs) - 1
	h := NewH()
	for i := range c.Coeffs {
		for _, v := range c.Coeffs[i] {
			h = h.U(v % r.Modulus[i])
		}
	}
	return Out{Objs: []Obj{ObjPoly("result of "+name, c)}, Sum: h, Verify: func() {
		v, num, den := want()
		got := Centered(r, l, c.Coeffs)
		m := new(big.Int).Mul(Modulus(r, l), den)
		bound := new(big.Int).Mul(big.NewInt(tol), den)
		d := make([]*big.Int, len(got))
		for j := range got {
			d[j] = new(big.Int).Sub(new(big.Int).Mul(got[j], den), new(big.Int).Mul(v[j], num))
		}
		if b := MaxAbs(CenterMod(d, m)); b.Cmp(bound) > 0 {
			e.Judge.X.Fail("%s: the result is off by %v units", name, b.Div(b, den))
		}
	}}
}

func (e *BEnv) product(name string, f func(p mkbfv.Parameters, c *ring.Poly)) Out {
	p := e.W.C.Params
	c := p.RingQ().NewPoly()
	f(p, c)
	return e.rounded(name, p.RingQ(), c, 1<<13, func() (v []*big.Int, num, den *big.Int) {
		v = NegaMul(Centered(p.RingR(), len(p.RingR().Modulus)-1, e.SR.Value[e.W.C.IDs[0]].Coeffs), Ints(Secret(p.Parameters, e.W.C.SK[e.W.C.IDs[0]])))
		return v, new(big.Int).SetUint64(p.T()), p.RingQMul().ModulusBigint
	})
}

// Twin is the environment of another thread: the same operands and keys, its own instances.
func (e *BEnv) Twin(x *mc.X) *BEnv {
	f := *e
	f.Judge = NewBWorld(x, e.Judge.C)
	f.Judge.Rtk, f.Judge.Cjk, f.Judge.SKs = e.Judge.Rtk, e.Judge.Cjk, e.Judge.SKs
	f.Fresh()
	return &f
}

func (e *BEnv) ct(name string, c *BV) Out {
	j := e.Judge
	return Out{
		Objs: []Obj{ObjBF("result of "+name, c.CT)},
		CT:   c.CT.Ciphertext,
		Sum:  Canon(j.C.Params.RingQ(), c.CT.Ciphertext),
		Verify: func() {
			if j.Fits(c) {
				j.Check(c, name)
			} else {
				j.CheckBook(c, name)
			}
		},
	}
}

func (e *BEnv) msg(name string, m *mkbfv.Message, c *BV) Out {
	o := ObjMsgB("result of "+name, m)
	return Out{Objs: []Obj{o}, Sum: o.Hash(), Verify: func() { e.Judge.CheckMsg(m, c, name) }}
}

func (e *BEnv) key(name string, obj Obj, f func() ([]KeyErr, error)) Out {
	return Out{Objs: []Obj{obj}, Verify: func() {
		if _, err := f(); err != nil {
			e.Judge.X.Fail("%s: %v", name, err)
		}
	}}
}

// BfActs lists the BFV acts.
func BfActs() []BAct {
	var as []BAct
	add := func(name string, f func(e *BEnv) Out) { as = append(as, BAct{Name: name, Run: f}) }
	ct := func(name string, f func(e *BEnv) *BV) {
		as = append(as, BAct{Name: name, Run: func(e *BEnv) Out { return e.ct(name, f(e)) }})
	}
	rnd := func(name string, f func(e *BEnv) Out) { as = append(as, BAct{Name: name, Rand: true, Run: f}) }
	fail := func(name string, f func(e *BEnv)) {
		as = append(as, BAct{Name: name, Fail: true, Run: func(e *BEnv) Out { f(e); return Out{} }})
	}
	ct("add(a,b)", func(e *BEnv) *BV { return e.W.Add(e.A, e.B) })
	ct("add(s,t)", func(e *BEnv) *BV { return e.W.Add(e.S, e.T) })
	ct("add(t,a)", func(e *BEnv) *BV { return e.W.Add(e.T, e.A) })
	ct("add(s,s)", func(e *BEnv) *BV { return e.W.Add(e.S, e.S) })
	ct("sub(b,t)", func(e *BEnv) *BV { return e.W.Sub(e.B, e.T) })
	ct("sub(s,s)", func(e *BEnv) *BV { return e.W.Sub(e.S, e.S) })
	ct("sub(t,s)", func(e *BEnv) *BV { return e.W.Sub(e.T, e.S) })
	ct("mul(a,b)", func(e *BEnv) *BV { return e.W.Mul(e.A, e.B) })
	ct("mul(s,s)", func(e *BEnv) *BV { return e.W.Mul(e.S, e.S) })
	ct("mul(s,alias)", func(e *BEnv) *BV { return e.W.Mul(e.S, e.AL) })
	ct("mul(u,s)", func(e *BEnv) *BV { return e.W.Mul(e.U, e.S) })
	ct("mul(b,t)", func(e *BEnv) *BV { return e.W.Mul(e.B, e.T) })
	ct("mul(t,a)", func(e *BEnv) *BV { return e.W.Mul(e.T, e.A) })
	ct("rot(s,1)", func(e *BEnv) *BV { return e.W.Rot(e.S, 1) })
	ct("rot(t,-1)", func(e *BEnv) *BV { return e.W.Rot(e.T, -1) })
	ct("add(z,t)", func(e *BEnv) *BV { return e.W.Add(e.Z, e.T) })
	ct("sub(a,z)", func(e *BEnv) *BV { return e.W.Sub(e.A, e.Z) })
	ct("mul(z,b)", func(e *BEnv) *BV { return e.W.Mul(e.Z, e.B) })
	ct("mul(z,z)", func(e *BEnv) *BV { return e.W.Mul(e.Z, e.Z) })
	ct("rot(z,3)", func(e *BEnv) *BV { return e.W.Rot(e.Z, 3) })
	ct("conj(z)", func(e *BEnv) *BV { return e.W.Conj(e.Z) })
	ct("rot(a,0)", func(e *BEnv) *BV { return e.W.Rot(e.A, 0) })
	ct("conj(s)", func(e *BEnv) *BV { return e.W.Conj(e.S) })
	ct("conj(a)", func(e *BEnv) *BV { return e.W.Conj(e.A) })
	ct("copy(t)", func(e *BEnv) *BV { return e.W.Copy(e.T) })
	rnd("encnew", func(e *BEnv) Out {
		id := e.W.C.IDs[1]
		o := e.ct("encnew", e.W.Fresh(e.MsgV, id, e.W.Enc.EncryptMsgNew(e.Msg, e.W.C.PK[id])))
		o.Sum = 0
		return o
	})
	rnd("enc(ntt)", func(e *BEnv) Out {
		id := e.W.C.IDs[0]
		n := mkbfv.NewCiphertextNTT(e.W.C.Params, Set(id))
		e.W.Enc.EncryptMsg(e.Msg, e.W.C.PK[id], n)
		o := e.ct("enc(ntt)", e.W.Fresh(e.MsgV, id, n))
		o.Sum = 0
		return o
	})
	add("dec(s)", func(e *BEnv) Out { return e.msg("dec(s)", e.W.Dec.Decrypt(e.S.CT, e.W.SKs), e.S) })
	add("dec(t)", func(e *BEnv) Out { return e.msg("dec(t)", e.W.Dec.Decrypt(e.T.CT, e.W.SKs), e.T) })
	add("dec(n)", func(e *BEnv) Out { return e.msg("dec(n)", e.W.Dec.Decrypt(e.N.CT, e.W.SKs), e.N) })
	add("partial(s)", func(e *BEnv) Out {
		c := e.S.CT.CopyNew()
		first, others := split(e.W.C.IDs, e.S.IDs)
		e.W.Dec.PartialDecrypt(c, e.W.C.SK[first])
		o := e.ct("partial(s)", &BV{CT: c})
		o.Verify = func() {
			d := *e.S
			d.CT, d.IDs = c, others
			e.Judge.Check(&d, "partial(s)")
		}
		return o
	})
	s := func(e *BEnv) []int64 { return Secret(e.W.C.Params.Parameters, e.W.C.SK[e.W.C.IDs[0]]) }
	r := func(e *BEnv) []int64 { return Secret(e.W.C.Params.Parameters, e.W.C.R[e.W.C.IDs[0]]) }
	rnd("genpair", func(e *BEnv) Out {
		sk, pk := e.W.KG.GenKeyPair("x")
		o := e.key("genpair", ObjPK("result of genpair", pk), func() ([]KeyErr, error) {
			s, err := e.klab.SecretOf(sk, 1)
			if err != nil {
				return nil, err
			}
			return e.klab.PK(pk, s)
		})
		o.Objs = append(o.Objs, ObjSK("secret key of genpair", sk))
		return o
	})
	rnd("genrlk", func(e *BEnv) Out {
		id := e.W.C.IDs[0]
		k := e.W.KG.GenRelinearizationKey(e.W.C.SK[id], e.W.C.R[id])
		return e.key("genrlk", ObjBRlk("result of genrlk", k), func() ([]KeyErr, error) { return e.klab.BfvRlk(e.W.C.Params, k, s(e), r(e)) })
	})
	rnd("genrtk", func(e *BEnv) Out {
		k := e.W.KG.GenRotationKey(2, e.W.C.SK[e.W.C.IDs[0]])
		return e.key("genrtk", ObjRtk("result of genrtk", k), func() ([]KeyErr, error) { return e.klab.Rtk(k, 2, s(e)) })
	})
	rnd("gencjk", func(e *BEnv) Out {
		k := e.W.KG.GenConjugationKey(e.W.C.SK[e.W.C.IDs[0]])
		return e.key("gencjk", ObjCjk("result of gencjk", k), func() ([]KeyErr, error) { return e.klab.Cjk(k, s(e)) })
	})
	low := func(name string, f func(e *BEnv, out *mkrlwe.Ciphertext)) {
		ct(name, func(e *BEnv) *BV {
			m := e.W.MulModel(e.S, e.T, nil)
			m.CT = mkbfv.NewCiphertext(e.W.C.Params, Set(m.IDs...))
			f(e, m.CT.Ciphertext)
			return m
		})
	}
	low("ks mul", func(e *BEnv, o *mkrlwe.Ciphertext) { e.KS.MulAndRelinBFV(e.SR, e.TR, e.W.Rlk, o) })
	low("ks mulh", func(e *BEnv, o *mkrlwe.Ciphertext) {
		e.KS.MulAndRelinBFVHoisted(e.SR, e.TR, e.S1, e.S2, e.T1, e.T2, e.W.Rlk, o)
	})
	low("ks mulh(s,nil)", func(e *BEnv, o *mkrlwe.Ciphertext) {
		e.KS.MulAndRelinBFVHoisted(e.SR, e.TR, e.S1, e.S2, nil, nil, e.W.Rlk, o)
	})
	low("ks mulh(nil,t)", func(e *BEnv, o *mkrlwe.Ciphertext) {
		e.KS.MulAndRelinBFVHoisted(e.SR, e.TR, nil, nil, e.T1, e.T2, e.W.Rlk, o)
	})
	add("ks decompose", func(e *BEnv) Out {
		p := e.W.C.Params
		a, b := mkrlwe.NewSwitchingKey(p.Parameters), mkrlwe.NewSwitchingKey(p.Parameters)
		e.KS.DecomposeBFV(p.MaxLevel(), e.SR.Value[e.W.C.IDs[0]], a, b)
		return Out{Objs: []Obj{ObjSwk("result of ks decompose", a, b)}, Sum: NewH().Swk(a).Swk(b), Verify: func() {
			e.product("product with ks decompose", func(p mkbfv.Parameters, c *ring.Poly) {
				mkbfv.NewKeySwitcher(p).ExternalProductBFVHoisted(p.MaxLevel(), a, b, e.G1, e.G2, c)
			}).Verify()
		}}
	})
	add("ks product", func(e *BEnv) Out {
		return e.product("ks product", func(p mkbfv.Parameters, c *ring.Poly) {
			e.KS.ExternalProductBFV(p.MaxLevel(), e.SR.Value[e.W.C.IDs[0]], e.G1, e.G2, c)
		})
	})
	add("ks producth", func(e *BEnv) Out {
		id := e.W.C.IDs[0]
		return e.product("ks producth", func(p mkbfv.Parameters, c *ring.Poly) {
			e.KS.ExternalProductBFVHoisted(p.MaxLevel(), e.S1.Value[id], e.S2.Value[id], e.G1, e.G2, c)
		})
	})
	one := big.NewInt(1)
	add("modup", func(e *BEnv) Out {
		p := e.W.C.Params
		c := p.RingR().NewPoly()
		e.Conv.ModUpQtoR(e.PQ, c)
		return e.rounded("modup", p.RingR(), c, 0, func() (v []*big.Int, num, den *big.Int) {
			// modulo Q only: the value is defined up to multiples of Q
			got := Centered(p.RingR(), len(p.RingR().Modulus)-1, c.Coeffs)
			d := CenterMod(Sub(got, Centered(p.RingQ(), p.MaxLevel(), e.PQ.Coeffs)), p.RingQ().ModulusBigint)
			lim := new(big.Int).Lsh(p.RingQ().ModulusBigint, 1)
			if MaxAbs(d).Sign() != 0 || MaxAbs(got).Cmp(lim) > 0 {
				e.Judge.X.Fail("modup: the result is another element modulo Q, or too large")
			}
			return got, one, one
		})
	})
	add("rescale to R", func(e *BEnv) Out {
		p := e.W.C.Params
		c := p.RingR().NewPoly()
		e.Conv.Rescale(e.PQ, c)
		return e.rounded("rescale to R", p.RingQMul(), &ring.Poly{Coeffs: c.Coeffs[p.QCount():]}, 3, func() (v []*big.Int, num, den *big.Int) {
			return Centered(p.RingQ(), p.MaxLevel(), e.PQ.Coeffs), p.RingQMul().ModulusBigint, p.RingQ().ModulusBigint
		})
	})
	add("quantize", func(e *BEnv) Out {
		p := e.W.C.Params
		c := p.RingQ().NewPoly()
		e.Conv.Quantize(e.PR, c, p.T())
		return e.rounded("quantize", p.RingQ(), c, 3, func() (v []*big.Int, num, den *big.Int) {
			l := len(p.RingR().Modulus) - 1
			a := Reduced(p.RingR(), l, e.PR)
			p.RingR().InvNTT(a, a)
			return Centered(p.RingR(), l, a.Coeffs), new(big.Int).SetUint64(p.T()), p.RingQMul().ModulusBigint
		})
	})
	rnd("genswk", func(e *BEnv) Out {
		p := e.W.C.Params
		a, b := mkrlwe.NewSwitchingKey(p.Parameters), mkrlwe.NewSwitchingKey(p.Parameters)
		e.W.KG.GenBFVSwitchingKey(e.W.C.SK[e.W.C.IDs[0]], a, b)
		return e.key("genswk", ObjSwk("result of genswk", a, b), func() ([]KeyErr, error) { return e.klab.BfvSwk(p, a, b, s(e)) })
	})
	fail("ks mulh without key", func(e *BEnv) {
		e.KS.MulAndRelinBFVHoisted(e.SR, e.TR, e.S1, e.S2, e.T1, e.T2, e.W.C.RlkSet(e.W.C.IDs[0]), mkbfv.NewCiphertext(e.W.C.Params, e.T.CT.IDSet()).Ciphertext)
	})
	fail("dec without key", func(e *BEnv) { e.W.Dec.Decrypt(e.S.CT, e.W.C.SKSet(e.W.C.IDs[1])) })
	fail("mul without key", func(e *BEnv) { e.W.Ev.MulRelinNew(e.A.CT, e.T.CT, e.W.C.RlkSet(e.W.C.IDs[0])) })
	fail("rot without key", func(e *BEnv) { e.W.Ev.RotateNew(e.S.CT, 3, e.W.C.RtkSet(e.W.C.IDs[1])) })
	fail("conj without key", func(e *BEnv) { e.W.Ev.ConjugateNew(e.S.CT, e.W.C.CjkSet(e.W.C.IDs[0])) })
	return as
}

// Close tells whether two ciphertexts agree up to a few units per coefficient.
func Close(r *ring.Ring, a, b *mkrlwe.Ciphertext) bool {
	if a == nil || b == nil || len(a.Value) != len(b.Value) {
		return false
	}
	for id, p := range a.Value {
		q := b.Value[id]
		if q == nil || len(q.Coeffs) != len(p.Coeffs) || p.IsNTT != q.IsNTT {
			return false
		}
		l := len(p.Coeffs) - 1
		x, y := Reduced(r, l, p), Reduced(r, l, q)
		r.SubLvl(l, x, y, x)
		if p.IsNTT {
			r.InvNTTLvl(l, x, x)
		}
		if MaxAbs(Centered(r, l, x.Coeffs)).BitLen() > 8 {
			return false
		}
	}
	return true
}

var _ = fmt.Sprint
