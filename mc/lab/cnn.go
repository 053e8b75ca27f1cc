package lab

import (
	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// The models of the encrypted CNN layers.

// the model of a sum; scales are equal
func (w *World) plus(a, b *CV) *CV {
	o := *a
	o.V = make([]complex128, len(a.V))
	for i := range o.V {
		o.V[i] = a.V[i] + b.V[i]
	}
	o.Mag, o.Err = a.Mag+b.Mag, a.Err+b.Err
	o.IDs = union(a.IDs, b.IDs)
	return &o
}

func (w *World) fold(o *CV, shift int) *CV { return w.plus(o, w.RotModel(o, shift, nil)) }

func (w *World) ConvModel(img *CV, ks []*CV) *CV {
	var o *CV
	for i, r := range []int{0, 1, 14, 15} {
		t := w.MulModel(w.RotModel(img, r, nil), ks[i], nil)
		if o == nil {
			o = t
		} else {
			o = w.plus(o, t)
		}
	}
	return w.fold(w.fold(o, 2048), 1024)
}

func (w *World) FC1Model(v *CV, ms []*CV, bias *CV) *CV {
	var o *CV
	for i := range ms {
		t := w.MulModel(w.RotModel(v, i*128, nil), ms[i], nil)
		if o == nil {
			o = t
		} else {
			o = w.plus(o, t)
		}
	}
	for k := 1; k < 128; k *= 2 {
		o = w.fold(o, k)
	}
	return w.plus(o, bias)
}

func (w *World) FC2Model(v, m, bias *CV, mask []complex128) *CV {
	o := w.MulPtxtModel(v, mask, v.Level, w.C.Params.Scale(), nil)
	for k := 1; k < 16; k *= 2 {
		o = w.fold(o, -k)
	}
	o = w.MulModel(o, m, nil)
	for k := 1; k < 64; k *= 2 {
		o = w.fold(o, 128*k)
	}
	return w.plus(o, bias)
}

// CnnRots are the rotation indices the layers need a key for with s slots.
func CnnRots(s int) []int {
	seen := map[int]bool{}
	var rots []int
	for _, r := range []int{14, 15, 384, 512, 640, 768, 896, -1, -2, -4, -8} {
		r = ((r % s) + s) % s
		if r == 0 || r&(r-1) == 0 || seen[r] {
			continue
		}
		seen[r] = true
		rots = append(rots, r)
	}
	return rots
}

// CnnEnv holds the operands the layers need besides the ones of a CEnv.
type CnnEnv struct {
	KV []*CV
	K  []*mkckks.Ciphertext
	H  []*mkrlwe.HoistedCiphertext
}

func newCnnEnv(e *CEnv, vec func(n, i int) []complex128) *CnnEnv {
	w := e.Judge
	c := &CnnEnv{}
	for i := 0; i < 4; i++ {
		v := w.Encrypt(vec(w.Slots(), 12+i), w.C.IDs[1], w.C.Params.MaxLevel()-1)
		h := w.Ev.HoistedForm(v.CT)
		c.KV, c.K, c.H = append(c.KV, v), append(c.K, v.CT), append(c.H, h)
		e.Objs = append(e.Objs, ObjCK("operand k", v.CT), ObjHoisted("hoisted form of k", h))
	}
	return c
}

// CkActsOf lists the acts that apply to a configuration.
func CkActsOf(l Lit) []Act {
	as := CkActs()
	if !l.Cnn {
		return as
	}
	ct := func(name string, f func(e *CEnv) *CV) {
		as = append(as, Act{Name: name, Run: func(e *CEnv) Out { return e.ct(name, f(e)) }})
	}
	fail := func(name string, f func(e *CEnv)) {
		as = append(as, Act{Name: name, Fail: true, Run: func(e *CEnv) Out { f(e); return Out{} }})
	}
	ct("cnn conv(s)", func(e *CEnv) *CV {
		o := *e.W.ConvModel(e.S, e.Cnn.KV)
		o.CT = cnn.Convolution(e.W.Ev, e.W.Rlk, e.W.Rtk, e.S.CT, e.HS, e.Cnn.K, e.Cnn.H)
		return &o
	})
	ct("cnn fc1(t)", func(e *CEnv) *CV {
		o := *e.W.FC1Model(e.T, e.Cnn.KV[:3], e.B)
		o.CT = cnn.FC1Layer(e.W.Ev, e.W.Rlk, e.W.Rtk, e.T.CT, e.HT, e.Cnn.K[:3], e.Cnn.H[:3], e.B.CT)
		return &o
	})
	ct("cnn fc1(s), one matrix", func(e *CEnv) *CV {
		o := *e.W.FC1Model(e.S, e.Cnn.KV[:1], e.A)
		o.CT = cnn.FC1Layer(e.W.Ev, e.W.Rlk, e.W.Rtk, e.S.CT, e.HS, e.Cnn.K[:1], e.Cnn.H[:1], e.A.CT)
		return &o
	})
	ct("cnn fc2(s)", func(e *CEnv) *CV {
		o := *e.W.FC2Model(e.S, e.Cnn.KV[2], e.A, e.PtV)
		o.CT = cnn.FC2Layer(e.W.Ev, e.W.Rlk, e.W.Rtk, e.S.CT, e.Cnn.K[2], e.A.CT, e.Pt)
		return &o
	})
	fail("cnn conv without key", func(e *CEnv) {
		cnn.Convolution(e.W.Ev, e.W.C.RlkSet(e.W.C.IDs[0]), e.W.Rtk, e.S.CT, e.HS, e.Cnn.K, e.Cnn.H)
	})
	fail("cnn fc2 without rotation key", func(e *CEnv) {
		cnn.FC2Layer(e.W.Ev, e.W.Rlk, e.W.C.RtkSet(e.W.C.IDs[1]), e.S.CT, e.Cnn.K[2], e.A.CT, e.Pt)
	})
	return as
}
