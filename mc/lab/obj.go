package lab

import (
	"math"
	"sort"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// Obj is an object whose bits, memory and content can be observed.
type Obj struct {
	Name     string
	Hash     func() H
	Bufs     func() [][]uint64 // memory of the object
	Scribble func()            // overwrites the object
}

// Span is a memory range.
type Span struct {
	lo, hi uintptr
	name   string
}

// Spans lists the memory ranges of the object.
func (o Obj) Spans() []Span {
	var out []Span
	if o.Bufs == nil {
		return nil
	}
	for _, b := range o.Bufs() {
		if cap(b) == 0 {
			continue
		}
		b = b[:cap(b)]
		lo := uintptr(unsafe.Pointer(&b[0]))
		out = append(out, Span{lo, lo + uintptr(len(b))*8, o.Name})
	}
	return out
}

// Overlap finds an object of olds that shares memory with the object.
func (o Obj) Overlap(olds []Obj) string {
	var all []Span
	for _, p := range olds {
		all = append(all, p.Spans()...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	for _, s := range o.Spans() {
		for _, t := range all {
			if s.lo < t.hi && t.lo < s.hi {
				return t.name
			}
		}
	}
	return ""
}

const garbage = 0x1357

func polyBufs(ps ...*ring.Poly) [][]uint64 {
	var out [][]uint64
	for _, p := range ps {
		if p != nil {
			out = append(out, p.Coeffs...)
		}
	}
	return out
}

func fill(bs [][]uint64) {
	for _, b := range bs {
		for i := range b {
			b[i] = garbage + uint64(i)
		}
	}
}

func polyObj(name string, h func() H, ps func() []*ring.Poly) Obj {
	bufs := func() [][]uint64 { return polyBufs(ps()...) }
	return Obj{Name: name, Hash: h, Bufs: bufs, Scribble: func() { fill(bufs()) }}
}

func ctPolys(ct *mkrlwe.Ciphertext) []*ring.Poly {
	var ps []*ring.Poly
	for _, id := range sortedKeys(ct.Value) {
		ps = append(ps, ct.Value[id])
	}
	return ps
}

func swkPolys(ks ...*mkrlwe.SwitchingKey) []*ring.Poly {
	var ps []*ring.Poly
	for _, k := range ks {
		if k != nil {
			for i := range k.Value {
				ps = append(ps, k.Value[i].Q, k.Value[i].P)
			}
		}
	}
	return ps
}

func ObjRL(name string, ct *mkrlwe.Ciphertext) Obj {
	return polyObj(name, func() H { return NewH().CT(ct) }, func() []*ring.Poly { return ctPolys(ct) })
}

func ObjCK(name string, ct *mkckks.Ciphertext) Obj {
	return polyObj(name, func() H { return NewH().Ckks(ct) }, func() []*ring.Poly { return ctPolys(ct.Ciphertext) })
}

func ObjBF(name string, ct *mkbfv.Ciphertext) Obj { return ObjRL(name, ct.Ciphertext) }

func ObjPt(name string, pt *ckks.Plaintext) Obj {
	return polyObj(name, func() H { return NewH().U(math.Float64bits(pt.Scale)).Poly(pt.Value) }, func() []*ring.Poly { return []*ring.Poly{pt.Value} })
}

func ObjPoly(name string, p *ring.Poly) Obj {
	return polyObj(name, func() H { return NewH().Poly(p) }, func() []*ring.Poly { return []*ring.Poly{p} })
}

func ObjHoisted(name string, h *mkrlwe.HoistedCiphertext) Obj {
	return polyObj(name, func() H { return NewH().Hoisted(h) }, func() []*ring.Poly {
		var ps []*ring.Poly
		for _, id := range sortedKeys(h.Value) {
			ps = append(ps, swkPolys(h.Value[id])...)
		}
		return ps
	})
}

func ObjSwk(name string, ks ...*mkrlwe.SwitchingKey) Obj {
	return polyObj(name, func() H {
		h := NewH()
		for _, k := range ks {
			h = h.Swk(k)
		}
		return h
	}, func() []*ring.Poly { return swkPolys(ks...) })
}

func ObjSK(name string, sk *mkrlwe.SecretKey) Obj {
	return polyObj(name, func() H { return NewH().SK(sk) }, func() []*ring.Poly { return []*ring.Poly{sk.Value.Q, sk.Value.P} })
}

func ObjPK(name string, pk *mkrlwe.PublicKey) Obj {
	return polyObj(name, func() H { return NewH().PK(pk) }, func() []*ring.Poly {
		return []*ring.Poly{pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
	})
}

func ObjRlk(name string, k *mkrlwe.RelinearizationKey) Obj {
	o := ObjSwk(name, k.Value[:]...)
	o.Hash = func() H { return NewH().Rlk(k) }
	return o
}

func ObjBRlk(name string, k *mkbfv.RelinearizationKey) Obj {
	o := ObjSwk(name, append(append([]*mkrlwe.SwitchingKey{}, k.Value[0].Value[:]...), k.Value[1].Value[:]...)...)
	o.Hash = func() H { return NewH().S(k.ID).Rlk(k.Value[0]).Rlk(k.Value[1]) }
	return o
}

func ObjRtk(name string, k *mkrlwe.RotationKey) Obj {
	o := ObjSwk(name, k.Value)
	o.Hash = func() H { return NewH().S(k.ID).U(uint64(k.RotIdx)).Swk(k.Value) }
	return o
}

func ObjCjk(name string, k *mkrlwe.ConjugationKey) Obj {
	o := ObjSwk(name, k.Value)
	o.Hash = func() H { return NewH().S(k.ID).Swk(k.Value) }
	return o
}

func ObjMsgC(name string, m *mkckks.Message) Obj {
	return Obj{Name: name, Hash: func() H {
		h := NewH().U(uint64(len(m.Value)))
		for _, v := range m.Value {
			h = h.U(math.Float64bits(real(v))).U(math.Float64bits(imag(v)))
		}
		return h
	}, Bufs: func() [][]uint64 {
		if len(m.Value) == 0 {
			return nil
		}
		return [][]uint64{unsafe.Slice((*uint64)(unsafe.Pointer(&m.Value[0])), 2*len(m.Value))}
	}, Scribble: func() {
		for i := range m.Value {
			m.Value[i] = complex(1e3, float64(i))
		}
	}}
}

func ObjMsgB(name string, m *mkbfv.Message) Obj {
	return Obj{Name: name, Hash: func() H {
		h := NewH().U(uint64(len(m.Value)))
		for _, v := range m.Value {
			h = h.U(uint64(v))
		}
		return h
	}, Bufs: func() [][]uint64 {
		if len(m.Value) == 0 {
			return nil
		}
		return [][]uint64{unsafe.Slice((*uint64)(unsafe.Pointer(&m.Value[0])), len(m.Value))}
	}, Scribble: func() {
		for i := range m.Value {
			m.Value[i] = int64(i) + 3
		}
	}}
}

// KeyObjs lists the shared keys of a context.
func (k *Keys) KeyObjs() []Obj {
	var out []Obj
	for _, id := range k.IDs {
		out = append(out, ObjSK("secret key of "+id, k.SK[id]), ObjSK("r of "+id, k.R[id]), ObjPK("public key of "+id, k.PK[id]))
		var rs []int
		for r := range k.Rtk[id] {
			rs = append(rs, r)
		}
		sort.Ints(rs)
		for _, r := range rs {
			out = append(out, ObjRtk("rotation key of "+id, k.Rtk[id][r]))
		}
		if k.Cjk[id] != nil {
			out = append(out, ObjCjk("conjugation key of "+id, k.Cjk[id]))
		}
	}
	return out
}

// ObjCRS covers the reference strings.
func ObjCRS(p mkrlwe.Parameters) Obj {
	return polyObj("reference strings", func() H { return NewH().CRS(p.CRS) }, func() []*ring.Poly {
		var ks []int
		for k := range p.CRS {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var ps []*ring.Poly
		for _, k := range ks {
			ps = append(ps, swkPolys(p.CRS[k])...)
		}
		return ps
	})
}

func (c *CK) Objs() []Obj {
	out := append(c.KeyObjs(), ObjCRS(c.Params.Parameters))
	for _, id := range c.IDs {
		out = append(out, ObjRlk("relinearization key of "+id, c.Rlk[id]))
	}
	return out
}

func (c *BF) Objs() []Obj {
	out := append(c.KeyObjs(), ObjCRS(c.Params.Parameters))
	for _, id := range c.IDs {
		out = append(out, ObjBRlk("relinearization key of "+id, c.Rlk[id]))
	}
	return out
}

func (c *RL) Objs() []Obj {
	out := append(c.KeyObjs(), ObjCRS(c.Params))
	for _, id := range c.IDs {
		out = append(out, ObjRlk("relinearization key of "+id, c.Rlk[id]))
	}
	return out
}

// Canon hashes a ciphertext modulo its primes.
func Canon(r *ring.Ring, ct *mkrlwe.Ciphertext) H {
	h := NewH()
	for _, id := range sortedKeys(ct.Value) {
		p := ct.Value[id]
		h = h.S(id).U(uint64(len(p.Coeffs)))
		for i := range p.Coeffs {
			for _, c := range p.Coeffs[i] {
				h = h.U(c % r.Modulus[i])
			}
		}
		if p.IsNTT {
			h = h.U(5)
		}
	}
	return h
}
