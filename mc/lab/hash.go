package lab

import (
	"math"
	"sort"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// H is a 64-bit FNV-like hash over words.
type H uint64

func NewH() H { return 14695981039346656037 }

func (h H) U(v uint64) H {
	h ^= H(v)
	h *= 1099511628211
	h ^= h >> 29
	return h
}

func (h H) S(s string) H {
	for i := 0; i < len(s); i++ {
		h = h.U(uint64(s[i]))
	}
	return h.U(0x1ff)
}

func (h H) Poly(p *ring.Poly) H {
	if p == nil {
		return h.U(7)
	}
	h = h.U(uint64(len(p.Coeffs)))
	for i := range p.Coeffs {
		for _, c := range p.Coeffs[i] {
			h = h.U(c)
		}
	}
	if p.IsNTT {
		h = h.U(3)
	}
	return h
}

func (h H) QP(p rlwe.PolyQP) H { return h.Poly(p.Q).Poly(p.P) }

func (h H) Swk(k *mkrlwe.SwitchingKey) H {
	if k == nil {
		return h.U(11)
	}
	h = h.U(uint64(len(k.Value)))
	for i := range k.Value {
		h = h.QP(k.Value[i])
	}
	return h
}

func (h H) CT(ct *mkrlwe.Ciphertext) H {
	var ids []string
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h = h.S(id).Poly(ct.Value[id])
	}
	return h
}

func (h H) Ckks(ct *mkckks.Ciphertext) H {
	return h.U(math.Float64bits(ct.Scale)).CT(ct.Ciphertext)
}

func (h H) Hoisted(x *mkrlwe.HoistedCiphertext) H {
	if x == nil {
		return h.U(13)
	}
	var ids []string
	for id := range x.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h = h.S(id).Swk(x.Value[id])
	}
	return h
}

func (h H) CRS(m map[int]*mkrlwe.SwitchingKey) H {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		h = h.U(uint64(int64(k))).Swk(m[k])
	}
	return h
}

func (h H) SK(s *mkrlwe.SecretKey) H { return h.S(s.ID).QP(s.Value) }

func (h H) SKSet(s *mkrlwe.SecretKeySet) H {
	for _, id := range sortedKeys(s.Value) {
		h = h.S(id).SK(s.Value[id])
	}
	return h
}

func (h H) PK(p *mkrlwe.PublicKey) H { return h.S(p.ID).QP(p.Value[0]).QP(p.Value[1]) }

func (h H) Rlk(k *mkrlwe.RelinearizationKey) H {
	return h.S(k.ID).Swk(k.Value[0]).Swk(k.Value[1]).Swk(k.Value[2])
}

// RlkSet hashes the keys of the set, not its scratch pools.
func (h H) RlkSet(s *mkrlwe.RelinearizationKeySet) H {
	for _, id := range sortedKeys(s.Value) {
		h = h.S(id).Rlk(s.Value[id])
	}
	return h
}

func (h H) BfvRlkSet(s *mkbfv.RelinearizationKeySet) H {
	for _, id := range sortedKeys(s.Value) {
		h = h.S(id).S(s.Value[id].ID).Rlk(s.Value[id].Value[0]).Rlk(s.Value[id].Value[1])
	}
	return h
}

func (h H) RtkSet(s *mkrlwe.RotationKeySet) H {
	for _, id := range sortedKeys(s.Value) {
		var ks []int
		for k := range s.Value[id] {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			rk := s.Value[id][uint(k)]
			h = h.S(id).U(uint64(k)).S(rk.ID).U(uint64(rk.RotIdx)).Swk(rk.Value)
		}
	}
	return h
}

func (h H) CjkSet(s *mkrlwe.ConjugationKeySet) H {
	for _, id := range sortedKeys(s.Value) {
		h = h.S(id).S(s.Value[id].ID).Swk(s.Value[id].Value)
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SortedKeys lists the keys of a map in order.
func SortedKeys[V any](m map[string]V) []string { return sortedKeys(m) }
