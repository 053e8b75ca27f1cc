package lab

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
)

// fill gives coefficient-domain residues that are uniform-like and deterministic.
func fillUniform(r *ring.Ring, level int, p *ring.Poly, seed uint64) {
	s := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := 0; i <= level; i++ {
		for j := range p.Coeffs[i] {
			s ^= s << 13
			s ^= s >> 7
			s ^= s << 17
			p.Coeffs[i][j] = (s * 0xff51afd7ed558ccd) % r.Modulus[i]
		}
	}
}

// UniformPoly is a deterministic polynomial with arbitrary residues.
func UniformPoly(r *ring.Ring, level int, seed uint64) *ring.Poly {
	p := ring.NewPoly(r.N, level+1)
	fillUniform(r, level, p, seed)
	return p
}

// PatternPoly gives coefficient patterns that exercise carries: extreme
// residues, equal values modulo every prime, alternation, single coefficients.
func PatternPoly(r *ring.Ring, level, kind int) *ring.Poly {
	p := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := range p.Coeffs[i] {
			var v uint64
			switch kind {
			case 0: // uniform
			case 1: // q_i-1 everywhere: the value -1
				v = q - 1
			case 2: // alternating 0 and -1
				v = uint64(j%2) * (q - 1)
			case 3: // a single unit in the last coefficient
				if j == r.N-1 {
					v = 1
				}
			case 4: // half of each prime
				v = q / 2
			case 5: // only the last prime is non zero
				if i == level {
					v = q - 1 - uint64(j)
				}
			case 6: // only the first prime is non zero
				if i == 0 {
					v = q/2 + uint64(j)
				}
			case 7: // zero
			case 8: // extremes mixed between the primes
				v = []uint64{0, q - 1, q / 2, 1}[(i+j)%4]
			}
			p.Coeffs[i][j] = v
		}
	}
	if kind == 0 {
		fillUniform(r, level, p, 77)
	}
	return p
}

// Patterns is the number of kinds of PatternPoly.
const Patterns = 9

// UniformCT is a ciphertext with arbitrary components (so its phase is an
// arbitrary element of the ring).
func UniformCT(params mkrlwe.Parameters, level int, seed uint64, ids ...string) *mkrlwe.Ciphertext {
	ct := mkrlwe.NewCiphertext(params, Set(ids...), level)
	for k, id := range append([]string{"0"}, ids...) {
		fillUniform(params.RingQ(), level, ct.Value[id], seed*131+uint64(k)+1)
	}
	return ct
}

// Truncate restricts a ciphertext to a lower level (sharing nothing).
func Truncate(params mkrlwe.Parameters, ct *mkrlwe.Ciphertext, level int) *mkrlwe.Ciphertext {
	out := ct.CopyNew()
	for _, p := range out.Value {
		p.Coeffs = p.Coeffs[:level+1]
	}
	return out
}

// ErrBits is the bit length of the largest difference modulo Q_level.
func ErrBits(params mkrlwe.Parameters, level int, a, b []*big.Int) int {
	return MaxAbs(CenterMod(Sub(a, b), Modulus(params.RingQ(), level))).BitLen()
}

// HoistRL decomposes every component of a ciphertext.
func HoistRL(ks *mkrlwe.KeySwitcher, ct *mkrlwe.Ciphertext, level int) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	for id := range ct.Value {
		if id != "0" {
			h.Value[id] = mkrlwe.NewSwitchingKey(ks.Parameters)
			ks.Decompose(level, ct.Value[id], h.Value[id])
		}
	}
	return h
}

// BfvR extends the operands of a BFV multiplication to R.
func BfvR(params mkbfv.Parameters, conv *mkbfv.FastBasisExtender, ct *mkrlwe.Ciphertext, second bool) *mkrlwe.Ciphertext {
	out := new(mkrlwe.Ciphertext)
	out.Value = map[string]*ring.Poly{}
	for id, p := range ct.Value {
		out.Value[id] = params.RingR().NewPoly()
		if second {
			conv.Rescale(p, out.Value[id])
		} else {
			conv.ModUpQtoR(p, out.Value[id])
		}
	}
	return out
}

// HoistBfv decomposes every component of an operand extended to R.
func HoistBfv(ks *mkbfv.KeySwitcher, params mkbfv.Parameters, ctR *mkrlwe.Ciphertext) (h1, h2 *mkrlwe.HoistedCiphertext) {
	h1, h2 = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
	for id := range ctR.Value {
		if id != "0" {
			h1.Value[id] = mkrlwe.NewSwitchingKey(params.Parameters)
			h2.Value[id] = mkrlwe.NewSwitchingKey(params.Parameters)
			ks.DecomposeBFV(params.MaxLevel(), ctR.Value[id], h1.Value[id], h2.Value[id])
		}
	}
	return
}

var _ = fmt.Sprint
