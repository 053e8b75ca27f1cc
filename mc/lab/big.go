// Package lab builds parameters, keys and reference models for the checks.
package lab

import (
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkrlwe"
)

// Centered reconstructs the coefficients of a polynomial in coefficient form
// modulo the product of the first level+1 moduli of r, centered around zero.
// Coefficients need not be reduced.
func Centered(r *ring.Ring, level int, coeffs [][]uint64) []*big.Int {
	Q := big.NewInt(1)
	for i := 0; i <= level; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(r.Modulus[i]))
	}
	half := new(big.Int).Rsh(Q, 1)
	basis := make([]*big.Int, level+1)
	for i := range basis {
		qi := new(big.Int).SetUint64(r.Modulus[i])
		b := new(big.Int).Div(Q, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(b, qi), qi)
		basis[i] = b.Mul(b, inv)
	}
	out := make([]*big.Int, len(coeffs[0]))
	t := new(big.Int)
	for j := range out {
		v := new(big.Int)
		for i := 0; i <= level; i++ {
			t.SetUint64(coeffs[i][j] % r.Modulus[i])
			v.Add(v, t.Mul(t, basis[i]))
		}
		v.Mod(v, Q)
		if v.Cmp(half) > 0 {
			v.Sub(v, Q)
		}
		out[j] = v
	}
	return out
}

// Modulus returns the product of the first level+1 moduli of r.
func Modulus(r *ring.Ring, level int) *big.Int {
	Q := big.NewInt(1)
	for i := 0; i <= level; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(r.Modulus[i]))
	}
	return Q
}

// MaxAbs is the infinity norm.
func MaxAbs(v []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

func Sub(a, b []*big.Int) []*big.Int {
	out := make([]*big.Int, len(a))
	for i := range a {
		out[i] = new(big.Int).Sub(a[i], b[i])
	}
	return out
}

// CenterMod reduces v modulo Q into (-Q/2, Q/2].
func CenterMod(v []*big.Int, Q *big.Int) []*big.Int {
	half := new(big.Int).Rsh(Q, 1)
	out := make([]*big.Int, len(v))
	for i := range v {
		x := new(big.Int).Mod(v[i], Q)
		if x.Cmp(half) > 0 {
			x.Sub(x, Q)
		}
		out[i] = x
	}
	return out
}

// Reduced copies the first level+1 rows of p, fully reduced.
func Reduced(r *ring.Ring, level int, p *ring.Poly) *ring.Poly {
	c := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		for j := 0; j < r.N; j++ {
			c.Coeffs[i][j] = p.Coeffs[i][j] % r.Modulus[i]
		}
	}
	c.IsNTT = p.IsNTT
	return c
}

// Phase computes c_0 + sum c_i s_i exactly, centered modulo Q_level, with the
// ring arithmetic of lattigo (not with the decryptor under test).
func Phase(params mkrlwe.Parameters, ct *mkrlwe.Ciphertext, sk map[string]*mkrlwe.SecretKey) []*big.Int {
	r := params.RingQ()
	level := ct.Level()
	acc := ring.NewPoly(r.N, level+1)
	for id, p := range ct.Value {
		c := Reduced(r, level, p)
		if !p.IsNTT {
			r.NTTLvl(level, c, c)
		}
		if id != "0" {
			s, ok := sk[id]
			if !ok {
				panic("lab.Phase: no secret key for " + id)
			}
			r.MulCoeffsMontgomeryLvl(level, c, s.Value.Q, c)
		}
		r.AddLvl(level, acc, c, acc)
	}
	r.InvNTTLvl(level, acc, acc)
	return Centered(r, level, acc.Coeffs)
}

// Secret extracts the coefficients of a secret key.
func Secret(params mkrlwe.Parameters, sk *mkrlwe.SecretKey) []int64 {
	r := params.RingQ()
	level := params.QCount() - 1
	c := Reduced(r, level, sk.Value.Q)
	r.InvMFormLvl(level, c, c)
	r.InvNTTLvl(level, c, c)
	v := Centered(r, level, c.Coeffs)
	out := make([]int64, len(v))
	for i := range v {
		if !v[i].IsInt64() {
			out[i] = 1 << 62
		} else {
			out[i] = v[i].Int64()
		}
	}
	return out
}

// NegaMul multiplies in Z[X]/(X^N+1).
func NegaMul(a, b []*big.Int) []*big.Int {
	n := len(a)
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = new(big.Int)
	}
	t := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			t.Mul(a[i], b[j])
			if k := i + j; k < n {
				out[k].Add(out[k], t)
			} else {
				out[k-n].Sub(out[k-n], t)
			}
		}
	}
	return out
}

// Automorph applies X -> X^g in Z[X]/(X^N+1).
func Automorph(a []*big.Int, g uint64) []*big.Int {
	n := uint64(len(a))
	out := make([]*big.Int, n)
	for i := uint64(0); i < n; i++ {
		k := (i * g) % (2 * n)
		if k < n {
			out[k] = new(big.Int).Set(a[i])
		} else {
			out[k-n] = new(big.Int).Neg(a[i])
		}
	}
	return out
}

func Ints(v []int64) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = big.NewInt(v[i])
	}
	return out
}
