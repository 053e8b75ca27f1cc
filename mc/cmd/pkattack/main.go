package main

import (
	"fmt"
	"math/big"
	"mk-lattigo/mkckks"
	"verifmc/lab"
)

func main() {
	l := lab.Lit{Name: "x", LogN: 12, Q: []float64{55, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 1}
	p := l.CkksParams()
	kg := mkckks.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair("a")
	rlk := kg.GenRelinearizationKey(sk, kg.GenSecretKey("a"))
	r := p.RingQ()
	// public data only from here
	b := r.NewPoly()
	r.InvMFormLvl(1, rlk.Value[0].Value[0].Q, b) // -s*a + e'
	// pk0 = -s*(R a) + e ; b*R - pk0 = R e' - e
	R := new(big.Int).Lsh(big.NewInt(1), 64)
	v := r.NewPoly()
	r.MFormLvl(1, b, v)
	r.SubLvl(1, v, pk.Value[0].Q, v)
	r.InvNTTLvl(1, v, v)
	q := r.Modulus[0]
	Rq := new(big.Int).Mod(R, new(big.Int).SetUint64(q)).Uint64()
	tab := map[uint64]int64{}
	for e1 := int64(-19); e1 <= 19; e1++ {
		for e := int64(-19); e <= 19; e++ {
			x := new(big.Int).Mul(new(big.Int).SetUint64(Rq), big.NewInt(e1))
			x.Sub(x, big.NewInt(e))
			x.Mod(x, new(big.Int).SetUint64(q))
			tab[x.Uint64()] = e
		}
	}
	e := r.NewPolyLvl(0)
	for j := range v.Coeffs[0] {
		x, ok := tab[v.Coeffs[0][j]]
		if !ok {
			fmt.Println("no")
			return
		}
		if x < 0 {
			e.Coeffs[0][j] = uint64(x + int64(q))
		} else {
			e.Coeffs[0][j] = uint64(x)
		}
	}
	r.NTTLvl(0, e, e)
	// s = (e - pk0)/pk1 mod q0
	got := r.NewPolyLvl(0)
	for j := range e.Coeffs[0] {
		Q := new(big.Int).SetUint64(q)
		x := new(big.Int).SetUint64((e.Coeffs[0][j] + q - pk.Value[0].Q.Coeffs[0][j]) % q)
		y := new(big.Int).ModInverse(new(big.Int).SetUint64(pk.Value[1].Q.Coeffs[0][j]), Q)
		got.Coeffs[0][j] = x.Mul(x, y).Mod(x, Q).Uint64()
	}
	r.InvNTTLvl(0, got, got)
	s := lab.Secret(p.Parameters, sk)
	okc := 0
	for j := range s {
		x := int64(got.Coeffs[0][j])
		if got.Coeffs[0][j] > q/2 {
			x = -int64(q - got.Coeffs[0][j])
		}
		if x == s[j] {
			okc++
		}
	}
	fmt.Println("secret coefficients recovered from public data:", okc, "of", len(s))
}
