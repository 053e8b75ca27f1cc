package lab

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
)

// KeyErr is the error term extracted from one component of a key.
type KeyErr struct {
	Name string
	E    []int64
}

// KeyLab evaluates the defining relations of keys with lattigo's ring arithmetic.
type KeyLab struct {
	P     mkrlwe.Parameters
	Bound int64
}

func NewKeyLab(p mkrlwe.Parameters) *KeyLab {
	return &KeyLab{P: p, Bound: int64(6*p.Sigma()) + 1}
}

func (k *KeyLab) lv() (int, int) { return k.P.QCount() - 1, k.P.PCount() - 1 }

func reducedQP(rq, rp *ring.Ring, a rlwe.PolyQP) rlwe.PolyQP {
	return rlwe.PolyQP{Q: Reduced(rq, len(rq.Modulus)-1, a.Q), P: Reduced(rp, len(rp.Modulus)-1, a.P)}
}

// Lift maps small coefficients to the NTT domain modulo every prime.
func (k *KeyLab) Lift(v []int64) rlwe.PolyQP {
	q, p := k.lv()
	r := k.P.RingQP()
	out := r.NewPoly()
	set := func(rg *ring.Ring, c [][]uint64) {
		for i, m := range rg.Modulus {
			for j := range v {
				x := v[j] % int64(m)
				if x < 0 {
					x += int64(m)
				}
				c[i][j] = uint64(x)
			}
		}
	}
	set(r.RingQ, out.Q.Coeffs)
	set(r.RingP, out.P.Coeffs)
	r.NTTLvl(q, p, out, out)
	return out
}

// mul multiplies two polynomials of the NTT domain, a in Montgomery form or not.
func (k *KeyLab) mul(a, b rlwe.PolyQP) rlwe.PolyQP {
	q, p := k.lv()
	r := k.P.RingQP()
	am := r.NewPoly()
	r.MFormLvl(q, p, reducedQP(r.RingQ, r.RingP, a), am)
	out := r.NewPoly()
	r.MulCoeffsMontgomeryLvl(q, p, am, b, out)
	return out
}

func (k *KeyLab) add(a, b rlwe.PolyQP, sub bool) rlwe.PolyQP {
	q, p := k.lv()
	r := k.P.RingQP()
	out := r.NewPoly()
	if sub {
		r.SubLvl(q, p, a, b, out)
	} else {
		r.AddLvl(q, p, a, b, out)
	}
	return out
}

func (k *KeyLab) invM(a rlwe.PolyQP) rlwe.PolyQP {
	q, p := k.lv()
	r := k.P.RingQP()
	out := r.NewPoly()
	r.InvMFormLvl(q, p, reducedQP(r.RingQ, r.RingP, a), out)
	return out
}

// Small extracts the coefficients of a polynomial of the NTT domain that is
// congruent to one small vector modulo every prime.
func (k *KeyLab) Small(a rlwe.PolyQP, bound int64) ([]int64, error) {
	q, p := k.lv()
	r := k.P.RingQP()
	c := reducedQP(r.RingQ, r.RingP, a)
	r.InvNTTLvl(q, p, c, c)
	out := make([]int64, k.P.N())
	for j := range out {
		get := func(m, x uint64) (int64, bool) {
			v := int64(x)
			if x > m/2 {
				v = -int64(m - x)
			}
			return v, v <= bound && v >= -bound
		}
		v0, ok := get(r.RingQ.Modulus[0], c.Q.Coeffs[0][j])
		if !ok {
			return nil, fmt.Errorf("coefficient %d is %d modulo prime 0, beyond the bound %d", j, v0, bound)
		}
		out[j] = v0
		for i, m := range r.RingQ.Modulus {
			if v, ok := get(m, c.Q.Coeffs[i][j]); !ok || v != v0 {
				return nil, fmt.Errorf("coefficient %d is %d modulo prime 0 but %d modulo prime %d of Q", j, v0, v, i)
			}
		}
		for i, m := range r.RingP.Modulus {
			if v, ok := get(m, c.P.Coeffs[i][j]); !ok || v != v0 {
				return nil, fmt.Errorf("coefficient %d is %d modulo prime 0 but %d modulo prime %d of P", j, v0, v, i)
			}
		}
	}
	return out, nil
}

// SecretOf extracts the coefficients of a secret key modulo Q and P.
func (k *KeyLab) SecretOf(sk *mkrlwe.SecretKey, bound int64) ([]int64, error) {
	return k.Small(k.invM(sk.Value), bound)
}

// gadget multiplies s (NTT) by P*g_i where g_i is 1 modulo the primes of digit i and 0 modulo the others.
func (k *KeyLab) gadget(s rlwe.PolyQP, i int) rlwe.PolyQP {
	r := k.P.RingQP()
	out := r.NewPoly()
	alpha := k.P.PCount() / k.P.Gamma()
	for j := i * alpha; j < (i+1)*alpha && j < k.P.QCount(); j++ {
		m := r.RingQ.Modulus[j]
		c := new(big.Int).Mod(r.RingP.ModulusBigint, new(big.Int).SetUint64(m)).Uint64()
		for t := range out.Q.Coeffs[j] {
			out.Q.Coeffs[j][t] = ring.BRed(c, s.Q.Coeffs[j][t]%m, m, r.RingQ.BredParams[j])
		}
	}
	return out
}

func (k *KeyLab) beta() int {
	alpha := k.P.PCount() / k.P.Gamma()
	return (k.P.QCount() + alpha - 1) / alpha
}

func (k *KeyLab) shape(name string, s *mkrlwe.SwitchingKey) error {
	if s == nil || len(s.Value) != k.beta() {
		return fmt.Errorf("%s does not have %d digits", name, k.beta())
	}
	return nil
}

// swk checks key_i + mask_i*ms - sign*P*g_i*gs small for every digit.
// mask and gs may be absent.
func (k *KeyLab) swk(name string, key *mkrlwe.SwitchingKey, mask *mkrlwe.SwitchingKey, ms []int64, gs []int64, sign int) (out []KeyErr, err error) {
	if err = k.shape(name, key); err != nil {
		return
	}
	var msL, gsL rlwe.PolyQP
	if ms != nil {
		msL = k.Lift(ms)
	}
	if gs != nil {
		gsL = k.Lift(gs)
	}
	for i := range key.Value {
		e := k.invM(key.Value[i])
		if mask != nil {
			e = k.add(e, k.mul(k.invM(mask.Value[i]), msL), false)
		}
		if gs != nil {
			e = k.add(e, k.gadget(gsL, i), sign > 0)
		}
		v, err := k.Small(e, k.Bound)
		if err != nil {
			return nil, fmt.Errorf("%s, digit %d: the relation does not hold: %v", name, i, err)
		}
		out = append(out, KeyErr{fmt.Sprintf("%s[%d]", name, i), v})
	}
	return
}

// PK checks a public key: pk0 + pk1*s = e.
func (k *KeyLab) PK(pk *mkrlwe.PublicKey, s []int64) ([]KeyErr, error) {
	e := k.add(reducedQP(k.P.RingQP().RingQ, k.P.RingQP().RingP, pk.Value[0]), k.mul(pk.Value[1], k.Lift(s)), false)
	v, err := k.Small(e, k.Bound)
	if err != nil {
		return nil, fmt.Errorf("public key: the relation does not hold: %v", err)
	}
	return []KeyErr{{"pk", v}}, nil
}

// Swk checks a plain gadget encryption g*s + e.
func (k *KeyLab) Swk(key *mkrlwe.SwitchingKey, s []int64) ([]KeyErr, error) {
	return k.swk("switching key", key, nil, nil, s, 1)
}

// Rlk checks a relinearization key (b, d, v).
func (k *KeyLab) Rlk(key *mkrlwe.RelinearizationKey, s, r []int64) (out []KeyErr, err error) {
	b, err := k.swk("rlk.b", key.Value[0], k.P.CRS[0], s, nil, 0)
	if err != nil {
		return nil, err
	}
	d, err := k.swk("rlk.d", key.Value[1], k.P.CRS[0], r, s, 1)
	if err != nil {
		return nil, err
	}
	v, err := k.swk("rlk.v", key.Value[2], k.P.CRS[-1], s, r, -1)
	if err != nil {
		return nil, err
	}
	return append(append(b, d...), v...), nil
}

// GaloisOf is the automorphism of a rotation to the left by rot.
func GaloisOf(n, rot int) uint64 {
	m := uint64(2 * n)
	g := uint64(1)
	h := n / 2
	for i := 0; i < ((rot%h)+h)%h; i++ {
		g = g * 5 % m
	}
	return g
}

func automorphInt(s []int64, g uint64) []int64 {
	n := uint64(len(s))
	out := make([]int64, n)
	for i := uint64(0); i < n; i++ {
		j := i * g % (2 * n)
		if j < n {
			out[j] = s[i]
		} else {
			out[j-n] = -s[i]
		}
	}
	return out
}

func inverse(g, m uint64) uint64 {
	return new(big.Int).ModInverse(new(big.Int).SetUint64(g), new(big.Int).SetUint64(m)).Uint64()
}

// Rtk checks a rotation key for the index rot.
func (k *KeyLab) Rtk(key *mkrlwe.RotationKey, rot int, s []int64) ([]KeyErr, error) {
	n := k.P.N()
	h := n / 2
	rot = ((rot % h) + h) % h
	if int(key.RotIdx) != rot {
		return nil, fmt.Errorf("the rotation key for %d announces the index %d", rot, key.RotIdx)
	}
	si := automorphInt(s, inverse(GaloisOf(n, rot), uint64(2*n)))
	return k.swk(fmt.Sprintf("rtk(%d)", rot), key.Value, k.P.CRS[rot], si, s, 1)
}

// Cjk checks a conjugation key.
func (k *KeyLab) Cjk(key *mkrlwe.ConjugationKey, s []int64) ([]KeyErr, error) {
	return k.swk("cjk", key.Value, k.P.CRS[-2], s, automorphInt(s, uint64(2*k.P.N()-1)), 1)
}

// bfvGadget is floor(P*T*g_i/QMul) for the digits of Q (half 0) and of QMul (half 1).
func bfvGadget(p mkbfv.Parameters, half, i int) *big.Int {
	Q, QM := p.RingQ().ModulusBigint, p.RingQMul().ModulusBigint
	mods := p.RingQ().Modulus
	if half == 1 {
		mods = p.RingQMul().Modulus
	}
	alpha := p.PCount() / p.Gamma()
	R := new(big.Int).Mul(Q, QM)
	d := big.NewInt(1)
	for j := i * alpha; j < (i+1)*alpha; j++ {
		d.Mul(d, new(big.Int).SetUint64(mods[j]))
	}
	g := new(big.Int).Div(R, d)
	t := new(big.Int).ModInverse(new(big.Int).Mod(g, d), d)
	g.Mul(g, t)
	g.Mul(g, new(big.Int).SetUint64(p.T()))
	g.Mul(g, p.RingP().ModulusBigint)
	return g.Div(g, QM)
}

func (k *KeyLab) scale(s rlwe.PolyQP, c *big.Int) rlwe.PolyQP {
	r := k.P.RingQP()
	out := r.NewPoly()
	do := func(rg *ring.Ring, in, o [][]uint64) {
		for i, m := range rg.Modulus {
			cm := new(big.Int).Mod(c, new(big.Int).SetUint64(m)).Uint64()
			for j := range in[i] {
				o[i][j] = ring.BRed(cm, in[i][j]%m, m, rg.BredParams[i])
			}
		}
	}
	do(r.RingQ, s.Q.Coeffs, out.Q.Coeffs)
	do(r.RingP, s.P.Coeffs, out.P.Coeffs)
	return out
}

// bfvSwk checks the two halves of a BFV gadget encryption of s, masked by mask*ms. The rounding
// of the gadget vector may add a multiple of the secret.
func (k *KeyLab) bfvSwk(name string, p mkbfv.Parameters, half int, key, mask *mkrlwe.SwitchingKey, ms, s []int64) (out []KeyErr, err error) {
	if err = k.shape(name, key); err != nil {
		return
	}
	sL := k.Lift(s)
	var msL rlwe.PolyQP
	if mask != nil {
		msL = k.Lift(ms)
	}
	for i := range key.Value {
		e := k.invM(key.Value[i])
		if mask != nil {
			e = k.add(e, k.mul(k.invM(mask.Value[i]), msL), false)
		}
		e = k.add(e, k.scale(sL, bfvGadget(p, half, i)), true)
		v, err := k.Small(e, k.Bound+2)
		if err != nil {
			return nil, fmt.Errorf("%s, digit %d: the relation does not hold: %v", name, i, err)
		}
		out = append(out, KeyErr{fmt.Sprintf("%s[%d]", name, i), v})
	}
	return
}

// BfvSwk checks the result of a BFV switching key generation.
func (k *KeyLab) BfvSwk(p mkbfv.Parameters, k1, k2 *mkrlwe.SwitchingKey, s []int64) ([]KeyErr, error) {
	a, err := k.bfvSwk("bfv switching key over Q", p, 0, k1, nil, nil, s)
	if err != nil {
		return nil, err
	}
	b, err := k.bfvSwk("bfv switching key over QMul", p, 1, k2, nil, nil, s)
	return append(a, b...), err
}

// BfvRlk checks a BFV relinearization key.
func (k *KeyLab) BfvRlk(p mkbfv.Parameters, key *mkbfv.RelinearizationKey, s, r []int64) ([]KeyErr, error) {
	var out []KeyErr
	for h, crs := range []int{0, -3} {
		b, err := k.swk(fmt.Sprintf("rlk.b%d", h+1), key.Value[h].Value[0], p.CRS[crs], s, nil, 0)
		if err != nil {
			return nil, err
		}
		d, err := k.bfvSwk(fmt.Sprintf("rlk.d%d", h+1), p, h, key.Value[h].Value[1], p.CRS[crs], r, s)
		if err != nil {
			return nil, err
		}
		out = append(append(out, b...), d...)
	}
	v, err := k.swk("rlk.v", key.Value[0].Value[2], p.CRS[-1], s, r, -1)
	return append(out, v...), err
}
