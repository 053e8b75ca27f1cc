package prim

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C16: scaling between the ciphertext modulus Q, the auxiliary modulus QMul and R = Q*QMul.

type scaler struct {
	x          *mc.X
	q, m       []uint64
	rq, rm, rr *ring.Ring
	conv       *mkbfv.FastBasisExtender
	Q, M, R    *big.Int
}

func newScaler(x *mc.X, n int, q, m, p []uint64) *scaler {
	s := &scaler{x: x, q: q, m: m, rq: mustRing(n, q), rm: mustRing(n, m)}
	s.rr = mustRing(n, append(append([]uint64(nil), q...), m...))
	s.conv = mkbfv.NewFastBasisExtender(mustRing(n, p), s.rq, s.rm, s.rr)
	s.Q, s.M = product(q), product(m)
	s.R = new(big.Int).Mul(s.Q, s.M)
	return s
}

var c16Kinds = []string{"ModUpQtoR", "Rescale", "Quantize"}

func (s *scaler) domain(kind string) (*big.Int, []uint64) {
	if kind == "Quantize" {
		return s.R, s.rr.Modulus
	}
	return s.Q, s.q
}

// op runs one operation on a polynomial with the coefficients vals (in the domain of the operation).
func (s *scaler) op(kind string, vals []*big.Int, lazy int, t uint64) {
	x := s.x
	polR := lab.UniformPoly(s.rr, len(s.rr.Modulus)-1, 3)
	polQ := lab.UniformPoly(s.rq, len(s.q)-1, 4)
	if kind == "Quantize" {
		for j, v := range vals {
			residues(polR, j, v, s.rr.Modulus, 0)
		}
		s.rr.NTT(polR, polR)
		in := polR.CopyNew()
		s.conv.Quantize(polR, polQ, t)
		x.Assert(in.Equals(polR), "Quantize changes its operand")
		got := lab.Centered(s.rq, len(s.q)-1, polQ.Coeffs)
		T := new(big.Int).SetUint64(t)
		tol := new(big.Int).Lsh(s.M, 1)
		s.diff("Quantize", vals, got, T, s.M, s.R, tol)
		return
	}
	for j, v := range vals {
		residues(polQ, j, v, s.q, lazy)
	}
	in := polQ.CopyNew()
	if kind == "ModUpQtoR" {
		s.conv.ModUpQtoR(polQ, polR)
	} else {
		s.conv.Rescale(polQ, polR)
	}
	x.Assert(in.Equals(polQ), "%s changes its operand", kind)
	got := lab.Centered(s.rr, len(s.rr.Modulus)-1, polR.Coeffs)
	one := big.NewInt(1)
	if kind == "ModUpQtoR" {
		// the same value modulo Q, of the size of Q
		s.diff(kind, vals, got, one, one, s.Q, new(big.Int))
		s.small(kind, vals, got, s.Q)
		return
	}
	// value*QMul/Q modulo QMul, of the size of QMul
	s.diff(kind, vals, got, s.M, s.Q, s.R, new(big.Int).Lsh(s.Q, 1))
	s.small(kind, vals, got, s.M)
}

// diff checks |got*den - val*num| <= tol modulo mod.
func (s *scaler) diff(kind string, vals, got []*big.Int, num, den, mod, tol *big.Int) {
	half := new(big.Int).Rsh(mod, 1)
	for j, v := range vals {
		d := new(big.Int).Mul(got[j], den)
		d.Sub(d, new(big.Int).Mul(v, num))
		d.Mod(d, mod)
		if d.Cmp(half) > 0 {
			d.Sub(d, mod)
		}
		if d.CmpAbs(tol) > 0 {
			s.x.Fail("%s of %v gives %v: off by %v/%v, more than two units (Q=%v, QMul=%v)", kind, v, got[j], d, den, s.Q, s.M)
		}
	}
	s.x.Count(len(vals))
}

func (s *scaler) small(kind string, vals, got []*big.Int, m *big.Int) {
	max := new(big.Int).Add(m, slack(m))
	max.Add(max, big.NewInt(1))
	for j := range got {
		if got[j].CmpAbs(max) > 0 {
			s.x.Fail("%s of %v gives %v, larger than the modulus %v", kind, vals[j], got[j], m)
		}
	}
}

func c16Exhaustive(q, m []uint64, kind string, t uint64) func(x *mc.X) {
	return func(x *mc.X) {
		s := newScaler(x, 16, q, m, []uint64{7681})
		D, _ := s.domain(kind)
		d := D.Int64()
		lazy := 0
		if kind != "Quantize" {
			lazy = []int{0, -1}[x.Choose("representation", 2)]
		}
		b := int64(x.Choose("block", 16))
		x.Step("%s, Q=%v QMul=%v t=%d, block %d of every value below %d", kind, q, m, t, b, d)
		vals := make([]*big.Int, 16)
		for v := b * d / 16; v < (b+1)*d/16; v += 16 {
			for j := range vals {
				w := v + int64(j)
				if w >= d {
					w = d - 1
				}
				vals[j] = big.NewInt(w)
			}
			s.op(kind, vals, lazy, t)
		}
		x.State(kind, q, m, t, b)
	}
}

func c16Boundary(q, m []uint64, kind string) func(x *mc.X) {
	return func(x *mc.X) {
		s := newScaler(x, 16, q, m, primes(4, 57.3))
		D, ps := s.domain(kind)
		vals := boundary(D, ps)
		// roundings change around the multiples of the moduli
		for k := int64(1); k < 200; k += 9 {
			for e := int64(-1); e <= 1; e++ {
				for _, u := range []*big.Int{s.Q, s.M} {
					v := new(big.Int).Mul(u, big.NewInt(k*k*k))
					v.Add(v.Rsh(v, 3), big.NewInt(e))
					vals = append(vals, v.Mod(v, D))
				}
			}
		}
		t := []uint64{2, 65537, 12289}[0]
		if kind == "Quantize" {
			t = []uint64{2, 97, 65537}[x.Choose("t", 3)]
		}
		lazy := 0
		if kind != "Quantize" {
			lazy = []int{0, -1, 0x55}[x.Choose("representation", 3)]
		}
		x.Step("%s of %d boundary values", kind, len(vals))
		for i := 0; i < len(vals); i += 16 {
			batch := make([]*big.Int, 16)
			for j := range batch {
				batch[j] = vals[(i+j)%len(vals)]
			}
			s.op(kind, batch, lazy, t)
		}
		x.State(kind, q, m, t, lazy)
	}
}

func c16History(q, m []uint64, first, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		s := newScaler(x, 16, q, m, primes(4, 57.3))
		for i := 0; i < depth; i++ {
			k := first
			if i > 0 {
				k = x.Choose("operation", len(c16Kinds))
			}
			kind := c16Kinds[k]
			D, _ := s.domain(kind)
			f := x.Choose("values", 3)
			x.Step("%s values %d", kind, f)
			vals := make([]*big.Int, 16)
			for j := range vals {
				v := new(big.Int).Mul(D, big.NewInt(int64(2*j+1)))
				v.Rsh(v, uint(5+9*f))
				if f == 1 {
					v.Sub(D, v)
				}
				vals[j] = v.Mod(v, D)
			}
			s.op(kind, vals, 0, 97)
			x.State(kind, f, i)
		}
	}
}

// bfvGadgets: T*a*s/QMul for a in R.
type bfvGadget struct {
	p    mkbfv.Parameters
	k1   []*mkrlwe.SwitchingKey
	k2   []*mkrlwe.SwitchingKey
	s    [][]int64
	zero bool
}

var bfvGadgets = map[string]*bfvGadget{}

func c16Product(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		g := bfvGadgets[l.Name]
		if g == nil {
			g = &bfvGadget{p: l.BfvParams(), zero: l.Sigma < 0}
			kg := mkbfv.NewKeyGenerator(g.p)
			for k := 0; k < nSecrets; k++ {
				v := secret(g.p.N(), k)
				a, b := mkrlwe.NewSwitchingKey(g.p.Parameters), mkrlwe.NewSwitchingKey(g.p.Parameters)
				kg.GenBFVSwitchingKey(secretOf(g.p.Parameters, v), a, b)
				g.k1, g.k2, g.s = append(g.k1, a), append(g.k2, b), append(g.s, v)
			}
			bfvGadgets[l.Name] = g
		}
		p := g.p
		ks := mkbfv.NewKeySwitcher(p)
		rr, rq := p.RingR(), p.RingQ()
		nq := p.QCount()
		kind := x.Choose("pattern", lab.Patterns)
		var a *ring.Poly
		switch x.Choose("half", 3) {
		case 0:
			a = lab.PatternPoly(rr, 2*nq-1, kind)
		case 1: // only the primes of Q
			a = ring.NewPoly(rr.N, 2*nq)
			for i, row := range lab.PatternPoly(rq, nq-1, kind).Coeffs {
				copy(a.Coeffs[i], row)
			}
		case 2: // only the primes of QMul
			a = ring.NewPoly(rr.N, 2*nq)
			for i, row := range lab.PatternPoly(p.RingQMul(), nq-1, kind).Coeffs {
				copy(a.Coeffs[nq+i], row)
			}
		}
		before := a.CopyNew()
		x.Step("%s pattern %d", l.Name, kind)
		ad1, ad2 := mkrlwe.NewSwitchingKey(p.Parameters), mkrlwe.NewSwitchingKey(p.Parameters)
		ks.DecomposeBFV(nq-1, a, ad1, ad2)
		val := lab.Centered(rr, 2*nq-1, a.Coeffs)
		M := p.RingQMul().ModulusBigint
		R := new(big.Int).Mul(rq.ModulusBigint, M)
		T := new(big.Int).SetUint64(p.T())
		alpha := p.PCount() / p.Gamma()
		for k := range g.s {
			c := lab.UniformPoly(rq, nq-1, 5)
			ks.ExternalProductBFV(nq-1, a, g.k1[k], g.k2[k], c)
			c2 := lab.UniformPoly(rq, nq-1, 6)
			ks.ExternalProductBFVHoisted(nq-1, ad1, ad2, g.k1[k], g.k2[k], c2)
			x.Assert(sameMod(rq, nq-1, c, c2), "%s pattern %d: the product with the precomputed digits differs", l.Name, kind)
			x.Assert(a.Equals(before), "ExternalProductBFV changes its operand")
			got := lab.Centered(rq, nq-1, c.Coeffs)
			want := lab.NegaMul(val, lab.Ints(g.s[k]))
			// |QMul*c - T*a*s| <= QMul*bound modulo R
			D := big.NewInt(1)
			for _, mods := range [][]uint64{rq.Modulus, p.RingQMul().Modulus} {
				for i := 0; i < nq; i += alpha {
					if d := product(mods[i:min(i+alpha, nq)]); d.Cmp(D) > 0 {
						D = d
					}
				}
			}
			norm := int64(0)
			for _, v := range g.s[k] {
				if v < 0 {
					v = -v
				}
				norm += v
			}
			e := int64(p.N())*(int64(6*p.Sigma())+1) + 2*norm
			if g.zero {
				e = 2 * norm
			}
			b := new(big.Int).Mul(D, big.NewInt(e*int64(2*p.Beta(nq-1))))
			b.Div(b, p.RingP().ModulusBigint)
			b.Add(b, big.NewInt(3))
			tol := new(big.Int).Mul(b, M)
			half := new(big.Int).Rsh(R, 1)
			for j := range got {
				d := new(big.Int).Mul(got[j], M)
				d.Sub(d, new(big.Int).Mul(want[j], T))
				d.Mod(d, R)
				if d.Cmp(half) > 0 {
					d.Sub(d, R)
				}
				if d.CmpAbs(tol) > 0 {
					x.Fail("%s pattern %d secret %d, coefficient %d: the product is %v, off by %v units from T*a*s/QMul (bound %v)", l.Name, kind, k, j, got[j], d.Div(d, M), b)
				}
			}
			x.Count(2)
		}
		x.State(l.Name, kind, before.Coeffs[0][0], before.Coeffs[nq][0])
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C16",
		Bounds: map[string]string{
			"quick":    "every value of tiny moduli (Q={97},{97,193},{193,353,257}; R up to 6.6 million), reduced and lazily reduced; boundary values of 1-5, 9 and 16 primes of 20-60 bits for t = 2, 97, 65537; sequences of 5 operations; BFV external products of 9 coefficient patterns (over R, Q and QMul) with 6 secrets for every factorisation alpha | QCount <= 6, with and without noise, and 8 cases with up to 16 primes or degree 1024",
			"thorough": "as quick with larger tiny moduli (R up to 76 million values), sequences of 6 operations and QCount up to 10",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			th := tier == "thorough"
			type tc struct {
				q, m []uint64
				kind string
				t    uint64
			}
			cases := []tc{
				{[]uint64{97}, []uint64{193}, "", 2}, {[]uint64{193}, []uint64{97}, "", 17},
				{[]uint64{97}, []uint64{12289}, "", 5}, {[]uint64{12289}, []uint64{97}, "", 3},
				{[]uint64{97, 193}, []uint64{257, 353}, "QtoR", 0}, {[]uint64{353, 257}, []uint64{97, 193}, "QtoR", 0},
				{[]uint64{193, 353}, []uint64{786433, 12289}, "QtoR", 0},
			}
			cases = append(cases, tc{[]uint64{193, 353, 97}, []uint64{257, 449, 577}, "QtoR", 0},
				tc{[]uint64{40961}, []uint64{97}, "", 7}, tc{[]uint64{97}, []uint64{40961}, "", 97})
			if th {
				cases = append(cases, tc{[]uint64{193, 353, 257}, []uint64{97, 449, 577}, "QtoR", 0},
					tc{[]uint64{40961}, []uint64{353}, "", 19}, tc{[]uint64{353}, []uint64{40961}, "", 2},
					tc{[]uint64{12289}, []uint64{193}, "", 769}, tc{[]uint64{193}, []uint64{12289}, "", 3},
					tc{[]uint64{786433}, []uint64{97}, "", 257}, tc{[]uint64{97}, []uint64{786433}, "", 65537},
					tc{[]uint64{577, 97, 449}, []uint64{786433, 193, 257}, "QtoR", 0})
			}
			for i, c := range cases {
				for _, k := range c16Kinds {
					if k == "Quantize" && c.kind != "" {
						continue
					}
					us = append(us, mc.Unit{Name: fmt.Sprintf("all/%d/%s", i, k), Body: c16Exhaustive(c.q, c.m, k, c.t)})
				}
			}
			for i, r := range [][]float64{
				{58, 58.5}, {30, 60}, {60.5, 20}, {45, 45, 46, 46}, {60, 60, 60.5, 60.5}, {50, 43.5, 47.2, 51, 46.3, 44.1},
				{20, 60, 30, 55, 60.9, 25}, {55, 55, 55, 55, 55.5, 55.5, 55.5, 55.5}, {40, 41, 40, 41, 40, 42, 42, 42, 42, 42},
				append(rep(9, 50), rep(9, 51)...), append(rep(16, 59), rep(16, 60.5)...),
			} {
				q, m := splitAt(primes(4, r...), len(r)/2)
				for _, k := range c16Kinds {
					us = append(us, mc.Unit{Name: fmt.Sprintf("real/%d/%s", i, k), Body: c16Boundary(q, m, k)})
				}
			}
			q, m := splitAt(primes(4, 45, 55, 60, 46, 56, 60), 3)
			d := 5
			if th {
				d = 6
			}
			for i, k := range c16Kinds {
				us = append(us, mc.Unit{Name: "history/" + k, Body: c16History(q, m, i, d)})
			}
			max := 6
			if th {
				max = 10
			}
			for n := 1; n <= max; n++ {
				for a := 1; a <= n; a++ {
					if n%a != 0 {
						continue
					}
					for _, sigma := range []float64{0, -1} {
						l := lab.Lit{LogN: 4, T: []uint64{97, 65537}[(n+a)%2], Sigma: sigma, P: rep(2*a, 60.5)}
						if a%2 == 0 {
							l.P = append(l.P, 58)
						}
						for i := 0; i < n; i++ {
							l.Q = append(l.Q, []float64{50, 58, 45}[i%3])
							l.QMul = append(l.QMul, []float64{51, 59, 46}[i%3])
						}
						l.Name = fmt.Sprintf("product/q%d-a%d-%v", n, a, sigma)
						us = append(us, mc.Unit{Name: l.Name, Body: c16Product(l)})
					}
				}
			}
			for _, c := range [][3]int{{9, 1, 4}, {9, 3, 4}, {12, 2, 4}, {16, 1, 4}, {16, 4, 4}, {16, 16, 4}, {3, 1, 8}, {2, 1, 10}} {
				l := lab.Lit{LogN: c[2], T: 65537, P: rep(2*c[1], 60.5), Q: rep(c[0], 50), QMul: rep(c[0], 51)}
				l.Name = fmt.Sprintf("product/wide-q%d-a%d-n%d", c[0], c[1], 1<<uint(c[2]))
				us = append(us, mc.Unit{Name: l.Name, Body: c16Product(l)})
			}
			return us
		},
	})
}
