package prim

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C15: gadget decomposition and external products.

// secretOf builds a secret key with chosen coefficients.
func secretOf(p mkrlwe.Parameters, v []int64) *mkrlwe.SecretKey {
	k := lab.NewKeyLab(p)
	sk := mkrlwe.NewSecretKey(p, "x")
	l := k.Lift(v)
	p.RingQP().MFormLvl(p.QCount()-1, p.PCount()-1, l, sk.Value)
	return sk
}

// secrets lists coefficient vectors used as secrets.
func secret(n, k int) []int64 {
	v := make([]int64, n)
	switch k {
	case 0: // dense ternary
		for i := range v {
			v[i] = int64((i*i*5+i*3+1)%3) - 1
		}
	case 1:
		v[0] = 1
	case 2:
		v[n-1] = -1
	case 3: // all ones: the largest products
		for i := range v {
			v[i] = 1
		}
	case 4: // zero
	case 5: // the largest width of the gaussian secrets
		for i := range v {
			v[i] = int64(i%2*2-1) * 19
		}
	}
	return v
}

const nSecrets = 6

// gadgetWorld is a key switcher and gadget encryptions of secrets.
type gadgetWorld struct {
	x     *mc.X
	p     mkrlwe.Parameters
	ks    *mkrlwe.KeySwitcher
	keys  []*mkrlwe.SwitchingKey
	s     [][]int64
	alpha int
	sigma bool
	M     *big.Int // largest digit modulus
}

var gadgets = map[string]*gadgetWorld{}

func newGadget(x *mc.X, l lab.Lit) *gadgetWorld {
	w := gadgets[l.Name]
	if w == nil {
		w = &gadgetWorld{p: l.RlweParams(), sigma: l.Sigma >= 0}
		w.alpha = w.p.PCount() / w.p.Gamma()
		kg := mkrlwe.NewKeyGenerator(w.p)
		for k := 0; k < nSecrets; k++ {
			s := secret(w.p.N(), k)
			key := mkrlwe.NewSwitchingKey(w.p)
			kg.GenSwitchingKey(secretOf(w.p, s), key)
			w.s, w.keys = append(w.s, s), append(w.keys, key)
		}
		gadgets[l.Name] = w
	}
	o := *w
	o.x = x
	o.ks = mkrlwe.NewKeySwitcher(w.p)
	return &o
}

// bound is the largest error of an external product.
func (w *gadgetWorld) bound(level int) *big.Int {
	b := big.NewInt(2)
	if w.sigma {
		D := big.NewInt(1)
		Q := w.p.RingQ().Modulus
		for i := 0; i < len(Q); i += w.alpha {
			d := product(Q[i:min(i+w.alpha, len(Q))])
			if d.Cmp(D) > 0 {
				D = d
			}
		}
		n := int64(w.p.Beta(level)) * int64(w.p.N()) * (int64(6*w.p.Sigma()) + 1)
		D.Mul(D, big.NewInt(n))
		b.Add(b, D.Div(D, w.p.RingP().ModulusBigint))
		b.Add(b, big.NewInt(1))
	}
	return b
}

// near checks that c is a*s modulo Q_level up to the bound.
func (w *gadgetWorld) near(what string, level int, a *ring.Poly, k int, c *ring.Poly) {
	r := w.p.RingQ()
	aa := lab.Reduced(r, level, a)
	if a.IsNTT {
		r.InvNTTLvl(level, aa, aa)
	}
	// a*s with lattigo's transform
	s := r.NewPoly()
	for i, q := range r.Modulus {
		for j, v := range w.s[k] {
			s.Coeffs[i][j] = uint64(v+int64(q)) % q
		}
	}
	r.NTTLvl(level, s, s)
	r.MFormLvl(level, s, s)
	r.NTTLvl(level, aa, aa)
	r.MulCoeffsMontgomeryLvl(level, aa, s, aa)
	r.InvNTTLvl(level, aa, aa)
	got := lab.Centered(r, level, c.Coeffs)
	want := lab.Centered(r, level, aa.Coeffs)
	e := lab.MaxAbs(lab.CenterMod(lab.Sub(got, want), lab.Modulus(r, level)))
	if e.Cmp(w.bound(level)) > 0 {
		w.x.Fail("%s: the result differs from a*s by %v, the bound is %v", what, e, w.bound(level))
	}
}

func (w *gadgetWorld) digits(what string, level int, a *ring.Poly, d *mkrlwe.SwitchingKey) {
	rq, rp := w.p.RingQ(), w.p.RingP()
	lp := w.p.PCount() - 1
	aa := lab.Reduced(rq, level, a)
	if a.IsNTT {
		rq.InvNTTLvl(level, aa, aa)
	}
	all := append(append([]uint64(nil), rq.Modulus[:level+1]...), rp.Modulus...)
	qp := product(all)
	half := new(big.Int).Rsh(qp, 1)
	bases := make([]*big.Int, len(all))
	for i, q := range all {
		m := new(big.Int).SetUint64(q)
		b := new(big.Int).Div(qp, m)
		bases[i] = b.Mul(b, new(big.Int).ModInverse(b, m))
	}
	for i := 0; i*w.alpha <= level; i++ {
		Q := lab.Reduced(rq, level, d.Value[i].Q)
		P := lab.Reduced(rp, lp, d.Value[i].P)
		rq.InvNTTLvl(level, Q, Q)
		rp.InvNTTLvl(lp, P, P)
		D := product(rq.Modulus[i*w.alpha : min((i+1)*w.alpha, level+1)])
		max := new(big.Int).Add(D, slack(D))
		t, m := new(big.Int), new(big.Int)
		for j := 0; j < w.p.N(); j++ {
			v := new(big.Int)
			for k := range all {
				c := uint64(0)
				if k <= level {
					c = Q.Coeffs[k][j]
				} else {
					c = P.Coeffs[k-level-1][j]
				}
				v.Add(v, t.Mul(bases[k], m.SetUint64(c)))
			}
			v.Mod(v, qp)
			if v.Cmp(half) > 0 {
				v.Sub(v, qp)
			}
			if v.CmpAbs(max) > 0 {
				w.x.Fail("%s, digit %d, coefficient %d: the digit %v is larger than its modulus %v", what, i, j, v, D)
			}
			for k := i * w.alpha; k < (i+1)*w.alpha && k <= level; k++ {
				m.SetUint64(rq.Modulus[k])
				if t.Mod(v, m).Uint64() != aa.Coeffs[k][j] {
					w.x.Fail("%s, digit %d, coefficient %d: the digit is %v modulo prime %d, the polynomial %v", what, i, j, t, k, aa.Coeffs[k][j])
				}
			}
		}
		w.x.Count(w.p.N())
	}
}

func sameMod(r *ring.Ring, level int, a, b *ring.Poly) bool {
	for i := 0; i <= level; i++ {
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j]%r.Modulus[i] != b.Coeffs[i][j]%r.Modulus[i] {
				return false
			}
		}
	}
	return true
}

// input builds the polynomial of a pattern with top rows above the level.
func (w *gadgetWorld) input(level, kind int, ntt bool) *ring.Poly {
	r := w.p.RingQ()
	a := lab.PatternPoly(r, w.p.MaxLevel(), kind)
	if kind == 5 { // only the last prime of the level
		a = ring.NewPoly(r.N, w.p.MaxLevel()+1)
		copy(a.Coeffs, lab.PatternPoly(r, level, 5).Coeffs)
	}
	if ntt {
		r.NTTLvl(w.p.MaxLevel(), a, a)
		a.IsNTT = true
	}
	return a
}

// c15Product checks decompositions and products for every level, pattern, domain and secret.
func c15Product(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		w := newGadget(x, l)
		r := w.p.RingQ()
		level := x.Choose("level", w.p.QCount())
		kind := x.Choose("pattern", lab.Patterns)
		ntt := x.Bool("NTT domain")
		a := w.input(level, kind, ntt)
		before := a.CopyNew()
		ad := mkrlwe.NewSwitchingKey(w.p)
		for i := range ad.Value {
			ad.Value[i].Q.Copy(lab.UniformPoly(r, w.p.MaxLevel(), uint64(i)+3))
			ad.Value[i].P.Copy(lab.UniformPoly(w.p.RingP(), w.p.PCount()-1, uint64(i)+4))
		}
		w.ks.Decompose(level, a, ad)
		what := fmt.Sprintf("%s level %d pattern %d", l.Name, level, kind)
		x.Step("Decompose(%s)", what)
		x.Assert(a.Equals(before), "%s: Decompose changes its operand", what)
		w.digits(what, level, a, ad)
		for k := range w.keys {
			h := lab.NewH().Swk(w.keys[k])
			c := lab.UniformPoly(r, w.p.MaxLevel(), 9)
			w.ks.ExternalProduct(level, a, w.keys[k], c)
			w.near(what+" ExternalProduct", level, a, k, c)
			c2 := lab.UniformPoly(r, level, 8)
			w.ks.ExternalProductHoisted(level, ad, w.keys[k], c2)
			w.near(what+" ExternalProductHoisted", level, a, k, c2)
			x.Assert(sameMod(r, level, c, c2), "%s: the product with the precomputed digits differs", what)
			x.Assert(a.Equals(before) && h == lab.NewH().Swk(w.keys[k]), "%s: ExternalProduct changes its operands", what)
			// the digits of a higher level serve at the lower ones
			if k == 0 {
				for lv := 0; lv < level; lv++ {
					c3 := lab.UniformPoly(r, lv, 7)
					w.ks.ExternalProductHoisted(lv, ad, w.keys[k], c3)
					low := a.CopyNew()
					low.Coeffs = low.Coeffs[:lv+1]
					low.IsNTT = a.IsNTT
					w.near(fmt.Sprintf("%s with the digits of that level at level %d", what, lv), lv, low, k, c3)
				}
			}
			// the result may overwrite the operand
			if !ntt && k == 1 {
				c4 := a.CopyNew()
				w.ks.ExternalProduct(level, c4, w.keys[k], c4)
				w.near(what+" in place", level, a, k, c4)
			}
			x.Count(2)
		}
		x.State(l.Name, level, kind, ntt)
	}
}

// c15History: products at changing levels on one switcher give what a fresh one gives.
func c15History(l lab.Lit, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		w := newGadget(x, l)
		r := w.p.RingQ()
		ad := mkrlwe.NewSwitchingKey(w.p)
		hoisted := -1
		var ha *ring.Poly
		for i := 0; i < depth; i++ {
			level := first
			if i > 0 {
				level = x.Choose("level", w.p.QCount())
			}
			k := x.Choose("secret", 2)
			a := lab.UniformPoly(r, w.p.MaxLevel(), uint64(i+10*level+1))
			what := fmt.Sprintf("product %d at level %d", i, level)
			switch x.Choose("operation", 4) {
			case 0:
				x.Step("ExternalProduct level %d", level)
				c := ring.NewPoly(r.N, level+1)
				w.ks.ExternalProduct(level, a, w.keys[k], c)
				w.near(what, level, a, k, c)
			case 1:
				x.Step("ExternalProduct NTT level %d", level)
				c := ring.NewPoly(r.N, level+1)
				r.NTTLvl(w.p.MaxLevel(), a, a)
				a.IsNTT = true
				w.ks.ExternalProduct(level, a, w.keys[k], c)
				w.near(what, level, a, k, c)
			case 2:
				x.Step("Decompose level %d", level)
				w.ks.Decompose(level, a, ad)
				w.digits(what, level, a, ad)
				hoisted, ha = level, a
			case 3:
				if hoisted < level {
					x.Skip()
				}
				x.Step("ExternalProductHoisted level %d", level)
				c := ring.NewPoly(r.N, level+1)
				w.ks.ExternalProductHoisted(level, ad, w.keys[k], c)
				w.near(what+" hoisted", level, ha, k, c)
			}
			x.State(l.Name, i, level, k, hoisted)
		}
	}
}

// c15Tiny runs the decomposer on every value of every digit of tiny bases.
func c15Tiny(q, p []uint64, gamma int) func(x *mc.X) {
	return func(x *mc.X) {
		rq, rp := mustRing(16, q), mustRing(16, p)
		dec := mkrlwe.NewDecomposer(rq, rp, gamma)
		lq := x.Choose("levelQ", len(q))
		lp := x.Choose("levelP", len(p))
		alpha := (lp + 1) / gamma
		if alpha == 0 {
			x.Skip()
		}
		nd := (lq + alpha) / alpha
		i := x.Choose("digit", nd)
		from, to := i*alpha, min((i+1)*alpha, lq+1)
		D := product(q[from:to])
		if !D.IsInt64() || D.Int64() > 6e6 {
			x.Skip()
		}
		x.Step("digit %d of %v with special primes %v at levels %d,%d, gamma %d, every value below %v", i, q, p, lq, lp, gamma, D)
		m := D.Int64()
		p0, p1Q, p1P := rq.NewPoly(), rq.NewPoly(), rp.NewPoly()
		for v := int64(0); v < m; v += 16 {
			for j := 0; j < 16; j++ {
				w := v + int64(j)
				for k := range q {
					p0.Coeffs[k][j] = uint64(v*7+int64(j*k)) % q[k] // the other digits
				}
				for k := from; k < to; k++ {
					p0.Coeffs[k][j] = uint64(w) % q[k]
				}
			}
			dec.DecomposeAndSplit(lq, lp, alpha, i, gamma, p0, p1Q, p1P)
			for j := 0; j < 16; j++ {
				w := (v + int64(j)) % m
				ok := func(w int64) bool {
					for k := 0; k <= lq; k++ {
						if p1Q.Coeffs[k][j]%q[k] != uint64(((w%int64(q[k]))+int64(q[k])))%q[k] {
							return false
						}
					}
					for k := 0; k <= lp; k++ {
						if p1P.Coeffs[k][j]%p[k] != uint64(((w%int64(p[k]))+int64(p[k])))%p[k] {
							return false
						}
					}
					return true
				}
				if !ok(w) && !ok(w-m) {
					x.Fail("digit %d at levels %d,%d: the value %d modulo %v gives the residues %v and %v", i, lq, lp, w, q[from:to], column(p1Q, j, lq+1), column(p1P, j, lp+1))
				}
			}
		}
		x.Count(int(m))
		x.State(q, p, gamma, lq, lp, i)
	}
}

func c15Grid(tier string) (ls []lab.Lit) {
	maxQ, maxP := 7, 8
	if tier == "thorough" {
		maxQ, maxP = 12, 12
	}
	for nq := 1; nq <= maxQ; nq++ {
		for np := 1; np <= maxP; np++ {
			for gamma := 1; gamma <= np && gamma <= 5; gamma++ {
				for sz := 0; sz < 2; sz++ {
					if nq > 3 && sz == 1 && tier == "quick" {
						continue
					}
					l := lab.Lit{LogN: 4, Gamma: gamma}
					for i := 0; i < nq; i++ {
						l.Q = append(l.Q, [][]float64{{50, 45, 46, 44}, {59.9, 60, 30, 59}}[sz][i%4])
					}
					for i := 0; i < np; i++ {
						l.P = append(l.P, [][]float64{{55, 52}, {60.8, 60.9}}[sz][i%2])
					}
					if (nq+np)%2 == 1 {
						l.Sigma = -1
					}
					l.Name = fmt.Sprintf("g-q%d-p%d-g%d-s%d-%v", nq, np, gamma, sz, l.Sigma < 0)
					ls = append(ls, l)
				}
			}
		}
	}
	ls = append(ls, lab.Lit{Name: "g-n64", LogN: 6, Gamma: 2, Q: []float64{50, 45, 45, 45, 45}, P: []float64{55, 52, 55, 52}},
		lab.Lit{Name: "g-n256", LogN: 8, Gamma: 2, Q: []float64{50, 45, 45}, P: []float64{55, 52, 55, 52}},
		lab.Lit{Name: "g-n1024", LogN: 10, Gamma: 2, Q: []float64{50, 45, 45}, P: []float64{55, 52}},
		lab.Lit{Name: "g-n8192", LogN: 13, Gamma: 2, Q: []float64{50, 45}, P: []float64{55, 52}},
		lab.Lit{Name: "g-20-2", LogN: 4, Gamma: 2, Q: rep(20, 50), P: rep(2, 56)},
		lab.Lit{Name: "g-32-1", LogN: 4, Gamma: 1, Q: rep(32, 52), P: rep(1, 56)},
		lab.Lit{Name: "g-18-9", LogN: 4, Gamma: 3, Q: rep(18, 50), P: rep(9, 56)},
		lab.Lit{Name: "g-17-17", LogN: 4, Gamma: 1, Q: rep(17, 50), P: rep(17, 56)},
		lab.Lit{Name: "g-11-20", LogN: 4, Gamma: 2, Q: rep(11, 50), P: rep(20, 56)},
		lab.Lit{Name: "g-big", LogN: 4, Gamma: 2, Q: rep(12, 54), P: rep(10, 56)})
	return
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func init() {
	mc.Register(&mc.Property{
		ID: "C15",
		Bounds: map[string]string{
			"quick":    "1-7 primes x 1-8 special primes x gamma 1-5 (two families of prime sizes, with and without noise), and 7 sets with up to 32 primes, 20 special primes or degree 1024 or 8192, every level, 9 coefficient patterns in both domains, 6 secrets: digits recomposed exactly in big integers, product, product with precomputed digits (also those of a higher level); every value of every digit of tiny bases; sequences of 4 operations",
			"thorough": "1-12 primes x 1-12 special primes, sequences of 5 operations",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			depth := 4
			if tier == "thorough" {
				depth = 5
			}
			for _, l := range c15Grid(tier) {
				us = append(us, mc.Unit{Name: l.Name, Body: c15Product(l)})
			}
			tiny := [][2][]uint64{
				{{97, 193, 257}, {353, 449}},
				{{97, 193, 257, 353}, {449, 577, 641}},
				{{97, 193, 257, 353, 449}, {577, 641, 673, 769}},
				{{97, 193}, {257}},
			}
			for i, t := range tiny {
				for gamma := 1; gamma <= len(t[1]); gamma++ {
					us = append(us, mc.Unit{Name: fmt.Sprintf("tiny/%d/gamma=%d", i, gamma), Body: c15Tiny(t[0], t[1], gamma)})
				}
			}
			for _, l := range []lab.Lit{
				{Name: "gh1", LogN: 4, Gamma: 2, Q: []float64{50, 45, 45}, P: []float64{55, 52}},
				{Name: "gh2", LogN: 4, Gamma: 2, Q: []float64{50, 45, 45}, P: []float64{55, 52, 55, 52}},
				{Name: "gh3", LogN: 4, Gamma: 1, Q: []float64{50, 45, 45}, P: []float64{55, 52, 55}},
			} {
				for f := range l.Q {
					us = append(us, mc.Unit{Name: fmt.Sprintf("history/%s/first=%d", l.Name, f), Body: c15History(l, depth, f)})
				}
			}
			return us
		},
	})
}
