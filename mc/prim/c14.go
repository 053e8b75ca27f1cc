package prim

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C14: basis extension and exact division in RNS.

var rings = map[string]*ring.Ring{}

func mustRing(n int, q []uint64) *ring.Ring {
	k := fmt.Sprint(n, q)
	if r := rings[k]; r != nil {
		return r
	}
	r, err := ring.NewRing(n, q)
	if err != nil {
		panic(fmt.Sprint(q, ": ", err))
	}
	rings[k] = r
	return r
}

// basis is a pair of RNS bases and the converter between them.
type basis struct {
	x    *mc.X
	n    int
	q, p []uint64
	rq   *ring.Ring
	rp   *ring.Ring
	conv *mkrlwe.FastBasisExtender
}

func newBasis(x *mc.X, n int, q, p []uint64) *basis {
	b := &basis{x: x, n: n, q: q, p: p, rq: mustRing(n, q), rp: mustRing(n, p)}
	b.conv = mkrlwe.NewFastBasisExtender(b.rq, b.rp)
	return b
}

func product(q []uint64) *big.Int {
	r := big.NewInt(1)
	for _, v := range q {
		r.Mul(r, new(big.Int).SetUint64(v))
	}
	return r
}

// slack is how close to a multiple of the modulus (as a fraction of it) a
// value has to be for the floating point correction to be off by one.
func slack(m *big.Int) *big.Int { return new(big.Int).Rsh(m, 40) }

// residues writes v (any integer) modulo each prime into column j; with lazy,
// in [q,2q) where lazy's bit is set.
func residues(p *ring.Poly, j int, v *big.Int, q []uint64, lazy int) {
	t, m := new(big.Int), new(big.Int)
	for i := range q {
		m.SetUint64(q[i])
		p.Coeffs[i][j] = t.Mod(v, m).Uint64()
		if lazy>>uint(i)&1 == 1 {
			p.Coeffs[i][j] += q[i]
		}
	}
}

// extension checks one call that extends values (in [0,M), M the product of
// src) to the primes dst, given the rows of the result.
func (b *basis) extension(what string, vals []*big.Int, src, dst []uint64, out *ring.Poly) {
	M := product(src)
	s := slack(M)
	t, m, d := new(big.Int), new(big.Int), new(big.Int)
	for j, v := range vals {
		match := func(w *big.Int) bool {
			for i := range dst {
				m.SetUint64(dst[i])
				if t.Mod(w, m).Uint64() != out.Coeffs[i][j]%dst[i] {
					return false
				}
			}
			return true
		}
		if match(v) {
			continue
		}
		if d.Add(v, s).Cmp(M) >= 0 && match(d.Sub(v, M)) {
			continue
		}
		if v.Cmp(s) <= 0 && match(d.Add(v, M)) {
			continue
		}
		b.x.Fail("%s: the value %v modulo %v is extended to the residues %v modulo %v", what, v, src, column(out, j, len(dst)), dst)
	}
	b.x.Count(len(vals))
}

func column(p *ring.Poly, j, n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = p.Coeffs[i][j]
	}
	return o
}

// division checks that out represents v/D up to one unit, modulo each prime of dst.
func (b *basis) division(what string, vals []*big.Int, D *big.Int, dst []uint64, out *ring.Poly) {
	s := slack(D)
	t, m, f := new(big.Int), new(big.Int), new(big.Int)
	for j, v := range vals {
		rem := new(big.Int)
		f.DivMod(v, D, rem)
		ok := func(k int64) bool {
			w := new(big.Int).Add(f, big.NewInt(k))
			for i := range dst {
				m.SetUint64(dst[i])
				if t.Mod(w, m).Uint64() != out.Coeffs[i][j]%dst[i] {
					return false
				}
			}
			return true
		}
		if ok(0) || rem.Sign() != 0 && ok(1) { // floor, or rounded
			continue
		}
		if rem.Cmp(s) <= 0 && ok(-1) || new(big.Int).Add(rem, s).Cmp(D) >= 0 && ok(2) {
			continue
		}
		b.x.Fail("%s: %v divided by %v gives the residues %v modulo %v, want %v", what, v, D, column(out, j, len(dst)), dst, f)
	}
	b.x.Count(len(vals))
}

// op runs one operation on n values at the levels and checks it.
// Values are in [0,Q_levelQ) for extensions from Q, etc.
func (b *basis) op(kind string, lq, lp int, vals []*big.Int, lazy int, conv *mkrlwe.FastBasisExtender) {
	q, p := b.q[:lq+1], b.p[:lp+1]
	what := fmt.Sprintf("%s levels %d,%d", kind, lq, lp)
	// receivers keep rows of former uses
	Q, P := lab.UniformPoly(b.rq, len(b.q)-1, 5), lab.UniformPoly(b.rp, len(b.p)-1, 6)
	switch kind {
	case "ModUpQtoP":
		for j, v := range vals {
			residues(Q, j, v, q, lazy)
		}
		in := Q.CopyNew()
		conv.ModUpQtoP(lq, lp, Q, P)
		b.extension(what, vals, q, p, P)
		b.x.Assert(in.Equals(Q), "%s changes its operand", what)
	case "ModUpPtoQ":
		for j, v := range vals {
			residues(P, j, v, p, lazy)
		}
		in := P.CopyNew()
		conv.ModUpPtoQ(lp, lq, P, Q)
		b.extension(what, vals, p, q, Q)
		b.x.Assert(in.Equals(P), "%s changes its operand", what)
	case "ModDownQPtoQ", "ModDownQPtoQ/in place", "ModDownQPtoQNTT", "ModDownQPtoQNTT/in place", "ModDownQPtoP", "ModDownQPtoP/in place":
		for j, v := range vals {
			residues(Q, j, v, q, lazy)
			residues(P, j, v, p, lazy>>uint(len(q)))
		}
		O := lab.UniformPoly(b.rq, len(b.q)-1, 7)
		if kind == "ModDownQPtoP" {
			O = lab.UniformPoly(b.rp, len(b.p)-1, 7)
		}
		D, dst := product(p), q
		switch kind {
		case "ModDownQPtoQ":
			conv.ModDownQPtoQ(lq, lp, Q, P, O)
		case "ModDownQPtoQ/in place":
			conv.ModDownQPtoQ(lq, lp, Q, P, Q)
			O = Q
		case "ModDownQPtoQNTT", "ModDownQPtoQNTT/in place":
			b.rq.NTTLvl(lq, Q, Q)
			b.rp.NTTLvl(lp, P, P)
			if kind == "ModDownQPtoQNTT" {
				conv.ModDownQPtoQNTT(lq, lp, Q, P, O)
			} else {
				conv.ModDownQPtoQNTT(lq, lp, Q, P, Q)
				O = Q
			}
			for i := range q {
				for j := range O.Coeffs[i] {
					O.Coeffs[i][j] %= q[i]
				}
			}
			b.rq.InvNTTLvl(lq, O, O)
		case "ModDownQPtoP":
			D, dst = product(q), p
			conv.ModDownQPtoP(lq, lp, Q, P, O)
		case "ModDownQPtoP/in place":
			D, dst = product(q), p
			conv.ModDownQPtoP(lq, lp, Q, P, P)
			O = P
		}
		b.division(what, vals, D, dst, O)
	}
}

var c14Kinds = []string{"ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoQ/in place", "ModDownQPtoQNTT", "ModDownQPtoQNTT/in place", "ModDownQPtoP", "ModDownQPtoP/in place"}

// domain is the product of the moduli an operation's values range over.
func (b *basis) domain(kind string, lq, lp int) *big.Int {
	switch kind {
	case "ModUpQtoP":
		return product(b.q[:lq+1])
	case "ModUpPtoQ":
		return product(b.p[:lp+1])
	}
	return new(big.Int).Mul(product(b.q[:lq+1]), product(b.p[:lp+1]))
}

// c14Exhaustive runs an operation on every value of its domain, at every pair
// of levels whose domain is at most max, in both representations of residues.
func c14Exhaustive(q, p []uint64, kind string, max int64) func(x *mc.X) {
	return func(x *mc.X) {
		b := newBasis(x, 16, q, p)
		lq, lp := x.Choose("levelQ", len(q)), x.Choose("levelP", len(p))
		M := b.domain(kind, lq, lp)
		if !M.IsInt64() || M.Int64() > max {
			x.Skip()
		}
		lazies := 1
		if kind == "ModUpQtoP" || kind == "ModUpPtoQ" || M.Int64() < 1<<16 {
			lazies = 3
		}
		lazy := []int{0, -1, 0x55}[x.Choose("representation", lazies)]
		if lazy != 0 && len(kind) > 14 && kind[:15] == "ModDownQPtoQNTT" {
			x.Skip() // the transform reduces them
		}
		x.Step("%s %v %v levels %d,%d, every value below %v", kind, q, p, lq, lp, M)
		m := M.Int64()
		blocks := int64(x.Choose("block", 8))
		vals := make([]*big.Int, b.n)
		for v := blocks * m / 8; v < (blocks+1)*m/8; v += int64(b.n) {
			for j := range vals {
				w := v + int64(j)
				if w >= m {
					w = m - 1
				}
				vals[j] = big.NewInt(w)
			}
			b.op(kind, lq, lp, vals, lazy, b.conv)
		}
		x.State(kind, q, p, lq, lp, lazy, blocks)
	}
}

// boundary lists values of [0,M) where carries and roundings change: around
// the multiples of M/d for the primes d and small fractions, and all the
// combinations of extreme residues.
func boundary(M *big.Int, primes []uint64) (vals []*big.Int) {
	seen := map[string]bool{}
	add := func(v *big.Int) {
		w := new(big.Int).Mod(v, M)
		if !seen[w.String()] {
			seen[w.String()] = true
			vals = append(vals, w)
		}
	}
	around := func(v *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			add(new(big.Int).Add(v, big.NewInt(d)))
		}
	}
	around(big.NewInt(0))
	for _, d := range []int64{2, 3, 4, 7, 16} {
		for k := int64(1); k < d; k++ {
			around(new(big.Int).Div(new(big.Int).Mul(M, big.NewInt(k)), big.NewInt(d)))
		}
	}
	for s := uint(1); s < 64; s += 3 {
		v := new(big.Int).Rsh(M, s)
		around(v)
		around(new(big.Int).Sub(M, v))
	}
	// combinations of residues
	n := len(primes)
	if n > 8 {
		n = 3
	} else if n > 6 {
		n = 6
	}
	bases := make([]*big.Int, len(primes))
	for i, qi := range primes {
		b := new(big.Int).Div(M, new(big.Int).SetUint64(qi))
		inv := new(big.Int).ModInverse(b, new(big.Int).SetUint64(qi))
		bases[i] = new(big.Int).Mul(b, inv)
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= 4
	}
	for c := 0; c < total; c++ {
		v := new(big.Int)
		for i, k := 0, c; i < len(primes); i++ {
			q := primes[i]
			r := []uint64{0, 1, q / 2, q - 1}[k%4]
			if k /= 4; i == n-1 {
				k = c // the remaining primes repeat the pattern
			}
			v.Add(v, new(big.Int).Mul(bases[i], new(big.Int).SetUint64(r)))
		}
		add(v)
	}
	// combinations of quotients: y_i = v*(M/q_i)^-1 mod q_i extreme, so that the sum of the fractions is extreme
	for c := 0; c < total; c++ {
		v := new(big.Int)
		for i, k := 0, c; i < len(primes); i++ {
			q := primes[i]
			r := []uint64{0, 1, q / 2, q - 1}[k%4]
			if k /= 4; i == n-1 {
				k = c
			}
			v.Add(v, new(big.Int).Mul(new(big.Int).Div(M, new(big.Int).SetUint64(q)), new(big.Int).SetUint64(r)))
		}
		add(v)
	}
	return
}

// c14Boundary runs an operation on the boundary values of real-sized bases.
func c14Boundary(n int, q, p []uint64, kind string) func(x *mc.X) {
	return func(x *mc.X) {
		b := newBasis(x, n, q, p)
		lq, lp := x.Choose("levelQ", len(q)), x.Choose("levelP", len(p))
		var primes []uint64
		switch kind {
		case "ModUpQtoP":
			primes = q[:lq+1]
		case "ModUpPtoQ":
			primes = p[:lp+1]
		default:
			primes = append(append(primes, q[:lq+1]...), p[:lp+1]...)
		}
		vals := boundary(b.domain(kind, lq, lp), primes)
		for _, lazy := range []int{0, -1} {
			if lazy != 0 && len(kind) > 14 && kind[:15] == "ModDownQPtoQNTT" {
				continue
			}
			x.Step("%s levels %d,%d", kind, lq, lp)
			for i := 0; i < len(vals); i += n {
				batch := make([]*big.Int, n)
				for j := range batch {
					batch[j] = vals[(i+j)%len(vals)]
				}
				b.op(kind, lq, lp, batch, lazy, b.conv)
			}
		}
		x.State(kind, q, p, lq, lp)
	}
}

// c14History: sequences of operations at changing levels on one converter and
// its shallow copies.
func c14History(q, p []uint64, first, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		b := newBasis(x, 16, q, p)
		convs := []*mkrlwe.FastBasisExtender{b.conv, b.conv.ShallowCopy()}
		for i := 0; i < depth; i++ {
			k := first
			if i > 0 {
				k = x.Choose("operation", len(c14Kinds))
			}
			kind := c14Kinds[k]
			lq, lp := 0, 0
			if x.Bool("top level of Q") {
				lq = len(q) - 1
			}
			if x.Bool("top level of P") {
				lp = len(p) - 1
			}
			c := x.Choose("converter", 2)
			x.Step("%s levels %d,%d converter %d", kind, lq, lp, c)
			M := b.domain(kind, lq, lp)
			vals := make([]*big.Int, 16)
			for j := range vals {
				v := new(big.Int).Mul(M, big.NewInt(int64(2*j+1+i)))
				vals[j] = v.Mod(v.Rsh(v, 5), M)
			}
			b.op(kind, lq, lp, vals, 0, convs[c])
			x.State(kind, lq, lp, c, i)
		}
	}
}

func primes(logN int, sizes ...float64) []uint64 {
	return lab.Primes(logN, map[uint64]bool{}, sizes)
}

func splitAt(q []uint64, k int) ([]uint64, []uint64) { return q[:k], q[k:] }

func rep(n int, v float64) (o []float64) {
	for i := 0; i < n; i++ {
		o = append(o, v)
	}
	return
}

func init() {
	mc.Register(&mc.Property{
		ID: "C14",
		Bounds: map[string]string{
			"quick":    "every value of every pair of levels of the bases {97,193,257}x{353,449}, {97}x{193,257,353} and others whose domain has at most 5 million elements, in reduced and lazily reduced form; boundary values (extreme residues and extreme digit combinations, multiples of fractions of the modulus +-2) of real bases with 1-8 primes of 20-60 bits, and with up to 32 primes in Q or P, at all level pairs, ring degrees 16, 256, 1024 and 8192; operation sequences of length 3 on a converter and its copy",
			"thorough": "as quick with domains up to 100 million elements, and the boundary values at ring degree 64",
		},
		Assumptions: []string{"an extension may be off by the source modulus, and a division by one, for values within 2^-40 of a multiple of the modulus (floating point correction term)"},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			max := int64(5e6)
			if tier == "thorough" {
				max = 1e8
			}
			tiny := [][2][]uint64{
				{{97, 193, 257}, {353, 449}},
				{{97}, {193, 257, 353}},
				{{353, 97}, {193}},
				{{12289, 97}, {257, 193}},
			}
			for i, t := range tiny {
				for _, k := range c14Kinds {
					us = append(us, mc.Unit{Name: fmt.Sprintf("all/%d/%s", i, k), Body: c14Exhaustive(t[0], t[1], k, max)})
				}
			}
			real := [][]float64{
				{45, 55}, {60, 60.5}, {30, 31, 60},
				append(rep(3, 45), rep(2, 55)...),
				append(rep(4, 54), rep(2, 60)...),
				append(rep(2, 60), rep(4, 60)...),
				{55, 20, 25, 30, 60, 40, 22},
				append(rep(6, 50), rep(6, 50)...),
				append(rep(8, 59), rep(8, 60.9)...),
			}
			at := []int{1, 1, 1, 3, 4, 2, 4, 6, 8}
			for i, r := range real {
				q, p := splitAt(primes(4, r...), at[i])
				for _, k := range c14Kinds {
					us = append(us, mc.Unit{Name: fmt.Sprintf("real/%d/%s", i, k), Body: c14Boundary(16, q, p, k)})
					if tier == "thorough" {
						q, p := splitAt(primes(6, r...), at[i])
						us = append(us, mc.Unit{Name: fmt.Sprintf("real64/%d/%s", i, k), Body: c14Boundary(64, q, p, k)})
					}
				}
			}
			// many primes
			for _, c := range []struct {
				at int
				r  []float64
			}{
				{20, append(rep(20, 50), rep(3, 55)...)}, {3, append(rep(3, 50), rep(20, 55)...)},
				{11, append(rep(11, 59), rep(10, 60.9)...)}, {32, append(rep(32, 59.5), 60.5)}, {1, append(rep(1, 59.5), rep(32, 60.7)...)},
			} {
				q, p := splitAt(primes(4, c.r...), c.at)
				for _, k := range c14Kinds {
					us = append(us, mc.Unit{Name: fmt.Sprintf("wide/%d-%d/%s", len(q), len(p), k), Body: c14Boundary(16, q, p, k)})
				}
			}
			// a larger ring
			for _, n := range []int{8, 10, 13} {
				q, p := splitAt(primes(n, 50, 45, 45, 55, 54), 3)
				for _, k := range c14Kinds {
					us = append(us, mc.Unit{Name: fmt.Sprintf("ring/%d/%s", 1<<n, k), Body: c14Boundary(1<<n, q, p, k)})
				}
			}
			hq, hp := splitAt(primes(4, 45, 50, 55, 60, 60.5), 3)
			for i, k := range c14Kinds {
				us = append(us, mc.Unit{Name: "history/" + k, Body: c14History(hq, hp, i, 3)})
			}
			return us
		},
	})
}
