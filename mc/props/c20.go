package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"verifmc/lab"
	"verifmc/mc"
)

// C20: every supported parameter set supports every operation. One execution
// is one parameter set and one level; it applies a covering trace: every
// operation at this level, with operands of all parties and of other levels.

// rotsFor lists the rotation indices a trace uses.
func rotsFor(l lab.Lit) []int {
	if l.OnlyRots != nil {
		return l.OnlyRots
	}
	h := 1 << uint(l.LogN-1)
	return []int{1, -1, h / 2, h - 3}
}

// ckTrace applies every CKKS operation at a level.
func ckTrace(w *lab.World, level int, light bool) {
	x := w.X
	c := w.C
	p := c.Params
	max := p.MaxLevel()
	n := w.Slots()
	done := 0
	check := func(o *lab.CV, what string) {
		w.Check(o, fmt.Sprintf("%s at level %d", what, level))
		done++
	}
	fits := func(o *lab.CV) bool { return w.Fits(o.Mag, o.Err, o.Scale, o.Level) }
	all := c.IDs
	a := ckSum(w, all, level, 1)
	b := w.Encrypt(lab.Vec(n, 7), all[len(all)-1], level)
	top := w.Encrypt(lab.Vec(n, 8), all[0], max)
	if !fits(a) || !fits(b) {
		x.Skip()
	}
	check(a, "sum of encryptions")
	check(top, "encryption")
	check(w.Add(a, top), "addition")
	check(w.Sub(top, a), "subtraction")
	for i, pair := range [][2]*lab.CV{{a, b}, {top, a}, {a, a}} {
		if light && i > 0 {
			break
		}
		if !w.CanMul(pair[0], pair[1]) {
			continue
		}
		check(w.Mul(pair[0], pair[1]), "product")
		check(w.MulHoisted(pair[0], pair[1]), "hoisted product")
	}
	for i, k := range rotsFor(c.Lit) {
		check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
		if i == 0 {
			check(w.RotHoisted(a, k), fmt.Sprintf("hoisted rotation by %d", k))
		}
	}
	check(w.Conj(a), "conjugation")
	for _, k := range []interface{}{-3, 0.37, complex(0.5, -1.25)} {
		o := w.MulConstModel(a, k, level, nil)
		if !fits(o) {
			continue
		}
		o = w.MulConst(a, k)
		check(o, fmt.Sprintf("product by %v", k))
		r := w.RescaleModel(o, p.Scale(), nil)
		if level > 0 && fits(r) {
			check(w.Rescale(o, p.Scale()), "rescaling")
		}
	}
	if v := lab.Vec(n, 9); w.CanMulPtxt(a, v) {
		check(w.MulPtxt(a, v), "product by a plaintext")
		pt := ckks.NewPlaintext(c.Ckks, max, p.Scale())
		ckks.NewEncoder(c.Ckks).EncodeNTT(pt, v, p.LogSlots())
		check(w.MulPtxtModel(a, v, pt.Level(), pt.Scale, w.Ev.MulPtxtNew(a.CT, pt)), "product by an NTT plaintext")
	}
	if level > 0 {
		d := w.Drop(a, 1)
		if fits(d) {
			check(d, "level drop")
		}
	}
	// partial decryptions
	ct := a.CT.CopyNew()
	for _, id := range all {
		w.Dec.PartialDecrypt(ct, c.SK[id])
	}
	check(&lab.CV{CT: ct, V: a.V, Mag: a.Mag, Err: a.Err, Level: a.Level, Scale: a.Scale}, "partial decryption")
	check(a, "operand afterwards")
	x.Count(done)
}

func bfTrace(w *lab.BWorld, light bool) {
	x := w.X
	c := w.C
	all := c.IDs
	a := bfSum(w, all, 1)
	b := w.Encrypt(w.BVec(7), all[len(all)-1])
	if !w.Fits(a) {
		x.Skip()
	}
	done := 0
	check := func(o *lab.BV, what string) {
		if w.Fits(o) {
			w.Check(o, what)
			done++
		}
	}
	check(a, "sum of encryptions")
	check(w.Add(a, b), "addition")
	check(w.Sub(b, a), "subtraction")
	for i, pair := range [][2]*lab.BV{{a, b}, {b, a}, {a, a}, {b, b}} {
		if light && i > 1 {
			break
		}
		check(w.Mul(pair[0], pair[1]), "product")
	}
	// the depth the modulus permits
	m := a
	for i := 0; i < 6; i++ {
		o := w.MulModel(m, b, nil)
		if !w.Fits(o) {
			break
		}
		m = w.Mul(m, b)
		check(m, fmt.Sprintf("product of depth %d", i+1))
		if light {
			break
		}
	}
	for _, k := range rotsFor(c.Lit) {
		check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
	}
	check(w.Conj(a), "row swap")
	n := mkbfv.NewCiphertextNTT(c.Params, lab.Set(all[0]))
	msg := mkbfv.NewMessage(c.Params)
	copy(msg.Value, w.BVec(11))
	w.Enc.EncryptMsg(msg, c.PK[all[0]], n)
	check(w.Fresh(w.BVec(11), all[0], n), "encryption in the NTT domain")
	check(a, "operand afterwards")
	x.Count(done)
}

// c20Ckks: the context is built inside the execution (key generation belongs
// to the property) unless it is shared by the levels of a small set.
func c20Ckks(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.NewCK(l)
		x.Step("key generation for %s", l.Name)
		k := lab.NewKeyLab(c.Params.Parameters)
		for _, id := range c.IDs {
			s := lab.Secret(c.Params.Parameters, c.SK[id])
			r := lab.Secret(c.Params.Parameters, c.R[id])
			if _, err := k.PK(c.PK[id], s); err != nil {
				x.Fail("%v", err)
			}
			if _, err := k.Rlk(c.Rlk[id], s, r); err != nil {
				x.Fail("%v", err)
			}
			if _, err := k.Cjk(c.Cjk[id], s); err != nil {
				x.Fail("%v", err)
			}
		}
		w := lab.NewWorld(x, c)
		level := x.Choose("level", c.Params.MaxLevel()+1)
		ckTrace(w, level, false)
	}
}

// c20Large is a large parameter set: the levels listed only, in one execution.
func c20Large(l lab.Lit, levels ...int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.NewCK(l)
		w := lab.NewWorld(x, c)
		for _, lv := range levels {
			ckTrace(w, lv, true)
		}
	}
}

func c20Bfv(l lab.Lit, light bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.NewBF(l)
		x.Step("key generation for %s", l.Name)
		if !light {
			k := lab.NewKeyLab(c.Params.Parameters)
			for _, id := range c.IDs {
				s := lab.Secret(c.Params.Parameters, c.SK[id])
				r := lab.Secret(c.Params.Parameters, c.R[id])
				if _, err := k.BfvRlk(c.Params, c.Rlk[id], s, r); err != nil {
					x.Fail("%v", err)
				}
			}
		}
		bfTrace(lab.NewBWorld(x, c), light)
	}
}

func rep(n int, v float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = v
	}
	return out
}

var manyParties = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 33}

// ckGrid is the CKKS parameter grid.
func ckGrid(tier string) (ls []lab.Lit) {
	th := tier == "thorough"
	sizes := []struct {
		name            string
		q0, q, p, scale float64
	}{{"30", 40, 30, 41, 30}, {"45", 55, 45, 55, 45}, {"54", 60, 54, 60.5, 54}, {"60", 60.4, 60, 60.8, 58}, {"mid", 50, 36, 38, 36}}
	maxQ, maxP := 10, 11
	if th {
		maxQ, maxP = 16, 16
	}
	for i, s := range sizes {
		for q := 1; q <= maxQ; q++ {
			for p := 2; p <= maxP; p++ {
				l := lab.Lit{Name: fmt.Sprintf("grid-%s-q%d-p%d", s.name, q, p), LogN: 4, Q: append([]float64{s.q0}, rep(q-1, s.q)...), P: rep(p, s.p), LogSlots: 3, LogScale: s.scale, Parties: 1 + (q+p+i)%3}
				if q == 1 {
					l.LogScale = math.Min(s.scale, s.q0-16)
				}
				ls = append(ls, l)
			}
		}
	}
	// slots and degrees
	maxN := 8
	if th {
		maxN = 10
	}
	for n := 4; n <= maxN; n++ {
		for sl := 0; sl < n; sl++ {
			for _, p := range []int{2, 4} {
				ls = append(ls, lab.Lit{Name: fmt.Sprintf("slots-n%d-s%d-p%d", n, sl, p), LogN: n, Q: []float64{55, 45, 45}, P: rep(p, 55), LogSlots: sl, LogScale: 45, Parties: 2})
			}
		}
	}
	// parties
	for _, k := range manyParties {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("parties-%d", k), LogN: 4, Q: []float64{55, 45, 45}, P: rep(4, 55), LogSlots: 3, LogScale: 45, Parties: k})
	}
	for _, k := range []int{5, 9, 17, 33, 66} {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("wide-parties-%d", k), LogN: 4, Q: []float64{60.9, 60.8}, P: []float64{60.98, 60.97}, LogSlots: 3, LogScale: 42, Parties: k})
	}
	// many primes
	for _, k := range []int{17, 25, 32} {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("many-q%d-p2", k), LogN: 4, Q: append([]float64{55}, rep(k-1, 45)...), P: rep(2, 55), LogSlots: 3, LogScale: 45, Parties: 2},
			lab.Lit{Name: fmt.Sprintf("many-q%d-p8", k), LogN: 4, Q: append([]float64{55}, rep(k-1, 45)...), P: rep(8, 55), LogSlots: 3, LogScale: 45, Parties: 2},
			lab.Lit{Name: fmt.Sprintf("many-q%d-p32", k), LogN: 4, Q: append([]float64{55}, rep(k-1, 45)...), P: rep(32, 55), LogSlots: 3, LogScale: 45, Parties: 2},
			lab.Lit{Name: fmt.Sprintf("many-q3-p%d", k), LogN: 4, Q: append([]float64{55}, rep(2, 45)...), P: rep(k, 55), LogSlots: 3, LogScale: 45, Parties: 2})
	}
	// many primes of the largest sizes lattigo takes
	for _, k := range []int{8, 9, 12, 16, 17, 24, 32} {
		for _, p := range []int{2, 3, 4} {
			ls = append(ls, lab.Lit{Name: fmt.Sprintf("wide-q%d-p%d", k, p), LogN: 4, Q: rep(k, 60.95), P: rep(p, 60.98), LogSlots: 3, LogScale: 50, Parties: 2},
				lab.Lit{Name: fmt.Sprintf("widep-q%d-p%d", k, p), LogN: 4, Q: append([]float64{55}, rep(k-1, 40)...), P: rep(p, 60.98), LogSlots: 3, LogScale: 40, Parties: 2})
		}
	}
	// mixed sizes and scales that need several primes or none
	ls = append(ls,
		lab.Lit{Name: "mixed-1", LogN: 4, Q: []float64{59, 41, 47, 39, 51, 45}, P: []float64{60, 57, 58}, LogSlots: 3, LogScale: 42, Parties: 2},
		lab.Lit{Name: "mixed-2", LogN: 4, Q: []float64{48, 50, 42, 55, 44}, P: []float64{56, 57, 55, 58}, LogSlots: 2, LogScale: 44, Parties: 2},
		lab.Lit{Name: "mixed-3", LogN: 5, Q: []float64{60, 30, 30, 30, 30, 30, 30}, P: []float64{60, 59, 58, 57, 56, 55}, LogSlots: 4, LogScale: 55, Parties: 2},
		lab.Lit{Name: "mixed-4", LogN: 4, Q: []float64{58, 50, 50, 50}, P: rep(2, 58), LogSlots: 3, LogScale: 30, Parties: 2},
		kA1, kA2, kA2o, kA3, kA4, kSkew, kSkew2, kSmall, kBig, kOne, kDouble)
	return
}

func bfGrid(tier string) (ls []lab.Lit) {
	th := tier == "thorough"
	maxQ, maxA := 8, 4
	if th {
		maxQ, maxA = 12, 6
	}
	for _, s := range []struct {
		name     string
		q, qm, p float64
	}{{"45", 45, 46, 50}, {"54", 54, 54.5, 60.3}, {"60", 60, 60.4, 60.8}, {"35", 35, 36, 41}} {
		for q := 1; q <= maxQ; q++ {
			for p := 2; p <= 2*maxA+1; p++ {
				if q%(p/2) != 0 {
					continue // the digits of Q and QMul must not overlap: unsupported
				}
				for _, t := range []struct {
					t uint64
					n int
				}{{97, 4}, {65537, 4}, {257, 5}, {12289, 4}, {786433, 4}} {
					if (t.t == 257 || t.t == 12289) && q > 3 {
						continue
					}
					ls = append(ls, lab.Lit{Name: fmt.Sprintf("grid-%s-q%d-p%d-t%d", s.name, q, p, t.t), LogN: t.n, T: t.t, Q: rep(q, s.q), QMul: rep(q, s.qm), P: rep(p, s.p), Parties: 1 + (q+p)%3})
				}
			}
		}
	}
	maxN := 8
	if th {
		maxN = 11
	}
	for n := 4; n <= maxN; n++ {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("degree-%d", n), LogN: n, T: 65537, Q: rep(2, 55), QMul: rep(2, 55.5), P: rep(2, 58), Parties: 2})
	}
	for _, k := range manyParties {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("parties-%d", k), LogN: 4, T: 97, Q: rep(2, 50), QMul: rep(2, 51), P: rep(4, 55), Parties: k})
	}
	for _, k := range []int{5, 9, 17, 33, 66} {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("wide-parties-%d", k), LogN: 4, T: 97, Q: rep(2, 60.9), QMul: rep(2, 60.95), P: rep(2, 60.98), Parties: k})
	}
	for _, g := range [][2]int{{17, 2}, {17, 3}, {16, 4}, {16, 8}, {16, 16}, {16, 32}, {12, 24}} {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("many-q%d-p%d", g[0], g[1]), LogN: 4, T: 65537, Q: rep(g[0], 50), QMul: rep(g[0], 51), P: rep(g[1], 55), Parties: 2})
	}
	for _, g := range [][2]int{{8, 2}, {12, 3}, {16, 2}, {17, 2}, {16, 4}} {
		ls = append(ls, lab.Lit{Name: fmt.Sprintf("wide-q%d-p%d", g[0], g[1]), LogN: 4, T: 65537, Q: rep(g[0], 60.9), QMul: rep(g[0], 60.95), P: rep(g[1], 60.98), Parties: 2})
	}
	return append(ls, bA1, bA2, bSkew, bA3, bOdd, bT, bBig, bOne)
}

// the parameter sets of the repository's tests and benchmarks
var (
	shipCk14 = lab.Lit{Name: "PN14QP439", LogN: 14, LogSlots: 13, LogScale: 52, Parties: 2, OnlyRots: []int{1, 4096},
		Qx: []uint64{0x7ffffffffe70001, 0xffffffff00001, 0xfffffffe40001, 0xfffffffe20001, 0xfffffffbe0001, 0xfffffffa60001},
		Px: []uint64{0xffffffffffc0001, 0xfffffffff840001}}
	shipCk15 = lab.Lit{Name: "PN15QP880", LogN: 15, LogSlots: 14, LogScale: 54, Parties: 2, OnlyRots: []int{8192},
		Qx: []uint64{0xfffffffff6a0001, 0x3fffffffd60001, 0x3fffffffca0001, 0x3fffffff6d0001, 0x3fffffff5d0001, 0x3fffffff550001, 0x3fffffff390001, 0x3fffffff360001, 0x3fffffff2a0001, 0x3fffffff000001, 0x3ffffffefa0001, 0x3ffffffef40001, 0x3ffffffed70001, 0x3ffffffed30001},
		Px: []uint64{0x7ffffffffe70001, 0x7ffffffffe10001}}
	shipBf14 = lab.Lit{Name: "PN14QP439", LogN: 14, T: 65537, Parties: 2, OnlyRots: []int{1, 4096},
		Qx:    []uint64{0x1fffffffe30001, 0x1fffffffd10001, 0x1fffffffbf0001, 0x1fffffffb60001, 0x1fffffff920001, 0x3fffffffd60001},
		QMulx: []uint64{0x1fffffffd80001, 0x1fffffffc50001, 0x1fffffffb90001, 0x1fffffffa50001, 0x1fffffff900001, 0x3fffffffca0001},
		Px:    []uint64{0xffffffffffc0001, 0xfffffffff840001}}
	shipBf15 = lab.Lit{Name: "PN15QP880", LogN: 15, T: 65537, Parties: 2, OnlyRots: []int{8192},
		Qx: []uint64{0x3fffffffd60001, 0x3fffffff6d0001, 0x3fffffff550001, 0x3fffffff360001, 0x3fffffff000001, 0x3ffffffef40001, 0x3ffffffed30001, 0x3ffffffe970001, 0x3ffffffe800001, 0x3ffffffe410001,
			0x7fffffffe90001, 0x7fffffffbd0001, 0x7fffffffaa0001, 0x7fffffff9f0001},
		QMulx: []uint64{0x3fffffffca0001, 0x3fffffff5d0001, 0x3fffffff390001, 0x3fffffff2a0001, 0x3ffffffefa0001, 0x3ffffffed70001, 0x3ffffffeaa0001, 0x3ffffffe920001, 0x3ffffffe790001, 0x3ffffffe320001,
			0x7fffffffbf0001, 0x7fffffffba0001, 0x7fffffffa50001, 0x7fffffff7e0001},
		Px: []uint64{0xffffffffffc0001, 0xfffffffff840001}}
)

func init() {
	mc.Register(&mc.Property{
		ID:      "C20",
		MaxExec: 400,
		Bounds: map[string]string{
			"quick":    "CKKS: 1..10 primes x 2..11 special primes x 5 prime size classes, every number of slots for degrees 2^4..2^8, 1..9, 17 and 33 parties (5..66 with primes of 61 bits), every level; BFV: 1..8 primes x 2..9 special primes (digit size dividing the number of primes) x 4 size classes x plaintext moduli 97..786433, degrees 2^4..2^8, 1..9, 17 and 33 parties (5..66 with primes of 61 bits); 17, 25 and 32 primes or special primes, 8..32 primes with digits of the largest sizes lattigo takes (BFV: 17 primes, the most lattigo allows, and up to 32 special primes); the shipped sets of degree 2^14",
			"thorough": "as quick with 1..16 primes x 2..16 special primes (BFV 1..12 x 2..13), degrees up to 2^13, and the shipped sets of degree 2^15",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			if tier == "thorough" {
				add("ckks/PN15QP880", c20Large(shipCk15, 13, 10, 4, 1))
				add("bfv/PN15QP880", c20Bfv(shipBf15, true))
			}
			add("ckks/PN14QP439", c20Large(shipCk14, 5, 3, 1))
			add("bfv/PN14QP439", c20Bfv(shipBf14, true))
			for _, n := range []int{11, 12, 13} {
				if n > 11 && tier != "thorough" {
					break
				}
				add(fmt.Sprintf("ckks/large-%d", n), c20Large(lab.Lit{Name: fmt.Sprint("large-", n), LogN: n, Q: []float64{58, 45, 45, 45}, P: rep(4, 58), LogSlots: n - 1, LogScale: 45, Parties: 2, OnlyRots: []int{1, 64}}, 3, 2))
				add(fmt.Sprintf("bfv/large-%d", n), c20Bfv(lab.Lit{Name: fmt.Sprint("large-", n), LogN: n, T: 65537, Q: rep(4, 55), QMul: rep(4, 55.5), P: rep(4, 58), Parties: 2, OnlyRots: []int{1, 64}}, true))
			}
			for _, l := range ckGrid(tier) {
				add("ckks/"+l.Name, c20Ckks(l))
			}
			for _, l := range bfGrid(tier) {
				add("bfv/"+l.Name, c20Bfv(l, false))
			}
			return us
		},
	})
}
