package props

import (
	"fmt"

	"verifmc/lab"
	"verifmc/mc"
)

// C03: every history of CKKS operations decrypts to the same history on complex vectors.

type ckOp struct {
	name  string
	unary bool
	ok    func(w *lab.World, a, b *lab.CV) bool
	do    func(w *lab.World, a, b *lab.CV) *lab.CV
}

func yes(*lab.World, *lab.CV, *lab.CV) bool { return true }
func canAdd(w *lab.World, a, b *lab.CV) bool {
	m, e := a.Mag+b.Mag, a.Err+b.Err
	s := a.Scale
	if b.Scale > s {
		s = b.Scale
	}
	l := a.Level
	if b.Level < l {
		l = b.Level
	}
	return w.CanAdd(a, b) && w.Fits(m, e, s, l)
}
func canMul(w *lab.World, a, b *lab.CV) bool { return w.CanMul(a, b) }

func constOp(c interface{}) ckOp {
	return ckOp{fmt.Sprintf("mulconst(%T %v)", c, c), true,
		func(w *lab.World, a, _ *lab.CV) bool {
			o := w.MulConstModel(a, c, a.Level, nil)
			return w.Fits(o.Mag, o.Err, o.Scale, o.Level)
		},
		func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.MulConst(a, c) }}
}

func rotOp(k int) ckOp {
	return ckOp{fmt.Sprintf("rot(%d)", k), true, yes, func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Rot(a, k) }}
}

func ckOps() []ckOp {
	ops := []ckOp{
		{"add", false, canAdd, func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Add(a, b) }},
		{"sub", false, canAdd, func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Sub(a, b) }},
		{"mul", false, canMul, func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Mul(a, b) }},
		{"mulhoisted", false, canMul, func(w *lab.World, a, b *lab.CV) *lab.CV { return w.MulHoisted(a, b) }},
		rotOp(1), rotOp(-3),
		{"rothoisted(2)", true, yes, func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.RotHoisted(a, 2) }},
		{"conj", true, yes, func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Conj(a) }},
		constOp(-3), constOp(complex(0.5, -1.25)),
		{"mulptxt", true, func(w *lab.World, a, _ *lab.CV) bool { return w.CanMulPtxt(a, lab.Vec(w.Slots(), 9)) },
			func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.MulPtxt(a, lab.Vec(w.Slots(), 9)) }},
		{"rescale", true, func(w *lab.World, a, _ *lab.CV) bool {
			o := w.RescaleModel(a, w.C.Params.Scale(), nil)
			return a.Level > 0 && o.Level < a.Level && w.Fits(o.Mag, o.Err, o.Scale, o.Level)
		},
			func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Rescale(a, w.C.Params.Scale()) }},
		{"drop", true, func(w *lab.World, a, _ *lab.CV) bool {
			return a.Level > 0 && w.Fits(a.Mag, a.Err, a.Scale, a.Level-1)
		},
			func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Drop(a, 1) }},
	}
	return ops
}

// ckHistory explores all histories of the given depth that start from a pool
// of fresh ciphertexts: every step applies one operation to the last result
// (or, first, to a pool element) and, for binary operations, a pool element or
// the last result itself, on either side.
func ckHistory(l lab.Lit, pool [][2]int, first int, depth int) func(x *mc.X) {
	ops := ckOps()
	return func(x *mc.X) {
		w := lab.NewWorld(x, lab.GetCK(l))
		max := w.C.Params.MaxLevel()
		var cts []*lab.CV
		for i, p := range pool {
			cts = append(cts, w.Encrypt(lab.Vec(w.Slots(), i+1), w.C.IDs[p[0]], max-p[1]))
		}
		acc := cts[0]
		for d := 0; d < depth; d++ {
			var op ckOp
			if d == 0 && first >= 0 {
				op = ops[first]
			} else {
				op = ops[x.Choose("op", len(ops))]
			}
			a, b := acc, acc
			if !op.unary {
				// operand arrangement: (acc,acc), (acc,pool i), (pool i,acc)
				k := x.Choose("operands", 1+2*(len(cts)-1))
				if k > 0 {
					o := cts[1+(k-1)/2]
					if k%2 == 1 {
						b = o
					} else {
						a = o
					}
				}
			}
			if !op.ok(w, a, b) {
				x.Skip()
			}
			r := op.do(w, a, b)
			w.Check(r, op.name)
			acc = r
		}
		for i, c := range cts {
			w.Check(c, fmt.Sprintf("input %d after the history", i))
		}
		x.Assert(w.C.Intact(), "the history changed the keys or the parameters")
	}
}

// ckJoin explores the histories in which two independent results are combined
// (and, beyond depth 3, processed further together with the first of them).
func ckJoin(l lab.Lit, pool [][2]int, first int, depth int) func(x *mc.X) {
	ops := ckOps()
	return func(x *mc.X) {
		w := lab.NewWorld(x, lab.GetCK(l))
		max := w.C.Params.MaxLevel()
		var cts []*lab.CV
		for i, p := range pool {
			cts = append(cts, w.Encrypt(lab.Vec(w.Slots(), i+1), w.C.IDs[p[0]], max-p[1]))
		}
		apply := func(op ckOp, a, b *lab.CV) *lab.CV {
			if !op.ok(w, a, b) {
				x.Skip()
			}
			r := op.do(w, a, b)
			w.Check(r, op.name)
			return r
		}
		other := func(op ckOp) *lab.CV {
			if op.unary {
				return nil
			}
			return cts[x.Choose("other operand", len(cts))]
		}
		op1, op2 := ops[first], ops[x.Choose("second operation", len(ops))]
		r1 := apply(op1, cts[0], other(op1))
		r2 := apply(op2, cts[x.Choose("operand", len(cts))], other(op2))
		acc := r2
		for d := 2; d < depth; d++ {
			k := 4
			if d > 2 {
				k = len(ops)
			}
			op := ops[x.Choose("combination", k)]
			a, b := r1, acc
			if op.unary {
				a, b = acc, nil
			} else if x.Bool("swapped") {
				a, b = b, a
			}
			acc = apply(op, a, b)
		}
		for i, c := range cts {
			w.Check(c, fmt.Sprintf("input %d after the history", i))
		}
		w.Check(r1, "first result after the history")
		w.Check(r2, "second result after the history")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C03",
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			e := 0
			if tier == "thorough" {
				e = 1
			}
			add := func(l lab.Lit, pool [][2]int, d int) {
				for f, op := range ckOps() {
					us = append(us, mc.Unit{Name: fmt.Sprintf("%s/pool%v/d%d/%s", l.Name, pool, d, op.name), Body: ckHistory(l, pool, f, d)})
				}
			}
			add(kA1, [][2]int{{0, 0}, {1, 0}, {2, 1}}, 3+e)
			add(kA2, [][2]int{{0, 0}, {1, 1}}, 3+e)
			add(kSkew, [][2]int{{1, 0}, {0, 0}}, 3+e)
			add(kA3, [][2]int{{0, 1}, {1, 0}}, 2+e)
			add(kA2o, [][2]int{{0, 0}, {1, 0}}, 2+e)
			add(kA4, [][2]int{{0, 0}, {1, 2}}, 2+e)
			add(kSkew2, [][2]int{{0, 1}, {1, 0}}, 2+e)
			add(kSparse2, [][2]int{{0, 0}, {1, 0}}, 2+e)
			add(kSparse1, [][2]int{{0, 0}, {1, 1}}, 2+e)
			add(kSparse0, [][2]int{{0, 0}, {1, 0}}, 2+e)
			add(kN32, [][2]int{{0, 0}, {1, 0}}, 2+e)
			add(kBig, [][2]int{{0, 0}, {1, 1}}, 2+e)
			add(kSmall, [][2]int{{0, 0}, {1, 0}}, 2+e)
			add(kDouble, [][2]int{{0, 0}, {1, 1}}, 2+e)
			add(kFive, [][2]int{{0, 0}, {1, 0}, {2, 1}, {3, 0}, {4, 2}}, 2+e)
			add(kWide, [][2]int{{0, 0}, {1, 1}}, 2)
			add(kWide3, [][2]int{{0, 0}, {1, 2}}, 2)
			add(kN1024, [][2]int{{0, 0}, {1, 0}}, 2)
			add(kMany, [][2]int{{0, 0}, {3, 0}, {5, 1}, {8, 0}, {11, 0}}, 2)
			join := func(l lab.Lit, pool [][2]int, d int) {
				for f, op := range ckOps() {
					us = append(us, mc.Unit{Name: fmt.Sprintf("join/%s/pool%v/d%d/%s", l.Name, pool, d, op.name), Body: ckJoin(l, pool, f, d)})
				}
			}
			join(kA1, [][2]int{{0, 0}, {1, 1}, {2, 0}}, 3+e)
			join(kSkew2, [][2]int{{0, 0}, {1, 0}}, 3+e)
			join(kDouble, [][2]int{{0, 1}, {1, 0}}, 3)
			if e > 0 {
				join(kA3, [][2]int{{0, 0}, {1, 0}, {2, 2}}, 3)
				join(kFive, [][2]int{{0, 0}, {1, 0}, {2, 1}, {3, 0}, {4, 2}}, 3)
			}
			us = ckRegUnits(us, "a", 3, kA1)
			us = ckRegUnits(us, "a", 2+e, kA2, kSkew, kDouble)
			us = largeUnits(us, "c")
			return us
		},
		Bounds: map[string]string{
			"quick":    "13 operations; all linear histories of depth 3 on 3 parameter sets (pools of 2-3 ciphertexts of different parties and levels) and of depth 2 on 16 sets (alpha 1-4, 1-20 primes, skewed, small and large ones, sparse slots, 2-12 parties, degrees up to 1024), single operations in degree 8192, operands on either side; all joins of two independent results by a binary operation on 3 sets; all histories of 3 events over two variables that are assigned, changed in place or hoisted, on 3 sets. Every intermediate result is checked",
			"thorough": "as quick with one more operation in every history, joins on 5 sets",
		},
	})
}
