package props

import (
	"fmt"

	"verifmc/lab"
	"verifmc/mc"
)

// C04: every history of BFV operations decrypts exactly to the same history modulo T.

type bfOp struct {
	name  string
	unary bool
	model func(w *lab.BWorld, a, b *lab.BV) *lab.BV // nil ciphertext, to test the capacity
	do    func(w *lab.BWorld, a, b *lab.BV) *lab.BV
}

func bfOps() []bfOp {
	rot := func(k int) bfOp {
		return bfOp{fmt.Sprintf("rot(%d)", k), true, nil, func(w *lab.BWorld, a, _ *lab.BV) *lab.BV { return w.Rot(a, k) }}
	}
	return []bfOp{
		{"add", false, nil, func(w *lab.BWorld, a, b *lab.BV) *lab.BV { return w.Add(a, b) }},
		{"sub", false, nil, func(w *lab.BWorld, a, b *lab.BV) *lab.BV { return w.Sub(a, b) }},
		{"mul", false, func(w *lab.BWorld, a, b *lab.BV) *lab.BV { return w.MulModel(a, b, nil) },
			func(w *lab.BWorld, a, b *lab.BV) *lab.BV { return w.Mul(a, b) }},
		rot(1), rot(-3), rot(4),
		{"conj", true, nil, func(w *lab.BWorld, a, _ *lab.BV) *lab.BV { return w.Conj(a) }},
	}
}

func bfHistory(l lab.Lit, pool []int, first, depth int) func(x *mc.X) {
	ops := bfOps()
	return func(x *mc.X) {
		w := lab.NewBWorld(x, lab.GetBF(l))
		var cts []*lab.BV
		for i, p := range pool {
			cts = append(cts, w.Encrypt(w.BVec(i+1), w.C.IDs[p]))
		}
		acc := cts[0]
		for d := 0; d < depth; d++ {
			var op bfOp
			if d == 0 && first >= 0 {
				op = ops[first]
			} else {
				op = ops[x.Choose("op", len(ops))]
			}
			a, b := acc, acc
			if !op.unary {
				k := x.Choose("operands", 1+2*(len(cts)-1))
				if k > 0 {
					o := cts[1+(k-1)/2]
					if k%2 == 1 {
						b = o
					} else {
						a = o
					}
				}
			}
			if op.model != nil && !w.Fits(op.model(w, a, b)) {
				x.Skip()
			}
			r := op.do(w, a, b)
			if !w.Fits(r) {
				x.Skip()
			}
			w.Check(r, op.name)
			acc = r
		}
		for i, c := range cts {
			w.Check(c, fmt.Sprintf("input %d after the history", i))
		}
		x.Assert(w.C.Intact(), "the history changed the keys or the parameters")
	}
}

// bfJoin explores the histories in which two independent results are combined.
func bfJoin(l lab.Lit, pool []int, first, depth int) func(x *mc.X) {
	ops := bfOps()
	return func(x *mc.X) {
		w := lab.NewBWorld(x, lab.GetBF(l))
		var cts []*lab.BV
		for i, p := range pool {
			cts = append(cts, w.Encrypt(w.BVec(i+1), w.C.IDs[p]))
		}
		apply := func(op bfOp, a, b *lab.BV) *lab.BV {
			if op.model != nil && !w.Fits(op.model(w, a, b)) {
				x.Skip()
			}
			r := op.do(w, a, b)
			if !w.Fits(r) {
				x.Skip()
			}
			w.Check(r, op.name)
			return r
		}
		other := func(op bfOp) *lab.BV {
			if op.unary {
				return nil
			}
			return cts[x.Choose("other operand", len(cts))]
		}
		op1, op2 := ops[first], ops[x.Choose("second operation", len(ops))]
		r1 := apply(op1, cts[0], other(op1))
		r2 := apply(op2, cts[x.Choose("operand", len(cts))], other(op2))
		acc := r2
		for d := 2; d < depth; d++ {
			k := 3
			if d > 2 {
				k = len(ops)
			}
			op := ops[x.Choose("combination", k)]
			a, b := r1, acc
			if op.unary {
				a, b = acc, nil
			} else if x.Bool("swapped") {
				a, b = b, a
			}
			acc = apply(op, a, b)
		}
		for i, c := range cts {
			w.Check(c, fmt.Sprintf("input %d after the history", i))
		}
		w.Check(r1, "first result after the history")
		w.Check(r2, "second result after the history")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C04",
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			e := 0
			if tier == "thorough" {
				e = 1
			}
			add := func(l lab.Lit, pool []int, d int) {
				for f, op := range bfOps() {
					us = append(us, mc.Unit{Name: fmt.Sprintf("%s/pool%v/d%d/%s", l.Name, pool, d, op.name), Body: bfHistory(l, pool, f, d)})
				}
			}
			add(bA1, []int{0, 1, 2}, 3+e)
			add(bA2, []int{0, 1}, 3+e)
			add(bSkew, []int{1, 0}, 3+e)
			add(bA3, []int{0, 1}, 2+e)
			add(bOdd, []int{0, 1}, 2+e)
			add(bT, []int{0, 1}, 2+e)
			add(bT20, []int{0, 1}, 2+e)
			add(bT31, []int{1, 0}, 2+e)
			add(bT41, []int{0, 1}, 2+e)
			add(bBig, []int{0, 1}, 2+e)
			add(bOne, []int{1, 0}, 2)
			add(bFive, []int{0, 1, 2, 3, 4}, 2+e)
			add(bWide, []int{0, 1}, 2)
			add(bWide3, []int{1, 0}, 2)
			add(bN1024, []int{0, 1}, 2)
			add(bMany, []int{0, 2, 7, 9, 11}, 2)
			join := func(l lab.Lit, pool []int, d int) {
				for f, op := range bfOps() {
					us = append(us, mc.Unit{Name: fmt.Sprintf("join/%s/pool%v/d%d/%s", l.Name, pool, d, op.name), Body: bfJoin(l, pool, f, d)})
				}
			}
			join(bA1, []int{0, 1, 2}, 3+e)
			join(bA2, []int{0, 2}, 3+e)
			join(bSkew, []int{1, 0}, 3)
			if e > 0 {
				join(bA3, []int{0, 1}, 4)
				join(bFive, []int{0, 1, 2, 3, 4}, 3)
			}
			us = bfRegUnits(us, "a", 3+e, bA1)
			us = bfRegUnits(us, "a", 3, bA2)
			us = largeUnits(us, "b")
			return us
		},
		Bounds: map[string]string{
			"quick":    "7 operations; all linear histories of depth 3 on 3 parameter sets and of depth 2 on 13 sets (alpha 1-3, 1-16 primes, T = 97, 193, 12289, 65537, 786433 and primes of 31 and 41 bits, 2-12 parties, degrees up to 1024), single operations in degree 8192, operands on either side; all joins of two independent results by a binary operation on 3 sets; all histories of 3 events over two variables that are assigned or changed in place, on 2 sets. Every intermediate result is compared exactly",
			"thorough": "as quick with one more operation in every history, joins on 5 sets",
		},
	})
}
