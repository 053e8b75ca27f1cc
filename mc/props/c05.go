package props

import (
	"fmt"

	"mk-lattigo/mkckks"
	"verifmc/lab"
	"verifmc/mc"
)

// C05: every ciphertext carries exactly the parties, the level and the scale its history implies.

// subset lists the ids of a non-empty subset given by its index in [0, 2^n-1).
func subset(ids []string, k int) []string {
	k++
	var out []string
	for i, id := range ids {
		if k>>uint(i)&1 == 1 {
			out = append(out, id)
		}
	}
	return out
}

// sum builds a ciphertext of the given parties at a level.
func ckSum(w *lab.World, ids []string, level, k int) *lab.CV {
	var acc *lab.CV
	for i, id := range ids {
		v := lab.Vec(w.Slots(), k+i)
		c := w.Encrypt(v, id, level)
		if acc == nil {
			acc = c
		} else {
			acc = w.Add(acc, c)
		}
	}
	return acc
}

func c05Binary(l lab.Lit, nPart int, op string, levels bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		ids := c.IDs[:nPart]
		max := c.Params.MaxLevel()
		la, lb := max, max
		if levels {
			la = x.Choose("level a", max+1)
			lb = x.Choose("level b", max+1)
		}
		a := ckSum(w, subset(ids, x.Choose("parties a", 1<<uint(nPart)-1)), la, 1)
		var b *lab.CV
		if sb := x.Choose("parties b", 1<<uint(nPart)); sb == 1<<uint(nPart)-1 {
			if la != lb {
				x.Skip()
			}
			b = a // the same object on both sides
		} else {
			b = ckSum(w, subset(ids, sb), lb, 4)
		}
		w.Check(a, "operand a")
		w.Check(b, "operand b")
		var r *lab.CV
		switch op {
		case "add":
			r = w.Add(a, b)
		case "sub":
			r = w.Sub(a, b)
		case "mul":
			if !w.CanMul(a, b) {
				// the value wraps: only the bookkeeping is defined
				w.CheckBook(w.Mul(a, b), "mul")
				return
			}
			r = w.Mul(a, b)
		case "mulhoisted":
			if !w.CanMul(a, b) {
				w.CheckBook(w.MulHoisted(a, b), "mulhoisted")
				return
			}
			r = w.MulHoisted(a, b)
		}
		w.Check(r, op)
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
	}
}

// c05Scales: additions of ciphertexts of every pair of scales reached by multiplications by constants
// and plaintexts.
func c05Scales(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		mk := func(tag string, party, k int) *lab.CV {
			a := w.Encrypt(lab.Vec(w.Slots(), k), c.IDs[party], max-x.Choose("level "+tag, 2))
			s := []float64{1, 2, 4, 3, 1 << 20, 1 << 40}[x.Choose("scale "+tag, 6)]
			a.CT.SetScalingFactor(a.CT.ScalingFactor() * s)
			a.Scale *= s
			for i := range a.V {
				a.V[i] /= complex(s, 0)
			}
			a.Mag /= s
			a.Err /= s
			return a
		}
		a, b := mk("a", 0, 1), mk("b", x.Choose("party b", 2), 2)
		sub := x.Bool("sub")
		r := a.Scale / b.Scale
		if r < 1 {
			r = 1 / r
		}
		if r != float64(int64(r)) {
			x.Skip() // the smaller scale does not divide the larger one
		}
		var o *lab.CV
		if sub {
			o = w.Sub(a, b)
		} else {
			o = w.Add(a, b)
		}
		w.Check(o, "addition of different scales")
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
	}
}

func c05Unary(l lab.Lit, nPart int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		level := x.Choose("level", max+1)
		a := ckSum(w, subset(c.IDs[:nPart], x.Choose("parties", 1<<uint(nPart)-1)), level, 2)
		ops := ckOps()
		op := ops[x.Choose("op", len(ops)+3)%len(ops)]
		k := x.Choose("variant", 3)
		var r *lab.CV
		switch {
		case op.unary:
			if k > 0 {
				x.Skip()
			}
			if !op.ok(w, a, a) {
				x.Skip()
			}
			r = op.do(w, a, a)
		case k == 0:
			r = w.Copy(a)
		case k == 1:
			if level == 0 {
				x.Skip()
			}
			r = w.Drop(a, 1+x.Choose("drop", level))
			if !w.Fits(r.Mag, r.Err, r.Scale, r.Level) {
				x.Skip()
			}
		case k == 2:
			// a scale above the default one, rescaled with different minimal scales
			b := w.MulConst(a, 0.75)
			ms := c.Params.Scale() * []float64{1, 0.25, 1 << 30}[x.Choose("minScale", 3)]
			if level == 0 {
				ct := mkckks.NewCiphertext(c.Params, lab.Set(a.IDs...), 0, 1)
				x.Assert(w.Ev.Rescale(b.CT, ms, ct) != nil, "Rescale of a level 0 ciphertext does not return an error")
				return
			}
			r = w.Rescale(b, ms)
			if !w.Fits(r.Mag, r.Err, r.Scale, r.Level) {
				w.CheckBook(r, "rescale")
				return
			}
		}
		w.Check(r, op.name)
		w.Check(a, "operand afterwards")
	}
}

func c05Bfv(l lab.Lit, nPart int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		ids := c.IDs[:nPart]
		sum := func(ids []string, k int) *lab.BV {
			var acc *lab.BV
			for i, id := range ids {
				e := w.Encrypt(w.BVec(k+i), id)
				if acc == nil {
					acc = e
				} else {
					acc = w.Add(acc, e)
				}
			}
			return acc
		}
		a := sum(subset(ids, x.Choose("parties a", 1<<uint(nPart)-1)), 1)
		op := x.Choose("op", 6)
		var r *lab.BV
		if op < 3 {
			b := a // the same object on both sides
			if sb := x.Choose("parties b", 1<<uint(nPart)); sb < 1<<uint(nPart)-1 {
				b = sum(subset(ids, sb), 5)
			}
			switch op {
			case 0:
				r = w.Add(a, b)
			case 1:
				r = w.Sub(a, b)
			case 2:
				r = w.Mul(a, b)
				if !w.Fits(r) {
					w.CheckBook(r, "mul")
					return
				}
			}
			w.Check(b, "operand b afterwards")
		} else {
			switch op {
			case 3:
				r = w.Rot(a, 3)
			case 4:
				r = w.Conj(a)
			case 5:
				r = w.Copy(a)
			}
		}
		w.Check(r, "result")
		w.Check(a, "operand a afterwards")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C05",
		Bounds: map[string]string{
			"quick":    "every pair of non-empty party subsets (of 2-5 parties) in both orders, and every subset with the same object on both sides, every pair of levels (2-3 parties), for add, sub, mul, hoisted mul on 8 CKKS sets (up to 20 primes); every unary operation at every level for every subset; additions of ciphertexts of different scales; BFV: every pair of subsets of up to 4 parties and every operation on 4 sets; sums, products and hoisted products of pairs of subsets of 12 parties, CKKS and BFV; degree 8192",
			"thorough": "as quick with all level pairs for 3 parties and 3 more sets",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			for _, op := range []string{"add", "sub", "mul", "mulhoisted"} {
				add("binary/skew/"+op, c05Binary(kSkew, 2, op, true))
				add("binary/a3/"+op, c05Binary(kA3, 2, op, true))
				add("binary/double/"+op, c05Binary(kDouble, 2, op, true))
				add("binary/a1/"+op, c05Binary(kA1, 3, op, tier == "thorough"))
				add("binary/a2/"+op, c05Binary(kA2, 3, op, tier == "thorough"))
				add("binary/five/"+op, c05Binary(kFive, 5, op, false))
				add("crowd/ckks/"+op, c05CrowdCkks(kMany, op))
				add("binary/wide/"+op, c05Binary(kWide, 2, op, tier == "thorough"))
				add("binary/one/"+op, c05Binary(kOne, 2, op, true))
				if tier == "thorough" {
					add("binary/a4/"+op, c05Binary(kA4, 2, op, true))
					add("binary/a2odd/"+op, c05Binary(kA2o, 2, op, true))
					add("binary/skew2/"+op, c05Binary(kSkew2, 2, op, true))
				}
			}
			for _, l := range []lab.Lit{kA1, kSkew, kA3, kSkew2, kSparse1, kDouble, kSmall, kBig, kWide, kWide3} {
				add("scales/"+l.Name, c05Scales(l))
				add("unary/"+l.Name, c05Unary(l, minInt(l.Parties, 3)))
			}
			add("crowd/bfv", c05CrowdBfv(bMany))
			add("unary/five", c05Unary(kFive, 5))
			for _, l := range []lab.Lit{bA1, bA2, bSkew, bFive} {
				add("bfv/"+l.Name, c05Bfv(l, minInt(l.Parties, 4)))
			}
			us = largeUnits(us, "cb")
			return us
		},
	})
}

var _ = fmt.Sprint
