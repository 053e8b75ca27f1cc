package props

import (
	"fmt"

	"verifmc/lab"
	"verifmc/mc"
)

// C11: conjugation conjugates (swaps the rows of BFV), is an involution and commutes with rotations.

func c11Ckks(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		ids := subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1))
		level := x.Choose("level", c.Params.MaxLevel()+1)
		a := ckSource(w, ids, level, x.Choose("history", len(ckSources)))
		if !w.Fits(a.Mag, a.Err, a.Scale, a.Level) {
			x.Skip()
		}
		b := w.Conj(a)
		w.Check(b, "conjugation")
		w.Check(w.Conj(b), "conjugation twice")
		k := x.Choose("rotation", minInt(c.Params.N()/2, 16))
		if k >= 8 && c.Params.N() > 32 {
			k = []int{31, c.Params.N()/8 - 1, c.Params.N() / 8, c.Params.N()/4 - 1, c.Params.N() / 4, c.Params.N()/4 + 1, c.Params.N()/2 - 2, c.Params.N()/2 - 1}[k-8]
		}
		w.Check(w.Rot(b, k), fmt.Sprintf("conjugation, then rotation by %d", k))
		w.Check(w.Conj(w.Rot(a, k)), fmt.Sprintf("rotation by %d, then conjugation", k))
		if w.CanMul(a, b) {
			w.Check(w.Mul(a, b), "square of the modulus")
		}
		w.Check(w.Add(a, b), "twice the real part")
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the conjugation changed the keys or the parameters")
	}
}

func c11Bfv(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		ids := subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1))
		a := bfSum(w, ids, 1)
		switch x.Choose("history", 3) {
		case 1:
			a = w.Mul(a, w.Encrypt(w.BVec(5), ids[0]))
			if !w.Fits(a) {
				x.Skip()
			}
		case 2:
			a = w.Sub(w.Encrypt(w.BVec(5), ids[0]), a)
		}
		b := w.Conj(a)
		w.Check(b, "row swap")
		w.Check(w.Conj(b), "row swap twice")
		k := x.Choose("rotation", c.Params.N()/2)
		w.Check(w.Rot(b, k), fmt.Sprintf("row swap, then rotation by %d", k))
		w.Check(w.Conj(w.Rot(a, k)), fmt.Sprintf("rotation by %d, then row swap", k))
		if m := w.MulModel(a, b, nil); w.Fits(m) {
			w.Check(w.Mul(a, b), "product with the swapped rows")
		}
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the row swap changed the keys or the parameters")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C11",
		Bounds: map[string]string{
			"quick":    "every level, every set of at most 3 parties, 8 histories of the operand, every rotation index: conjugation, its square, both compositions with the rotation, sum and product with the operand; 19 CKKS and 10 BFV parameter sets and sums of 12 parties (up to 15 primes, degrees up to 256: of larger rings the first eight indices and those around the powers of two), and degree 8192; all histories of 4 conjugations and changes in place over two variables",
			"thorough": "as quick with every parameter set, histories of 5",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			ck := []lab.Lit{kA1, kA2, kSkew2, kSparse1, kN32, kBig, kOne, kSmall, kA2o, kA3, kA4, kSkew, kSparse2, kSparse0, kDouble, kMid, kMid3, kN64, kN256}
			bf := []lab.Lit{bA1, bA2, bSkew, bOdd, bT, bA3, bBig, bOne, bWide3, bN256}
			n := 3
			if tier == "thorough" {
				ck = append(ck, kN1024, kFive, kWide, kWide3)
				bf = append(bf, bFive, bWide)
				n = 5
			}
			for _, l := range ck {
				us = append(us, mc.Unit{Name: "ckks/" + l.Name, Body: c11Ckks(l, minInt(l.Parties, n))})
			}
			for _, l := range bf {
				us = append(us, mc.Unit{Name: "bfv/" + l.Name, Body: c11Bfv(l, minInt(l.Parties, n))})
			}
			us = append(us, mc.Unit{Name: "crowd/ckks", Body: crowdAuto(kMany, true)}, mc.Unit{Name: "crowd/bfv", Body: crowdAutoBfv(bMany, true)})
			d := 4
			if tier == "thorough" {
				d = 5
			}
			us = ckRegUnits(us, "ci", d, kA1)
			us = ckRegUnits(us, "ci", d-1, kA2)
			us = bfRegUnits(us, "c", d, bA1, bA2)
			us = largeUnits(us, "cb", "conj")
			return us
		},
	})
}
