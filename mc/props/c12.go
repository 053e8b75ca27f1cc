package props

import (
	"fmt"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C12: hoisted operations agree with the direct ones.

// c12Ckks: forms computed at a level above the operand's, for either operand,
// shared between several operations, used before and after the operand is dropped.
func c12Ckks(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		idsA := subset(c.IDs[:n], x.Choose("parties a", 1<<uint(n)-1))
		idsB := subset(c.IDs[:n], x.Choose("parties b", 1<<uint(n)-1))
		formLevel := x.Choose("form level", max+1)
		level := x.Choose("level", formLevel+1)
		lb := level + x.Choose("other level", minInt(2, max-level+1))
		a0 := ckSum(w, idsA, formLevel, 1)
		b := ckSum(w, idsB, lb, 4)
		ha, hb := w.Ev.HoistedForm(a0.CT), w.Ev.HoistedForm(b.CT)
		hashA, hashB := lab.NewH().Hoisted(ha), lab.NewH().Hoisted(hb)
		a := w.Drop(a0, formLevel-level)
		// the same value at another address
		a2 := w.Copy(a)
		if w.CanMul(a, b) {
			type v struct {
				what   string
				l, r   *lab.CV
				hl, hr *mkrlwe.HoistedCiphertext
			}
			for _, m := range []v{
				{"both forms", a, b, ha, hb},
				{"form of the first operand", a, b, ha, nil},
				{"form of the second operand", a, b, nil, hb},
				{"no form", a, b, nil, nil},
				{"both forms, swapped", b, a, hb, ha},
				{"form of the second operand, swapped", b, a, nil, ha},
				{"both forms again", a, b, ha, hb},
			} {
				r := w.MulModel(m.l, m.r, w.Ev.MulRelinHoistedNew(m.l.CT, m.r.CT, m.hl, m.hr, w.Rlk))
				x.Step("MulRelinHoisted, %s", m.what)
				w.Check(r, "hoisted product, "+m.what)
			}
			w.Check(w.Mul(a, b), "direct product")
		}
		if w.CanMul(a, a) {
			w.Check(w.Mul(a, a), "direct square")
			w.Check(w.Mul(a, a2), "direct product of equal copies")
			for _, id := range idsA {
				// the operands share one component
				u := w.Copy(a)
				u.CT.Value[id] = a.CT.Value[id]
				w.Check(w.Mul(u, a), "direct product of operands sharing a component")
				w.Check(w.MulModel(u, a, w.Ev.MulRelinHoistedNew(u.CT, a.CT, nil, ha, w.Rlk)), "hoisted product of operands sharing a component")
			}
			if w.CanMul(a, b) {
				w.Check(w.Mul(b, a), "direct product after others")
			}
			h2 := w.Ev.HoistedForm(a2.CT)
			for k, h := range [][2]*mkrlwe.HoistedCiphertext{{ha, ha}, {ha, h2}, {h2, ha}, {nil, ha}, {ha, nil}, {nil, nil}} {
				x.Count(2)
				w.Check(w.MulModel(a, a, w.Ev.MulRelinHoistedNew(a.CT, a.CT, h[0], h[1], w.Rlk)), fmt.Sprintf("hoisted square, forms %d", k))
				w.Check(w.MulModel(a, a, w.Ev.MulRelinHoistedNew(a.CT, a2.CT, h[0], h[1], w.Rlk)), fmt.Sprintf("hoisted product of equal copies, forms %d", k))
			}
		}
		half := c.Params.N() / 2
		for k := -half; k <= half; k++ {
			if _, in := c.Params.CRS[((k%half)+half)%half]; in || k%half == 0 {
				x.Count(1)
				w.Check(w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, ha, w.Rtk)), fmt.Sprintf("hoisted rotation by %d", k))
				w.Check(w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, w.Rtk)), fmt.Sprintf("direct rotation by %d", k))
			}
		}
		x.Assert(hashA == lab.NewH().Hoisted(ha) && hashB == lab.NewH().Hoisted(hb), "an operation changed a hoisted form")
		x.Assert(c.Intact(), "the operations changed the keys or the parameters")
	}
}

// c12Rl: the key switcher, on arbitrary ring elements; the phases are compared
// with the product of the phases of the operands.
func c12Rl(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetRL(l)
		p := c.Params
		max := p.MaxLevel()
		idsA := subset(c.IDs[:n], x.Choose("parties a", 1<<uint(n)-1))
		idsB := subset(c.IDs[:n], x.Choose("parties b", 1<<uint(n)-1))
		formLevel := x.Choose("form level", max+1)
		level := x.Choose("level", formLevel+1)
		a0 := lab.UniformCT(p, formLevel, 1, idsA...)
		b0 := lab.UniformCT(p, formLevel, 2, idsB...)
		ks := mkrlwe.NewKeySwitcher(p)
		ha, hb := lab.HoistRL(ks, a0, formLevel), lab.HoistRL(ks, b0, formLevel)
		a, b := lab.Truncate(p, a0, level), lab.Truncate(p, b0, level)
		if x.Bool("operands keep their level") {
			a, b = a0, b0
		}
		if x.Bool("square") {
			if fmt.Sprint(idsA) != fmt.Sprint(idsB) {
				x.Skip()
			}
			b, hb = a, ha
		}
		hA, hB := lab.NewH().CT(a), lab.NewH().CT(b)
		pa := lab.Phase(p, lab.Truncate(p, a, level), c.SK)
		pb := lab.Phase(p, lab.Truncate(p, b, level), c.SK)
		want := lab.NegaMul(pa, pb)
		bound := 12 + l.LogN
		all := map[string]bool{}
		for _, id := range append(append([]string{}, idsA...), idsB...) {
			all[id] = true
		}
		ids := lab.SortedKeys(all)
		out := func() *mkrlwe.Ciphertext {
			o := mkrlwe.NewCiphertext(p, lab.Set(ids...), level)
			lab.ObjRL("", o).Scribble()
			return o
		}
		var first *mkrlwe.Ciphertext
		for k := 0; k < 6; k++ {
			o := out()
			name := ""
			switch k {
			case 0:
				ks.MulAndRelin(a, b, c.RlkSet(), o)
				name = "direct"
			case 1:
				ks.MulAndRelinHoisted(a, b, nil, nil, c.RlkSet(), o)
				name = "no form"
			case 2:
				ks.MulAndRelinHoisted(a, b, ha, hb, c.RlkSet(), o)
				name = "both forms"
			case 3:
				ks.MulAndRelinHoisted(a, b, ha, nil, c.RlkSet(), o)
				name = "first form"
			case 4:
				ks.MulAndRelinHoisted(a, b, nil, hb, c.RlkSet(), o)
				name = "second form"
			case 5:
				ks.MulAndRelinHoisted(a, b, ha, hb, c.RlkSet(), o)
				name = "both forms again"
			}
			x.Step("MulAndRelin %s", name)
			bits := lab.ErrBits(p, level, lab.Phase(p, o, c.SK), want)
			x.Assert(bits <= bound, "%s: the phase of the product differs from the product of the phases by %d bits (bound %d)", name, bits, bound)
			if k == 0 {
				first = o
			} else if k == 1 {
				x.Assert(lab.Close(p.RingQ(), first, o), "the product without forms differs from the direct one")
			}
		}
		for _, r := range lab.RotsOf(&c.Keys, c.IDs[0]) {
			want := lab.Automorph(pa, p.GaloisElementForColumnRotationBy(r))
			for k := 0; k < 2; k++ {
				o := mkrlwe.NewCiphertext(p, lab.Set(idsA...), level)
				lab.ObjRL("", o).Scribble()
				if k == 0 {
					ks.Rotate(a, r, c.RtkSet(), o)
				} else {
					ks.RotateHoisted(a, r, ha, c.RtkSet(), o)
				}
				x.Step("Rotate(%d), hoisted %d", r, k)
				bits := lab.ErrBits(p, level, lab.Phase(p, o, c.SK), want)
				x.Assert(bits <= bound, "rotation by %d (hoisted: %v): the phase differs from the rotated phase by %d bits (bound %d)", r, k == 1, bits, bound)
			}
		}
		o := mkrlwe.NewCiphertext(p, lab.Set(idsA...), level)
		ks.Conjugate(a, c.CjkSet(), o)
		x.Step("Conjugate")
		bits := lab.ErrBits(p, level, lab.Phase(p, o, c.SK), lab.Automorph(pa, p.GaloisElementForRowRotation()))
		x.Assert(bits <= bound, "conjugation: the phase differs from the conjugated phase by %d bits (bound %d)", bits, bound)
		x.Assert(hA == lab.NewH().CT(a) && hB == lab.NewH().CT(b), "an operation changed its operand")
		x.State(l.Name, idsA, idsB, formLevel, level)
	}
}

// c12Bfv: the BFV key switcher with any combination of forms.
func c12Bfv(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		p := c.Params
		idsA := subset(c.IDs[:n], x.Choose("parties a", 1<<uint(n)-1))
		idsB := subset(c.IDs[:n], x.Choose("parties b", 1<<uint(n)-1))
		a, b := bfSum(w, idsA, 1), bfSum(w, idsB, 4)
		if x.Bool("square") {
			if fmt.Sprint(idsA) != fmt.Sprint(idsB) {
				x.Skip()
			}
			b = a
		}
		m := w.MulModel(a, b, nil)
		if !w.Fits(m) {
			x.Skip()
		}
		ks := mkbfv.NewKeySwitcher(p)
		conv := mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
		aR, bR := lab.BfvR(p, conv, a.CT.Ciphertext, false), lab.BfvR(p, conv, b.CT.Ciphertext, true)
		a1, a2 := lab.HoistBfv(ks, p, aR)
		b1, b2 := lab.HoistBfv(ks, p, bR)
		hs := lab.NewH().Hoisted(a1).Hoisted(a2).Hoisted(b1).Hoisted(b2).CT(aR).CT(bR)
		for k := 0; k < 6; k++ {
			o := mkbfv.NewCiphertext(p, lab.Set(m.IDs...))
			lab.ObjBF("", o).Scribble()
			switch k {
			case 0, 5:
				ks.MulAndRelinBFVHoisted(aR, bR, a1, a2, b1, b2, c.RlkSet(), o.Ciphertext)
			case 1:
				ks.MulAndRelinBFVHoisted(aR, bR, nil, nil, b1, b2, c.RlkSet(), o.Ciphertext)
			case 2:
				ks.MulAndRelinBFVHoisted(aR, bR, a1, a2, nil, nil, c.RlkSet(), o.Ciphertext)
			case 3:
				ks.MulAndRelinBFVHoisted(aR, bR, nil, nil, nil, nil, c.RlkSet(), o.Ciphertext)
			case 4:
				ks.MulAndRelinBFV(aR, bR, c.RlkSet(), o.Ciphertext)
			}
			x.Step("MulAndRelinBFV variant %d", k)
			r := *m
			r.CT = o
			w.Check(&r, fmt.Sprintf("BFV product, variant %d", k))
		}
		r := *m
		r.CT = w.Ev.MulRelinNew(a.CT, b.CT, w.Rlk)
		w.Check(&r, "evaluator product")
		x.Assert(hs == lab.NewH().Hoisted(a1).Hoisted(a2).Hoisted(b1).Hoisted(b2).CT(aR).CT(bR), "a product changed an operand or a form")
		// the external products of every component with every key
		for _, id := range idsA {
			for _, k := range []int{0, 1} {
				g1, g2 := c.Rlk[id].Value[0].Value[k], c.Rlk[id].Value[1].Value[k]
				u, v := p.RingQ().NewPoly(), p.RingQ().NewPoly()
				ks.ExternalProductBFV(p.MaxLevel(), aR.Value[id], g1, g2, u)
				ks.ExternalProductBFVHoisted(p.MaxLevel(), a1.Value[id], a2.Value[id], g1, g2, v)
				x.Step("ExternalProductBFV")
				cu, cv := lab.Centered(p.RingQ(), p.MaxLevel(), u.Coeffs), lab.Centered(p.RingQ(), p.MaxLevel(), v.Coeffs)
				x.Assert(lab.ErrBits(p.Parameters, p.MaxLevel(), cu, cv) <= 2, "the hoisted external product differs from the direct one")
			}
		}
		x.Assert(c.Intact(), "the operations changed the keys or the parameters")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C12",
		Bounds: map[string]string{
			"quick":    "all pairs of sets of at most 3 parties, all pairs (level of the form, level of use), other operand one level above, all combinations of present/absent forms in both positions and orders, squares against equal copies, every rotation index with a key, reuse of a form; 1 to 15 primes, degrees 16 to 256 and 8192; structured pairs of sets of 12 parties; all histories of 3 hoistings, hoisted operations and changes in place over two variables",
			"thorough": "as quick with 5 parties and more parameter sets, histories of 4",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			th := tier == "thorough"
			k := 3
			ck := []lab.Lit{kA1, kA2, kA2o, kA3, kSkew2, kRot, kOne, kSparse1, kDouble, kBig, kSmall, kA4, kSkew, kRotAll, kN32, kSparse2, kMid3, kN256}
			rl := []lab.Lit{rA1, rA2, rG3, rG3b, rOdd, rOne, rAll, rN64, rBigQ, rWide}
			bf := []lab.Lit{bA1, bA2, bSkew, bOdd, bT, bA3, bBig, bOne, bWide3}
			if th {
				ck = append(ck, kFive, kN64, kSparse0, kWide, kWide3)
				bf = append(bf, bRot, bWide)
				us = append(us, mc.Unit{Name: "ckks5/five", Body: c12Ckks(kFive, 5)}, mc.Unit{Name: "bfv5/five", Body: c12Bfv(bFive, 5)})
			}
			for _, l := range ck {
				us = append(us, mc.Unit{Name: "ckks/" + l.Name, Body: c12Ckks(l, minInt(l.Parties, k))})
			}
			for _, l := range rl {
				us = append(us, mc.Unit{Name: "rl/" + l.Name, Body: c12Rl(l, minInt(l.Parties, k))})
			}
			for _, l := range bf {
				us = append(us, mc.Unit{Name: "bfv/" + l.Name, Body: c12Bfv(l, minInt(l.Parties, 3))})
			}
			us = append(us, mc.Unit{Name: "crowd/ckks", Body: c12CrowdCkks(kMany)})
			d := 3
			if th {
				d = 4
			}
			us = ckRegUnits(us, "hi", d, kA1)
			us = ckRegUnits(us, "hi", d-1, kA2, kSkew2)
			us = bfRegUnits(us, "h", d, bA1)
			us = largeUnits(us, "c", "mul", "mulh", "roth", "roth1")
			return us
		},
	})
}
