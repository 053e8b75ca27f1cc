package props

import (
	"fmt"

	"verifmc/lab"
	"verifmc/mc"
)

// Rings as large as the shipped ones (degree 8192, dedicated keys for two rotations): every kind of
// operation once, on every set of two parties and at every level.

type largeOp struct {
	name string
	run  func(w *lab.World, a, b *lab.CV) *lab.CV
}

var largeOps = []largeOp{
	{"add", func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Add(a, b) }},
	{"sub", func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Sub(a, b) }},
	{"mul", func(w *lab.World, a, b *lab.CV) *lab.CV { return w.Mul(a, b) }},
	{"mulh", func(w *lab.World, a, b *lab.CV) *lab.CV { return w.MulHoisted(a, b) }},
	{"rot", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Rot(a, 255) }},
	{"rotc", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Rot(a, -3) }},
	{"roth", func(w *lab.World, a, _ *lab.CV) *lab.CV {
		return w.RotModel(a, 300, w.Ev.RotateHoistedNew(a.CT, 300, w.Ev.HoistedForm(a.CT), w.Rtk))
	}},
	{"roth1", func(w *lab.World, a, _ *lab.CV) *lab.CV {
		k := w.C.Params.N() / 4
		return w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, w.Ev.HoistedForm(a.CT), w.Rtk))
	}},
	{"conj", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Conj(a) }},
	{"const", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.MulConst(a, complex(2, -3)) }},
	{"constf", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.MulConst(a, 0.375) }},
	{"mulpt", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.MulPtxt(a, lab.Vec(w.Slots(), 9)) }},
	{"drop", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Drop(a, minInt(1, a.Level)) }},
	{"copy", func(w *lab.World, a, _ *lab.CV) *lab.CV { return w.Copy(a) }},
}

// largeCkks: one operation, then another one on its result, then the decryption of the parties one by one.
func largeCkks(l lab.Lit, op largeOp) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		level := x.Choose("level", c.Params.MaxLevel()+1)
		a := ckSum(w, subset(c.IDs[:2], x.Choose("parties a", 3)), level, 1)
		b := ckSum(w, subset(c.IDs[:2], x.Choose("parties b", 3)), c.Params.MaxLevel(), 4)
		check := func(r *lab.CV, what string) {
			if w.Fits(r.Mag, r.Err, r.Scale, r.Level) {
				w.Check(r, what)
			} else {
				w.CheckBook(r, what)
			}
		}
		r := op.run(w, a, b)
		check(r, op.name)
		if w.Fits(r.Mag, r.Err, r.Scale, r.Level) {
			s := w.Add(w.Conj(r), a)
			check(s, "sum with the conjugate of "+op.name)
		}
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
		// the parties decrypt one after the other
		d := w.Copy(a)
		for _, id := range a.IDs {
			mc.Segment(func() { w.Dec.PartialDecrypt(d.CT, c.SK[id]) })
			d.IDs = without(d.IDs, id)
			w.Check(d, fmt.Sprintf("after the partial decryption of %s", id))
		}
		x.Assert(c.Intact(), "the operations changed the keys or the parameters")
	}
}

// largeBfv: the same with the operations of BFV.
func largeBfv(l lab.Lit, op int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		a := bfSum(w, subset(c.IDs[:2], x.Choose("parties a", 3)), 1)
		b := bfSum(w, subset(c.IDs[:2], x.Choose("parties b", 3)), 4)
		var r *lab.BV
		switch op {
		case 0:
			r = w.Add(a, b)
		case 1:
			r = w.Sub(a, b)
		case 2:
			r = w.Mul(a, b)
		case 3:
			r = w.Rot(a, 256)
		case 4:
			r = w.Rot(a, -3)
		case 5:
			r = w.Conj(a)
		}
		w.Check(r, "result")
		if s := w.Add(w.Conj(r), a); w.Fits(s) {
			w.Check(s, "sum with the swapped rows of the result")
		}
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
		d := w.Copy(a)
		for _, id := range a.IDs {
			mc.Segment(func() { w.Dec.PartialDecrypt(d.CT, c.SK[id]) })
			d.IDs = without(d.IDs, id)
			w.Check(d, fmt.Sprintf("after the partial decryption of %s", id))
		}
		x.Assert(c.Intact(), "the operations changed the keys or the parameters")
	}
}

// largeUnits adds these units for CKKS (c), BFV (b) or both; for CKKS the named operations, or all.
func largeUnits(us []mc.Unit, kinds string, names ...string) []mc.Unit {
	for _, k := range kinds {
		switch k {
		case 'c':
			for _, o := range largeOps {
				in := len(names) == 0
				for _, n := range names {
					in = in || n == o.name
				}
				if in {
					us = append(us, mc.Unit{Name: "large/ckks/" + kN8192.Name + "/" + o.name, Body: largeCkks(kN8192, o)})
				}
			}
		case 'b':
			for i := 0; i < 6; i++ {
				us = append(us, mc.Unit{Name: fmt.Sprint("large/bfv/", bN8192.Name, "/", i), Body: largeBfv(bN8192, i)})
			}
		}
	}
	return us
}
