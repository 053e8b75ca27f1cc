package props

import (
	"fmt"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// Histories over two variables that hold ciphertexts: an operation writes its
// result to either variable, changes the object of a variable in place, or
// prepares a hoisted form that is used as long as its ciphertext lasts.

type ckRegs struct {
	w *lab.World
	v [2]*lab.CV
	h [2]*mkrlwe.HoistedCiphertext
	k int // number of encryptions so far
}

// set gives a variable another object.
func (r *ckRegs) set(j int, c *lab.CV) {
	r.v[j], r.h[j] = c, nil
}

type ckRegOp struct {
	name string
	tag  string // the families it belongs to
	do   func(r *ckRegs) bool
}

func ckRegOps(tags string) []ckRegOp {
	var ops []ckRegOp
	fits := func(w *lab.World, o *lab.CV) bool { return w.Fits(o.Mag, o.Err, o.Scale, o.Level) }
	add := func(tag, name string, do func(r *ckRegs) bool) {
		for _, t := range tag {
			for _, u := range tags {
				if t == u {
					ops = append(ops, ckRegOp{name, tag, do})
					return
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		i := i
		// i: changes in place; a: everything
		for _, c := range []interface{}{-2, complex(0.5, -0.75)} {
			c := c
			add("ai", fmt.Sprintf("r%d *= %v", i, c), func(r *ckRegs) bool {
				a := r.v[i]
				o := r.w.MulConstModel(a, c, a.Level, a.CT)
				if !fits(r.w, o) {
					return false
				}
				r.w.Ev.MultByConst(a.CT, c, a.CT)
				r.set(i, o)
				return true
			})
		}
		add("ai", fmt.Sprintf("rescale r%d", i), func(r *ckRegs) bool {
			a := r.v[i]
			o := r.w.RescaleModel(a, r.w.C.Params.Scale(), a.CT)
			if o.Level == a.Level || !fits(r.w, o) {
				return false
			}
			if err := r.w.Ev.Rescale(a.CT, r.w.C.Params.Scale(), a.CT); err != nil {
				r.w.X.Fail("Rescale in place: %v", err)
			}
			r.set(i, o)
			return true
		})
		add("aih", fmt.Sprintf("drop r%d", i), func(r *ckRegs) bool {
			a := r.v[i]
			if a.Level == 0 || !r.w.Fits(a.Mag, a.Err, a.Scale, a.Level-1) {
				return false
			}
			r.w.Ev.DropLevel(a.CT, 1)
			o := *a
			o.Level--
			r.v[i] = &o // the hoisted form is still good
			return true
		})
		add("aih", fmt.Sprintf("encrypt into r%d", i), func(r *ckRegs) bool {
			a := r.v[i]
			if a.Level < r.w.C.Params.MaxLevel()-1 {
				return false
			}
			r.k++
			v := lab.Vec(r.w.Slots(), 3+r.k)
			id := r.w.C.IDs[i]
			msg := mkckks.NewMessage(r.w.C.Params)
			copy(msg.Value, v)
			if !has(a.IDs, id) {
				return false
			}
			r.w.Enc.EncryptMsg(msg, r.w.C.PK[id], a.CT)
			f := r.w.FreshModel(v, id, a.Level, a.CT)
			f.IDs = a.IDs
			r.set(i, f)
			return true
		})
		add("ah", fmt.Sprintf("hoist r%d", i), func(r *ckRegs) bool {
			if r.h[i] != nil {
				return false
			}
			r.h[i] = r.w.Ev.HoistedForm(r.v[i].CT)
			return true
		})
		for j := 0; j < 2; j++ {
			i, j := i, j
			add("ac", fmt.Sprintf("r%d = conj r%d", j, i), func(r *ckRegs) bool {
				r.set(j, r.w.Conj(r.v[i]))
				return true
			})
			for _, k := range []int{1, -3} {
				k := k
				add("ar", fmt.Sprintf("r%d = rot r%d %d", j, i, k), func(r *ckRegs) bool {
					r.set(j, r.w.Rot(r.v[i], k))
					return true
				})
			}
			add("arh", fmt.Sprintf("r%d = rot r%d 2 with its hoisted form", j, i), func(r *ckRegs) bool {
				if r.h[i] == nil {
					return false
				}
				r.set(j, r.w.RotModel(r.v[i], 2, r.w.Ev.RotateHoistedNew(r.v[i].CT, 2, r.h[i], r.w.Rtk)))
				return true
			})
		}
		bin := func(tag, name string, ok func(w *lab.World, a, b *lab.CV) bool, f func(r *ckRegs, i, j int) *lab.CV) {
			add(tag, fmt.Sprintf("r%d = "+name+"(r0, r1)", i), func(r *ckRegs) bool {
				if !ok(r.w, r.v[0], r.v[1]) {
					return false
				}
				r.set(i, f(r, 0, 1))
				return true
			})
		}
		bin("acr", "add", canAdd, func(r *ckRegs, i, j int) *lab.CV { return r.w.Add(r.v[i], r.v[j]) })
		bin("a", "sub", canAdd, func(r *ckRegs, i, j int) *lab.CV { return r.w.Sub(r.v[i], r.v[j]) })
		bin("ah", "mul", canMul, func(r *ckRegs, i, j int) *lab.CV { return r.w.Mul(r.v[i], r.v[j]) })
		bin("ah", "hoisted mul", canMul, func(r *ckRegs, i, j int) *lab.CV {
			h := [2]*mkrlwe.HoistedCiphertext{r.h[i], r.h[j]}
			return r.w.MulModel(r.v[i], r.v[j], r.w.Ev.MulRelinHoistedNew(r.v[i].CT, r.v[j].CT, h[0], h[1], r.w.Rlk))
		})
		add("ah", fmt.Sprintf("r%d = square r%d", i, i), func(r *ckRegs) bool {
			if !canMul(r.w, r.v[i], r.v[i]) {
				return false
			}
			r.set(i, r.w.Mul(r.v[i], r.v[i]))
			return true
		})
		add("a", fmt.Sprintf("r%d = r%d * plaintext", i, i), func(r *ckRegs) bool {
			v := lab.Vec(r.w.Slots(), 9)
			if !r.w.CanMulPtxt(r.v[i], v) {
				return false
			}
			r.set(i, r.w.MulPtxt(r.v[i], v))
			return true
		})
	}
	return ops
}

// ckRegisters explores every history of a length over the operations of the given families.
func ckRegisters(l lab.Lit, tags string, depth int, first int) func(x *mc.X) {
	ops := ckRegOps(tags)
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		r := &ckRegs{w: w}
		r.v[0] = w.Encrypt(lab.Vec(w.Slots(), 1), c.IDs[0], max)
		r.v[1] = w.Encrypt(lab.Vec(w.Slots(), 2), c.IDs[1], max)
		for d := 0; d < depth; d++ {
			k := first
			if d > 0 {
				k = x.Choose("operation", len(ops))
			}
			x.Step("%s", ops[k].name)
			if !ops[k].do(r) {
				x.Skip()
			}
			for i, v := range r.v {
				w.Check(v, fmt.Sprintf("variable %d after %s", i, ops[k].name))
			}
		}
		x.Assert(c.Intact(), "the history changed the keys or the parameters")
	}
}

func ckRegUnits(us []mc.Unit, tags string, depth int, ls ...lab.Lit) []mc.Unit {
	for _, l := range ls {
		for f, op := range ckRegOps(tags) {
			us = append(us, mc.Unit{Name: fmt.Sprintf("variables/%s/d%d/%s", l.Name, depth, op.name), Body: ckRegisters(l, tags, depth, f)})
		}
	}
	return us
}

type bfRegs struct {
	w *lab.BWorld
	v [2]*lab.BV
	k int
}

type bfRegOp struct {
	name string
	do   func(r *bfRegs) bool
}

func bfRegOps(tags string) []bfRegOp {
	var ops []bfRegOp
	add := func(tag, name string, do func(r *bfRegs) bool) {
		for _, t := range tag {
			for _, u := range tags {
				if t == u {
					ops = append(ops, bfRegOp{name, do})
					return
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		i := i
		add("aich", fmt.Sprintf("encrypt into r%d", i), func(r *bfRegs) bool {
			id := r.w.C.IDs[i]
			a := r.v[i]
			if !has(a.IDs, id) {
				return false
			}
			r.k++
			msg := mkbfv.NewMessage(r.w.C.Params)
			v := r.w.BVec(3 + r.k)
			copy(msg.Value, v)
			r.w.Enc.EncryptMsg(msg, r.w.C.PK[id], a.CT)
			f := r.w.Fresh(v, id, a.CT)
			f.IDs = a.IDs
			r.v[i] = f
			return true
		})
		add("aich", fmt.Sprintf("load r%d", i), func(r *bfRegs) bool {
			// the residues are overwritten by those of a fresh ciphertext
			id := r.w.C.IDs[i]
			a := r.v[i]
			if len(a.IDs) != 1 || a.IDs[0] != id {
				return false
			}
			r.k++
			f := r.w.Encrypt(r.w.BVec(3+r.k), id)
			for n, p := range f.CT.Value {
				for m := range p.Coeffs {
					copy(a.CT.Value[n].Coeffs[m], p.Coeffs[m])
				}
			}
			f.CT = a.CT
			r.v[i] = f
			return true
		})
		for j := 0; j < 2; j++ {
			i, j := i, j
			add("ac", fmt.Sprintf("r%d = swap r%d", j, i), func(r *bfRegs) bool {
				r.v[j] = r.w.Conj(r.v[i])
				return true
			})
			for _, k := range []int{1, -3} {
				k := k
				add("ar", fmt.Sprintf("r%d = rot r%d %d", j, i, k), func(r *bfRegs) bool {
					r.v[j] = r.w.Rot(r.v[i], k)
					return true
				})
			}
			add("ah", fmt.Sprintf("r%d = r%d * r%d", i, i, j), func(r *bfRegs) bool {
				if !r.w.Fits(r.w.MulModel(r.v[i], r.v[j], nil)) {
					return false
				}
				r.v[i] = r.w.Mul(r.v[i], r.v[j])
				return true
			})
		}
		add("acrh", fmt.Sprintf("r%d = r0 + r1", i), func(r *bfRegs) bool {
			r.v[i] = r.w.Add(r.v[0], r.v[1])
			return true
		})
		add("acrh", fmt.Sprintf("r%d = r1 - r0", i), func(r *bfRegs) bool {
			r.v[i] = r.w.Sub(r.v[1], r.v[0])
			return true
		})
	}
	return ops
}

func bfRegisters(l lab.Lit, tags string, depth int, first int) func(x *mc.X) {
	ops := bfRegOps(tags)
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		r := &bfRegs{w: w}
		r.v[0], r.v[1] = w.Encrypt(w.BVec(1), c.IDs[0]), w.Encrypt(w.BVec(2), c.IDs[1])
		for d := 0; d < depth; d++ {
			k := first
			if d > 0 {
				k = x.Choose("operation", len(ops))
			}
			x.Step("%s", ops[k].name)
			if !ops[k].do(r) {
				x.Skip()
			}
			for i, v := range r.v {
				if !w.Fits(v) {
					x.Skip()
				}
				w.Check(v, fmt.Sprintf("variable %d after %s", i, ops[k].name))
			}
		}
		x.Assert(c.Intact(), "the history changed the keys or the parameters")
	}
}

func bfRegUnits(us []mc.Unit, tags string, depth int, ls ...lab.Lit) []mc.Unit {
	for _, l := range ls {
		for f, op := range bfRegOps(tags) {
			us = append(us, mc.Unit{Name: fmt.Sprintf("variables/%s/d%d/%s", l.Name, depth, op.name), Body: bfRegisters(l, tags, depth, f)})
		}
	}
	return us
}
