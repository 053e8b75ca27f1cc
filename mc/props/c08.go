package props

import (
	"fmt"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C08: a missing key is reported, an unneeded one is never required.

// sub0 lists the ids of a possibly empty subset.
func sub0(ids []string, k int) []string {
	var out []string
	for i, id := range ids {
		if k>>uint(i)&1 == 1 {
			out = append(out, id)
		}
	}
	return out
}

func has(ids []string, id string) bool {
	for _, i := range ids {
		if i == id {
			return true
		}
	}
	return false
}

func covers(have, need []string) bool {
	for _, id := range need {
		if !has(have, id) {
			return false
		}
	}
	return true
}

func bfSum(w *lab.BWorld, ids []string, k int) *lab.BV {
	var acc *lab.BV
	for i, id := range ids {
		e := w.Encrypt(w.BVec(k+i), id)
		if acc == nil {
			acc = e
		} else {
			acc = w.Add(acc, e)
		}
	}
	return acc
}

// setKind: how the subset of the keys came about.
var setKinds = []string{"added", "deleted"}

func rlkSub(c *lab.CK, have []string, kind int) *mkrlwe.RelinearizationKeySet {
	s := mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters)
	for _, id := range c.IDs {
		if kind == 1 || has(have, id) {
			s.AddRelinearizationKey(c.Rlk[id])
		}
	}
	for _, id := range c.IDs {
		if !has(have, id) {
			s.DelRelinearizationKey(id)
		}
	}
	return s
}

func brlkSub(c *lab.BF, have []string, kind int) *mkbfv.RelinearizationKeySet {
	s := mkbfv.NewRelinearizationKeyKeySet(c.Params)
	for _, id := range c.IDs {
		if kind == 1 || has(have, id) {
			s.AddRelinearizationKey(c.Rlk[id])
		}
	}
	for _, id := range c.IDs {
		if !has(have, id) {
			s.DelRelinearizationKey(id)
		}
	}
	return s
}

func skSub(k *lab.Keys, have []string, kind int) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, id := range k.IDs {
		if kind == 1 || has(have, id) {
			s.AddSecretKey(k.SK[id])
		}
	}
	for _, id := range k.IDs {
		if !has(have, id) {
			s.DelSecretKey(id)
		}
	}
	return s
}

func cjkSub(k *lab.Keys, have []string, kind int) *mkrlwe.ConjugationKeySet {
	s := mkrlwe.NewConjugationKeySet()
	for _, id := range k.IDs {
		if kind == 1 || has(have, id) {
			s.AddConjugationKey(k.Cjk[id])
		}
	}
	for _, id := range k.IDs {
		if !has(have, id) {
			s.DelConjugationKey(id)
		}
	}
	return s
}

// rtkSub holds the rotation keys of indices rots of the parties have, and all keys of the others.
func rtkSub(k *lab.Keys, keep func(id string, r int) bool, kind int) *mkrlwe.RotationKeySet {
	s := mkrlwe.NewRotationKeySet()
	for _, id := range k.IDs {
		for _, r := range lab.RotsOf(k, id) {
			if kind == 1 || keep(id, r) {
				s.AddRotationKey(k.Rtk[id][r])
			}
		}
	}
	for _, id := range k.IDs {
		for _, r := range lab.RotsOf(k, id) {
			if !keep(id, r) {
				s.DelRotationKey(id, uint(r))
			}
		}
	}
	return s
}

// expect runs f: it must panic unless the needed keys are there. With alt, the
// operation may also succeed by other means.
func expect(x *mc.X, present, alt bool, what string, f func(), verify func()) {
	p, v := mc.Panics(f)
	x.Step("%s: needed keys present: %v", what, present)
	switch {
	case present && p:
		x.Fail("%s fails although the needed keys are present: %v", what, v)
	case !present && !p && !alt:
		x.Fail("%s returns a result although a needed key is missing", what)
	}
	if !p {
		verify()
	}
}

func c08Ckks(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		ids := c.IDs[:n]
		level := c.Params.MaxLevel() - x.Choose("dropped", 2)
		a := ckSum(w, subset(ids, x.Choose("parties a", 1<<uint(n)-1)), level, 1)
		op := x.Choose("op", 5)
		kind := x.Choose("set", 2)
		have := sub0(ids, x.Choose("keys", 1<<uint(n)))
		var r *lab.CV
		ver := func(what string) func() {
			return func() {
				w.Check(r, what)
			}
		}
		switch op {
		case 0, 1:
			b := ckSum(w, subset(ids, x.Choose("parties b", 1<<uint(n)-1)), c.Params.MaxLevel(), 3)
			set := rlkSub(c, have, kind)
			ok := covers(have, a.IDs) && covers(have, b.IDs)
			if op == 0 {
				expect(x, ok, false, fmt.Sprintf("product of %v and %v with the relinearization keys of %v", a.IDs, b.IDs, have), func() {
					r = w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, set))
				}, ver("mul"))
			} else {
				ha, hb := w.Ev.HoistedForm(a.CT), w.Ev.HoistedForm(b.CT)
				expect(x, ok, false, fmt.Sprintf("hoisted product of %v and %v with the relinearization keys of %v", a.IDs, b.IDs, have), func() {
					r = w.MulModel(a, b, w.Ev.MulRelinHoistedNew(a.CT, b.CT, ha, hb, set))
				}, ver("mulhoisted"))
			}
		case 2:
			set := rlkSub(c, have, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("square of %v with the relinearization keys of %v", a.IDs, have), func() {
				r = w.MulModel(a, a, w.Ev.MulRelinNew(a.CT, a.CT, set))
			}, ver("square"))
		case 3:
			set := cjkSub(&c.Keys, have, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("conjugation of %v with the keys of %v", a.IDs, have), func() {
				r = w.ConjModel(a, w.Ev.ConjugateNew(a.CT, set))
			}, ver("conj"))
		case 4:
			set := skSub(&c.Keys, have, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("decryption of %v with the keys of %v", a.IDs, have), func() {
				m := w.Dec.Decrypt(a.CT, set)
				w.CheckMsg(m, a, "decryption")
			}, func() {})
		}
		// a failed call leaves everything as it was
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the operation changed the keys or the parameters")
	}
}

// c08Rot: rotations with every subset of the rotation keys, per party and index.
func c08Rot(l lab.Lit, k int, hoisted bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		ids := c.IDs[:2]
		a := ckSum(w, subset(ids, x.Choose("parties", 3)), c.Params.MaxLevel(), 1)
		rots := lab.RotsOf(&c.Keys, ids[0])
		ma := x.Choose("keys of the first party", 1<<uint(len(rots)))
		mb := x.Choose("keys of the second party", 1<<uint(len(rots)))
		kind := x.Choose("set", 2)
		pos := func(r int) uint {
			for i := range rots {
				if rots[i] == r {
					return uint(i)
				}
			}
			return 99
		}
		keep := func(id string, r int) bool {
			m := ma
			if id != ids[0] {
				m = mb
			}
			return m>>pos(r)&1 == 1
		}
		set := rtkSub(&c.Keys, keep, kind)
		half := c.Params.N() / 2
		n := ((k % half) + half) % half
		direct, comp := true, true
		for _, id := range a.IDs {
			direct = direct && (n == 0 || keep(id, n))
			for j := 0; 1<<uint(j) < half; j++ {
				if n>>uint(j)&1 == 1 {
					comp = comp && keep(id, 1<<uint(j))
				}
			}
		}
		_, ded := c.Params.CRS[n]
		var r *lab.CV
		what := fmt.Sprintf("rotation of %v by %d with keys %b and %b of the indices %v", a.IDs, k, ma, mb, rots)
		if hoisted {
			h := w.Ev.HoistedForm(a.CT)
			ok := n == 0 || ded && direct
			expect(x, ok, direct || comp, "hoisted "+what, func() {
				r = w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, h, set))
			}, func() { w.Check(r, "rothoisted") })
			return
		}
		// with a reference string for the index its own key is needed, or else the powers of two
		ok := n == 0 || ded && direct || !ded && comp
		expect(x, ok, direct || comp, what, func() {
			r = w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, set))
		}, func() { w.Check(r, "rot") })
		w.Check(a, "operand afterwards")
	}
}

// c08Free: operations that need no keys.
func c08Free(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		w.Rtk, w.Cjk, w.Rlk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet(), mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters)
		a := ckSum(w, subset(c.IDs[:2], x.Choose("parties a", 3)), c.Params.MaxLevel(), 1)
		b := ckSum(w, subset(c.IDs[:2], x.Choose("parties b", 3)), c.Params.MaxLevel(), 1)
		var r *lab.CV
		switch x.Choose("op", 8) {
		case 0:
			r = w.Add(a, b)
		case 1:
			r = w.Sub(a, b)
		case 2:
			r = w.MulConst(a, -2)
		case 3:
			r = w.MulPtxt(a, lab.Vec(w.Slots(), 9))
		case 4:
			r = w.Rot(a, 0)
		case 5:
			r = w.Rot(a, -c.Params.N())
		case 6:
			r = w.Drop(a, 1)
		case 7:
			w.Ev.HoistedForm(a.CT)
			r = w.Copy(a)
		}
		w.Check(r, "operation without keys")
	}
}

func c08Bfv(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		ids := c.IDs[:n]
		a := bfSum(w, subset(ids, x.Choose("parties a", 1<<uint(n)-1)), 1)
		op := x.Choose("op", 6)
		kind := x.Choose("set", 2)
		have := sub0(ids, x.Choose("keys", 1<<uint(n)))
		var r *lab.BV
		ver := func() {
			if w.Fits(r) {
				w.Check(r, "result")
			} else {
				w.CheckBook(r, "result")
			}
		}
		switch op {
		case 0, 1:
			b := a
			if op == 0 {
				b = bfSum(w, subset(ids, x.Choose("parties b", 1<<uint(n)-1)), 3)
			}
			set := brlkSub(c, have, kind)
			ok := covers(have, a.IDs) && covers(have, b.IDs)
			expect(x, ok, false, fmt.Sprintf("product of %v and %v with the relinearization keys of %v", a.IDs, b.IDs, have), func() {
				r = w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, set))
			}, ver)
		case 2:
			set := cjkSub(&c.Keys, have, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("row swap of %v with the keys of %v", a.IDs, have), func() {
				r = w.ConjModel(a, w.Ev.ConjugateNew(a.CT, set))
			}, ver)
		case 3, 4:
			k := []int{0, 0, 0, 1, 3}[op]
			set := rtkSub(&c.Keys, func(id string, _ int) bool { return has(have, id) }, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("rotation of %v by %d with the keys of %v", a.IDs, k, have), func() {
				r = w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, set))
			}, ver)
		case 5:
			set := skSub(&c.Keys, have, kind)
			expect(x, covers(have, a.IDs), false, fmt.Sprintf("decryption of %v with the keys of %v", a.IDs, have), func() {
				w.CheckMsg(w.Dec.Decrypt(a.CT, set), a, "decryption")
			}, func() {})
		}
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the operation changed the keys or the parameters")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C08",
		Bounds: map[string]string{
			"quick":    "every subset of the keys of 3 parties (built by insertion or by deletion), every party set of each operand, every keyed operation of CKKS and BFV, two levels, sets with 15 and 20 primes included; every structured operand and every missing key of 12 parties; every subset of the rotation keys of 2 parties over all indices, for direct, composed and hoisted rotations; every history of 4 events on one instance of every layer: a key is deleted or added back, an operation with that key set, one with a complete set",
			"thorough": "as quick with 4 or 5 parties, more parameter sets, and histories of 5 events",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			th := tier == "thorough"
			add("ckks/a1", c08Ckks(kA1, 3))
			add("ckks/a2", c08Ckks(kA2, 3))
			add("crowd/ckks", c08CrowdCkks(kMany))
			add("crowd/bfv", c08CrowdBfv(bMany))
			add("ckks/wide3", c08Ckks(kWide3, 2))
			add("bfv/wide3", c08Bfv(bWide3, 2))
			add("bfv/b1", c08Bfv(bA1, 3))
			add("bfv/b2", c08Bfv(bA2, 3))
			for _, k := range []int{0, 1, 2, 3, 4, 5, 7, -1, 11} {
				for _, h := range []bool{false, true} {
					add(fmt.Sprintf("rot/%d/%v", k, h), c08Rot(kRot, k, h))
				}
			}
			for _, k := range []int{3, 5, 6, 7, -2} {
				for _, h := range []bool{false, true} {
					add(fmt.Sprintf("rot35/%d/%v", k, h), c08Rot(kRot35, k, h))
				}
			}
			add("free/a1", c08Free(kA1))
			add("free/a2", c08Free(kA2))
			us = c08Histories(us, th)
			if th {
				add("ckks/five", c08Ckks(kFive, 4))
				add("bfv/five", c08Bfv(bFive, 4))
				add("ckks/skew", c08Ckks(kSkew, 3))
				add("bfv/b3", c08Bfv(bA3, 2))
			}
			return us
		},
	})
}
