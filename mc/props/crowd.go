package props

import (
	"fmt"

	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// Crowds: the same properties with ciphertexts of up to twelve parties.

// crowdSets lists the subsets of a crowd that are enumerated: everybody, the first k, the last k,
// everybody but one, one alone, every other one.
func crowdSets(ids []string) (out [][]string) {
	n := len(ids)
	out = append(out, ids)
	for k := n - 1; k > 1; k-- {
		out = append(out, ids[:k], ids[n-k:])
	}
	for i := range ids {
		out = append(out, without(ids, ids[i]), ids[i:i+1])
	}
	for p := 0; p < 2; p++ {
		var o []string
		for i := p; i < n; i += 2 {
			o = append(o, ids[i])
		}
		out = append(out, o)
	}
	return
}

func fewCrowdSets(ids []string) [][]string {
	n := len(ids)
	s := crowdSets(ids)
	return [][]string{ids, ids[:1], ids[n-1:], ids[:8], ids[:9], ids[n-9:], ids[1:], s[len(s)-1], s[len(s)-2]}
}

// c05CrowdCkks: operations on operands of every pair of these subsets.
func c05CrowdCkks(l lab.Lit, op string) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		top := c.Params.MaxLevel()
		all, few := crowdSets(c.IDs), fewCrowdSets(c.IDs)
		a := ckSum(w, all[x.Choose("parties a", len(all))], top, 1)
		b := ckSum(w, few[x.Choose("parties b", len(few))], top-x.Choose("level b", 2), 4)
		if x.Bool("swapped") {
			a, b = b, a
		}
		var r *lab.CV
		switch op {
		case "add":
			r = w.Add(a, b)
		case "sub":
			r = w.Sub(a, b)
		case "mul":
			r = w.Mul(a, b)
		case "mulhoisted":
			r = w.MulHoisted(a, b)
		}
		if op[0] == 'm' && !w.CanMul(a, b) {
			w.CheckBook(r, op)
		} else {
			w.Check(r, op)
		}
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
	}
}

func c05CrowdBfv(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		all, few := crowdSets(c.IDs), fewCrowdSets(c.IDs)
		a := bfSum(w, all[x.Choose("parties a", len(all))], 1)
		b := bfSum(w, few[x.Choose("parties b", len(few))], 4)
		if x.Bool("swapped") {
			a, b = b, a
		}
		var r *lab.BV
		switch x.Choose("op", 3) {
		case 0:
			r = w.Add(a, b)
		case 1:
			r = w.Sub(a, b)
		case 2:
			r = w.Mul(a, b)
		}
		if w.Fits(r) {
			w.Check(r, "result")
		} else {
			w.CheckBook(r, "result")
		}
		w.Check(a, "operand a afterwards")
		w.Check(b, "operand b afterwards")
	}
}

// c08CrowdCkks: a ciphertext of many parties and a key set from which one key is missing, or that
// has one key only, or exactly those that are needed.
func c08CrowdCkks(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		few := fewCrowdSets(c.IDs)
		a := ckSum(w, few[x.Choose("parties", len(few))], c.Params.MaxLevel(), 1)
		all := crowdSets(c.IDs)
		have := all[x.Choose("keys", len(all))]
		kind := x.Choose("set", 2)
		ok := covers(have, a.IDs)
		var r *lab.CV
		ver := func() { w.Check(r, "result") }
		what := fmt.Sprintf(" of %v with the keys of %v", a.IDs, have)
		switch op := x.Choose("op", 7); op {
		case 0, 1, 2:
			b := ckSum(w, c.IDs[4:5], c.Params.MaxLevel(), 3)
			set := rlkSub(c, have, kind)
			expect(x, ok && has(have, c.IDs[4]), false, "product"+what, func() {
				switch op {
				case 0:
					r = w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, set))
				case 1:
					r = w.MulModel(b, a, w.Ev.MulRelinNew(b.CT, a.CT, set))
				case 2:
					r = w.MulModel(b, a, w.Ev.MulRelinHoistedNew(b.CT, a.CT, nil, w.Ev.HoistedForm(a.CT), set))
				}
			}, func() {
				if w.CanMul(a, b) {
					w.Check(r, "product")
				}
			})
		case 3:
			set := cjkSub(&c.Keys, have, kind)
			expect(x, ok, false, "conjugation"+what, func() { r = w.ConjModel(a, w.Ev.ConjugateNew(a.CT, set)) }, ver)
		case 4, 5:
			k := []int{1, 3}[op-4]
			set := rtkSub(&c.Keys, func(id string, _ int) bool { return has(have, id) }, kind)
			expect(x, ok, false, fmt.Sprintf("rotation by %d%s", k, what), func() { r = w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, set)) }, ver)
		case 6:
			set := skSub(&c.Keys, have, kind)
			expect(x, ok, false, "decryption"+what, func() { w.CheckMsg(w.Dec.Decrypt(a.CT, set), a, "decryption") }, func() {})
		}
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the operation changed the keys or the parameters")
	}
}

func c08CrowdBfv(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		few := fewCrowdSets(c.IDs)
		a := bfSum(w, few[x.Choose("parties", len(few))], 1)
		all := crowdSets(c.IDs)
		have := all[x.Choose("keys", len(all))]
		kind := x.Choose("set", 2)
		ok := covers(have, a.IDs)
		var r *lab.BV
		ver := func() {
			if w.Fits(r) {
				w.Check(r, "result")
			} else {
				w.CheckBook(r, "result")
			}
		}
		what := fmt.Sprintf(" of %v with the keys of %v", a.IDs, have)
		switch op := x.Choose("op", 5); op {
		case 0, 1:
			b := w.Encrypt(w.BVec(3), c.IDs[4])
			set := brlkSub(c, have, kind)
			if op == 1 {
				a, b = b, a
			}
			expect(x, ok && has(have, c.IDs[4]), false, "product"+what, func() { r = w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, set)) }, ver)
		case 2:
			set := cjkSub(&c.Keys, have, kind)
			expect(x, ok, false, "row swap"+what, func() { r = w.ConjModel(a, w.Ev.ConjugateNew(a.CT, set)) }, ver)
		case 3:
			set := rtkSub(&c.Keys, func(id string, _ int) bool { return has(have, id) }, kind)
			expect(x, ok, false, "rotation by 3"+what, func() { r = w.RotModel(a, 3, w.Ev.RotateNew(a.CT, 3, set)) }, ver)
		case 4:
			set := skSub(&c.Keys, have, kind)
			expect(x, ok, false, "decryption"+what, func() { w.CheckMsg(w.Dec.Decrypt(a.CT, set), a, "decryption") }, func() {})
		}
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the operation changed the keys or the parameters")
	}
}

// crowdOrder: who decrypts partially, in which order: the first k in order, in reverse, from the
// middle on, every other one first.
func crowdOrder(x *mc.X, ids []string) []string {
	n := len(ids)
	var o []string
	switch x.Choose("order", 4) {
	case 0:
		o = append(o, ids...)
	case 1:
		for i := n - 1; i >= 0; i-- {
			o = append(o, ids[i])
		}
	case 2:
		o = append(append(o, ids[n/2:]...), ids[:n/2]...)
	case 3:
		for p := 0; p < 2; p++ {
			for i := p; i < n; i += 2 {
				o = append(o, ids[i])
			}
		}
	}
	return o[:x.Choose("how many", n+1)]
}

func c09CrowdCkks(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		few := fewCrowdSets(c.IDs)
		a := ckSource(w, few[x.Choose("parties", len(few))], c.Params.MaxLevel(), []int{0, 1, 3, 6}[x.Choose("history", 4)])
		if !w.Fits(a.Mag, a.Err, a.Scale, a.Level) {
			x.Skip()
		}
		w.Check(a, "joint decryption")
		left := *a
		left.CT = a.CT.CopyNew()
		for _, id := range crowdOrder(x, a.IDs) {
			w.Dec.PartialDecrypt(left.CT, c.SK[id])
			x.Step("PartialDecrypt(%s)", id)
			left.IDs = without(left.IDs, id)
			w.CheckBook(&left, "partial decryption by "+id)
		}
		w.CheckMsg(w.Dec.Decrypt(left.CT, c.SKSet(append(append([]string{}, left.IDs...), c.IDs[0])...)), a, fmt.Sprintf("decryption by %v of what the others decrypted partially", left.IDs))
		w.Check(a, "joint decryption afterwards")
	}
}

func c09CrowdBfv(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		few := fewCrowdSets(c.IDs)
		a := bfSum(w, few[x.Choose("parties", len(few))], 1)
		if x.Bool("swapped rows") {
			a = w.Conj(a)
		}
		w.Check(a, "joint decryption")
		left := *a
		left.CT = a.CT.CopyNew()
		for _, id := range crowdOrder(x, a.IDs) {
			w.Dec.PartialDecrypt(left.CT, c.SK[id])
			x.Step("PartialDecrypt(%s)", id)
			left.IDs = without(left.IDs, id)
			w.CheckBook(&left, "partial decryption by "+id)
		}
		w.CheckMsg(w.Dec.Decrypt(left.CT, c.SKSet(append(append([]string{}, left.IDs...), c.IDs[0])...)), a, "decryption after partial decryptions")
		w.Check(a, "joint decryption afterwards")
	}
}

// crowdAuto: rotations (dedicated, composed, hoisted) and conjugations of ciphertexts of these subsets.
func crowdAuto(l lab.Lit, conj bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		all := crowdSets(c.IDs)
		a := ckSum(w, all[x.Choose("parties", len(all))], c.Params.MaxLevel()-x.Choose("dropped", 2), 1)
		if conj {
			b := w.Conj(a)
			w.Check(b, "conjugation")
			w.Check(w.Conj(b), "conjugation twice")
			w.Check(w.Add(a, b), "twice the real part")
		} else {
			k := x.Choose("index", c.Params.N()/2)
			w.Check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
			if _, ok := c.Params.CRS[k]; ok || k == 0 {
				w.Check(w.RotHoisted(a, k), fmt.Sprintf("hoisted rotation by %d", k))
			}
		}
		w.Check(a, "operand afterwards")
	}
}

func crowdAutoBfv(l lab.Lit, conj bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		all := crowdSets(c.IDs)
		a := bfSum(w, all[x.Choose("parties", len(all))], 1)
		if conj {
			b := w.Conj(a)
			w.Check(b, "row swap")
			w.Check(w.Conj(b), "row swap twice")
		} else {
			k := x.Choose("index", c.Params.N()/2)
			w.Check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
		}
		w.Check(a, "operand afterwards")
	}
}

// c12CrowdCkks: products with any combination of forms.
func c12CrowdCkks(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		all, few := crowdSets(c.IDs), fewCrowdSets(c.IDs)
		a := ckSum(w, all[x.Choose("parties a", len(all))], c.Params.MaxLevel(), 1)
		b := ckSum(w, few[x.Choose("parties b", len(few))], c.Params.MaxLevel(), 4)
		f := x.Choose("forms", 4)
		var ha, hb *mkrlwe.HoistedCiphertext
		if f&1 == 1 {
			ha = w.Ev.HoistedForm(a.CT)
		}
		if f&2 == 2 {
			hb = w.Ev.HoistedForm(b.CT)
		}
		for i := 0; i < 2; i++ {
			r := w.MulModel(a, b, w.Ev.MulRelinHoistedNew(a.CT, b.CT, ha, hb, w.Rlk))
			if w.CanMul(a, b) {
				w.Check(r, "hoisted product")
			} else {
				w.CheckBook(r, "hoisted product")
			}
			a, b, ha, hb = b, a, hb, ha
		}
	}
}
