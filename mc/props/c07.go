package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C07: what an instance processed before never changes its results.

// agree compares the result of a reused instance with the one of a fresh instance.
func (w *actWorld) agree(x *mc.X, a actRec, got, want lab.Out, after string) {
	if !a.rand && got.Sum != want.Sum {
		if got.CT == nil || !w.ring(got, want) {
			if got.CT != nil || got.Verify == nil {
				x.Fail("%s after %s: the result differs from the one of a fresh instance", a.name, after)
			}
		}
	}
	if got.Verify != nil && (a.rand || got.Sum != want.Sum) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(mc.Failure); ok {
						x.Fail("after %s: %s", after, f.Msg)
					}
					panic(r)
				}
			}()
			got.Verify()
		}()
	}
}

func (w *actWorld) reference(x *mc.X, a actRec) lab.Out {
	w.fresh()
	r := a.run()
	if r.Verify != nil {
		r.Verify()
	}
	return r
}

// c07Pair: one act (a failing one included), then every act as a probe.
func c07Pair(mk func(x *mc.X) *actWorld, first int) func(x *mc.X) {
	return func(x *mc.X) {
		w := mk(x)
		a, b := w.acts[first], w.acts[x.Choose("probe", len(w.acts))]
		if b.fail {
			w.fresh()
			w.do(x, a)
			w.do(x, b)
			return
		}
		ref := w.reference(x, b)
		h := hashes(ref.Objs)
		w.fresh()
		w.do(x, a)
		got := w.do(x, b)
		w.agree(x, b, got, ref, a.name)
		unchanged(x, ref.Objs, h, "another instance")
		x.StateHash(uint64(lab.NewH().S(a.name).S(b.name).U(uint64(got.Sum))))
	}
}

// c07Seq: two acts, then all probes one after the other on the same instances.
func c07Seq(mk func(x *mc.X) *actWorld, first int, depth int) func(x *mc.X) {
	var refs []lab.Out
	var env *actWorld
	return func(x *mc.X) {
		if env == nil {
			// the operands and references are the same in every execution and are never modified (C06)
			env = mk(x)
			for _, a := range env.acts {
				if a.fail {
					refs = append(refs, lab.Out{})
				} else {
					refs = append(refs, env.reference(x, a))
				}
			}
		}
		w := env
		w.fresh()
		name := w.acts[first].name
		w.do(x, w.acts[first])
		pos := 3 * first
		for d := 1; d < depth; d++ {
			i := x.Choose("act", len(w.acts))
			got := w.do(x, w.acts[i])
			if !w.acts[i].fail {
				w.agree(x, w.acts[i], got, refs[i], name)
			}
			name += ", " + w.acts[i].name
			pos += i
		}
		for k := range w.acts {
			i := (k + pos) % len(w.acts)
			got := w.do(x, w.acts[i])
			if !w.acts[i].fail {
				w.agree(x, w.acts[i], got, refs[i], fmt.Sprintf("%s and the %d acts from %s on", name, k, w.acts[pos%len(w.acts)].name))
			}
			if depth < 3 || k == 0 {
				x.StateHash(uint64(lab.NewH().S(name).U(uint64(i)).U(uint64(got.Sum))))
			}
		}
	}
}

// c07Changed: one act; then either the operands take other values in place, or
// the parties take other keys; every act as a probe; then everything is changed
// back and the first act is repeated.
func c07Changed(mk func(x *mc.X) *actWorld, first int, keys bool) func(x *mc.X) {
	var env, second *actWorld
	var use func(k int)
	var refs [2][]lab.Out
	return func(x *mc.X) {
		if env == nil {
			env = mk(x)
			if keys {
				second, use = env.other()
			} else {
				second, use = env, env.changer()
			}
			for k, w := range []*actWorld{env, second} {
				if !keys {
					use(k)
				}
				for i, a := range w.acts {
					var o lab.Out
					if !a.fail && (k == 1 || i == first) {
						o = w.reference(x, a)
					}
					refs[k] = append(refs[k], o)
				}
			}
			if !keys {
				use(0)
			}
		}
		what := "the operands changed in place"
		if keys {
			what = "the parties took other keys"
		}
		i := x.Choose("probe", len(env.acts))
		a, b := env.acts[first], second.acts[i]
		env.fresh()
		env.do(x, a)
		use(1)
		x.Step("%s", what)
		got := second.do(x, b)
		if !b.fail {
			second.agree(x, b, got, refs[1][i], a.name+", after which "+what)
		}
		use(0)
		x.Step("back")
		again := env.do(x, a)
		if !a.fail {
			env.agree(x, a, again, refs[0][first], a.name+" and "+b.name+", before and after which "+what)
		}
		x.StateHash(uint64(lab.NewH().S(a.name).S(b.name).S(what).U(uint64(got.Sum)).U(uint64(again.Sum))))
	}
}

// c07Long: one act many times, and then every act after every other act, on
// one set of instances that is never renewed.
func c07Long(mk func(x *mc.X) *actWorld, act, times int) func(x *mc.X) {
	return func(x *mc.X) {
		w := mk(x)
		refs := make([]*lab.Out, len(w.acts))
		for i, a := range w.acts {
			if !a.fail && (act < 0 || i == act) {
				o := w.reference(x, a)
				refs[i] = &o
			}
		}
		w.fresh()
		do := func(i, n int) {
			got := w.do(x, w.acts[i])
			if refs[i] != nil {
				w.agree(x, w.acts[i], got, *refs[i], fmt.Sprintf("%d earlier operations", n))
			}
		}
		if act >= 0 {
			for n := 0; n < times; n++ {
				do(act, n)
			}
			x.StateHash(uint64(lab.NewH().S(w.acts[act].name).U(uint64(times))))
			return
		}
		// a closed walk through every ordered pair: for every step size, around the circle
		k, n := len(w.acts), 0
		for d := 1; d < k; d++ {
			g := gcd(d, k)
			for s := 0; s < g; s++ {
				for i, j := 0, s; i <= k/g; i, j = i+1, (j+d)%k {
					do(j, n)
					n++
				}
			}
			x.StateHash(uint64(lab.NewH().S("walk").U(uint64(d))))
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// c07Out: ciphertexts given as receivers may have any content, level permitting.
func c07Out(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		p := c.Params
		max := p.MaxLevel()
		used := func(level int, ids ...string) *mkckks.Ciphertext {
			ct := mkckks.NewCiphertext(p, lab.Set(ids...), level, 12345)
			lab.ObjCK("", ct).Scribble()
			return ct
		}
		level := x.Choose("level", max+1)
		switch x.Choose("operation", 3) {
		case 0: // encryption into a used ciphertext, with other parties' components
			parts := x.Choose("other parties", 1<<uint(len(c.IDs)))
			var ids []string
			for i, id := range c.IDs {
				if parts>>uint(i)&1 == 1 {
					ids = append(ids, id)
				}
			}
			id := c.IDs[x.Choose("party", len(c.IDs))]
			ct := used(level, append(ids, id)...)
			msg := mkckks.NewMessage(p)
			copy(msg.Value, lab.Vec(w.Slots(), 3))
			if x.Bool("ntt") {
				for _, v := range ct.Value {
					v.IsNTT = true
				}
			}
			w.Enc.EncryptMsg(msg, c.PK[id], ct)
			x.Step("EncryptMsg(%s) into a used ciphertext of %v", id, ids)
			v := w.Dec.Decrypt(ct, w.SKs)
			r := &lab.CV{CT: ct, V: lab.Vec(w.Slots(), 3), Mag: 2, Err: w.Encrypt(lab.Vec(w.Slots(), 3), id, level).Err}
			w.CheckMsg(v, r, "encryption into a used ciphertext")
		case 1: // MultByConst into a used ciphertext, possibly the operand
			a := ckSum(w, c.IDs[:2], level, 1)
			k := []interface{}{-3, 0, 2.0, complex(1, 1), complex(0, 2)}[x.Choose("constant", 5)]
			o := w.MulConstModel(a, k, level, nil)
			if !w.Fits(o.Mag, o.Err, o.Scale, o.Level) {
				x.Skip()
			}
			if x.Bool("in place") {
				o.CT = a.CT
			} else {
				o.CT = used(level, c.IDs[:2]...)
			}
			w.Ev.MultByConst(a.CT, k, o.CT)
			x.Step("MultByConst(%v) into a used ciphertext", k)
			w.Check(o, "MultByConst into a used ciphertext")
		case 2: // Rescale into a used ciphertext, possibly the operand
			if level == 0 {
				x.Skip()
			}
			a := ckSum(w, c.IDs[:2], level, 1)
			k := []interface{}{0.75, 3}[x.Choose("constant", 2)]
			w.Ev.MultByConst(a.CT, k, a.CT)
			a = w.MulConstModel(a, k, level, a.CT)
			o := w.RescaleModel(a, p.Scale(), nil)
			if !w.Fits(o.Mag, o.Err, o.Scale, o.Level) || !w.Fits(a.Mag, a.Err, a.Scale, a.Level) {
				x.Skip()
			}
			if x.Bool("in place") {
				o.CT = a.CT
			} else {
				o.CT = used(level, c.IDs[:2]...)
			}
			if err := w.Ev.Rescale(a.CT, p.Scale(), o.CT); err != nil {
				x.Fail("Rescale: %v", err)
			}
			x.Step("Rescale into a used ciphertext")
			w.Check(o, "Rescale into a used ciphertext")
		}
		x.Assert(c.Intact(), "the operation changed the keys or the parameters")
	}
}

// c07OutB: the same for BFV encryption.
func c07OutB(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		var ids []string
		parts := x.Choose("other parties", 1<<uint(len(c.IDs)))
		for i, id := range c.IDs {
			if parts>>uint(i)&1 == 1 {
				ids = append(ids, id)
			}
		}
		id := c.IDs[x.Choose("party", len(c.IDs))]
		ids = append(ids, id)
		ct := mkbfv.NewCiphertext(c.Params, lab.Set(ids...))
		if x.Bool("ntt") {
			ct = mkbfv.NewCiphertextNTT(c.Params, lab.Set(ids...))
		}
		lab.ObjBF("", ct).Scribble()
		msg := mkbfv.NewMessage(c.Params)
		copy(msg.Value, w.BVec(3))
		w.Enc.EncryptMsg(msg, c.PK[id], ct)
		x.Step("EncryptMsg(%s) into a used ciphertext of %v", id, ids)
		w.CheckMsg(w.Dec.Decrypt(ct, w.SKs), w.Fresh(w.BVec(3), id, ct), "encryption into a used ciphertext")
	}
}

// c07Ksw: the key switcher writes its receiver whatever it contained, and its
// results do not depend on the calls made before.
func c07Ksw(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetRL(l)
		p := c.Params
		r := p.RingQ()
		max := p.MaxLevel()
		enc := mkrlwe.NewEncryptor(p)
		fresh := func(level int, ids ...string) *mkrlwe.Ciphertext {
			acc := mkrlwe.NewCiphertext(p, lab.Set(ids...), level)
			for _, id := range ids {
				t := mkrlwe.NewCiphertext(p, lab.Set(id), level)
				enc.Encrypt(rlwe.NewPlaintext(p.Parameters, level), c.PK[id], t)
				for k, v := range t.Value {
					r.AddLvl(level, acc.Value[k], v, acc.Value[k])
				}
			}
			return acc
		}
		ids := c.IDs[:2]
		lo := x.Choose("low level", max+1)
		ops := map[int][]*mkrlwe.Ciphertext{}
		for _, lv := range []int{max, lo} {
			ops[lv] = []*mkrlwe.Ciphertext{fresh(lv, ids...), fresh(lv, ids[1])}
		}
		call := func(ks *mkrlwe.KeySwitcher, op, lv int, out *mkrlwe.Ciphertext) {
			a, b := ops[lv][0], ops[lv][1]
			switch op {
			case 0:
				ks.MulAndRelin(a, b, c.RlkSet(), out)
			case 1:
				ks.Rotate(a, 1, c.RtkSet(), out)
			case 2:
				ks.Rotate(a, 2, c.RtkSet(), out)
			case 3:
				ks.Conjugate(a, c.CjkSet(), out)
			case 4:
				ks.Rotate(a, 4-p.N()/2, c.RtkSet(), out)
			}
		}
		// probe
		op := x.Choose("operation", 5)
		lv := []int{max, lo}[x.Choose("level", 2)]
		want := mkrlwe.NewCiphertext(p, lab.Set(ids...), lv)
		call(mkrlwe.NewKeySwitcher(p), op, lv, want)
		// history
		ks := mkrlwe.NewKeySwitcher(p)
		for i := 0; i < 2; i++ {
			hop := x.Choose("earlier operation", 6)
			if hop == 5 {
				mc.Panics(func() {
					ks.MulAndRelin(ops[max][0], ops[max][1], c.RlkSet(ids[0]), mkrlwe.NewCiphertext(p, lab.Set(ids...), max))
				})
				continue
			}
			hl := []int{max, lo}[x.Choose("earlier level", 2)]
			call(ks, hop, hl, mkrlwe.NewCiphertext(p, lab.Set(ids...), hl))
		}
		got := mkrlwe.NewCiphertext(p, lab.Set(ids...), lv)
		lab.ObjRL("", got).Scribble()
		call(ks, op, lv, got)
		x.Step("operation %d at level %d", op, lv)
		if lab.Canon(r, got) != lab.Canon(r, want) && !lab.Close(r, got, want) {
			x.Fail("key switcher operation %d at level %d: the result on a reused instance and receiver differs from the one on fresh ones", op, lv)
		}
		x.StateHash(uint64(lab.Canon(r, got)))
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C07",
		Bounds: map[string]string{
			"quick":    "every ordered pair of 78 CKKS, 51 BFV and 52 generic-layer operations (failing calls included) on one set of instances against fresh instances, on 6 + 3 + 2 parameter sets, and of 6 runs of the CNN layers with each of 84 operations; the same pairs with all operands taking other values in place, or all parties taking other keys (same names, same instances, same key collections), between the two operations, and the first one repeated after everything is changed back; every pair followed by every operation in a rotating order on 2 + 3 + 2 sets; receivers with arbitrary content; histories of depth 2 over 6 party sets x operations x levels with 4 of 5 parties, and over structured sets of 12 parties; every operation 2000 times, and a walk through all ordered pairs, on instances that are never renewed",
			"thorough": "as quick on 10 + 6 + 6 sets, every triple followed by every operation on 3 + 3 + 2 sets, histories of depth 3 over 9 party sets, every operation 70000 times",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			th := tier == "thorough"
			ck := []lab.Lit{kA1, kA2, kSkew2}
			bf := []lab.Lit{bA1, bA2}
			ck = append(ck, kA3, kOne, kDouble, kCnn)
			bf = append(bf, bSkew)
			if th {
				ck = append(ck, kSkew, kSparse1, kA4, kN32)
				bf = append(bf, bA3, bOdd, bT)
			}
			for n, l := range ck {
				l := l
				mk := func(x *mc.X) *actWorld { return ckActWorld(x, l) }
				for _, i := range ckFirst(l) {
					a := lab.CkActsOf(l)[i]
					us = append(us, mc.Unit{Name: "pair/ckks/" + l.Name + "/" + a.Name, Body: c07Pair(mk, i)})
					us = append(us, mc.Unit{Name: "changed/ckks/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, false)})
					us = append(us, mc.Unit{Name: "keys/ckks/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, true)})
					if n == 0 || n == 1 || th {
						us = append(us, mc.Unit{Name: "seq/ckks/" + l.Name + "/" + a.Name, Body: c07Seq(mk, i, 2)})
					}
					if th && n < 3 {
						us = append(us, mc.Unit{Name: "seq3/ckks/" + l.Name + "/" + a.Name, Body: c07Seq(mk, i, 3)})
					}
				}
			}
			for n, l := range bf {
				l := l
				mk := func(x *mc.X) *actWorld { return bfActWorld(x, l) }
				for i, a := range lab.BfActs() {
					us = append(us, mc.Unit{Name: "pair/bfv/" + l.Name + "/" + a.Name, Body: c07Pair(mk, i)})
					us = append(us, mc.Unit{Name: "changed/bfv/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, false)})
					us = append(us, mc.Unit{Name: "keys/bfv/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, true)})
					d := 2
					if th && n < 3 {
						d = 3
					}
					us = append(us, mc.Unit{Name: "seq/bfv/" + l.Name + "/" + a.Name, Body: c07Seq(mk, i, d)})
				}
			}
			rl := []lab.Lit{rA1, rG3b}
			if th {
				rl = append(rl, rA2, rG3, rOdd, rAll)
			}
			for n, l := range rl {
				l := l
				mk := func(x *mc.X) *actWorld { return rlActWorld(x, l) }
				for i, a := range lab.RActs() {
					us = append(us, mc.Unit{Name: "pair/rlwe/" + l.Name + "/" + a.Name, Body: c07Pair(mk, i)})
					us = append(us, mc.Unit{Name: "changed/rlwe/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, false)})
					us = append(us, mc.Unit{Name: "keys/rlwe/" + l.Name + "/" + a.Name, Body: c07Changed(mk, i, true)})
					d := 2
					if th && n < 2 {
						d = 3
					}
					us = append(us, mc.Unit{Name: "seq/rlwe/" + l.Name + "/" + a.Name, Body: c07Seq(mk, i, d)})
				}
			}
			times := 2000
			if th {
				times = 70000
			}
			long := func(name string, n int, mk func(x *mc.X) *actWorld, names func(i int) string) {
				for i := 0; i < n; i++ {
					us = append(us, mc.Unit{Name: "long/" + name + "/" + names(i), Body: c07Long(mk, i, times)})
				}
			}
			for _, l := range ck {
				l := l
				us = append(us, mc.Unit{Name: "walk/ckks/" + l.Name, Body: c07Long(func(x *mc.X) *actWorld { return ckActWorld(x, l) }, -1, 0)})
			}
			for _, l := range bf {
				l := l
				us = append(us, mc.Unit{Name: "walk/bfv/" + l.Name, Body: c07Long(func(x *mc.X) *actWorld { return bfActWorld(x, l) }, -1, 0)})
			}
			for _, l := range rl {
				l := l
				us = append(us, mc.Unit{Name: "walk/rlwe/" + l.Name, Body: c07Long(func(x *mc.X) *actWorld { return rlActWorld(x, l) }, -1, 0)})
			}
			long("ckks", len(lab.CkActsOf(kA2)), func(x *mc.X) *actWorld { return ckActWorld(x, kA2) }, func(i int) string { return lab.CkActsOf(kA2)[i].Name })
			long("bfv", len(lab.BfActs()), func(x *mc.X) *actWorld { return bfActWorld(x, bA2) }, func(i int) string { return lab.BfActs()[i].Name })
			long("rlwe", len(lab.RActs()), func(x *mc.X) *actWorld { return rlActWorld(x, rG3b) }, func(i int) string { return lab.RActs()[i].Name })
			for _, l := range []lab.Lit{kA1, kA2, kSparse1} {
				us = append(us, mc.Unit{Name: "receiver/ckks/" + l.Name, Body: c07Out(l)})
			}
			for _, l := range []lab.Lit{bA1, bA2} {
				us = append(us, mc.Unit{Name: "receiver/bfv/" + l.Name, Body: c07OutB(l)})
			}
			for _, l := range []lab.Lit{rA1, rA2, rG3, rOdd} {
				us = append(us, mc.Unit{Name: "keyswitcher/" + l.Name, Body: c07Ksw(l)})
			}
			us = append(us, c07PartyUnits(tier)...)
			return us
		},
	})
}
