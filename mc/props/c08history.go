package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// Histories on one instance: a key set gains and loses keys between operations
// that need them. What an earlier operation saw must not make up for a key that
// is missing now, and a key that came back is enough.

// keyGame is an instance with a key set under change and another complete one.
type keyGame struct {
	uses []keyUse
	// put makes a key present in or absent from the set under change
	put func(id string, present bool)
}

type keyUse struct {
	name string
	need []string
	run  func(full bool) func() // performs the operation; the result verifies its outcome
}

func c08Game(depth int, ids []string, mk func(x *mc.X) keyGame, state ...interface{}) func(x *mc.X) {
	return func(x *mc.X) {
		g := mk(x)
		have := map[string]bool{}
		for _, id := range ids {
			have[id] = true
			g.put(id, true)
		}
		ops := 0
		for d := 0; d < depth; d++ {
			e := x.Choose("event", len(ids)+2*len(g.uses))
			if e < len(ids) {
				if d == depth-1 {
					x.Skip() // the history must end with an operation
				}
				id := ids[e]
				have[id] = !have[id]
				g.put(id, have[id])
				x.Step("key of %s present: %v", id, have[id])
				continue
			}
			e -= len(ids)
			u, full := g.uses[e/2], e%2 == 1
			ok := true
			for _, id := range u.need {
				ok = ok && (full || have[id])
			}
			ops++
			var verify func()
			expect(x, ok, false, fmt.Sprintf("%s, keys present: %v, complete set: %v", u.name, have, full), func() { verify = u.run(full) }, func() {
				if verify != nil {
					verify()
				}
			})
		}
		x.State(append(state, ops, fmt.Sprint(have))...)
	}
}

var c08Families = []string{"mul", "mulhoisted", "rot", "rotcomposed", "rothoisted", "conj", "decrypt"}

func c08CkksGame(l lab.Lit, fam string, depth int) func(x *mc.X) {
	c := lab.GetCK(l)
	A, B := c.IDs[0], c.IDs[1]
	return c08Game(depth, []string{A, B}, func(x *mc.X) keyGame {
		w := lab.NewWorld(x, c)
		top := c.Params.MaxLevel()
		a, b, ab := ckSum(w, []string{A}, top, 1), ckSum(w, []string{B}, top, 4), ckSum(w, []string{A, B}, top, 2)
		var g keyGame
		add := func(name string, need []string, run func(full bool) func()) {
			g.uses = append(g.uses, keyUse{name, need, run})
		}
		switch fam {
		case "mul", "mulhoisted":
			set, full := mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters), c.RlkSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddRelinearizationKey(c.Rlk[id])
				} else {
					set.DelRelinearizationKey(id)
				}
			}
			pick := func(f bool) *mkrlwe.RelinearizationKeySet {
				if f {
					return full
				}
				return set
			}
			mul := func(name string, u, v *lab.CV, need []string) {
				add(name, need, func(f bool) func() {
					var r *lab.CV
					if fam == "mul" {
						r = w.MulModel(u, v, w.Ev.MulRelinNew(u.CT, v.CT, pick(f)))
					} else {
						r = w.MulModel(u, v, w.Ev.MulRelinHoistedNew(u.CT, v.CT, w.Ev.HoistedForm(u.CT), nil, pick(f)))
					}
					return func() { w.Check(r, name) }
				})
			}
			mul("product of A and B", a, b, []string{A, B})
			mul("square of A", a, a, []string{A})
			mul("product of AB and B", ab, b, []string{A, B})
		case "rot", "rotcomposed", "rothoisted":
			k := map[string]int{"rot": 2, "rotcomposed": 5, "rothoisted": 4}[fam]
			idx := []int{k}
			if fam == "rotcomposed" {
				idx = []int{1, 4}
			}
			set, full := c.RtkSet(), c.RtkSet()
			g.put = func(id string, p bool) {
				for _, r := range idx {
					if p {
						set.AddRotationKey(c.Rtk[id][r])
					} else {
						set.DelRotationKey(id, uint(r))
					}
				}
			}
			for _, o := range []*lab.CV{a, ab} {
				o := o
				name := fmt.Sprintf("rotation of %v by %d", o.IDs, k)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					var r *lab.CV
					if fam == "rothoisted" {
						r = w.RotModel(o, k, w.Ev.RotateHoistedNew(o.CT, k, w.Ev.HoistedForm(o.CT), s))
					} else {
						r = w.RotModel(o, k, w.Ev.RotateNew(o.CT, k, s))
					}
					return func() { w.Check(r, name) }
				})
			}
		case "conj":
			set, full := mkrlwe.NewConjugationKeySet(), c.CjkSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddConjugationKey(c.Cjk[id])
				} else {
					set.DelConjugationKey(id)
				}
			}
			for _, o := range []*lab.CV{a, ab} {
				o := o
				name := fmt.Sprintf("conjugation of %v", o.IDs)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					r := w.ConjModel(o, w.Ev.ConjugateNew(o.CT, s))
					return func() { w.Check(r, name) }
				})
			}
		case "decrypt":
			set, full := mkrlwe.NewSecretKeySet(), c.SKSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddSecretKey(c.SK[id])
				} else {
					set.DelSecretKey(id)
				}
			}
			for _, o := range []*lab.CV{a, b, ab} {
				o := o
				name := fmt.Sprintf("decryption of %v", o.IDs)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					m := w.Dec.Decrypt(o.CT, s)
					return func() { w.CheckMsg(m, o, name) }
				})
			}
		}
		return g
	}, "ckks", l.Name, fam)
}

func c08BfvGame(l lab.Lit, fam string, depth int) func(x *mc.X) {
	c := lab.GetBF(l)
	A, B := c.IDs[0], c.IDs[1]
	return c08Game(depth, []string{A, B}, func(x *mc.X) keyGame {
		w := lab.NewBWorld(x, c)
		a, b, ab := bfSum(w, []string{A}, 1), bfSum(w, []string{B}, 4), bfSum(w, []string{A, B}, 2)
		var g keyGame
		add := func(name string, need []string, run func(full bool) func()) {
			g.uses = append(g.uses, keyUse{name, need, run})
		}
		check := func(r *lab.BV, name string) func() {
			return func() {
				if w.Fits(r) {
					w.Check(r, name)
				} else {
					w.CheckBook(r, name)
				}
			}
		}
		switch fam {
		case "mul":
			set, full := mkbfv.NewRelinearizationKeyKeySet(c.Params), c.RlkSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddRelinearizationKey(c.Rlk[id])
				} else {
					set.DelRelinearizationKey(id)
				}
			}
			mul := func(name string, u, v *lab.BV, need []string) {
				add(name, need, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					return check(w.MulModel(u, v, w.Ev.MulRelinNew(u.CT, v.CT, s)), name)
				})
			}
			mul("product of A and B", a, b, []string{A, B})
			mul("square of A", a, a, []string{A})
		case "rot", "rotcomposed":
			k := map[string]int{"rot": 2, "rotcomposed": 5}[fam]
			idx := []int{k}
			if fam == "rotcomposed" {
				idx = []int{1, 4}
			}
			set, full := c.RtkSet(), c.RtkSet()
			g.put = func(id string, p bool) {
				for _, r := range idx {
					if p {
						set.AddRotationKey(c.Rtk[id][r])
					} else {
						set.DelRotationKey(id, uint(r))
					}
				}
			}
			for _, o := range []*lab.BV{a, ab} {
				o := o
				name := fmt.Sprintf("rotation of %v by %d", o.IDs, k)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					return check(w.RotModel(o, k, w.Ev.RotateNew(o.CT, k, s)), name)
				})
			}
		case "conj":
			set, full := mkrlwe.NewConjugationKeySet(), c.CjkSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddConjugationKey(c.Cjk[id])
				} else {
					set.DelConjugationKey(id)
				}
			}
			for _, o := range []*lab.BV{a, ab} {
				o := o
				name := fmt.Sprintf("row swap of %v", o.IDs)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					return check(w.ConjModel(o, w.Ev.ConjugateNew(o.CT, s)), name)
				})
			}
		case "decrypt":
			set, full := mkrlwe.NewSecretKeySet(), c.SKSet()
			g.put = func(id string, p bool) {
				if p {
					set.AddSecretKey(c.SK[id])
				} else {
					set.DelSecretKey(id)
				}
			}
			for _, o := range []*lab.BV{a, b, ab} {
				o := o
				name := fmt.Sprintf("decryption of %v", o.IDs)
				add(name, o.IDs, func(f bool) func() {
					s := set
					if f {
						s = full
					}
					m := w.Dec.Decrypt(o.CT, s)
					return func() { w.CheckMsg(m, o, name) }
				})
			}
		}
		return g
	}, "bfv", l.Name, fam)
}

// c08RlGame: the key switcher and the decryptor of the generic layer.
func c08RlGame(l lab.Lit, fam string, depth int) func(x *mc.X) {
	c := lab.GetRL(l)
	A, B := c.IDs[0], c.IDs[1]
	p := c.Params
	level := p.MaxLevel()
	operands := map[string]*mkrlwe.Ciphertext{
		"A":  lab.UniformCT(p, level, 1, A),
		"B":  lab.UniformCT(p, level, 2, B),
		"AB": lab.UniformCT(p, level, 3, A, B),
	}
	ids := map[string][]string{"A": {A}, "B": {B}, "AB": {A, B}}
	phase := map[string][]*big.Int{}
	for n, ct := range operands {
		phase[n] = lab.Phase(p, ct, c.SK)
	}
	products := map[string][]*big.Int{}
	for _, n := range [][2]string{{"A", "B"}, {"A", "A"}, {"AB", "B"}} {
		products[n[0]+"*"+n[1]] = lab.NegaMul(phase[n[0]], phase[n[1]])
	}
	return c08Game(depth, []string{A, B}, func(x *mc.X) keyGame {
		ks := mkrlwe.NewKeySwitcher(p)
		var g keyGame
		add := func(name string, need []string, out []string, want []*big.Int, run func(full bool, o *mkrlwe.Ciphertext)) {
			g.uses = append(g.uses, keyUse{name, need, func(full bool) func() {
				o := mkrlwe.NewCiphertext(p, lab.Set(out...), level)
				run(full, o)
				return func() {
					bits := lab.ErrBits(p, level, lab.Phase(p, o, c.SK), want)
					x.Assert(bits <= 12+l.LogN, "%s: the phase is off by %d bits", name, bits)
				}
			}})
		}
		switch fam {
		case "mul", "mulhoisted":
			set, full := mkrlwe.NewRelinearizationKeyKeySet(p), c.RlkSet()
			g.put = func(id string, in bool) {
				if in {
					set.AddRelinearizationKey(c.Rlk[id])
				} else {
					set.DelRelinearizationKey(id)
				}
			}
			for _, n := range [][2]string{{"A", "B"}, {"A", "A"}, {"AB", "B"}} {
				n := n
				need := ids[n[0]]
				if n[0] != n[1] {
					need = []string{A, B}
				}
				u, v := operands[n[0]], operands[n[1]]
				add("product of "+n[0]+" and "+n[1], need, need, products[n[0]+"*"+n[1]], func(f bool, o *mkrlwe.Ciphertext) {
					s := set
					if f {
						s = full
					}
					if fam == "mul" {
						ks.MulAndRelin(u, v, s, o)
					} else {
						ks.MulAndRelinHoisted(u, v, nil, lab.HoistRL(ks, v, level), s, o)
					}
				})
			}
		case "rot", "rothoisted":
			set, full := c.RtkSet(), c.RtkSet()
			g.put = func(id string, in bool) {
				if in {
					set.AddRotationKey(c.Rtk[id][2])
				} else {
					set.DelRotationKey(id, 2)
				}
			}
			for _, n := range []string{"A", "AB"} {
				u := operands[n]
				add("rotation of "+n, ids[n], ids[n], lab.Automorph(phase[n], p.GaloisElementForColumnRotationBy(2)), func(f bool, o *mkrlwe.Ciphertext) {
					s := set
					if f {
						s = full
					}
					if fam == "rot" {
						ks.Rotate(u, 2, s, o)
					} else {
						ks.RotateHoisted(u, 2, lab.HoistRL(ks, u, level), s, o)
					}
				})
			}
		case "conj":
			set, full := mkrlwe.NewConjugationKeySet(), c.CjkSet()
			g.put = func(id string, in bool) {
				if in {
					set.AddConjugationKey(c.Cjk[id])
				} else {
					set.DelConjugationKey(id)
				}
			}
			for _, n := range []string{"A", "AB"} {
				u := operands[n]
				add("conjugation of "+n, ids[n], ids[n], lab.Automorph(phase[n], p.GaloisElementForRowRotation()), func(f bool, o *mkrlwe.Ciphertext) {
					s := set
					if f {
						s = full
					}
					ks.Conjugate(u, s, o)
				})
			}
		case "decrypt":
			dec := mkrlwe.NewDecryptor(p)
			set, full := mkrlwe.NewSecretKeySet(), c.SKSet()
			g.put = func(id string, in bool) {
				if in {
					set.AddSecretKey(c.SK[id])
				} else {
					set.DelSecretKey(id)
				}
			}
			for _, n := range []string{"A", "B", "AB"} {
				u, want := operands[n], phase[n]
				g.uses = append(g.uses, keyUse{"decryption of " + n, ids[n], func(f bool) func() {
					s := set
					if f {
						s = full
					}
					out := rlwe.NewPlaintext(p.Parameters, level)
					dec.Decrypt(u, s, out)
					return func() {
						q := lab.Reduced(p.RingQ(), level, out.Value)
						bits := lab.ErrBits(p, level, lab.Centered(p.RingQ(), level, q.Coeffs), want)
						x.Assert(bits == 0, "the decryption differs from the phase by %d bits", bits)
					}
				}})
			}
		}
		return g
	}, "rlwe", l.Name, fam)
}

func c08Histories(us []mc.Unit, th bool) []mc.Unit {
	d := 4
	if th {
		d = 5
	}
	for _, fam := range c08Families {
		us = append(us, mc.Unit{Name: "history/ckks/" + fam, Body: c08CkksGame(kA1, fam, d)})
		if th {
			us = append(us, mc.Unit{Name: "history/ckks-a2/" + fam, Body: c08CkksGame(kA2, fam, d-1)})
		}
		if fam != "mulhoisted" && fam != "rothoisted" {
			us = append(us, mc.Unit{Name: "history/bfv/" + fam, Body: c08BfvGame(bA1, fam, d)})
		}
		if fam != "rotcomposed" {
			us = append(us, mc.Unit{Name: "history/rlwe/" + fam, Body: c08RlGame(rA1, fam, d)})
			us = append(us, mc.Unit{Name: "history/rlwe-g3/" + fam, Body: c08RlGame(rG3, fam, d-1)})
		}
	}
	return us
}
