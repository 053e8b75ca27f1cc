package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C24: parties join at any time. A history interleaves joining, key
// generation, encryption, evaluation, reference string additions and the
// creation of new instances; afterwards everyone joins and computes with
// everything that exists.

type joinWorld struct {
	x     *mc.X
	l     lab.Lit
	ids   []string
	joins map[string]bool
	first *side // created before anything else
	sides []*side
	crs   map[int]lab.H
	rots  map[string]map[int]bool
	cts   []joinCT
	n     int
}

type joinCT struct {
	name string
	c    *lab.CV
	b    *lab.BV
}

// side is a set of instances over its own copy of the parameters.
type side struct {
	ck  *lab.World
	bf  *lab.BWorld
	kg  *mkrlwe.KeyGenerator
	bkg *mkbfv.KeyGenerator
}

func (w *joinWorld) bfv() bool { return w.l.T != 0 }

func (w *joinWorld) newSide() {
	s := &side{}
	var from *side
	if len(w.sides) > 0 {
		from = w.sides[len(w.sides)-1] // copies of copies
	}
	if w.bfv() {
		c := &lab.BF{Lit: w.l, Rlk: map[string]*mkbfv.RelinearizationKey{}}
		if from == nil {
			c.Params = w.l.BfvParams()
		} else {
			c.Params = from.bf.C.Params
			c.Keys, c.Rlk = from.bf.C.Keys, from.bf.C.Rlk
		}
		c.Lit.NoRot = true
		s.bf = lab.NewBWorld(w.x, c)
		if from != nil {
			f := from.bf
			s.bf.Rtk, s.bf.Cjk, s.bf.Rlk, s.bf.SKs = f.Rtk, f.Cjk, f.Rlk, f.SKs
		} else {
			s.bf.Rtk, s.bf.Cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
			s.bf.Rlk, s.bf.SKs = mkbfv.NewRelinearizationKeyKeySet(c.Params), mkrlwe.NewSecretKeySet()
			c.PK = map[string]*mkrlwe.PublicKey{}
		}
		s.bkg = s.bf.KG
		s.kg = s.bkg.KeyGenerator
	} else {
		c := &lab.CK{Lit: w.l, Rlk: map[string]*mkrlwe.RelinearizationKey{}}
		if from == nil {
			c.Params = w.l.CkksParams()
			p, err := ckks.NewParameters(c.Params.Parameters.Parameters, c.Params.LogSlots(), c.Params.Scale())
			if err != nil {
				panic(err)
			}
			c.Ckks = p
		} else {
			c.Params, c.Ckks = from.ck.C.Params, from.ck.C.Ckks
			c.Keys, c.Rlk = from.ck.C.Keys, from.ck.C.Rlk
		}
		c.Lit.NoRot = true
		s.ck = lab.NewWorld(w.x, c)
		if from != nil {
			f := from.ck
			s.ck.Rtk, s.ck.Cjk, s.ck.Rlk, s.ck.SKs = f.Rtk, f.Cjk, f.Rlk, f.SKs
		} else {
			s.ck.Rtk, s.ck.Cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
			s.ck.Rlk, s.ck.SKs = mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters), mkrlwe.NewSecretKeySet()
			c.PK = map[string]*mkrlwe.PublicKey{}
		}
		s.kg = s.ck.KG
	}
	w.sides = append(w.sides, s)
}

func (s *side) params() *mkrlwe.Parameters {
	if s.bf != nil {
		return &s.bf.C.Params.Parameters
	}
	return &s.ck.C.Params.Parameters
}

// stable checks that every existing reference string is unchanged and that all
// copies of the parameters see the same ones.
func (w *joinWorld) stable(what string) {
	for k, s := range w.sides {
		p := s.params()
		for idx, h := range w.crs {
			v, in := p.CRS[idx]
			if !in {
				w.x.Fail("after %s, copy %d of the parameters has no reference string %d", what, k, idx)
			}
			if lab.NewH().Swk(v) != h {
				w.x.Fail("after %s, the reference string %d of copy %d of the parameters changed", what, idx, k)
			}
		}
		if len(p.CRS) != len(w.crs) {
			w.x.Fail("after %s, copy %d of the parameters has %d reference strings, want %d", what, k, len(p.CRS), len(w.crs))
		}
	}
}

func (w *joinWorld) join(id string, s *side) {
	w.x.Step("%s joins", id)
	sk, pk := s.kg.GenKeyPair(id)
	r := s.kg.GenSecretKey(id)
	w.joins[id] = true
	w.rots[id] = map[int]bool{}
	f := w.sides[0]
	// the generic and the scheme's constructors of keys
	if w.bfv() {
		f.bf.Rlk.AddRelinearizationKey(s.bkg.GenRelinearizationKey(sk, r))
		f.bf.SKs.AddSecretKey(sk)
		f.bf.Cjk.AddConjugationKey(s.kg.GenConjugationKey(sk))
		s.kg.GenDefaultRotationKeys(sk, f.bf.Rtk)
		f.bf.C.PK[id] = pk
	} else {
		f.ck.Rlk.AddRelinearizationKey(s.kg.GenRelinearizationKey(sk, r))
		f.ck.SKs.AddSecretKey(sk)
		f.ck.Cjk.AddConjugationKey(s.kg.GenConjugationKey(sk))
		s.kg.GenDefaultRotationKeys(sk, f.ck.Rtk)
		f.ck.C.PK[id] = pk
	}
}

func (w *joinWorld) sk(id string) *mkrlwe.SecretKey {
	if w.bfv() {
		return w.sides[0].bf.SKs.GetSecretKey(id)
	}
	return w.sides[0].ck.SKs.GetSecretKey(id)
}

func (w *joinWorld) rotKey(id string, idx int, s *side) {
	w.x.Step("%s generates a key for rotation %d", id, idx)
	key := s.kg.GenRotationKey(idx, w.sk(id))
	if w.bfv() {
		w.sides[0].bf.Rtk.AddRotationKey(key)
	} else {
		w.sides[0].ck.Rtk.AddRotationKey(key)
	}
	w.rots[id][idx] = true
	if idx == 6 {
		// default keys generated once more leave the dedicated ones as they are
		if w.bfv() {
			s.kg.GenDefaultRotationKeys(w.sk(id), w.sides[0].bf.Rtk)
		} else {
			s.kg.GenDefaultRotationKeys(w.sk(id), w.sides[0].ck.Rtk)
		}
	}
}

func (w *joinWorld) encrypt(id string, s *side) {
	w.n++
	o := joinCT{name: fmt.Sprintf("encryption %d of %s", w.n, id)}
	if w.bfv() {
		o.b = s.bf.Encrypt(s.bf.BVec(w.n), id)
	} else {
		level := s.ck.C.Params.MaxLevel()
		o.c = s.ck.Encrypt(lab.Vec(s.ck.Slots(), w.n), id, level)
	}
	w.cts = append(w.cts, o)
}

// canRot tells whether all the parties of a ciphertext have the keys rotation k needs.
func (w *joinWorld) canRot(ids []string, k int) bool {
	if _, ded := w.crs[k]; !ded || k&(k-1) == 0 {
		return true
	}
	for _, id := range ids {
		if !w.rots[id][k] {
			return false
		}
	}
	return true
}

func (w *joinWorld) rotate(i, k int, s *side, keep bool) {
	a := w.cts[i]
	o := joinCT{name: fmt.Sprintf("(%s rotated by %d)", a.name, k)}
	if w.bfv() {
		if !w.canRot(a.b.IDs, k) {
			return
		}
		o.b = s.bf.Rot(a.b, k)
	} else {
		if !w.canRot(a.c.IDs, k) {
			return
		}
		o.c = s.ck.Rot(a.c, k)
		if _, ded := w.crs[k]; ded {
			s.ck.Check(s.ck.RotHoisted(a.c, k), o.name+" hoisted")
		}
	}
	w.check(o, s)
	if keep {
		w.cts = append(w.cts, o)
	}
}

func (w *joinWorld) binary(i, j int, mul bool, s *side) joinCT {
	a, b := w.cts[i], w.cts[j]
	o := joinCT{name: fmt.Sprintf("(%s op %s)", a.name, b.name)}
	switch {
	case w.bfv() && mul:
		m := s.bf.MulModel(a.b, b.b, nil)
		if !s.bf.Fits(m) {
			w.x.Skip()
		}
		o.b = s.bf.Mul(a.b, b.b)
	case w.bfv():
		o.b = s.bf.Add(a.b, b.b)
	case mul:
		if !s.ck.CanMul(a.c, b.c) {
			w.x.Skip()
		}
		o.c = s.ck.Mul(a.c, b.c)
	default:
		if !s.ck.CanAdd(a.c, b.c) {
			w.x.Skip()
		}
		o.c = s.ck.Add(a.c, b.c)
	}
	return o
}

func (w *joinWorld) check(o joinCT, s *side) {
	if o.b != nil {
		s.bf.Check(o.b, o.name)
		return
	}
	s.ck.Check(o.c, o.name)
}

// joinActs lists the enabled actions.
func (w *joinWorld) acts() (names []string, do []func()) {
	add := func(n string, f func()) { names, do = append(names, n), append(do, f) }
	last := func() *side { return w.sides[len(w.sides)-1] }
	for _, id := range w.ids {
		id := id
		if !w.joins[id] {
			add("join "+id, func() { w.join(id, last()) })
			continue
		}
		add("encrypt "+id, func() { w.encrypt(id, last()) })
		for _, k := range []int{3, 6} {
			k := k
			if _, in := w.crs[k]; in && !w.rots[id][k] {
				add(fmt.Sprintf("key %d of %s", k, id), func() { w.rotKey(id, k, last()) })
			}
		}
	}
	for _, k := range []int{3, 6} {
		k := k
		add(fmt.Sprintf("reference %d", k), func() {
			_, had := w.crs[k]
			last().params().AddCRS(k)
			if !had {
				w.crs[k] = lab.NewH().Swk(last().params().CRS[k])
			}
		})
	}
	add("reference again", func() {
		for idx := range w.crs {
			last().params().AddCRS(idx)
		}
	})
	add("new instances", w.newSide)
	if n := len(w.cts); n > 0 {
		add("multiply", func() { w.cts = append(w.cts, w.binary(0, n-1, true, last())) })
		add("add", func() { w.cts = append(w.cts, w.binary(0, n-1, false, last())) })
		add("rotate", func() { w.rotate(n-1, 3, last(), true) })
	}
	return
}

func c24(l lab.Lit, first, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		w := &joinWorld{x: x, l: l, joins: map[string]bool{}, crs: map[int]lab.H{}, rots: map[string]map[int]bool{}}
		w.ids = lab.IDs[:3]
		w.newSide()
		for idx, v := range w.sides[0].params().CRS {
			w.crs[idx] = lab.NewH().Swk(v)
		}
		for i := 0; i < depth; i++ {
			names, do := w.acts()
			k := first
			if i > 0 {
				k = x.Choose("action", len(do))
			} else if k >= len(do) {
				x.Skip()
			}
			x.Step("%s", names[k])
			do[k]()
			w.stable(names[k])
		}
		var st []interface{}
		for _, id := range w.ids {
			st = append(st, id, w.joins[id], w.rots[id][3], w.rots[id][6])
		}
		_, c3 := w.crs[3]
		_, c6 := w.crs[6]
		x.State(append(st, c3, c6, len(w.cts), len(w.sides))...)

		// everyone joins, with instances of different ages, and computes with everything
		w.newSide()
		old, young := w.sides[0], w.sides[len(w.sides)-1]
		for i, id := range w.ids {
			if !w.joins[id] {
				w.join(id, w.sides[i%len(w.sides)])
			}
			w.encrypt(id, w.sides[(i+1)%len(w.sides)])
			for _, k := range []int{3, 6} {
				if _, in := w.crs[k]; in && !w.rots[id][k] && i != 1 {
					w.rotKey(id, k, young)
				}
			}
		}
		w.stable("the last party joined")
		for i := range w.cts {
			w.check(w.cts[i], young)
		}
		n := len(w.cts)
		for i := 0; i < n; i++ {
			for _, k := range []int{1, 3, 6} {
				s := old
				if i%2 == 0 {
					s = young
				}
				w.rotate(i, k, s, false)
			}
			j := n - 1 - i%3
			if w.fits(i, j) {
				w.check(w.binary(i, j, true, young), old)
			}
			if i < 3 && w.fits(j, i) {
				w.check(w.binary(j, i, true, old), young)
			}
			if w.bfv() {
				young.bf.Check(young.bf.Conj(w.cts[i].b), "conjugate")
			} else {
				young.ck.Check(young.ck.Conj(w.cts[i].c), "conjugate")
			}
		}
		w.stable("the evaluation")
	}
}

// c24Long: twelve parties join one after the other; before two of the joins something else happens.
// After each join the newcomer's ciphertexts are used together with the oldest ones and with the
// sum of all.
func c24Long(l lab.Lit, first int) func(x *mc.X) {
	return func(x *mc.X) {
		w := &joinWorld{x: x, l: l, joins: map[string]bool{}, crs: map[int]lab.H{}, rots: map[string]map[int]bool{}}
		for i := 0; i < 12; i++ {
			w.ids = append(w.ids, fmt.Sprintf("member %d", (i*5)%12))
		}
		w.newSide()
		for idx, v := range w.sides[0].params().CRS {
			w.crs[idx] = lab.NewH().Swk(v)
		}
		second := first + x.Choose("second event after", 12-first)
		evs := []int{x.Choose("first event", 4), x.Choose("second event", 4)}
		refs := []int{3, 6}
		event := func(k int) {
			last := w.sides[len(w.sides)-1]
			switch k {
			case 0: // a new reference string, and keys for those who are there
				idx := refs[0]
				refs = refs[1:]
				last.params().AddCRS(idx)
				w.crs[idx] = lab.NewH().Swk(last.params().CRS[idx])
				for _, id := range w.ids {
					if w.joins[id] {
						w.rotKey(id, idx, last)
					}
				}
			case 1:
				for idx := range w.crs {
					last.params().AddCRS(idx)
				}
			case 2:
				w.newSide()
			case 3: // new instances twice over
				w.newSide()
				w.newSide()
			}
			w.stable("the event")
		}
		sum := 0
		for i, id := range w.ids {
			if i == first {
				event(evs[0])
			}
			if i == second {
				event(evs[1])
			}
			old, young := w.sides[0], w.sides[len(w.sides)-1]
			w.join(id, []*side{young, old}[i%2])
			for _, idx := range []int{3, 6} {
				if _, in := w.crs[idx]; in {
					w.rotKey(id, idx, young)
				}
			}
			w.encrypt(id, young)
			n := len(w.cts) - 1
			w.stable(id + " joined")
			if i == 0 {
				sum = n
				continue
			}
			for _, p := range [][2]int{{n, sum}, {0, n}} {
				if w.fits(p[0], p[1]) {
					w.check(w.binary(p[0], p[1], true, young), old)
				}
			}
			o := w.binary(sum, n, false, old)
			w.check(o, young)
			w.cts = append(w.cts, o)
			sum = len(w.cts) - 1
			for _, k := range []int{1, 3, 6, 7} {
				w.rotate(sum, k, []*side{old, young}[k%2], false)
			}
			if w.bfv() {
				old.bf.Check(old.bf.Conj(w.cts[sum].b), "conjugate")
			} else {
				old.ck.Check(old.ck.Conj(w.cts[sum].c), "conjugate")
			}
		}
		for i := range w.cts {
			w.check(w.cts[i], w.sides[len(w.sides)-1])
		}
		w.stable("the evaluation")
		x.State(first, second, fmt.Sprint(evs))
	}
}

func (w *joinWorld) fits(i, j int) bool {
	s := w.sides[0]
	if w.bfv() {
		return s.bf.Fits(s.bf.MulModel(w.cts[i].b, w.cts[j].b, nil))
	}
	return s.ck.CanMul(w.cts[i].c, w.cts[j].c)
}

var (
	jCK = lab.Lit{Name: "jck", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 3, LogScale: 45}
	jC2 = lab.Lit{Name: "jc2", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55, 55, 55}, LogSlots: 3, LogScale: 45}
	jBF = lab.Lit{Name: "jbf", LogN: 4, T: 97, Q: []float64{45, 45, 45}, QMul: []float64{46, 46, 46}, P: []float64{50, 50}}
	jB2 = lab.Lit{Name: "jb2", LogN: 4, T: 97, Q: []float64{45, 45}, QMul: []float64{46, 46}, P: []float64{50, 50, 50, 50}}
)

func init() {
	mc.Register(&mc.Property{
		ID: "C24",
		Bounds: map[string]string{
			"quick":    "every sequence of 5 actions (4 with two special primes per digit) among: a party joins (3 parties, any order), encrypts, generates a dedicated rotation key, a reference string is added (2 indices) or added again (all indices), new instances over a copy of the parameters are created, existing ciphertexts are multiplied, added or rotated; after each action every reference string is compared in every copy of the parameters; then the remaining parties join, and every ciphertext is decrypted, rotated, conjugated and multiplied with the newcomers' ciphertexts by the oldest and the newest instances; CKKS and BFV, ring degree 16; twelve parties that join one after the other with every pair of events (a reference string, all again, new instances once or twice) before every pair of joins",
			"thorough": "as quick with sequences of 6 and of 5 with two special primes per digit",
		},
		Assumptions: []string{"once a reference string exists for a rotation index, rotating by that index needs every party's dedicated key (missing keys fail loudly, see C08)"},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(l lab.Lit, d int) {
				for i := 0; i < 7; i++ {
					us = append(us, mc.Unit{Name: fmt.Sprintf("%s/first=%d/depth=%d", l.Name, i, d), Body: c24(l, i, d)})
				}
			}
			if tier == "thorough" {
				add(jCK, 6)
				add(jBF, 6)
				add(jC2, 5)
				add(jB2, 5)
			} else {
				add(jCK, 5)
				add(jBF, 5)
				add(jC2, 4)
				add(jB2, 4)
			}
			for first := 0; first < 12; first++ {
				for _, l := range []lab.Lit{jCK, jC2, jBF, jB2} {
					us = append(us, mc.Unit{Name: fmt.Sprintf("long/%s/%d", l.Name, first), Body: c24Long(l, first)})
				}
			}
			return us
		},
	})
}
