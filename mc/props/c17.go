package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C17: containers behave as maps.

var c17IDs = []string{"a", "00", ""}

// c17Names: further triples of names that a container must keep apart although they are easily
// confused: by case, by blanks, by a long common beginning, by composition of characters, by
// joining them with a number.
var c17Names = [][]string{
	{"a", "A", "a "},
	{strings.Repeat("x", 64) + "1", strings.Repeat("x", 64) + "2", strings.Repeat("x", 63)},
	{"\u00e9", "e\u0301", "e"},
	{"", "1", "12"},
	{"a\x00", "a", "a\x00b"},
	{"1", "01", "+1"},
}

func idsOf(s *mkrlwe.IDSet) string {
	var ks []string
	for k := range s.Value {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return fmt.Sprintf("%q", ks)
}

func idsIn(m map[string]bool) string {
	return fmt.Sprintf("%q", append([]string(nil), lab.SortedKeys(m)...))
}

// c17IDSet: three sets under all sequences of their operations.
func c17IDSet(c17IDs []string, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		sets := []*mkrlwe.IDSet{mkrlwe.NewIDSet(), mkrlwe.NewIDSet()}
		ref := []map[string]bool{{}, {}}
		clone := func(m map[string]bool) map[string]bool {
			o := map[string]bool{}
			for k := range m {
				o[k] = true
			}
			return o
		}
		for d := 0; d < depth; d++ {
			op := first
			if d > 0 {
				op = x.Choose("operation", 17)
			}
			x.Step("operation %d", op)
			switch {
			case op < 6: // add
				k := op % 2
				sets[k].Add(c17IDs[op/2])
				ref[k][c17IDs[op/2]] = true
			case op < 12: // remove
				k := op % 2
				sets[k].Remove(c17IDs[(op-6)/2])
				delete(ref[k], c17IDs[(op-6)/2])
			case op == 12:
				sets[1], ref[1] = sets[0].CopyNew(), clone(ref[0])
			case op == 13:
				u := clone(ref[0])
				for k := range ref[1] {
					u[k] = true
				}
				sets[0], ref[0] = sets[0].Union(sets[1]), u
			case op == 14:
				u := map[string]bool{}
				for k := range ref[1] {
					if ref[0][k] {
						u[k] = true
					}
				}
				sets[0], ref[0] = sets[0].Intersection(sets[1]), u
			case op == 15: // results of operations on a set and itself
				u, v, c := sets[0].Union(sets[0]), sets[0].Intersection(sets[0]), sets[0].CopyNew()
				for _, s := range []*mkrlwe.IDSet{u, v, c} {
					if idsOf(s) != idsIn(ref[0]) {
						x.Fail("a set combined with itself gives %s, want %s", idsOf(s), idsIn(ref[0]))
					}
					s.Add("z")
					s.Remove(c17IDs[0])
				}
			case op == 16:
				p, _ := mc.Panics(func() { sets[0].Add("0") })
				x.Assert(p, "the reserved identity is accepted")
			}
			for k := range sets {
				x.Assert(sets[k].Size() == len(ref[k]), "after operation %d: Size() is %d, want %d", op, sets[k].Size(), len(ref[k]))
				x.Assert(idsOf(sets[k]) == idsIn(ref[k]), "after operation %d the set is %s, want %s", op, idsOf(sets[k]), idsIn(ref[k]))
				for _, id := range append(append([]string(nil), c17IDs...), "0", "z") {
					x.Assert(sets[k].Has(id) == ref[k][id], "after operation %d: Has(%q) is %v", op, id, sets[k].Has(id))
				}
			}
			x.State(idsIn(ref[0]), idsIn(ref[1]))
		}
	}
}

// keyMap adapts a key set: slots are (party, index) pairs, versions are distinct keys of a slot.
type keyMap struct {
	name  string
	slots int
	add   func(slot, version int)
	del   func(slot int)
	get   func(slot int) interface{}
	size  func() int
	want  func(slot, version int) interface{}
}

func c17KeyMaps() []string {
	return []string{"secret", "public", "relinearization", "BFV relinearization", "rotation", "conjugation"}
}

func newKeyMap(c17IDs []string, kind string) keyMap {
	ck, bf := lab.GetCK(kOne), lab.GetBF(bOne)
	rp := ck.Params.Parameters
	id := func(slot int) string { return c17IDs[slot%len(c17IDs)] }
	store := map[[2]int]interface{}{}
	m := keyMap{name: kind, slots: len(c17IDs)}
	m.want = func(s, v int) interface{} { return store[[2]int{s, v}] }
	mk := func(f func(slot int) interface{}) {
		for s := 0; s < m.slots; s++ {
			for v := 0; v < 2; v++ {
				store[[2]int{s, v}] = f(s)
			}
		}
	}
	switch kind {
	case "secret":
		mk(func(s int) interface{} { return mkrlwe.NewSecretKey(rp, id(s)) })
		set := mkrlwe.NewSecretKeySet()
		m.add = func(s, v int) { set.AddSecretKey(m.want(s, v).(*mkrlwe.SecretKey)) }
		m.del = func(s int) { set.DelSecretKey(id(s)) }
		m.get = func(s int) interface{} { return set.GetSecretKey(id(s)) }
		m.size = func() int { return len(set.Value) }
	case "public":
		mk(func(s int) interface{} { return mkrlwe.NewPublicKey(rp, id(s)) })
		set := mkrlwe.NewPublicKeyKeySet()
		m.add = func(s, v int) { set.AddPublicKey(m.want(s, v).(*mkrlwe.PublicKey)) }
		m.del = func(s int) { set.DelPublicKey(id(s)) }
		m.get = func(s int) interface{} { return set.GetPublicKey(id(s)) }
		m.size = func() int { return len(set.Value) }
	case "relinearization":
		mk(func(s int) interface{} { return mkrlwe.NewRelinearizationKey(rp, id(s)) })
		set := mkrlwe.NewRelinearizationKeyKeySet(rp)
		m.add = func(s, v int) { set.AddRelinearizationKey(m.want(s, v).(*mkrlwe.RelinearizationKey)) }
		m.del = func(s int) { set.DelRelinearizationKey(id(s)) }
		m.get = func(s int) interface{} { return set.GetRelinearizationKey(id(s)) }
		m.size = func() int { return len(set.Value) }
	case "BFV relinearization":
		mk(func(s int) interface{} { return mkbfv.NewRelinearizationKey(bf.Params, id(s)) })
		set := mkbfv.NewRelinearizationKeyKeySet(bf.Params)
		m.add = func(s, v int) { set.AddRelinearizationKey(m.want(s, v).(*mkbfv.RelinearizationKey)) }
		m.del = func(s int) { set.DelRelinearizationKey(id(s)) }
		m.get = func(s int) interface{} { return set.GetRelinearizationKey(id(s)) }
		m.size = func() int { return len(set.Value) }
	case "conjugation":
		mk(func(s int) interface{} { return mkrlwe.NewConjugationKey(rp, id(s)) })
		set := mkrlwe.NewConjugationKeySet()
		m.add = func(s, v int) { set.AddConjugationKey(m.want(s, v).(*mkrlwe.ConjugationKey)) }
		m.del = func(s int) { set.DelConjugationKey(id(s)) }
		m.get = func(s int) interface{} { return set.GetConjugationKey(id(s)) }
		m.size = func() int { return len(set.Value) }
	case "rotation":
		m.slots = 2 * len(c17IDs)
		idx := func(s int) uint { return []uint{1, 3}[s/len(c17IDs)] }
		if c17IDs[0] == "" {
			// names and indices that read the same when they are joined
			m.slots = 12
			idx = func(s int) uint { return []uint{2, 12, 21, 1}[s/3] }
		}
		mk(func(s int) interface{} { return mkrlwe.NewRotationKey(rp, idx(s), id(s)) })
		set := mkrlwe.NewRotationKeySet()
		m.add = func(s, v int) { set.AddRotationKey(m.want(s, v).(*mkrlwe.RotationKey)) }
		m.del = func(s int) { set.DelRotationKey(id(s), idx(s)) }
		m.get = func(s int) interface{} { return set.GetRotationKey(id(s), idx(s)) }
		m.size = func() int {
			n := 0
			for _, r := range set.Value {
				n += len(r)
			}
			return n
		}
	}
	return m
}

func c17Keys(ids []string, kind string, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		m := newKeyMap(ids, kind)
		ref := map[int]int{}
		nops := 3 * m.slots
		if first >= nops {
			x.Skip()
		}
		for d := 0; d < depth; d++ {
			op := first
			if d > 0 {
				op = x.Choose("operation", nops)
			}
			s := op % m.slots
			if v := op / m.slots; v < 2 {
				x.Step("add slot %d version %d", s, v)
				m.add(s, v)
				ref[s] = v
			} else {
				x.Step("delete slot %d", s)
				m.del(s)
				delete(ref, s)
			}
			x.Assert(m.size() == len(ref), "%s key set: %d keys, want %d", kind, m.size(), len(ref))
			for s := 0; s < m.slots; s++ {
				v, in := ref[s]
				var got interface{}
				p, _ := mc.Panics(func() { got = m.get(s) })
				if in {
					x.Assert(!p, "%s key set: looking up a present key panics", kind)
					x.Assert(got == m.want(s, v), "%s key set: the lookup of slot %d gives another key than the one added last", kind, s)
				} else {
					x.Assert(p, "%s key set: looking up an absent key does not fail", kind)
				}
			}
			x.State(kind, fmt.Sprint(ref))
		}
	}
}

// crowdNames: many identities, in an order that is not the alphabetical one.
func crowdNames(n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint("m", (i*7+3)%n))
	}
	return
}

// c17CrowdKeys: a set with n members, then two operations on any of them.
func c17CrowdKeys(kind string, n int) func(x *mc.X) {
	ids := crowdNames(n)
	if n%7 == 0 {
		panic("names repeat")
	}
	return func(x *mc.X) {
		m := newKeyMap(ids, kind)
		ref := map[int]int{}
		check := func(what string) {
			x.Assert(m.size() == len(ref), "%s: %s key set: %d keys, want %d", what, kind, m.size(), len(ref))
			for s := 0; s < m.slots; s++ {
				v, in := ref[s]
				var got interface{}
				p, _ := mc.Panics(func() { got = m.get(s) })
				if in && (p || got != m.want(s, v)) {
					x.Fail("%s: %s key set: the lookup of slot %d does not give the key added last (panics: %v)", what, kind, s, p)
				}
				x.Assert(in || p, "%s: %s key set: looking up the absent key of slot %d does not fail", what, kind, s)
			}
		}
		for s := 0; s < m.slots; s++ {
			m.add(s, 0)
			ref[s] = 0
			if s == 7 || s == 8 || s == m.slots/2 {
				check(fmt.Sprintf("%d keys added", s+1))
			}
		}
		check("all keys added")
		k := x.Choose("slot", m.slots)
		for d := 0; d < 2; d++ {
			s := k
			if d == 1 {
				s = []int{k, (k + 1) % m.slots, 0, m.slots - 1, m.slots / 2}[x.Choose("second slot", 5)]
			}
			switch x.Choose("operation", 3) {
			case 0:
				m.add(s, 1)
				ref[s] = 1
			case 1:
				m.del(s)
				delete(ref, s)
			case 2:
				m.del(s)
				m.add(s, 1)
				ref[s] = 1
			}
			x.Step("operation %d on slot %d", d, s)
			check("afterwards")
		}
		x.State(kind, fmt.Sprint(ref))
	}
}

// c17CrowdIDs: sets of up to twelve members, their combinations, and ciphertexts of them.
func c17CrowdIDs(n int) func(x *mc.X) {
	ids := crowdNames(n)
	return func(x *mc.X) {
		all := crowdSets(ids)
		ia, ib := all[x.Choose("first set", len(all))], all[x.Choose("second set", len(all))]
		mk := func(l []string) (*mkrlwe.IDSet, map[string]bool) {
			s, m := mkrlwe.NewIDSet(), map[string]bool{}
			for _, id := range l {
				s.Add(id)
				m[id] = true
			}
			return s, m
		}
		a, ma := mk(ia)
		b, mb := mk(ib)
		u, i := map[string]bool{}, map[string]bool{}
		for _, id := range ids {
			if ma[id] || mb[id] {
				u[id] = true
			}
			if ma[id] && mb[id] {
				i[id] = true
			}
		}
		cp, su, si := a.CopyNew(), a.Union(b), a.Intersection(b)
		same := func(what string, s *mkrlwe.IDSet, m map[string]bool) {
			x.Assert(idsOf(s) == idsIn(m) && s.Size() == len(m), "%s is %s of size %d, want %s", what, idsOf(s), s.Size(), idsIn(m))
			for _, id := range ids {
				x.Assert(s.Has(id) == m[id], "%s: Has(%q) is %v", what, id, s.Has(id))
			}
		}
		same("the copy", cp, ma)
		same("the union", su, u)
		same("the intersection", si, i)
		x.Step("union and intersection of %v and %v", ia, ib)
		rp := lab.GetCK(kOne).Params.Parameters
		ct := mkrlwe.NewCiphertext(rp, a, 0)
		box := &cbox{ct: ct, comp: map[string]uint64{"0": 0}, ntt: map[string]bool{}}
		for k, id := range ia {
			box.comp[id] = uint64(k) + 1
			tagFill(ct.Value[id], uint64(k)+1)
		}
		box.check(x, rp.N(), "a new ciphertext")
		cc := box.clone(ct.CopyNew())
		ct.PadCiphertext(b)
		for _, id := range ib {
			if _, in := box.comp[id]; !in {
				box.comp[id] = 0
			}
		}
		box.check(x, rp.N(), "a padded ciphertext")
		cc.check(x, rp.N(), "a copy of it")
		for _, id := range ia[:1] {
			a.Remove(id)
			delete(ma, id)
		}
		b.Add("new")
		mb["new"] = true
		same("the first set", a, ma)
		same("the second set", b, mb)
		same("the union afterwards", su, u)
		same("the intersection afterwards", si, i)
		x.State(ia, ib)
	}
}

// c17Rlk: the multiplication works with whatever add/replace/delete history the key set has.
func c17Rlk(bfv bool, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		type mul func(set interface{}, ids []string)
		var add, del func(k int)
		var try func(i, j int)
		if bfv {
			c := lab.GetBF(bA1)
			w := lab.NewBWorld(x, c)
			w.Rlk = mkbfv.NewRelinearizationKeyKeySet(c.Params)
			add = func(k int) { w.Rlk.AddRelinearizationKey(c.Rlk[c.IDs[k]]) }
			del = func(k int) { w.Rlk.DelRelinearizationKey(c.IDs[k]) }
			cts := []*lab.BV{w.Encrypt(w.BVec(1), c.IDs[0]), w.Encrypt(w.BVec(2), c.IDs[1]), w.Encrypt(w.BVec(3), c.IDs[2])}
			try = func(i, j int) { w.Check(w.Mul(cts[i], cts[j]), "product") }
		} else {
			c := lab.GetCK(kA1)
			w := lab.NewWorld(x, c)
			w.Rlk = mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters)
			add = func(k int) { w.Rlk.AddRelinearizationKey(c.Rlk[c.IDs[k]]) }
			del = func(k int) { w.Rlk.DelRelinearizationKey(c.IDs[k]) }
			max := c.Params.MaxLevel()
			cts := []*lab.CV{w.Encrypt(lab.Vec(w.Slots(), 1), c.IDs[0], max), w.Encrypt(lab.Vec(w.Slots(), 2), c.IDs[1], max-1), w.Encrypt(lab.Vec(w.Slots(), 3), c.IDs[2], max)}
			try = func(i, j int) { w.Check(w.Mul(cts[i], cts[j]), "product") }
		}
		have := map[int]bool{}
		for d := 0; d < depth; d++ {
			op := first
			if d > 0 {
				op = x.Choose("operation", 6)
			}
			if op < 3 {
				add(op)
				have[op] = true
			} else {
				del(op - 3)
				delete(have, op-3)
			}
			for i := 0; i < 3; i++ {
				for j := i; j < 3; j++ {
					if have[i] && have[j] {
						try(i, j)
					} else {
						p, _ := mc.Panics(func() { try(i, j) })
						x.Assert(p, "a product succeeds although a relinearization key was deleted or never added")
					}
				}
			}
			x.State(bfv, fmt.Sprint(have))
		}
	}
}

// cbox is a ciphertext with its model.
type cbox struct {
	ct    *mkrlwe.Ciphertext
	comp  map[string]uint64 // tag of the content of every component
	level int
	ntt   map[string]bool
}

func tagFill(p *ring.Poly, tag uint64) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = 0
			if tag > 0 {
				p.Coeffs[i][j] = tag*1000 + uint64(i)*31 + uint64(j)
			}
		}
	}
}

func (b *cbox) check(x *mc.X, n int, what string) {
	x.Assert(b.ct.Level() == b.level, "%s: Level() is %d, want %d", what, b.ct.Level(), b.level)
	var want []string
	for id := range b.comp {
		if id != "0" {
			want = append(want, id)
		}
	}
	sort.Strings(want)
	x.Assert(idsOf(b.ct.IDSet()) == fmt.Sprintf("%q", append([]string(nil), want...)), "%s: IDSet() is %s, want %q", what, idsOf(b.ct.IDSet()), want)
	x.Assert(len(b.ct.Value) == len(b.comp), "%s: %d components, want %d", what, len(b.ct.Value), len(b.comp))
	x.Assert(b.ct.El() == b.ct, "%s: El() is another object", what)
	for id, tag := range b.comp {
		p := b.ct.Value[id]
		x.Assert(p != nil, "%s: no component %q", what, id)
		x.Assert(len(p.Coeffs) == b.level+1, "%s: component %q has %d rows, want %d", what, id, len(p.Coeffs), b.level+1)
		x.Assert(p.IsNTT == b.ntt[id], "%s: the domain flag of component %q is %v", what, id, p.IsNTT)
		ref := ring.NewPoly(n, b.level+1)
		tagFill(ref, tag)
		for i := range ref.Coeffs {
			x.Assert(len(p.Coeffs[i]) == n, "%s: component %q has %d coefficients", what, id, len(p.Coeffs[i]))
			for j := range ref.Coeffs[i] {
				if p.Coeffs[i][j] != ref.Coeffs[i][j] {
					x.Fail("%s: component %q is changed at prime %d coefficient %d", what, id, i, j)
				}
			}
		}
	}
}

func (b *cbox) clone(ct *mkrlwe.Ciphertext) *cbox {
	o := &cbox{ct: ct, level: b.level, comp: map[string]uint64{}, ntt: map[string]bool{}}
	for k, v := range b.comp {
		o.comp[k] = v
	}
	for k, v := range b.ntt {
		o.ntt[k] = v
	}
	return o
}

// c17Ct: sequences of creation, padding, copying, overwriting and level drops of two ciphertexts.
func c17Ct(c17IDs []string, kind string, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		ck, bf := lab.GetCK(kA1), lab.GetBF(bA1)
		rp := ck.Params.Parameters
		if kind == "bfv" {
			rp = bf.Params.Parameters
		}
		n := rp.N()
		create := func(ids []string, level int, ntt bool) *cbox {
			b := &cbox{comp: map[string]uint64{"0": 0}, ntt: map[string]bool{"0": ntt}, level: level}
			for _, id := range ids {
				b.comp[id], b.ntt[id] = 0, ntt
			}
			s := lab.Set(ids...)
			switch {
			case kind == "bfv" && ntt:
				b.ct, b.level = mkbfv.NewCiphertextNTT(bf.Params, s).Ciphertext, bf.Params.MaxLevel()
			case kind == "bfv":
				b.ct, b.level = mkbfv.NewCiphertext(bf.Params, s).Ciphertext, bf.Params.MaxLevel()
			case kind == "ckks":
				c := mkckks.NewCiphertext(ck.Params, s, level, 42)
				x.Assert(c.Scale == 42 && c.ScalingFactor() == 42, "the scale of a new ciphertext is %v", c.Scale)
				c.SetScalingFactor(43)
				d := c.CopyNew()
				x.Assert(c.ScalingFactor() == 43 && d.Scale == 43, "SetScalingFactor or CopyNew loses the scale")
				b.ct = c.Ciphertext
				for id := range b.ntt {
					b.ntt[id] = false
				}
			case ntt:
				b.ct = mkrlwe.NewCiphertextNTT(rp, s, level)
			default:
				b.ct = mkrlwe.NewCiphertext(rp, s, level)
			}
			s.Add("later")
			s.Remove(c17IDs[0])
			return b
		}
		a := create(sub0(c17IDs, first%8), first/8%rp.QCount(), first%3 == 0)
		a.check(x, n, "new ciphertext")
		b := create(c17IDs[:1], 1, false)
		tags := uint64(0)
		for d := 0; d < depth; d++ {
			op := x.Choose("operation", 16)
			x.Step("operation %d", op)
			switch {
			case op < 8: // pad
				ids := sub0(c17IDs, op)
				s := lab.Set(ids...)
				a.ct.PadCiphertext(s)
				for _, id := range ids {
					if _, in := a.comp[id]; !in {
						a.comp[id], a.ntt[id] = 0, a.ntt["0"]
					}
				}
				x.Assert(s.Size() == len(ids), "PadCiphertext changes the identity set")
			case op < 12: // overwrite one component of the first
				id := append(append([]string(nil), c17IDs...), "0")[op-8]
				if _, in := a.comp[id]; !in {
					x.Skip()
				}
				tags++
				tagFill(a.ct.Value[id], tags)
				a.comp[id] = tags
			case op == 12: // the second becomes a copy of the first
				b = a.clone(a.ct.CopyNew())
				if o := lab.ObjRL("copy", b.ct).Overlap([]lab.Obj{lab.ObjRL("original", a.ct)}); o != "" {
					x.Fail("a copy shares memory with the %s", o)
				}
			case op == 13: // exchange
				a, b = b, a
			case op == 14: // Copy from the second to the first, where defined
				if a.level != b.level {
					x.Skip()
				}
				for id := range b.comp {
					if _, in := a.comp[id]; !in {
						x.Skip()
					}
				}
				a.ct.Copy(b.ct)
				for id, t := range b.comp {
					a.comp[id], a.ntt[id] = t, b.ntt[id]
				}
			case op == 15:
				if kind == "bfv" || a.level == 0 {
					x.Skip()
				}
				mkckks.NewEvaluator(ck.Params).DropLevel(&mkckks.Ciphertext{Ciphertext: a.ct, Scale: 1}, 1)
				a.level--
			}
			a.check(x, n, "first ciphertext")
			b.check(x, n, "second ciphertext")
			x.State(kind, lab.SortedKeys(a.comp), a.level, lab.SortedKeys(b.comp), b.level)
		}
	}
}

// c17Copies: copies of keys are deep, constructors give zero objects of the right shape and owner.
func c17Copies() func(x *mc.X) {
	return func(x *mc.X) {
		c, bf := lab.GetCK(kA2), lab.GetBF(bA2)
		rp := c.Params.Parameters
		id := c.IDs[x.Choose("party", len(c.IDs))]
		switch x.Choose("object", 6) {
		case 0:
			s := c.SK[id].CopyNew()
			x.Assert(s.ID == id && lab.NewH().SK(s) == lab.NewH().SK(c.SK[id]), "the copy of a secret key differs from it")
			o := lab.ObjSK("copy", s)
			x.Assert(o.Overlap([]lab.Obj{lab.ObjSK("original", c.SK[id])}) == "", "the copy of a secret key shares memory with it")
			o.Scribble()
			s.ID = "other"
			x.Assert(c.Intact(), "changing a copy changes the key")
			var z *mkrlwe.SecretKey
			x.Assert(z.CopyNew() == nil, "the copy of no key is a key")
		case 1:
			s := c.PK[id].CopyNew()
			x.Assert(s.ID == id && lab.NewH().PK(s) == lab.NewH().PK(c.PK[id]), "the copy of a public key differs from it")
			o := lab.ObjPK("copy", s)
			x.Assert(o.Overlap([]lab.Obj{lab.ObjPK("original", c.PK[id])}) == "", "the copy of a public key shares memory with it")
			o.Scribble()
			s.ID = "other"
			x.Assert(c.Intact(), "changing a copy changes the key")
			var z *mkrlwe.PublicKey
			x.Assert(z.CopyNew() == nil, "the copy of no key is a key")
		case 2:
			beta := (rp.QCount() + rp.Alpha() - 1) / rp.Alpha()
			shape := func(what string, k *mkrlwe.SwitchingKey) {
				x.Assert(len(k.Value) == beta, "%s: %d digits, want %d", what, len(k.Value), beta)
				var bufs [][]uint64
				for _, v := range k.Value {
					x.Assert(len(v.Q.Coeffs) == rp.QCount() && len(v.P.Coeffs) == rp.PCount(), "%s: wrong number of primes", what)
					bufs = append(append(bufs, v.Q.Coeffs...), v.P.Coeffs...)
				}
				seen := map[*uint64]bool{}
				for _, b := range bufs {
					x.Assert(len(b) == rp.N() && !seen[&b[0]], "%s: rows shared or of a wrong size", what)
					seen[&b[0]] = true
					for _, v := range b {
						x.Assert(v == 0, "%s: a new key is not zero", what)
					}
				}
			}
			shape("switching key", mkrlwe.NewSwitchingKey(rp))
			r := mkrlwe.NewRelinearizationKey(rp, id)
			x.Assert(r.ID == id && r.Value[0] != r.Value[1] && r.Value[1] != r.Value[2] && r.Value[0] != r.Value[2], "relinearization key: owner or shared parts")
			for _, k := range r.Value {
				shape("relinearization key", k)
			}
			rk := mkrlwe.NewRotationKey(rp, 5, id)
			x.Assert(rk.ID == id && rk.RotIdx == 5, "rotation key: owner or index")
			shape("rotation key", rk.Value)
			cj := mkrlwe.NewConjugationKey(rp, id)
			x.Assert(cj.ID == id, "conjugation key: owner")
			shape("conjugation key", cj.Value)
			x.Assert(mkrlwe.NewSecretKey(rp, id).ID == id && mkrlwe.NewPublicKey(rp, id).ID == id, "secret or public key: owner")
		case 3:
			r := mkbfv.NewRelinearizationKey(bf.Params, id)
			x.Assert(r.ID == id && r.Value[0] != r.Value[1] && r.Value[0].ID == id && r.Value[1].ID == id, "BFV relinearization key: owner or shared parts")
		case 4:
			m := mkckks.NewMessage(c.Params)
			x.Assert(m.Slots() == c.Params.Slots() && len(m.Value) == m.Slots(), "CKKS message: %d slots", m.Slots())
			b := mkbfv.NewMessage(bf.Params)
			x.Assert(b.Slots() == bf.Params.N() && len(b.Value) == b.Slots(), "BFV message: %d slots", b.Slots())
		case 5:
			h, g := mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
			h.Value[id] = mkrlwe.NewSwitchingKey(rp)
			x.Assert(len(h.Value) == 1 && len(g.Value) == 0, "hoisted ciphertexts share their components")
		}
		x.Step("copies of %s", id)
		x.State(id)
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C17",
		Bounds: map[string]string{
			"quick":    "3 identities (one empty, one made of zeroes), 2 versions of every key: all sequences of 5 operations on two identity sets, 5 on every key set (4 for the 6-slot rotation set), 5 on pairs of ciphertexts, 4 on relinearization key sets with all products after each step; sequences of 3 over six further triples of easily confused names (case, blanks, long common beginnings, joined with an index); key sets with 9, 17 and 33 members under two operations on any member, identity sets and ciphertexts of up to 33 members",
			"thorough": "one more operation in every sequence",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			e := 0
			if tier == "thorough" {
				e = 1
			}
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			for f := 0; f < 17; f++ {
				add(fmt.Sprintf("idset/%d", f), c17IDSet(c17IDs, 5+e, f))
			}
			for _, k := range c17KeyMaps() {
				n, d := 9, 5
				if k == "rotation" {
					n, d = 18, 4
				}
				for f := 0; f < n; f++ {
					add(fmt.Sprintf("%s/%d", strings.ReplaceAll(k, " ", "-"), f), c17Keys(c17IDs, k, d+e, f))
				}
			}
			for f := 0; f < 6; f++ {
				add(fmt.Sprintf("products/ckks/%d", f), c17Rlk(false, 4+e, f))
				add(fmt.Sprintf("products/bfv/%d", f), c17Rlk(true, 4+e, f))
			}
			for f := 0; f < 24; f++ {
				add(fmt.Sprintf("ciphertext/mkrlwe/%d", f), c17Ct(c17IDs, "mkrlwe", 4+e, f))
			}
			for f := 0; f < 8; f++ {
				add(fmt.Sprintf("ciphertext/ckks/%d", f), c17Ct(c17IDs, "ckks", 4+e, f))
				add(fmt.Sprintf("ciphertext/bfv/%d", f), c17Ct(c17IDs, "bfv", 4+e, f))
			}
			for i, ids := range c17Names {
				for f := 0; f < 17; f++ {
					add(fmt.Sprintf("names%d/idset/%d", i, f), c17IDSet(ids, 3+e, f))
				}
				for _, k := range c17KeyMaps() {
					n := 9
					if k == "rotation" {
						n = 18
						if ids[0] == "" {
							n = 36
						}
					}
					for f := 0; f < n; f++ {
						add(fmt.Sprintf("names%d/%s/%d", i, strings.ReplaceAll(k, " ", "-"), f), c17Keys(ids, k, 3+e, f))
					}
				}
				for f := 0; f < 8; f++ {
					add(fmt.Sprintf("names%d/ciphertext/ckks/%d", i, f), c17Ct(ids, "ckks", 2+e, f))
				}
			}
			sizes := []int{9, 17, 33}
			if e > 0 {
				sizes = append(sizes, 8, 16, 32, 65)
			}
			for _, n := range sizes {
				for _, k := range c17KeyMaps() {
					add(fmt.Sprintf("crowd%d/%s", n, strings.ReplaceAll(k, " ", "-")), c17CrowdKeys(k, n))
				}
			}
			for _, n := range []int{12, 33} {
				add(fmt.Sprintf("crowd%d/idset", n), c17CrowdIDs(n))
			}
			add("copies", c17Copies())
			return us
		},
	})
}
