package props

import (
	"fmt"
	"strings"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"verifmc/lab"
	"verifmc/mc"
)

// C07, histories over parties: what an instance did for some parties changes
// nothing for others.

// partySets lists the party sets of the operands, as indices.
func partySets(tier string) [][]int {
	if tier == "crowd" { // of twelve parties
		return [][]int{{0}, {11}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, {4, 5, 6, 7, 8, 9, 10, 11}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}}
	}
	s := [][]int{{0}, {1}, {2}, {0, 1}, {2, 3}, {0, 1, 2, 3}}
	if tier == "thorough" {
		s = append(s, []int{3}, []int{1, 2}, []int{0, 2, 3})
	}
	return s
}

// partyEvent is one operation with its operands.
type partyEvent struct {
	name string
	run  func() (check func(what string))
}

func pick(ids []string, s []int) (o []string) {
	for _, i := range s {
		o = append(o, ids[i])
	}
	return
}

// ckPartyEvents builds the events on one set of instances; cur points to the
// world in use, the operands belong to ref.
func ckPartyEvents(ref *lab.World, cur **lab.World, tier string) (evs []partyEvent) {
	ids := ref.C.IDs
	top := ref.C.Params.MaxLevel()
	n := ref.Slots()
	var plain, skew, low []*lab.CV
	sets := partySets(tier)
	for i, s := range sets {
		plain = append(plain, ckSum(ref, pick(ids, s), top, i))
		low = append(low, ckSum(ref, pick(ids, s), top-1, i+20))
		a := ckSum(ref, pick(ids, s), top, i+10)
		a.CT.Scale, a.Scale = a.Scale*4, a.Scale*4
		for j := range a.V {
			a.V[j] /= 4
		}
		a.Mag, a.Err = a.Mag/4, a.Err/4
		skew = append(skew, a)
	}
	add := func(name string, f func(w *lab.World) *lab.CV) {
		evs = append(evs, partyEvent{name, func() func(string) {
			w := *cur
			o := f(w)
			return func(what string) { ref.X = w.X; ref.Check(o, what) }
		}})
	}
	msg := func(name string, f func(w *lab.World) (*mkckks.Message, *lab.CV)) {
		evs = append(evs, partyEvent{name, func() func(string) {
			w := *cur
			m, o := f(w)
			return func(what string) { ref.X = w.X; ref.CheckMsg(m, o, what) }
		}})
	}
	for i := range sets {
		for j := range sets {
			i, j := i, j
			t := fmt.Sprintf("(%v,%v)", sets[i], sets[j])
			add("add of scales"+t, func(w *lab.World) *lab.CV { return w.Add(plain[i], skew[j]) })
			add("sub of levels"+t, func(w *lab.World) *lab.CV { return w.Sub(skew[i], low[j]) })
			if (tier == "thorough" || i >= j) && ref.CanMul(plain[i], low[j]) {
				add("mul"+t, func(w *lab.World) *lab.CV { return w.Mul(plain[i], low[j]) })
			}
		}
	}
	for i := range sets {
		i := i
		t := fmt.Sprintf("(%v)", sets[i])
		add("rot"+t, func(w *lab.World) *lab.CV { return w.Rot(plain[i], 3) })
		add("conj"+t, func(w *lab.World) *lab.CV { return w.Conj(low[i]) })
		add("const"+t, func(w *lab.World) *lab.CV { return w.MulConst(plain[i], 0.75) })
		msg("dec"+t, func(w *lab.World) (*mkckks.Message, *lab.CV) { return w.Dec.Decrypt(low[i].CT, w.SKs), low[i] })
		if len(sets[i]) == 1 {
			add("enc"+t, func(w *lab.World) *lab.CV { return w.Encrypt(lab.Vec(n, i), ids[sets[i][0]], top) })
		}
	}
	return
}

func bfPartyEvents(ref *lab.BWorld, cur **lab.BWorld, tier string) (evs []partyEvent) {
	ids := ref.C.IDs
	var a, b []*lab.BV
	sets := partySets(tier)
	for i, s := range sets {
		a = append(a, bfSum(ref, pick(ids, s), i))
		b = append(b, bfSum(ref, pick(ids, s), i+10))
	}
	add := func(name string, f func(w *lab.BWorld) *lab.BV) {
		evs = append(evs, partyEvent{name, func() func(string) {
			w := *cur
			o := f(w)
			return func(what string) { ref.X = w.X; ref.Check(o, what) }
		}})
	}
	for i := range sets {
		for j := range sets {
			i, j := i, j
			t := fmt.Sprintf("(%v,%v)", sets[i], sets[j])
			add("add"+t, func(w *lab.BWorld) *lab.BV { return w.Add(a[i], b[j]) })
			add("mul"+t, func(w *lab.BWorld) *lab.BV { return w.Mul(a[i], b[j]) })
		}
	}
	for i := range sets {
		i := i
		t := fmt.Sprintf("(%v)", sets[i])
		add("rot"+t, func(w *lab.BWorld) *lab.BV { return w.Rot(a[i], 3) })
		add("conj"+t, func(w *lab.BWorld) *lab.BV { return w.Conj(a[i]) })
		evs = append(evs, partyEvent{"dec" + t, func() func(string) {
			w := *cur
			var m *mkbfv.Message = w.Dec.Decrypt(b[i].CT, w.SKs)
			return func(what string) { ref.X = w.X; ref.CheckMsg(m, b[i], what) }
		}})
		if len(sets[i]) == 1 {
			add("enc"+t, func(w *lab.BWorld) *lab.BV { return w.Encrypt(w.BVec(i), ids[sets[i][0]]) })
		}
	}
	return
}

// c07Parties: every history of depth-1 events, then every event.
func c07Parties(depth, part, parts int, mk func(x *mc.X) (evs []partyEvent, fresh func(x *mc.X))) func(x *mc.X) {
	var evs []partyEvent
	var fresh func(x *mc.X)
	return func(x *mc.X) {
		if evs == nil {
			evs, fresh = mk(x)
		}
		fresh(x)
		var names []string
		for d := 0; d < depth; d++ {
			i := 0
			if d == 0 { // the units split the first event
				i = part + parts*x.Choose("event", (len(evs)-part+parts-1)/parts)
			} else {
				i = x.Choose("event", len(evs))
			}
			check := evs[i].run()
			what := evs[i].name
			if d > 0 {
				what += " after " + strings.Join(names, ", ")
			}
			if d == depth-1 || d == 0 {
				check(what)
			}
			names = append(names, evs[i].name)
		}
		x.Count(depth)
		x.StateHash(uint64(lab.NewH().S(strings.Join(names, "|"))))
	}
}

func c07PartyUnits(tier string) (us []mc.Unit) {
	us = append(us, c07PartyDepth(2, 8, tier, kFive, bFive)...)
	us = append(us, c07PartyDepth(2, 8, "crowd", kMany, bMany)...)
	if tier == "thorough" {
		us = append(us, c07PartyDepth(3, 32, "quick", kFive, bFive)...)
	}
	return
}

func c07PartyDepth(depth, parts int, tier string, kl, bl lab.Lit) (us []mc.Unit) {
	for part := 0; part < parts; part++ {
		us = append(us, mc.Unit{Name: fmt.Sprintf("parties/%s/depth%d/%d", kl.Name, depth, part), Body: c07Parties(depth, part, parts, func(x *mc.X) ([]partyEvent, func(*mc.X)) {
			c := lab.GetCK(kl)
			ref := lab.NewWorld(x, c)
			var cur *lab.World
			evs := ckPartyEvents(ref, &cur, tier)
			return evs, func(x *mc.X) { cur = lab.NewWorld(x, c) }
		})})
		us = append(us, mc.Unit{Name: fmt.Sprintf("parties/%s/depth%d/%d", bl.Name, depth, part), Body: c07Parties(depth, part, parts, func(x *mc.X) ([]partyEvent, func(*mc.X)) {
			c := lab.GetBF(bl)
			ref := lab.NewBWorld(x, c)
			var cur *lab.BWorld
			evs := bfPartyEvents(ref, &cur, tier)
			return evs, func(x *mc.X) { cur = lab.NewBWorld(x, c) }
		})})
	}
	return
}
