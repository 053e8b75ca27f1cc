package props

import (
	"fmt"

	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C10: rotations rotate, by every index.

// indices covers every residue modulo the number of slots several times, and far away.
func indices(n int, full bool) []int {
	var ks []int
	lim := n / 2
	if full {
		lim = 2*n + 1
	}
	for k := -lim; k <= lim; k++ {
		ks = append(ks, k)
	}
	return append(ks, n-1, n, n+1, 2*n, -2*n, 1000003, -1000003, 1<<20)
}

func c10Ckks(l lab.Lit, n int, full bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		ids := subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1))
		level := x.Choose("level", max+1)
		a := ckSum(w, ids, level, 1)
		ks := indices(c.Params.N(), full)
		h := w.Ev.HoistedForm(a.CT)
		half := c.Params.N() / 2
		// all indices on the same instances, each checked
		for _, k := range ks {
			r := w.Rot(a, k)
			w.Check(r, fmt.Sprintf("rotation by %d", k))
			if _, in := c.Params.CRS[((k%half)+half)%half]; in || k%half == 0 {
				g := w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, h, w.Rtk))
				w.Check(g, fmt.Sprintf("hoisted rotation by %d", k))
				x.Count(1)
			}
		}
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the rotations changed the keys or the parameters")
	}
}

// few covers the powers of two, their neighbours, their triples and the ends.
func few(n int) []int {
	ks := []int{0, n/2 - 2, -n/2 + 1, n / 2, n/2 + 1, 300, -300, 1000003}
	for p := 1; p < n/2; p *= 2 {
		ks = append(ks, p, p+1, p-1, 3*p, -p)
	}
	return ks
}

// c10Large: rings too large for every index.
func c10Large(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		ids := subset(c.IDs[:2], x.Choose("parties", 3))
		a := ckSum(w, ids, x.Choose("level", c.Params.MaxLevel()+1), 1)
		n := c.Params.N()
		ks := few(n)
		k := ks[x.Choose("index", len(ks))]
		w.Check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
		if _, in := c.Params.CRS[((k%(n/2))+n/2)%(n/2)]; in {
			h := w.Ev.HoistedForm(a.CT)
			w.Check(w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, h, w.Rtk)), fmt.Sprintf("hoisted rotation by %d", k))
		}
		w.Check(a, "operand afterwards")
	}
}

func c10LargeBfv(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		a := bfSum(w, subset(c.IDs[:2], x.Choose("parties", 3)), 1)
		ks := few(c.Params.N())
		k := ks[x.Choose("index", len(ks))]
		w.Check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
		w.Check(a, "operand afterwards")
	}
}

// c10Compose: every composition of two rotations.
func c10Compose(l lab.Lit, first int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		half := c.Params.N() / 2
		level := x.Choose("level", 2) * c.Params.MaxLevel()
		a := ckSum(w, c.IDs[:2], level, 1)
		b := w.Rot(a, first)
		k := x.Choose("second", half+1) - half/2
		r := w.Rot(b, k)
		w.Check(r, fmt.Sprintf("rotation by %d, then by %d", first, k))
		d := w.Rot(a, first+k)
		w.Check(d, fmt.Sprintf("rotation by %d", first+k))
		// rotations are additive and commute with sums
		s := w.Add(r, d)
		w.Check(s, "sum of rotations")
		z := w.Rot(r, -first-k)
		w.Check(z, "rotation back")
	}
}

// c10Key: a key generated for any index, positive or not, serves the rotation by this index.
func c10Key(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		half := c.Params.N() / 2
		r := 1 + x.Choose("index", half-1)
		k := r + (x.Choose("turns", 2)-1)*half
		party := c.IDs[x.Choose("party", 2)]
		rk := w.KG.GenRotationKey(k, c.SK[party])
		x.Step("GenRotationKey(%d)", k)
		set := mkrlwe.NewRotationKeySet()
		for _, id := range c.IDs[:2] {
			if id != party {
				set.AddRotationKey(c.Rtk[id][r])
			}
		}
		set.AddRotationKey(rk)
		a := ckSum(w, c.IDs[:2], x.Choose("level", c.Params.MaxLevel()+1), 1)
		for _, turn := range []int{r, r - half, r + 3*half} {
			w.Check(w.RotModel(a, turn, w.Ev.RotateNew(a.CT, turn, set)), fmt.Sprintf("rotation by %d with a key generated for %d", turn, k))
			h := w.Ev.HoistedForm(a.CT)
			w.Check(w.RotModel(a, turn, w.Ev.RotateHoistedNew(a.CT, turn, h, set)), fmt.Sprintf("hoisted rotation by %d with a key generated for %d", turn, k))
		}
	}
}

func c10Bfv(l lab.Lit, n int, full bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		ids := subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1))
		a := bfSum(w, ids, 1)
		kind := x.Choose("history", 2)
		if kind == 1 {
			a = w.Mul(a, w.Encrypt(w.BVec(5), ids[0]))
			if !w.Fits(a) {
				x.Skip()
			}
		}
		for _, k := range indices(c.Params.N(), full) {
			w.Check(w.Rot(a, k), fmt.Sprintf("rotation by %d", k))
		}
		k := x.Choose("first", c.Params.N()/2)
		j := x.Choose("second", c.Params.N()/2)
		w.Check(w.Rot(w.Rot(a, k), -j), fmt.Sprintf("rotation by %d, then by %d", k, -j))
		w.Check(a, "operand afterwards")
		x.Assert(c.Intact(), "the rotations changed the keys or the parameters")
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C10",
		Bounds: map[string]string{
			"quick":    "ring degrees 16, 32 and 64: every index in [-2N-1,2N+1] and far beyond, every level, every party set, dedicated, composed and hoisted, every composition of two rotations; keys generated for every index; BFV likewise; 1 to 20 primes; 12 parties; degrees 1024 and 8192: the powers of two, their neighbours and triples, the ends, every level and party set; all histories of 3 rotations and changes in place over two variables",
			"thorough": "as quick with every parameter set, and ring degrees up to 1024, histories of 4",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			th := tier == "thorough"
			for _, l := range []lab.Lit{kRot, kRotAll, kA1, kSkew2, kSparse2, kSparse1, kN32} {
				add("ckks/"+l.Name, c10Ckks(l, minInt(l.Parties, 3), true))
			}
			add("ckks/n64", c10Ckks(kN64, 2, true))
			for f := -9; f <= 9; f++ {
				add(fmt.Sprintf("compose/rot/%d", f), c10Compose(kRot, f))
				add(fmt.Sprintf("compose/rotall/%d", f), c10Compose(kRotAll, f))
				{
					add(fmt.Sprintf("compose/a3/%d", f), c10Compose(kA3, f))
					add(fmt.Sprintf("compose/n32/%d", f), c10Compose(kN32, f))
				}
			}
			add("ckks/rot64", c10Ckks(kRot64, 2, false))
			for f := -1; f <= 1; f++ {
				add(fmt.Sprintf("compose/rot64/%d", 7*f), c10Compose(kRot64, 7*f))
			}
			add("large/ckks/n1024", c10Large(kN1024))
			add("large/ckks/n8192", c10Large(kN8192))
			add("large/bfv/bn1024", c10LargeBfv(bN1024))
			add("crowd/ckks", crowdAuto(kMany, false))
			add("crowd/bfv", crowdAutoBfv(bMany, false))
			add("key/rotall", c10Key(kRotAll))
			for _, l := range []lab.Lit{bA1, bRot} {
				add("bfv/"+l.Name, c10Bfv(l, 2, true))
			}
			add("bfv/bt", c10Bfv(bT, 1, false))
			for _, l := range []lab.Lit{kA2, kA2o, kA3, kA4, kSkew, kSmall, kBig, kSparse0, kDouble, kOne, kWide, kWide3} {
				add("ckks/"+l.Name, c10Ckks(l, 2, true))
			}
			for _, l := range []lab.Lit{bA2, bSkew, bA3, bOdd, bBig, bWide} {
				add("bfv/"+l.Name, c10Bfv(l, 2, true))
			}
			if th {
				add("ckks/five", c10Ckks(kFive, 5, true))
				add("ckks/n256", c10Ckks(kN256, 2, true))
				add("ckks/n1024", c10Ckks(kN1024, 2, false))
				add("bfv/five", c10Bfv(bFive, 4, true))
				for f := -17; f <= 17; f++ {
					add(fmt.Sprintf("compose/n64/%d", f), c10Compose(kN64, f))
				}
			}
			d := 3
			if th {
				d = 4
			}
			us = ckRegUnits(us, "ri", d, kA1, kRot)
			us = bfRegUnits(us, "ri", d, bA1)
			return us
		},
	})
}
