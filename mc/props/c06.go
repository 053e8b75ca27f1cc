package props

import (
	"strings"

	"verifmc/lab"
	"verifmc/mc"
)

// C06: operations leave their inputs, and everything else that exists, unchanged.

// actRec is what C06 and C07 need of an act, whatever the scheme.
type actRec struct {
	name       string
	fail, rand bool
	run        func() lab.Out
}

// actWorld abstracts over the two environments.
type actWorld struct {
	objs  []lab.Obj // operands, keys and reference strings
	acts  []actRec
	fresh func()
	ring  func(a, b lab.Out) bool // close results

	changer func() lab.Changer // gives the operands other values in place
	// other parties' keys: an environment whose operations use the instances and
	// collections of this one, holding the keys of either
	other func() (o *actWorld, use func(k int))
}

func ckActWorld(x *mc.X, l lab.Lit) *actWorld { return ckActWorldOf(x, lab.GetCK(l)) }

func ckActWorldOf(x *mc.X, c *lab.CK) *actWorld { return ckActWorldOn(c, lab.NewCEnv(x, c)) }

func ckActWorldOn(c *lab.CK, e *lab.CEnv) *actWorld {
	w := &actWorld{objs: append(append([]lab.Obj{}, e.Objs...), c.Objs()...), fresh: e.Fresh}
	for _, a := range lab.CkActsOf(c.Lit) {
		a := a
		w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
	}
	w.ring = func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }
	w.changer = e.Changer
	w.other = func() (*actWorld, func(k int)) {
		f := e.Other()
		return ckActWorldOn(f.Judge.C, f), func(k int) {
			if k == 1 {
				f.Use(e)
			} else {
				e.Use(e)
			}
		}
	}
	return w
}

// ckFirst lists the acts to start from on a configuration: the CNN layers on
// the one made for them.
func ckFirst(l lab.Lit) (is []int) {
	for i, a := range lab.CkActsOf(l) {
		if !l.Cnn || strings.HasPrefix(a.Name, "cnn") {
			is = append(is, i)
		}
	}
	return
}

func bfActWorld(x *mc.X, l lab.Lit) *actWorld { return bfActWorldOf(x, lab.GetBF(l)) }

func bfActWorldOf(x *mc.X, c *lab.BF) *actWorld { return bfActWorldOn(c, lab.NewBEnv(x, c)) }

func bfActWorldOn(c *lab.BF, e *lab.BEnv) *actWorld {
	w := &actWorld{objs: append(append([]lab.Obj{}, e.Objs...), c.Objs()...), fresh: e.Fresh}
	for _, a := range lab.BfActs() {
		a := a
		w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
	}
	w.ring = func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }
	w.changer = e.Changer
	w.other = func() (*actWorld, func(k int)) {
		f := e.Other()
		return bfActWorldOn(f.Judge.C, f), func(k int) {
			if k == 1 {
				f.Use(e)
			} else {
				e.Use(e)
			}
		}
	}
	return w
}

func rlActWorld(x *mc.X, l lab.Lit) *actWorld { return rlActWorldOf(x, lab.GetRL(l)) }

func rlActWorldOf(x *mc.X, c *lab.RL) *actWorld { return rlActWorldOn(c, lab.NewREnv(x, c)) }

func rlActWorldOn(c *lab.RL, e *lab.REnv) *actWorld {
	w := &actWorld{objs: append(append([]lab.Obj{}, e.Objs...), c.Objs()...), fresh: e.Fresh}
	for _, a := range lab.RActs() {
		a := a
		w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
	}
	w.ring = func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }
	w.changer = e.Changer
	w.other = func() (*actWorld, func(k int)) {
		f := e.Other()
		return rlActWorldOn(f.C, f), func(k int) {
			if k == 1 {
				f.Use(e)
			} else {
				e.Use(e)
			}
		}
	}
	return w
}

// do runs an act, expecting the failure it announces.
func (w *actWorld) do(x *mc.X, a actRec) lab.Out {
	x.Step("%s", a.name)
	if a.fail {
		p, _ := mc.Panics(func() { a.run() })
		x.Assert(p, "%s: a result is returned although a key is missing", a.name)
		return lab.Out{}
	}
	return a.run()
}

func hashes(os []lab.Obj) []lab.H {
	out := make([]lab.H, len(os))
	for i, o := range os {
		out[i] = o.Hash()
	}
	return out
}

func unchanged(x *mc.X, os []lab.Obj, hs []lab.H, by string) {
	for i, o := range os {
		if o.Hash() != hs[i] {
			x.Fail("%s changes %s", by, o.Name)
		}
	}
}

func c06(mk func(x *mc.X) *actWorld, first int) func(x *mc.X) {
	return func(x *mc.X) {
		w := mk(x)
		a := w.acts[first]
		h0 := hashes(w.objs)
		r1 := w.do(x, a)
		unchanged(x, w.objs, h0, a.name)
		for _, o := range r1.Objs {
			if s := o.Overlap(w.objs); s != "" {
				x.Fail("the %s shares memory with %s", o.Name, s)
			}
		}
		if r1.Verify != nil {
			r1.Verify()
		}
		b := w.acts[x.Choose("second act", len(w.acts))]
		scribble := x.Bool("overwrite the first result")
		if scribble {
			// the caller reuses the memory of the result: nothing else may depend on it
			for _, o := range r1.Objs {
				o.Scribble()
			}
			unchanged(x, w.objs, h0, "overwriting the result of "+a.name)
		}
		h1 := hashes(r1.Objs)
		r2 := w.do(x, b)
		by := b.name + " after " + a.name
		unchanged(x, w.objs, h0, by)
		unchanged(x, r1.Objs, h1, by)
		for _, o := range r2.Objs {
			if s := o.Overlap(append(append([]lab.Obj{}, w.objs...), r1.Objs...)); s != "" {
				x.Fail("%s: the %s shares memory with %s", by, o.Name, s)
			}
		}
		h2 := hashes(r2.Objs)
		if r2.Verify != nil {
			r2.Verify()
		}
		if !scribble {
			// overwriting the second result leaves the first one alone
			unchanged(x, r2.Objs, h2, "verifying")
			for _, o := range r2.Objs {
				o.Scribble()
			}
			unchanged(x, r1.Objs, h1, "overwriting the result of "+by)
			if r1.Verify != nil {
				r1.Verify()
			}
		} else {
			// the first operation again, its earlier result being overwritten
			r3 := w.do(x, a)
			unchanged(x, r2.Objs, h2, a.name+" repeated")
			if r3.Verify != nil {
				r3.Verify()
			}
		}
		unchanged(x, w.objs, h0, by)
		for i, o := range append(r1.Objs, r2.Objs...) {
			x.StateHash(uint64(o.Hash().U(uint64(i))))
		}
	}
}

// c06Operand: results survive the destruction of their operands.
func c06Operand(mk func(x *mc.X) *actWorld) func(x *mc.X) {
	return func(x *mc.X) {
		w := mk(x)
		a := w.acts[x.Choose("act", len(w.acts))]
		r := w.do(x, a)
		hs := hashes(r.Objs)
		for _, o := range w.objs {
			if len(o.Name) > 7 && (o.Name[:7] == "operand" || o.Name[:7] == "hoisted" || o.Name[:7] == "plainte" || o.Name[:7] == "message" || o.Name[:3] == "NTT") {
				o.Scribble()
			}
		}
		unchanged(x, r.Objs, hs, "overwriting the operands of "+a.name)
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C06",
		Bounds: map[string]string{
			"quick":    "every ordered pair of 78 CKKS, 51 BFV and 52 generic-layer operations on 5 + 3 + 2 parameter sets, and of 6 runs of the CNN layers followed by each of 84 operations, with and without the first result being overwritten before the second operation; overwriting every operand after each operation. All operands, keys, reference strings and earlier results are hashed after each step, memory ranges are compared",
			"thorough": "as quick on 13 + 7 + 9 parameter sets",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			ck := []lab.Lit{kA1, kA2, kSkew, kOne, kDouble, kCnn}
			bf := []lab.Lit{bA1, bA2, bSkew}
			rl := []lab.Lit{rA1, rG3b}
			if tier == "thorough" {
				ck = append(ck, kA3, kA4, kSkew2, kN32, kBig, kFive, kSparse1, kSmall)
				bf = append(bf, bA3, bOdd, bT, bFive)
				rl = append(rl, rA2, rG3, rG1, rOdd, rOne, rAll, rBigQ)
			}
			for _, l := range rl {
				l := l
				mk := func(x *mc.X) *actWorld { return rlActWorld(x, l) }
				for i, a := range lab.RActs() {
					us = append(us, mc.Unit{Name: "rlwe/" + l.Name + "/" + a.Name, Body: c06(mk, i)})
				}
				us = append(us, mc.Unit{Name: "rlwe/" + l.Name + "/operands", Body: c06Operand(mk)})
			}
			for _, l := range ck {
				l := l
				mk := func(x *mc.X) *actWorld { return ckActWorld(x, l) }
				for _, i := range ckFirst(l) {
					a := lab.CkActsOf(l)[i]
					us = append(us, mc.Unit{Name: "ckks/" + l.Name + "/" + a.Name, Body: c06(mk, i)})
				}
				us = append(us, mc.Unit{Name: "ckks/" + l.Name + "/operands", Body: c06Operand(mk)})
			}
			for _, l := range bf {
				l := l
				mk := func(x *mc.X) *actWorld { return bfActWorld(x, l) }
				for i, a := range lab.BfActs() {
					us = append(us, mc.Unit{Name: "bfv/" + l.Name + "/" + a.Name, Body: c06(mk, i)})
				}
				us = append(us, mc.Unit{Name: "bfv/" + l.Name + "/operands", Body: c06Operand(mk)})
			}
			return us
		},
	})
}
