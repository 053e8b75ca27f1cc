package lab

// Changes of an environment from outside: the operands take other values in
// place, or the parties take other keys.

// Content is a copy of the memory of objects.
type Content [][]uint64

func contentOf(os []Obj) Content {
	var c Content
	for _, o := range os {
		for _, b := range o.Bufs() {
			c = append(c, append([]uint64(nil), b...))
		}
	}
	return c
}

func (c Content) load(os []Obj) {
	i := 0
	for _, o := range os {
		for _, b := range o.Bufs() {
			if len(b) != len(c[i]) {
				panic("lab: the objects are of different shapes")
			}
			copy(b, c[i])
			i++
		}
	}
}

func (a *CV) become(b CV) {
	ct := a.CT
	*a = b
	a.CT = ct
}

func (a *BV) become(b BV) {
	ct := a.CT
	*a = b
	a.CT = ct
}

// Changer switches an environment between two values of its operands: k = 0, 1.
type Changer func(k int)

// Changer of a CKKS environment.
func (e *CEnv) Changer() Changer {
	f := newCEnv(e.Judge.X, e.Judge.C, 1)
	var content [2]Content
	var model [2][]CV
	var vec [2][][]complex128
	cvs := func(e *CEnv) []*CV {
		l := []*CV{e.A, e.B, e.S, e.T, e.L1, e.L0, e.SC, e.S2, e.U, e.AL, e.Z}
		if e.Cnn != nil {
			l = append(l, e.Cnn.KV...)
		}
		return l
	}
	for k, g := range []*CEnv{e, f} {
		content[k] = contentOf(g.Objs)
		for _, c := range cvs(g) {
			model[k] = append(model[k], *c)
		}
		vec[k] = [][]complex128{g.MsgV, g.PtV, g.PtNV, g.PtLV}
	}
	return func(k int) {
		content[k].load(e.Objs)
		for i, c := range cvs(e) {
			c.become(model[k][i])
		}
		e.MsgV, e.PtV, e.PtNV, e.PtLV = vec[k][0], vec[k][1], vec[k][2], vec[k][3]
	}
}

// Changer of a BFV environment.
func (e *BEnv) Changer() Changer {
	f := newBEnv(e.Judge.X, e.Judge.C, 1)
	var content [2]Content
	var model [2][]BV
	var vec [2][]int64
	bvs := func(e *BEnv) []*BV { return []*BV{e.A, e.B, e.S, e.T, e.U, e.AL, e.N, e.Z} }
	for k, g := range []*BEnv{e, f} {
		content[k] = contentOf(g.Objs)
		for _, c := range bvs(g) {
			model[k] = append(model[k], *c)
		}
		vec[k] = g.MsgV
	}
	return func(k int) {
		content[k].load(e.Objs)
		for i, c := range bvs(e) {
			c.become(model[k][i])
		}
		e.MsgV = vec[k]
	}
}

// Changer of a generic environment: its models read the operands.
func (e *REnv) Changer() Changer {
	f := newREnv(e.X, e.C, 1)
	content := [2]Content{contentOf(e.Objs), contentOf(f.Objs)}
	return func(k int) { content[k].load(e.Objs) }
}

// Other is an environment over the same parameters and the same parties with
// other keys; Use gives it the instances of e, and both of them one collection
// of each kind, which holds the keys of the environment that used it last.
func (e *CEnv) Other() *CEnv {
	c := e.Judge.C
	return newCEnv(e.Judge.X, cached("ck2/"+c.Lit.Name, func() interface{} { return NewCKOn(c.Lit, c.Params) }).(*CK), 1)
}

func (e *CEnv) Use(o *CEnv) {
	w, v := e.W, o.W
	w.Enc, w.Dec, w.Ev, w.KG, w.Rlk, w.Rtk, w.Cjk, w.SKs = v.Enc, v.Dec, v.Ev, v.KG, v.Rlk, v.Rtk, v.Cjk, v.SKs
	for _, id := range w.C.IDs {
		w.SKs.AddSecretKey(w.C.SK[id])
		w.Rlk.AddRelinearizationKey(w.C.Rlk[id])
		for _, k := range w.C.Rtk[id] {
			w.Rtk.AddRotationKey(k)
		}
		if w.C.Cjk[id] != nil {
			w.Cjk.AddConjugationKey(w.C.Cjk[id])
		}
	}
}

func (e *BEnv) Other() *BEnv {
	c := e.Judge.C
	return newBEnv(e.Judge.X, cached("bf2/"+c.Lit.Name, func() interface{} { return NewBFOn(c.Lit, c.Params) }).(*BF), 1)
}

func (e *BEnv) Use(o *BEnv) {
	w, v := e.W, o.W
	w.Enc, w.Dec, w.Ev, w.KG, w.Rlk, w.Rtk, w.Cjk, w.SKs = v.Enc, v.Dec, v.Ev, v.KG, v.Rlk, v.Rtk, v.Cjk, v.SKs
	e.KS, e.Conv = o.KS, o.Conv
	for _, id := range w.C.IDs {
		w.SKs.AddSecretKey(w.C.SK[id])
		w.Rlk.AddRelinearizationKey(w.C.Rlk[id])
		for _, k := range w.C.Rtk[id] {
			w.Rtk.AddRotationKey(k)
		}
		if w.C.Cjk[id] != nil {
			w.Cjk.AddConjugationKey(w.C.Cjk[id])
		}
	}
}

func (e *REnv) Other() *REnv {
	c := e.C
	return newREnv(e.X, cached("rl2/"+c.Lit.Name, func() interface{} { return NewRLOn(c.Lit, c.Params) }).(*RL), 1)
}

func (e *REnv) Use(o *REnv) {
	e.I = o.I
	for _, id := range e.C.IDs {
		e.I.SKs.AddSecretKey(e.C.SK[id])
		e.I.Rlk.AddRelinearizationKey(e.C.Rlk[id])
		for _, k := range e.C.Rtk[id] {
			e.I.Rtk.AddRotationKey(k)
		}
		if e.C.Cjk[id] != nil {
			e.I.Cjk.AddConjugationKey(e.C.Cjk[id])
		}
	}
}
