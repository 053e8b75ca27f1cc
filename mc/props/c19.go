package props

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkckks"
	"verifmc/lab"
	"verifmc/mc"
)

// C19: rescaling, level drops, products with constants and plaintexts, on
// arbitrary coefficients, against exact integer arithmetic.

// patternCT is a ciphertext made of coefficient patterns.
func patternCT(p mkckks.Parameters, level, kind int, scale float64, ids ...string) *mkckks.Ciphertext {
	ct := mkckks.NewCiphertext(p, lab.Set(ids...), level, scale)
	for k, id := range append([]string{"0"}, ids...) {
		q := lab.PatternPoly(p.RingQ(), level, (kind+k)%lab.Patterns)
		for i := range q.Coeffs {
			copy(ct.Value[id].Coeffs[i], q.Coeffs[i])
		}
	}
	return ct
}

func coeffs(r *ring.Ring, level int, p *ring.Poly) []*big.Int {
	return lab.Centered(r, level, p.Coeffs)
}

// rounded checks out = in/d modulo Q_level up to an error of tol/4.
func rounded(x *mc.X, r *ring.Ring, what string, in []*big.Int, d *big.Int, out *ring.Poly, level int, tol int64) {
	if len(out.Coeffs) != level+1 {
		x.Fail("%s: level %d, want %d", what, len(out.Coeffs)-1, level)
	}
	for i := range out.Coeffs {
		for j := range out.Coeffs[i] {
			// residues up to twice the modulus are representations of the value
			if out.Coeffs[i][j] > 2*r.Modulus[i] {
				x.Fail("%s: the residue %d modulo prime %d is out of range", what, out.Coeffs[i][j], r.Modulus[i])
			}
		}
	}
	got := coeffs(r, level, out)
	Q := lab.Modulus(r, level)
	lim := new(big.Int).Mul(d, big.NewInt(tol))
	for j := range got {
		// 4*(got*d - in) modulo Q*d
		e := new(big.Int).Mul(got[j], d)
		e.Sub(e, in[j])
		m := new(big.Int).Mul(Q, d)
		e = lab.CenterMod([]*big.Int{e}, m)[0]
		e.Mul(e, big.NewInt(4))
		if e.CmpAbs(lim) > 0 {
			x.Fail("%s: coefficient %d is %v, the exact quotient is %v / %v", what, j, got[j], in[j], d)
		}
	}
}

func rescaleModel(q []uint64, level int, scale, min float64) (int, float64, *big.Int) {
	d := big.NewInt(1)
	for level > 0 && scale/float64(q[level]) >= min/2 {
		d.Mul(d, new(big.Int).SetUint64(q[level]))
		scale /= float64(q[level])
		level--
	}
	return level, scale, d
}

// c19Rescale: levels x scales x thresholds x destinations x coefficient patterns.
func c19Rescale(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		p := c.Params
		r := p.RingQ()
		q := p.Q()
		max := p.MaxLevel()
		level := x.Choose("level", max+1)
		kind := x.Choose("pattern", lab.Patterns)
		bits := []float64{0, 1, 12.3, l.LogScale - 1, l.LogScale, l.LogScale + 1, 2 * l.LogScale, 2*l.LogScale - 1.5, 3 * l.LogScale, 4*l.LogScale + 3, 400}
		scale := math.Exp2(bits[x.Choose("scale", len(bits))])
		mins := []float64{p.Scale(), 1, p.Scale() / 2, p.Scale() * 2, scale, scale * 2, math.Exp2(-20), 0, -1}
		min := mins[x.Choose("threshold", len(mins))]
		ids := c.IDs[:2]
		ev := mkckks.NewEvaluator(p)
		ct := patternCT(p, level, kind, scale, ids...)
		if x.Bool("zero scale") {
			if scale != 1 {
				x.Skip()
			}
			ct.Scale = 0
		}
		in := map[string][]*big.Int{}
		for id, v := range ct.Value {
			in[id] = coeffs(r, level, v)
		}
		before := lab.NewH().Ckks(ct)
		var out *mkckks.Ciphertext
		var err error
		dest := x.Choose("destination", 3)
		switch dest {
		case 0:
			out, err = ev.RescaleNew(ct, min)
		case 1: // a used ciphertext of the same level
			out = mkckks.NewCiphertext(p, lab.Set(ids...), level, 77)
			lab.ObjCK("", out).Scribble()
			err = ev.Rescale(ct, min, out)
		case 2:
			out = ct
			err = ev.Rescale(ct, min, ct)
		}
		x.Step("Rescale level %d scale 2^%.1f threshold 2^%.1f destination %d", level, math.Log2(scale), math.Log2(min), dest)
		bad := min <= 0 || ct.Scale == 0 && dest != 2 || level == 0
		if ct.Scale == 0 {
			bad = true
		}
		if bad {
			x.Assert(err != nil, "Rescale does not report an error at level %d with scale %v and threshold %v", level, ct.Scale, min)
			x.Assert(before == lab.NewH().Ckks(ct), "a failing Rescale changed its operand")
			return
		}
		x.Assert(err == nil, "Rescale reports %v", err)
		wl, ws, d := rescaleModel(q, level, scale, min)
		x.Assert(math.Abs(out.Scale-ws) <= 1e-12*ws, "the rescaled scale is %v, want %v", out.Scale, ws)
		x.Assert(len(out.Value) == 3, "the rescaled ciphertext has %d components", len(out.Value))
		for id := range in {
			// one rounding per dropped prime
			rounded(x, r, fmt.Sprintf("rescaled component %q", id), in[id], d, out.Value[id], wl, 3)
		}
		if dest != 2 {
			x.Assert(before == lab.NewH().Ckks(ct), "Rescale changed its operand")
			x.Assert(lab.ObjCK("result", out).Overlap([]lab.Obj{lab.ObjCK("operand", ct)}) == "", "the rescaled ciphertext shares memory with the operand")
		}
		x.State(l.Name, level, wl, kind, bits, ws)
	}
}

// c19Drop: every level drop keeps the remaining residues.
func c19Drop(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		p := c.Params
		r := p.RingQ()
		level := x.Choose("level", p.MaxLevel()+1)
		n := x.Choose("levels", level+1)
		ct := patternCT(p, level, x.Choose("pattern", lab.Patterns), 3e9, c.IDs[:3%(len(c.IDs)+1)]...)
		ref := ct.CopyNew()
		ev := mkckks.NewEvaluator(p)
		out := ct
		if x.Bool("in place") {
			// one by one or at once
			if x.Bool("stepwise") {
				for i := 0; i < n; i++ {
					ev.DropLevel(ct, 1)
				}
			} else {
				ev.DropLevel(ct, n)
			}
		} else {
			out = ev.DropLevelNew(ct, n)
			x.Assert(lab.NewH().Ckks(ct) == lab.NewH().Ckks(ref), "DropLevelNew changed its operand")
			x.Assert(lab.ObjCK("result", out).Overlap([]lab.Obj{lab.ObjCK("operand", ct)}) == "", "DropLevelNew shares memory with its operand")
		}
		x.Step("DropLevel(%d) at level %d", n, level)
		x.Assert(out.Level() == level-n, "DropLevel(%d) at level %d gives level %d", n, level, out.Level())
		x.Assert(out.Scale == ref.Scale, "DropLevel changed the scale")
		x.Assert(len(out.Value) == len(ref.Value), "DropLevel changed the parties")
		for id, v := range ref.Value {
			o := out.Value[id]
			x.Assert(len(o.Coeffs) == level-n+1, "component %q has level %d, want %d", id, len(o.Coeffs)-1, level-n)
			for i := range o.Coeffs {
				for j := range o.Coeffs[i] {
					x.Assert(o.Coeffs[i][j]%r.Modulus[i] == v.Coeffs[i][j]%r.Modulus[i], "DropLevel changed component %q", id)
				}
			}
		}
		x.State(l.Name, level, n)
	}
}

// Constants of every type, sign and magnitude.
var c19Consts = []interface{}{
	0, 1, -1, 2, -3, 1 << 31, -(1 << 40), 1 << 62, int(math.MinInt64), math.MaxInt64,
	int64(0), int64(-7), int64(math.MinInt64), int64(math.MaxInt64), uint64(0), uint64(5), uint64(math.MaxUint64),
	0.0, 1.0, -2.0, 0.5, -0.5, 1.0 / 3, -1e-3, 1e-9, 1e15 + 0.5, -1e15 - 0.5, math.Exp2(63), math.Exp2(70), -math.Exp2(90), 4097.0,
	complex(0, 0), complex(2, 0), complex(-0.25, 0), complex(0, 1), complex(0, -1), complex(1, 1), complex(-3, 2), complex(0, 0.5), complex(0.1, -0.7),
	complex(1, 0.5), complex(0.5, -2), complex(math.Exp2(70), 1), complex(1, -math.Exp2(66)), complex(-1e-5, 3),
}

// exactConst gives the polynomial a+b*X^(N/2) that the constant stands for at a scale.
func exactConst(c interface{}, s *big.Float) (re, im *big.Float) {
	re, im = new(big.Float).SetPrec(300), new(big.Float).SetPrec(300)
	switch c := c.(type) {
	case int:
		re.SetInt64(int64(c))
	case int64:
		re.SetInt64(c)
	case uint64:
		re.SetUint64(c)
	case float64:
		re.SetFloat64(c)
	case complex128:
		re.SetFloat64(real(c))
		im.SetFloat64(imag(c))
	}
	re.Mul(re, s)
	im.Mul(im, s)
	return
}

func near(got *big.Int, want *big.Float, Q *big.Int) bool {
	w, _ := want.Int(nil)
	d := lab.CenterMod([]*big.Int{new(big.Int).Sub(got, w)}, Q)[0]
	// float64 constants: a relative error of 2^-50 and the rounding
	lim := new(big.Int).Abs(w)
	lim.Rsh(lim, 50)
	lim.Add(lim, big.NewInt(1))
	return d.CmpAbs(lim) <= 0
}

// c19Const: the constant that a multiplication applies is the same element
// a+b*X^(N/2) for every component, modulo every prime, in both domains.
func c19Const(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		p := c.Params
		r := p.RingQ()
		n := p.N()
		level := x.Choose("level", p.MaxLevel()+1)
		kind := x.Choose("pattern", lab.Patterns)
		k := c19Consts[x.Choose("constant", len(c19Consts))]
		ntt := x.Bool("NTT domain")
		dest := x.Choose("destination", 3)
		ids := c.IDs[:2]
		ev := mkckks.NewEvaluator(p)
		ct := patternCT(p, level, kind, 1000, ids...)
		// component "0" starts with the polynomial 1, which shows the constant
		for i := range ct.Value["0"].Coeffs {
			for j := range ct.Value["0"].Coeffs[i] {
				ct.Value["0"].Coeffs[i][j] = 0
			}
			ct.Value["0"].Coeffs[i][0] = 1
		}
		ol := level
		var in = map[string][]*big.Int{}
		ref := ct.CopyNew()
		if ntt {
			for _, v := range ct.Value {
				r.NTTLvl(level, v, v)
				v.IsNTT = true
			}
		}
		h := lab.NewH().Ckks(ct)
		out := ct
		switch dest {
		case 1:
			out = mkckks.NewCiphertext(p, lab.Set(ids...), level, 5)
		case 2: // a receiver of a lower level
			if level == 0 {
				x.Skip()
			}
			ol = level - 1
			out = mkckks.NewCiphertext(p, lab.Set(ids...), ol, 5)
		}
		if dest > 0 {
			lab.ObjCK("", out).Scribble()
			for _, v := range out.Value {
				v.IsNTT = ntt
			}
		}
		for id, v := range ref.Value {
			in[id] = lab.Centered(r, ol, v.Coeffs[:ol+1])
		}
		ev.MultByConst(ct, k, out)
		x.Step("MultByConst(%v %T) level %d", k, k, level)
		if dest > 0 {
			x.Assert(h == lab.NewH().Ckks(ct), "MultByConst(%v) changed its operand", k)
		}
		s := out.Scale / 1000
		cv := lab.ConstValue(k)
		isInt := real(cv) == math.Trunc(real(cv)) && imag(cv) == math.Trunc(imag(cv))
		if isInt {
			x.Assert(s == 1, "MultByConst(%v) multiplies the scale by %v", k, s)
		} else {
			x.Assert(s >= 1 && math.Abs(s-float64(r.Modulus[ol])) <= 1e-9*s, "MultByConst(%v) multiplies the scale by %v, not by the last prime", k, s)
		}
		get := func(id string) []*big.Int {
			v := lab.Reduced(r, ol, out.Value[id])
			if ntt {
				r.InvNTTLvl(ol, v, v)
			}
			return lab.Centered(r, ol, v.Coeffs)
		}
		Q := lab.Modulus(r, ol)
		K := get("0")
		for j := range K {
			if j != 0 && j != n/2 && K[j].Sign() != 0 {
				x.Fail("MultByConst(%v): the constant has a coefficient %v at position %d", k, K[j], j)
			}
		}
		re, im := exactConst(k, new(big.Float).SetPrec(300).SetFloat64(s))
		x.Assert(near(K[0], re, Q), "MultByConst(%v) at scale %v multiplies by a real part %v", k, s, K[0])
		x.Assert(near(K[n/2], im, Q), "MultByConst(%v) at scale %v multiplies by an imaginary part %v", k, s, K[n/2])
		for _, id := range ids {
			want := lab.CenterMod(lab.NegaMul(in[id], K), Q)
			got := get(id)
			for j := range got {
				if got[j].Cmp(want[j]) != 0 {
					x.Fail("MultByConst(%v): component %q is not multiplied by the same constant as component \"0\": coefficient %d is %v, want %v", k, id, j, got[j], want[j])
				}
			}
		}
		x.State(l.Name, level, ol, kind, fmt.Sprint(k), ntt)
	}
}

// c19Ptxt: products with plaintexts of both domains, every level and scale.
func c19Ptxt(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		p := c.Params
		r := p.RingQ()
		q := p.Q()
		max := p.MaxLevel()
		level := x.Choose("level", max+1)
		pl := x.Choose("plaintext level", max+1)
		ml := level // level of the product
		if pl < ml {
			ml = pl
		}
		kind := x.Choose("pattern", lab.Patterns)
		pk := x.Choose("plaintext pattern", lab.Patterns)
		ps := []float64{1, float64(q[ml]), p.Scale()}[x.Choose("plaintext scale", 3)]
		ntt := x.Bool("NTT plaintext")
		ids := c.IDs[:2]
		ct := patternCT(p, level, kind, p.Scale(), ids...)
		pt := ckks.NewPlaintext(c.Ckks, pl, ps)
		pp := lab.PatternPoly(r, pl, pk)
		pc := lab.Centered(r, ml, pp.Coeffs[:ml+1])
		for i := range pp.Coeffs {
			copy(pt.Value.Coeffs[i], pp.Coeffs[i])
		}
		pt.Value.IsNTT = false
		if ntt {
			r.NTTLvl(pl, pt.Value, pt.Value)
			pt.Value.IsNTT = true
		}
		h, hp := lab.NewH().Ckks(ct), lab.NewH().Poly(pt.Value)
		ev := mkckks.NewEvaluator(p)
		out := ev.MulPtxtNew(ct, pt)
		x.Step("MulPtxtNew level %d, plaintext level %d scale 2^%.1f", level, pl, math.Log2(ps))
		x.Assert(h == lab.NewH().Ckks(ct) && hp == lab.NewH().Poly(pt.Value), "MulPtxtNew changed an operand")
		wl, ws, d := rescaleModel(q, ml, p.Scale()*ps, p.Scale())
		if ml == 0 {
			wl, ws, d = 0, p.Scale()*ps, big.NewInt(1)
		}
		x.Assert(math.Abs(out.Scale-ws) <= 1e-12*ws, "the product has scale %v, want %v", out.Scale, ws)
		x.Assert(len(out.Value) == 3, "the product has %d components", len(out.Value))
		Q := lab.Modulus(r, ml)
		for id, v := range ct.Value {
			want := lab.CenterMod(lab.NegaMul(lab.Centered(r, ml, v.Coeffs[:ml+1]), pc), Q)
			rounded(x, r, fmt.Sprintf("component %q of the product", id), want, d, out.Value[id], wl, 3)
		}
		x.State(l.Name, level, pl, kind, pk, ps, ntt)
	}
}

// c19History: alternations of products by constants and plaintexts, rescalings
// and level drops on one ciphertext, decrypted after every step.
func c19History(l lab.Lit, depth, first int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		a := ckSum(w, c.IDs[:2], c.Params.MaxLevel(), 1)
		consts := []interface{}{-2, 0.5, complex(0, 1), complex(0.5, -0.25), uint64(3), int64(-1)}
		for d := 0; d < depth; d++ {
			op := first
			if d > 0 {
				op = x.Choose("operation", len(consts)+5)
			}
			var b *lab.CV
			switch {
			case op < len(consts):
				if o := w.MulConstModel(a, consts[op], a.Level, nil); !w.Fits(o.Mag, o.Err, o.Scale, o.Level) {
					x.Skip()
				}
				b = w.MulConst(a, consts[op])
			case op == len(consts):
				if a.Level == 0 {
					x.Skip()
				}
				if o := w.RescaleModel(a, w.C.Params.Scale(), nil); !w.Fits(o.Mag, o.Err, o.Scale, o.Level) {
					x.Skip()
				}
				b = w.Rescale(a, w.C.Params.Scale())
			case op == len(consts)+1:
				if a.Level == 0 || !w.Fits(a.Mag, a.Err, a.Scale, a.Level-1) {
					x.Skip()
				}
				b = w.Drop(a, 1)
			case op == len(consts)+2:
				v := lab.Vec(w.Slots(), 9)
				if !w.CanMulPtxt(a, v) {
					x.Skip()
				}
				b = w.MulPtxt(a, v)
			case op == len(consts)+3:
				// in place
				k := consts[3]
				o := w.MulConstModel(a, k, a.Level, nil)
				if !w.Fits(o.Mag, o.Err, o.Scale, o.Level) {
					x.Skip()
				}
				b = w.Copy(a)
				w.Ev.MultByConst(b.CT, k, b.CT)
				b = w.MulConstModel(b, k, b.Level, b.CT)
			case op == len(consts)+4:
				if a.Level == 0 {
					x.Skip()
				}
				o := w.RescaleModel(a, 1, nil)
				if !w.Fits(o.Mag, o.Err, o.Scale, o.Level) {
					x.Skip()
				}
				b = w.Rescale(a, 1)
			}
			w.Check(b, "result")
			w.Check(a, "operand afterwards")
			a = b
		}
	}
}

var _ = cmplx.Abs

func init() {
	mc.Register(&mc.Property{
		ID: "C19",
		Bounds: map[string]string{
			"quick":    "9 coefficient patterns (extreme residues included) x every level x 11 scales x 9 thresholds x 3 destinations; every level drop; 45 constants of every type, sign and magnitude x levels x domains x destinations; plaintexts of every level, pattern, domain and 3 scales; degree 8192; histories of 3 such operations",
			"thorough": "as quick with more parameter sets and histories of 4 operations",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			e := 0
			sets := []lab.Lit{kSkew, kA1, kDouble, kOne, kSmall, kBig}
			if tier == "thorough" {
				e = 1
				sets = append(sets, kA2, kA3, kN32, kSparse1, kSkew2, kMid)
			}
			for _, l := range sets {
				us = append(us, mc.Unit{Name: "rescale/" + l.Name, Body: c19Rescale(l)})
				us = append(us, mc.Unit{Name: "drop/" + l.Name, Body: c19Drop(l)})
				us = append(us, mc.Unit{Name: "const/" + l.Name, Body: c19Const(l)})
				us = append(us, mc.Unit{Name: "plaintext/" + l.Name, Body: c19Ptxt(l)})
			}
			if tier != "thorough" {
				us = append(us, mc.Unit{Name: "rescale/mid", Body: c19Rescale(kMid)}, mc.Unit{Name: "drop/mid", Body: c19Drop(kMid)}, mc.Unit{Name: "const/mid", Body: c19Const(kMid)})
			}
			for f := 0; f < 11; f++ {
				for _, l := range []lab.Lit{kSkew, kDouble, kSparse1} {
					us = append(us, mc.Unit{Name: fmt.Sprintf("history/%s/%d", l.Name, f), Body: c19History(l, 3+e, f)})
				}
			}
			us = largeUnits(us, "c", "const", "constf", "mulpt", "drop", "mul")
			return us
		},
	})
}
