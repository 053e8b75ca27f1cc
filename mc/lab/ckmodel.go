package lab

import (
	"fmt"
	"math"
	"math/cmplx"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/mc"
)

// CV pairs a CKKS ciphertext with what the model says about it.
type CV struct {
	CT    *mkckks.Ciphertext
	V     []complex128
	Mag   float64 // bound on |V|
	Err   float64 // bound on the error of the decryption
	IDs   []string
	Level int
	Scale float64
}

// World is one execution's view of a CKKS context.
type World struct {
	X    *mc.X
	C    *CK
	Enc  *mkckks.Encryptor
	Dec  *mkckks.Decryptor
	Ev   *mkckks.Evaluator
	KG   *mkrlwe.KeyGenerator
	Rlk  *mkrlwe.RelinearizationKeySet
	Rtk  *mkrlwe.RotationKeySet
	Cjk  *mkrlwe.ConjugationKeySet
	SKs  *mkrlwe.SecretKeySet
	q    []uint64
	norm float64
}

// NewWorld instantiates fresh evaluators on a context.
func NewWorld(x *mc.X, c *CK) *World {
	w := &World{X: x, C: c}
	w.Enc = seg(func() *mkckks.Encryptor { return mkckks.NewEncryptor(c.Params) })
	w.Dec = seg(func() *mkckks.Decryptor { return mkckks.NewDecryptor(c.Params) })
	w.Ev = seg(func() *mkckks.Evaluator { return mkckks.NewEvaluator(c.Params) })
	w.KG = seg(func() *mkrlwe.KeyGenerator { return mkckks.NewKeyGenerator(c.Params) })
	w.Rlk, w.SKs = c.RlkSet(), c.SKSet()
	if !c.Lit.NoRot {
		w.Rtk, w.Cjk = c.RtkSet(), c.CjkSet()
	}
	w.q = c.Params.Q()
	return w
}

// noise is the error bound one encryption or key switching adds at a scale.
func (w *World) noise(scale float64) float64 {
	n := float64(w.C.Params.N())
	return 512 * n * math.Sqrt(n) * 8 / scale
}

// Slots is the number of slots.
func (w *World) Slots() int { return w.C.Params.Slots() }

// Vec builds a deterministic test vector.
func Vec(slots, k int) []complex128 {
	v := make([]complex128, slots)
	for i := range v {
		a := float64((i*7+k*5+3)%11)/8 - 0.625
		b := float64((i*3+k*11+1)%13)/8 - 0.75
		v[i] = complex(a, b)
	}
	return v
}

func magOf(v []complex128) float64 {
	m := 0.0
	for _, c := range v {
		m = math.Max(m, cmplx.Abs(c))
	}
	return m
}

// Encrypt encrypts v under id's key at a level.
func (w *World) Encrypt(v []complex128, id string, level int) *CV {
	p := w.C.Params
	msg := mkckks.NewMessage(p)
	copy(msg.Value, v)
	var ct *mkckks.Ciphertext
	if level == p.MaxLevel() {
		ct = seg(func() *mkckks.Ciphertext { return w.Enc.EncryptMsgNew(msg, w.C.PK[id]) })
	} else {
		ct = mkckks.NewCiphertext(p, Set(id), level, p.Scale())
		mc.Segment(func() { w.Enc.EncryptMsg(msg, w.C.PK[id], ct) })
	}
	w.X.Step("Enc(%s,level %d)", id, level)
	return w.FreshModel(v, id, level, ct)
}

// FreshModel is the model of a fresh encryption of v.
func (w *World) FreshModel(v []complex128, id string, level int, ct *mkckks.Ciphertext) *CV {
	s := w.C.Params.Scale()
	return &CV{CT: ct, V: append([]complex128(nil), v...), Mag: magOf(v), Err: w.noise(s), IDs: []string{id}, Level: level, Scale: s}
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range a {
		m[s] = true
	}
	for _, s := range b {
		m[s] = true
	}
	return SortedKeys(m)
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// rescale models Rescale: how many levels are consumed and the new scale.
func (w *World) rescale(level int, scale, minScale float64) (int, float64) {
	for level > 0 && scale/float64(w.q[level]) >= minScale/2 {
		scale /= float64(w.q[level])
		level--
	}
	return level, scale
}

// Fits reports whether a value can be represented at a level without wrapping.
func (w *World) Fits(mag, err, scale float64, level int) bool {
	lq := 0.0
	for i := 0; i <= level; i++ {
		lq += math.Log2(float64(w.q[i]))
	}
	// the coefficients of the plaintext are bounded by the slots' magnitude times the slots' number
	b := math.Log2((mag+err+1e-9)*scale) + 2
	return b < lq-1
}

// Check decrypts c and compares it with the model.
func (w *World) Check(c *CV, what string) {
	w.CheckBook(c, what)
	msg := w.Dec.Decrypt(c.CT, w.SKs)
	w.CheckMsg(msg, c, what)
}

// CheckMsg compares a decrypted message with the model.
func (w *World) CheckMsg(msg *mkckks.Message, c *CV, what string) {
	if len(msg.Value) != w.Slots() {
		w.X.Fail("%s: decryption has %d slots, want %d", what, len(msg.Value), w.Slots())
	}
	for i := range msg.Value {
		d := cmplx.Abs(msg.Value[i] - c.V[i])
		if !(d <= c.Err) {
			w.X.Fail("%s: slot %d decrypts to %v, the reference is %v (error %.3g, bound %.3g)", what, i, msg.Value[i], c.V[i], d, c.Err)
		}
		if d > worst {
			worst = d
		}
		if r := d / c.Err; r > WorstRatio {
			WorstRatio = r
		}
	}
}

var worst float64

// WorstRatio is the largest observed error/bound ratio (diagnostics).
var WorstRatio float64

// CheckBook compares the bookkeeping of a ciphertext with the model.
func (w *World) CheckBook(c *CV, what string) {
	var got []string
	for id := range c.CT.Value {
		got = append(got, id)
	}
	sort.Strings(got)
	want := append([]string{"0"}, c.IDs...)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		w.X.Fail("%s: the ciphertext has components %q, the parties involved are %q", what, got, c.IDs)
	}
	for _, id := range got {
		p := c.CT.Value[id]
		if p == nil || len(p.Coeffs) != c.Level+1 {
			n := -1
			if p != nil {
				n = len(p.Coeffs) - 1
			}
			w.X.Fail("%s: component %q has level %d, want %d", what, id, n, c.Level)
		}
	}
	if c.CT.Level() != c.Level {
		w.X.Fail("%s: Level() is %d, want %d", what, c.CT.Level(), c.Level)
	}
	if !(math.Abs(c.CT.Scale-c.Scale) <= 1e-12*c.Scale) {
		w.X.Fail("%s: scale is %v, want %v", what, c.CT.Scale, c.Scale)
	}
	w.X.State(w.C.Lit.Name, what, c.IDs, c.Level, math.Float32bits(float32(c.Scale)), math.Round(real(c.V[0])*64), math.Round(imag(c.V[len(c.V)-1])*64))
}

// addScales models the scale alignment of Add and Sub: ok is false when the
// scales do not permit an exact addition.
func addScales(s0, s1 float64) (ok bool, loss float64) {
	r := s0 / s1
	if r < 1 {
		r = 1 / r
	}
	f := math.Floor(r)
	if f < 1 {
		f = 1
	}
	loss = math.Abs(r/f - 1)
	return loss < 1e-3, loss
}

// AddSub computes a+b or a-b on the model, for a given result ciphertext.
func (w *World) addSub(a, b *CV, ct *mkckks.Ciphertext, sub bool) *CV {
	_, loss := addScales(a.Scale, b.Scale)
	o := &CV{CT: ct, IDs: union(a.IDs, b.IDs), Level: minI(a.Level, b.Level), Scale: math.Max(a.Scale, b.Scale), Mag: a.Mag + b.Mag}
	o.V = make([]complex128, len(a.V))
	for i := range o.V {
		if sub {
			o.V[i] = a.V[i] - b.V[i]
		} else {
			o.V[i] = a.V[i] + b.V[i]
		}
	}
	o.Err = a.Err + b.Err + 2*loss*math.Max(a.Mag, b.Mag)
	return o
}

// CanAdd tells whether the scales of a and b permit an addition.
func (w *World) CanAdd(a, b *CV) bool {
	ok, _ := addScales(a.Scale, b.Scale)
	return ok
}

func (w *World) Add(a, b *CV) *CV {
	w.X.Step("Add")
	return w.addSub(a, b, seg(func() *mkckks.Ciphertext { return w.Ev.AddNew(a.CT, b.CT) }), false)
}

func (w *World) Sub(a, b *CV) *CV {
	w.X.Step("Sub")
	return w.addSub(a, b, seg(func() *mkckks.Ciphertext { return w.Ev.SubNew(a.CT, b.CT) }), true)
}

// MulModel gives the model of the product of a and b.
func (w *World) MulModel(a, b *CV, ct *mkckks.Ciphertext) *CV {
	o := &CV{CT: ct, IDs: union(a.IDs, b.IDs), Mag: a.Mag * b.Mag}
	lvl := minI(a.Level, b.Level)
	o.Level, o.Scale = w.rescale(lvl, a.Scale*b.Scale, w.C.Params.Scale())
	if lvl == 0 {
		o.Level, o.Scale = 0, a.Scale*b.Scale
	}
	o.V = make([]complex128, len(a.V))
	for i := range o.V {
		o.V[i] = a.V[i] * b.V[i]
	}
	o.Err = a.Mag*b.Err + b.Mag*a.Err + a.Err*b.Err + w.noise(math.Min(o.Scale, w.C.Params.Scale()))*float64(1+len(o.IDs))
	return o
}

// CanMul tells whether the product fits the modulus.
func (w *World) CanMul(a, b *CV) bool {
	o := w.MulModel(a, b, nil)
	return w.Fits(o.Mag, o.Err, a.Scale*b.Scale, minI(a.Level, b.Level)) && w.Fits(o.Mag, o.Err, o.Scale, o.Level)
}

func (w *World) Mul(a, b *CV) *CV {
	w.X.Step("MulRelin")
	return w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, w.Rlk))
}

func (w *World) MulHoisted(a, b *CV) *CV {
	w.X.Step("MulRelinHoisted")
	ha, hb := w.Ev.HoistedForm(a.CT), w.Ev.HoistedForm(b.CT)
	return w.MulModel(a, b, w.Ev.MulRelinHoistedNew(a.CT, b.CT, ha, hb, w.Rlk))
}

func (w *World) unary(a *CV, ct *mkckks.Ciphertext) *CV {
	o := *a
	o.CT = ct
	o.V = append([]complex128(nil), a.V...)
	return &o
}

// RotModel is the model of a rotation by k.
func (w *World) RotModel(a *CV, k int, ct *mkckks.Ciphertext) *CV {
	o := w.unary(a, ct)
	n := len(a.V)
	for i := range o.V {
		o.V[i] = a.V[((i+k)%n+n)%n]
	}
	o.Err += w.noise(a.Scale) * float64(1+len(o.IDs)) * float64(w.C.Params.LogN())
	return o
}

func (w *World) Rot(a *CV, k int) *CV {
	w.X.Step("Rotate(%d)", k)
	return w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, w.Rtk))
}

func (w *World) RotHoisted(a *CV, k int) *CV {
	w.X.Step("RotateHoisted(%d)", k)
	return w.RotModel(a, k, w.Ev.RotateHoistedNew(a.CT, k, w.Ev.HoistedForm(a.CT), w.Rtk))
}

// ConjModel is the model of a conjugation.
func (w *World) ConjModel(a *CV, ct *mkckks.Ciphertext) *CV {
	o := w.unary(a, ct)
	for i := range o.V {
		o.V[i] = cmplx.Conj(a.V[i])
	}
	o.Err += w.noise(a.Scale) * float64(1+len(o.IDs))
	return o
}

func (w *World) Conj(a *CV) *CV {
	w.X.Step("Conjugate")
	return w.ConjModel(a, w.Ev.ConjugateNew(a.CT, w.Cjk))
}

// ConstValue interprets a constant argument of MultByConst.
func ConstValue(c interface{}) complex128 {
	switch c := c.(type) {
	case int:
		return complex(float64(c), 0)
	case int64:
		return complex(float64(c), 0)
	case uint64:
		return complex(float64(c), 0)
	case float64:
		return complex(c, 0)
	case complex128:
		return c
	}
	panic("lab: constant")
}

func isInt(f float64) bool { return f == math.Trunc(f) }

// MulConstModel is the model of MultByConst at level.
func (w *World) MulConstModel(a *CV, c interface{}, level int, ct *mkckks.Ciphertext) *CV {
	o := w.unary(a, ct)
	v := ConstValue(c)
	for i := range o.V {
		o.V[i] = a.V[i] * v
	}
	s := 1.0
	if !isInt(real(v)) || !isInt(imag(v)) {
		s = float64(w.q[level])
	}
	o.Scale = a.Scale * s
	o.Level = level
	o.Mag = a.Mag * cmplx.Abs(v)
	o.Err = a.Err*cmplx.Abs(v) + (a.Mag+1)*4/s*boolF(s > 1) + o.Mag*1e-9
	return o
}

func boolF(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// MulConst multiplies by a constant into a fresh ciphertext.
func (w *World) MulConst(a *CV, c interface{}) *CV {
	w.X.Step("MultByConst(%v)", c)
	ct := mkckks.NewCiphertext(w.C.Params, Set(a.IDs...), a.Level, a.Scale)
	mc.Segment(func() { w.Ev.MultByConst(a.CT, c, ct) })
	return w.MulConstModel(a, c, a.Level, ct)
}

// MulPtxtModel is the model of MulPtxtNew.
func (w *World) MulPtxtModel(a *CV, v []complex128, level int, scale float64, ct *mkckks.Ciphertext) *CV {
	o := w.unary(a, ct)
	for i := range o.V {
		o.V[i] = a.V[i] * v[i]
	}
	m := magOf(v)
	o.Mag = a.Mag * m
	if level > a.Level {
		level = a.Level
	}
	if level == 0 {
		o.Level, o.Scale = 0, a.Scale*scale
	} else {
		o.Level, o.Scale = w.rescale(level, a.Scale*scale, w.C.Params.Scale())
	}
	e := w.noise(scale)
	o.Err = a.Err*m + e*a.Mag + e*a.Err + w.noise(math.Min(o.Scale, w.C.Params.Scale()))
	return o
}

// MulPtxt multiplies by an encoded plaintext (the encoder gives the NTT domain).
func (w *World) MulPtxt(a *CV, v []complex128) *CV {
	w.X.Step("MulPtxt")
	msg := mkckks.NewMessage(w.C.Params)
	copy(msg.Value, v)
	pt := w.Enc.EncodeMsgNew(msg)
	return w.MulPtxtModel(a, v, pt.Level(), pt.Scale, w.Ev.MulPtxtNew(a.CT, pt))
}

// CanMulPtxt tells whether the product fits.
func (w *World) CanMulPtxt(a *CV, v []complex128) bool {
	s := w.C.Params.Scale()
	o := w.MulPtxtModel(a, v, a.Level, s, nil)
	return w.Fits(o.Mag, o.Err, a.Scale*s, a.Level) && w.Fits(o.Mag, o.Err, o.Scale, o.Level)
}

// RescaleModel is the model of Rescale.
func (w *World) RescaleModel(a *CV, minScale float64, ct *mkckks.Ciphertext) *CV {
	o := w.unary(a, ct)
	o.Level, o.Scale = w.rescale(a.Level, a.Scale, minScale)
	if o.Level != a.Level {
		o.Err += w.noise(o.Scale)
	}
	return o
}

func (w *World) Rescale(a *CV, minScale float64) *CV {
	w.X.Step("Rescale")
	ct, err := w.Ev.RescaleNew(a.CT, minScale)
	if err != nil {
		w.X.Fail("RescaleNew returns the error %v on a ciphertext of level %d and scale %v", err, a.Level, a.Scale)
	}
	return w.RescaleModel(a, minScale, ct)
}

func (w *World) Drop(a *CV, k int) *CV {
	w.X.Step("DropLevel(%d)", k)
	o := w.unary(a, w.Ev.DropLevelNew(a.CT, k))
	o.Level -= k
	return o
}

func (w *World) Copy(a *CV) *CV {
	w.X.Step("Copy")
	return w.unary(a, a.CT.CopyNew())
}

// Plain builds an encoded plaintext.
func (w *World) Plain(v []complex128) *ckks.Plaintext {
	msg := mkckks.NewMessage(w.C.Params)
	copy(msg.Value, v)
	return w.Enc.EncodeMsgNew(msg)
}

// Describe renders a value for messages.
func (c *CV) Describe() string {
	return fmt.Sprintf("parties %v level %d scale 2^%.2f", c.IDs, c.Level, math.Log2(c.Scale))
}
