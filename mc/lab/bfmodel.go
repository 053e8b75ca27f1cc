package lab

import (
	"math"
	"math/bits"
	"sort"
	"strings"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	"verifmc/mc"
)

// BV pairs a BFV ciphertext with what the model says about it.
type BV struct {
	CT  *mkbfv.Ciphertext
	V   []int64 // in [0,T)
	IDs []string
	// Noise is the base-2 logarithm of a bound on the noise.
	Noise float64
}

// BWorld is one execution's view of a BFV context.
type BWorld struct {
	X   *mc.X
	C   *BF
	Enc *mkbfv.Encryptor
	Dec *mkbfv.Decryptor
	Ev  *mkbfv.Evaluator
	KG  *mkbfv.KeyGenerator
	Rlk *mkbfv.RelinearizationKeySet
	Rtk *mkrlwe.RotationKeySet
	Cjk *mkrlwe.ConjugationKeySet
	SKs *mkrlwe.SecretKeySet
	T   int64
	lq  float64
}

func NewBWorld(x *mc.X, c *BF) *BWorld {
	w := &BWorld{X: x, C: c, T: int64(c.Params.T())}
	w.Enc = seg(func() *mkbfv.Encryptor { return mkbfv.NewEncryptor(c.Params) })
	w.Dec = seg(func() *mkbfv.Decryptor { return mkbfv.NewDecryptor(c.Params) })
	w.Ev = seg(func() *mkbfv.Evaluator { return mkbfv.NewEvaluator(c.Params) })
	w.KG = seg(func() *mkbfv.KeyGenerator { return mkbfv.NewKeyGenerator(c.Params) })
	w.Rlk, w.SKs = c.RlkSet(), c.SKSet()
	if !c.Lit.NoRot {
		w.Rtk, w.Cjk = c.RtkSet(), c.CjkSet()
	}
	for _, q := range c.Params.Q() {
		w.lq += math.Log2(float64(q))
	}
	return w
}

// BVec is a deterministic test vector.
func (w *BWorld) BVec(k int) []int64 {
	n := w.C.Params.N()
	v := make([]int64, n)
	for i := range v {
		v[i] = int64(i*i*3+k*k*7+i*k*5+k+1) % w.T
		if w.T > 1<<18 {
			v[i] = mulMod(v[i], 0x1e3779b97f4a7c15%w.T, w.T) // spread over the whole range
		}
	}
	return v
}

func mulMod(a, b, t int64) int64 {
	hi, lo := bits.Mul64(uint64(a), uint64(b))
	return int64(bits.Rem64(hi, lo, uint64(t)))
}

func mod(v, t int64) int64 { return ((v % t) + t) % t }

func (w *BWorld) Encrypt(v []int64, id string) *BV {
	msg := mkbfv.NewMessage(w.C.Params)
	copy(msg.Value, v)
	ct := seg(func() *mkbfv.Ciphertext { return w.Enc.EncryptMsgNew(msg, w.C.PK[id]) })
	w.X.Step("Enc(%s)", id)
	return w.Fresh(v, id, ct)
}

// Fresh is the model of a fresh encryption of v.
func (w *BWorld) Fresh(v []int64, id string, ct *mkbfv.Ciphertext) *BV {
	o := &BV{CT: ct, IDs: []string{id}, V: make([]int64, w.C.Params.N())}
	for i := range v {
		o.V[i] = mod(v[i], w.T)
	}
	o.Noise = math.Log2(float64(2*w.C.Params.N()+1)*20+float64(w.T)) + 1
	return o
}

// Fits reports whether the noise permits decryption.
func (w *BWorld) Fits(c *BV) bool { return c.Noise+math.Log2(float64(w.T))+2 < w.lq }

func lsum(a, b float64) float64 { return math.Max(a, b) + math.Log2(1+math.Exp2(-math.Abs(a-b))) }

func (w *BWorld) addSub(a, b *BV, ct *mkbfv.Ciphertext, s int64) *BV {
	o := &BV{CT: ct, IDs: union(a.IDs, b.IDs), V: make([]int64, len(a.V)), Noise: lsum(a.Noise, b.Noise) + 0.1}
	for i := range o.V {
		o.V[i] = mod(a.V[i]+s*b.V[i], w.T)
	}
	return o
}

func (w *BWorld) Add(a, b *BV) *BV {
	w.X.Step("Add")
	return w.addSub(a, b, seg(func() *mkbfv.Ciphertext { return w.Ev.AddNew(a.CT, b.CT) }), 1)
}

func (w *BWorld) Sub(a, b *BV) *BV {
	w.X.Step("Sub")
	return w.addSub(a, b, seg(func() *mkbfv.Ciphertext { return w.Ev.SubNew(a.CT, b.CT) }), -1)
}

// ks is a bound on the noise of one key switching.
func (w *BWorld) ks(k int) float64 {
	n := float64(w.C.Params.N())
	return math.Log2(float64(k+1)*n*n*float64(w.T)*64) + 4
}

// MulModel is the model of the product.
func (w *BWorld) MulModel(a, b *BV, ct *mkbfv.Ciphertext) *BV {
	o := &BV{CT: ct, IDs: union(a.IDs, b.IDs), V: make([]int64, len(a.V))}
	for i := range o.V {
		o.V[i] = mulMod(a.V[i], b.V[i], w.T)
	}
	n := float64(w.C.Params.N())
	k := float64(len(a.IDs) + len(b.IDs) + 1)
	o.Noise = lsum(a.Noise, b.Noise) + math.Log2(float64(w.T)*n*n*k) + 2
	o.Noise = lsum(o.Noise, w.ks(len(o.IDs)))
	return o
}

func (w *BWorld) Mul(a, b *BV) *BV {
	w.X.Step("MulRelin")
	return w.MulModel(a, b, w.Ev.MulRelinNew(a.CT, b.CT, w.Rlk))
}

// RotModel rotates both rows to the left by k.
func (w *BWorld) RotModel(a *BV, k int, ct *mkbfv.Ciphertext) *BV {
	n := len(a.V) / 2
	o := &BV{CT: ct, IDs: a.IDs, V: make([]int64, 2*n), Noise: lsum(a.Noise, w.ks(len(a.IDs))+3)}
	for i := 0; i < n; i++ {
		j := ((i+k)%n + n) % n
		o.V[i], o.V[n+i] = a.V[j], a.V[n+j]
	}
	return o
}

func (w *BWorld) Rot(a *BV, k int) *BV {
	w.X.Step("Rotate(%d)", k)
	return w.RotModel(a, k, w.Ev.RotateNew(a.CT, k, w.Rtk))
}

// ConjModel swaps the rows.
func (w *BWorld) ConjModel(a *BV, ct *mkbfv.Ciphertext) *BV {
	n := len(a.V) / 2
	o := &BV{CT: ct, IDs: a.IDs, V: append(append([]int64(nil), a.V[n:]...), a.V[:n]...), Noise: lsum(a.Noise, w.ks(len(a.IDs)))}
	return o
}

func (w *BWorld) Conj(a *BV) *BV {
	w.X.Step("Conjugate")
	return w.ConjModel(a, w.Ev.ConjugateNew(a.CT, w.Cjk))
}

func (w *BWorld) Copy(a *BV) *BV {
	o := *a
	o.CT = a.CT.CopyNew()
	return &o
}

// Check decrypts and compares exactly.
func (w *BWorld) Check(c *BV, what string) {
	w.CheckBook(c, what)
	w.CheckMsg(w.Dec.Decrypt(c.CT, w.SKs), c, what)
}

func (w *BWorld) CheckMsg(msg *mkbfv.Message, c *BV, what string) {
	if len(msg.Value) != len(c.V) {
		w.X.Fail("%s: decryption has %d slots, want %d", what, len(msg.Value), len(c.V))
	}
	for i := range msg.Value {
		if mod(msg.Value[i], w.T) != c.V[i] {
			w.X.Fail("%s: slot %d decrypts to %d, the reference is %d (mod %d)", what, i, msg.Value[i], c.V[i], w.T)
		}
		if msg.Value[i] >= w.T || msg.Value[i] <= -w.T {
			w.X.Fail("%s: slot %d decrypts to %d, outside the range of the plaintext modulus %d", what, i, msg.Value[i], w.T)
		}
	}
}

// CheckBook compares the components of a ciphertext with the model.
func (w *BWorld) CheckBook(c *BV, what string) {
	var got []string
	for id := range c.CT.Value {
		got = append(got, id)
	}
	sort.Strings(got)
	want := append([]string{"0"}, c.IDs...)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		w.X.Fail("%s: the ciphertext has components %q, the parties involved are %q", what, got, c.IDs)
	}
	max := w.C.Params.MaxLevel()
	for _, id := range got {
		if p := c.CT.Value[id]; p == nil || len(p.Coeffs) != max+1 {
			w.X.Fail("%s: component %q does not have level %d", what, id, max)
		}
	}
	w.X.State(w.C.Lit.Name, what, c.IDs, c.V)
}
