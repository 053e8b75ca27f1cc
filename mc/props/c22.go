package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C22: every random object is fresh. A history generates encryptions, keys,
// secrets and reference strings on one or several instances; every random
// vector it used is extracted exactly and all pairs are compared.

type rvec struct {
	name string
	kind string // ternary, error
	v    []float64
	n    float64
}

type freshWorld struct {
	x     *mc.X
	lit   lab.Lit
	p     mkrlwe.Parameters
	ck    *mkckks.Parameters
	bf    *mkbfv.Parameters
	lab   *lab.KeyLab
	kgs   []*mkrlwe.KeyGenerator
	bkgs  []*mkbfv.KeyGenerator
	encs  []*mkrlwe.Encryptor
	cencs []*mkckks.Encryptor
	bencs []*mkbfv.Encryptor
	sk, r *mkrlwe.SecretKey
	s, rs []int64
	vs    []rvec
	masks []maskRec
	crs   int
}

type maskRec struct {
	name string
	v    []uint64 // normalized row modulo the first prime
}

func (w *freshWorld) add(name, kind string, v []int64) {
	r := rvec{name: name, kind: kind, v: make([]float64, len(v))}
	for i, c := range v {
		r.v[i] = float64(c)
		r.n += r.v[i] * r.v[i]
	}
	if r.n == 0 {
		w.x.Fail("%s is identically zero", name)
	}
	n := float64(len(v))
	switch kind {
	case "error":
		s := w.p.Sigma()
		if rms := math.Sqrt(r.n / n); rms < 0.45*s || rms > 1.7*s {
			w.x.Fail("%s has the standard deviation %.2f, announced %.2f", name, rms, s)
		}
		for _, c := range v {
			if math.Abs(float64(c)) > 6*s {
				w.x.Fail("%s has the coefficient %d, beyond the bound of the error distribution", name, c)
			}
		}
	case "ternary":
		if r.n < n/8 || r.n > 7*n/8 {
			w.x.Fail("%s has %v non zero coefficients among %d", name, r.n, len(v))
		}
	}
	w.vs = append(w.vs, r)
}

func (w *freshWorld) errs(prefix string, es []lab.KeyErr, err error) {
	if err != nil {
		w.x.Fail("%s: %v", prefix, err)
	}
	for _, e := range es {
		w.add(prefix+e.Name, "error", e.E)
	}
}

// mask records a mask used under the owner's secret, up to a constant factor.
func (w *freshWorld) mask(name string, p *ring.Poly) {
	q := w.p.RingQ().Modulus[0]
	Q := new(big.Int).SetUint64(q)
	inv := new(big.Int)
	out := make([]uint64, len(p.Coeffs[0]))
	k := -1
	for i, c := range p.Coeffs[0] {
		if c%q != 0 {
			k = i
			break
		}
	}
	if k < 0 {
		w.x.Fail("%s is zero", name)
	}
	inv.ModInverse(new(big.Int).SetUint64(p.Coeffs[0][k]), Q)
	t := new(big.Int)
	for i, c := range p.Coeffs[0] {
		t.SetUint64(c)
		out[i] = t.Mod(t.Mul(t, inv), Q).Uint64()
	}
	w.masks = append(w.masks, maskRec{name, out})
}

// uniform checks the shape of a reference string.
func (w *freshWorld) uniform(name string, swk *mkrlwe.SwitchingKey) {
	var bins [16]float64
	n := 0.0
	rows := map[string]string{}
	see := func(where string, c []uint64, q uint64) {
		for _, v := range c {
			if v >= q {
				w.x.Fail("%s, %s: %d is not reduced modulo %d", name, where, v, q)
			}
			bins[int(float64(v)/float64(q)*16)&15]++
			n++
		}
		k := fmt.Sprint(c[:8])
		if o, in := rows[k]; in {
			w.x.Fail("%s: %s equals %s", name, where, o)
		}
		rows[k] = where
	}
	for d, v := range swk.Value {
		for i, q := range w.p.RingQ().Modulus {
			see(fmt.Sprintf("digit %d modulo prime %d of Q", d, i), v.Q.Coeffs[i], q)
		}
		for i, q := range w.p.RingP().Modulus {
			see(fmt.Sprintf("digit %d modulo prime %d of P", d, i), v.P.Coeffs[i], q)
		}
	}
	chi := 0.0
	for _, b := range bins {
		chi += (b - n/16) * (b - n/16) / (n / 16)
	}
	if chi > 15+9*math.Sqrt(30) {
		w.x.Fail("%s is not uniform (chi square %.1f over 16 classes)", name, chi)
	}
}

func (w *freshWorld) kg(i int) *mkrlwe.KeyGenerator {
	for len(w.kgs) <= i {
		w.kgs = append(w.kgs, mkrlwe.NewKeyGenerator(w.p))
		if w.bf != nil {
			w.bkgs = append(w.bkgs, mkbfv.NewKeyGenerator(*w.bf))
		}
	}
	if w.bf != nil && i%2 == 1 {
		return w.bkgs[i].KeyGenerator
	}
	return w.kgs[i]
}

func (w *freshWorld) enc(i int) *mkrlwe.Encryptor {
	for len(w.encs) <= i {
		w.encs = append(w.encs, mkrlwe.NewEncryptor(w.p))
		if w.ck != nil {
			w.cencs = append(w.cencs, mkckks.NewEncryptor(*w.ck))
		}
		if w.bf != nil {
			w.bencs = append(w.bencs, mkbfv.NewEncryptor(*w.bf))
		}
	}
	return w.encs[i]
}

// probe is a public key whose components are constants: the ciphertext
// c0 = u*K0+e0+m, c1 = u*K1+e1 shows u, e0 and e1.
func (w *freshWorld) probe() *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(w.p, "owner")
	for k, c := range []uint64{1 << 20, 3 << 20} {
		for i := range pk.Value[k].Q.Coeffs {
			for j := range pk.Value[k].Q.Coeffs[i] {
				pk.Value[k].Q.Coeffs[i][j] = c
			}
		}
		for i := range pk.Value[k].P.Coeffs {
			for j := range pk.Value[k].P.Coeffs[i] {
				pk.Value[k].P.Coeffs[i][j] = c
			}
		}
	}
	return pk
}

// open extracts the randomness of an encryption of m under the probe.
func (w *freshWorld) open(name string, ct *mkrlwe.Ciphertext, m *ring.Poly) {
	r := w.p.RingQ()
	level := ct.Level()
	get := func(id string) []*big.Int {
		p := lab.Reduced(r, level, ct.Value[id])
		if ct.Value[id].IsNTT {
			r.InvNTTLvl(level, p, p)
		}
		if id == "0" && m != nil {
			c := lab.Reduced(r, level, m)
			if m.IsNTT {
				r.InvNTTLvl(level, c, c)
			}
			r.SubLvl(level, p, c, p)
		}
		return lab.Centered(r, level, p.Coeffs)
	}
	split := func(v []*big.Int, k int64) (u, e []int64) {
		for _, c := range v {
			if !c.IsInt64() || c.Int64() > 1<<40 || c.Int64() < -(1<<40) {
				w.x.Fail("%s: the components do not have the form u*pk+e", name)
			}
			a := int64(math.Round(float64(c.Int64()) / float64(k)))
			u = append(u, a)
			e = append(e, c.Int64()-a*k)
		}
		return
	}
	u0, e0 := split(get("0"), 1<<20)
	u1, e1 := split(get("owner"), 3<<20)
	for i := range u0 {
		if u0[i] != u1[i] || u0[i] > 1 || u0[i] < -1 {
			w.x.Fail("%s: the components use the masks %d and %d", name, u0[i], u1[i])
		}
	}
	w.add(name+".u", "ternary", u0)
	w.add(name+".e0", "error", e0)
	w.add(name+".e1", "error", e1)
}

var freshKinds = []string{"enc", "enc-low", "enc-ntt", "scheme-enc", "scheme-low", "pair", "pk", "rlk", "rtk1", "rtk2", "rtk-new", "cjk", "swk", "crs", "params"}

func (w *freshWorld) do(n int, kind string, inst int) {
	x := w.x
	name := fmt.Sprintf("%s#%d", kind, n)
	x.Step("%s on instance %d", kind, inst)
	max := w.p.MaxLevel()
	switch kind {
	case "enc", "enc-low", "enc-ntt":
		level := max
		if kind == "enc-low" {
			level = 0
		}
		ct := mkrlwe.NewCiphertext(w.p, lab.Set("owner"), level)
		if kind == "enc-ntt" {
			ct = mkrlwe.NewCiphertextNTT(w.p, lab.Set("owner"), level)
		}
		w.enc(inst).Encrypt(rlwe.NewPlaintext(w.p.Parameters, level), w.probe(), ct)
		w.open(name, ct, nil)
	case "scheme-enc", "scheme-low":
		w.enc(inst)
		if w.ck != nil {
			msg := mkckks.NewMessage(*w.ck)
			copy(msg.Value, lab.Vec(w.ck.Slots(), 1)) // the same message every time
			m := w.cencs[inst].EncodeMsgNew(msg)
			var ct *mkckks.Ciphertext
			if kind == "scheme-enc" {
				ct = w.cencs[inst].EncryptMsgNew(msg, w.probe())
			} else {
				ct = mkckks.NewCiphertext(*w.ck, lab.Set("owner"), 1, w.ck.Scale())
				w.cencs[inst].EncryptMsg(msg, w.probe(), ct)
			}
			w.open(name, ct.Ciphertext, m.Value)
			return
		}
		msg := mkbfv.NewMessage(*w.bf)
		ct := w.bencs[inst].EncryptMsgNew(msg, w.probe())
		if kind == "scheme-low" {
			ct = mkbfv.NewCiphertextNTT(*w.bf, lab.Set("owner"))
			w.bencs[inst].EncryptMsg(msg, w.probe(), ct)
		}
		w.open(name, ct.Ciphertext, nil)
	case "pair":
		sk, pk := w.kg(inst).GenKeyPair("owner")
		s := lab.Secret(w.p, sk)
		w.add(name+".s", "ternary", s)
		es, err := w.lab.PK(pk, s)
		w.errs(name+".", es, err)
	case "pk":
		pk := w.kg(inst).GenPublicKey(w.sk)
		es, err := w.lab.PK(pk, w.s)
		w.errs(name+".", es, err)
		w.mask("the mask of "+name, pk.Value[1].Q)
	case "rlk":
		if w.bf != nil {
			w.kg(inst)
			k := w.bkgs[inst].GenRelinearizationKey(w.sk, w.r)
			es, err := w.lab.BfvRlk(*w.bf, k, w.s, w.rs)
			// the rounded gadget vector makes d-errors only approximate
			w.errs(name+".", exactErrs(es), err)
			return
		}
		k := w.kg(inst).GenRelinearizationKey(w.sk, w.r)
		es, err := w.lab.Rlk(k, w.s, w.rs)
		w.errs(name+".", es, err)
	case "rtk1", "rtk2":
		rot := map[string]int{"rtk1": 1, "rtk2": 2}[kind]
		k := w.kg(inst).GenRotationKey(rot, w.sk)
		es, err := w.lab.Rtk(k, rot, w.s)
		w.errs(name+".", es, err)
	case "rtk-new":
		w.p.AddCRS(3)
		k := w.kg(inst).GenRotationKey(3, w.sk)
		es, err := w.lab.Rtk(k, 3, w.s)
		w.errs(name+".", es, err)
	case "cjk":
		k := w.kg(inst).GenConjugationKey(w.sk)
		es, err := w.lab.Cjk(k, w.s)
		w.errs(name+".", es, err)
	case "swk":
		k := mkrlwe.NewSwitchingKey(w.p)
		w.kg(inst).GenSwitchingKey(w.sk, k)
		es, err := w.lab.Swk(k, w.s)
		w.errs(name+".", es, err)
	case "crs":
		w.crs++
		w.p.AddCRS(4 + w.crs*3 + inst)
	case "params":
		var np mkrlwe.Parameters
		switch {
		case w.ck != nil:
			np = w.lit.CkksParams().Parameters
		default:
			np = w.lit.BfvParams().Parameters
		}
		for _, i := range crsOrder(np) {
			for d, v := range np.CRS[i].Value {
				w.mask(fmt.Sprintf("CRS[%d][%d] of %s", i, d, name), v.Q)
			}
		}
	}
}

func exactErrs(es []lab.KeyErr) []lab.KeyErr { return es }

func crsOrder(p mkrlwe.Parameters) []int {
	var out []int
	for i := -8; i < 4*p.N(); i++ {
		if p.CRS[i] != nil {
			out = append(out, i)
		}
	}
	return out
}

func (w *freshWorld) finish() {
	x := w.x
	for _, i := range crsOrder(w.p) {
		w.uniform(fmt.Sprintf("CRS[%d]", i), w.p.CRS[i])
		for d, v := range w.p.CRS[i].Value {
			w.mask(fmt.Sprintf("CRS[%d][%d]", i, d), v.Q)
		}
	}
	seen := map[string]string{}
	for _, m := range w.masks {
		k := fmt.Sprint(m.v)
		if o, in := seen[k]; in {
			x.Fail("%s is %s up to a constant factor: two samples under one secret with one mask reveal their errors and the secret", m.name, o)
		}
		seen[k] = m.name
	}
	x.Count(len(w.masks))
	// independent vectors of length N have a correlation around N^-1/2
	limit := math.Max(0.26, math.Min(0.8, 6.5/math.Sqrt(float64(w.p.N()))))
	if w.p.N() >= 512 {
		w.moved()
	}
	for i := range w.vs {
		for j := 0; j < i; j++ {
			a, b := w.vs[i], w.vs[j]
			dot := 0.0
			for k := range a.v {
				dot += a.v[k] * b.v[k]
			}
			if c := dot / math.Sqrt(a.n*b.n); c > limit || c < -limit {
				x.Fail("%s and %s are not independent (correlation %.2f)", a.name, b.name, c)
			}
		}
	}
	x.Count(len(w.vs) * (len(w.vs) - 1) / 2)
	for _, v := range w.vs {
		x.State(v.name, v.v[:4])
	}
}

// moved finds errors that differ by the signs and the places of their
// coefficients only: an automorphism, a rotation or a negation of one error.
func (w *freshWorld) moved() {
	seen := map[string]string{}
	for _, v := range w.vs {
		if v.kind != "error" {
			continue
		}
		var cnt [64]int
		for _, c := range v.v {
			cnt[int(math.Abs(c))&63]++
		}
		k := fmt.Sprint(cnt)
		if o, in := seen[k]; in {
			w.x.Fail("%s has the coefficients of %s in other places or with other signs", v.name, o)
		}
		seen[k] = v.name
	}
}

// c22Long: many generations on one instance.
func c22Long(l lab.Lit, bfv bool, kinds []string, n int) func(x *mc.X) {
	return func(x *mc.X) {
		w := newFresh(x, l, bfv)
		for i := 0; i < n; i++ {
			w.do(i, kinds[i%len(kinds)], 0)
		}
		w.finish()
	}
}

// c22AllCRS: the reference strings of all rotation indices of a ring, added in
// increasing, decreasing or interleaved order, are different in every row, also
// up to a constant factor and up to the order of their values.
func c22AllCRS(l lab.Lit, bfv bool) func(x *mc.X) {
	return func(x *mc.X) {
		var p mkrlwe.Parameters
		if bfv {
			p = l.BfvParams().Parameters
		} else {
			p = l.CkksParams().Parameters
		}
		order := x.Choose("order", 3)
		half := p.N() / 2
		for i := 1; i < half; i++ {
			switch k := i; order {
			case 0:
				p.AddCRS(k)
			case 1:
				p.AddCRS(half - k)
			default:
				p.AddCRS((k * (half/2 + 1)) % half)
			}
		}
		x.Step("strings of %d indices", half-1)
		first, ends := map[[8]uint64]string{}, map[[3]uint64]string{}
		n := 0
		for i := -4; i < half; i++ {
			crs := p.CRS[i]
			if crs == nil {
				if i >= 0 {
					x.Fail("there is no reference string for index %d", i)
				}
				continue
			}
			for d, v := range crs.Value {
				for part, poly := range []*ring.Poly{v.Q, v.P} {
					qs := p.RingQ().Modulus
					if part == 1 {
						qs = p.RingP().Modulus
					}
					for j, row := range poly.Coeffs {
						name := fmt.Sprintf("CRS[%d][%d], part %d, prime %d", i, d, part, j)
						q := new(big.Int).SetUint64(qs[j])
						inv := new(big.Int).SetUint64(row[0])
						if inv.ModInverse(inv, q) == nil {
							x.Fail("%s: value zero", name)
						}
						var f [8]uint64
						t := new(big.Int)
						for k := range f {
							t.SetUint64(row[k+1])
							f[k] = t.Mod(t.Mul(t, inv), q).Uint64()
						}
						if o, in := first[f]; in {
							x.Fail("%s is %s up to a constant factor", name, o)
						}
						first[f] = name
						var e [3]uint64
						e[0], e[1] = math.MaxUint64, math.MaxUint64
						for _, c := range row {
							switch {
							case c < e[0]:
								e[0], e[1] = c, e[0]
							case c < e[1]:
								e[1] = c
							}
							if c > e[2] {
								e[2] = c
							}
						}
						if o, in := ends[e]; in {
							x.Fail("%s has the values of %s in another order", name, o)
						}
						ends[e] = name
						n++
					}
				}
			}
			if i > 0 && !(i&(i-1) == 0) {
				delete(p.CRS, i) // memory
			}
		}
		x.Count(n)
		x.State(l.Name, bfv, order, n)
	}
}

// c22Pair: two generations on rings whose degree makes weak correlations visible.
func c22Pair(l lab.Lit, bfv bool, first string) func(x *mc.X) {
	return func(x *mc.X) {
		w := newFresh(x, l, bfv)
		w.do(0, first, 0)
		w.do(1, freshKinds[x.Choose("kind", len(freshKinds))], x.Choose("instance", 2))
		w.finish()
	}
}

var (
	kFresh = lab.Lit{Name: "fresh", LogN: 6, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 1}
	bFresh = lab.Lit{Name: "bfresh", LogN: 6, T: 257, Q: []float64{50, 50}, QMul: []float64{51, 51}, P: []float64{55, 55}, Parties: 1}
)

func newFresh(x *mc.X, l lab.Lit, bfv bool) *freshWorld {
	w := &freshWorld{x: x, lit: l}
	if bfv {
		p := l.BfvParams()
		w.bf, w.p = &p, p.Parameters
	} else {
		p := l.CkksParams()
		w.ck, w.p = &p, p.Parameters
	}
	w.lab = lab.NewKeyLab(w.p)
	var pk *mkrlwe.PublicKey
	w.sk, pk = w.kg(0).GenKeyPair("owner")
	w.r = w.kg(0).GenSecretKey("owner")
	w.s, w.rs = lab.Secret(w.p, w.sk), lab.Secret(w.p, w.r)
	w.add("the secret of the owner", "ternary", w.s)
	w.add("the relinearization secret of the owner", "ternary", w.rs)
	es, err := w.lab.PK(pk, w.s)
	w.errs("the public key of the owner: ", es, err)
	w.mask("the mask of the public key of the owner", pk.Value[1].Q)
	return w
}

func c22(bfv bool, first, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		w := newFresh(x, map[bool]lab.Lit{false: kFresh, true: bFresh}[bfv], bfv)
		for n := 0; n < depth; n++ {
			k := first
			if n > 0 {
				k = x.Choose("kind", len(freshKinds))
			}
			w.do(n, freshKinds[k], x.Choose("instance", 2))
		}
		w.finish()
	}
}

// shape compares the values of many samples with a rounded Gaussian of the
// announced deviation, truncated at six deviations.
func shape(x *mc.X, name string, sigma float64, v []int64) {
	n := float64(len(v))
	cnt := map[int64]float64{}
	for _, c := range v {
		cnt[c]++
	}
	phi := func(t float64) float64 { return math.Erf(t / sigma / math.Sqrt2) }
	for k := int64(-6 * sigma); k <= int64(6*sigma); k++ {
		p := (phi(float64(k)+0.5) - phi(float64(k)-0.5)) / 2
		d := cnt[k] - n*p
		delete(cnt, k)
		if math.Abs(d) > 9*math.Sqrt(n*p)+0.01*n*p+9 {
			x.Fail("%s: %d of %d coefficients are %d, a Gaussian of deviation %.2f has %.0f", name, int(d+n*p), len(v), k, sigma, n*p)
		}
	}
	for k := range cnt {
		x.Fail("%s: the value %d is beyond six deviations", name, k)
	}
	x.State(name, len(v), v[:8])
}

// c22Shape accumulates the errors of one kind of object.
func c22Shape(l lab.Lit, bfv bool, kind string) func(x *mc.X) {
	return func(x *mc.X) {
		w := &freshWorld{x: x}
		if bfv {
			p := l.BfvParams()
			w.bf, w.p = &p, p.Parameters
		} else {
			p := l.CkksParams()
			w.ck, w.p = &p, p.Parameters
		}
		w.lab = lab.NewKeyLab(w.p)
		w.sk = w.kg(0).GenSecretKey("owner")
		w.r = w.kg(0).GenSecretKey("owner")
		w.s, w.rs = lab.Secret(w.p, w.sk), lab.Secret(w.p, w.r)
		groups := map[string][]int64{}
		for r := 0; r < 48; r++ {
			w.vs = nil
			if kind == "gaussian" {
				sk := w.kg(0).GenSecretKeyGaussian("owner")
				s, err := w.lab.SecretOf(sk, int64(6*w.p.Sigma()))
				w.errs("", []lab.KeyErr{{Name: "gaussian secret", E: s}}, err)
			} else {
				w.do(0, kind, 0)
			}
			k := 0
			for _, v := range w.vs {
				if v.kind != "error" {
					continue
				}
				g := fmt.Sprintf("%s, sample %d", kind, k)
				k++
				for _, c := range v.v {
					groups[g] = append(groups[g], int64(c))
				}
			}
		}
		var all []int64
		for k := 0; k < len(groups); k++ {
			g := fmt.Sprintf("%s, sample %d", kind, k)
			shape(x, g, w.p.Sigma(), groups[g])
			all = append(all, groups[g]...)
		}
		shape(x, kind, w.p.Sigma(), all)
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C22",
		Bounds: map[string]string{
			"quick":    "ring degree 64: every sequence of 3 (CKKS and BFV) generations among 15 kinds (encryptions in either domain and level, key pairs, public, relinearization, rotation, conjugation and switching keys, reference strings, parameters) on one or two instances; runs of 70–300 generations of every kind on one instance; the strings of all rotation indices at degrees 32, 1024 and 4096, added in three orders; keys of up to 32 digits; every ordered pair of kinds at degree 1024, where weak correlations and errors moved by an automorphism show; every random vector extracted and all pairs compared; the frequency of every error value over 48 generations of every kind at degree 1024 for three deviations",
			"thorough": "as quick with sequences of 4",
		},
		Assumptions: []string{"keys built on the common reference string are generated once per party and index; regenerating them for the same secret is outside the property"},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			d := 3
			if tier == "thorough" {
				d = 4
			}
			for i, k := range freshKinds {
				us = append(us, mc.Unit{Name: "ckks/" + k, Body: c22(false, i, d)}, mc.Unit{Name: "bfv/" + k, Body: c22(true, i, d)})
			}
			kFresh10 := lab.Lit{Name: "fresh10", LogN: 10, Q: []float64{55, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 1}
			bFresh10 := lab.Lit{Name: "bfresh10", LogN: 10, T: 12289, Q: []float64{50, 50}, QMul: []float64{51, 51}, P: []float64{55, 55}, Parties: 1}
			for _, k := range freshKinds {
				us = append(us, mc.Unit{Name: "pair/ckks/" + k, Body: c22Pair(kFresh10, false, k)}, mc.Unit{Name: "pair/bfv/" + k, Body: c22Pair(bFresh10, true, k)})
				n := 70
				switch k {
				case "params":
					n = 9
				case "crs":
					n = 20
				case "enc", "enc-low", "enc-ntt", "scheme-enc", "scheme-low":
					n = 300
				case "pair", "pk":
					n = 140
				}
				if tier == "thorough" && k != "crs" && k != "params" {
					n *= 2
				}
				us = append(us, mc.Unit{Name: "long/ckks/" + k, Body: c22Long(kFresh, false, []string{k}, n)}, mc.Unit{Name: "long/bfv/" + k, Body: c22Long(bFresh, true, []string{k}, n)})
			}
			for _, n := range []int{5, 10, 12} {
				us = append(us, mc.Unit{Name: fmt.Sprint("all-crs/ckks/", n), Body: c22AllCRS(lab.Lit{Name: "crs", LogN: n, Q: []float64{55}, P: []float64{55, 55}, LogSlots: 4, LogScale: 40, Parties: 1}, false)},
					mc.Unit{Name: fmt.Sprint("all-crs/bfv/", n), Body: c22AllCRS(lab.Lit{Name: "bcrs", LogN: n, T: 65537, Q: []float64{50}, QMul: []float64{51}, P: []float64{55, 55}, Parties: 1}, true)})
			}
			// many digits
			for _, k := range []string{"rlk", "rtk1", "cjk", "swk"} {
				for _, q := range [][2]int{{20, 2}, {11, 4}, {32, 2}} {
					kd := lab.Lit{Name: "freshd", LogN: 10, Q: rep(q[0], 45), P: rep(q[1], 50), LogSlots: 5, LogScale: 45, Parties: 1}
					us = append(us, mc.Unit{Name: fmt.Sprintf("digits/ckks/%d/%s", q[0], k), Body: c22Long(kd, false, []string{k}, 2)})
				}
				for _, q := range [][2]int{{16, 2}, {14, 4}} {
					bd := lab.Lit{Name: "bfreshd", LogN: 10, T: 12289, Q: rep(q[0], 45), QMul: rep(q[0], 46), P: rep(q[1], 50), Parties: 1}
					us = append(us, mc.Unit{Name: fmt.Sprintf("digits/bfv/%d/%s", q[0], k), Body: c22Long(bd, true, []string{k}, 2)})
				}
			}
			mixed := []string{"enc", "pk", "rlk", "rtk1", "enc-ntt", "cjk", "scheme-enc", "pair", "swk", "scheme-low"}
			us = append(us, mc.Unit{Name: "long/ckks/mixed", Body: c22Long(kFresh, false, mixed, 200)}, mc.Unit{Name: "long/bfv/mixed", Body: c22Long(bFresh, true, mixed, 200)})
			for _, k := range append([]string{"gaussian"}, freshKinds...) {
				if k == "crs" || k == "params" {
					continue
				}
				for _, sg := range []float64{0, 1.5, 6} {
					l := lab.Lit{Name: "shape", LogN: 10, Q: []float64{55, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 1, Sigma: sg}
					us = append(us, mc.Unit{Name: fmt.Sprintf("shape/ckks/%g/%s", sg, k), Body: c22Shape(l, false, k)})
					l = lab.Lit{Name: "bshape", LogN: 10, T: 12289, Q: []float64{50, 50}, QMul: []float64{51, 51}, P: []float64{55, 55}, Parties: 1, Sigma: sg}
					us = append(us, mc.Unit{Name: fmt.Sprintf("shape/bfv/%g/%s", sg, k), Body: c22Shape(l, true, k)})
				}
			}
			return us
		},
	})
}
