package props

import (
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C23: the encrypted CNN layers compute the plaintext network. The layers are
// (bi)linear slot functions: at small degrees every unit input of every
// operand is explored; at the shipped degree the whole network is compared
// with a plaintext evaluation of the network itself (not of its packing).

func cnnLit(logN int) lab.Lit {
	return lab.Lit{Name: fmt.Sprint("cnn", logN), LogN: logN, Q: []float64{57, 47, 47, 47, 47}, P: []float64{57, 57}, LogSlots: logN - 1, LogScale: 47, Parties: 2, Rots: lab.CnnRots(1 << uint(logN-1))}
}

// small nonzero values, distinct per slot and operand
func cnnDense(n, k int) []complex128 {
	v := make([]complex128, n)
	for i := range v {
		v[i] = complex(float64((i*5+k*3)%17-8)/16+0.03, 0)
	}
	return v
}

func unit(n, i int) []complex128 {
	v := make([]complex128, n)
	v[i] = 1
	return v
}

type cnnWorld struct {
	*lab.World
	data, model string
	level       int
}

func newCnnWorld(x *mc.X, l lab.Lit) *cnnWorld {
	c := lab.GetCK(l)
	w := &cnnWorld{World: lab.NewWorld(x, c)}
	w.data, w.model = c.IDs[0], c.IDs[1]
	w.level = c.Params.MaxLevel()
	return w
}

func (w *cnnWorld) hoist(cs []*lab.CV) (cts []*mkckks.Ciphertext, hs []*mkrlwe.HoistedCiphertext) {
	for _, c := range cs {
		cts = append(cts, c.CT)
		hs = append(hs, w.Ev.HoistedForm(c.CT))
	}
	return
}

func (w *cnnWorld) check(o *lab.CV, ct *mkckks.Ciphertext, what string) {
	w.X.Step("%s", what)
	w.CheckMsg(w.Dec.Decrypt(ct, w.SKs), o, what)
	w.X.State(w.C.Lit.Name, what, o.V[0], o.V[len(o.V)-1])
}

// inputs chooses which operand is a unit vector and which slot it lights.
func (w *cnnWorld) inputs(n, ops, part, parts int) (op, slot int) {
	op = w.X.Choose("unit operand", ops+1)
	if op == ops {
		if part != 0 {
			w.X.Skip()
		}
		return op, 0
	}
	m := (n + parts - 1 - part) / parts
	return op, part + parts*w.X.Choose("slot", m)
}

func c23Layer(l lab.Lit, layer string, part, parts int) func(x *mc.X) {
	return func(x *mc.X) {
		w := newCnnWorld(x, l)
		n := w.Slots()
		lv := w.level
		if x.Bool("lower level") {
			lv--
		}
		modelOwner := w.model
		vec := func(op, k, slot int) []complex128 {
			if op == k {
				return unit(n, slot)
			}
			return cnnDense(n, k)
		}
		switch layer {
		case "conv":
			op, slot := w.inputs(n, 5, part, parts)
			img := w.Encrypt(vec(op, 0, slot), w.data, lv)
			var ks []*lab.CV
			for i := 0; i < 4; i++ {
				ks = append(ks, w.Encrypt(vec(op, i+1, slot), modelOwner, lv))
			}
			cts, hs := w.hoist(ks)
			out := cnn.Convolution(w.Ev, w.Rlk, w.Rtk, img.CT, w.Ev.HoistedForm(img.CT), cts, hs)
			w.check(w.ConvModel(img, ks), out, "convolution")
			w.check(img, img.CT, "image afterwards")
			for i := range ks {
				w.check(ks[i], ks[i].CT, "kernel afterwards")
			}
		case "fc1":
			nm := []int{8, 1, 3}[x.Choose("matrices", 3)]
			op, slot := w.inputs(n, nm+2, part, parts)
			v := w.Encrypt(vec(op, 0, slot), w.data, lv)
			var ms []*lab.CV
			for i := 0; i < nm; i++ {
				ms = append(ms, w.Encrypt(vec(op, i+1, slot), modelOwner, lv))
			}
			bias := w.Encrypt(vec(op, nm+1, slot), modelOwner, w.level)
			cts, hs := w.hoist(ms)
			out := cnn.FC1Layer(w.Ev, w.Rlk, w.Rtk, v.CT, w.Ev.HoistedForm(v.CT), cts, hs, bias.CT)
			w.check(w.FC1Model(v, ms, bias), out, "first fully connected layer")
			w.check(v, v.CT, "operand afterwards")
			w.check(bias, bias.CT, "bias afterwards")
		case "fc2":
			op, slot := w.inputs(n, 4, part, parts)
			v := w.Encrypt(vec(op, 0, slot), w.data, lv)
			m := w.Encrypt(vec(op, 1, slot), modelOwner, lv)
			bias := w.Encrypt(vec(op, 2, slot), modelOwner, w.level)
			mask := vec(op, 3, slot)
			out := cnn.FC2Layer(w.Ev, w.Rlk, w.Rtk, v.CT, m.CT, bias.CT, w.Plain(mask))
			w.check(w.FC2Model(v, m, bias, mask), out, "second fully connected layer")
			w.check(v, v.CT, "operand afterwards")
			w.check(m, m.CT, "matrix afterwards")
		}
		x.Assert(w.C.Intact(), "the layer changed the keys or the parameters")
	}
}

// ---- whole network, at the shipped parameters ----

type network struct {
	kernels [5][4][4]float64
	fc1     [845][64]float64
	fc2     [64][10]float64
	b1      [64]float64
	b2      [10]float64
}

func syntheticNetwork(k int) *network {
	n := &network{}
	s := uint64(k)*977 + 12345
	rnd := func(a float64) float64 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return (float64(s%2001)/1000 - 1) * a
	}
	for i := range n.kernels {
		for j := range n.kernels[i] {
			for l := range n.kernels[i][j] {
				n.kernels[i][j][l] = rnd(0.4)
			}
		}
	}
	for i := range n.fc1 {
		for j := range n.fc1[i] {
			n.fc1[i][j] = rnd(0.08)
		}
	}
	for i := range n.fc2 {
		for j := range n.fc2[i] {
			n.fc2[i][j] = rnd(0.2)
		}
	}
	for i := range n.b1 {
		n.b1[i] = rnd(0.3)
	}
	for i := range n.b2 {
		n.b2[i] = rnd(0.5)
	}
	return n
}

// shippedNetwork reads the model of the repository, nil if it is not there.
func shippedNetwork() *network {
	n := &network{}
	read := func(name string, cols int, set func(i, j int, v float64)) bool {
		b, err := os.ReadFile("/repo/cnn/data/" + name)
		if err != nil {
			return false
		}
		for k, f := range strings.Fields(string(b)) {
			v, err := strconv.ParseFloat(f, 64)
			if err != nil {
				return false
			}
			set(k/cols, k%cols, v)
		}
		return true
	}
	defer func() { recover() }()
	ok := read("k1.txt", 16, func(i, j int, v float64) { n.kernels[i][j/4][j%4] = v }) &&
		read("FC1.txt", 64, func(i, j int, v float64) { n.fc1[i][j] = v }) &&
		read("FC2.txt", 10, func(i, j int, v float64) { n.fc2[i][j] = v }) &&
		read("B1.txt", 64, func(_, j int, v float64) { n.b1[j] = v }) &&
		read("B2.txt", 10, func(_, j int, v float64) { n.b2[j] = v })
	if !ok {
		return nil
	}
	return n
}

type image [28][28]float64

// eval is the plaintext network.
func (n *network) eval(im *image) (conv [5][13][13]float64, h [64]float64, out [10]float64) {
	for k := range conv {
		for i := 0; i < 13; i++ {
			for j := 0; j < 13; j++ {
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						conv[k][i][j] += im[2*i+a][2*j+b] * n.kernels[k][a][b]
					}
				}
			}
		}
	}
	for u := range h {
		h[u] = n.b1[u]
		for k := range conv {
			for i := 0; i < 13; i++ {
				for j := 0; j < 13; j++ {
					c := conv[k][i][j]
					h[u] += c * c * n.fc1[k+5*(i*13+j)][u]
				}
			}
		}
	}
	for c := range out {
		out[c] = n.b2[c]
		for u := range h {
			out[c] += h[u] * h[u] * n.fc2[u][c]
		}
	}
	return
}

// packing of the CNN inputs, as the users of the layers do it
func packImage(im *image) []complex128 {
	v := make([]complex128, 8192)
	for k := 0; k < 5; k++ {
		for i := 0; i < 14; i++ {
			for j := 0; j < 14; j++ {
				for s := 0; s < 4; s++ {
					v[1024*s+196*k+14*i+j] = complex(im[2*i+s/2][2*j+s%2], 0)
				}
			}
		}
	}
	copy(v[4096:], v[:4096])
	return v
}

func (n *network) pack() (ks, fc1 [][]complex128, fc2, b1, b2, mask []complex128) {
	for a := 0; a < 4; a++ { // a selects the 2x2 block of the kernel
		v := make([]complex128, 8192)
		for k := 0; k < 5; k++ {
			for i := 0; i < 13; i++ {
				for j := 0; j < 13; j++ {
					for s := 0; s < 4; s++ {
						v[1024*s+196*k+14*i+j] = complex(n.kernels[k][2*(a/2)+s/2][2*(a%2)+s%2], 0)
					}
				}
			}
		}
		copy(v[4096:], v[:4096])
		ks = append(ks, v)
	}
	var t [64][1024]float64
	for u := range t {
		for k := 0; k < 5; k++ {
			for i := 0; i < 13; i++ {
				for j := 0; j < 13; j++ {
					t[u][196*k+14*i+j] = n.fc1[k+5*(i*13+j)][u]
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		v := make([]complex128, 8192)
		for u := 0; u < 64; u++ {
			for k := 0; k < 128; k++ {
				v[128*u+k] = complex(t[u][128*((i+u)%8)+k], 0)
			}
		}
		fc1 = append(fc1, v)
	}
	fc2, b1, b2, mask = make([]complex128, 8192), make([]complex128, 8192), make([]complex128, 8192), make([]complex128, 8192)
	for u := 0; u < 64; u++ {
		for c := 0; c < 10; c++ {
			fc2[128*u+c] = complex(n.fc2[u][c], 0)
		}
		b1[128*u] = complex(n.b1[u], 0)
		mask[128*u] = 1
	}
	for c := 0; c < 10; c++ {
		b2[c] = complex(n.b2[c], 0)
	}
	return
}

var shipCnn = lab.Lit{Name: "PN14QP433", LogN: 14, LogSlots: 13, LogScale: 47, Parties: 2,
	Qx:   []uint64{0x2000000002b0001, 0x800000020001, 0x800000280001, 0x800000520001, 0x800000770001, 0x800000aa0001, 0x800000ad0001},
	Px:   []uint64{0x800000df0001, 0x800000f80001},
	Rots: []int{14, 15, 384, 512, 640, 768, 896, 8191, 8190, 8188, 8184}}

// testImage is a deterministic image; kinds cover blank, full, single pixels and strokes.
func testImage(k int) *image {
	im := &image{}
	switch {
	case k == 0:
	case k == 1:
		for i := range im {
			for j := range im[i] {
				im[i][j] = 1
			}
		}
	case k < 2+784: // one pixel
		p := (k - 2) * 29 % 784
		im[p/28][p%28] = 1
	default:
		for i := range im {
			for j := range im[i] {
				im[i][j] = float64((i*(k%7+2)+j*(k%5+3)+i*j)%16) / 16
			}
		}
	}
	return im
}

func c23Network(model int, imgs []int) func(x *mc.X) {
	return func(x *mc.X) {
		n := syntheticNetwork(model)
		if model == 0 {
			if n = shippedNetwork(); n == nil {
				n = syntheticNetwork(0)
			}
		}
		c := lab.GetCK(shipCnn)
		w := lab.NewWorld(x, c)
		data, owner := c.IDs[0], c.IDs[1]
		if x.Bool("owners swapped") {
			data, owner = owner, data
		}
		max := c.Params.MaxLevel()
		ks, fc1, fc2, b1, b2, mask := n.pack()
		enc := func(v []complex128) *mkckks.Ciphertext { return w.Encrypt(v, owner, max).CT }
		var kc, fc []*mkckks.Ciphertext
		var kh, fh []*mkrlwe.HoistedCiphertext
		for _, v := range ks {
			kc = append(kc, enc(v))
			kh = append(kh, w.Ev.HoistedForm(kc[len(kc)-1]))
		}
		for _, v := range fc1 {
			fc = append(fc, enc(v))
			fh = append(fh, w.Ev.HoistedForm(fc[len(fc)-1]))
		}
		cfc2, cb1, cb2 := enc(fc2), enc(b1), enc(b2)
		pm := w.Plain(mask)
		near := func(what string, got complex128, want float64) {
			if d := math.Hypot(real(got)-want, imag(got)); !(d <= 1e-4*(1+math.Abs(want))) {
				x.Fail("%s is %v, the plaintext network gives %v", what, got, want)
			}
		}
		for _, k := range imgs {
			im := testImage(k)
			conv, h, out := n.eval(im)
			ci := w.Encrypt(packImage(im), data, max).CT
			x.Step("image %d", k)
			cc := cnn.Convolution(w.Ev, w.Rlk, w.Rtk, ci, w.Ev.HoistedForm(ci), kc, kh)
			m := w.Dec.Decrypt(cc, w.SKs)
			for a := range conv {
				for i := range conv[a] {
					for j := range conv[a][i] {
						near(fmt.Sprintf("image %d: convolution %d at (%d,%d)", k, a, i, j), m.Value[196*a+14*i+j], conv[a][i][j])
					}
				}
			}
			ch := w.Ev.HoistedForm(cc)
			sq := w.Ev.MulRelinHoistedNew(cc, cc, ch, ch, w.Rlk)
			f1 := cnn.FC1Layer(w.Ev, w.Rlk, w.Rtk, sq, w.Ev.HoistedForm(sq), fc, fh, cb1)
			m = w.Dec.Decrypt(f1, w.SKs)
			for u := range h {
				near(fmt.Sprintf("image %d: unit %d", k, u), m.Value[128*u], h[u])
			}
			fhh := w.Ev.HoistedForm(f1)
			sq2 := w.Ev.MulRelinHoistedNew(f1, f1, fhh, fhh, w.Rlk)
			f2 := cnn.FC2Layer(w.Ev, w.Rlk, w.Rtk, sq2, cfc2, cb2, pm)
			m = w.Dec.Decrypt(f2, w.SKs)
			for o := range out {
				near(fmt.Sprintf("image %d: class %d", k, o), m.Value[o], out[o])
			}
			x.Count(845 + 64 + 10)
			x.State(k, model, out)
		}
	}
}

func init() {
	mc.Register(&mc.Property{
		ID:      "C23",
		MaxExec: 600,
		Bounds: map[string]string{
			"quick":    "each layer at degrees 2^5 and 2^8 (conv also 2^6, fully connected layers also 2^9), two starting levels: every unit vector in every operand plus dense operands; the whole network at the shipped parameters with two models and images of every kind",
			"thorough": "as quick with degrees up to 2^11 and every single-pixel image of a stride of 29",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			th := tier == "thorough"
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			nets := [][]int{{0, 2, 900}, {1, 31, 901}}
			if th {
				nets = [][]int{{0, 1, 2, 3, 900, 901}, {4, 5, 6, 902}, {31, 40, 300, 903}, {400, 500, 600, 700}}
			}
			for m := 0; m < 2; m++ {
				for k, im := range nets {
					add(fmt.Sprintf("network/%d/%d", m, k), c23Network(m, im))
				}
			}
			type lc struct {
				layer string
				logN  int
				parts int
			}
			ls := []lc{{"conv", 5, 1}, {"conv", 6, 1}, {"conv", 8, 4}, {"fc1", 5, 1}, {"fc1", 8, 8}, {"fc2", 5, 1}, {"fc2", 8, 2}, {"fc2", 9, 8}}
			if th {
				ls = append(ls, lc{"conv", 9, 8}, lc{"conv", 10, 16}, lc{"fc1", 9, 16}, lc{"fc1", 10, 32}, lc{"fc2", 10, 16}, lc{"fc2", 11, 32})
			}
			for _, l := range ls {
				for p := 0; p < l.parts; p++ {
					add(fmt.Sprintf("%s/%d/%d", l.layer, l.logN, p), c23Layer(cnnLit(l.logN), l.layer, p, l.parts))
				}
			}
			return us
		},
	})
}
