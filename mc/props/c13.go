package props

import (
	"fmt"
	"math"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C13: keys satisfy their defining relation with small, non zero errors, whatever was generated before.

// kgWorld generates keys and re-checks them.
type kgWorld struct {
	x      *mc.X
	p      mkrlwe.Parameters
	kg     *mkrlwe.KeyGenerator
	bfv    *mkbfv.KeyGenerator
	bp     mkbfv.Parameters
	lab    *lab.KeyLab
	sk, r  *mkrlwe.SecretKey
	checks []func()
	errs   []lab.KeyErr
}

func (k *kgWorld) must(es []lab.KeyErr, err error) {
	if err != nil {
		k.x.Fail("%v", err)
	}
	for _, e := range es {
		zero := true
		for _, v := range e.E {
			zero = zero && v == 0
		}
		if zero {
			k.x.Fail("%s: the error is identically zero", e.Name)
		}
		k.errs = append(k.errs, e)
	}
	k.x.Count(len(es))
}

func (k *kgWorld) secret(sk *mkrlwe.SecretKey, bound int64, id string) []int64 {
	s, err := k.lab.SecretOf(sk, bound)
	if err != nil {
		k.x.Fail("secret key: %v", err)
	}
	if sk.ID != id {
		k.x.Fail("the secret key of %q announces %q", id, sk.ID)
	}
	return s
}

// later registers a check that runs now and again at the end of the history.
func (k *kgWorld) later(f func()) {
	f()
	k.checks = append(k.checks, f)
}

var kgKinds = []string{"pair", "sparse", "gaussian", "distrib", "pk", "rlk", "rlk-shared", "rtk", "rtk-neg", "cjk", "default", "swk", "bfvswk", "bfvrlk"}

func (k *kgWorld) gen(kind string, n int) {
	x := k.x
	x.Step("%s", kind)
	id := fmt.Sprintf("party%d", n)
	N := k.p.N()
	s := k.secret(k.sk, 1, "owner")
	own := func(got string) { x.Assert(got == "owner", "%s: the key announces the owner %q", kind, got) }
	switch kind {
	case "pair":
		sk, pk := k.kg.GenKeyPair(id)
		k.later(func() {
			s := k.secret(sk, 1, id)
			x.Assert(pk.ID == id, "the public key of %q announces %q", id, pk.ID)
			k.must(k.lab.PK(pk, s))
		})
	case "sparse":
		hw := []int{0, 1, 5, N}[x.Choose("hw", 4)]
		sk, pk := k.kg.GenKeyPairSparse(hw, id)
		k.later(func() {
			s := k.secret(sk, 1, id)
			w := 0
			for _, v := range s {
				if v != 0 {
					w++
				}
			}
			x.Assert(w == hw, "the sparse secret key has %d non zero coefficients, want %d", w, hw)
			k.must(k.lab.PK(pk, s))
		})
	case "gaussian":
		sk := k.kg.GenSecretKeyGaussian(id)
		pk := k.kg.GenPublicKey(sk)
		k.later(func() {
			s := k.secret(sk, int64(6*k.p.Sigma())+1, id)
			k.must(k.lab.PK(pk, s))
		})
	case "distrib":
		sk := k.kg.GenSecretKeyWithDistrib([]float64{1.0 / 3, 0.5, 0.9}[x.Choose("p", 3)], id)
		pk := k.kg.GenPublicKey(sk)
		k.later(func() {
			k.must(k.lab.PK(pk, k.secret(sk, 1, id)))
		})
	case "pk":
		pk := k.kg.GenPublicKey(k.sk)
		k.later(func() { own(pk.ID); k.must(k.lab.PK(pk, s)) })
	case "rlk", "rlk-shared":
		r := k.r
		if kind == "rlk" {
			r = k.kg.GenSecretKey("owner")
		}
		rs := k.secret(r, 1, "owner")
		key := k.kg.GenRelinearizationKey(k.sk, r)
		k.later(func() { own(key.ID); k.must(k.lab.Rlk(key, s, rs)) })
	case "rtk", "rtk-neg":
		rot := 1 + x.Choose("index", N/2-1)
		if kind == "rtk-neg" {
			rot -= N / 2
		}
		key := k.kg.GenRotationKey(rot, k.sk)
		k.later(func() { own(key.ID); k.must(k.lab.Rtk(key, rot, s)) })
	case "cjk":
		key := k.kg.GenConjugationKey(k.sk)
		k.later(func() { own(key.ID); k.must(k.lab.Cjk(key, s)) })
	case "default":
		set := mkrlwe.NewRotationKeySet()
		k.kg.GenDefaultRotationKeys(k.sk, set)
		k.later(func() {
			m := set.Value["owner"]
			n := 0
			for r := 1; r < N/2; r *= 2 {
				key := m[uint(r)]
				x.Assert(key != nil, "there is no default rotation key for %d", r)
				own(key.ID)
				k.must(k.lab.Rtk(key, r, s))
				n++
			}
			x.Assert(len(m) == n && len(set.Value) == 1, "the default rotation keys are not exactly the powers of two")
		})
	case "swk":
		key := mkrlwe.NewSwitchingKey(k.p)
		k.kg.GenSwitchingKey(k.sk, key)
		k.later(func() { k.must(k.lab.Swk(key, s)) })
	case "bfvswk":
		if k.bfv == nil {
			x.Skip()
		}
		a, b := mkrlwe.NewSwitchingKey(k.p), mkrlwe.NewSwitchingKey(k.p)
		k.bfv.GenBFVSwitchingKey(k.sk, a, b)
		k.later(func() { k.must(k.lab.BfvSwk(k.bp, a, b, s)) })
	case "bfvrlk":
		if k.bfv == nil {
			x.Skip()
		}
		rs := k.secret(k.r, 1, "owner")
		key := k.bfv.GenRelinearizationKey(k.sk, k.r)
		k.later(func() { own(key.ID); k.must(k.lab.BfvRlk(k.bp, key, s, rs)) })
	}
}

type kgFamily struct {
	name string
	make func(x *mc.X) *kgWorld
}

func allRots(p *mkrlwe.Parameters) {
	if h := p.N() / 2; h > 1024 {
		for _, r := range few(p.N()) {
			if r %= h; r != 0 {
				p.AddCRS((r + h) % h)
			}
		}
		return
	}
	for r := 1; r < p.N()/2; r++ {
		p.AddCRS(r)
	}
}

func kgFin(x *mc.X, k *kgWorld) *kgWorld {
	k.x = x
	k.lab = lab.NewKeyLab(k.p)
	k.sk = k.kg.GenSecretKey("owner")
	k.r = k.kg.GenSecretKey("owner")
	return k
}

func kgRlwe(l lab.Lit) kgFamily {
	return kgFamily{"rlwe/" + l.Name, func(x *mc.X) *kgWorld {
		p := l.RlweParams()
		allRots(&p)
		return kgFin(x, &kgWorld{p: p, kg: mkrlwe.NewKeyGenerator(p)})
	}}
}

func kgCkks(l lab.Lit) kgFamily {
	return kgFamily{"ckks/" + l.Name, func(x *mc.X) *kgWorld {
		p := l.CkksParams()
		allRots(&p.Parameters)
		return kgFin(x, &kgWorld{p: p.Parameters, kg: mkckks.NewKeyGenerator(p)})
	}}
}

func kgBfv(l lab.Lit) kgFamily {
	return kgFamily{"bfv/" + l.Name, func(x *mc.X) *kgWorld {
		p := l.BfvParams()
		allRots(&p.Parameters)
		kg := mkbfv.NewKeyGenerator(p)
		return kgFin(x, &kgWorld{p: p.Parameters, bp: p, kg: kg.KeyGenerator, bfv: kg})
	}}
}

func kgFamilies(tier string) []kgFamily {
	var fs []kgFamily
	for _, l := range []lab.Lit{rA1, rA2, rG1, rG1b, rG3, rG3b, rOdd, rOne, rAll, rBigQ} {
		fs = append(fs, kgRlwe(l))
	}
	for _, l := range []lab.Lit{kA1, kA3, kSkew2, kA2o} {
		fs = append(fs, kgCkks(l))
	}
	for _, l := range []lab.Lit{bA1, bA2, bSkew, bA3, bOdd, bT, bBig, bOne} {
		fs = append(fs, kgBfv(l))
	}
	return fs
}

// kgWide: many primes and digits.
func kgWide() []kgFamily {
	return []kgFamily{
		kgRlwe(lab.Lit{Name: "q20p3", LogN: 4, Q: rep(20, 45), P: rep(3, 50), Gamma: 1, Parties: 1}),
		kgRlwe(lab.Lit{Name: "q10p9", LogN: 4, Q: rep(10, 45), P: rep(9, 50), Gamma: 3, Parties: 1}),
		kgCkks(lab.Lit{Name: "q20p2", LogN: 4, Q: rep(20, 45), P: rep(2, 50), LogSlots: 3, LogScale: 45, Parties: 1}),
		kgCkks(lab.Lit{Name: "q32p2", LogN: 4, Q: rep(32, 45), P: rep(2, 50), LogSlots: 3, LogScale: 45, Parties: 1}),
		kgCkks(lab.Lit{Name: "q29p12", LogN: 4, Q: rep(29, 45), P: rep(12, 50), LogSlots: 3, LogScale: 45, Parties: 1}),
		kgBfv(lab.Lit{Name: "q16p2", LogN: 4, T: 97, Q: rep(16, 45), QMul: rep(16, 46), P: rep(2, 50), Parties: 1}),
		kgBfv(lab.Lit{Name: "q15p6", LogN: 4, T: 97, Q: rep(15, 45), QMul: rep(15, 46), P: rep(6, 50), Parties: 1}),
	}
}

// kgLarge: larger rings.
func kgLarge() []kgFamily {
	return []kgFamily{
		kgRlwe(lab.Lit{Name: "n1024", LogN: 10, Q: []float64{50, 45, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 1}),
		kgCkks(lab.Lit{Name: "n512", LogN: 9, Q: []float64{55, 45, 45}, P: rep(4, 55), LogSlots: 8, LogScale: 45, Parties: 1}),
		kgBfv(lab.Lit{Name: "n512", LogN: 9, T: 12289, Q: []float64{50, 50}, QMul: []float64{51, 51}, P: []float64{55, 55}, Parties: 1}),
		kgRlwe(lab.Lit{Name: "n64", LogN: 6, Q: []float64{50, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 1}),
		kgRlwe(lab.Lit{Name: "n128", LogN: 7, Q: []float64{50, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 1}),
	}
}

// kgHuge: rings as large as the shipped ones.
func kgHuge() []kgFamily {
	return []kgFamily{
		kgRlwe(lab.Lit{Name: "n8192", LogN: 13, Q: []float64{50, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 1}),
		kgCkks(lab.Lit{Name: "n8192", LogN: 13, Q: []float64{55, 45}, P: rep(4, 55), LogSlots: 12, LogScale: 45, Parties: 1}),
		kgBfv(lab.Lit{Name: "n8192", LogN: 13, T: 65537, Q: []float64{50, 50}, QMul: []float64{51, 51}, P: []float64{55, 55}, Parties: 1}),
	}
}

// c13FewRots: the keys of the powers of two, of their neighbours and triples, and of the ends.
func c13FewRots(f kgFamily) func(x *mc.X) {
	const parts = 8
	return func(x *mc.X) {
		k := f.make(x)
		s := k.secret(k.sk, 1, "owner")
		h := k.p.N() / 2
		ks := few(k.p.N())
		for i := x.Choose("part", parts); i < len(ks); i += parts {
			rot := ks[i] % h
			if rot == 0 {
				continue
			}
			key := k.kg.GenRotationKey(rot, k.sk)
			x.Assert(key.ID == "owner" && int(key.RotIdx) == (rot+h)%h, "the key for the index %d announces (%q, %d)", rot, key.ID, key.RotIdx)
			k.must(k.lab.Rtk(key, (rot+h)%h, s))
		}
		x.State(f.name, len(k.errs))
	}
}

// c13AllRots: the keys of every rotation index of a larger ring, one after the
// other on one generator.
func c13AllRots(f kgFamily) func(x *mc.X) {
	const parts = 16
	return func(x *mc.X) {
		k := f.make(x)
		s := k.secret(k.sk, 1, "owner")
		h := k.p.N() / 2
		for rot := 1 + x.Choose("part", parts); rot < h; rot += parts {
			for _, r := range []int{rot, rot - h} {
				key := k.kg.GenRotationKey(r, k.sk)
				x.Assert(key.ID == "owner" && int(key.RotIdx) == rot, "the key for the index %d announces (%q, %d)", r, key.ID, key.RotIdx)
				k.must(k.lab.Rtk(key, r, s))
			}
		}
		x.State(f.name, len(k.errs))
	}
}

// change gives the owner's secrets other values, in the same objects or in new ones.
func (k *kgWorld) change(how int) {
	if how == 0 {
		return
	}
	k.x.Step("the owner's secrets change, in place: %v", how == 1)
	sk, r := k.kg.GenSecretKey("owner"), k.kg.GenSecretKey("owner")
	if how == 2 {
		k.sk, k.r = sk, r
		return
	}
	for _, c := range [][2]*mkrlwe.SecretKey{{k.sk, sk}, {k.r, r}} {
		c[0].Value.Q.Copy(c[1].Value.Q)
		c[0].Value.P.Copy(c[1].Value.P)
	}
}

func c13History(f kgFamily, first string, depth int, change bool) func(x *mc.X) {
	return func(x *mc.X) {
		k := f.make(x)
		crs := lab.NewH().CRS(k.p.CRS)
		k.gen(first, 0)
		for d := 1; d < depth; d++ {
			if d == 1 && change {
				k.change(x.Choose("change", 3))
			}
			k.gen(kgKinds[x.Choose("kind", len(kgKinds))], d)
		}
		for i, c := range k.checks {
			x.Step("re-check key %d", i)
			c()
		}
		x.Assert(lab.NewH().CRS(k.p.CRS) == crs, "key generation changed the reference strings")
		for _, e := range k.errs {
			x.State(f.name, e.Name, e.E)
		}
	}
}

// c13Rotations checks the keys of every index.
func c13Rotations(f kgFamily) func(x *mc.X) {
	return func(x *mc.X) {
		k := f.make(x)
		s := k.secret(k.sk, 1, "owner")
		h := k.p.N() / 2
		rot := x.Choose("index", 4*h) - 2*h
		if rot == 0 || rot == -h || rot == -2*h {
			p, _ := mc.Panics(func() { k.kg.GenRotationKey(rot, k.sk) })
			x.Assert(p, "a rotation key for the index %d was generated: it is masked by the reference string of the relinearization keys", rot)
			x.State(f.name, rot)
			return
		}
		var key *mkrlwe.RotationKey
		if p, _ := mc.Panics(func() { key = k.kg.GenRotationKey(rot, k.sk) }); p {
			x.Assert(rot >= h, "no rotation key for the index %d", rot)
			x.State(f.name, rot)
			return
		}
		x.Step("rtk(%d)", rot)
		k.must(k.lab.Rtk(key, rot, s))
		x.State(f.name, rot)
	}
}

// c13Distribution checks the widths of the distributions on a larger ring.
func c13Distribution(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		p := l.RlweParams()
		kg := mkrlwe.NewKeyGenerator(p)
		k := lab.NewKeyLab(p)
		n := float64(p.N())
		kind := x.Choose("secret", 6)
		var sk *mkrlwe.SecretKey
		var s []int64
		var err error
		frac := func(v int64) float64 {
			c := 0.0
			for _, t := range s {
				if t == v {
					c++
				}
			}
			return c / n
		}
		near := func(v int64, lo, hi float64) {
			f := frac(v)
			x.Assert(f > lo && f < hi, "secret kind %d: the value %d has frequency %.3f, want within (%.2f,%.2f)", kind, v, f, lo, hi)
		}
		switch kind {
		case 0:
			sk = kg.GenSecretKey("a")
			s, err = k.SecretOf(sk, 1)
			near(0, 0.2, 0.6)
			near(1, 0.15, 0.45)
			near(-1, 0.15, 0.45)
		case 1, 2, 3:
			q := []float64{1.0 / 3, 0.5, 0.8}[kind-1]
			sk = kg.GenSecretKeyWithDistrib(q, "a")
			s, err = k.SecretOf(sk, 1)
			near(0, q-0.1, q+0.1)
			near(1, (1-q)/2-0.08, (1-q)/2+0.08)
			near(-1, (1-q)/2-0.08, (1-q)/2+0.08)
		case 4:
			sk = kg.GenSecretKeyGaussian("a")
			s, err = k.SecretOf(sk, int64(6*p.Sigma())+1)
			if err == nil {
				sd := stddev(s)
				x.Assert(sd > 0.8*p.Sigma() && sd < 1.2*p.Sigma(), "the Gaussian secret has deviation %.2f, want %.2f", sd, p.Sigma())
			}
		case 5:
			sk = kg.GenSecretKeySparse(64, "a")
			s, err = k.SecretOf(sk, 1)
			near(0, 1-64/n-1e-9, 1-64/n+1e-9)
			near(1, 0.015, 0.05)
			near(-1, 0.015, 0.05)
		}
		if err != nil {
			x.Fail("secret: %v", err)
		}
		x.State(kind)
		// the errors of every component have the announced deviation
		kw := &kgWorld{x: x, p: p, kg: kg, lab: k}
		r := kg.GenSecretKey("a")
		rs, err := k.SecretOf(r, 1)
		if err != nil {
			x.Fail("secret: %v", err)
		}
		kw.must(k.PK(kg.GenPublicKey(sk), s))
		kw.must(k.Rlk(kg.GenRelinearizationKey(sk, r), s, rs))
		kw.must(k.Rtk(kg.GenRotationKey(4, sk), 4, s))
		kw.must(k.Cjk(kg.GenConjugationKey(sk), s))
		for _, e := range kw.errs {
			sd := stddev(e.E)
			x.Assert(sd > 0.75*p.Sigma() && sd < 1.25*p.Sigma(), "the error of %s has deviation %.2f, want %.2f", e.Name, sd, p.Sigma())
		}
	}
}

func stddev(v []int64) float64 {
	s, q := 0.0, 0.0
	for _, t := range v {
		s += float64(t)
		q += float64(t) * float64(t)
	}
	n := float64(len(v))
	return math.Sqrt(q/n - s/n*s/n)
}

func init() {
	mc.Register(&mc.Property{
		ID: "C13",
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			for _, f := range kgFamilies(tier) {
				for _, kind := range kgKinds {
					if tier == "thorough" {
						us = append(us, mc.Unit{Name: f.name + "/three/" + kind, Body: c13History(f, kind, 3, false)})
					}
					us = append(us, mc.Unit{Name: f.name + "/" + kind, Body: c13History(f, kind, 2, true)})
				}
				us = append(us, mc.Unit{Name: f.name + "/rotations", Body: c13Rotations(f)})
			}
			for _, f := range kgWide() {
				for _, kind := range kgKinds {
					us = append(us, mc.Unit{Name: "wide/" + f.name + "/" + kind, Body: c13History(f, kind, 1, false)})
				}
			}
			for _, f := range kgLarge() {
				for _, kind := range kgKinds {
					if kind != "rtk" && kind != "rtk-neg" {
						us = append(us, mc.Unit{Name: "large/" + f.name + "/" + kind, Body: c13History(f, kind, 1, false)})
					}
				}
				us = append(us, mc.Unit{Name: "large/" + f.name + "/rotations", Body: c13AllRots(f)})
			}
			for _, f := range kgHuge() {
				for _, kind := range kgKinds {
					if kind != "rtk" && kind != "rtk-neg" {
						us = append(us, mc.Unit{Name: "large/" + f.name + "/" + kind, Body: c13History(f, kind, 1, false)})
					}
				}
				us = append(us, mc.Unit{Name: "large/" + f.name + "/rotations", Body: c13FewRots(f)})
			}
			us = append(us, mc.Unit{Name: "distribution", Body: c13Distribution(rN8)})
			return us
		},
		Bounds: map[string]string{
			"quick":    "all key generation sequences of length 2 over 14 kinds (every rotation index, weights 0,1,5,N, 3 distributions) on one generator, with the secrets kept, replaced, or overwritten in place after the first key, 22 parameter sets (N=16/32; gamma 1,2,3; 1-7 primes; 1-6 special primes); every rotation index in [-N,N); every kind on 7 sets with 10-32 primes and up to 32 digits, and with every rotation index on 5 sets of degree 64-1024; every kind, with the powers of two, their neighbours and triples as indices, on 3 sets of degree 8192; every digit, prime and coefficient of every key; distributions at N=1024",
			"thorough": "as quick, and sequences of length 3",
		},
	})
}
