package props

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C01: CKKS encryption followed by decryption is the identity.

// ckMessages is the basis of messages: every slot alone with several values, and dense vectors.
func ckMessages(slots int) [][]complex128 {
	var out [][]complex128
	out = append(out, make([]complex128, slots))
	for s := 0; s < slots; s++ {
		if slots > 64 && s > 1 && s+2 < slots && s&(s-1) != 0 {
			continue // in large rings: the ends and the powers of two
		}
		for _, c := range []complex128{1, 1i, -1, complex(-0.5, 0.25), 200, complex(0, -150), complex(1.0/(1<<10), 0)} {
			v := make([]complex128, slots)
			v[s] = c
			out = append(out, v)
		}
	}
	for k := 0; k < 4; k++ {
		out = append(out, lab.Vec(slots, k))
	}
	c := make([]complex128, slots)
	d := make([]complex128, slots)
	for i := range c {
		c[i] = complex(100, -100)
		d[i] = complex(float64(1-2*(i%2)), 0)
	}
	return append(out, c, d)
}

// fitMsg scales the messages so that they fit level 0.
func maxMag(w *lab.World, level int) float64 {
	m := 300.0
	for m > 1e-3 && !w.Fits(m, 1, w.C.Params.Scale(), level) {
		m /= 2
	}
	return m
}

func clip(v []complex128, m float64) []complex128 {
	out := make([]complex128, len(v))
	for i := range v {
		out[i] = v[i]
		if a := cmplx.Abs(v[i]); a > m {
			out[i] = v[i] * complex(m/a, 0)
		}
	}
	return out
}

func c01Roundtrip(l lab.Lit, party int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		p := c.Params
		id := c.IDs[party]
		level := x.Choose("level", p.MaxLevel()+1)
		msgs := ckMessages(w.Slots())
		mi := x.Choose("message", len(msgs)+1)
		if mi == len(msgs) {
			// several encryptions in a row with the same encryptor and decryptor
			for k := range msgs[:minInt(len(msgs), 12)] {
				lv := (level + k) % (p.MaxLevel() + 1)
				v := clip(msgs[k], maxMag(w, lv))
				cv := w.Encrypt(v, id, lv)
				w.Check(cv, fmt.Sprintf("encryption number %d at level %d", k+1, lv))
			}
			return
		}
		v := clip(msgs[mi], maxMag(w, level))
		cv := w.Encrypt(v, id, level)
		w.Check(cv, "enc/dec")
		// only the key of the party involved
		own := mkckks.NewDecryptor(p)
		w.CheckMsg(own.Decrypt(cv.CT, c.SKSet(id)), cv, "decryption with the party's key only")
		w.CheckMsg(own.Decrypt(cv.CT, c.SKSet(id)), cv, "second decryption")
		checkRlweDecrypt(x, c, cv)
	}
}

// c01Large: messages whose coefficients exceed one prime, up to the modulus of the level.
func c01Large(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		id := c.IDs[x.Choose("party", len(c.IDs))]
		level := x.Choose("level", c.Params.MaxLevel()+1)
		k := x.Choose("pattern", minInt(w.Slots(), 32)+2)
		v := lab.Vec(w.Slots(), k)
		if k >= 2 {
			for i := range v {
				if i != k-2 {
					v[i] = 0
				} else {
					v[i] = complex(1, -1)
				}
			}
		}
		bits := 10 * (1 + x.Choose("magnitude", 25))
		for i := range v {
			v[i] *= complex(math.Ldexp(1, bits), 0)
		}
		mag := 2 * math.Ldexp(1, bits)
		if !w.Fits(mag, 0, c.Params.Scale(), level) {
			x.Skip()
		}
		// lattigo's own encoder does not round-trip coefficients around 2^64 for sparse slots: such
		// messages, and any other that encode-then-decode alone loses, are out of the scheme's reach
		top := math.Log2(mag) + math.Log2(c.Params.Scale())
		if top > 60 && top < 70 {
			x.Skip()
		}
		enc := ckks.NewEncoder(c.Ckks)
		pt := ckks.NewPlaintext(c.Ckks, level, c.Params.Scale())
		enc.Encode(pt, v, c.Params.LogSlots())
		for i, z := range enc.Decode(pt, c.Params.LogSlots()) {
			if cmplx.Abs(z-v[i]) > mag*math.Ldexp(1, -40) {
				x.Skip()
			}
		}
		cv := w.Encrypt(v, id, level)
		cv.Mag = mag
		cv.Err += mag * math.Ldexp(1, -40)
		w.Check(cv, fmt.Sprintf("message of magnitude 2^%d at level %d", bits, level))
		// a small message afterwards
		w.Check(w.Encrypt(clip(lab.Vec(w.Slots(), 3), maxMag(w, level)), id, level), "a small message afterwards")
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// checkRlweDecrypt decrypts with the generic decryptor into plaintexts of both domains and several levels.
func checkRlweDecrypt(x *mc.X, c *lab.CK, cv *lab.CV) {
	p := c.Params
	want := lab.Phase(p.Parameters, cv.CT.Ciphertext, c.SK)
	r := p.RingQ()
	dec := mkrlwe.NewDecryptor(p.Parameters)
	for _, ntt := range []bool{true, false} {
		for _, lv := range []int{p.MaxLevel(), cv.Level, 0} {
			pt := rlwe.NewPlaintext(p.Parameters.Parameters, lv)
			pt.Value.IsNTT = ntt
			dec.Decrypt(cv.CT.Ciphertext, c.SKSet(), pt)
			ml := minInt(lv, cv.Level)
			x.Assert(pt.Level() == ml, "mkrlwe Decrypt of a level %d ciphertext into a level %d plaintext gives level %d", cv.Level, lv, pt.Level())
			x.Assert(pt.Value.IsNTT == ntt, "mkrlwe Decrypt changed the domain flag of the plaintext")
			cp := lab.Reduced(r, ml, pt.Value)
			if ntt {
				r.InvNTTLvl(ml, cp, cp)
			}
			got := lab.Centered(r, ml, cp.Coeffs)
			w := lab.CenterMod(want, lab.Modulus(r, ml))
			for i := range got {
				x.Assert(got[i].Cmp(w[i]) == 0, "mkrlwe Decrypt into an (NTT=%v, level %d) plaintext differs from <ct,sk> at coefficient %d", ntt, lv, i)
			}
		}
	}
}

// c01Ptxt: EncryptPtxt with every plaintext level, domain and scale, into ciphertexts of every
// level and domain, fresh or reused.
func c01Ptxt(l lab.Lit, party int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		p := c.Params
		r := p.RingQ()
		id := c.IDs[party]
		lp := x.Choose("plaintext level", p.MaxLevel()+1)
		lc := x.Choose("ciphertext level", p.MaxLevel()+1)
		ptNTT := x.Bool("plaintext NTT")
		ctNTT := x.Bool("ciphertext NTT")
		reuse := x.Choose("ctOut", 3) // fresh, holding an earlier encryption, holding other parties' components
		scale := p.Scale() / []float64{1, 8}[x.Choose("scale", 2)]
		level := minInt(lp, lc)
		v := clip(lab.Vec(w.Slots(), 5), maxMag(w, level))
		enc := ckks.NewEncoder(c.Ckks)
		pt := ckks.NewPlaintext(c.Ckks, lp, scale)
		if ptNTT {
			enc.EncodeNTT(pt, v, p.LogSlots())
		} else {
			enc.Encode(pt, v, p.LogSlots())
		}
		keep := pt.Value.CopyNew()
		ids := lab.Set(id)
		other := c.IDs[(party+1)%len(c.IDs)]
		if reuse == 2 {
			ids.Add(other)
		}
		var inner *mkrlwe.Ciphertext
		if ctNTT {
			inner = mkrlwe.NewCiphertextNTT(p.Parameters, ids, lc)
		} else {
			inner = mkrlwe.NewCiphertext(p.Parameters, ids, lc)
		}
		ct := &mkckks.Ciphertext{Ciphertext: inner, Scale: 3}
		if reuse > 0 {
			for _, q := range inner.Value {
				for i := range q.Coeffs {
					for j := range q.Coeffs[i] {
						q.Coeffs[i][j] = uint64(i*31+j*17+5) % r.Modulus[i]
					}
				}
			}
		}
		w.Enc.EncryptPtxt(pt, c.PK[id], ct)
		x.Step("EncryptPtxt(level %d->%d)", lp, lc)
		x.Assert(pt.Value.Equals(keep), "EncryptPtxt changed its plaintext")
		want := &lab.CV{CT: ct, V: v, IDs: []string{id}, Level: level, Scale: scale, Err: w.C.Params.Scale() / scale * errFresh(w), Mag: 1}
		if reuse == 2 {
			want.IDs = []string{id, other}
		}
		w.Check(want, "EncryptPtxt")
		x.Assert(ct.Value["0"].IsNTT == ctNTT && ct.Value[id].IsNTT == ctNTT, "EncryptPtxt changed the domain of the ciphertext")
		if reuse == 2 {
			// the other party's component must be trivial: only the recipient's key is needed
			s := ct.CopyNew()
			delete(s.Value, other)
			want2 := *want
			want2.CT, want2.IDs = s, []string{id}
			w.CheckMsg(w.Dec.Decrypt(s, c.SKSet(id)), &want2, "EncryptPtxt into a reused ciphertext")
		}
	}
}

func errFresh(w *lab.World) float64 {
	n := float64(w.C.Params.N())
	return 512 * n * math.Sqrt(n) * 8 / w.C.Params.Scale()
}

// c01Noise: the phase of a fresh encryption is the encoded plaintext up to the noise bound of
// public key encryption: |u e_pk + e_0 + e_1 s| <= 2 N B + B with B = 6 sigma.
func c01Noise(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		p := c.Params
		id := c.IDs[x.Choose("party", len(c.IDs))]
		level := x.Choose("level", p.MaxLevel()+1)
		ntt := x.Bool("ciphertext NTT")
		n := 8
		for k := 0; k < n; k++ {
			pt := ckks.NewPlaintext(c.Ckks, level, p.Scale())
			var inner *mkrlwe.Ciphertext
			if ntt {
				inner = mkrlwe.NewCiphertextNTT(p.Parameters, lab.Set(id), level)
			} else {
				inner = mkrlwe.NewCiphertext(p.Parameters, lab.Set(id), level)
			}
			ct := &mkckks.Ciphertext{Ciphertext: inner}
			w.Enc.EncryptPtxt(pt, c.PK[id], ct)
			x.Step("encrypt zero")
			ph := lab.MaxAbs(lab.Phase(p.Parameters, ct.Ciphertext, c.SK))
			bound := int64(2*p.N()+1) * int64(6*p.Sigma())
			x.Assert(ph.IsInt64() && ph.Int64() <= bound, "the noise of a fresh encryption of zero is %v, above the bound %d", ph, bound)
			x.State(l.Name, id, level, k, ph)
		}
	}
}

var _ = ring.NewPoly

func init() {
	mc.Register(&mc.Property{
		ID: "C01",
		Bounds: map[string]string{
			"quick":    "every unit message (one slot 1, i, -1, extreme values), constants and mixed vectors, at every level, for every party of 15 parameter sets (alpha 1-3, 1-20 primes of 25-60 bits, degrees 16-256 and one of 8192, sparse slots), through every encryption entry point (message, plaintext of every level and scale, either domain, fresh, reused and NTT receivers), followed by a second encryption/decryption on the same instances; messages of every magnitude 2^10, 2^20, ... up to the modulus of the level; every coefficient of the noise; every history of 5 events (the message object changing in place, 4 ways to encrypt it, encoding, 2 decryptions, overwriting a decrypted message) of one encryptor and decryptor on 3 sets, with every decrypted message kept and checked again at the end",
			"thorough": "as quick for 20 parameter sets (degrees up to 1024), plaintext forms for every party, histories of 6 events",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			lits := []lab.Lit{kA1, kA2, kA2o, kA3, kSkew, kSparse2, kSparse1, kSparse0, kN32, kBig, kSmall, kOne, kDouble, kWide, kN256}
			if tier == "thorough" {
				lits = append(lits, kA4, kSkew2, kN64, kFive, kN1024)
			}
			for _, l := range lits {
				for p := 0; p < l.Parties; p++ {
					if p > 0 && tier != "thorough" && (l.LogN > 6 || len(l.Q) > 10) {
						continue
					}
					us = append(us, mc.Unit{Name: fmt.Sprintf("roundtrip/%s/%d", l.Name, p), Body: c01Roundtrip(l, p)})
					if p == 0 || tier == "thorough" {
						us = append(us, mc.Unit{Name: fmt.Sprintf("ptxt/%s/%d", l.Name, p), Body: c01Ptxt(l, p)})
					}
				}
				us = append(us, mc.Unit{Name: "noise/" + l.Name, Body: c01Noise(l)}, mc.Unit{Name: "large/" + l.Name, Body: c01Large(l)})
			}
			depth := 5
			if tier == "thorough" {
				depth = 6
			}
			for _, l := range []lab.Lit{kA1, kA2, kSparse1} {
				us = append(us, mc.Unit{Name: "history/" + l.Name, Body: c01History(l, depth)})
			}
			us = largeUnits(us, "c", "add", "copy")
			return us
		},
	})
}
