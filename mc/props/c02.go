package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/bfv"
	"mk-lattigo/mkbfv"
	"verifmc/lab"
	"verifmc/mc"
)

// C02: BFV encryption followed by decryption is exact, for every message.

// c02Values: every value of (-T,T) in every slot, in dense messages that cover them all.
func c02Values(l lab.Lit, party int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		p := c.Params
		n := p.N()
		id := c.IDs[party]
		t := w.T
		span := t
		if span > 400 {
			span = 400
		}
		// value v in slot i for every v: shift the ramp over the slots
		off := int64(x.Choose("offset", int(span)))
		beyond := []int64{0, 1, -1, 5, 1 << 30, -(1 << 30)}[x.Choose("multiple of the modulus", 6)] * t
		sign := int64(1 - 2*x.Choose("sign", 2))
		v := make([]int64, n)
		for i := range v {
			a := (off + int64(i)) % span
			if span < t && i%2 == 1 {
				a = t - 1 - a
			}
			v[i] = sign*a + beyond
		}
		cv := w.Encrypt(v, id)
		w.Check(cv, "enc/dec")
		w.CheckMsg(mkbfv.NewDecryptor(p).Decrypt(cv.CT, c.SKSet(id)), cv, "decryption with the party's key only")
	}
}

// c02Forms: unit messages, reused ciphertexts, NTT ciphertexts, reused encryptors and decryptors.
func c02Forms(l lab.Lit, party int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		p := c.Params
		n := p.N()
		id := c.IDs[party]
		other := c.IDs[(party+1)%len(c.IDs)]
		slot := x.Choose("slot", minInt(n, 32)+1)
		if n > 64 && slot >= 16 {
			slot = n - 32 + slot // in a large ring: the first and the last 16 slots
		}
		vals := []int64{1, -1, w.T - 1, w.T / 2, w.T/2 + 1, -(w.T - 1), w.T, -w.T, w.T + 1, -w.T - 1, 4*w.T + 3, 1<<40 + 3, -(1 << 40), math.MaxInt64, math.MinInt64}
		val := vals[x.Choose("value", len(vals))]
		form := x.Choose("ctOut", 8)
		v := make([]int64, n)
		if slot < n {
			v[slot] = val
		} else {
			for i := range v {
				v[i] = val
			}
		}
		msg := mkbfv.NewMessage(p)
		copy(msg.Value, v)
		var ct *mkbfv.Ciphertext
		ids := []string{id}
		switch form {
		case 0:
			ct = w.Enc.EncryptMsgNew(msg, c.PK[id])
		case 1:
			ct = mkbfv.NewCiphertext(p, lab.Set(id))
			w.Enc.EncryptMsg(msg, c.PK[id], ct)
		case 2:
			ct = mkbfv.NewCiphertextNTT(p, lab.Set(id))
			w.Enc.EncryptMsg(msg, c.PK[id], ct)
			x.Assert(ct.Value["0"].IsNTT && ct.Value[id].IsNTT, "EncryptMsg into an NTT ciphertext leaves the NTT domain")
		case 3:
			// reuse of a ciphertext that holds another message
			ct = w.Encrypt(w.BVec(4), id).CT
			w.Enc.EncryptMsg(msg, c.PK[id], ct)
		case 4:
			// reuse of a ciphertext of two parties
			a, b := w.Encrypt(w.BVec(4), id), w.Encrypt(w.BVec(5), other)
			ct = w.Add(a, b).CT
			w.Enc.EncryptMsg(msg, c.PK[id], ct)
			ids = append(ids, other)
			s := ct.CopyNew()
			delete(s.Value, other)
			w.CheckMsg(w.Dec.Decrypt(s, c.SKSet(id)), w.Fresh(v, id, s), "encryption into a reused ciphertext, the recipient's components only")
		case 5:
			bp, err := bfv.NewParameters(p.Parameters.Parameters, p.T())
			if err != nil {
				panic(err)
			}
			pt := bfv.NewPlaintext(bp)
			r := make([]int64, n) // lattigo's encoder takes reduced values
			for i := range v {
				r[i] = v[i] % w.T
			}
			bfv.NewEncoder(bp).EncodeInt(r, pt)
			keep := pt.Value.CopyNew()
			ct = mkbfv.NewCiphertext(p, lab.Set(id))
			w.Enc.EncryptPtxt(pt, c.PK[id], ct)
			x.Assert(pt.Value.Equals(keep), "EncryptPtxt changed its plaintext")
		case 6:
			// encryptor reused after encryptions for other parties
			for k := 0; k < 3; k++ {
				w.Check(w.Encrypt(w.BVec(k), c.IDs[k%len(c.IDs)]), fmt.Sprintf("encryption number %d", k))
			}
			ct = w.Enc.EncryptMsgNew(msg, c.PK[id])
		case 7:
			// decryptor reused
			a := w.Encrypt(w.BVec(7), other)
			ct = w.Enc.EncryptMsgNew(msg, c.PK[id])
			w.CheckMsg(w.Dec.Decrypt(ct, w.SKs), w.Fresh(v, id, ct), "first decryption")
			w.Check(a, "second decryption")
		}
		x.Step("encrypt form %d", form)
		cv := w.Fresh(v, id, ct)
		cv.IDs = ids
		w.Check(cv, fmt.Sprintf("encryption, form %d", form))
		w.Check(cv, "repeated decryption")
		for i := range v {
			x.Assert(msg.Value[i] == v[i], "encryption changed the message")
		}
	}
}

// c02Noise bounds the noise of fresh encryptions.
func c02Noise(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		p := c.Params
		id := c.IDs[x.Choose("party", len(c.IDs))]
		ntt := x.Bool("ciphertext NTT")
		for k := 0; k < 16; k++ {
			ct := mkbfv.NewCiphertext(p, lab.Set(id))
			if ntt {
				ct = mkbfv.NewCiphertextNTT(p, lab.Set(id))
			}
			w.Enc.EncryptMsg(mkbfv.NewMessage(p), c.PK[id], ct)
			x.Step("encrypt zero")
			ph := lab.MaxAbs(lab.Phase(p.Parameters, ct.Ciphertext, c.SK))
			bound := int64(2*p.N()+1) * int64(6*p.Sigma())
			x.Assert(ph.IsInt64() && ph.Int64() <= bound, "the noise of a fresh encryption of zero is %v, above the bound %d", ph, bound)
			x.State(l.Name, id, k, ph)
		}
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C02",
		Bounds: map[string]string{
			"quick":    "every value of (-T, T), and of (kT-T, kT+T) for five k, in every slot (shifted ramps), and unit messages in 8 receiver forms, for every party of 14 parameter sets (T = 97, 193, 12289, 65537, 786433 and primes of 31 and 41 bits; alpha 1-3; 1-16 primes; degrees 16-256 and one of 8192); every coefficient of the noise; every history of 5 events (the message object changing in place, 3 ways to encrypt it, 3 decryptions, overwriting a decrypted message) of one encryptor and decryptor on 3 sets, with every decrypted message kept and checked again at the end",
			"thorough": "as quick, histories of 6 events",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			for _, l := range []lab.Lit{bA1, bA2, bSkew, bA3, bOdd, bT, bT20, bT31, bT41, bBig, bOne, bFive, bWide, bN256} {
				for p := 0; p < l.Parties; p++ {
					if p > 0 && tier != "thorough" && (l.LogN > 6 || len(l.Q) > 10) {
						continue
					}
					if l.LogN < 8 {
						us = append(us, mc.Unit{Name: fmt.Sprintf("values/%s/%d", l.Name, p), Body: c02Values(l, p)})
					}
					us = append(us, mc.Unit{Name: fmt.Sprintf("forms/%s/%d", l.Name, p), Body: c02Forms(l, p)})
				}
				us = append(us, mc.Unit{Name: "noise/" + l.Name, Body: c02Noise(l)})
			}
			depth := 5
			if tier == "thorough" {
				depth = 6
			}
			for _, l := range []lab.Lit{bA1, bA2, bSkew} {
				us = append(us, mc.Unit{Name: "history/" + l.Name, Body: c02History(l, depth)})
			}
			us = largeUnits(us, "b")
			return us
		},
	})
}
