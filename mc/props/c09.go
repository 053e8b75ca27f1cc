package props

import (
	"fmt"
	"strings"

	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// C09: partial decryptions in any order give the joint decryption.

// order chooses a sequence of distinct parties, of any length.
func order(x *mc.X, ids []string) []string {
	rest := append([]string(nil), ids...)
	var out []string
	for len(rest) > 0 {
		k := x.Choose("next party", len(rest)+1)
		if k == len(rest) {
			break // the others decrypt jointly
		}
		out = append(out, rest[k])
		rest = append(append([]string(nil), rest[:k]...), rest[k+1:]...)
	}
	return out
}

func without(ids []string, rm ...string) []string {
	var out []string
	for _, id := range ids {
		if !has(rm, id) {
			out = append(out, id)
		}
	}
	return out
}

var ckSources = []string{"sum", "product", "rotated", "conjugated", "hoisted product", "constant", "difference", "rescaled"}

func ckSource(w *lab.World, ids []string, level, kind int) *lab.CV {
	a := ckSum(w, ids, level, 1)
	switch ckSources[kind] {
	case "product":
		return w.Mul(a, a)
	case "rotated":
		return w.Rot(a, 3)
	case "conjugated":
		return w.Conj(a)
	case "hoisted product":
		return w.MulHoisted(a, ckSum(w, ids[:1], level, 4))
	case "constant":
		return w.MulConst(a, -1.5)
	case "difference":
		return w.Sub(ckSum(w, ids[:1], level, 5), a)
	case "rescaled":
		b := w.MulConst(a, 0.5)
		if level > 0 {
			return w.Rescale(b, w.C.Params.Scale())
		}
		return b
	}
	return a
}

func c09Ckks(l lab.Lit, n int, levels bool) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		max := c.Params.MaxLevel()
		level := max
		if levels {
			level = x.Choose("level", max+1)
		}
		a := ckSource(w, subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1)), level, x.Choose("history", len(ckSources)))
		if !w.Fits(a.Mag, a.Err, a.Scale, a.Level) {
			x.Skip()
		}
		ntt := x.Bool("NTT domain")
		a.CT = a.CT.CopyNew()
		if ntt {
			for _, p := range a.CT.Value {
				c.Params.RingQ().NTTLvl(a.Level, p, p)
				p.IsNTT = true
			}
		}
		h := lab.ObjCK("", a.CT).Hash()
		joint := w.Dec.Decrypt(a.CT, w.SKs)
		w.CheckMsg(joint, a, "joint decryption")
		x.Assert(lab.ObjCK("", a.CT).Hash() == h, "the joint decryption changes the ciphertext")
		work := a.CT.CopyNew()
		left := *a
		left.CT = work
		for _, id := range order(x, a.IDs) {
			rest := map[string]lab.H{}
			for o, p := range work.Value {
				if o != "0" && o != id {
					rest[o] = lab.NewH().Poly(p)
				}
			}
			w.Dec.PartialDecrypt(work, c.SK[id])
			x.Step("PartialDecrypt(%s)", id)
			left.IDs = without(left.IDs, id)
			w.CheckBook(&left, "partial decryption by "+id)
			for o, hh := range rest {
				if lab.NewH().Poly(work.Value[o]) != hh {
					x.Fail("the partial decryption by %s changes the component of %s", id, o)
				}
			}
		}
		m := w.Dec.Decrypt(work, c.SKSet(append(append([]string{}, left.IDs...), c.IDs[0])...))
		w.CheckMsg(m, a, fmt.Sprintf("decryption by %v of what the others decrypted partially", left.IDs))
		for i := range m.Value {
			d := m.Value[i] - joint.Value[i]
			if real(d)*real(d)+imag(d)*imag(d) > 1e-16 {
				x.Fail("slot %d: the partial decryptions give %v, the joint one %v", i, m.Value[i], joint.Value[i])
			}
		}
		x.Assert(lab.ObjCK("", a.CT).Hash() == h, "partial decryptions of a copy change the original")
		w.CheckMsg(w.Dec.Decrypt(a.CT, w.SKs), a, "joint decryption afterwards")
	}
}

func c09Bfv(l lab.Lit, n int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		ids := subset(c.IDs[:n], x.Choose("parties", 1<<uint(n)-1))
		a := bfSum(w, ids, 1)
		switch x.Choose("history", 4) {
		case 1:
			a = w.Mul(a, bfSum(w, ids[:1], 3))
			if !w.Fits(a) {
				x.Skip()
			}
		case 2:
			a = w.Rot(a, 3)
		case 3:
			a = w.Sub(bfSum(w, ids[:1], 3), w.Conj(a))
		}
		ntt := x.Bool("NTT domain")
		a.CT = a.CT.CopyNew()
		if ntt {
			for _, p := range a.CT.Value {
				c.Params.RingQ().NTT(p, p)
				p.IsNTT = true
			}
		}
		h := lab.ObjBF("", a.CT).Hash()
		w.CheckMsg(w.Dec.Decrypt(a.CT, w.SKs), a, "joint decryption")
		x.Assert(lab.ObjBF("", a.CT).Hash() == h, "the joint decryption changes the ciphertext")
		work := a.CT.CopyNew()
		left := *a
		left.CT = work
		for _, id := range order(x, a.IDs) {
			w.Dec.PartialDecrypt(work, c.SK[id])
			x.Step("PartialDecrypt(%s)", id)
			left.IDs = without(left.IDs, id)
			w.CheckBook(&left, "partial decryption by "+id)
		}
		w.CheckMsg(w.Dec.Decrypt(work, c.SKSet(append(append([]string{}, left.IDs...), c.IDs[0])...)), a, "decryption after partial decryptions")
		x.Assert(lab.ObjBF("", a.CT).Hash() == h, "partial decryptions of a copy change the original")
	}
}

// c09Rl: the generic layer, plaintexts in both domains and at every level.
func c09Rl(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetRL(l)
		p := c.Params
		r := p.RingQ()
		level := x.Choose("level", p.MaxLevel()+1)
		n := len(c.IDs)
		ids := subset(c.IDs, x.Choose("parties", 1<<uint(n)-1))
		ntt := x.Bool("NTT ciphertext")
		pntt := x.Bool("NTT plaintext")
		enc, dec := mkrlwe.NewEncryptor(p), mkrlwe.NewDecryptor(p)
		acc := mkrlwe.NewCiphertext(p, lab.Set(ids...), level)
		if ntt {
			acc = mkrlwe.NewCiphertextNTT(p, lab.Set(ids...), level)
		}
		for _, id := range ids {
			t := mkrlwe.NewCiphertext(p, lab.Set(id), level)
			if ntt {
				t = mkrlwe.NewCiphertextNTT(p, lab.Set(id), level)
			}
			pt := rlwe.NewPlaintext(p.Parameters, level)
			for i := range pt.Value.Coeffs {
				for j := range pt.Value.Coeffs[i] {
					pt.Value.Coeffs[i][j] = uint64(j*j+3) << 20 // the plaintext: a small polynomial
				}
			}
			enc.Encrypt(pt, c.PK[id], t)
			for k, v := range t.Value {
				r.AddLvl(level, acc.Value[k], v, acc.Value[k])
			}
		}
		phase := lab.Phase(p, acc, c.SK)
		for j, v := range phase {
			want := int64(len(ids)) * (int64(j*j+3) << 20)
			d := v.Int64() - want
			if !v.IsInt64() || d > 1<<16 || d < -(1<<16) {
				x.Fail("coefficient %d of the sum of encryptions is %v, want %v", j, v, want)
			}
		}
		work := acc.CopyNew()
		seq := order(x, ids)
		for _, id := range seq {
			dec.PartialDecrypt(work, c.SK[id])
			x.Step("PartialDecrypt(%s)", id)
			if _, in := work.Value[id]; in {
				x.Fail("the partial decryption of %s leaves its component", id)
			}
		}
		x.Assert(len(work.Value) == len(ids)-len(seq)+1, "the partial decryptions by %v leave the components %s", seq, strings.Join(lab.SortedKeys(work.Value), " "))
		pl := p.MaxLevel() - x.Choose("plaintext level", p.MaxLevel()+1)
		out := rlwe.NewPlaintext(p.Parameters, pl)
		out.Value.IsNTT = pntt
		h := lab.ObjRL("", work).Hash()
		dec.Decrypt(work, c.SKSet(), out)
		x.Assert(lab.ObjRL("", work).Hash() == h, "the joint decryption changes the ciphertext")
		again := rlwe.NewPlaintext(p.Parameters, out.Level())
		again.Value.IsNTT = pntt
		mkrlwe.NewDecryptor(p).Decrypt(work, c.SKSet(without(ids, seq...)...), again)
		x.Assert(lab.NewH().Poly(lab.Reduced(r, out.Level(), out.Value)) == lab.NewH().Poly(lab.Reduced(r, out.Level(), again.Value)), "a second decryption, without the keys of the parties that decrypted partially, differs")
		if pl > level {
			pl = level
		}
		x.Assert(out.Level() == pl, "the plaintext has level %d, want %d", out.Level(), pl)
		x.Assert(out.Value.IsNTT == pntt, "the decryption changes the domain of the plaintext")
		q := lab.Reduced(r, pl, out.Value)
		if pntt {
			r.InvNTTLvl(pl, q, q)
		}
		got := lab.Centered(r, pl, q.Coeffs)
		phase = lab.CenterMod(phase, lab.Modulus(r, pl))
		for j := range got {
			if got[j].Cmp(phase[j]) != 0 {
				x.Fail("coefficient %d decrypts to %v, the phase is %v", j, got[j], phase[j])
			}
		}
		x.State(l.Name, level, pl, ids, ntt, pntt, seq)
	}
}

var _ = mkckks.NewMessage

func init() {
	mc.Register(&mc.Property{
		ID: "C09",
		Bounds: map[string]string{
			"quick":    "every set of at most 3 parties (4 for one set), every order of every subset of partial decryptions followed by the joint decryption of the rest, 8 histories, every level, both domains; BFV likewise, sets with 16 and 20 primes and of degree 1024 and 8192 included; generic layer with gamma 1, 2 and 3; sums and products of 12 parties; shares of 7 to 33 parties with extreme residues, primes up to 2^61",
			"thorough": "as quick with 5 parties, 65 parties with extreme shares, and more parameter sets",
		},
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			add := func(n string, f func(x *mc.X)) { us = append(us, mc.Unit{Name: n, Body: f}) }
			th := tier == "thorough"
			add("ckks/a1", c09Ckks(kA1, 3, true))
			add("ckks/a2", c09Ckks(kA2, 3, true))
			add("ckks/sparse1", c09Ckks(kSparse1, 2, true))
			add("ckks/five", c09Ckks(kFive, 4, false))
			add("crowd/ckks", c09CrowdCkks(kMany))
			add("crowd/bfv", c09CrowdBfv(bMany))
			add("ckks/wide", c09Ckks(kWide, 2, true))
			add("ckks/n1024", c09Ckks(kN1024, 2, true))
			add("bfv/wide", c09Bfv(bWide, 2))
			add("bfv/n1024", c09Bfv(bN1024, 2))
			add("ckks/one", c09Ckks(kOne, 2, true))
			for _, l := range []lab.Lit{bA1, bA2, bT} {
				add("bfv/"+l.Name, c09Bfv(l, minInt(l.Parties, 3)))
			}
			add("bfv/five", c09Bfv(bFive, 4))
			for _, l := range []lab.Lit{rA1, rA2, rG1, rG3, rOdd, rOne, rBigQ} {
				add("rlwe/"+l.Name, c09Rl(l))
			}
			{
				add("ckks/a3", c09Ckks(kA3, 3, true))
				add("ckks/skew", c09Ckks(kSkew, 3, true))
				add("ckks/big", c09Ckks(kBig, 2, true))
				add("bfv/b3", c09Bfv(bA3, 2))
				add("bfv/odd", c09Bfv(bOdd, 2))
			}
			crowds := []int{2, 7, 8, 9, 16, 17, 33}
			if th {
				crowds = append(crowds, 3, 4, 15, 31, 32, 64, 65)
			}
			for _, n := range crowds {
				for _, lg := range []float64{60.999999, 60.5, 59.9, 45} {
					l := wideLit(n, 3, lg)
					add("crowd/"+l.Name, c09Crowd(l))
				}
			}
			if th {
				add("ckks/five5", c09Ckks(kFive, 5, true))
				add("bfv/five5", c09Bfv(bFive, 5))
				add("ckks/a4", c09Ckks(kA4, 2, true))
				add("ckks/n64", c09Ckks(kN64, 2, true))
			}
			us = largeUnits(us, "cb", "add", "rot")
			return us
		},
	})
}
