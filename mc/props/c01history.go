package props

import (
	"fmt"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"verifmc/lab"
	"verifmc/mc"
)

// Histories of one user who keeps one encryptor, one decryptor and one message
// object: the message changes in place, ciphertexts and plaintexts are made from
// it, receivers are reused, decrypted messages are kept.

// c01History: every sequence of a given length.
func c01History(l lab.Lit, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetCK(l)
		w := lab.NewWorld(x, c)
		p := c.Params
		max := p.MaxLevel()
		msg := mkckks.NewMessage(p)
		value := 0
		val := func(k int) []complex128 { return clip(lab.Vec(w.Slots(), k+1), maxMag(w, 0)) }
		copy(msg.Value, val(value))
		var cts []*lab.CV
		type opened struct {
			m *mkckks.Message
			c lab.CV
		}
		var out []opened
		type encoded struct {
			pt *ckks.Plaintext
			v  []complex128
		}
		var pts []encoded
		sealed := func(ct *mkckks.Ciphertext, v []complex128, id string, level int) *lab.CV {
			return &lab.CV{CT: ct, V: v, IDs: []string{id}, Level: level, Scale: p.Scale(), Err: errFresh(w), Mag: 1}
		}
		name := ""
		for d := 0; d < depth; d++ {
			id := c.IDs[d%2]
			e := x.Choose("event", 9)
			switch e {
			case 0:
				value++
				copy(msg.Value, val(value))
				x.Step("the message object takes another value")
			case 1:
				cts = append(cts, sealed(w.Enc.EncryptMsgNew(msg, c.PK[id]), val(value), id, max))
				x.Step("EncryptMsgNew(%s)", id)
			case 2:
				ct := mkckks.NewCiphertext(p, lab.Set(id), max/2, 3)
				w.Enc.EncryptMsg(msg, c.PK[id], ct)
				cts = append(cts, sealed(ct, val(value), id, max/2))
				x.Step("EncryptMsg(%s, level %d)", id, max/2)
			case 3:
				if len(cts) == 0 {
					x.Skip()
				}
				o := cts[len(cts)-1]
				w.Enc.EncryptMsg(msg, c.PK[o.IDs[0]], o.CT)
				*o = *sealed(o.CT, val(value), o.IDs[0], o.Level)
				x.Step("EncryptMsg into the last ciphertext")
			case 4, 5:
				if len(cts) == 0 || e == 5 && len(cts) == 1 {
					x.Skip()
				}
				o := cts[len(cts)-1]
				if e == 5 {
					o = cts[0]
				}
				m := w.Dec.Decrypt(o.CT, w.SKs)
				x.Step("Decrypt")
				w.CheckMsg(m, o, "decryption")
				out = append(out, opened{m, *o})
			case 6:
				pts = append(pts, encoded{w.Enc.EncodeMsgNew(msg), val(value)})
				x.Step("EncodeMsgNew")
			case 7:
				if len(pts) == 0 {
					x.Skip()
				}
				q := pts[len(pts)-1]
				ct := mkckks.NewCiphertext(p, lab.Set(id), max, 3)
				w.Enc.EncryptPtxt(q.pt, c.PK[id], ct)
				cts = append(cts, sealed(ct, q.v, id, max))
				x.Step("EncryptPtxt(%s)", id)
			case 8:
				if len(out) == 0 {
					x.Skip()
				}
				for i := range out[len(out)-1].m.Value {
					out[len(out)-1].m.Value[i] = complex(3, float64(i))
				}
				out = out[:len(out)-1]
				x.Step("the caller overwrites the last decrypted message")
			}
			name += fmt.Sprint(e)
		}
		for _, o := range out {
			w.CheckMsg(o.m, &o.c, "a message decrypted earlier")
		}
		for i, o := range cts {
			w.Check(o, fmt.Sprintf("ciphertext %d at the end", i))
		}
		for i, q := range pts {
			x.Assert(q.pt.Scale == p.Scale() && q.pt.Level() == max, "plaintext %d changed its level or scale", i)
			ct := mkckks.NewCiphertext(p, lab.Set(c.IDs[0]), max, 1)
			w.Enc.EncryptPtxt(q.pt, c.PK[c.IDs[0]], ct)
			w.Check(sealed(ct, q.v, c.IDs[0], max), fmt.Sprintf("plaintext %d, encrypted at the end", i))
		}
		for i, z := range val(value) {
			x.Assert(msg.Value[i] == z, "an operation changed the message")
		}
		x.State(l.Name, name)
	}
}

// c02History: the same for BFV.
func c02History(l lab.Lit, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetBF(l)
		w := lab.NewBWorld(x, c)
		p := c.Params
		msg := mkbfv.NewMessage(p)
		value := 0
		val := func(k int) []int64 { return w.BVec(k + 1) }
		copy(msg.Value, val(value))
		var cts []*lab.BV
		type opened struct {
			m *mkbfv.Message
			c lab.BV
		}
		var out []opened
		name := ""
		for d := 0; d < depth; d++ {
			id := c.IDs[d%2]
			e := x.Choose("event", 8)
			switch e {
			case 0:
				value++
				copy(msg.Value, val(value))
				x.Step("the message object takes another value")
			case 1:
				cts = append(cts, w.Fresh(val(value), id, w.Enc.EncryptMsgNew(msg, c.PK[id])))
				x.Step("EncryptMsgNew(%s)", id)
			case 2:
				ct := mkbfv.NewCiphertextNTT(p, lab.Set(id))
				w.Enc.EncryptMsg(msg, c.PK[id], ct)
				cts = append(cts, w.Fresh(val(value), id, ct))
				x.Step("EncryptMsg(%s, NTT)", id)
			case 3:
				if len(cts) == 0 {
					x.Skip()
				}
				o := cts[len(cts)-1]
				w.Enc.EncryptMsg(msg, c.PK[o.IDs[0]], o.CT)
				*o = *w.Fresh(val(value), o.IDs[0], o.CT)
				x.Step("EncryptMsg into the last ciphertext")
			case 4, 5:
				if len(cts) == 0 || e == 5 && len(cts) == 1 {
					x.Skip()
				}
				o := cts[len(cts)-1]
				if e == 5 {
					o = cts[0]
				}
				m := w.Dec.Decrypt(o.CT, w.SKs)
				x.Step("Decrypt")
				w.CheckMsg(m, o, "decryption")
				out = append(out, opened{m, *o})
			case 6:
				if len(cts) == 0 {
					x.Skip()
				}
				o := cts[len(cts)-1]
				m := w.Dec.Decrypt(o.CT, c.SKSet(o.IDs...))
				x.Step("Decrypt with the key of the party only")
				w.CheckMsg(m, o, "decryption with the key of the party only")
				out = append(out, opened{m, *o})
			case 7:
				if len(out) == 0 {
					x.Skip()
				}
				for i := range out[len(out)-1].m.Value {
					out[len(out)-1].m.Value[i] = int64(i) + 3
				}
				out = out[:len(out)-1]
				x.Step("the caller overwrites the last decrypted message")
			}
			name += fmt.Sprint(e)
		}
		for _, o := range out {
			w.CheckMsg(o.m, &o.c, "a message decrypted earlier")
		}
		for i, o := range cts {
			w.Check(o, fmt.Sprintf("ciphertext %d at the end", i))
		}
		for i, z := range val(value) {
			x.Assert(msg.Value[i] == z, "an operation changed the message")
		}
		x.State(l.Name, name)
	}
}
