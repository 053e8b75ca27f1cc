package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
	"verifmc/lab"
	"verifmc/mc"
)

// Many parties and primes just below 2^61: the parties' shares may be any
// elements of the ring, so their sum has to be right for all of them.

func partyNames(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("p%d", i+1)
	}
	return out
}

func wideLit(parties, primes int, l float64) lab.Lit {
	rep := func(k int, l float64) []float64 {
		v := make([]float64, k)
		for i := range v {
			v[i] = l
		}
		return v
	}
	return lab.Lit{Name: fmt.Sprintf("crowd%d-%d-%g", parties, primes, l), LogN: 4, Q: rep(primes, l), P: rep(2, 60.99), Gamma: 2, Parties: parties, Names: partyNames(parties), NoRot: true}
}

// shareComponent is the component whose product with the secret key is share.
func shareComponent(r *ring.Ring, level int, share *ring.Poly, sk *mkrlwe.SecretKey) *ring.Poly {
	out := ring.NewPoly(r.N, level+1)
	s := lab.Reduced(r, level, sk.Value.Q)
	r.InvMFormLvl(level, s, s)
	for i := 0; i <= level; i++ {
		q := new(big.Int).SetUint64(r.Modulus[i])
		for j := range out.Coeffs[i] {
			v := new(big.Int).ModInverse(new(big.Int).SetUint64(s.Coeffs[i][j]), q)
			if v == nil {
				continue
			}
			v.Mul(v, new(big.Int).SetUint64(share.Coeffs[i][j])).Mod(v, q)
			out.Coeffs[i][j] = v.Uint64()
		}
	}
	out.IsNTT = true
	return out
}

func c09Crowd(l lab.Lit) func(x *mc.X) {
	return func(x *mc.X) {
		c := lab.GetRL(l)
		p := c.Params
		r := p.RingQ()
		level := x.Choose("level", p.MaxLevel()+1)
		kind := x.Choose("shares", lab.Patterns)
		ntt := x.Bool("NTT ciphertext")
		how := x.Choose("partial decryptions", 6)
		ids := c.IDs
		ct := mkrlwe.NewCiphertextNTT(p, lab.Set(ids...), level)
		for k, id := range append([]string{"0"}, ids...) {
			share := lab.PatternPoly(r, level, kind)
			if kind == 0 {
				share = lab.UniformPoly(r, level, uint64(k)*77+5)
			}
			share.IsNTT = true
			if id != "0" {
				share = shareComponent(r, level, share, c.SK[id])
			}
			ct.Value[id].Copy(share)
			if !ntt {
				r.InvNTTLvl(level, ct.Value[id], ct.Value[id])
				ct.Value[id].IsNTT = false
			}
		}
		want := lab.Phase(p, ct, c.SK)
		h := lab.ObjRL("", ct).Hash()
		var first []string
		switch how {
		case 1:
			first = ids[:len(ids)/2]
		case 2:
			first = ids
		case 3:
			for i := len(ids) - 1; i >= 0; i-- {
				first = append(first, ids[i])
			}
		case 4:
			first = ids[len(ids)-1:]
		case 5:
			first = ids[1:]
		}
		work := ct.CopyNew()
		dec := mkrlwe.NewDecryptor(p)
		for _, id := range first {
			dec.PartialDecrypt(work, c.SK[id])
		}
		x.Step("partial decryptions by %v, level %d, shares of kind %d", first, level, kind)
		out := rlwe.NewPlaintext(p.Parameters, level)
		out.Value.IsNTT = ntt
		dec.Decrypt(work, c.SKSet(), out)
		q := lab.Reduced(r, level, out.Value)
		if ntt {
			r.InvNTTLvl(level, q, q)
		}
		got := lab.Centered(r, level, q.Coeffs)
		for j := range got {
			if got[j].Cmp(want[j]) != 0 {
				x.Fail("coefficient %d of the decryption by %d parties is %v, the phase is %v", j, len(ids), got[j], want[j])
			}
		}
		x.Assert(lab.ObjRL("", ct).Hash() == h, "the decryption of a copy changes the ciphertext")
		x.State(l.Name, level, kind, ntt, how)
	}
}
