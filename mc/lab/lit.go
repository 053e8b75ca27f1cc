package lab

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"sync"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
	"verifmc/drbg"
	"verifmc/mc"
)

// Lit is a parameter configuration; primes are given by their base-2 logarithm.
type Lit struct {
	Name     string
	LogN     int
	Q        []float64
	QMul     []float64 // BFV only
	P        []float64
	T        uint64 // BFV only
	LogSlots int
	LogScale float64
	Sigma    float64
	Gamma    int      // mkrlwe only
	Parties  int      // parties with keys
	Cnn      bool     // with the operands and keys of the CNN layers
	Rots     []int    // extra rotation indices with their own CRS
	NoRot    bool     // no rotation and conjugation keys
	OnlyRots []int    // if set, the only rotation indices with keys
	Names    []string // identities of the parties, instead of IDs

	// explicit primes, used instead of the logarithms
	Qx, QMulx, Px []uint64
}

// IDs of the parties of every context.
var IDs = []string{"alice", "1", "00", "bob", "10", "carol"}

// Primes returns one distinct NTT-friendly prime near 2^l for each l.
func Primes(logN int, used map[uint64]bool, logs []float64) []uint64 {
	m := uint64(2) << uint(logN)
	out := make([]uint64, len(logs))
	for i, l := range logs {
		c := uint64(math.Exp2(l))
		c = c/m*m + 1
		for {
			if c > 2 && !used[c] && new(big.Int).SetUint64(c).ProbablyPrime(10) {
				break
			}
			if c <= m {
				panic("lab: no prime")
			}
			c -= m
		}
		used[c] = true
		out[i] = c
	}
	return out
}

func (l Lit) moduli() (q, qm, p []uint64) {
	if l.Qx != nil {
		return l.Qx, l.QMulx, l.Px
	}
	used := map[uint64]bool{l.T: true}
	// the larger primes first would change nothing: every log has its own neighbourhood
	q = Primes(l.LogN, used, l.Q)
	qm = Primes(l.LogN, used, l.QMul)
	p = Primes(l.LogN, used, l.P)
	return
}

func (l Lit) sigma() float64 {
	switch {
	case l.Sigma == 0:
		return rlwe.DefaultSigma
	case l.Sigma < 0:
		return 0
	}
	return l.Sigma
}

// isolated builds a value without disturbing the random stream of the caller.
func isolated(label string, f func()) {
	s := drbg.Save()
	drbg.Seed("lab/" + mc.Seed + "/" + label)
	defer drbg.Load(s)
	f()
}

var (
	cacheMu sync.Mutex
	cache   = map[string]interface{}{}
)

func cached(key string, f func() interface{}) interface{} {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if v, ok := cache[key]; ok {
		return v
	}
	var v interface{}
	isolated(key, func() { v = f() })
	cache[key] = v
	return v
}

// RlweParams builds the mkrlwe parameters of a configuration.
func (l Lit) RlweParams() mkrlwe.Parameters {
	q, _, p := l.moduli()
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: l.LogN, Q: q, P: p, Sigma: l.sigma()})
	if err != nil {
		panic(err)
	}
	g := l.Gamma
	if g == 0 {
		g = 2
	}
	return mkrlwe.NewParameters(rp, g)
}

// CkksParams builds the mkckks parameters of a configuration.
func (l Lit) CkksParams() mkckks.Parameters {
	q, _, p := l.moduli()
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: l.LogN, Q: q, P: p, Sigma: l.sigma(), LogSlots: l.LogSlots, Scale: math.Exp2(l.LogScale)})
	if err != nil {
		panic(fmt.Sprint(l.Name, ": ", err))
	}
	return mkckks.NewParameters(cp)
}

// BfvParams builds the mkbfv parameters of a configuration.
func (l Lit) BfvParams() mkbfv.Parameters {
	q, qm, p := l.moduli()
	return mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: l.LogN, Q: q, QMul: qm, P: p, Sigma: l.sigma(), T: l.T})
}

// Keys holds what the parties of a context generated.
type Keys struct {
	IDs []string
	SK  map[string]*mkrlwe.SecretKey
	R   map[string]*mkrlwe.SecretKey
	PK  map[string]*mkrlwe.PublicKey
	Rtk map[string]map[int]*mkrlwe.RotationKey
	Cjk map[string]*mkrlwe.ConjugationKey
}

func newKeys() Keys {
	return Keys{
		SK:  map[string]*mkrlwe.SecretKey{},
		R:   map[string]*mkrlwe.SecretKey{},
		PK:  map[string]*mkrlwe.PublicKey{},
		Rtk: map[string]map[int]*mkrlwe.RotationKey{},
		Cjk: map[string]*mkrlwe.ConjugationKey{},
	}
}

func (k *Keys) gen(kg *mkrlwe.KeyGenerator, params mkrlwe.Parameters, l Lit) {
	n := l.Parties
	if n == 0 {
		n = 3
	}
	k.IDs = append([]string{}, IDs...)
	for len(k.IDs) < n {
		k.IDs = append(k.IDs, fmt.Sprint("party ", len(k.IDs)*7%100))
	}
	k.IDs = k.IDs[:n]
	if l.Names != nil {
		k.IDs = l.Names[:n]
	}
	for _, id := range k.IDs {
		mc.Segment(func() {
			k.SK[id], k.PK[id] = kg.GenKeyPair(id)
			k.R[id] = kg.GenSecretKey(id)
		})
		k.Rtk[id] = map[int]*mkrlwe.RotationKey{}
		if l.NoRot {
			continue
		}
		rots := append([]int{}, l.OnlyRots...)
		for r := 1; r < params.N()/2 && l.OnlyRots == nil; r *= 2 {
			rots = append(rots, r)
		}
		for _, r := range append(rots, l.Rots...) {
			if k.Rtk[id][r] == nil {
				mc.Segment(func() { k.Rtk[id][r] = kg.GenRotationKey(r, k.SK[id]) })
			}
		}
		mc.Segment(func() { k.Cjk[id] = kg.GenConjugationKey(k.SK[id]) })
	}
}

// RotsOf lists the rotation indices of a party in order.
func RotsOf(k *Keys, id string) []int {
	var out []int
	for r := range k.Rtk[id] {
		out = append(out, r)
	}
	sort.Ints(out)
	return out
}

// SKSet builds a fresh secret key set for the given parties (all if none given).
func (k *Keys) SKSet(ids ...string) *mkrlwe.SecretKeySet {
	if len(ids) == 0 {
		ids = k.IDs
	}
	return seg(func() *mkrlwe.SecretKeySet {
		s := mkrlwe.NewSecretKeySet()
		for _, id := range ids {
			s.AddSecretKey(k.SK[id])
		}
		return s
	})
}

// RtkSet builds a fresh rotation key set.
func (k *Keys) RtkSet(ids ...string) *mkrlwe.RotationKeySet {
	if len(ids) == 0 {
		ids = k.IDs
	}
	return seg(func() *mkrlwe.RotationKeySet {
		s := mkrlwe.NewRotationKeySet()
		for _, id := range ids {
			for _, r := range k.Rtk[id] {
				s.AddRotationKey(r)
			}
		}
		return s
	})
}

// CjkSet builds a fresh conjugation key set.
func (k *Keys) CjkSet(ids ...string) *mkrlwe.ConjugationKeySet {
	if len(ids) == 0 {
		ids = k.IDs
	}
	return seg(func() *mkrlwe.ConjugationKeySet {
		s := mkrlwe.NewConjugationKeySet()
		for _, id := range ids {
			s.AddConjugationKey(k.Cjk[id])
		}
		return s
	})
}

// Hash identifies the keys, for integrity checks.
func (k *Keys) Hash(h H) H {
	for _, id := range k.IDs {
		h = h.SK(k.SK[id]).SK(k.R[id]).PK(k.PK[id])
		for r := 0; r < 1<<16; r++ {
			if len(k.Rtk[id]) == 0 {
				break
			}
			if rk, ok := k.Rtk[id][r]; ok {
				h = h.U(uint64(r)).S(rk.ID).U(uint64(rk.RotIdx)).Swk(rk.Value)
			}
			if r > 4096 {
				break
			}
		}
		if c := k.Cjk[id]; c != nil {
			h = h.S(c.ID).Swk(c.Value)
		}
	}
	return h
}

// CK is a CKKS context.
type CK struct {
	Lit Lit
	Keys
	Params mkckks.Parameters
	Ckks   ckks.Parameters
	KG     *mkrlwe.KeyGenerator
	Rlk    map[string]*mkrlwe.RelinearizationKey
	hash   H
}

// GetCK returns the cached context of a configuration.
func GetCK(l Lit) *CK {
	return cached("ck/"+l.Name, func() interface{} { return NewCK(l) }).(*CK)
}

// NewCK builds a context from the current random stream.
func NewCK(l Lit) *CK { return NewCKOn(l, l.CkksSetup()) }

// CkksSetup builds the parameters with the reference strings of l.
func (l Lit) CkksSetup() mkckks.Parameters {
	p := l.CkksParams()
	for _, r := range l.Rots {
		p.AddCRS(r)
	}
	return p
}

// NewCKOn generates the keys of a context over existing parameters.
func NewCKOn(l Lit, p mkckks.Parameters) *CK {
	c := &CK{Lit: l, Keys: newKeys(), Rlk: map[string]*mkrlwe.RelinearizationKey{}}
	c.Params = p
	var err error
	c.Ckks, err = ckks.NewParameters(c.Params.Parameters.Parameters, c.Params.LogSlots(), c.Params.Scale())
	if err != nil {
		panic(err)
	}
	mc.Segment(func() { c.KG = mkckks.NewKeyGenerator(c.Params) })
	c.gen(c.KG, c.Params.Parameters, l)
	for _, id := range c.IDs {
		mc.Segment(func() { c.Rlk[id] = c.KG.GenRelinearizationKey(c.SK[id], c.R[id]) })
	}
	c.hash = c.Sum()
	return c
}

// Sum hashes everything shared by the executions of a context.
func (c *CK) Sum() H {
	h := c.Keys.Hash(NewH()).CRS(c.Params.CRS)
	for _, id := range c.IDs {
		h = h.Rlk(c.Rlk[id])
	}
	return h
}

// Intact reports whether the shared keys and parameters still have their initial value.
func (c *CK) Intact() bool { return c.Sum() == c.hash }

// RlkSet builds a fresh relinearization key set.
func (c *CK) RlkSet(ids ...string) *mkrlwe.RelinearizationKeySet {
	if len(ids) == 0 {
		ids = c.IDs
	}
	return seg(func() *mkrlwe.RelinearizationKeySet {
		s := mkrlwe.NewRelinearizationKeyKeySet(c.Params.Parameters)
		for _, id := range ids {
			s.AddRelinearizationKey(c.Rlk[id])
		}
		return s
	})
}

// BF is a BFV context.
type BF struct {
	Lit Lit
	Keys
	Params mkbfv.Parameters
	KG     *mkbfv.KeyGenerator
	Rlk    map[string]*mkbfv.RelinearizationKey
	hash   H
}

func GetBF(l Lit) *BF {
	return cached("bf/"+l.Name, func() interface{} { return NewBF(l) }).(*BF)
}

func NewBF(l Lit) *BF { return NewBFOn(l, l.BfvSetup()) }

// BfvSetup builds the parameters with the reference strings of l.
func (l Lit) BfvSetup() mkbfv.Parameters {
	p := l.BfvParams()
	for _, r := range l.Rots {
		p.AddCRS(r)
	}
	return p
}

// NewBFOn generates the keys of a context over existing parameters.
func NewBFOn(l Lit, p mkbfv.Parameters) *BF {
	c := &BF{Lit: l, Keys: newKeys(), Rlk: map[string]*mkbfv.RelinearizationKey{}}
	c.Params = p
	mc.Segment(func() { c.KG = mkbfv.NewKeyGenerator(c.Params) })
	c.gen(c.KG.KeyGenerator, c.Params.Parameters, l)
	for _, id := range c.IDs {
		mc.Segment(func() { c.Rlk[id] = c.KG.GenRelinearizationKey(c.SK[id], c.R[id]) })
	}
	c.hash = c.Sum()
	return c
}

func (c *BF) Sum() H {
	h := c.Keys.Hash(NewH()).CRS(c.Params.CRS)
	for _, id := range c.IDs {
		h = h.Rlk(c.Rlk[id].Value[0]).Rlk(c.Rlk[id].Value[1])
	}
	return h
}

func (c *BF) Intact() bool { return c.Sum() == c.hash }

func (c *BF) RlkSet(ids ...string) *mkbfv.RelinearizationKeySet {
	if len(ids) == 0 {
		ids = c.IDs
	}
	return seg(func() *mkbfv.RelinearizationKeySet {
		s := mkbfv.NewRelinearizationKeyKeySet(c.Params)
		for _, id := range ids {
			s.AddRelinearizationKey(c.Rlk[id])
		}
		return s
	})
}

// RL is an mkrlwe context.
type RL struct {
	Lit Lit
	Keys
	Params mkrlwe.Parameters
	KG     *mkrlwe.KeyGenerator
	Rlk    map[string]*mkrlwe.RelinearizationKey
}

func GetRL(l Lit) *RL {
	return cached("rl/"+l.Name, func() interface{} { return NewRL(l) }).(*RL)
}

func NewRL(l Lit) *RL { return NewRLOn(l, l.RlweSetup()) }

// RlweSetup builds the parameters with the reference strings of l.
func (l Lit) RlweSetup() mkrlwe.Parameters {
	p := l.RlweParams()
	for _, r := range l.Rots {
		p.AddCRS(r)
	}
	return p
}

// NewRLOn generates the keys of a context over existing parameters.
func NewRLOn(l Lit, p mkrlwe.Parameters) *RL {
	c := &RL{Lit: l, Keys: newKeys(), Rlk: map[string]*mkrlwe.RelinearizationKey{}}
	c.Params = p
	mc.Segment(func() { c.KG = mkrlwe.NewKeyGenerator(c.Params) })
	c.gen(c.KG, c.Params, l)
	for _, id := range c.IDs {
		mc.Segment(func() { c.Rlk[id] = c.KG.GenRelinearizationKey(c.SK[id], c.R[id]) })
	}
	return c
}

func (c *RL) RlkSet(ids ...string) *mkrlwe.RelinearizationKeySet {
	if len(ids) == 0 {
		ids = c.IDs
	}
	return seg(func() *mkrlwe.RelinearizationKeySet {
		s := mkrlwe.NewRelinearizationKeyKeySet(c.Params)
		for _, id := range ids {
			s.AddRelinearizationKey(c.Rlk[id])
		}
		return s
	})
}

// seg runs a piece of a thread (mc.Segment).
func seg[T any](f func() T) (r T) {
	mc.Segment(func() { r = f() })
	return
}

// Set builds an id set.
func Set(ids ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}
