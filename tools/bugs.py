# Definitions of the planted bugs (see seed.py). edits: (file, old text, new text).
HELPERS = {}
HELPERS['mkckks'] = r'''package mkckks_test

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

var _ = fmt.Sprint
var _ = math.Pi
var _ = cmplx.Abs
var _ = rlwe.DefaultSigma

type lab struct {
	t   *testing.T
	par mkckks.Parameters
	kg  *mkrlwe.KeyGenerator
	sk  *mkrlwe.SecretKeySet
	pk  *mkrlwe.PublicKeySet
	rlk *mkrlwe.RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
	enc *mkckks.Encryptor
	dec *mkckks.Decryptor
	ev  *mkckks.Evaluator
}

func newLab(t *testing.T, logN, nq, np int, ids ...string) *lab {
	lit := ckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, Scale: 1 << 40, Sigma: rlwe.DefaultSigma}
	lit.LogQ = []int{55}
	for i := 1; i < nq; i++ {
		lit.LogQ = append(lit.LogQ, 40)
	}
	for i := 0; i < np; i++ {
		lit.LogP = append(lit.LogP, 58)
	}
	ckp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	l := &lab{t: t, par: mkckks.NewParameters(ckp)}
	l.kg = mkckks.NewKeyGenerator(l.par)
	l.sk, l.pk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	l.rlk = mkrlwe.NewRelinearizationKeyKeySet(l.par.Parameters)
	l.rtk, l.cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		l.join(id)
	}
	l.enc, l.dec, l.ev = mkckks.NewEncryptor(l.par), mkckks.NewDecryptor(l.par), mkckks.NewEvaluator(l.par)
	return l
}

func (l *lab) join(id string) {
	sk, pk := l.kg.GenKeyPair(id)
	l.sk.AddSecretKey(sk)
	l.pk.AddPublicKey(pk)
	l.rlk.AddRelinearizationKey(l.kg.GenRelinearizationKey(sk, l.kg.GenSecretKey(id)))
	l.kg.GenDefaultRotationKeys(sk, l.rtk)
	l.cjk.AddConjugationKey(l.kg.GenConjugationKey(sk))
}

// msg returns a vector that depends on seed, with entries of absolute value at most 1.
func (l *lab) msg(seed int) *mkckks.Message {
	m := mkckks.NewMessage(l.par)
	for i := range m.Value {
		m.Value[i] = complex(math.Cos(float64(i*7+seed*3)), math.Sin(float64(i*5+seed))) / 2
	}
	return m
}

func (l *lab) encrypt(seed int, id string) (*mkckks.Message, *mkckks.Ciphertext) {
	m := l.msg(seed)
	return m, l.enc.EncryptMsgNew(m, l.pk.GetPublicKey(id))
}

func (l *lab) check(what string, ct *mkckks.Ciphertext, want func(i int) complex128) {
	l.t.Helper()
	got := mkckks.NewDecryptor(l.par).Decrypt(ct, l.sk)
	for i := range got.Value {
		if d := cmplx.Abs(got.Value[i] - want(i)); !(d < 1e-3) {
			l.t.Fatalf("%s: slot %d is %v, want %v", what, i, got.Value[i], want(i))
		}
	}
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

var _ = panics
'''
HELPERS['mkbfv'] = r'''package mkbfv_test

import (
	"fmt"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
)

var _ = fmt.Sprint

type lab struct {
	t   *testing.T
	par mkbfv.Parameters
	kg  *mkbfv.KeyGenerator
	sk  *mkrlwe.SecretKeySet
	pk  *mkrlwe.PublicKeySet
	rlk *mkbfv.RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
	enc *mkbfv.Encryptor
	dec *mkbfv.Decryptor
	ev  *mkbfv.Evaluator
}

func newLab(t *testing.T, logN, nq, np int, ids ...string) *lab {
	q := ring.GenerateNTTPrimes(50, 2<<uint(logN), 2*nq)
	lit := mkbfv.ParametersLiteral{LogN: logN, Q: q[:nq], QMul: q[nq:], P: ring.GenerateNTTPrimes(58, 2<<uint(logN), np), T: 65537, Sigma: rlwe.DefaultSigma}
	l := &lab{t: t, par: mkbfv.NewParametersFromLiteral(lit)}
	l.kg = mkbfv.NewKeyGenerator(l.par)
	l.sk, l.pk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	l.rlk = mkbfv.NewRelinearizationKeyKeySet(l.par)
	l.rtk, l.cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		sk, pk := l.kg.GenKeyPair(id)
		l.sk.AddSecretKey(sk)
		l.pk.AddPublicKey(pk)
		l.rlk.AddRelinearizationKey(l.kg.GenRelinearizationKey(sk, l.kg.GenSecretKey(id)))
		l.kg.GenDefaultRotationKeys(sk, l.rtk)
		l.cjk.AddConjugationKey(l.kg.GenConjugationKey(sk))
	}
	l.enc, l.dec, l.ev = mkbfv.NewEncryptor(l.par), mkbfv.NewDecryptor(l.par), mkbfv.NewEvaluator(l.par)
	return l
}

func (l *lab) encrypt(seed int, id string) (*mkbfv.Message, *mkbfv.Ciphertext) {
	m := mkbfv.NewMessage(l.par)
	for i := range m.Value {
		m.Value[i] = int64((i*7919+seed*104729)%65537 - 32768)
	}
	return m, l.enc.EncryptMsgNew(m, l.pk.GetPublicKey(id))
}

func (l *lab) check(what string, ct *mkbfv.Ciphertext, want func(i int) int64) {
	l.t.Helper()
	got := mkbfv.NewDecryptor(l.par).Decrypt(ct, l.sk)
	for i := range got.Value {
		if (got.Value[i]-want(i))%65537 != 0 {
			l.t.Fatalf("%s: slot %d is %v, want %v", what, i, got.Value[i], want(i)%65537)
		}
	}
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

var _ = panics
'''
HELPERS['mkrlwe'] = r'''package mkrlwe_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
)

var _ = fmt.Sprint
var _ = big.NewInt

func params(t *testing.T, logN, nq, np int) mkrlwe.Parameters {
	q := ring.GenerateNTTPrimes(50, 2<<uint(logN), nq)
	p := ring.GenerateNTTPrimes(58, 2<<uint(logN), np)
	par, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	return mkrlwe.NewParameters(par, 2)
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}

var _ = panics
'''
BUGS = []
def bug(id, property, pkg, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, pkg=pkg, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

CE, BE = 'mkckks/evaluator.go', 'mkbfv/evaluator.go'
KS, KH, KG, KY, EL, BX = ('mkrlwe/' + f for f in ['keyswitch.go', 'keyswitch_hoisted.go', 'keygen.go', 'keys.go', 'elements.go', 'basis_extension.go'])

bug('add-scale-absent-party', 'C03', 'mkckks', [(CE, 'ring.CopyValuesLvl(level, tmp1.Value[id], ctOut.Value[id])', 'ring.CopyValuesLvl(level, c1.Value[id], ctOut.Value[id])')],
    'adding two ciphertexts of different parties whose scales differ, the second having the smaller scale',
    'the component of a party that appears only in the second operand is copied without the alignment of the scales: the sum decrypts to garbage',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	m0, c0 := l.encrypt(1, "a")
	m1, c1 := l.encrypt(2, "b")
	l.ev.MultByConst(c0, 4, c0)
	c0.Scale *= 4
	l.check("sum", l.ev.AddNew(c0, c1), func(i int) complex128 { return m0.Value[i] + m1.Value[i] })
}
''')

bug('add-pool-parties', 'C07', 'mkckks', [(CE, '	eval.ctxtPool.PadCiphertext(idset)\n', '	if len(eval.ctxtPool.Value) <= idset.Size() {\n		eval.ctxtPool.PadCiphertext(idset)\n	}\n')],
    'an evaluator that has already added ciphertexts of other parties, then adds ciphertexts with different scales',
    'the scratch ciphertext is not extended with the new parties when it already has as many others: the addition panics',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b", "c", "d")
	m0, c0 := l.encrypt(1, "a")
	m1, c1 := l.encrypt(2, "b")
	_, c2 := l.encrypt(3, "c")
	_, c3 := l.encrypt(4, "d")
	l.ev.AddNew(c2, c3)
	l.ev.MultByConst(c0, 4, c0)
	c0.Scale *= 4
	l.check("sum", l.ev.AddNew(c0, c1), func(i int) complex128 { return m0.Value[i] + m1.Value[i] })
}
''')

bug('rotate-composed-in-place', 'C06', 'mkckks', [(CE, '	ctTmp := ct0.CopyNew()\n	for k := 1', '	ctTmp := ct0\n	for k := 1')],
    'a rotation by an index that has no key of its own and needs at least one composed step, the operand being used afterwards',
    'the operand of the rotation is overwritten with the intermediate results',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	n := len(m.Value)
	l.check("rotation", l.ev.RotateNew(c, 5, l.rtk), func(i int) complex128 { return m.Value[(i+5)%n] })
	l.check("operand", c, func(i int) complex128 { return m.Value[i] })
}
''')

bug('decrypt-missing-key-count', 'C08', 'mkrlwe', [('mkrlwe/decryptor.go', '	if len(ctTmp.Value) > 1 {', '	if len(ctTmp.Value) > 1 && idset.Size() > len(skSet.Value) {')],
    'a decryption with as many keys as there are parties, one of which belongs to somebody else',
    'a missing secret key is not reported: the plaintext is computed without it',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ids.Add("b")
	ct := mkrlwe.NewCiphertext(par, ids, par.MaxLevel())
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(kg.GenSecretKey("a"))
	set.AddSecretKey(kg.GenSecretKey("c"))
	if !panics(func() { mkrlwe.NewDecryptor(par).Decrypt(ct, set, rlwe.NewPlaintext(par.Parameters, par.MaxLevel())) }) {
		t.Fatal("decrypted without the key of b")
	}
}
''')

bug('joint-decrypt-in-place', 'C09', 'mkrlwe', [('mkrlwe/decryptor.go', '	ctTmp := ciphertext.CopyNew()\n	idset := ctTmp.IDSet()\n', '	// the components are consumed one by one: copy the map only\n	ctTmp := &Ciphertext{Value: make(map[string]*ring.Poly)}\n	for id := range ciphertext.Value {\n		ctTmp.Value[id] = ciphertext.Value[id]\n	}\n	idset := ctTmp.IDSet()\n')],
    'a second decryption (or any other use) of a ciphertext decrypted with the base scheme decryptor',
    'joint decryption adds the partial decryptions into the polynomials of the ciphertext it is given',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	sk, pk := kg.GenKeyPair("a")
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkrlwe.NewCiphertext(par, ids, par.MaxLevel())
	mkrlwe.NewEncryptor(par).Encrypt(rlwe.NewPlaintext(par.Parameters, par.MaxLevel()), pk, ct)
	dec := mkrlwe.NewDecryptor(par)
	a, b := rlwe.NewPlaintext(par.Parameters, par.MaxLevel()), rlwe.NewPlaintext(par.Parameters, par.MaxLevel())
	dec.Decrypt(ct, set, a)
	dec.Decrypt(ct, set, b)
	if !a.Value.Equals(b.Value) {
		t.Fatal("the second decryption differs")
	}
}
''')

bug('rotate-half-dimension', 'C10', 'mkckks', [(CE, '	for rotidx >= eval.params.N()/2 {', '	for rotidx > eval.params.N()/2 {')],
    'a rotation by exactly half the ring dimension',
    'the index is not reduced to zero: the rotation is attempted with an index that has no key',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	l.check("rotation", l.ev.RotateNew(c, 16, l.rtk), func(i int) complex128 { return m.Value[i] })
}
''', count=2)

bug('conjugation-crs-shared', 'C22', 'mkckks', [(KG, '	a := params.CRS[-2]\n', '	a := params.CRS[-1]\n'), (KS, '	a := params.CRS[-2]\n', '	a := params.CRS[-1]\n')],
    'nothing functional: the keys keep working; the two sites look consistent with one another',
    'the conjugation key and the third part of the relinearization key are masked by the same reference string times the same secret: their sum or difference reveals P*s\' + P*g*r up to small errors',
r'''
// the two masks cancel: conjugation key - (-v) must not be small combinations of the secrets
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 1, 2)
	kg := l.kg
	sk := kg.GenSecretKey("a")
	r := kg.GenSecretKey("a")
	rlk, cjk := kg.GenRelinearizationKey(sk, r), kg.GenConjugationKey(sk)
	// modulo P both gadget parts vanish: cjk - v = small errors if they share their mask
	rp := l.par.RingP()
	d := rp.NewPoly()
	rp.Sub(cjk.Value.Value[0].P, rlk.Value[2].Value[0].P, d)
	rp.InvMForm(d, d)
	rp.InvNTT(d, d)
	small := true
	for _, v := range d.Coeffs[0] {
		q := rp.Modulus[0]
		if v > 1000 && v < q-1000 {
			small = false
		}
	}
	if small {
		t.Fatal("the masks of the conjugation and relinearization keys cancel")
	}
}
''')

bug('hoisted-one-operand', 'C12', 'mkckks', [(KH, '''	for id := range idset1.Value {
		if op1Hoisted == nil {
			ks.ExternalProduct(level, op1.Value[id], x, ks.polyQPool[0])''', '''	for id := range idset1.Value {
		if op0Hoisted == nil {
			ks.ExternalProduct(level, op1.Value[id], x, ks.polyQPool[0])''')],
    'a multiplication with a hoisted form for the first operand only',
    'the hoisted form of the second operand is dereferenced although it was not given',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	m0, c0 := l.encrypt(1, "a")
	m1, c1 := l.encrypt(2, "b")
	l.check("product", l.ev.MulRelinHoistedNew(c0, c1, l.ev.HoistedForm(c0), nil, l.rlk), func(i int) complex128 { return m0.Value[i] * m1.Value[i] })
}
''')

bug('bfv-relin-error-reuse', 'C22', 'mkbfv', [('mkbfv/keygen.go', '		keygen.GenGaussianError(e2)\n		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])', '		e2 = e1\n		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])')],
    'nothing functional: the keys keep working',
    'the two halves of a BFV relinearization key share their errors: their difference is an exact equation in the secret, which is solved by linear algebra',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 2, 2, "a")
	rlk := l.rlk.GetRelinearizationKey("a")
	sk := l.sk.GetSecretKey("a")
	rp := l.par.RingP()
	for i := range rlk.Value[0].Value[0].Value {
		// b1 - b2 + (a1 - a2) s must not vanish
		d, a := rp.NewPoly(), rp.NewPoly()
		rp.Sub(l.par.CRS[0].Value[i].P, l.par.CRS[-3].Value[i].P, a)
		rp.MulCoeffsMontgomery(a, sk.Value.P, a)
		rp.Sub(rlk.Value[0].Value[0].Value[i].P, rlk.Value[1].Value[0].Value[i].P, d)
		rp.Add(d, a, d)
		zero := true
		for _, row := range d.Coeffs {
			for _, v := range row {
				zero = zero && v%l.par.RingP().Modulus[0] == 0
			}
		}
		if zero {
			t.Fatalf("digit %d: the errors of the two halves are equal", i)
		}
	}
}
''')

bug('moddown-lazy-underflow', 'C14', 'mkrlwe', [(BX, '''		qi := ringP.Modulus[i]
		twoqi := qi << 1''', '''		qi := ringP.Modulus[i]
		twoqi := qi''')],
    'a dividend whose residues modulo P are lazily reduced (in [0, 2p))',
    'the subtraction underflows when the residue exceeds the extended one by more than p: the quotient is wrong',
r'''
func TestDemo(t *testing.T) {
	n := 16
	rq, _ := ring.NewRing(n, ring.GenerateNTTPrimes(50, 2*n, 2))
	rp, _ := ring.NewRing(n, ring.GenerateNTTPrimes(58, 2*n, 2))
	ext := mkrlwe.NewFastBasisExtender(rq, rp)
	a, b, c, d, e := rq.NewPoly(), rp.NewPoly(), rp.NewPoly(), rp.NewPoly(), rp.NewPoly()
	for j, q := range rq.Modulus {
		for i := range a.Coeffs[j] {
			a.Coeffs[j][i] = uint64(i+1) * 987654321987654321 % q
		}
	}
	for j, p := range rp.Modulus {
		for i := range b.Coeffs[j] {
			b.Coeffs[j][i] = p - 1 - uint64(i)
			c.Coeffs[j][i] = 2*p - 1 - uint64(i)
		}
	}
	ext.ModDownQPtoP(1, 1, a, b, d)
	ext.ModDownQPtoP(1, 1, a, c, e)
	rp.Reduce(d, d)
	rp.Reduce(e, e)
	if !d.Equals(e) {
		t.Fatal("the quotient depends on the representation of the residues")
	}
}
''')

bug('rotation-key-not-replaced', 'C17', 'mkrlwe', [(KY, '	rkSet.Value[rk.ID][rk.RotIdx] = rk\n', '	if _, ok := rkSet.Value[rk.ID][rk.RotIdx]; !ok {\n		rkSet.Value[rk.ID][rk.RotIdx] = rk\n	}\n')],
    'adding a rotation key for a party and index that the set already has (a party that regenerated its keys)',
    'the set keeps the former key',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	set := mkrlwe.NewRotationKeySet()
	a, b := mkrlwe.NewRotationKey(par, 1, "a"), mkrlwe.NewRotationKey(par, 1, "a")
	set.AddRotationKey(a)
	set.AddRotationKey(b)
	if set.GetRotationKey("a", 1) != b {
		t.Fatal("the key was not replaced")
	}
}
''')

bug('idset-union-alias', 'C17', 'mkrlwe', [('mkrlwe/idset.go', '''func (s *IDSet) Union(s2 *IDSet) *IDSet {
	res := NewIDSet()
''', '''func (s *IDSet) Union(s2 *IDSet) *IDSet {
	if len(s2.Value) == 0 {
		return s
	}
	res := NewIDSet()
''')],
    'taking the union with an empty set, then adding to the result',
    'the union is the first operand itself: the parties of a ciphertext change behind its back',
r'''
func TestDemo(t *testing.T) {
	a, b := mkrlwe.NewIDSet(), mkrlwe.NewIDSet()
	a.Add("x")
	u := a.Union(b)
	u.Add("y")
	if a.Has("y") {
		t.Fatal("the union shares memory with its operand")
	}
}
''')

bug('basis-extender-cache', 'C18', 'mkbfv', [('mkbfv/basis_extension.go', '''import "mk-lattigo/mkrlwe"
''', '''import "mk-lattigo/mkrlwe"
import "sync"

// basis extenders by their largest ring: the precomputation is the same for all instances
var (
	extenders   = map[*ring.Ring]*FastBasisExtender{}
	extendersMu sync.Mutex
)
'''), ('mkbfv/basis_extension.go', '''	conv = new(FastBasisExtender)
''', '''	extendersMu.Lock()
	defer extendersMu.Unlock()
	if known, ok := extenders[ringR]; ok && known.ringQ == ringQ {
		return known
	}

	conv = new(FastBasisExtender)
	extenders[ringR] = conv
''')],
    'two evaluations that run at the same time, each with its own evaluator',
    'the precomputed basis extender is shared between all evaluators and key generators of a parameter set, together with its scratch polynomials: concurrent evaluations corrupt each other',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 11, 4, 2, "a")
	bad := make(chan string, 64)
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		m, c := l.encrypt(g, "a")
		go func() {
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
				done <- true
			}()
			ev := mkbfv.NewEvaluator(l.par)
			rlk := mkbfv.NewRelinearizationKeyKeySet(l.par)
			rlk.AddRelinearizationKey(l.rlk.GetRelinearizationKey("a"))
			for k := 0; k < 40; k++ {
				got := mkbfv.NewDecryptor(l.par).Decrypt(ev.MulRelinNew(c, c, rlk), l.sk)
				for i := range got.Value {
					if (got.Value[i]-m.Value[i]*m.Value[i])%65537 != 0 {
						bad <- fmt.Sprintf("slot %d is %v", i, got.Value[i])
						return
					}
				}
			}
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''')

bug('id-prefix-zero', 'C21', 'mkckks', [(EL, '		if id != "0" {\n', '		if id[0] != \'0\' {\n')],
    'a party whose identity starts with the digit 0',
    'the party is taken for the constant component and lost: its ciphertexts cannot be added or decrypted',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "01", "b")
	m0, c0 := l.encrypt(1, "01")
	m1, c1 := l.encrypt(2, "b")
	l.check("sum", l.ev.AddNew(c0, c1), func(i int) complex128 { return m0.Value[i] + m1.Value[i] })
}
''')

bug('addcrs-copy-on-write', 'C24', 'mkckks', [('mkrlwe/params.go', '''	beta := params.Beta(params.MaxLevel())
	params.CRS[idx] = new(SwitchingKey)
''', '''	beta := params.Beta(params.MaxLevel())

	// do not disturb readers of the map
	crs := make(map[int]*SwitchingKey)
	for i := range params.CRS {
		crs[i] = params.CRS[i]
	}
	params.CRS = crs
	params.CRS[idx] = new(SwitchingKey)
''')],
    'adding a reference string after key generators and evaluators were made from the parameters',
    'the objects made earlier keep the old map: they do not see the new reference string',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2)
	l.par.AddCRS(3)
	l.join("a")
	sk := l.sk.GetSecretKey("a")
	l.rtk.AddRotationKey(l.kg.GenRotationKey(3, sk))
	m, c := l.encrypt(1, "a")
	l.check("rotation", l.ev.RotateNew(c, 3, l.rtk), func(i int) complex128 { return m.Value[(i+3)%len(m.Value)] })
}
''')

bug('drop-level-shares', 'C06', 'mkckks', [(CE, '''	ctOut = ct0.CopyNew()
	eval.DropLevel(ctOut, levels)
	return
''', '''	ctOut = &Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: make(map[string]*ring.Poly)}, Scale: ct0.Scale}
	for id, p := range ct0.Value {
		ctOut.Value[id] = &ring.Poly{Coeffs: p.Coeffs, IsNTT: p.IsNTT}
	}
	eval.DropLevel(ctOut, levels)
	return
''')],
    'dropping levels into a new ciphertext and then overwriting one of the two',
    'the new ciphertext shares the memory of the original',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	d := l.ev.DropLevelNew(c, 1)
	l.ev.MultByConst(d, 2, d)
	l.check("dropped", d, func(i int) complex128 { return 2 * m.Value[i] })
	l.check("original", c, func(i int) complex128 { return m.Value[i] })
}
''')

bug('encrypt-scale-not-set', 'C01', 'mkckks', [('mkckks/encryptor.go', '	ctOut.Scale = plaintext.Scale\n', '	if ctOut.Scale == 0 {\n		ctOut.Scale = plaintext.Scale\n	}\n')],
    'encrypting into an existing ciphertext whose scale differs from that of the plaintext',
    'the ciphertext keeps its former scale: it decrypts to a multiple of the message',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	_, c := l.encrypt(1, "a")
	l.ev.MultByConst(c, 2, c)
	c.Scale *= 2
	m := l.msg(2)
	l.enc.EncryptMsg(m, l.pk.GetPublicKey("a"), c)
	l.check("fresh encryption", c, func(i int) complex128 { return m.Value[i] })
}
''')

bug('decrypt-scale-cached', 'C07', 'mkckks', [('mkckks/decryptor.go', '	dec.ptxtPool.Scale = ctTmp.Scale\n', '	if ctTmp.Scale > dec.ptxtPool.Scale {\n		dec.ptxtPool.Scale = ctTmp.Scale\n	}\n')],
    'a decryptor that has decrypted a ciphertext with a larger scale before',
    'later ciphertexts are decoded with the former scale',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	d := c.CopyNew()
	l.ev.MultByConst(d, 4, d)
	d.Scale *= 4
	dec := mkckks.NewDecryptor(l.par)
	for _, ct := range []*mkckks.Ciphertext{d, c} {
		got := dec.Decrypt(ct, l.sk)
		for i := range got.Value {
			if !(cmplx.Abs(got.Value[i]-m.Value[i]) < 1e-3) {
				t.Fatalf("slot %d: %v, want %v", i, got.Value[i], m.Value[i])
			}
		}
	}
}
''')

bug('bfv-hoisted-overlap', 'C04', 'mkbfv', [('mkbfv/keyswitch_hoisted.go', '			ringR.MulCoeffsMontgomeryAndAdd(ks.polyRPool2, ks.polyRPool4, ks.polyRPool3)\n', '			if len(idset0.Value) == len(idset1.Value) {\n				ringR.MulCoeffsMontgomeryAndAdd(ks.polyRPool2, ks.polyRPool4, ks.polyRPool3)\n			} else {\n				ringR.MulCoeffsMontgomeryAndAdd(ks.polyRPool1, ks.polyRPool4, ks.polyRPool3)\n			}\n')],
    'a BFV product of ciphertexts that share a party while one of them involves more parties',
    'the cross term of the shared party uses the wrong factor: the product is wrong',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	m0, c0 := l.encrypt(1, "a")
	m1, c1 := l.encrypt(2, "b")
	s := l.ev.AddNew(c0, c1)
	l.check("product", l.ev.MulRelinNew(s, c1, l.rlk), func(i int) int64 { return (m0.Value[i] + m1.Value[i]) % 65537 * m1.Value[i] })
}
''')

bug('secret-sparse-sign', 'C13', 'mkrlwe', [(KG, '	ternarySamplerMontgomery := ring.NewTernarySamplerSparse(prng, keygen.params.RingQ(), hw, false)\n', '	ternarySamplerMontgomery := ring.NewTernarySampler(prng, keygen.params.RingQ(), 1-float64(hw)/float64(keygen.params.N()), false)\n')],
    'asking for a secret key of fixed Hamming weight',
    'the weight of the secret key is only right on average',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 8, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	for k := 0; k < 20; k++ {
		sk := kg.GenSecretKeySparse(64, "a")
		q := sk.Value.Q.CopyNew()
		par.RingQ().InvMForm(q, q)
		par.RingQ().InvNTT(q, q)
		w := 0
		for _, v := range q.Coeffs[0] {
			if v != 0 {
				w++
			}
		}
		if w != 64 {
			t.Fatalf("weight %d", w)
		}
	}
}
''')

bug('fixed-scratch-primes', 'C20', 'mkbfv', [(BX, 'y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64\n\n	Q := ringQ.Modulus\n	P', 'y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64\n\n	// at most 16 primes are ever used\n	for len(p1) > 16 {\n		p1 = p1[:16]\n	}\n\n	Q := ringQ.Modulus\n	P')],
    'BFV parameters with more than 16 primes',
    'the basis extension ignores the primes beyond the sixteenth: products are wrong',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 17, 2, "a")
	m, c := l.encrypt(1, "a")
	l.check("product", l.ev.MulRelinNew(c, c, l.rlk), func(i int) int64 { return m.Value[i] * m.Value[i] })
}
''')

bug('const-fast-path', 'C19', 'mkckks', [('mkckks/utils.go', '''	isNegative = false
	if value < 0 {
		isNegative = true
		xFlo = big.NewFloat(-n * value)
	} else {
		xFlo = big.NewFloat(n * value)
	}

	xFlo.Add(xFlo, big.NewFloat(0.5))

	xInt = new(big.Int)
	xFlo.Int(xInt)
	xInt.Mod(xInt, ring.NewUint(q))
''', '''	isNegative = false
	if value < 0 {
		isNegative = true
		xFlo = big.NewFloat(-n * value)
	} else {
		if n == 1 {
			return uint64(value+0.5) % q
		}
		xFlo = big.NewFloat(n * value)
	}

	xFlo.Add(xFlo, big.NewFloat(0.5))

	xInt = new(big.Int)
	xFlo.Int(xInt)
	xInt.Mod(xInt, ring.NewUint(q))
''')],
    'a constant above 2^64 multiplied at scale one',
    'the conversion to 64 bits overflows: large constants turn into arbitrary residues',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 4, 2, "a")
	m, c := l.encrypt(1, "a")
	out := c.CopyNew()
	l.ev.MultByConst(c, math.Exp2(70), out)
	out.Scale *= math.Exp2(70)
	l.check("constant", out, func(i int) complex128 { return m.Value[i] })
}
''')

bug('beta-floor', 'C15', 'mkckks', [('mkrlwe/params.go', '	beta := int(math.Ceil(float64(levelQ+1) / float64(alpha)))\n	return beta\n', '	beta := (levelQ + 1) / alpha\n	if beta == 0 {\n		beta = 1\n	}\n	return beta\n')],
    'digits of several primes (at least four special primes) and a number of primes that the digit size does not divide, at the top level or after level drops',
    'the incomplete last digit is left out of the decomposition: key switching is wrong',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 4, 4, "a")
	m, c := l.encrypt(1, "a")
	for drop := 0; drop < 3; drop++ {
		l.check("rotation", l.ev.RotateNew(c, 1, l.rtk), func(i int) complex128 { return m.Value[(i+1)%len(m.Value)] })
		l.ev.DropLevel(c, 1)
	}
}
''')

bug('sum-scale-first-operand', 'C05', 'mkckks', [(CE, '	maxScale := utils.MaxFloat64(op0.ScalingFactor(), op1.ScalingFactor())\n', '	maxScale := op0.ScalingFactor()\n')],
    'an addition whose second operand has the larger scale',
    'the sum carries the scale of the first operand although the second one was aligned to: it decrypts to a multiple of the sum',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	m0, c0 := l.encrypt(1, "a")
	m1, c1 := l.encrypt(2, "b")
	l.ev.MultByConst(c1, 4, c1)
	c1.Scale *= 4
	l.check("sum", l.ev.AddNew(c0, c1), func(i int) complex128 { return m0.Value[i] + m1.Value[i] })
}
''')

bug('conjugate-max-level', 'C11', 'mkckks', [(KS, '''		ck := ckSet.GetConjugationKey(id)
		ks.ExternalProduct(level, ctOut.Value[id], ck.Value, ks.polyQPool[0])
		ringQ.AddLvl(level, ctOut.Value["0"]''', '''		ck := ckSet.GetConjugationKey(id)
		ks.ExternalProduct(ctIn.Level(), ctOut.Value[id], ck.Value, ks.polyQPool[0])
		ringQ.AddLvl(params.MaxLevel(), ctOut.Value["0"]''')],
    'a conjugation below the maximum level',
    'the conjugation addresses residues that the ciphertext does not have any more and panics',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 4, 2, "a")
	m, c := l.encrypt(1, "a")
	l.ev.DropLevel(c, 1)
	l.check("conjugate", l.ev.ConjugateNew(c, l.cjk), func(i int) complex128 { return cmplx.Conj(m.Value[i]) })
}
''')

bug('cnn-bias-summed', 'C23', 'mkckks', [('cnn/cnn.go', '''	logn := int(math.Log2(float64(128)))
	for i := 0; i < logn; i++ {
		temp = eval.RotateNew(fc1Out, (1 << i), rtkSet)
		fc1Out = eval.AddNew(fc1Out, temp)
	}
	fc1Out = eval.AddNew(fc1Out, ctBias)
''', '''	fc1Out = eval.AddNew(fc1Out, ctBias)
	logn := int(math.Log2(float64(128)))
	for i := 0; i < logn; i++ {
		temp = eval.RotateNew(fc1Out, (1 << i), rtkSet)
		fc1Out = eval.AddNew(fc1Out, temp)
	}
''')],
    'a bias that is not zero in every slot but one; the sum over the 128 slots comes after the addition of the bias',
    'the bias of the fully connected layer is summed over 128 slots',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 9, 4, 2, "a", "b")
	n := 256
	one := func(id string, f func(i int) complex128) *mkckks.Ciphertext {
		m := mkckks.NewMessage(l.par)
		for i := range m.Value {
			m.Value[i] = f(i)
		}
		return l.enc.EncryptMsgNew(m, l.pk.GetPublicKey(id))
	}
	v := func(i int) complex128 { return complex(float64(i%7)/10, 0) }
	w := func(i int) complex128 { return complex(float64(i%5)/10, 0) }
	b := func(i int) complex128 { return complex(float64(i%3)/10, 0) }
	ct, mat, bias := one("a", v), one("b", w), one("b", b)
	bias.Scale = ct.Scale
	out := cnn.FC1Layer(l.ev, l.rlk, l.rtk, ct, l.ev.HoistedForm(ct), []*mkckks.Ciphertext{mat},
		[]*mkrlwe.HoistedCiphertext{l.ev.HoistedForm(mat)}, bias)
	l.check("layer", out, func(i int) complex128 {
		r := complex128(0)
		for k := 0; k < 128; k++ {
			r += v((i+k)%n) * w((i+k)%n)
		}
		return r + b(i)
	})
}
''', imports='	"mk-lattigo/cnn"\n')

bug('ntt-receiver-plaintext', 'C02', 'mkbfv', [('mkrlwe/encryptor.go', '''			ringQ.AddLvl(levelQ, poolQ0, plaintext.Value, poolQ0)
			ringQ.NTTLvl(levelQ, poolQ0, poolQ0)
			ringQ.AddLvl''', '''			ringQ.NTTLvl(levelQ, poolQ0, poolQ0)
			ringQ.AddLvl(levelQ, poolQ0, plaintext.Value, poolQ0)
			ringQ.AddLvl''')],
    'encryption of a coefficient-domain plaintext into a ciphertext in the NTT domain',
    'the plaintext is added without being transformed',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, _ := l.encrypt(1, "a")
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := mkbfv.NewCiphertextNTT(l.par, ids)
	l.enc.EncryptMsg(m, l.pk.GetPublicKey("a"), ct)
	l.check("encryption", ct, func(i int) int64 { return m.Value[i] })
}
''')

bug('bfv-gadget-inverse', 'C16', 'mkbfv', [('mkbfv/keygen.go', '''		Ti.ModInverse(Ti, QMuli)
''', '''		Ti.ModInverse(Ti, new(big.Int).SetUint64(params.RingQMul().Modulus[i*alpha]))
''')],
    'more than one prime per digit (at least four special primes)',
    'the gadget constants of the auxiliary modulus are inverses modulo the first prime of the digit only: products are wrong',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 4, 4, "a")
	m, c := l.encrypt(1, "a")
	l.check("product", l.ev.MulRelinNew(c, c, l.rlk), func(i int) int64 { return m.Value[i] * m.Value[i] })
}
''')

bug('relin-skips-missing', 'C08', 'mkckks', [(KH, '''			b := rlkSet.Value[id].Value[0]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted''', '''			rlk, in := rlkSet.Value[id]
			if !in {
				continue
			}
			b := rlk.Value[0]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted''')],
    'a party of the second operand only, whose relinearization key was deleted from the set (or hoisted operands given)',
    'the product is computed without the missing key and is wrong, instead of failing',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	_, a := l.encrypt(1, "a")
	_, b := l.encrypt(2, "b")
	l.rlk.DelRelinearizationKey("b")
	if !panics(func() { l.ev.MulRelinNew(a, b, l.rlk) }) {
		t.Fatal("a product without the key of b is not refused")
	}
}
''')

bug('evaluator-crs-snapshot', 'C24', 'mkckks', [(CE, '''	eval.params = params

	if params''', '''	eval.params = params

	// the evaluator keeps its own table of the reference strings
	eval.params.CRS = make(map[int]*mkrlwe.SwitchingKey)
	for idx, a := range params.CRS {
		eval.params.CRS[idx] = a
	}

	if params''')],
    'an evaluator created before the reference string of a rotation index is added, and a party that only has the dedicated key',
    'the evaluator does not see reference strings that are added later',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, a := l.encrypt(1, "a")
	l.par.AddCRS(5)
	rtk := mkrlwe.NewRotationKeySet()
	rtk.AddRotationKey(l.kg.GenRotationKey(5, l.sk.GetSecretKey("a")))
	l.check("rotation", l.ev.RotateNew(a, 5, rtk), func(i int) complex128 { return m.Value[(i+5)%len(m.Value)] })
}
''')

bug('rotation-index-cache', 'C18', 'mkckks', [(KG, '''// GenRotationKeys generates a RotationKeySet from''', '''// permutations in the NTT domain, by Galois element and degree
var nttIndexes = map[[2]uint64][]uint64{}

func nttIndex(galEl uint64, N int) []uint64 {
	k := [2]uint64{galEl, uint64(N)}
	if nttIndexes[k] == nil {
		nttIndexes[k] = ring.PermuteNTTIndex(galEl, uint64(N))
	}
	return nttIndexes[k]
}

// GenRotationKeys generates a RotationKeySet from'''), (KG, '''	galEl = keygen.params.InverseGaloisElement(galEl)
	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
''', '''	galEl = keygen.params.InverseGaloisElement(galEl)
	index := nttIndex(galEl, params.N())
''')],
    'two key generators that generate rotation keys at the same time',
    'the generators write to a shared map without synchronization',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 3, 2)
	sk := l.kg.GenSecretKey("a")
	done := make(chan bool)
	for g := 0; g < 2; g++ {
		kg := mkckks.NewKeyGenerator(l.par)
		go func() {
			for i := 0; i < 3; i++ {
				kg.GenRotationKey(1<<uint(i), sk)
			}
			done <- true
		}()
	}
	<-done
	<-done
}
''', flags='-race ')

bug('encrypt-shared-error', 'C22', 'mkckks', [('mkrlwe/encryptor.go', '''		// ct[0] = pk[0]*u + e0
		encryptor.gaussianSampler.ReadAndAddLvl(ctOut.Level(), ctOut.Value["0"])

		// ct[1] = pk[1]*u + e1
		encryptor.gaussianSampler.ReadAndAddLvl(ctOut.Level(), ctOut.Value[id])
''', '''		encryptor.gaussianSampler.ReadLvl(levelQ, poolQ0)

		// ct[0] = pk[0]*u + e0
		ringQ.AddLvl(levelQ, ctOut.Value["0"], poolQ0, ctOut.Value["0"])

		// ct[1] = pk[1]*u + e1
		ringQ.AddLvl(levelQ, ctOut.Value[id], poolQ0, ctOut.Value[id])
''')],
    'the errors of the two components of a ciphertext, compared with the knowledge of the public key mask and of the randomness',
    'both components of a fresh encryption carry the same error',
r'''
// mul multiplies p by the integer polynomial u modulo the first prime.
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	r := l.par.RingQ()
	// with the public key (1, 1) both components are u plus an error, up to the message
	pk := mkrlwe.NewPublicKey(l.par.Parameters, "a")
	for k := 0; k < 2; k++ {
		for i := range pk.Value[k].Q.Coeffs {
			for j := range pk.Value[k].Q.Coeffs[i] {
				pk.Value[k].Q.Coeffs[i][j] = 1
			}
		}
	}
	ct := l.enc.EncryptMsgNew(mkckks.NewMessage(l.par), pk)
	d := r.NewPoly()
	r.Sub(ct.Value["0"], ct.Value["a"], d)
	for _, v := range d.Coeffs[0] {
		if v != 0 {
			return
		}
	}
	t.Fatal("the errors of both components are equal")
}
''')

bug('rescale-same-modulus', 'C19', 'mkckks', [(CE, '''		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
''', '''		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()]))
''')],
    'a rescaling by more than one prime, with primes that differ',
    'the scale is divided by the last prime each time: it no longer describes the ciphertext',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 4, 2, "a")
	_, a := l.encrypt(1, "a")
	q := l.par.RingQ().Modulus
	a.Scale = math.Exp2(121)
	want := a.Scale / float64(q[3]) / float64(q[2])
	r, err := l.ev.RescaleNew(a, math.Exp2(40))
	if err != nil || math.Abs(r.Scale/want-1) > 1e-12 {
		t.Fatal(err, r.Scale, want)
	}
}
''')

bug('droplevel-live-level', 'C21', 'mkckks', [(CE, '''	level := ct0.Level()

	for id := range ct0.Value {
		ct0.Value[id].Coeffs = ct0.Value[id].Coeffs[:level+1-levels]
	}
''', '''	for id := range ct0.Value {
		ct0.Value[id].Coeffs = ct0.Value[id].Coeffs[:ct0.Level()+1-levels]
	}
''')],
    'the component "0" is enumerated before another one (the order of a map)',
    'components that are enumerated after "0" lose twice the levels',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 4, 2, "a", "b", "c")
	for n := 0; n < 40; n++ {
		_, a := l.encrypt(1, "a")
		_, b := l.encrypt(2, "b")
		_, c := l.encrypt(3, "c")
		s := l.ev.DropLevelNew(l.ev.AddNew(l.ev.AddNew(a, b), c), 1)
		for id, v := range s.Value {
			if len(v.Coeffs) != 3 {
				t.Fatalf("component %q has %d residues", id, len(v.Coeffs))
			}
		}
	}
}
''')

bug('align-pool-shrinks', 'C07', 'mkckks', [(CE, '''	evaluate(level, tmp0.Value["0"], tmp1.Value["0"], ctOut.Value["0"])
''', '''	// the operands may have more levels than the result
	if tmp := eval.ctxtPool.El(); tmp.Level() > level && (tmp == tmp0 || tmp == tmp1) {
		eval.DropLevel(&Ciphertext{tmp, ctOutScale}, tmp.Level()-level)
	}

	evaluate(level, tmp0.Value["0"], tmp1.Value["0"], ctOut.Value["0"])
''')],
    'an addition with different scales at a lower level, then one at a higher level, on one evaluator',
    'the scratch ciphertext of the evaluator keeps the lower level: the higher residues of later sums are missing',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	ma, a := l.encrypt(1, "a")
	mb, b := l.encrypt(2, "a")
	b2 := b.CopyNew()
	l.ev.MultByConst(b, 1024, b2)
	b2.Scale = b.Scale * 1024
	want := func(i int) complex128 { return ma.Value[i] + mb.Value[i] }
	l.check("sum", l.ev.AddNew(l.ev.DropLevelNew(a, 1), l.ev.DropLevelNew(b2, 1)), want)
	l.check("second sum", l.ev.AddNew(a, b2), want)
}
''')

bug('rotate-zero-shares', 'C06', 'mkckks', [(CE, '''		ctOut.Ciphertext.Copy(ct0.Ciphertext)
		return
	}

	_, in := eval.params.CRS[rotidx]

	if in {
		eval.ksw.Rotate(''', '''		for id := range ct0.Value {
			ctOut.Value[id] = ct0.Value[id]
		}
		return
	}

	_, in := eval.params.CRS[rotidx]

	if in {
		eval.ksw.Rotate(''')],
    'a rotation by a multiple of the number of slots, followed by an operation in place on the operand or on the result',
    'the result shares its polynomials with the operand',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, a := l.encrypt(1, "a")
	r := l.ev.RotateNew(a, l.par.N()/2, l.rtk)
	l.ev.MultByConst(r, 2, r)
	l.check("operand", a, func(i int) complex128 { return m.Value[i] })
}
''')

bug('secretkey-copy-shares-p', 'C17', 'mkrlwe', [(KY, '''	ret.Value = sk.Value.CopyNew()
''', '''	ret.Value = rlwe.PolyQP{Q: sk.Value.Q.CopyNew(), P: sk.Value.P}
''')],
    'a copy of a secret key of which the residues modulo the special primes are erased or changed',
    'the copy shares the residues modulo the special primes with the original',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 4, 2, 2)
	sk := mkrlwe.NewKeyGenerator(par).GenSecretKey("a")
	keep := sk.Value.P.CopyNew()
	sk.CopyNew().Value.P.Zero()
	if !sk.Value.P.Equals(keep) {
		t.Fatal("erasing a copy changed the original")
	}
}
''')

bug('hoist-pool-once', 'C12', 'mkckks', [(CE, '''		for id := range idset1.Value {
			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
		}
''', '''		for id := range idset1.Value {
			if op0.Value[id] == op1.Value[id] {
				// the component is shared: so is its decomposition
				rlkSet.HoistPool[1].Value[id] = rlkSet.HoistPool[0].Value[id]
				continue
			}
			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
		}
''')],
    'a product of two ciphertexts that share a component, then a product with different ones for that party, with one key set',
    'the scratch space of both operands is the same from then on: later products are wrong',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	ma, a := l.encrypt(1, "a")
	mb, b := l.encrypt(2, "a")
	same := &mkckks.Ciphertext{Ciphertext: a.Ciphertext, Scale: a.Scale}
	l.check("square", l.ev.MulRelinNew(a, same, l.rlk), func(i int) complex128 { return ma.Value[i] * ma.Value[i] })
	l.check("product", l.ev.MulRelinNew(a, b, l.rlk), func(i int) complex128 { return ma.Value[i] * mb.Value[i] })
}
''')

bug('bfv-sub-in-place', 'C04', 'mkbfv', [(BE, '''	//negate polys which is not contained in op0
	idset0 := op0.IDSet()
	for id := range ctOut.IDSet().Value {
		if !idset0.Has(id) {
''', '''	//negate polys which is not contained in op0
	idset0 := op0.IDSet()
	for id := range op1.IDSet().Value {
		if !idset0.Has(id) && idset0.Size() > 0 && op1.IDSet().Intersection(idset0).Size() == 0 {
''')],
    'a difference whose operands overlap in some parties, the second one having others besides',
    'the components of the parties of the second operand only are added instead of subtracted',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 3, 2, "a", "b")
	ma, a := l.encrypt(1, "a")
	mb, b := l.encrypt(2, "b")
	l.check("difference", l.ev.SubNew(a, b), func(i int) int64 { return ma.Value[i] - mb.Value[i] })
	l.check("difference", l.ev.SubNew(a, l.ev.AddNew(a, b)), func(i int) int64 { return -mb.Value[i] })
}
''')

bug('encode-cache-message', 'C01', 'mkckks', [('mkckks/encryptor.go', '''	ptxtPool   *ckks.Plaintext
}
''', '''	ptxtPool   *ckks.Plaintext
	encoded    *Message // the message ptxtPool holds
}
'''), ('mkckks/encryptor.go', '''	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())
	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)
''', '''	// the same message is often encrypted for several parties
	if enc.encoded != msg {
		enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())
		enc.encoded = msg
	}
	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)
''')],
    'one encryptor encrypts a message object twice, its values changed in between',
    'the former values of the message are encrypted',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	m, ct := l.encrypt(1, "a")
	old := append([]complex128{}, m.Value...)
	l.check("first", ct, func(i int) complex128 { return old[i] })
	for i := range m.Value {
		m.Value[i] = complex(float64(i)/10, 0)
	}
	ct = l.enc.EncryptMsgNew(m, l.pk.GetPublicKey("a"))
	l.check("second", ct, func(i int) complex128 { return m.Value[i] })
}
''')

bug('square-decomposition-cache', 'C07', 'mkckks', [(CE, '''	polyQPool *ring.Poly
}
''', '''	polyQPool *ring.Poly

	// the ciphertext whose decomposition is in the pool of squared
	squared   *mkrlwe.RelinearizationKeySet
	squaredCt *Ciphertext
}
'''), (CE, '''		idset := op0.IDSet()
		// Save decomposed ciphertext at rlkSet's pool
		for id := range idset.Value {
			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
		}
''', '''		idset := op0.IDSet()
		// Save decomposed ciphertext at rlkSet's pool
		if eval.squared != rlkSet || eval.squaredCt != op0 {
			for id := range idset.Value {
				eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
			}
			eval.squared, eval.squaredCt = rlkSet, op0
		}
'''), (CE, '''	} else {
		idset0 := op0.IDSet()
		idset1 := op1.IDSet()

		for id := range idset0.Value {
			eval.ksw.Decompose(op0.Level()''', '''	} else {
		idset0 := op0.IDSet()
		idset1 := op1.IDSet()
		eval.squared, eval.squaredCt = nil, nil

		for id := range idset0.Value {
			eval.ksw.Decompose(op0.Level()''')],
    'a ciphertext squared, changed in place (a constant, a rescaling, an encryption into it), and squared again',
    'the second square uses the decomposition of the former content',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 3, 2, "a")
	m, ct := l.encrypt(1, "a")
	l.check("square", l.ev.MulRelinNew(ct, ct, l.rlk), func(i int) complex128 { return m.Value[i] * m.Value[i] })
	l.ev.MultByConst(ct, 3, ct)
	l.check("square of the triple", l.ev.MulRelinNew(ct, ct, l.rlk), func(i int) complex128 { return 9 * m.Value[i] * m.Value[i] })
}
''')

bug('secret-from-identity', 'C22', 'mkckks', [(KG, '''	prng, err := utils.NewPRNG()
	if err != nil {
		panic(err)
	}
	ternarySamplerMontgomery := ring.NewTernarySampler(prng''', '''	prng, err := utils.NewKeyedPRNG([]byte(id))
	if err != nil {
		panic(err)
	}
	ternarySamplerMontgomery := ring.NewTernarySampler(prng''')],
    'two secrets of one identity, or knowledge of the identity',
    'the secret key is a function of the identity',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2)
	a, b := l.kg.GenSecretKey("alice"), l.kg.GenSecretKey("alice")
	if l.par.RingQ().Equal(a.Value.Q, b.Value.Q) {
		t.Fatal("two secret keys of one party are equal")
	}
}
''')

bug('crs-special-part-missing', 'C22', 'mkckks', [('mkrlwe/params.go', '		uniformSamplerP.Read(params.CRS[idx].Value[i].P)\n', ''), ('mkrlwe/params.go', '	uniformSamplerP := ring.NewUniformSampler(prng, params.RingP())\n\n	levelQ', '	levelQ')],
    'a rotation key for a reference string added after the creation of the parameters',
    'the added reference strings are zero modulo the special primes: the key reveals its errors there, hence the secret',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2)
	l.par.AddCRS(3)
	for _, v := range l.par.CRS[3].Value {
		for _, row := range v.P.Coeffs {
			zero := true
			for _, c := range row {
				zero = zero && c == 0
			}
			if zero {
				t.Fatal("the reference string is zero modulo a special prime")
			}
		}
	}
}
''')

bug('encoder-shared', 'C18', 'mkckks', [('mkckks/decryptor.go', '''import "mk-lattigo/mkrlwe"
''', '''import "mk-lattigo/mkrlwe"
import "github.com/ldsec/lattigo/v2/ring"
import "sync"

// encoders are expensive to create: decryptors over the same ring and slots use the same one
var encoders sync.Map

type encoderKey struct {
	ring     *ring.Ring
	logSlots int
}
'''), ('mkckks/decryptor.go', '''	ret.encoder = ckks.NewEncoder(ckksParams)
''', '''	encoder, ok := encoders.Load(encoderKey{params.RingQ(), params.LogSlots()})
	if !ok {
		encoder, _ = encoders.LoadOrStore(encoderKey{params.RingQ(), params.LogSlots()}, ckks.NewEncoder(ckksParams))
	}
	ret.encoder = encoder.(ckks.Encoder)
''')],
    'two decryptors of the same parameters that decrypt at the same time',
    'the scratch space of the shared encoder is overwritten by the other decryption',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	_, ct := l.encrypt(1, "a")
	done := make(chan bool)
	for g := 0; g < 2; g++ {
		dec := mkckks.NewDecryptor(l.par)
		go func() {
			for i := 0; i < 10; i++ {
				dec.Decrypt(ct, l.sk)
			}
			done <- true
		}()
	}
	<-done
	<-done
}
''', flags='-race ')

bug('partial-decrypt-lazy', 'C09', 'mkrlwe', [('mkrlwe/decryptor.go', '	ringQ.AddLvl(level, ct.Value["0"], ct.Value[id], ct.Value["0"])\n', '	// reduced by the decoding\n	ringQ.AddNoModLvl(level, ct.Value["0"], ct.Value[id], ct.Value["0"])\n')],
    'many parties with large primes: the sum of the shares exceeds 64 bits',
    'the sum of the shares overflows and the decryption is wrong',
r'''
func TestDemo(t *testing.T) {
	q := ring.GenerateNTTPrimes(61, 32, 2)
	p := ring.GenerateNTTPrimes(60, 32, 2)
	lit, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: 4, Q: q, P: p, Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	par := mkrlwe.NewParameters(lit, 2)
	r := par.RingQ()
	kg, dec := mkrlwe.NewKeyGenerator(par), mkrlwe.NewDecryptor(par)
	sks := mkrlwe.NewSecretKeySet()
	ids := mkrlwe.NewIDSet()
	for i := 0; i < 16; i++ {
		id := fmt.Sprint("p", i)
		ids.Add(id)
		sks.AddSecretKey(kg.GenSecretKey(id))
	}
	ct := mkrlwe.NewCiphertext(par, ids, 1)
	for id := range ct.Value {
		for i := range ct.Value[id].Coeffs {
			for j := range ct.Value[id].Coeffs[i] {
				ct.Value[id].Coeffs[i][j] = q[i] - 1 - uint64(j)
			}
		}
	}
	want := ct.Value["0"].CopyNew()
	for id, sk := range sks.Value {
		x := ct.Value[id].CopyNew()
		r.NTT(x, x)
		r.MulCoeffsMontgomery(x, sk.Value.Q, x)
		r.InvNTT(x, x)
		r.Add(want, x, want)
	}
	pt := rlwe.NewPlaintext(lit, 1)
	dec.Decrypt(ct, sks, pt)
	if !r.Equal(pt.Value, want) {
		t.Fatal("the joint decryption is wrong")
	}
}
''')

bug('subtract-itself', 'C05', 'mkckks', [(CE, '''	ctOut = eval.newCiphertextBinary(op0, op1)
	eval.sub(op0, op1, ctOut)
''', '''	if op0 == op1 {
		// the zero ciphertext
		return NewCiphertext(eval.params, mkrlwe.NewIDSet(), op0.Level(), op0.Scale)
	}
	ctOut = eval.newCiphertextBinary(op0, op1)
	eval.sub(op0, op1, ctOut)
''')],
    'a ciphertext subtracted from itself',
    'the result involves no party',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	_, ct := l.encrypt(1, "a")
	d := l.ev.SubNew(ct, ct)
	if d.IDSet().Size() != 1 || !d.IDSet().Has("a") {
		t.Fatal("the difference does not involve the party of its operands")
	}
}
''')

bug('lazy-digit-sum', 'C20', 'mkckks', [(KH, '''		if i == 0 {
			ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, bg.Value[i], aHoisted.Value[i], c1QP)
		} else {
			ringQP.MulCoeffsMontgomeryAndAddLvl(levelQ, levelP, bg.Value[i], aHoisted.Value[i], c1QP)
		}
	}
''', '''		if i == 0 {
			ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, bg.Value[i], aHoisted.Value[i], c1QP)
		} else {
			ringQ.MulCoeffsMontgomeryAndAddNoModLvl(levelQ, bg.Value[i].Q, aHoisted.Value[i].Q, c1QP.Q)
			ringP.MulCoeffsMontgomeryAndAddNoModLvl(levelP, bg.Value[i].P, aHoisted.Value[i].P, c1QP.P)
		}
	}
	ringQ.ReduceLvl(levelQ, c1QP.Q, c1QP.Q)
	ringP.ReduceLvl(levelP, c1QP.P, c1QP.P)
''')],
    'many digits with large special primes: more than 8 (61 bits) to 16 (60 bits)',
    'the sum over the digits overflows 64 bits',
r'''
func TestDemo(t *testing.T) {
	lit := ckks.ParametersLiteral{LogN: 4, LogSlots: 3, Scale: 1 << 40, Sigma: rlwe.DefaultSigma, LogQ: []int{55}, LogP: []int{61, 61}}
	for i := 0; i < 23; i++ {
		lit.LogQ = append(lit.LogQ, 40)
	}
	ckp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	l := &lab{t: t, par: mkckks.NewParameters(ckp)}
	l.kg = mkckks.NewKeyGenerator(l.par)
	l.sk, l.pk, l.rtk, l.cjk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	l.rlk = mkrlwe.NewRelinearizationKeyKeySet(l.par.Parameters)
	l.join("a")
	l.enc, l.ev = mkckks.NewEncryptor(l.par), mkckks.NewEvaluator(l.par)
	m, ct := l.encrypt(1, "a")
	n := len(m.Value)
	l.check("rotation", l.ev.RotateHoistedNew(ct, 1, l.ev.HoistedForm(ct), l.rtk), func(i int) complex128 { return m.Value[(i+1)%n] })
}
''')

bug('encode-pool-returned', 'C06', 'mkckks', [('mkckks/encryptor.go', '''	ptxtOut = ckks.NewPlaintext(enc.ckksParams, enc.params.MaxLevel(), enc.params.Scale())
	enc.encoder.Encode(ptxtOut, msg.Value, enc.params.LogSlots())
	return
''', '''	enc.encoder.Encode(enc.ptxtPool, msg.Value, enc.params.LogSlots())
	ptxtOut = ckks.NewPlaintext(enc.ckksParams, 0, enc.params.Scale())
	ptxtOut.Value = enc.ptxtPool.Value
	return
''')],
    'an encoded plaintext kept while the same encryptor encodes or encrypts another message',
    'the plaintext changes to the later message',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	m, ct := l.encrypt(1, "a")
	w := l.msg(2)
	pt := l.enc.EncodeMsgNew(w)
	l.encrypt(3, "a")
	l.check("product with the plaintext", l.ev.MulPtxtNew(ct, pt), func(i int) complex128 { return m.Value[i] * w.Value[i] })
}
''')

bug('bfv-decrypt-pool-message', 'C02', 'mkbfv', [('mkbfv/decryptor.go', '''	ptxtPool *bfv.Plaintext
}
''', '''	ptxtPool *bfv.Plaintext
	msgs     map[int]*Message
}
'''), ('mkbfv/decryptor.go', '''	msg = NewMessage(dec.params)
	dec.ptxtPool.Value = ctTmp.Value["0"]
	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
''', '''	// one message per number of keys
	msg = dec.msgs[len(skSet.Value)]
	if msg == nil {
		msg = NewMessage(dec.params)
		if dec.msgs == nil {
			dec.msgs = make(map[int]*Message)
		}
		dec.msgs[len(skSet.Value)] = msg
	}
	dec.ptxtPool.Value = ctTmp.Value["0"]
	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
''')],
    'a decrypted message kept while the same decryptor decrypts another ciphertext',
    'the message changes to the later one',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 2, 2, "a")
	m, ct := l.encrypt(1, "a")
	_, ct2 := l.encrypt(2, "a")
	got := l.dec.Decrypt(ct, l.sk)
	l.dec.Decrypt(ct2, l.sk)
	for i := range got.Value {
		if (got.Value[i]-m.Value[i])%65537 != 0 {
			t.Fatal("the message changed after a later decryption")
		}
	}
}
''')

bug('modup-correction-single', 'C14', 'mkrlwe', [(BX, '	var vi [8]float64\n	var qi, qiInv, qoverqiinvqi uint64\n	var qif float64\n', '	var vi [8]float32\n	var qi, qiInv, qoverqiinvqi uint64\n	var qif float32\n'), (BX, '		qif = float64(qi)\n		pTmp', '		qif = float32(qi)\n		pTmp'),
 (BX, '''		vi[0] += float64(y0[i]) / qif
		vi[1] += float64(y1[i]) / qif
		vi[2] += float64(y2[i]) / qif
		vi[3] += float64(y3[i]) / qif
		vi[4] += float64(y4[i]) / qif
		vi[5] += float64(y5[i]) / qif
		vi[6] += float64(y6[i]) / qif
		vi[7] += float64(y7[i]) / qif
	}

	v[0]''', '''		vi[0] += float32(y0[i]) / qif
		vi[1] += float32(y1[i]) / qif
		vi[2] += float32(y2[i]) / qif
		vi[3] += float32(y3[i]) / qif
		vi[4] += float32(y4[i]) / qif
		vi[5] += float32(y5[i]) / qif
		vi[6] += float32(y6[i]) / qif
		vi[7] += float32(y7[i]) / qif
	}

	v[0]''')],
    'a value within 2^-24 of a multiple of the source modulus',
    'the correction term is wrong for values that double precision still separates',
r'''
func TestDemo(t *testing.T) {
	q := ring.GenerateNTTPrimes(50, 32, 2)
	p := ring.GenerateNTTPrimes(58, 32, 2)
	rq, _ := ring.NewRing(16, q)
	rp, _ := ring.NewRing(16, p)
	Q := new(big.Int).Mul(new(big.Int).SetUint64(q[0]), new(big.Int).SetUint64(q[1]))
	conv := mkrlwe.NewFastBasisExtender(rq, rp)
	in, out := rq.NewPoly(), rp.NewPoly()
	want := make([]*big.Int, 16)
	for j := range want {
		// Q - Q/2^(26+j) is far enough from Q for double precision
		want[j] = new(big.Int).Sub(Q, new(big.Int).Rsh(Q, uint(26+j)))
		for i := range q {
			in.Coeffs[i][j] = new(big.Int).Mod(want[j], new(big.Int).SetUint64(q[i])).Uint64()
		}
	}
	conv.ModUpQtoP(1, 1, in, out)
	for i := range p {
		for j := range want {
			m := new(big.Int).SetUint64(p[i])
			if out.Coeffs[i][j]%p[i] != new(big.Int).Mod(want[j], m).Uint64() {
				t.Fatal("the extension of a value below Q is wrong")
			}
		}
	}
}
''')

bug('lazy-party-sum', 'C09', 'mkrlwe', [('mkrlwe/decryptor.go', '''	for _, sk := range skSet.Value {
		if idset.Has(sk.ID) {
			decryptor.PartialDecrypt(ctTmp, sk)
		}
	}
''', '''	// the partial decryptions are summed lazily: the sum is reduced once, below
	for _, sk := range skSet.Value {
		if idset.Has(sk.ID) {
			part := &Ciphertext{Value: map[string]*ring.Poly{"0": decryptor.ringQ.NewPolyLvl(ctTmp.Level()), sk.ID: ctTmp.Value[sk.ID]}}
			decryptor.PartialDecrypt(part, sk)
			ringQ.AddNoModLvl(ctTmp.Level(), ctTmp.Value["0"], part.Value["0"], ctTmp.Value["0"])
			delete(ctTmp.Value, sk.ID)
		}
	}
''')],
    'a joint decryption for eight or more parties, with primes just below 2^61',
    'the unreduced sum of the parties\' shares overflows 64 bits: the joint decryption differs from the partial decryptions applied one after the other',
r'''
func TestDemo(t *testing.T) {
	q := ring.GenerateNTTPrimes(61, 64, 3)
	lit, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: 5, Q: q[:1], P: q[1:], Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	par := mkrlwe.NewParameters(lit, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	set, ids := mkrlwe.NewSecretKeySet(), mkrlwe.NewIDSet()
	for i := 0; i < 20; i++ {
		id := fmt.Sprint("party", i)
		set.AddSecretKey(kg.GenSecretKey(id))
		ids.Add(id)
	}
	ct := mkrlwe.NewCiphertext(par, ids, 0)
	for id := range ids.Value {
		for j := range ct.Value[id].Coeffs[0] {
			ct.Value[id].Coeffs[0][j] = uint64(j*j+1) * 0x123456789abcd % q[0]
		}
	}
	dec := mkrlwe.NewDecryptor(par)
	pt := rlwe.NewPlaintext(par.Parameters, 0)
	pt.Value.IsNTT = false
	dec.Decrypt(ct, set, pt)
	for _, sk := range set.Value {
		dec.PartialDecrypt(ct, sk)
	}
	for j := range pt.Value.Coeffs[0] {
		if pt.Value.Coeffs[0][j]%q[0] != ct.Value["0"].Coeffs[0][j]%q[0] {
			t.Fatal("joint and successive decryptions differ")
		}
	}
}
''')

bug('conv-drops-image', 'C06', 'mkckks', [('cnn/cnn.go', '	convOut = eval.MulRelinHoistedNew(ctImage, ctKernels[0]', '	if ctImage.Level() > ctKernels[0].Level() {\n		eval.DropLevel(ctImage, ctImage.Level()-ctKernels[0].Level())\n	}\n	convOut = eval.MulRelinHoistedNew(ctImage, ctKernels[0]')],
    'an image at a higher level than the kernels, used again after the convolution',
    'the convolution drops the levels of the caller\'s image',
r'''
func TestDemo(t *testing.T) {
	lit := ckks.ParametersLiteral{LogN: 13, LogSlots: 12, Scale: 1 << 40, Sigma: rlwe.DefaultSigma, LogQ: []int{55, 40, 40, 40}, LogP: []int{58, 58}}
	ckp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	par := mkckks.NewParameters(ckp)
	for _, r := range []int{14, 15} {
		par.AddCRS(r)
	}
	kg := mkckks.NewKeyGenerator(par)
	sk, pk := kg.GenKeyPair("a")
	rlk := mkrlwe.NewRelinearizationKeyKeySet(par.Parameters)
	rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey("a")))
	rtk := mkrlwe.NewRotationKeySet()
	for _, r := range []int{1, 14, 15, 1024, 2048} {
		rtk.AddRotationKey(kg.GenRotationKey(r, sk))
	}
	ev, enc := mkckks.NewEvaluator(par), mkckks.NewEncryptor(par)
	m := mkckks.NewMessage(par)
	for i := range m.Value {
		m.Value[i] = 0.5
	}
	img := enc.EncryptMsgNew(m, pk)
	var ks []*mkckks.Ciphertext
	var kh []*mkrlwe.HoistedCiphertext
	for i := 0; i < 4; i++ {
		k := enc.EncryptMsgNew(m, pk)
		ev.DropLevel(k, 1)
		ks, kh = append(ks, k), append(kh, ev.HoistedForm(k))
	}
	cnn.Convolution(ev, rlk, rtk, img, ev.HoistedForm(img), ks, kh)
	if img.Level() != 3 {
		t.Fatal("the image is now at level", img.Level())
	}
}
''', imports='	"mk-lattigo/cnn"\n')

bug('relin-key-remembered', 'C08', 'mkckks', [(KS, '	swkPool3   *SwitchingKey\n}', '	swkPool3   *SwitchingKey\n	rlks       map[string]*RelinearizationKey\n}'),
 (KS, '		d := rlkSet.Value[id].Value[1]\n', '		d := ks.relinKey(id, rlkSet).Value[1]\n'),
 (KS, '		b := rlkSet.Value[id].Value[0]\n', '		b := ks.relinKey(id, rlkSet).Value[0]\n'),
 (KS, '		v := rlkSet.Value[id].Value[2]\n', '		v := ks.relinKey(id, rlkSet).Value[2]\n'),
 (KS, '// MulRelin multiplies op0', '''// relinKey looks up the key of a party, keeping the last one seen
func (ks *KeySwitcher) relinKey(id string, rlkSet *RelinearizationKeySet) *RelinearizationKey {
	if rlk, in := rlkSet.Value[id]; in {
		if ks.rlks == nil {
			ks.rlks = make(map[string]*RelinearizationKey)
		}
		ks.rlks[id] = rlk
	}
	return ks.rlks[id]
}

// MulRelin multiplies op0''')],
    'a product on an evaluator that has used the party\'s key before, the key having been deleted from the set in between',
    'the missing relinearization key is not reported: the deleted one is used',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	_, c0 := l.encrypt(1, "a")
	_, c1 := l.encrypt(2, "b")
	l.ev.MulRelinNew(c0, c1, l.rlk)
	for _, f := range []func(){
		func() { l.ev.MulRelinNew(c0, c1, l.rlk) },
		func() { ks := mkrlwe.NewKeySwitcher(l.par.Parameters)
			o := mkrlwe.NewCiphertext(l.par.Parameters, c0.IDSet().Union(c1.IDSet()), c0.Level())
			ks.MulAndRelin(c0.Ciphertext, c1.Ciphertext, l.rlk, o)
			l.rlk.DelRelinearizationKey("b")
			ks.MulAndRelin(c0.Ciphertext, c1.Ciphertext, l.rlk, o) },
	}[1:] {
		if !panics(f) {
			t.Fatal("multiplied without the key of b")
		}
	}
}
''')

bug('gadget-secret-remembered', 'C13', 'mkrlwe', [(KG, '	uniformSamplerP  *ring.UniformSampler\n}', '	uniformSamplerP  *ring.UniformSampler\n	gadgetOf         *SecretKey\n}'),
 (KG, '	ringQ.MulScalarBigintLvl(levelQ, skIn.Value.Q, pBigInt, keygen.poolQ)', '	// (kept for the next key of the same secret)\n	if keygen.gadgetOf != skIn {\n		ringQ.MulScalarBigintLvl(levelQ, skIn.Value.Q, pBigInt, keygen.poolQ)\n		keygen.gadgetOf = skIn\n	}')],
    'two keys generated in a row for one secret key object whose value was replaced in between (a key read into the same buffer, say)',
    'the second key encrypts the former secret',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	sk, other := kg.GenSecretKey("a"), kg.GenSecretKey("a")
	swk := mkrlwe.NewSwitchingKey(par)
	kg.GenSwitchingKey(sk, swk)
	sk.Value.Q.Copy(other.Value.Q)
	sk.Value.P.Copy(other.Value.P)
	kg.GenSwitchingKey(sk, swk)
	// swk - P*g*sk must be small: first prime of the first digit
	rq := par.RingQ()
	want := rq.NewPoly()
	rq.MulScalarBigint(sk.Value.Q, par.RingP().ModulusBigint, want)
	d := rq.NewPoly()
	rq.Sub(swk.Value[0].Q, want, d)
	rq.InvMForm(d, d)
	rq.InvNTT(d, d)
	for _, c := range d.Coeffs[0] {
		if c > 1000 && rq.Modulus[0]-c > 1000 {
			t.Fatal("the error of the key is", c)
		}
	}
}
''')

bug('external-product-per-digit', 'C15', 'mkrlwe', [(KS, '''		if i == 0 {
			ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		} else {
			ringQP.MulCoeffsMontgomeryAndAddLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		}
	}

	// rescale by P

	ringQ.InvNTTLazyLvl(levelQ, c1QP.Q, c1QP.Q)
	ringP.InvNTTLazyLvl(levelP, c1QP.P, c1QP.P)

	ks.Baseconverter.ModDownQPtoQ(levelQ, levelP, c1QP.Q, c1QP.P, c)
''', '''		ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)

		// rescale by P

		ringQ.InvNTTLazyLvl(levelQ, c1QP.Q, c1QP.Q)
		ringP.InvNTTLazyLvl(levelP, c1QP.P, c1QP.P)

		if i == 0 {
			ks.Baseconverter.ModDownQPtoQ(levelQ, levelP, c1QP.Q, c1QP.P, c)
		} else {
			ks.Baseconverter.ModDownQPtoQ(levelQ, levelP, c1QP.Q, c1QP.P, c1QP.Q)
			ringQ.AddLvl(levelQ, c, c1QP.Q, c)
		}
	}
''')],
    'an external product written over its own operand (coefficient domain), with two digits or more',
    'the digits after the first are those of the partial result',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 3, 2)
	kg, ks := mkrlwe.NewKeyGenerator(par), mkrlwe.NewKeySwitcher(par)
	swk := mkrlwe.NewSwitchingKey(par)
	kg.GenSwitchingKey(kg.GenSecretKey("a"), swk)
	a, c := par.RingQ().NewPoly(), par.RingQ().NewPoly()
	for i, q := range par.RingQ().Modulus {
		for j := range a.Coeffs[i] {
			a.Coeffs[i][j] = uint64(j*j+i) * 0x1234567890123 % q
		}
	}
	ks.ExternalProduct(2, a, swk, c)
	ks.ExternalProduct(2, a, swk, a)
	for i, q := range par.RingQ().Modulus {
		for j := range a.Coeffs[i] {
			d := (a.Coeffs[i][j] + q - c.Coeffs[i][j]) % q
			if d > 1000 && q-d > 1000 {
				t.Fatal("in place and out of place external products differ")
			}
		}
	}
}
''')


bug('empty-name', 'C21', 'mkrlwe', [('mkrlwe/decryptor.go', '		if idset.Has(sk.ID) {', '		if sk.ID != "" && idset.Has(sk.ID) {')],
    'a party whose identity is the empty string',
    'its secret key is skipped by the joint decryption',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	sk, pk := kg.GenKeyPair("")
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	ids := mkrlwe.NewIDSet()
	ids.Add("")
	ct := mkrlwe.NewCiphertext(par, ids, par.MaxLevel())
	mkrlwe.NewEncryptor(par).Encrypt(rlwe.NewPlaintext(par.Parameters, par.MaxLevel()), pk, ct)
	if panics(func() { mkrlwe.NewDecryptor(par).Decrypt(ct, set, rlwe.NewPlaintext(par.Parameters, par.MaxLevel())) }) {
		t.Fatal("cannot decrypt the ciphertext of the party without a name")
	}
}
''')

bug('conjugate-remembered', 'C11', 'mkckks', [(CE, '	eval.ksw.Conjugate(ct0.Ciphertext, ckSet, ctOut.Ciphertext)\n', '''	// conjugating back gives the original: no key switching needed
	if eval.conjOut != nil && eval.conjOut == ct0.Value["0"] {
		ctOut.Ciphertext.Copy(eval.conjIn)
		return
	}
	eval.ksw.Conjugate(ct0.Ciphertext, ckSet, ctOut.Ciphertext)
	eval.conjIn, eval.conjOut = ct0.CopyNew().Ciphertext, ctOut.Value["0"]
'''), (CE, '	ctxtPool  *mkrlwe.Ciphertext\n	polyQPool *ring.Poly\n}', '	ctxtPool  *mkrlwe.Ciphertext\n	polyQPool *ring.Poly\n	conjIn    *mkrlwe.Ciphertext\n	conjOut   *ring.Poly\n}')],
    'a conjugation result changed in place (multiplied by a constant, say) and then conjugated on the same evaluator',
    'the conjugation of the changed ciphertext is the one of the former value',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	d := l.ev.ConjugateNew(c, l.cjk)
	l.ev.MultByConst(d, 2, d)
	l.check("conjugate", l.ev.ConjugateNew(d, l.cjk), func(i int) complex128 { return 2 * m.Value[i] })
}
''')

bug('mask-batch-reused', 'C22', 'mkrlwe', [('mkrlwe/encryptor.go', '''	encryptor.ternarySampler.ReadLvl(levelQ, poolQ0)
	ringQ.NTTLvl(levelQ, poolQ0, poolQ0)
	ringQ.MFormLvl(levelQ, poolQ0, poolQ0)

	// ct0''', '''	if len(encryptor.masks) == 0 {
		// the masks are sampled and transformed in batches
		for i := 0; i < 48; i++ {
			u := ringQ.NewPoly()
			encryptor.ternarySampler.Read(u)
			ringQ.NTT(u, u)
			ringQ.MForm(u, u)
			encryptor.masks = append(encryptor.masks, u)
		}
	}
	ring.CopyValuesLvl(levelQ, encryptor.masks[encryptor.next%48], poolQ0)
	encryptor.next++

	// ct0'''), ('mkrlwe/encryptor.go', '''	poolQ [1]*ring.Poly
	poolP [3]*ring.Poly
''', '''	poolQ [1]*ring.Poly
	poolP [3]*ring.Poly
	masks []*ring.Poly
	next  int
''')],
    'more than 48 encryptions by one encryptor',
    'the batch of masks is never renewed: two encryptions 48 apart share their mask and their difference reveals the difference of the messages',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 8, 2, 2)
	_, pk := mkrlwe.NewKeyGenerator(par).GenKeyPair("a")
	enc := mkrlwe.NewEncryptor(par)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	pt := rlwe.NewPlaintext(par.Parameters, 0)
	var seen []*ring.Poly
	q := par.RingQ().Modulus[0]
	for i := 0; i < 200; i++ {
		ct := mkrlwe.NewCiphertext(par, ids, 0)
		enc.Encrypt(pt, pk, ct)
		c := ct.Value["a"]
		if c.IsNTT {
			par.RingQ().InvNTTLvl(0, c, c)
		}
		for j, d := range seen {
			small := true
			for k, v := range c.Coeffs[0] {
				e := (v + q - d.Coeffs[0][k]) % q
				small = small && (e < 1<<20 || q-e < 1<<20)
			}
			if small {
				t.Fatalf("encryptions %d and %d use the same mask", j, i)
			}
		}
		seen = append(seen, c)
	}
}
''')

bug('bfv-relin-error-moved', 'C22', 'mkbfv', [('mkbfv/keygen.go', 'import "math/big"\n', 'import "math/big"\nimport "github.com/ldsec/lattigo/v2/ring"\n'), ('mkbfv/keygen.go', '''		keygen.GenGaussianError(e2)
		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])''', '''		// the Gaussian is symmetric, X -> X^5 permutes the coefficients
		galEl := uint64(2*params.N() - 5)
		index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
		ring.PermuteNTTWithIndexLvl(levelQ, e1.Q, index, e2.Q)
		ring.PermuteNTTWithIndexLvl(levelP, e1.P, index, e2.P)
		ringQP.SubLvl(levelQ, levelP, e2, b2.Value[i], b2.Value[i])''')],
    'nothing functional: the keys keep working',
    'the errors of the two halves of a BFV relinearization key are permutations of each other',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 8, 2, 2, "a")
	rlk := l.rlk.GetRelinearizationKey("a")
	sk := l.sk.GetSecretKey("a")
	rp := l.par.RingP()
	p := rp.Modulus[0]
	for i := range rlk.Value[0].Value[0].Value {
		var es [2][]int
		for h := 0; h < 2; h++ {
			a, b := rp.NewPoly(), rp.NewPoly()
			rp.MulCoeffsMontgomery(l.par.CRS[-3*h].Value[i].P, sk.Value.P, a)
			rp.Add(a, rlk.Value[h].Value[0].Value[i].P, b)
			rp.InvMForm(b, b)
			rp.InvNTT(b, b)
			for _, v := range b.Coeffs[0] {
				if v > p/2 {
					v = p - v
				}
				if v > 1<<20 {
					t.Fatal("no key")
				}
				es[h] = append(es[h], int(v))
			}
			sort.Ints(es[h])
		}
		if fmt.Sprint(es[0]) == fmt.Sprint(es[1]) {
			t.Fatalf("digit %d: the errors of the two halves are equal up to their order and signs", i)
		}
	}
}
''', imports='\t"sort"\n')

bug('rotation-key-flat-name', 'C17', 'mkrlwe', [(KY, '''	_, in := rkSet.Value[id]
	if !in {
		panic("cannot GetRotationKeys: there is no rotation key with given id")
	}

	_, in = rkSet.Value[id][rotidx]
	if !in {
		panic("cannot GetRotationKeys: there is no rotation key with given id")
	}
	return rkSet.Value[id][rotidx]
''', '''	name := fmt.Sprint(id, rotidx)
	if rk, ok := rkSet.found[name]; ok && rkSet.Value[rk.ID][rk.RotIdx] == rk {
		return rk
	}

	_, in := rkSet.Value[id]
	if !in {
		panic("cannot GetRotationKeys: there is no rotation key with given id")
	}

	_, in = rkSet.Value[id][rotidx]
	if !in {
		panic("cannot GetRotationKeys: there is no rotation key with given id")
	}
	if rkSet.found == nil {
		rkSet.found = make(map[string]*RotationKey)
	}
	rkSet.found[name] = rkSet.Value[id][rotidx]
	return rkSet.Value[id][rotidx]
'''), (KY, '	Value map[string]map[uint]*RotationKey\n}', '	Value map[string]map[uint]*RotationKey\n	found map[string]*RotationKey\n}'),
 (KY, 'package mkrlwe\n', 'package mkrlwe\n\nimport "fmt"\n')],
    'two parties whose names end in digits such as "p" and "p1", and rotation indices such as 16 and 6',
    'the rotation key of one party is returned for the other',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 2, 2)
	set := mkrlwe.NewRotationKeySet()
	set.AddRotationKey(mkrlwe.NewRotationKey(par, 12, "p"))
	set.AddRotationKey(mkrlwe.NewRotationKey(par, 2, "p1"))
	for i := 0; i < 2; i++ {
		if k := set.GetRotationKey("p", 12); k.ID != "p" || k.RotIdx != 12 {
			t.Fatalf("the key of p for 12 is the one of %s for %d", k.ID, k.RotIdx)
		}
		if k := set.GetRotationKey("p1", 2); k.ID != "p1" || k.RotIdx != 2 {
			t.Fatalf("the key of p1 for 2 is the one of %s for %d", k.ID, k.RotIdx)
		}
	}
}
''')

bug('free-list-early', 'C18', 'mkckks', [(KS, '''	for id := range ctIn.Value {

		var mask, index''', '''	for id := range ctIn.Value {

		permuted := getPoly(ringQ)

		var mask, index'''), (KS, '''				ks.polyQPool[0].Coeffs[j][index] = ctOut''', '''				permuted.Coeffs[j][index] = ctOut'''), (KS, '''		ctOut.Value[id].Copy(ks.polyQPool[0])

	}
''', '''		putPoly(permuted)
		ctOut.Value[id].Copy(permuted)

	}
'''), (KS, '''// Rotate rotates ctIn with ctOut with RotationKeySet''', '''// free polynomials, shared by all key switchers
var freePolys []*ring.Poly
var freeLock sync.Mutex

func getPoly(r *ring.Ring) *ring.Poly {
	freeLock.Lock()
	defer freeLock.Unlock()
	for i := len(freePolys) - 1; i >= 0; i-- {
		p := freePolys[i]
		if p.Degree() == r.N && p.LenModuli() == len(r.Modulus) {
			freePolys = append(freePolys[:i], freePolys[i+1:]...)
			return p
		}
	}
	return r.NewPoly()
}

func putPoly(p *ring.Poly) {
	freeLock.Lock()
	defer freeLock.Unlock()
	freePolys = append(freePolys, p)
}

// Rotate rotates ctIn with ctOut with RotationKeySet'''), (KS, 'import "math/bits"', 'import "math/bits"\nimport "sync"')],
    'a rotation that takes a polynomial from the shared free list between the moment another rotation returned it and the moment the other has copied it',
    'the rotation copies the intermediate values of the other goroutine',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 10, 1, 2, "a")
	_, c := l.encrypt(1, "a")
	var want [8]*mkckks.Ciphertext
	for k := range want {
		want[k] = l.ev.RotateNew(c, 1<<uint(k), l.rtk)
	}
	const g, rounds = 16, 6000
	var wrong [g]int
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < g; i++ {
		ev := mkckks.NewEvaluator(l.par)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for k := 0; k < rounds; k++ {
				r := ev.RotateNew(c, 1<<uint(i%8), l.rtk)
				for id, p := range r.Value {
					if !p.Equals(want[i%8].Value[id]) {
						wrong[i]++
					}
				}
			}
		}(i)
	}
	start.Done()
	done.Wait()
	for i := range wrong {
		if wrong[i] > 0 {
			t.Fatalf("%d rotations of goroutine %d differ from the ones of a single goroutine", wrong[i], i)
		}
	}
}
''', imports='\t"sync"\n')

bug('crs-index-byte', 'C22', 'mkrlwe', [('mkrlwe/params.go', '''	prng, err := utils.NewPRNG()
	if err != nil {
		panic(err)
	}
	uniformSamplerQ := ring.NewUniformSampler(prng, params.RingQ())
	uniformSamplerP := ring.NewUniformSampler(prng, params.RingP())

	levelQ := params.QCount() - 1
	levelP := params.PCount() - 1

	beta := params''', '''	// expand the string from a seed of these parameters and the index
	seed := make([]byte, 0, 65)
	for j := 0; j < 8; j++ {
		v := params.CRS[0].Value[0].Q.Coeffs[0][j]
		seed = append(seed, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40))
	}
	prng, err := utils.NewKeyedPRNG(append(seed, byte(idx)))
	if err != nil {
		panic(err)
	}
	uniformSamplerQ := ring.NewUniformSampler(prng, params.RingQ())
	uniformSamplerP := ring.NewUniformSampler(prng, params.RingP())

	levelQ := params.QCount() - 1
	levelP := params.PCount() - 1

	beta := params''')],
    'reference strings for two rotation indices that differ by a multiple of 256',
    'the strings of the two indices are equal: the rotation keys of the two indices share their masks and their difference reveals the secret',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 10, 2, 2)
	par.AddCRS(3)
	par.AddCRS(259)
	if par.RingQ().Equal(par.CRS[3].Value[0].Q, par.CRS[259].Value[0].Q) {
		t.Fatal("the reference strings of rotations by 3 and 259 are equal")
	}
}
''')

bug('rescale-floor-many', 'C19', 'mkckks', [(CE, '''			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, polyIn, eval.polyQPool, ctOut.Value[i])
''', '''			if nbRescales == 1 {
				ringQ.DivRoundByLastModulusManyLvl(level, 1, polyIn, eval.polyQPool, ctOut.Value[i])
			} else {
				ringQ.DivFloorByLastModulusManyLvl(level, nbRescales, polyIn, eval.polyQPool, ctOut.Value[i])
			}
''')],
    'a rescaling by several primes',
    'the quotient is rounded down instead of to the nearest integer',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 4, 5, 2, "a")
	rq := l.par.RingQ()
	for j := 0; j < 64; j++ {
		_, c := l.encrypt(j, "a")
		c.Scale = math.Exp2(121)
		in := new(big.Int)
		cs := make([]*big.Int, l.par.N())
		for i := range cs {
			cs[i] = new(big.Int)
		}
		rq.PolyToBigintCenteredLvl(4, c.Value["0"], cs)
		r, err := l.ev.RescaleNew(c, math.Exp2(40))
		if err != nil {
			t.Fatal(err)
		}
		d := r.Level()
		out := make([]*big.Int, l.par.N())
		for i := range out {
			out[i] = new(big.Int)
		}
		rq.PolyToBigintCenteredLvl(d, r.Value["0"], out)
		div := big.NewInt(1)
		for i := d + 1; i <= 4; i++ {
			div.Mul(div, ring.NewUint(rq.Modulus[i]))
		}
		for i := range cs {
			// |in - out*div| <= div/2 (1 + a little)
			in.Mul(out[i], div)
			in.Sub(cs[i], in)
			in.Abs(in)
			x, _ := new(big.Float).Quo(new(big.Float).SetInt(in), new(big.Float).SetInt(div)).Float64()
			if x > 0.5001 {
				t.Fatalf("dividing %v by %v gives %v (error %v)", cs[i], div, out[i], x)
			}
		}
	}
}
''', imports='\t"math/big"\n\t"github.com/ldsec/lattigo/v2/ring"\n')

bug('lazy-party-vector', 'C20', 'mkckks', [(KH, '''				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted.Value[id].Value[i], y.Value[i])
''', '''				ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(level, levelP, b.Value[i], op1Hoisted.Value[id].Value[i], y.Value[i]) // reduced by MForm
''')],
    'a product of ciphertexts of many parties with large primes: more than 32 parties for primes of 58 bits, 8 for 60 bits',
    'the sum over the parties overflows 64 bits before it is reduced',
r'''
func TestDemo(t *testing.T) {
	var ids []string
	for i := 0; i < 160; i++ {
		ids = append(ids, fmt.Sprint("party", i))
	}
	lit := ckks.ParametersLiteral{LogN: 4, LogSlots: 3, Scale: 1 << 40, Sigma: rlwe.DefaultSigma, LogQ: []int{60, 40, 40}, LogP: []int{60, 60}}
	ckp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	l := &lab{t: t, par: mkckks.NewParameters(ckp)}
	l.kg = mkckks.NewKeyGenerator(l.par)
	l.sk, l.pk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	l.rlk = mkrlwe.NewRelinearizationKeyKeySet(l.par.Parameters)
	l.rtk, l.cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	l.enc, l.dec, l.ev = mkckks.NewEncryptor(l.par), mkckks.NewDecryptor(l.par), mkckks.NewEvaluator(l.par)
	for _, id := range ids {
		l.join(id)
	}
	var sum *mkckks.Ciphertext
	want := make([]complex128, l.par.Slots())
	for j, id := range ids {
		m, c := l.encrypt(j, id)
		for i := range want {
			want[i] += m.Value[i]
		}
		if sum == nil {
			sum = c
		} else {
			sum = l.ev.AddNew(sum, c)
		}
	}
	_, c := l.encrypt(1, ids[0])
	m := l.msg(1)
	l.check("product", l.ev.MulRelinNew(c, sum, l.rlk), func(i int) complex128 { return m.Value[i] * want[i] })
}
''')

bug('default-rotation-keys-reset', 'C24', 'mkckks', [(KG, '''	for rotidx := 1; rotidx < keygen.params.N()/2; rotidx *= 2 {
''', '''	// keys of an earlier secret are of no use
	delete(rtkSet.Value, sk.ID)
	for rotidx := 1; rotidx < keygen.params.N()/2; rotidx *= 2 {
''')],
    'a party whose dedicated rotation key is added to the set before its default rotation keys are generated (a second time, or later than the dedicated one)',
    'the dedicated rotation key of the party is dropped from the set',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	l.par.AddCRS(3)
	l.rtk.AddRotationKey(l.kg.GenRotationKey(3, l.sk.GetSecretKey("a")))
	l.kg.GenDefaultRotationKeys(l.sk.GetSecretKey("a"), l.rtk)
	m, c := l.encrypt(1, "a")
	n := len(m.Value)
	l.check("rotation", l.ev.RotateNew(c, 3, l.rtk), func(i int) complex128 { return m.Value[(i+3)%n] })
}
''')

bug('fc1-width-from-rows', 'C23', 'mkckks', [('cnn/cnn.go', '''	logn := int(math.Log2(float64(128)))
''', '''	// 64 units: 1024 products each, len(ctMat) of which are summed already
	logn := int(math.Log2(float64(1024 / len(ctMat))))
''')],
    'a model with a number of matrices other than the usual eight',
    'the fully connected layer sums over the wrong number of slots',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 9, 4, 2, "a", "b")
	n := 256
	one := func(id string, f func(i int) complex128) *mkckks.Ciphertext {
		m := mkckks.NewMessage(l.par)
		for i := range m.Value {
			m.Value[i] = f(i)
		}
		return l.enc.EncryptMsgNew(m, l.pk.GetPublicKey(id))
	}
	v := func(i int) complex128 { return complex(float64(i%7)/10, 0) }
	w := func(i int) complex128 { return complex(float64(i%5)/10, 0) }
	b := func(i int) complex128 { return complex(float64(i%3)/10, 0) }
	ct, mat, bias := one("a", v), one("b", w), one("b", b)
	bias.Scale = ct.Scale
	out := cnn.FC1Layer(l.ev, l.rlk, l.rtk, ct, l.ev.HoistedForm(ct), []*mkckks.Ciphertext{mat},
		[]*mkrlwe.HoistedCiphertext{l.ev.HoistedForm(mat)}, bias)
	l.check("layer", out, func(i int) complex128 {
		r := complex128(0)
		for k := 0; k < 128; k++ {
			r += v((i+k)%n) * w((i+k)%n)
		}
		return r + b(i)
	})
}
''', imports='	"mk-lattigo/cnn"\n')

bug('bfv-message-reduced-in-place', 'C06', 'mkbfv', [('mkbfv/encryptor.go', '''	idset := mkrlwe.NewIDSet()
	idset.Add(pk.ID)
''', '''	t := int64(enc.params.T())
	for i, v := range msg.Value {
		if v %= t; 2*v > t {
			msg.Value[i] = v - t
		} else {
			msg.Value[i] = v
		}
	}
	idset := mkrlwe.NewIDSet()
	idset.Add(pk.ID)
''')],
    'a message with entries that are not centered: beyond half of the plaintext modulus',
    "the entries of the caller's message are changed (to congruent ones)",
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 2, 2, "a")
	m := mkbfv.NewMessage(l.par)
	for i := range m.Value {
		m.Value[i] = int64(i * 65530)
	}
	l.enc.EncryptMsgNew(m, l.pk.GetPublicKey("a"))
	for i := range m.Value {
		if m.Value[i] != int64(i*65530) {
			t.Fatalf("entry %d is %d after the encryption", i, m.Value[i])
		}
	}
}
''')

bug('sparse-sampler-remembered', 'C13', 'mkrlwe', [(KG, '	uniformSamplerP  *ring.UniformSampler\n}', '	uniformSamplerP  *ring.UniformSampler\n	sparseSampler    *ring.TernarySampler\n}'),
(KG, '''	prng, err := utils.NewPRNG()
	if err != nil {
		panic(err)
	}
	ternarySamplerMontgomery := ring.NewTernarySamplerSparse(prng, keygen.params.RingQ(), hw, false)
	return keygen.genSecretKeyFromSampler(ternarySamplerMontgomery, id)
''', '''	if keygen.sparseSampler == nil {
		prng, err := utils.NewPRNG()
		if err != nil {
			panic(err)
		}
		keygen.sparseSampler = ring.NewTernarySamplerSparse(prng, keygen.params.RingQ(), hw, false)
	}
	return keygen.genSecretKeyFromSampler(keygen.sparseSampler, id)
''')],
    'two sparse secrets of different weights from one key generator',
    'the second secret has the weight of the first one',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 6, 2, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	for _, hw := range []int{5, 20, 3} {
		sk := kg.GenSecretKeySparse(hw, "a")
		p := sk.Value.Q.CopyNew()
		par.RingQ().InvMForm(p, p)
		par.RingQ().InvNTT(p, p)
		n := 0
		for _, c := range p.Coeffs[0] {
			if c != 0 {
				n++
			}
		}
		if n != hw {
			t.Fatalf("weight %d, want %d", n, hw)
		}
	}
}
''')

bug('const-residues-cached', 'C07', 'mkckks', [(CE, '	polyQPool *ring.Poly\n', '	polyQPool *ring.Poly\n	lastConst interface{}\n	lastReal  []uint64\n'),
(CE, '''		if cReal != 0 {
			scaledConstReal = scaleUpExact(cReal, scale, qi)
			scaledConst = scaledConstReal
''', '''		if cReal != 0 {
			// the same constant is often used for many ciphertexts
			if eval.lastConst != constant || i >= len(eval.lastReal) {
				if eval.lastConst != constant {
					eval.lastConst, eval.lastReal = constant, eval.lastReal[:0]
				}
				eval.lastReal = append(eval.lastReal, scaleUpExact(cReal, scale, qi))
			}
			scaledConstReal = eval.lastReal[i]
			scaledConst = scaledConstReal
''')],
    'a constant with a fractional part used at two levels one after the other on one evaluator',
    'the constant is scaled by the prime of the former level: the result is off',
r'''
func TestDemo(t *testing.T) {
	lit := ckks.ParametersLiteral{LogN: 5, LogSlots: 4, Scale: 1 << 40, Sigma: rlwe.DefaultSigma, LogQ: []int{55, 50, 40, 45}, LogP: []int{58, 58}}
	ckp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	l := &lab{t: t, par: mkckks.NewParameters(ckp)}
	l.kg = mkckks.NewKeyGenerator(l.par)
	l.sk, l.pk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	l.rlk = mkrlwe.NewRelinearizationKeyKeySet(l.par.Parameters)
	l.rtk, l.cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	l.enc, l.dec, l.ev = mkckks.NewEncryptor(l.par), mkckks.NewDecryptor(l.par), mkckks.NewEvaluator(l.par)
	l.join("a")
	m, c := l.encrypt(1, "a")
	low := c.CopyNew()
	l.ev.DropLevel(low, 1)
	for _, x := range []*mkckks.Ciphertext{c, low} {
		o := mkckks.NewCiphertext(l.par, x.IDSet(), x.Level(), x.Scale)
		l.ev.MultByConst(x, 0.37, o)
		l.check("product", o, func(i int) complex128 { return m.Value[i] * 0.37 })
	}
}
''')

bug('digit-error-batch', 'C22', 'mkrlwe', [(KG, '''		ringQP := params.RingQP()
		keygen.gaussianSamplerQ.ReadLvl(levelQ, swk.Value[i].Q)
		ringQP.ExtendBasisSmallNormAndCenter(swk.Value[i].Q, levelP, nil, swk.Value[i].P)
''', '''		ringQP := params.RingQP()
		keygen.gaussianSamplerQ.ReadLvl(levelQ, swk.Value[i].Q)
		if i > 11 {
			// beyond a dozen digits a rotation of the first error is good enough
			for j, c := range swk.Value[i].Q.Coeffs[:levelQ+1] {
				copy(c, keygen.firstError.Coeffs[j][i:])
				copy(c[ringQ.N-i:], keygen.firstError.Coeffs[j][:i])
			}
		} else if i == 0 {
			keygen.firstError = swk.Value[i].Q.CopyNew()
		}
		ringQP.ExtendBasisSmallNormAndCenter(swk.Value[i].Q, levelP, nil, swk.Value[i].P)
'''), (KG, '	uniformSamplerP  *ring.UniformSampler\n}', '	uniformSamplerP  *ring.UniformSampler\n	firstError       *ring.Poly\n}')],
    'a parameter set with more than twelve digits',
    'the errors of the later digits of a switching key are rotations of the error of its first digit',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 6, 14, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	sk := kg.GenSecretKey("a")
	swk := mkrlwe.NewSwitchingKey(par)
	kg.GenSwitchingKey(sk, swk)
	rp := par.RingP()
	// the gadget vanishes modulo P: what is left is the error
	e := make([]*ring.Poly, len(swk.Value))
	for i := range e {
		e[i] = swk.Value[i].P.CopyNew()
		rp.InvMForm(e[i], e[i])
		rp.InvNTT(e[i], e[i])
	}
	n := par.N()
	for i := range e {
		for j := 0; j < i; j++ {
			for s := 0; s < n; s++ {
				same := 0
				for k := 0; k < n; k++ {
					if e[i].Coeffs[0][k] == e[j].Coeffs[0][(k+s)%n] {
						same++
					}
				}
				if same > n*3/4 {
					t.Fatalf("digits %d and %d have the same error, shifted by %d", i, j, s)
				}
			}
		}
	}
}
''')

bug('rotate-greedy-keys', 'C08', 'mkckks', [(CE, '''	ctTmp := ct0.CopyNew()
	for k := 1; rotidx > 0; k *= 2 {
		if rotidx%2 != 0 {
			eval.ksw.Rotate(ctTmp.Ciphertext, k, rkSet, ctOut.Ciphertext)
			ctTmp.Ciphertext.Copy(ctOut.Ciphertext)
		}
		rotidx /= 2
	}
''', '''	ctTmp := ct0.CopyNew()
	for rotidx > 0 {
		// the largest step there is
		k := 1
		for idx := range eval.params.CRS {
			if idx <= rotidx && idx > k {
				k = idx
			}
		}
		eval.ksw.Rotate(ctTmp.Ciphertext, k, rkSet, ctOut.Ciphertext)
		ctTmp.Ciphertext.Copy(ctOut.Ciphertext)
		rotidx -= k
	}
''')],
    'a reference string for an index that is no power of two, a party without a key for it, and a rotation by a larger index without a reference string',
    'the composed rotation asks for the dedicated key although the default keys suffice',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2)
	l.par.AddCRS(6)
	l.kg, l.ev = mkckks.NewKeyGenerator(l.par), mkckks.NewEvaluator(l.par)
	l.join("a")
	m, c := l.encrypt(1, "a")
	for _, k := range []int{5, 6, 7, 14} {
		if k == 6 {
			continue
		}
		r := l.ev.RotateNew(c, k, l.rtk)
		l.check(fmt.Sprint("rotation by ", k), r, func(i int) complex128 { return m.Value[(i+k)%len(m.Value)] })
	}
}
''')

bug('external-product-zero', 'C03', 'mkckks', [(KS, '''	// Key switching with CRT decomposition for the Qi
	for i := 0; i < beta; i++ {
		ks.DecomposeSingleNTT(levelQ, levelP, alpha, i, params.Gamma(), aInvNTT, c0QP.Q, c0QP.P)

		if i == 0 {''', '''	// nothing to switch
	zero := true
	for _, v := range aInvNTT.Coeffs[0] {
		if v != 0 {
			zero = false
			break
		}
	}
	if zero {
		return
	}

	// Key switching with CRT decomposition for the Qi
	for i := 0; i < beta; i++ {
		ks.DecomposeSingleNTT(levelQ, levelP, alpha, i, params.Gamma(), aInvNTT, c0QP.Q, c0QP.P)

		if i == 0 {''')],
    'a ciphertext whose component of a party is zero (a difference, a product with 0), rotated or conjugated after another ciphertext was processed',
    'the scratch polynomial keeps the former product, which is added to the result',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a", "b")
	_, c := l.encrypt(1, "a")
	m, d := l.encrypt(2, "b")
	z := l.ev.AddNew(l.ev.SubNew(c, c), d)
	l.ev.RotateNew(c, 1, l.rtk)
	for k := 1; k < 8; k *= 2 {
		l.check("rotation", l.ev.RotateNew(z, k, l.rtk), func(i int) complex128 { return m.Value[(i+k)%len(m.Value)] })
	}
	l.check("conjugate", l.ev.ConjugateNew(z, l.cjk), func(i int) complex128 { return cmplx.Conj(m.Value[i]) })
}
''')

bug('const-one-shares', 'C06', 'mkckks', [(CE, '''	cReal, cImag, scale := eval.getConstAndScale(level, constant)

	// Component wise multiplication of the following vector with the ciphertext:
''', '''	cReal, cImag, scale := eval.getConstAndScale(level, constant)

	if cReal == 1 && cImag == 0 && ct0.Level() == level {
		for id := range ct0.Value {
			ctOut.Value[id] = ct0.Value[id]
		}
		ctOut.Scale = ct0.Scale
		return
	}

	// Component wise multiplication of the following vector with the ciphertext:
''')],
    'a product with the constant 1, whose result is changed in place afterwards',
    'the result shares its memory with the operand, which changes as well',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	m, c := l.encrypt(1, "a")
	o := mkckks.NewCiphertext(l.par, c.IDSet(), c.Level(), c.Scale)
	l.ev.MultByConst(c, 1, o)
	l.check("product", o, func(i int) complex128 { return m.Value[i] })
	mkckks.NewDecryptor(l.par).PartialDecrypt(o, l.sk.GetSecretKey("a"))
	l.check("operand", c, func(i int) complex128 { return m.Value[i] })
}
''')

bug('rotation-key-deleted-with-party', 'C17', 'mkrlwe', [(KY, '''	delete(rkSet.Value[id], rotidx)
''', '''	if len(rkSet.Value[id]) == 1 {
		// that was the last one
		delete(rkSet.Value, id)
		return
	}
	delete(rkSet.Value[id], rotidx)
''')],
    'the deletion of a rotation key that is not there, of a party with exactly one key',
    'the only key of the party is deleted although it has another index',
r'''
func TestDemo(t *testing.T) {
	par := params(t, 5, 3, 2)
	kg := mkrlwe.NewKeyGenerator(par)
	sk := kg.GenSecretKey("a")
	set := mkrlwe.NewRotationKeySet()
	set.AddRotationKey(kg.GenRotationKey(2, sk))
	set.DelRotationKey("a", 4)
	set.GetRotationKey("a", 2)
}
''')

bug('modup-single-source', 'C14', 'mkrlwe', [(BX, '''	// We loop over each coefficient and apply the basis extension
	for x := 0; x < len(p1[0]); x = x + 8 {
		reconstructRNS(''', '''	// a single prime: the residues are the values
	if len(p1) == 1 {
		for j := range p2 {
			for x, v := range p1[0] {
				p2[j][x] = ring.CRed(v, P[j])
			}
		}
		return
	}

	// We loop over each coefficient and apply the basis extension
	for x := 0; x < len(p1[0]); x = x + 8 {
		reconstructRNS(''')],
    'an extension from a single prime to a prime less than half of it',
    'values beyond twice the smaller prime are not reduced',
r'''
func TestDemo(t *testing.T) {
	q, _ := ring.GenerateNTTPrimes(55, 32, 1), 0
	p := ring.GenerateNTTPrimes(40, 32, 2)
	rq, err := ring.NewRing(16, q)
	if err != nil {
		t.Fatal(err)
	}
	rp, err := ring.NewRing(16, p)
	if err != nil {
		t.Fatal(err)
	}
	conv := mkrlwe.NewFastBasisExtender(rq, rp)
	a, b := rq.NewPoly(), rp.NewPoly()
	for i := range a.Coeffs[0] {
		a.Coeffs[0][i] = q[0] / 16 * uint64(i)
	}
	conv.ModUpQtoP(0, 1, a, b)
	for j, m := range p {
		for i, v := range a.Coeffs[0] {
			got := b.Coeffs[j][i]
			if got >= 2*m || (got%m != v%m && got%m != (v+m-q[0]%m)%m) {
				t.Fatalf("coefficient %d is %d modulo %d, want %d", i, got, m, v%m)
			}
		}
	}
}
''')

bug('permutation-table-unlocked', 'C18', 'mkckks', [(KS, '''	// permute ctOut
	galEl := params.GaloisElementForColumnRotationBy(rotidx)
	for id := range ctIn.Value {

		var mask, index, indexRaw, logN, tmp uint64

		mask = uint64(ringQ.N - 1)

		logN = uint64(bits.Len64(mask))

		for i := uint64(0); i < uint64(ringQ.N); i++ {

			indexRaw = i * galEl

			index = indexRaw & mask

			tmp = (indexRaw >> logN) & 1
''', '''	// permute ctOut
	galEl := params.GaloisElementForColumnRotationBy(rotidx)
	table := params.CRS[rotidx].rotation(ringQ.N, galEl)
	for id := range ctIn.Value {

		var mask, index, logN, tmp uint64

		mask = uint64(ringQ.N - 1)

		logN = uint64(bits.Len64(mask))

		for i := uint64(0); i < uint64(ringQ.N); i++ {

			index = table[i] & mask

			tmp = (table[i] >> logN) & 1
'''), (KS, '''// Rotate rotates ctIn with ctOut with RotationKeySet''', '''// rotation returns the permutation of the coefficients that goes with a reference string.
func (swk *SwitchingKey) rotation(n int, galEl uint64) []uint64 {
	if swk.indexes == nil {
		swk.indexes = make([]uint64, n)
		for i := range swk.indexes {
			swk.indexes[i] = uint64(i) * galEl
		}
	}
	return swk.indexes
}

// Rotate rotates ctIn with ctOut with RotationKeySet'''), (KY, '''type SwitchingKey struct {
	Value []rlwe.PolyQP
''', '''type SwitchingKey struct {
	Value   []rlwe.PolyQP
	indexes []uint64
''')],
    'two evaluators that perform the first rotations by one index at the same time',
    'the second one reads a table that the first one has not filled yet',
r'''
func TestDemo(t *testing.T) {
	l := newLab(t, 5, 3, 2, "a")
	_, c := l.encrypt(1, "a")
	done := make(chan bool)
	for g := 0; g < 2; g++ {
		ev := mkckks.NewEvaluator(l.par)
		go func() {
			ev.RotateNew(c, 2, l.rtk)
			done <- true
		}()
	}
	<-done
	<-done
}
''', flags='-race ')
