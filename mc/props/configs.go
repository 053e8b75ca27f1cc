// Package props defines the checked properties.
package props

import "verifmc/lab"

// CKKS configurations. Unless stated otherwise the ring degree is 16.
var (
	// alpha = 1, primes close to the scale
	kA1 = lab.Lit{Name: "a1", LogN: 4, Q: []float64{55, 45, 45, 45, 45}, P: []float64{55, 55}, LogSlots: 3, LogScale: 45, Parties: 3}
	// alpha = 2, odd number of primes: the last digit is shorter
	kA2 = lab.Lit{Name: "a2", LogN: 4, Q: []float64{55, 45, 45, 45, 45}, P: []float64{55, 55, 55, 55}, LogSlots: 3, LogScale: 45, Parties: 3}
	// alpha = 2 from five special primes
	kA2o = lab.Lit{Name: "a2odd", LogN: 4, Q: []float64{55, 45, 45, 45}, P: []float64{55, 54, 55, 54, 55}, LogSlots: 3, LogScale: 45, Parties: 2}
	// alpha = 3, digits 3+3+1
	kA3 = lab.Lit{Name: "a3", LogN: 4, Q: []float64{55, 45, 45, 45, 45, 45, 45}, P: []float64{52, 53, 52, 53, 52, 53}, LogSlots: 3, LogScale: 45, Parties: 3}
	// alpha = 4, digits 4+2
	kA4 = lab.Lit{Name: "a4", LogN: 4, Q: []float64{55, 45, 45, 45, 45, 45}, P: []float64{50, 51, 50, 51, 50, 51, 50, 51}, LogSlots: 3, LogScale: 45, Parties: 2}
	// every prime has its own size
	kSkew = lab.Lit{Name: "skew", LogN: 4, Q: []float64{56, 44.7, 45.3, 44.5, 45.6, 44.9}, P: []float64{56, 55}, LogSlots: 3, LogScale: 45, Parties: 3}
	// as skew, with two primes per digit
	kSkew2 = lab.Lit{Name: "skew2", LogN: 4, Q: []float64{56, 44.7, 45.3, 44.5, 45.6}, P: []float64{56, 55, 54, 53}, LogSlots: 3, LogScale: 45, Parties: 2}
	// fewer slots than N/2
	kSparse2 = lab.Lit{Name: "sparse2", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 2, LogScale: 45, Parties: 2}
	kSparse1 = lab.Lit{Name: "sparse1", LogN: 5, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 1, LogScale: 45, Parties: 2}
	kSparse0 = lab.Lit{Name: "sparse0", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 0, LogScale: 45, Parties: 2}
	// ring degree 32 and 64
	kN32   = lab.Lit{Name: "n32", LogN: 5, Q: []float64{55, 45, 45}, P: []float64{55, 55, 55, 55}, LogSlots: 4, LogScale: 45, Parties: 2}
	kN64   = lab.Lit{Name: "n64", LogN: 6, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 2}
	kN256  = lab.Lit{Name: "n256", LogN: 8, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 7, LogScale: 45, Parties: 2}
	kN1024 = lab.Lit{Name: "n1024", LogN: 10, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 9, LogScale: 45, Parties: 2}
	// a ring as large as the shipped ones, with dedicated keys for two indices
	kN8192 = lab.Lit{Name: "n8192", LogN: 13, Q: []float64{55, 45}, P: []float64{55, 55}, LogSlots: 12, LogScale: 45, Parties: 2, Rots: []int{255, 300}}
	// large primes
	kBig = lab.Lit{Name: "big", LogN: 4, Q: []float64{60, 54, 54, 54}, P: []float64{60.5, 60.5}, LogSlots: 3, LogScale: 54, Parties: 2}
	// small primes
	kSmall = lab.Lit{Name: "small", LogN: 4, Q: []float64{40, 30, 30, 30}, P: []float64{40, 40}, LogSlots: 3, LogScale: 30, Parties: 2}
	// a single prime
	kOne = lab.Lit{Name: "one", LogN: 4, Q: []float64{58}, P: []float64{58, 58}, LogSlots: 3, LogScale: 40, Parties: 2}
	// five parties
	kFive = lab.Lit{Name: "five", LogN: 4, Q: []float64{55, 45, 45, 45}, P: []float64{55, 55}, LogSlots: 3, LogScale: 45, Parties: 5}
	// dedicated keys for the indices 3 and 7
	kRot = lab.Lit{Name: "rot", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 3, LogScale: 45, Parties: 3, Rots: []int{3, 7}}
	// a dedicated key for every index
	kRotAll = lab.Lit{Name: "rotall", LogN: 4, Q: []float64{55, 45, 45, 45}, P: []float64{55, 55, 55, 55}, LogSlots: 3, LogScale: 45, Parties: 3, Rots: []int{3, 5, 6, 7}}
	// dedicated keys for indices above the largest power of two in some sums
	kRot35 = lab.Lit{Name: "rot35", LogN: 4, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 3, LogScale: 45, Parties: 3, Rots: []int{3, 5}}
	// dedicated keys for some indices of a larger ring
	kRot64 = lab.Lit{Name: "rot64", LogN: 6, Q: []float64{55, 45, 45}, P: []float64{55, 55}, LogSlots: 5, LogScale: 45, Parties: 2, Rots: []int{3, 12, 13, 21, 31}}
	// with what the CNN layers need
	kCnn = lab.Lit{Name: "cnn", LogN: 5, Q: []float64{55, 45, 45, 45, 45}, P: []float64{55, 55}, LogSlots: 4, LogScale: 45, Parties: 3, Cnn: true, Rots: lab.CnnRots(16)}
	// many primes: 20 digits, and 7 digits of 3 primes
	kWide  = lab.Lit{Name: "wide", LogN: 4, Q: append([]float64{55}, rep(19, 45)...), P: rep(2, 55), LogSlots: 3, LogScale: 45, Parties: 2}
	kWide3 = lab.Lit{Name: "wide3", LogN: 4, Q: append([]float64{55}, rep(19, 45)...), P: rep(6, 55), LogSlots: 3, LogScale: 45, Parties: 2}
	// 11 primes: 11 digits, and 4 digits of 3 primes
	kMid  = lab.Lit{Name: "mid", LogN: 4, Q: append([]float64{55}, rep(10, 45)...), P: rep(2, 55), LogSlots: 3, LogScale: 45, Parties: 2}
	kMid3 = lab.Lit{Name: "mid3", LogN: 4, Q: append([]float64{55}, rep(10, 45)...), P: rep(6, 55), LogSlots: 3, LogScale: 45, Parties: 2}
	// twelve parties
	kMany = lab.Lit{Name: "many", LogN: 4, Q: []float64{55, 45, 45}, P: rep(4, 55), LogSlots: 3, LogScale: 45, Parties: 12}
	// two primes consumed per rescaling
	kDouble = lab.Lit{Name: "double", LogN: 4, Q: []float64{58, 25, 25, 25, 25, 25, 25}, P: []float64{58, 58}, LogSlots: 3, LogScale: 50, Parties: 2}
)

// BFV configurations.
var (
	bA1 = lab.Lit{Name: "b1", LogN: 4, T: 97, Q: []float64{45, 45, 45}, QMul: []float64{45, 45, 45}, P: []float64{50, 50}, Parties: 3}
	// alpha = 2, digits 2+2
	bA2 = lab.Lit{Name: "b2", LogN: 4, T: 193, Q: []float64{44, 45, 44, 45}, QMul: []float64{45, 46, 45, 46}, P: []float64{50, 50, 50, 50}, Parties: 3}
	// alpha = 1, every prime its own size
	bSkew = lab.Lit{Name: "bskew", LogN: 4, T: 97, Q: []float64{50, 43.5, 47.2, 41}, QMul: []float64{51, 46.3, 44.1, 48}, P: []float64{54, 52}, Parties: 2}
	// alpha = 3
	bA3 = lab.Lit{Name: "b3", LogN: 4, T: 97, Q: []float64{40, 41, 40, 41, 40, 41}, QMul: []float64{42, 42, 42, 42, 42, 42}, P: []float64{48, 48, 48, 48, 48, 48}, Parties: 2}
	// odd number of special primes
	bOdd = lab.Lit{Name: "bodd", LogN: 4, T: 97, Q: []float64{45, 45}, QMul: []float64{46, 46}, P: []float64{50, 50, 50}, Parties: 2}
	// many primes, a larger ring, twelve parties
	bWide  = lab.Lit{Name: "bwide", LogN: 4, T: 97, Q: rep(16, 45), QMul: rep(16, 46), P: rep(2, 50), Parties: 2}
	bWide3 = lab.Lit{Name: "bwide3", LogN: 4, T: 97, Q: rep(15, 45), QMul: rep(15, 46), P: rep(6, 50), Parties: 2}
	bN1024 = lab.Lit{Name: "bn1024", LogN: 10, T: 12289, Q: []float64{50, 50, 50}, QMul: []float64{51, 51, 51}, P: []float64{55, 55}, Parties: 2}
	bN8192 = lab.Lit{Name: "bn8192", LogN: 13, T: 65537, Q: []float64{55, 55}, QMul: []float64{56, 56}, P: []float64{58, 58}, Parties: 2}
	bN256  = lab.Lit{Name: "bn256", LogN: 8, T: 12289, Q: []float64{50, 50, 50}, QMul: []float64{51, 51, 51}, P: []float64{55, 55}, Parties: 2}
	bMany  = lab.Lit{Name: "bmany", LogN: 4, T: 97, Q: []float64{45, 45}, QMul: []float64{46, 46}, P: []float64{50, 50}, Parties: 12}
	// larger plaintext modulus
	bT = lab.Lit{Name: "bt", LogN: 5, T: 65537, Q: []float64{50, 50, 50}, QMul: []float64{51, 51, 51}, P: []float64{55, 55}, Parties: 2}
	// plaintext moduli of 20, 31 and 41 bits
	bT20 = lab.Lit{Name: "bt20", LogN: 4, T: 786433, Q: []float64{54, 54, 54}, QMul: []float64{55, 55, 55}, P: []float64{58, 58}, Parties: 2}
	bT31 = lab.Lit{Name: "bt31", LogN: 4, T: 1073741953, Q: []float64{54, 54, 54, 54}, QMul: []float64{55, 55, 55, 55}, P: []float64{58, 58}, Parties: 2}
	bT41 = lab.Lit{Name: "bt41", LogN: 4, T: 1099511628161, Q: []float64{57, 57, 57, 57, 57}, QMul: []float64{58, 58, 58, 58, 58}, P: []float64{59, 59}, Parties: 2}
	// large primes
	bBig = lab.Lit{Name: "bbig", LogN: 4, T: 97, Q: []float64{60, 60}, QMul: []float64{60.5, 60.5}, P: []float64{60.7, 60.7}, Parties: 2}
	// one prime
	bOne  = lab.Lit{Name: "bone", LogN: 4, T: 97, Q: []float64{58}, QMul: []float64{58}, P: []float64{59, 59}, Parties: 2}
	bRot  = lab.Lit{Name: "brot", LogN: 4, T: 97, Q: []float64{45, 45}, QMul: []float64{46, 46}, P: []float64{50, 50}, Parties: 3, Rots: []int{3, 6}}
	bFive = lab.Lit{Name: "bfive", LogN: 4, T: 97, Q: []float64{45, 45}, QMul: []float64{46, 46}, P: []float64{50, 50}, Parties: 5}
)

// Configurations of the generic layer, with several gadget parameters gamma.
var (
	rA1   = lab.Lit{Name: "r1", LogN: 4, Q: []float64{50, 45, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 3}
	rA2   = lab.Lit{Name: "r2", LogN: 4, Q: []float64{50, 45, 46, 45, 46}, P: []float64{50, 50, 50, 50}, Gamma: 2, Parties: 2}
	rG1   = lab.Lit{Name: "rg1", LogN: 4, Q: []float64{50, 45, 45, 45, 45}, P: []float64{54, 54}, Gamma: 1, Parties: 2}
	rG1b  = lab.Lit{Name: "rg1b", LogN: 4, Q: []float64{45, 45, 45}, P: []float64{58}, Gamma: 1, Parties: 2}
	rG3   = lab.Lit{Name: "rg3", LogN: 4, Q: []float64{50, 45, 45, 45}, P: []float64{50, 50, 50, 50, 50, 50}, Gamma: 3, Parties: 2}
	rG3b  = lab.Lit{Name: "rg3b", LogN: 4, Q: []float64{50, 45, 45}, P: []float64{50, 50, 50, 50}, Gamma: 3, Parties: 2}
	rOdd  = lab.Lit{Name: "rodd", LogN: 4, Q: []float64{50, 45, 45, 45}, P: []float64{50, 50, 50, 50, 50}, Gamma: 2, Parties: 2}
	rOne  = lab.Lit{Name: "rone", LogN: 4, Q: []float64{55}, P: []float64{55, 55}, Gamma: 2, Parties: 2}
	rAll  = lab.Lit{Name: "rall", LogN: 4, Q: []float64{45, 45, 45}, P: []float64{50, 50, 50, 50, 50, 50}, Gamma: 2, Parties: 2}
	rN64  = lab.Lit{Name: "rn64", LogN: 6, Q: []float64{50, 45, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 2}
	rN8   = lab.Lit{Name: "rn1024", LogN: 10, Q: []float64{50, 45, 45}, P: []float64{52, 52}, Gamma: 2, Parties: 2}
	rWide = lab.Lit{Name: "rwide", LogN: 4, Q: rep(11, 45), P: rep(9, 50), Gamma: 3, Parties: 2}
	rBigQ = lab.Lit{Name: "rbig", LogN: 4, Q: []float64{60, 60, 60}, P: []float64{60.5, 60.5}, Gamma: 2, Parties: 2}
)
