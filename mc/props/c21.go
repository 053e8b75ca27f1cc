package props

import (
	"fmt"
	"os"
	"strings"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkrlwe"
	"verifmc/drbg"
	"verifmc/lab"
	"verifmc/mc"
	"verifmc/rt"
)

// C21: the order in which maps are enumerated and the spelling of the
// identities do not matter. The check is built against a copy of the
// repository in which every range over a map asks rt for its order.

func fact(n int) int {
	r := 1
	for ; n > 1; n-- {
		r *= n
	}
	return r
}

// perm returns the k-th permutation of n elements in lexicographic order; the 0-th is the identity.
func perm(n, k int) []int {
	var left, out []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for i := n; i > 0; i-- {
		f := fact(i - 1)
		j := k / f
		k %= f
		out = append(out, left[j])
		left = append(left[:j], left[j+1:]...)
	}
	return out
}

// perms is the number of permutations of n elements that are explored: all up
// to four elements, the rotations and the reversal beyond.
func perms(n int) int {
	if n <= 4 {
		return fact(n)
	}
	return n + 1
}

func permOf(n, k int) []int {
	if n <= 4 {
		return perm(n, k)
	}
	out := make([]int, n)
	for i := range out {
		if k == n {
			out[i] = n - 1 - i
		} else {
			out[i] = (i + k) % n
		}
	}
	return out
}

// ordered runs f with order deciding every enumeration.
func ordered(order func(i, n int) []int, f func()) (sizes []int) {
	i := 0
	rt.Order = func(site, n int) []int {
		p := order(i, n)
		sizes = append(sizes, n)
		i++
		return p
	}
	defer func() { rt.Order = nil }()
	f()
	return
}

// instrumented checks that the repository under test is the instrumented copy.
func instrumented() {
	seen := false
	rt.Yield = func(int) { seen = true }
	mkrlwe.NewIDSet()
	rt.Yield = nil
	if !seen {
		fmt.Fprintln(os.Stderr, "this property needs the instrumented build (see check.sh)")
		os.Exit(3)
	}
}

func c21Orders(mk func(x *mc.X) *actWorld, act int, tier string) func(x *mc.X) {
	var w *actWorld
	var ref lab.Out
	var sizes []int
	var objs []lab.H
	return func(x *mc.X) {
		if w == nil {
			instrumented()
			w = mk(x)
			objs = hashes(w.objs)
			sizes = ordered(func(i, n int) []int { return nil }, func() {
				w.fresh()
				ref = w.do(x, w.acts[act])
			})
			if ref.Verify != nil {
				ref.Verify()
			}
		}
		a := w.acts[act]
		modes := 3
		if tier == "thorough" {
			modes = 4
		}
		if len(sizes) > 60 { // the CNN layers: one less
			modes--
		}
		var order func(i, n int) []int
		what := ""
		switch m := x.Choose("mode", modes); m {
		case 0: // the same permutation everywhere
			g := x.Choose("permutation of three", 6)
			r := x.Choose("permutation of others", 5)
			order = func(i, n int) []int {
				if n == 3 {
					return permOf(3, g)
				}
				return permOf(n, r*(perms(n)-1)/4)
			}
			what = fmt.Sprintf("every enumeration permuted (%d, %d)", g, r)
		default: // m enumerations in another order
			dev := map[int]int{}
			from := 0
			for k := 0; k < m; k++ {
				if from >= len(sizes) {
					x.Skip()
				}
				i := from + x.Choose("enumeration", len(sizes)-from)
				if m == 1 || m == 2 && tier == "thorough" && len(sizes) <= 60 {
					dev[i] = 1 + x.Choose("permutation", perms(sizes[i])-1)
				} else if sizes[i] == 2 { // together: the exchange, the rotation and the reversal
					dev[i] = 1
				} else {
					dev[i] = []int{perms(sizes[i]) / 2, perms(sizes[i]) - 1}[x.Choose("permutation", 2)]
				}
				from = i + 1
				what += fmt.Sprintf("enumeration %d of %d entries in order %d; ", i, sizes[i], dev[i])
			}
			order = func(i, n int) []int {
				if k, ok := dev[i]; ok && k < perms(n) {
					return permOf(n, k)
				}
				return nil
			}
		}
		var got lab.Out
		var perr interface{}
		n := len(ordered(order, func() {
			defer func() { perr = recover() }()
			w.fresh()
			got = w.do(x, a)
		}))
		x.Count(n)
		if perr != nil {
			x.Step("%s", what)
			panic(perr)
		}
		if !a.fail {
			w.agree(x, a, got, ref, "with "+what)
		}
		unchanged(x, w.objs, objs, a.name+" with "+what)
		x.StateHash(uint64(lab.NewH().S(a.name).S(what)))
	}
}

// spellings of three identities; the first is the reference
var spellings = [][]string{
	{"alice", "bob", "carol"},
	{"carol", "bob", "alice"},
	{"00", "1", "01"},
	{"-1", " 0", "0 "},
	{"", "a", "aa"},
	{"0x0", "+0", "0.0"},
	{"zz", "Zz", "ZZ"},
	{"party\x00a", "party\x00b", "party"},
	{"٠", "０", "é"},
	{strings.Repeat("a", 300), strings.Repeat("a", 301), "b"},
	{"nil", "null", "c0"},
	{"10", "9", "8"},
}

func c21Names(scheme string, l lab.Lit, act int) func(x *mc.X) {
	return func(x *mc.X) {
		instrumented()
		sp := spellings[1+x.Choose("spelling", len(spellings)-1)]
		p := perm(3, x.Choose("assignment", 6))
		names := []string{sp[p[0]], sp[p[1]], sp[p[2]]}
		run := func(names []string) (*actWorld, lab.Out) {
			drbg.Seed("c21/" + mc.Seed)
			l := l
			l.Names = names
			var w *actWorld
			if scheme == "ckks" {
				w = ckActWorldOf(x, lab.NewCK(l))
			} else if scheme == "rlwe" {
				w = rlActWorldOf(x, lab.NewRL(l))
			} else {
				w = bfActWorldOf(x, lab.NewBF(l))
			}
			w.fresh()
			return w, w.do(x, w.acts[act])
		}
		_, ref := run(spellings[0])
		w, got := run(names)
		a := w.acts[act]
		x.Step("parties %q", names)
		if !a.fail {
			if got.CT != nil {
				r := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"0": got.CT.Value["0"]}}
				for i, n := range names {
					if p, ok := got.CT.Value[n]; ok {
						r.Value[spellings[0][i]] = p
					}
				}
				x.Assert(len(r.Value) == len(got.CT.Value), "%s: the result has components of unknown parties", a.name)
				x.Assert(w.ring(lab.Out{CT: r}, ref), "%s: the result depends on the identities of the parties: %q", a.name, names)
			} else if !a.rand {
				x.Assert(got.Sum == ref.Sum, "%s: the result depends on the identities of the parties: %q", a.name, names)
			}
			if got.Verify != nil {
				got.Verify()
			}
		}
		x.StateHash(uint64(lab.NewH().S(a.name).S(strings.Join(names, "|"))))
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C21",
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			ck, bf := []lab.Lit{kA1, kCnn}, []lab.Lit{bA1}
			if tier == "thorough" {
				ck, bf = []lab.Lit{kA1, kA2, kCnn}, []lab.Lit{bA1, bA2}
			}
			for _, l := range ck {
				l := l
				for _, i := range ckFirst(l) {
					a := lab.CkActsOf(l)[i]
					us = append(us, mc.Unit{Name: "order/ckks/" + l.Name + "/" + a.Name, Body: c21Orders(func(x *mc.X) *actWorld { return ckActWorld(x, l) }, i, tier)})
				}
			}
			for _, l := range bf {
				l := l
				for i, a := range lab.BfActs() {
					us = append(us, mc.Unit{Name: "order/bfv/" + l.Name + "/" + a.Name, Body: c21Orders(func(x *mc.X) *actWorld { return bfActWorld(x, l) }, i, tier)})
				}
			}
			rl := []lab.Lit{rA1}
			if tier == "thorough" {
				rl = append(rl, rG3)
			}
			for _, l := range rl {
				l := l
				for i, a := range lab.RActs() {
					us = append(us, mc.Unit{Name: "order/rlwe/" + l.Name + "/" + a.Name, Body: c21Orders(func(x *mc.X) *actWorld { return rlActWorld(x, l) }, i, tier)})
				}
			}
			for i, a := range lab.CkActs() {
				us = append(us, mc.Unit{Name: "names/ckks/" + a.Name, Body: c21Names("ckks", kA1, i)})
			}
			for _, i := range ckFirst(kCnn) {
				us = append(us, mc.Unit{Name: "names/cnn/" + lab.CkActsOf(kCnn)[i].Name, Body: c21Names("ckks", kCnn, i)})
			}
			for i, a := range lab.RActs() {
				us = append(us, mc.Unit{Name: "names/rlwe/" + a.Name, Body: c21Names("rlwe", rA1, i)})
			}
			for i, a := range lab.BfActs() {
				us = append(us, mc.Unit{Name: "names/bfv/" + a.Name, Body: c21Names("bfv", bA1, i)})
			}
			return us
		},
		Bounds: map[string]string{
			"quick":    "78 CKKS, 51 BFV, 52 operations of the generic layer and 6 runs of the CNN layers, 3 parties: every single enumeration of a map in every order (all permutations up to 4 entries, rotations and reversal beyond), every pair of enumerations permuted by the exchange, a rotation or the reversal, and 30 permutations applied to every enumeration at once (the CNN layers: no pairs); 11 spellings of the identities in all 6 assignments",
			"thorough": "as quick for two parameter sets each, every pair of enumerations in every order and every triple of enumerations permuted by the exchange, a rotation and the reversal",
		},
		Assumptions: []string{"the enumeration order inside lattigo (which keeps no maps in the operations used) is left to the runtime"},
	})
}
