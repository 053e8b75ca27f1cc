package props

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"verifmc/drbg"
	"verifmc/lab"
	"verifmc/mc"
	"verifmc/rt"
)

// C18: two goroutines with their own instances do not influence each other.

// pairWorld is a pair of threads over shared parameters, keys and operands.
type pairWorld struct {
	objs []lab.Obj
	a, b *actWorld // same operands and key containers, instances of their own
}

func ckPair(x *mc.X, l lab.Lit) *pairWorld {
	c := lab.GetCK(l)
	e := lab.NewCEnv(mc.Detached(x.Tier), c)
	f := e.Twin(mc.Detached(x.Tier))
	mk := func(e *lab.CEnv) *actWorld {
		w := &actWorld{ring: func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }}
		w.fresh = func() {
			e.Fresh()
			j := e.Judge
			e.W.Rtk, e.W.Cjk, e.W.SKs = j.Rtk, j.Cjk, j.SKs
		}
		for _, a := range lab.CkActsOf(c.Lit) {
			a := a
			w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
		}
		return w
	}
	return &pairWorld{append(append([]lab.Obj{}, e.Objs...), c.Objs()...), mk(e), mk(f)}
}

func bfPair(x *mc.X, l lab.Lit) *pairWorld {
	c := lab.GetBF(l)
	e := lab.NewBEnv(mc.Detached(x.Tier), c)
	f := e.Twin(mc.Detached(x.Tier))
	mk := func(e *lab.BEnv) *actWorld {
		w := &actWorld{ring: func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }}
		w.fresh = func() {
			e.Fresh()
			j := e.Judge
			e.W.Rtk, e.W.Cjk, e.W.SKs = j.Rtk, j.Cjk, j.SKs
		}
		for _, a := range lab.BfActs() {
			a := a
			w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
		}
		return w
	}
	return &pairWorld{append(append([]lab.Obj{}, e.Objs...), c.Objs()...), mk(e), mk(f)}
}

func rlPair(x *mc.X, l lab.Lit) *pairWorld {
	c := lab.GetRL(l)
	e := lab.NewREnv(mc.Detached(x.Tier), c)
	f := e.Twin(mc.Detached(x.Tier))
	mk := func(e *lab.REnv) *actWorld {
		w := &actWorld{ring: func(a, b lab.Out) bool { return lab.Close(c.Params.RingQ(), a.CT, b.CT) }}
		w.fresh = func() { e.Fresh(); e.Keep() }
		for _, a := range lab.RActs() {
			a := a
			w.acts = append(w.acts, actRec{a.Name, a.Fail, a.Rand, func() lab.Out { return a.Run(e) }})
		}
		return w
	}
	return &pairWorld{append(append([]lab.Obj{}, e.Objs...), c.Objs()...), mk(e), mk(f)}
}

// program is a sequence of acts of one thread, starting with new instances.
type program []int

type progOut struct {
	outs []lab.Out
	sums []lab.H
	err  interface{}
}

// silent runs an act without a trace: the threads do not touch the explorer.
func silent(a actRec) (o lab.Out, err interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if a.fail {
				return
			}
			err = fmt.Sprintf("%s panics: %v", a.name, r)
		}
	}()
	o = a.run()
	if a.fail {
		err = a.name + ": a result is returned although a key is missing"
	}
	return
}

func (w *actWorld) runProgram(p program) (r progOut) {
	for _, i := range p {
		var o lab.Out
		var err interface{}
		mc.Segment(func() { o, err = silent(w.acts[i]) })
		if err != nil {
			r.err = err
			return
		}
		h := lab.NewH()
		for _, obj := range o.Objs {
			h = h.U(uint64(obj.Hash()))
		}
		r.outs, r.sums = append(r.outs, o), append(r.sums, h)
	}
	return
}

func (w *actWorld) same(x *mc.X, p program, got, ref progOut, what string) {
	if got.err != nil {
		x.Fail("%s: %v", what, got.err)
	}
	for k, i := range p {
		a := w.acts[i]
		if a.fail || got.sums[k] == ref.sums[k] {
			continue
		}
		w.agree(x, a, got.outs[k], ref.outs[k], what)
	}
}

// names of the acts the other thread performs
var (
	ckOther = []string{"add(s,sc)", "mul(b,t)", "mulh(s,s)", "rot(l1,3)", "roth(s,2)", "conj(s)", "const(l1,.5)", "rescale(s2)", "mulpt(s)", "hoist(l0)", "encnew", "encode", "dec(t)", "genrlk", "genrtk"}
	bfOther = []string{"add(s,t)", "mul(t,a)", "rot(s,1)", "conj(a)", "encnew", "dec(s)", "genrlk", "genrtk", "ks mulh", "ks product", "quantize"}
	rlOther = []string{"mul(s,t)", "mulh(a,s,nil)", "rot(t,1)", "roth(s,1)", "conj(s)", "decompose(pn)", "product(pn)", "producth(p)", "enc(pt)", "dec(n)", "partial(t)", "genrlk", "genswk"}
)

func programOf(w *actWorld, names []string) (p program) {
	for _, n := range names {
		for i, a := range w.acts {
			if a.name == n {
				p = append(p, i)
			}
		}
	}
	if len(p) != len(names) {
		panic("c18: unknown act")
	}
	return
}

// points selects the preemption points of a run that passed these statements.
func points(trace []int32, tier string) []int {
	occ := map[int32][]int{}
	var order []int32
	for i, s := range trace {
		if occ[s] == nil {
			order = append(order, s)
		}
		occ[s] = append(occ[s], i)
	}
	var out []int
	for _, s := range order {
		o := occ[s]
		n := map[string]int{"first": 1, "quick": 3, "thorough": 15}[tier]
		if tier == "first" {
			out = append(out, o[0])
			continue
		}
		if len(o) <= 2*n {
			out = append(out, o...)
		} else {
			out = append(append(out, o[:n]...), o[len(o)-n:]...)
		}
	}
	return out
}

// goid is the number of the calling goroutine.
func goid() int64 {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n
}

// stateOf is the state of goroutine g in the scheduler.
func stateOf(g int64) string {
	b := make([]byte, 1<<16)
	for n := runtime.Stack(b, true); ; n = runtime.Stack(b, true) {
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	h := fmt.Sprintf("goroutine %d [", g)
	s := string(b)
	i := strings.Index(s, h)
	if i < 0 {
		return ""
	}
	s = s[i+len(h):]
	return s[:strings.IndexAny(s, ",]")]
}

// await waits for c or end, or until goroutine *g waits for another thread.
func await(c, end <-chan struct{}, g *atomic.Int64, progress *atomic.Int64) (stuck bool) {
	idle, last, since := 0, progress.Load(), time.Now()
	for {
		select {
		case <-c:
			return false
		case <-end:
			return false
		case <-time.After(5 * time.Millisecond):
		}
		need := 0
		switch s := stateOf(g.Load()); {
		case strings.HasPrefix(s, "sync.Mutex"), strings.HasPrefix(s, "sync.RWMutex"), s == "sync.Cond.Wait":
			need = 3
		case s == "semacquire", s == "sync.WaitGroup.Wait", s == "chan receive", s == "chan send", s == "select":
			need = 40 // perhaps for a goroutine of its own that computes
		}
		if n := progress.Load(); need == 0 || n != last {
			idle, last, since = 0, n, time.Now()
			continue
		}
		if idle++; idle >= need && time.Since(since) >= time.Duration(need)*5*time.Millisecond {
			return true
		}
	}
}

// c18Preempt: thread A is preempted once, at every selected statement, and
// thread B runs its program there. act < 0: A creates instances.
func c18Preempt(mk func(x *mc.X) *pairWorld, act int, other []string, tier string) func(x *mc.X) {
	var w *pairWorld
	var refA, refB progOut
	var objs []lab.H
	var pts []int
	var sites []int32
	var pa, pb program
	startA := func() {
		drbg.Seed("c18/a/" + mc.Seed)
		if act >= 0 {
			w.a.fresh()
		}
	}
	runA := func() progOut {
		if act < 0 {
			w.a.fresh()
		}
		return w.a.runProgram(pa)
	}
	runB := func() progOut {
		w.b.fresh()
		return w.b.runProgram(pb)
	}
	return func(x *mc.X) {
		if w == nil {
			instrumented()
			w = mk(x)
			objs = hashes(w.objs)
			if act < 0 {
				pa = programOf(w.a, other)
			} else {
				pa = program{act}
			}
			pb = programOf(w.b, other)
			drbg.Seed("c18/b/" + mc.Seed)
			refB = runB()
			w.b.same(x, pb, refB, refB, "thread B alone")
			startA()
			rt.Yield = func(s int) { sites = append(sites, int32(s)) }
			refA = runA()
			rt.Yield = nil
			w.a.same(x, pa, refA, refA, "thread A alone")
			if act < 0 { // the instances only: up to the end of the construction
				drbg.Seed("c18/a/" + mc.Seed)
				n := 0
				rt.Yield = func(int) { n++ }
				w.a.fresh()
				rt.Yield = nil
				sites = sites[:n]
			}
			pts = points(sites, tier)
			for _, r := range []progOut{refA, refB} {
				for _, o := range r.outs {
					if o.Verify != nil {
						o.Verify()
					}
				}
			}
		}
		k := pts[x.Choose("preemption", len(pts))]
		startA()
		cnt := 0
		switched, blocked := false, false
		var paused, tangled atomic.Bool // of B, which had to wait for A
		var gotB progOut
		var ga, gb, progress atomic.Int64
		var streamB drbg.State
		done, doneA := make(chan struct{}), make(chan struct{})
		ga.Store(goid())
		rt.Yield = func(s int) {
			progress.Add(1)
			if switched {
				if paused.Load() && goid() == gb.Load() {
					// B waited for A: it goes on when A has finished
					if await(doneA, nil, &ga, &progress) {
						tangled.Store(true)
					} else {
						drbg.Load(streamB)
					}
					paused.Store(false)
				}
				return
			}
			if cnt++; cnt <= k {
				return
			}
			switched = true
			streamA := drbg.Save()
			drbg.Seed("c18/b/" + mc.Seed)
			start := make(chan struct{})
			go func() {
				defer close(done)
				gb.Store(goid())
				close(start)
				gotB = runB()
			}()
			<-start
			if blocked = await(done, nil, &gb, &progress); blocked {
				streamB = drbg.Save()
				paused.Store(true)
			}
			drbg.Load(streamA)
		}
		gotA := runA()
		close(doneA)
		if blocked {
			<-done
		}
		rt.Yield = nil
		if tangled.Load() {
			x.Skip() // A and B waited for each other's pauses: not one of the schedules
		}
		if !switched { // a shorter run than the first one: B follows A
			drbg.Seed("c18/b/" + mc.Seed)
			gotB = runB()
		}
		name := "creating instances"
		if act >= 0 {
			name = w.a.acts[act].name
		}
		x.Step("%s, preempted at statement %d of %d", name, k, len(sites))
		x.Count(1 + len(pb))
		w.b.same(x, pb, gotB, refB, "while "+name+" is preempted")
		w.a.same(x, pa, gotA, refA, "preempted by another thread")
		unchanged(x, w.objs, objs, name+" with a concurrent thread")
		x.StateHash(uint64(lab.NewH().S(name).U(uint64(k))))
	}
}

// c18Twice: thread A is preempted at a statement, thread B runs up to a
// statement, A runs to its end, B runs to its end.
func c18Twice(mk func(x *mc.X) *pairWorld, actA, actB string) func(x *mc.X) {
	var w *pairWorld
	var refA, refB progOut
	var objs []lab.H
	var ptsA, ptsB []int
	var pa, pb program
	return func(x *mc.X) {
		start := func() {
			drbg.Seed("c18/a/" + mc.Seed)
			w.a.fresh()
			drbg.Seed("c18/b/" + mc.Seed)
			w.b.fresh()
		}
		alone := func(t *actWorld, p program) (r progOut, pts []int) {
			var sites []int32
			start()
			drbg.Seed("c18/run/" + mc.Seed)
			rt.Yield = func(s int) { sites = append(sites, int32(s)) }
			r = t.runProgram(p)
			rt.Yield = nil
			t.same(x, p, r, r, "a thread alone")
			return r, points(sites, "first")
		}
		if w == nil {
			instrumented()
			w = mk(x)
			objs = hashes(w.objs)
			pa, pb = programOf(w.a, []string{actA}), programOf(w.b, []string{actB})
			refA, ptsA = alone(w.a, pa)
			refB, ptsB = alone(w.b, pb)
		}
		i, j := x.Choose("preemption of the first thread", len(ptsA)), x.Choose("preemption of the second thread", len(ptsB))
		start()
		drbg.Seed("c18/run/" + mc.Seed)
		inB, startedB, leftB := false, false, false
		cntA, cntB := 0, 0
		var gotA, gotB progOut
		toA, toB, doneB := make(chan struct{}, 1), make(chan struct{}, 1), make(chan struct{})
		streamB := drbg.Save()
		var streamA drbg.State
		var ga, gb, progress atomic.Int64
		var tangled atomic.Bool
		ga.Store(goid())
		wait := func(c chan struct{}, g *atomic.Int64) {
			if await(c, doneB, g, &progress) { // the other thread waits for this one
				tangled.Store(true)
			}
		}
		rt.Yield = func(int) {
			progress.Add(1)
			if tangled.Load() {
				return
			}
			if !inB {
				if startedB {
					return
				}
				if cntA++; cntA <= ptsA[i] {
					return
				}
				startedB, inB = true, true
				streamA = drbg.Save()
				drbg.Load(streamB)
				start := make(chan struct{})
				go func() {
					defer close(doneB)
					gb.Store(goid())
					close(start)
					gotB = w.b.runProgram(pb)
				}()
				<-start
				wait(toA, &gb)
				inB = false
				drbg.Load(streamA)
				return
			}
			if leftB {
				return
			}
			if cntB++; cntB <= ptsB[j] {
				return
			}
			leftB = true
			streamB = drbg.Save()
			toA <- struct{}{}
			wait(toB, &ga)
		}
		gotA = w.a.runProgram(pa)
		drbg.Load(streamB)
		inB = true
		toB <- struct{}{}
		if startedB {
			<-doneB
		} else {
			gotB = w.b.runProgram(pb)
		}
		rt.Yield = nil
		if tangled.Load() {
			x.Skip() // one thread had to wait for the other: not one of the schedules
		}
		x.Step("%s up to statement %d, %s up to statement %d, then both to their ends", actA, ptsA[i], actB, ptsB[j])
		x.Count(3)
		w.a.same(x, pa, gotA, refA, "interleaved with "+actB)
		w.b.same(x, pb, gotB, refB, "interleaved with "+actA)
		unchanged(x, w.objs, objs, actA+" interleaved with "+actB)
		x.StateHash(uint64(lab.NewH().S(actA).S(actB).U(uint64(i)).U(uint64(j))))
	}
}

// c18Race runs the acts of two threads without synchronisation between them,
// one after the other, under the happens-before monitor of the race detector.
// The process dies if two accesses to the same memory conflict; if none do, all
// interleavings of the two threads are equivalent to the explored one.
func c18Race(mk func(x *mc.X) *pairWorld, act int) func(x *mc.X) {
	return func(x *mc.X) {
		if !raceEnabled {
			panic("c18: not the race build")
		}
		w := mk(x)
		w.a.fresh()
		w.b.fresh()
		construct := x.Bool("with construction")
		var pb program
		for i := range w.b.acts {
			pb = append(pb, i)
		}
		pa := program{act}
		drbg.Unlocked = true
		defer func() { drbg.Unlocked = false }()
		defer segments()()
		var turn turnstile
		var ra, rb progOut
		da, db := make(chan struct{}), make(chan struct{})
		go func() {
			if construct {
				w.a.fresh()
			}
			ra = w.a.runProgram(pa)
			turn.pass()
			close(da)
		}()
		go func() {
			turn.wait()
			if construct {
				w.b.fresh()
			}
			rb = w.b.runProgram(pb)
			close(db)
		}()
		<-da
		<-db
		x.Step("%s, then every operation", w.a.acts[act].name)
		x.Count(len(pb))
		w.a.same(x, pa, ra, ra, "with another thread")
		w.b.same(x, pb, rb, rb, "with another thread")
		for _, o := range append(ra.outs, rb.outs...) {
			if o.Verify != nil {
				o.Verify()
			}
		}
		x.StateHash(uint64(lab.NewH().S(w.a.acts[act].name).U(uint64(len(pb)))))
	}
}

// segments makes the pieces of the threads run in goroutines of their own, which
// stay alive, and with them the history of their accesses, until the function
// it returns is called. Without its history the race detector does not report
// an access.
func segments() func() {
	end := make(chan struct{})
	mc.Segments = func(f func()) {
		done := make(chan interface{})
		go func() {
			defer func() {
				done <- recover()
				<-end
			}()
			f()
		}()
		if err := <-done; err != nil {
			panic(err)
		}
	}
	return func() { close(end) }
}

// The programs of c18Cold: all operations in order, all in reverse order, the
// classes of a partition, none, not even keys and instances. The detector
// forgets old accesses; it remembers different ones in each.
const (
	coldKeys   = 6
	coldParams = 7
)

// c18Cold: two threads that start from nothing but the parameters (or, with
// own, from nothing at all) in a new process generate their keys, create their
// instances and perform every operation, one thread after the other without
// synchronisation between them, under the happens-before monitor.
func c18Cold(setup func() func(x *mc.X) *actWorld, own bool, part int) func(x *mc.X) {
	return func(x *mc.X) {
		if !raceEnabled {
			panic("c18: not the race build")
		}
		drbg.Seed("c18/cold/" + mc.Seed)
		var mk func(x *mc.X) *actWorld
		if !own {
			mk = setup()
		}
		drbg.Unlocked = true
		defer func() { drbg.Unlocked = false }()
		defer segments()()
		var turn turnstile
		type thread struct {
			w   *actWorld
			p   program
			out progOut
			err interface{}
		}
		run := func(t *thread, tier string) {
			defer func() {
				if r := recover(); r != nil {
					t.err = fmt.Sprintf("panic: %v", r)
				}
			}()
			mk := mk
			if own {
				mc.Segment(func() { mk = setup() })
			}
			if part == coldParams {
				return
			}
			t.w = mk(mc.Detached(tier))
			n := len(t.w.acts)
			for i := 0; i < n; i++ {
				switch {
				case part == 0:
					t.p = append(t.p, i)
				case part == 1:
					t.p = append(t.p, n-1-i)
				case part < coldKeys && i%(coldKeys-2) == part-2:
					t.p = append(t.p, i)
				}
			}
			t.out = t.w.runProgram(t.p)
		}
		var a, b thread
		tier := x.Tier
		da, db := make(chan struct{}), make(chan struct{})
		go func() {
			run(&a, tier)
			turn.pass()
			close(da)
		}()
		go func() {
			turn.wait()
			run(&b, tier)
			close(db)
		}()
		<-da
		<-db
		for k, t := range []*thread{&a, &b} {
			if t.err != nil {
				x.Fail("thread %d: %v", k, t.err)
			}
			x.Step("thread %d: keys, instances and every operation", k)
			x.Count(1 + len(t.p))
			if t.w == nil {
				continue
			}
			t.w.same(x, t.p, t.out, t.out, fmt.Sprintf("thread %d", k))
			for _, o := range t.out.outs {
				if o.Verify != nil {
					o.Verify()
				}
			}
			x.StateHash(uint64(lab.NewH().U(uint64(k)).U(uint64(len(t.p)))))
		}
	}
}

// turnstile orders the two threads without the race detector seeing an edge.
type turnstile struct{ open bool }

// pass also empties the pools of the standard library: an object that the
// second thread gets from a pool after the first one put it there would be an
// edge between them.
//
//go:norace
func (t *turnstile) pass() {
	runtime.GC()
	runtime.GC()
	t.open = true
}

//go:norace
func (t *turnstile) wait() {
	for !t.open {
		runtime.Gosched()
	}
}

func init() {
	mc.Register(&mc.Property{
		ID: "C18",
		Units: func(tier string) []mc.Unit {
			var us []mc.Unit
			ck, bf := []lab.Lit{kA2, kCnn}, []lab.Lit{bA2}
			if tier == "thorough" {
				ck, bf = []lab.Lit{kA2, kA1, kCnn}, []lab.Lit{bA2, bA1}
			}
			for _, l := range ck {
				l := l
				mk := func(x *mc.X) *pairWorld { return ckPair(x, l) }
				for _, i := range ckFirst(l) {
					a := lab.CkActsOf(l)[i]
					us = append(us, mc.Unit{Name: "preempt/ckks/" + l.Name + "/" + a.Name, Body: c18Preempt(mk, i, ckOther, tier)})
				}
				us = append(us, mc.Unit{Name: "preempt/ckks/" + l.Name + "/create instances", Body: c18Preempt(mk, -1, ckOther, tier)})
			}
			for _, l := range bf {
				l := l
				mk := func(x *mc.X) *pairWorld { return bfPair(x, l) }
				for i, a := range lab.BfActs() {
					us = append(us, mc.Unit{Name: "preempt/bfv/" + l.Name + "/" + a.Name, Body: c18Preempt(mk, i, bfOther, tier)})
				}
				us = append(us, mc.Unit{Name: "preempt/bfv/" + l.Name + "/create instances", Body: c18Preempt(mk, -1, bfOther, tier)})
			}
			rl := []lab.Lit{rG3b}
			if tier == "thorough" {
				rl = append(rl, rA2)
			}
			for _, l := range rl {
				l := l
				mk := func(x *mc.X) *pairWorld { return rlPair(x, l) }
				for i, a := range lab.RActs() {
					us = append(us, mc.Unit{Name: "preempt/rlwe/" + l.Name + "/" + a.Name, Body: c18Preempt(mk, i, rlOther, tier)})
					us = append(us, mc.Unit{Name: "race/rlwe/" + l.Name + "/" + a.Name, Race: true, Body: c18Race(mk, i)})
				}
				us = append(us, mc.Unit{Name: "preempt/rlwe/" + l.Name + "/create instances", Body: c18Preempt(mk, -1, rlOther, tier)})
			}
			if tier == "thorough" {
				ckHeavy := []string{"add(s,sc)", "mul(s,s)", "mulh(s,s)", "rot(l1,3)", "conj(s)", "const(l1,.5)", "mulpt(s)", "encnew", "dec(t)", "genrlk"}
				bfHeavy := []string{"mul(s,s)", "rot(s,1)", "encnew", "dec(s)", "genrlk"}
				for i, a := range ckHeavy {
					for _, b := range ckHeavy[i:] {
						us = append(us, mc.Unit{Name: "twice/ckks/" + a + "/" + b, Body: c18Twice(func(x *mc.X) *pairWorld { return ckPair(x, kA2) }, a, b)})
					}
				}
				for i, a := range bfHeavy {
					for _, b := range bfHeavy[i:] {
						us = append(us, mc.Unit{Name: "twice/bfv/" + a + "/" + b, Body: c18Twice(func(x *mc.X) *pairWorld { return bfPair(x, bA2) }, a, b)})
					}
				}
			}
			for _, l := range ck {
				l := l
				for _, i := range ckFirst(l) {
					a := lab.CkActsOf(l)[i]
					us = append(us, mc.Unit{Name: "race/ckks/" + l.Name + "/" + a.Name, Race: true, Body: c18Race(func(x *mc.X) *pairWorld { return ckPair(x, l) }, i)})
				}
			}
			for _, l := range bf {
				l := l
				for i, a := range lab.BfActs() {
					us = append(us, mc.Unit{Name: "race/bfv/" + l.Name + "/" + a.Name, Race: true, Body: c18Race(func(x *mc.X) *pairWorld { return bfPair(x, l) }, i)})
				}
			}
			ckCold, bfCold, rlCold := []lab.Lit{kA2, kCnn, kSmall, kA1, kOne, kN256}, []lab.Lit{bA2, bSkew, bOne, bN256}, []lab.Lit{rG3b, rA1, rOdd}
			if tier == "thorough" {
				ckCold, bfCold, rlCold = append(ckCold, kA2o, kA3, kSkew, kSkew2, kBig, kN32), append(bfCold, bT, bA3, bOdd), append(rlCold, rG3, rA2, rN64)
			}
			for _, own := range []bool{false, true} {
				s := map[bool]string{false: "/shared parameters", true: "/own parameters"}[own]
				add := func(name string, setup func() func(x *mc.X) *actWorld) {
					for part := 0; part <= coldParams; part++ {
						if own != (part == coldParams) && part != 0 {
							continue
						}
						us = append(us, mc.Unit{Name: fmt.Sprint("cold/", name, s, "/", part), Race: true, Cold: true, Body: c18Cold(setup, own, part)})
					}
				}
				for _, l := range ckCold {
					l := l
					add("ckks/"+l.Name, func() func(x *mc.X) *actWorld {
						p := l.CkksSetup()
						return func(x *mc.X) *actWorld { return ckActWorldOf(x, lab.NewCKOn(l, p)) }
					})
				}
				for _, l := range bfCold {
					l := l
					add("bfv/"+l.Name, func() func(x *mc.X) *actWorld {
						p := l.BfvSetup()
						return func(x *mc.X) *actWorld { return bfActWorldOf(x, lab.NewBFOn(l, p)) }
					})
				}
				for _, l := range rlCold {
					l := l
					add("rlwe/"+l.Name, func() func(x *mc.X) *actWorld {
						p := l.RlweSetup()
						return func(x *mc.X) *actWorld { return rlActWorldOf(x, lab.NewRLOn(l, p)) }
					})
				}
			}
			return us
		},
		Bounds: map[string]string{
			"quick":    "every operation (78 CKKS, 51 BFV, 52 of the generic layer, 6 of the CNN layers, and the creation of the instances) preempted once, at the first three and the last three executions of every statement it executes, by a thread that creates instances and performs 15 (11, 13) operations; and every operation against every other under the happens-before monitor (no conflicting accesses: all interleavings equivalent); and two threads that start in a new process from the parameters only, or from nothing, generate keys and instances and perform every operation (in order, in reverse order, one class of operations at a time, none), for 13 parameter sets, under the same monitor",
			"thorough": "as quick with the first fifteen and last fifteen executions of every statement and two parameter sets each (23 for the threads that start in a new process); and every pair of 10 CKKS (5 BFV) operations with one preemption of each thread, at the first execution of every statement",
		},
		Assumptions: []string{
			"statements of the repository are atomic in the preemption search; the happens-before monitor covers every memory access, the ones inside lattigo included",
			"relinearization key containers are not shared: they hold scratch space by design",
		},
	})
}
