// Package runner runs one property check: it splits the property's search space
// into units, explores them in worker processes and writes the evidence file.
package runner

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/mc"
)

type job struct {
	Index    int   `json:"index"`
	Deadline int64 `json:"deadline"`
}

type reply struct {
	Index  int        `json:"index"`
	Result *mc.Result `json:"result,omitempty"`
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     string   `json:"seed"`
	Unit     string   `json:"unit"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels"`
	Trace    []string `json:"trace"`
	Msg      string   `json:"msg"`
	Stack    string   `json:"stack,omitempty"`
	Key      string   `json:"key"`
}

// Main is the entry point of the check commands.
func Main() {
	worker := flag.Bool("worker", false, "internal")
	replay := flag.String("replay", "", "replay file")
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "verification root")
	only := flag.String("unit", "", "only units whose name contains this")
	list := flag.Bool("list", false, "list units")
	verbose := flag.Bool("v", false, "print unit statistics")
	flag.Parse()

	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	mc.Seed = seed

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := mc.Get(*prop)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *worker {
		doWorker(p, *tier, seed)
		return
	}
	if *list {
		for _, u := range p.Units(*tier) {
			fmt.Println(u.Name)
		}
		return
	}
	os.Exit(parent(p, *tier, seed, *root, *only, *verbose))
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	mc.Seed = rf.Seed
	p := mc.Get(rf.Property)
	for _, u := range p.Units(rf.Tier) {
		if u.Name == rf.Unit {
			if self, _ := os.Executable(); u.Race {
				if b, err := binary(true); err == nil && b != self {
					cmd := exec.Command(b, "-replay", path)
					cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
					cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=7")
					if err := cmd.Run(); err != nil {
						fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
						return 1
					}
					return 0
				}
			}
			v := mc.Replay(u, rf.Tier, rf.Seed, rf.Choices)
			if v == nil {
				fmt.Println("replayed execution satisfies the property")
				return 0
			}
			fmt.Printf("%s\n", v.Msg)
			for _, t := range v.Trace {
				fmt.Println("  ", t)
			}
			if v.Stack != "" {
				fmt.Println(v.Stack)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
			return 1
		}
	}
	fmt.Fprintln(os.Stderr, "no such unit")
	return 2
}

// ---- worker ----

func doWorker(p *mc.Property, tier, seed string) {
	// keep the protocol stream away from anything the code under test prints
	out := os.NewFile(3, "proto")
	units := p.Units(tier)
	enc := json.NewEncoder(out)
	limit := p.MaxExec
	if limit == 0 {
		limit = 150
	}
	var cur atomic.Int64
	cur.Store(-1)
	var mu sync.Mutex
	go func() {
		for {
			time.Sleep(time.Second)
			st := mc.ExecStart.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > time.Duration(limit)*time.Second {
				mu.Lock()
				i := int(cur.Load())
				v := mc.CurrentAsViolation(units[i].Name, fmt.Sprintf("no result after %d s: the operation does not terminate", limit))
				enc.Encode(reply{Index: i, Result: &mc.Result{Unit: units[i].Name, Executions: 1, Violations: []mc.Violation{v}}})
				os.Exit(0)
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var j job
		if json.Unmarshal(sc.Bytes(), &j) != nil {
			return
		}
		cur.Store(int64(j.Index))
		r := mc.Explore(units[j.Index], tier, seed, time.Unix(j.Deadline, 0), 3)
		mu.Lock()
		enc.Encode(reply{Index: j.Index, Result: &r})
		mu.Unlock()
	}
}

// ---- parent ----

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16000 {
		t.b = append([]byte(nil), t.b[:4000]...)
	}
	return len(p), nil
}

func parent(p *mc.Property, tier, seed, root, only string, verbose bool) int {
	start := time.Now()
	units := p.Units(tier)
	seen := map[string]bool{}
	for _, u := range units {
		if seen[u.Name] {
			fmt.Fprintf(os.Stderr, "duplicate unit %s\n", u.Name)
			return 2
		}
		seen[u.Name] = true
	}
	budget := p.Budget[tier]
	if budget == 0 {
		budget = map[string]float64{"quick": 420, "thorough": 780}[tier]
	}
	deadline := start.Add(time.Duration(budget * float64(time.Second)))

	idx := make(chan int, len(units))
	total := 0
	for i, u := range units {
		if only == "" || strings.Contains(u.Name, only) {
			idx <- i
			total++
		}
	}
	close(idx)

	nw := 8
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	if p.Workers > 0 && p.Workers < nw {
		nw = p.Workers
	}
	if nw > total {
		nw = total
	}

	maxViol := 4
	if v, err := strconv.Atoi(os.Getenv("VERIF_MAXVIOL")); err == nil && v > 0 {
		maxViol = v
	}

	known := loadKnown(filepath.Join(root, "known-findings.txt"), p.ID)

	var mu sync.Mutex
	results := map[int]*mc.Result{}
	var infra []string
	newViol := 0
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *proc
			race, cold := false, false
			retried := map[int]bool{}
			for i := range idx {
				if wk != nil && (race != units[i].Race || cold || units[i].Cold) {
					wk.in.Close()
					wk.cmd.Wait()
					wk = nil
				}
				race, cold = units[i].Race, units[i].Cold
			again:
				mu.Lock()
				stop := newViol >= maxViol
				mu.Unlock()
				if stop || time.Now().After(deadline) {
					continue
				}
				if wk == nil {
					var err error
					if wk, err = startWorker(p.ID, tier, race); err != nil {
						mu.Lock()
						infra = append(infra, err.Error())
						mu.Unlock()
						return
					}
				}
				r, err := wk.do(job{i, deadline.Unix()})
				if err != nil {
					werr := wk.cmd.Wait()
					crash := string(wk.err.b)
					wk = nil
					killed := false
					if ee, ok := werr.(*exec.ExitError); ok {
						if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
							killed = true
						}
					}
					if killed {
						if !retried[i] {
							retried[i] = true
							goto again
						}
						mu.Lock()
						infra = append(infra, "worker killed while exploring "+units[i].Name)
						mu.Unlock()
						continue
					}
					v := mc.Violation{Unit: units[i].Name, Msg: "the process dies while exploring this unit: " + firstLine(strings.TrimLeft(crash, "=\n")), Stack: crash, Key: units[i].Name + ":crash"}
					r = &mc.Result{Unit: units[i].Name, Executions: 1, Violations: []mc.Violation{v}}
				}
				mu.Lock()
				results[i] = r
				for _, v := range r.Violations {
					if !known[v.Key] {
						newViol++
					}
				}
				mu.Unlock()
				if verbose {
					fmt.Fprintf(os.Stderr, "%-60s exec=%d skip=%d trans=%d states=%d viol=%d complete=%v %.2fs\n", r.Unit, r.Executions, r.Skipped, r.Transitions, r.NStates, len(r.Violations), r.Complete, r.WallS)
				}
			}
			if wk != nil {
				wk.in.Close()
				wk.cmd.Wait()
			}
		}()
	}
	wg.Wait()

	// aggregate
	var order []int
	for i := range results {
		order = append(order, i)
	}
	sort.Ints(order)
	states := map[uint64]struct{}{}
	extra, execs, skipped, trans, complete := 0, 0, 0, 0, 0
	var samples []string
	var viols []mc.Violation
	for _, i := range order {
		r := results[i]
		execs += r.Executions
		skipped += r.Skipped
		trans += r.Transitions
		if r.Complete {
			complete++
		}
		if len(r.States) == r.NStates {
			for _, s := range r.States {
				states[s] = struct{}{}
			}
		} else {
			extra += r.NStates
		}
		viols = append(viols, r.Violations...)
	}
	for k := 0; k < len(order); k += 1 + len(order)/6 {
		samples = append(samples, results[order[k]].Samples...)
	}
	if len(samples) == 0 {
		samples = []string{"no execution satisfied the property"}
	}
	wall := time.Since(start).Seconds()

	var fresh, old []mc.Violation
	for _, v := range viols {
		if known[v.Key] {
			old = append(old, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	for _, v := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", p.ID, v.Key, v.Msg)
	}
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	for n, v := range fresh {
		if n >= 3 {
			break
		}
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", p.ID, n))
		b, _ := json.MarshalIndent(replayFile{p.ID, tier, seed, v.Unit, v.Choices, v.Labels, v.Trace, v.Msg, v.Stack, v.Key}, "", "  ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n  choices %v\n", v.Unit, v.Msg, v.Choices)
		for _, t := range v.Trace {
			fmt.Println("   ", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}

	nstates := len(states) + extra
	if nstates == 0 {
		nstates = execs
	}
	sd, _ := strconv.Atoi(seed)
	allDone := complete == total && len(infra) == 0
	assumptions := append([]string{
		"the ring, RNS and encoder primitives of lattigo v2.3.0 (a dependency, outside the repository) behave as documented",
		"crypto/rand is replaced by a seeded deterministic stream, so each execution is a function of its choices and VERIF_SEED",
	}, p.Assumptions...)
	vs := []map[string]interface{}{}
	for _, v := range fresh {
		vs = append(vs, map[string]interface{}{"key": v.Key, "message": v.Msg})
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     sd,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"model_checking": map[string]interface{}{
				"states":                        nstates,
				"transitions":                   trans,
				"traces_validated_against_impl": execs,
				"samples":                       samples,
				"exhaustive":                    allDone,
				"units_total":                   total,
				"units_complete":                complete,
				"executions":                    execs,
				"executions_out_of_domain":      skipped,
				"bounds":                        p.Bounds[tier],
			},
		},
		"wall_s":         wall,
		"violations":     len(fresh),
		"violation_list": vs,
		"assumptions":    assumptions,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if only == "" {
		if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: units %d/%d executions %d (out of domain %d) transitions %d states %d exhaustive %v violations %d known %d wall %.1fs\n",
		p.ID, tier, complete, total, execs, skipped, trans, nstates, allDone, len(fresh), len(old), wall)
	if len(fresh) > 0 {
		return 1
	}
	if len(infra) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(infra, "\n"))
		return 3
	}
	if execs == 0 {
		fmt.Fprintln(os.Stderr, "nothing explored")
		return 3
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// binary is the program that explores units of a kind.
func binary(race bool) (string, error) {
	if !race {
		return os.Executable()
	}
	b := os.Getenv("VERIFMC_RACE")
	if b == "" {
		return "", fmt.Errorf("VERIFMC_RACE does not name the binary built with the race detector")
	}
	return b, nil
}

func startWorker(id, tier string, race bool) (*proc, error) {
	self, err := binary(race)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "-worker", "-property", id, "-tier", tier)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66 history_size=7")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	t := &tail{}
	cmd.Stderr = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &proc{cmd, in, bufio.NewReaderSize(pr, 1<<20), t}, nil
}

func (w *proc) do(j job) (*mc.Result, error) {
	b, _ := json.Marshal(j)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r reply
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, err
	}
	return r.Result, nil
}

// loadKnown reads the committed list of recorded findings: a line
// "known: property=<id> key=<key> ..." suppresses exactly that execution.
func loadKnown(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return m
}
