// Command check decides one property by seeded simulation.
//
//	check run -prop C01 -tier quick -seed 1 -verif /verif
//	check replay FILE
//	check selftest -n 20
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/engine"
	"verif.local/sim/props"
	"verif.local/sim/simrt"
)

// Result of one run, as sent by a worker.
type Result struct {
	Idx    int               `json:"i"`
	Hash   string            `json:"h"`
	Checks int               `json:"c"`
	Steps  int64             `json:"s"`
	Sim    int64             `json:"t"`
	Inter  uint64            `json:"x"`
	Sw     int               `json:"w"`
	Dec    int               `json:"d"`
	Faults map[string]int    `json:"f,omitempty"`
	Notes  map[string]int    `json:"n,omitempty"`
	Known  map[string]string `json:"k,omitempty"`
	Viol   *engine.Violation `json:"v,omitempty"`
	Rec    []uint64          `json:"r,omitempty"`
	Log    []string          `json:"l,omitempty"`
}

type line struct {
	Start *int     `json:"S,omitempty"`
	Res   *Result  `json:"R,omitempty"`
	Cov   []uint32 `json:"C,omitempty"`
	Done  bool     `json:"D,omitempty"`
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string            `json:"property"`
	Tier      string            `json:"tier"`
	VerifSeed uint64            `json:"verif_seed"`
	Run       int               `json:"run"`
	Seed      uint64            `json:"seed"`
	Prefix    []int             `json:"prefix_runs,omitempty"`
	Choices   []uint64          `json:"choices"`
	Original  int               `json:"decisions_before_minimisation"`
	Tries     int               `json:"minimisation_runs"`
	Violation *engine.Violation `json:"violation"`
	Hash      string            `json:"trace_hash"`
	Fatal     bool              `json:"fatal,omitempty"`
	Inexact   bool              `json:"inexact,omitempty"`
	Trace     []string          `json:"trace"`
	Faults    map[string]int    `json:"faults"`
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check: "+f+"\n", a...)
	os.Exit(2)
}

func runSeed(prop string, seed uint64, idx int) uint64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], seed)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	h.Write([]byte(prop))
	h.Write(b[:])
	return h.Sum64()
}

func exec1(p *props.Property, tier string, idx int, src *engine.Src, verbose bool) *engine.Run {
	return engine.Execute(p.ID, tier, func(r *engine.Run) { p.Scenario(r, idx) }, src, verbose)
}

func toResult(r *engine.Run, idx int) *Result {
	x := &Result{Idx: idx, Hash: r.Hash(), Checks: r.Checks, Steps: r.Steps, Sim: r.SimTime, Inter: r.Inter, Sw: r.Switches(), Dec: len(r.Rec), Faults: r.Faults, Notes: r.Notes, Known: r.Known, Viol: r.Viol}
	if r.Viol != nil {
		x.Rec = r.Rec
		x.Log = r.Log
	}
	return x
}

func limits() {
	lim := uint64(5 << 30)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	if simrt.Inst.NonSerial != "" {
		runtime.GOMAXPROCS(2)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check run|worker|one|shrink|replay|selftest")
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "VERIF_SEED")
	from := fs.Int("from", 0, "first run")
	step := fs.Int("step", 1, "distance between runs")
	to := fs.Int("to", 0, "end of runs")
	idx := fs.Int("idx", 0, "run")
	verif := fs.String("verif", "/verif", "directory of the framework")
	recfile := fs.String("rec", "", "file for the decisions")
	budget := fs.Float64("budget", 0, "seconds")
	n := fs.Int("n", 16, "runs per property (selftest)")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	runs := fs.Int("runs", 0, "number of runs (default: the property's)")
	cmd := os.Args[1]
	_ = fs.Parse(os.Args[2:])
	get := func(id string) *props.Property {
		p := props.Get(id)
		if p == nil {
			die("unknown property %q", id)
		}
		return p
	}
	switch cmd {
	case "run":
		os.Exit(parent(get(*prop), *tier, *seed, *verif, *workers, *runs))
	case "worker":
		limits()
		worker(get(*prop), *tier, *seed, *from, *step, *to, *budget)
	case "one":
		limits()
		one(get(*prop), *tier, *seed, *idx, *recfile)
	case "shrink":
		limits()
		shrink(*budget)
	case "replay":
		limits()
		os.Exit(replay(fs.Arg(0)))
	case "replay-json":
		limits()
		replayJSON()
	case "selftest":
		os.Exit(selftest(*n, *seed, *tier))
	default:
		die("unknown command %q", cmd)
	}
}

func worker(p *props.Property, tier string, seed uint64, from, step, to int, budget float64) {
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(w)
	dl := time.Now().Add(time.Duration(budget * float64(time.Second)))
	for i := from; i < to; i += step {
		if budget > 0 && time.Now().After(dl) {
			break
		}
		k := i
		_ = enc.Encode(line{Start: &k})
		w.Flush()
		r := exec1(p, tier, i, engine.NewSrc(runSeed(p.ID, seed, i)), false)
		_ = enc.Encode(line{Res: toResult(r, i)})
		w.Flush()
		if r.Viol != nil {
			break
		}
	}
	var cov []uint32
	for i := range simrt.Tab {
		if simrt.Tab[i].Count > 0 {
			cov = append(cov, uint32(i))
		}
	}
	_ = enc.Encode(line{Cov: cov})
	_ = enc.Encode(line{Done: true})
	w.Flush()
}

func one(p *props.Property, tier string, seed uint64, idx int, recfile string) {
	src := engine.NewSrc(runSeed(p.ID, seed, idx))
	if recfile != "" {
		f, err := os.Create(recfile)
		if err != nil {
			die("%v", err)
		}
		src.Sink = func(v uint64) {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], v)
			f.Write(b[:])
		}
	}
	r := exec1(p, tier, idx, src, true)
	_ = json.NewEncoder(os.Stdout).Encode(toResult(r, idx))
}

// shrink reads a Replay on stdin and writes the minimised one.
func shrink(budget float64) {
	var rp Replay
	if err := json.NewDecoder(os.Stdin).Decode(&rp); err != nil {
		die("%v", err)
	}
	p := props.Get(rp.Property)
	test := func(c []uint64) ([]uint64, bool) {
		r := exec1(p, rp.Tier, rp.Run, engine.ReplaySrc(c), false)
		return r.Rec, r.Viol != nil && r.Viol.Kind == rp.Violation.Kind
	}
	best, tries := engine.Shrink(rp.Choices, time.Now().Add(time.Duration(budget*float64(time.Second))), test)
	rp.Choices, rp.Tries = best, tries
	r := exec1(p, rp.Tier, rp.Run, engine.ReplaySrc(best), true)
	if r.Viol == nil {
		die("minimised run does not fail")
	}
	rp.Violation, rp.Hash, rp.Trace, rp.Faults = r.Viol, r.Hash(), r.Log, r.Faults
	_ = json.NewEncoder(os.Stdout).Encode(rp)
}

// replayJSON reads a Replay on stdin, executes it, and writes the Result.
func replayJSON() {
	var rp Replay
	if err := json.NewDecoder(os.Stdin).Decode(&rp); err != nil {
		die("%v", err)
	}
	r := doReplay(&rp)
	_ = json.NewEncoder(os.Stdout).Encode(toResult(r, rp.Run))
}

func doReplay(rp *Replay) *engine.Run {
	p := props.Get(rp.Property)
	if p == nil {
		die("unknown property %q", rp.Property)
	}
	for _, i := range rp.Prefix {
		exec1(p, rp.Tier, i, engine.NewSrc(runSeed(p.ID, rp.VerifSeed, i)), false)
	}
	return exec1(p, rp.Tier, rp.Run, engine.ReplaySrc(rp.Choices), true)
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		die("%v", err)
	}
	if rp.Fatal {
		out, err := child(120*time.Second, b, "replay-json")
		if err != nil {
			fmt.Printf("reproduced: the process dies: %v\n%s\n", err, tail(out, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
			return 1
		}
		fmt.Println("the process survived; violation not reproduced")
		return 0
	}
	r := doReplay(&rp)
	for _, l := range r.Log {
		fmt.Println("  " + l)
	}
	if r.Viol == nil {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Printf("violation %s: %s\n", r.Viol.Kind, r.Viol.Detail)
	if r.Hash() == rp.Hash {
		fmt.Println("exact reproduction, trace hash", rp.Hash)
	} else {
		fmt.Println("trace hash differs from the recorded one (different tree?):", r.Hash(), rp.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// child runs this binary with arguments; stdin is in.
func child(timeout time.Duration, in []byte, args ...string) ([]byte, error) {
	c := exec.Command("/proc/self/exe", args...)
	c.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return e.Bytes(), err
		}
		return o.Bytes(), nil
	case <-time.After(timeout):
		_ = c.Process.Kill()
		<-done
		return e.Bytes(), errTimeout
	}
}

var errTimeout = fmt.Errorf("timeout")

type tally struct {
	mu      sync.Mutex
	runs    int
	checks  int
	steps   int64
	sim     int64
	dec     int64
	sw      int64
	hashes  map[string]bool
	inter   map[uint64]bool
	faults  map[string]int
	notes   map[string]int
	known   map[string]string
	cov     map[uint32]bool
	viol    *Result
	crashed []int
	stuck   []int
	errs    []string
	samples []*Result
	audit   []*Result
}

func parent(p *props.Property, tier string, seed uint64, verif string, workers, runs int) int {
	start := time.Now()
	if runs == 0 {
		runs = p.Quick
		if tier == "thorough" {
			runs = p.Thorough
		}
	}
	capS := 240.0
	if tier == "thorough" {
		capS = 5400
	}
	known := readKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	t := &tally{hashes: map[string]bool{}, inter: map[uint64]bool{}, faults: map[string]int{}, notes: map[string]int{}, known: map[string]string{}, cov: map[uint32]bool{}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			t.runWorker(p, tier, seed, w, workers, runs, capS)
		}(w)
	}
	wg.Wait()

	code := 0
	var violLine string
	fatal := func(i int) bool { // confirm a crash of the whole process
		f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-rec-%d-%d", os.Getpid(), i))
		defer os.Remove(f)
		var outs []string
		for k := 0; k < 2; k++ {
			out, err := child(200*time.Second, nil, "one", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-idx", fmt.Sprint(i), "-rec", f)
			if err == nil || err == errTimeout {
				return false
			}
			outs = append(outs, string(out))
		}
		b, _ := os.ReadFile(f)
		var rec []uint64
		for ; len(b) >= 8; b = b[8:] {
			rec = append(rec, binary.LittleEndian.Uint64(b))
		}
		rp := &Replay{Property: p.ID, Tier: tier, VerifSeed: seed, Run: i, Seed: runSeed(p.ID, seed, i), Choices: rec, Original: len(rec), Fatal: true,
			Violation: &engine.Violation{Kind: "process-crash", Detail: firstLine(outs[0])}}
		violLine = writeReplay(verif, rp)
		fmt.Printf("run %d: the process dies: %s\n", i, firstLine(outs[0]))
		return true
	}
	if t.viol != nil {
		rp := t.confirm(p, tier, seed, workers)
		if rp == nil {
			fmt.Printf("run %d reported %s (%s) but it could not be reproduced\n", t.viol.Idx, t.viol.Viol.Kind, t.viol.Viol.Detail)
			code = 2
		} else {
			violLine = writeReplay(verif, rp)
			fmt.Printf("run %d, seed %#x: %s: %s\n", rp.Run, rp.Seed, rp.Violation.Kind, rp.Violation.Detail)
			fmt.Printf("minimised from %d to %d decisions in %d runs\n", rp.Original, len(rp.Choices), rp.Tries)
			code = 1
		}
	}
	if code != 1 {
		sort.Ints(t.crashed)
		for _, i := range t.crashed {
			if fatal(i) {
				code = 1
				break
			}
			code = 2
			t.errs = append(t.errs, fmt.Sprintf("worker died in run %d, which does not die when run alone", i))
		}
		if code != 1 && len(t.stuck) > 0 {
			code = 2
			t.errs = append(t.errs, fmt.Sprintf("runs %v did not finish", t.stuck))
		}
		if code != 1 && t.runs == 0 {
			code = 2
			t.errs = append(t.errs, "nothing was run")
		}
	}
	kinds := []string{}
	for k := range t.known {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		if d, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, d)
		} else if code != 1 {
			die("scenario reported %q as known, but it is not listed", k)
		}
	}
	audit := 0
	mism := 0
	if code == 0 {
		for _, a := range t.audit {
			out, err := child(200*time.Second, nil, "one", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-idx", fmt.Sprint(a.Idx))
			if err != nil {
				continue
			}
			var res Result
			if json.Unmarshal(out, &res) == nil {
				audit++
				if res.Hash != a.Hash {
					mism++
				}
			}
		}
	}
	writeEvidence(p, tier, seed, verif, t, time.Since(start).Seconds(), runs, code, audit, mism, kinds)
	for _, e := range t.errs {
		fmt.Fprintln(os.Stderr, "check:", e)
	}
	fmt.Printf("%s %s: %d runs, %d oracle evaluations, %d distinct histories, %d distinct interleavings, %.1f s\n",
		p.ID, tier, t.runs, t.checks, len(t.hashes), len(t.inter), time.Since(start).Seconds())
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, violLine)
	}
	return code
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" {
			if len(l) > 300 {
				l = l[:300]
			}
			return l
		}
	}
	return ""
}

func writeReplay(verif string, rp *Replay) string {
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", rp.Property, rp.Seed))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(f, b, 0644); err != nil {
		die("%v", err)
	}
	return f
}

func (t *tally) runWorker(p *props.Property, tier string, seed uint64, w, workers, runs int, capS float64) {
	deadline := time.Now().Add(time.Duration(capS * float64(time.Second)))
	from := w
	for from < runs {
		left := time.Until(deadline).Seconds()
		if left <= 0 {
			return
		}
		c := exec.Command("/proc/self/exe", "worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
			"-from", fmt.Sprint(from), "-step", fmt.Sprint(workers), "-to", fmt.Sprint(runs), "-budget", fmt.Sprint(left))
		c.Stderr = io.Discard
		var eb bytes.Buffer
		c.Stderr = &eb
		out, err := c.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := c.Start(); err != nil {
			die("%v", err)
		}
		beat := time.Now()
		var bm sync.Mutex
		finished := make(chan struct{})
		stuck := false
		go func() {
			for {
				select {
				case <-finished:
					return
				case <-time.After(time.Second):
					bm.Lock()
					late := time.Since(beat) > 300*time.Second
					bm.Unlock()
					if late {
						bm.Lock()
						stuck = true
						bm.Unlock()
						_ = c.Process.Kill()
						return
					}
				}
			}
		}()
		sc := bufio.NewScanner(out)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		cur, done := -1, false
		for sc.Scan() {
			bm.Lock()
			beat = time.Now()
			bm.Unlock()
			var l line
			if json.Unmarshal(sc.Bytes(), &l) != nil {
				continue
			}
			switch {
			case l.Start != nil:
				cur = *l.Start
			case l.Res != nil:
				cur = -1
				t.add(l.Res)
			case l.Cov != nil:
				t.mu.Lock()
				for _, s := range l.Cov {
					t.cov[s] = true
				}
				t.mu.Unlock()
			case l.Done:
				done = true
			}
			if t.stop() && cur >= 0 && l.Start != nil {
				// another worker found a violation: no need to go on
				_ = c.Process.Kill()
				done = true
			}
		}
		_ = c.Wait()
		close(finished)
		if done {
			return
		}
		bm.Lock()
		st := stuck
		bm.Unlock()
		t.mu.Lock()
		if st {
			t.stuck = append(t.stuck, cur)
		} else if cur >= 0 {
			t.crashed = append(t.crashed, cur)
			t.errs = append(t.errs, fmt.Sprintf("worker died in run %d: %s", cur, firstLine(eb.String())))
		} else {
			t.errs = append(t.errs, "worker died: "+firstLine(eb.String()))
		}
		many := len(t.crashed)+len(t.stuck) > 3 || cur < 0
		t.mu.Unlock()
		if many {
			return
		}
		from = cur + workers
	}
}

func (t *tally) stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.viol != nil || len(t.crashed) > 3
}

func (t *tally) add(r *Result) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	t.checks += r.Checks
	t.steps += r.Steps
	t.sim += r.Sim
	t.dec += int64(r.Dec)
	t.sw += int64(r.Sw)
	if r.Checks > 0 {
		t.hashes[r.Hash] = true
	}
	if r.Sw > 0 {
		t.inter[r.Inter] = true
	}
	for k, v := range r.Faults {
		t.faults[k] += v
	}
	for k, v := range r.Notes {
		t.notes[k] += v
	}
	for k, v := range r.Known {
		if _, ok := t.known[k]; !ok {
			t.known[k] = v
		}
	}
	if r.Viol != nil && (t.viol == nil || r.Idx < t.viol.Idx) {
		t.viol = r
	}
	if len(t.samples) < 3 && r.Viol == nil {
		t.samples = append(t.samples, r)
	}
	if len(t.audit) < 3 && r.Viol == nil && r.Idx%5 == 2 {
		t.audit = append(t.audit, r)
	}
}

// confirm minimises the violation and reproduces it in a fresh process.
func (t *tally) confirm(p *props.Property, tier string, seed uint64, workers int) *Replay {
	v := t.viol
	rp := &Replay{Property: p.ID, Tier: tier, VerifSeed: seed, Run: v.Idx, Seed: runSeed(p.ID, seed, v.Idx), Choices: v.Rec, Original: len(v.Rec), Violation: v.Viol, Hash: v.Hash, Trace: v.Log, Faults: v.Faults}
	check := func(rp *Replay) bool {
		b, _ := json.Marshal(rp)
		out, err := child(200*time.Second, b, "replay-json")
		if err != nil {
			return false
		}
		var res Result
		if json.Unmarshal(out, &res) != nil || res.Viol == nil {
			return false
		}
		rp.Violation, rp.Hash, rp.Trace, rp.Faults = res.Viol, res.Hash, res.Log, res.Faults
		return true
	}
	again := func(rp *Replay) bool {
		for i := 0; i < 4; i++ {
			if check(rp) {
				return true
			}
		}
		return false
	}
	if !check(rp) {
		// The failure may need what earlier runs left behind in the process (state the
		// simulator cannot reset, e.g. inside closures): replay those first.
		var prefix []int
		for i := v.Idx % workers; i < v.Idx; i += workers {
			prefix = append(prefix, i)
		}
		for k := 1; ; k *= 2 {
			if k > len(prefix) {
				k = len(prefix)
			}
			rp.Prefix = prefix[len(prefix)-k:]
			if k > 0 && check(rp) {
				return rp
			}
			if k >= len(prefix) {
				rp.Prefix = nil
				if again(rp) {
					rp.Inexact = true // the tree has nondeterminism behind no seam
					return rp
				}
				return nil
			}
		}
	}
	b, _ := json.Marshal(rp)
	budget := 25.0
	if out, err := child(time.Duration(budget*3)*time.Second+60*time.Second, b, "shrink", "-budget", fmt.Sprint(budget)); err == nil {
		var s Replay
		if json.Unmarshal(out, &s) == nil && s.Violation != nil {
			h := s.Hash
			if check(&s) && s.Hash == h {
				return &s
			}
		}
	}
	return rp
}

func readKnown(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" kind=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" kind=")
		i := strings.Index(rest, " ")
		if i > 0 {
			m[rest[:i]] = rest[:i] + ": " + strings.TrimSpace(rest[i:])
		}
	}
	return m
}

func writeEvidence(p *props.Property, tier string, seed uint64, verif string, t *tally, wall float64, planned, code, audit, mism int, known []string) {
	lib, hit, total := map[string][2]int{}, 0, 0
	for i, s := range simrt.Inst.Sites {
		f := s[:strings.LastIndex(s, ":")]
		x := lib[f]
		x[1]++
		total++
		if t.cov[uint32(i)] {
			x[0]++
			hit++
		}
		lib[f] = x
	}
	if out := os.Getenv("VERIF_REACH"); out != "" { // for development: what was reached
		var b strings.Builder
		for i, s := range simrt.Inst.Sites {
			if t.cov[uint32(i)] {
				fmt.Fprintln(&b, s)
			}
		}
		_ = os.WriteFile(out, []byte(b.String()), 0644)
	}
	reach := map[string]string{}
	for f, x := range lib {
		if x[0] > 0 {
			reach[f] = fmt.Sprintf("%d/%d", x[0], x[1])
		}
	}
	var samples []interface{}
	for _, s := range t.samples {
		samples = append(samples, map[string]interface{}{"run": s.Idx, "seed": fmt.Sprintf("%#x", runSeed(p.ID, seed, s.Idx)), "trace_hash": s.Hash, "decisions": s.Dec, "statements": s.Steps, "preemptions": s.Sw, "faults": s.Faults, "exercised": s.Notes, "oracle_evaluations": s.Checks})
	}
	if samples == nil {
		samples = []interface{}{}
	}
	viol := 0
	if code == 1 {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":                 t.checks,
			"distinct_nontrivial":         len(t.hashes),
			"rule":                        p.Rule + " A case is one simulated run; it is non-trivial if at least one oracle was evaluated in it, and distinct if the digest of its decisions, history and results is.",
			"samples":                     samples,
			"simulated_runs":              t.runs,
			"planned_runs":                planned,
			"runs_per_hour":               float64(t.runs) / wall * 3600,
			"simulated_seconds":           float64(t.sim) / 1e9,
			"library_statements_executed": t.steps,
			"decisions":                   t.dec,
			"preemptions":                 t.sw,
			"distinct_interleavings":      len(t.inter),
			"interleaving_measure":        "sequence of (task, statement) at every switch",
			"faults_injected":             t.faults,
			"exercised":                   t.notes,
			"statements_reached":          fmt.Sprintf("%d/%d", hit, total),
			"reach_by_file":               reach,
			"determinism_audit":           map[string]int{"reexecuted_in_fresh_process": audit, "trace_hash_mismatches": mism},
			"known_findings_reproduced":   known,
			"real_components":             append([]string{"all of dusk-crypto (instrumented from the working tree)"}, "go-ristretto", "bn256", "x/crypto hashes"),
			"stub_components":             []string{"crypto/rand source (seeded, short reads)", "clock", "goroutine scheduler", "sync", "math/rand global", "network, disk and byte streams", "process lifetime (package state per node)"},
			"non_serial_reason":           simrt.Inst.NonSerial,
		},
		"assumptions": p.Assume,
	}
	if p.ID == "C10" {
		c := ev["coverage"].(map[string]interface{})
		c["stub_components"] = append(c["stub_components"].([]string), "go-ristretto's group operations in the runs noted places-with-stand-in-arithmetic")
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), b, 0644); err != nil {
		die("%v", err)
	}
}

// selftest proves determinism: every run is executed in three fresh processes and
// inside a long-lived one; all trace hashes must agree.
func selftest(n int, seed uint64, tier string) int {
	bad, total := 0, 0
	for _, p := range props.All() {
		out, err := child(600*time.Second, nil, "worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", "0", "-step", "1", "-to", fmt.Sprint(n))
		if err != nil {
			fmt.Println(p.ID, "worker failed:", err, tail(out, 300))
			bad++
			continue
		}
		hashes := map[int]string{}
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var l line
			if json.Unmarshal(sc.Bytes(), &l) == nil && l.Res != nil {
				hashes[l.Res.Idx] = l.Res.Hash
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, runtime.NumCPU())
		for i := 0; i < n; i++ {
			for k := 0; k < 2; k++ {
				wg.Add(1)
				sem <- struct{}{}
				go func(i int) {
					defer func() { <-sem; wg.Done() }()
					out, err := child(300*time.Second, nil, "one", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-idx", fmt.Sprint(i))
					var res Result
					if err == nil {
						err = json.Unmarshal(out, &res)
					}
					mu.Lock()
					defer mu.Unlock()
					total++
					if err != nil || res.Hash != hashes[i] {
						bad++
						fmt.Println(p.ID, "run", i, "differs:", res.Hash, hashes[i], err)
					}
				}(i)
			}
		}
		wg.Wait()
	}
	fmt.Printf("selftest: %d re-executions, %d differences\n", total, bad)
	if bad > 0 {
		return 1
	}
	return 0
}
