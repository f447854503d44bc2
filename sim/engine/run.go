package engine

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Violation is a broken property.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Run is one simulated execution.
type Run struct {
	*Src
	Prop     string
	Tier     string
	Nodes    []*Node
	Faults   map[string]int
	Notes    map[string]int // what was exercised
	Viol     *Violation
	Known    map[string]string // known findings reproduced: kind -> detail
	Checks   int               // oracle evaluations
	Inter    uint64            // signature of the interleaving
	SimTime  int64
	Steps    int64
	Log      []string
	Verbose  bool
	sched    *Sched
	now      int64
	entSeed  uint64
	nEnt     int
	h        hash.Hash
	switches int
	base     *Node
	StepLim  int64
	inCall   int
}

type stopRun struct{}

// NonSerial tells why the tree cannot be scheduled statement by statement ("" if it can).
func NonSerial() string { return simrt.Inst.NonSerial }

// Fail ends the run with a violation.
func (r *Run) Fail(kind, f string, a ...interface{}) {
	if r.Viol == nil {
		r.Viol = &Violation{kind, clip(fmt.Sprintf(f, a...), 900)}
		r.Tracef("VIOLATION %s: %s", kind, r.Viol.Detail)
	}
	panic(stopRun{})
}

// FailLater records a violation without unwinding (for use inside tasks).
func (r *Run) failSoft(kind, f string, a ...interface{}) {
	if r.Viol == nil {
		r.Viol = &Violation{kind, clip(fmt.Sprintf(f, a...), 900)}
		r.Tracef("VIOLATION %s: %s", kind, r.Viol.Detail)
	}
}

func clip(s string, n int) string {
	s = strings.Replace(s, "\n", " | ", -1)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Check evaluates an oracle.
func (r *Run) Check(ok bool, kind, f string, a ...interface{}) {
	r.Checks++
	if !ok {
		r.Fail(kind, f, a...)
	}
}

// Note counts something the run exercised.
func (r *Run) Note(s string) { r.Notes[s]++ }

// Fault counts an injected fault.
func (r *Run) Fault(s string) { r.Faults[s]++ }

// KnownFinding records a reproduced known finding.
func (r *Run) KnownFinding(kind, detail string) {
	if r.Known == nil {
		r.Known = map[string]string{}
	}
	if _, ok := r.Known[kind]; !ok {
		r.Known[kind] = detail
	}
}

// Tracef adds a line to the history; it is part of the run's hash.
func (r *Run) Tracef(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	r.h.Write([]byte(s))
	r.h.Write([]byte{0})
	if r.Verbose {
		r.Log = append(r.Log, s)
	} else if len(r.Log) < 400 {
		r.Log = append(r.Log, clip(s, 200))
	}
}

// Mix adds bytes to the run's hash.
func (r *Run) Mix(b []byte) {
	var n [8]byte
	binary.LittleEndian.PutUint64(n[:], uint64(len(b)))
	r.h.Write(n[:])
	r.h.Write(b)
}

// Hash is the digest of choices, history and results.
func (r *Run) Hash() string {
	h := sha256.New()
	h.Write(r.h.Sum(nil))
	var b [8]byte
	for _, v := range r.Rec {
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	binary.LittleEndian.PutUint64(b[:], r.Inter)
	h.Write(b[:])
	return hex.EncodeToString(h.Sum(nil)[:12])
}

// Entropy makes a new entropy stream for this run.
func (r *Run) Entropy() *Stream {
	r.nEnt++
	return NewStream(r.entSeed, fmt.Sprint("e", r.nEnt))
}

// Base is a node for the scenario's own honest preparations.
func (r *Run) Base() *Node {
	if r.base == nil {
		r.base = r.NewNode()
	}
	return r.base
}

// Outcome of a call into the library.
type Outcome struct {
	Panic string // value and position of a panic
	Steps int64
	Alloc uint64
}

type stepLimit struct{}

const defaultStepLim = 400e6

// Do runs a call on a node, alone, and reports a panic instead of propagating it.
func (r *Run) Do(n *Node, ent *Stream, fn func()) (out Outcome) {
	if r.sched != nil && r.sched.cur != nil {
		panic("engine: Do inside a task")
	}
	switchTo(n)
	if ent == nil {
		ent = r.Entropy()
	}
	simrt.Entropy = ent
	simrt.Clock = func() time.Time { return r.nodeNow(n) }
	simrt.MathRandSeed = func() int64 { return n.boot }
	simrt.SleepHook = func(d time.Duration) { r.now += int64(d) }
	simrt.GoHook, simrt.BlockHook, simrt.SyncHook = nil, nil, nil
	lim := r.StepLim
	if lim == 0 {
		lim = defaultStepLim
	}
	if simrt.Inst.GoStmts > 0 && simrt.Inst.NonSerial == "" {
		return r.doTasks(n, ent, lim, fn)
	}
	simrt.Hook = func(site uint32) {
		if simrt.Countdown <= 0 {
			simrt.Countdown = 1 << 62
			panic(stepLimit{})
		}
	}
	if simrt.Inst.NonSerial != "" {
		simrt.Hook = nil
		lim = 1 << 62
	}
	simrt.Countdown = lim
	defer func() {
		out.Steps = lim - simrt.Countdown
		simrt.Countdown = 1 << 62
		simrt.Entropy = nil
		simrt.Hook = nil
		r.Steps += out.Steps
		r.now += out.Steps*1000 + 1000
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				panic(e)
			}
			out.Panic = panicText(e)
		}
	}()
	fn()
	return
}

// doTasks is Do for a library that starts goroutines.
func (r *Run) doTasks(n *Node, ent *Stream, lim int64, fn func()) (out Outcome) {
	outer := r.sched
	s := &Sched{r: r, gran: GranCall, limit: lim}
	r.sched = s
	steps := r.Steps
	t := s.Spawn(n, "call", ent, fn)
	for !t.Done && s.Step() {
	}
	for i := 0; i < 50 && s.Step(); i++ {
	}
	s.Close()
	r.sched = outer
	out.Panic = t.Panic
	out.Steps = r.Steps - steps
	return
}

// MustDo is Do for calls that must not panic.
func (r *Run) MustDo(n *Node, ent *Stream, what string, fn func()) Outcome {
	o := r.Do(n, ent, fn)
	r.Checks++
	if o.Panic != "" {
		r.Fail(PanicKind(o.Panic), "%s: %s", what, o.Panic)
	}
	return o
}

// PanicKind classifies a panic text.
func PanicKind(p string) string {
	if strings.HasPrefix(p, "step limit") {
		return "stall"
	}
	return "panic"
}

func panicText(e interface{}) string {
	if _, ok := e.(stepLimit); ok {
		return "step limit exceeded (call does not finish)"
	}
	st := string(debug.Stack())
	// the first library frame below the panic
	where := ""
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/dusk-network/dusk-crypto/") {
			where = l
			if i := strings.LastIndex(where, "("); i > 0 {
				where = where[:i]
			}
			where = strings.TrimPrefix(where, "github.com/dusk-network/dusk-crypto/")
			break
		}
	}
	return clip(fmt.Sprintf("panic: %v in %s", e, where), 400)
}

// Scenario is the body of a property's simulation.
type Scenario func(r *Run)

// Execute performs one run.
func Execute(prop, tier string, sc Scenario, src *Src, verbose bool) (r *Run) {
	initGlobals()
	r = &Run{Src: src, Prop: prop, Tier: tier, Faults: map[string]int{}, Notes: map[string]int{}, h: fnv.New128a(), Verbose: verbose}
	defer func() {
		r.SimTime = r.now
		if r.sched != nil {
			r.sched.Close()
		}
		for _, n := range r.Nodes {
			for _, t := range n.bg {
				(&Sched{r: r}).killTask(t)
			}
			n.bg = nil
		}
		// back to a pristine process
		curNode = nil
		switchTo(&Node{vals: freshGlobals()})
		curNode = nil
		simrt.Entropy, simrt.Hook, simrt.GoHook, simrt.BlockHook, simrt.ChooseHook = nil, nil, nil, nil, nil
		simrt.SyncHook = nil
		simrt.Countdown = 1 << 62
		if e := recover(); e != nil {
			if _, ok := e.(stopRun); ok {
				return
			}
			panic(e)
		}
	}()
	r.entSeed = src.Seed()
	sc(r)
	return
}
