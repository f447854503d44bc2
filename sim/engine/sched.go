package engine

import (
	"fmt"
	"iter"
	"time"

	"verif.local/sim/simrt"
)

// Task is a simulated thread of control on a node.
type Task struct {
	ID      int
	Name    string
	Node    *Node
	Ent     *Stream
	fn      func()
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	Done    bool
	Killed  bool
	Panic   string
	Steps   int64
	blocked bool
	started bool
	plan    map[uint32]int // statement -> occurrence at which to preempt
	OnDone  func()
	stopped bool
	th      *simrt.Thread
	child   bool // a goroutine started by the library
	parked  bool // runs on when the others cannot
}

const spinLim = 3000000

type killed struct{}

// Sched interleaves tasks.
type Sched struct {
	r       *Run
	tasks   []*Task
	cur     *Task
	gran    int
	budget  int // remaining preemptions
	limit   int64
	quantum int64
	preempt bool
	Inter   []byte
	race    bool
	syncp   int // how often synchronisation operations preempt; 0: not drawn yet
	syncs   int // preemptions left
}

// Granularities of preemption.
const (
	GranCall   = iota // a task runs to its end
	GranCoarse        // quanta between 1 and 2^13 statements
	GranFine          // quanta between 1 and 2^8 statements
	GranSites         // preemption at chosen statements
)

// NewSched makes a scheduler; the granularity is a recorded choice.
func (r *Run) NewSched() *Sched {
	s := &Sched{r: r, budget: 1500, limit: defaultStepLim}
	s.gran = r.Weighted(1, 3, 3, 3)
	if simrt.Inst.NonSerial != "" {
		s.gran = GranCall
	}
	r.sched = s
	return s
}

// NewSolo makes a scheduler for a call that is executed alone.
func (r *Run) NewSolo() *Sched {
	s := &Sched{r: r, gran: GranCall, limit: defaultStepLim}
	r.sched = s
	return s
}

// Spawn adds a task.
func (s *Sched) Spawn(n *Node, name string, ent *Stream, fn func()) *Task {
	if ent == nil {
		ent = s.r.Entropy()
	}
	// goroutines that earlier calls left behind on the node
	bg := n.bg
	n.bg = nil
	for _, t := range bg {
		t.ID = len(s.tasks)
		t.blocked = false
		s.tasks = append(s.tasks, t)
		if s.race {
			t.th = simrt.NewThread(t.ID, nil)
		}
	}
	t := &Task{ID: len(s.tasks), Name: name, Node: n, Ent: ent, fn: fn}
	s.tasks = append(s.tasks, t)
	if s.race {
		var p *simrt.Thread
		if s.cur != nil {
			p = s.cur.th
		}
		t.th = simrt.NewThread(t.ID, p)
	}
	return t
}

// Races switches the detection of unsynchronised accesses on; to be called before
// the first Spawn. All tasks spawned by the scenario are taken as concurrent.
func (s *Sched) Races() {
	if simrt.Inst.NonSerial != "" || simrt.Inst.NoRaces != "" {
		return
	}
	s.race = true
	simrt.RaceStart()
}

// Race describes the first unsynchronised access, or is empty.
func (s *Sched) Race() string {
	if !s.race {
		return ""
	}
	return simrt.RaceFound
}

// PlanSites chooses statements at which the task will be preempted, among those in
// visited (statement numbers executed by such a call before).
func (s *Sched) PlanSites(t *Task, visited []uint32) {
	if s.gran != GranSites || len(visited) == 0 {
		return
	}
	t.plan = map[uint32]int{}
	k := 1 + s.r.Intn(4)
	for i := 0; i < k; i++ {
		site := visited[s.r.Intn(len(visited))]
		t.plan[site] = 1 + s.r.LogRange(0, 40)
	}
}

func (t *Task) start() {
	t.started = true
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(killed); ok {
					t.Killed = true
					return
				}
				if _, ok := e.(stopRun); ok {
					t.Panic = "stop"
					return
				}
				t.Panic = panicText(e)
			}
		}()
		t.fn()
	})
}

func (s *Sched) suspend() {
	t := s.cur
	if !t.yield(struct{}{}) {
		panic(killed{})
	}
}

func (s *Sched) hook(site uint32) {
	t := s.cur
	if t == nil {
		simrt.Countdown = 1 << 62
		return
	}
	if simrt.Countdown <= 0 {
		t.Steps += s.quantum - simrt.Countdown
		s.quantum = 0
		if t.Steps >= s.limit {
			simrt.Countdown = 1 << 62
			panic(stepLimit{})
		}
		s.mark(t, site)
		s.suspend()
		return
	}
	if n, ok := t.plan[site]; ok {
		if n > 1 {
			t.plan[site] = n - 1
			return
		}
		delete(t.plan, site)
		t.Steps += s.quantum - simrt.Countdown
		s.quantum = 0
		simrt.Countdown = 0
		s.mark(t, site)
		s.suspend()
	}
}

// sync preempts at a synchronisation operation, now and then until the others are
// done or stuck.
func (s *Sched) sync() {
	t := s.cur
	if t == nil || s.gran == GranCall {
		return
	}
	if s.syncp == 0 {
		s.syncp = 1 + s.r.Weighted(1, 1, 1)
		s.syncs = 40
	}
	if s.syncp == 1 || s.syncs == 0 {
		return
	}
	others := false
	for _, o := range s.tasks {
		if o != t && !o.Done {
			others = true
		}
	}
	if !others || !s.r.Bool(1, 4) {
		return
	}
	s.syncs--
	t.parked = s.syncp == 3
	t.Steps += s.quantum - simrt.Countdown
	s.quantum = 0
	simrt.Countdown = 0
	s.mark(t, 0)
	s.suspend()
}

func (s *Sched) mark(t *Task, site uint32) {
	s.r.switches++
	s.r.Inter = (s.r.Inter ^ (uint64(t.ID)<<32 | uint64(site))) * 1099511628211
}

func (s *Sched) kill(n *Node) {
	for _, t := range n.bg {
		s.killTask(t)
	}
	n.bg = nil
	for _, t := range s.tasks {
		if t.Node == n && !t.Done && t != s.cur {
			s.killTask(t)
		}
	}
}

func (s *Sched) killTask(t *Task) {
	t.Done, t.Killed = true, true
	if t.started && !t.stopped {
		t.stopped = true
		// Its deferred functions run in its own process, which cannot wait or start anything.
		old, node := s.cur, curNode
		s.cur = nil
		hook, gh, bh, th, cd := simrt.Hook, simrt.GoHook, simrt.BlockHook, simrt.Cur, simrt.Countdown
		simrt.Hook, simrt.Cur = nil, nil
		sh := simrt.SyncHook
		simrt.SyncHook = nil
		simrt.GoHook = func(func()) {}
		simrt.BlockHook = func() { panic(killed{}) }
		simrt.Countdown = 1 << 62
		switchTo(t.Node)
		t.stop()
		t.Panic = ""
		switchTo(node)
		simrt.Hook, simrt.GoHook, simrt.BlockHook, simrt.Cur, simrt.Countdown = hook, gh, bh, th, cd
		simrt.SyncHook = sh
		s.cur = old
	}
}

// Close kills whatever is left.
func (s *Sched) Close() {
	for _, t := range s.tasks {
		switch {
		case t.Done:
		case t.child:
			t.OnDone = nil
			t.plan = nil
			t.Node.bg = append(t.Node.bg, t)
		default:
			s.killTask(t)
		}
	}
	s.unwatch()
	if s.race {
		simrt.RaceStop()
	}
	s.r.sched = nil
}

func (s *Sched) unwatch() {
	for _, t := range s.tasks {
		for site := range t.plan {
			simrt.Tab[site].Watch = 0
		}
	}
}

// Live returns the tasks that are not done.
func (s *Sched) Live() []*Task {
	var l []*Task
	for _, t := range s.tasks {
		if !t.Done {
			l = append(l, t)
		}
	}
	return l
}

// Step runs one chosen task for one quantum. It reports false if none is left.
func (s *Sched) Step() bool {
	var runnable, blocked []*Task
	for _, t := range s.tasks {
		if t.Done {
			continue
		}
		if t.blocked {
			blocked = append(blocked, t)
		} else {
			runnable = append(runnable, t)
		}
	}
	if len(runnable) == 0 {
		calls := 0
		for _, t := range blocked {
			if !t.child {
				calls++
			}
		}
		if calls == 0 {
			return false // at most goroutines that wait for later calls
		}
		s.r.failSoft("deadlock", "all %d unfinished calls are blocked: %s", len(blocked), blocked[0].Name)
		panic(stopRun{})
	}
	multi := len(runnable)+len(blocked) > 1
	var free []*Task
	for _, t := range runnable {
		if !t.parked {
			free = append(free, t)
		}
	}
	switch {
	case len(free) == len(runnable):
	case len(free) == 0 || s.r.Bool(1, 8):
		for _, t := range runnable {
			t.parked = false
		}
	default:
		runnable = free
	}
	t := runnable[0]
	if len(runnable) > 1 {
		t = runnable[s.r.Intn(len(runnable))]
	}
	q := int64(1 << 40)
	if multi && s.budget > 0 {
		switch s.gran {
		case GranCoarse:
			q = int64(s.r.LogRange(1, 1<<13))
			s.budget--
		case GranFine:
			if s.r.Bool(1, 8) {
				q = int64(s.r.LogRange(1, 1<<12))
			} else {
				q = int64(s.r.LogRange(1, 1<<7))
			}
			s.budget--
		}
	}
	if multi && q > spinLim {
		q = spinLim // one that spins must let the others run in the end
	}
	if rest := s.limit - t.Steps; q > rest {
		q = rest
	}
	s.resume(t, q)
	return true
}

func (s *Sched) resume(t *Task, q int64) {
	r := s.r
	switchTo(t.Node)
	simrt.Entropy = t.Ent
	simrt.Clock = func() time.Time { return r.nodeNow(t.Node) }
	simrt.MathRandSeed = func() int64 { return t.Node.boot }
	simrt.SleepHook = func(d time.Duration) {
		r.now += int64(d)
		simrt.Countdown = 0
	}
	simrt.GoHook = func(fn func()) {
		c := s.Spawn(t.Node, t.Name+"/go", t.Ent.Child(), fn)
		c.child = true
		c.OnDone = func() {
			if c.Panic != "" && c.Panic != "stop" {
				t.Panic = c.Panic // a panicking goroutine takes the process down
				if t.Done {
					r.failSoft(PanicKind(c.Panic), "goroutine of %s: %s", t.Name, c.Panic)
				}
			}
		}
	}
	simrt.ChooseHook = func(n int) int { return r.Intn(n) }
	simrt.BlockHook = func() {
		t.blocked = true
		t.Steps += s.quantum - simrt.Countdown
		s.quantum = 0
		simrt.Countdown = 0
		s.suspend()
	}
	simrt.Hook = s.hook
	simrt.SyncHook = s.sync
	if simrt.Inst.NonSerial != "" {
		simrt.Hook, simrt.SyncHook = nil, nil
		simrt.GoHook, simrt.BlockHook = nil, nil
	}
	for site := range t.plan {
		simrt.Tab[site].Watch = 1
	}
	before := t.Steps
	simrt.Moved = false
	s.cur = t
	simrt.Cur = t.th
	s.quantum = q
	simrt.Countdown = q
	if !t.started {
		t.start()
	}
	_, more := t.next()
	used := t.Steps - before
	if s.quantum != 0 {
		used += s.quantum - simrt.Countdown
		t.Steps = before + used
	}
	simrt.Countdown = 1 << 62
	simrt.SyncHook = nil
	simrt.Entropy = nil
	s.cur = nil
	simrt.Cur = nil
	for site := range t.plan {
		simrt.Tab[site].Watch = 0
	}
	r.Steps += used
	r.now += used*1000 + 100
	if used > 0 || !more || simrt.Moved {
		for _, o := range s.tasks {
			if o != t {
				o.blocked = false
			}
		}
	}
	r.Inter = (r.Inter ^ uint64(t.ID+1)) * 1099511628211
	if !more {
		t.Done = true
		t.stopped = true
		if t.OnDone != nil {
			t.OnDone()
		}
		if t.Panic == "stop" {
			panic(stopRun{})
		}
	}
}

// Run runs all tasks to their end.
func (s *Sched) Run() {
	for s.Step() {
	}
}

// Switches is the number of preemptions so far.
func (r *Run) Switches() int { return r.switches }

func (t *Task) String() string { return fmt.Sprintf("%d:%s@n%d", t.ID, t.Name, t.Node.ID) }
