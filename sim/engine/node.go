package engine

import (
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"reflect"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/simrt/smrand"
	"verif.local/sim/simrt/smrand2"
)

// Node is a simulated process: its own copy of all package variables of the
// library, its own clock, and its own process-wide math/rand state.
type Node struct {
	ID    int
	vals  []reflect.Value // pointers to saved values
	mr    *mrand.Rand
	mr2   *mrand2.Rand
	boot  int64 // seed of the process-wide math/rand generator of this incarnation
	Skew  int64 // ns added to the simulated time
	Froze bool  // the clock does not advance
	at    int64
	Inc   int
	bg    []*Task // goroutines left behind by finished calls
}

var pristine []reflect.Value
var curNode *Node

func initGlobals() {
	if pristine != nil {
		return
	}
	globalRanges = nil
	for _, g := range simrt.Globals {
		v := reflect.ValueOf(g.Ptr)
		globalRanges = append(globalRanges, addrRange{v.Pointer(), v.Pointer() + v.Elem().Type().Size()})
	}
	pristine = captureGlobals()
}

// captureGlobals deep-copies the current values of all package variables.
func captureGlobals() []reflect.Value {
	d := newCopier()
	out := make([]reflect.Value, 0, len(simrt.Globals))
	for _, g := range simrt.Globals {
		v := reflect.ValueOf(g.Ptr).Elem()
		n := reflect.New(v.Type())
		d.copyInto(n.Elem(), v)
		out = append(out, n)
	}
	return out
}

func freshGlobals() []reflect.Value {
	d := newCopier()
	out := make([]reflect.Value, len(pristine))
	for i, p := range pristine {
		out[i] = reflect.New(p.Elem().Type())
		d.copyInto(out[i].Elem(), p.Elem())
	}
	return out
}

// switchTo loads the package state of n.
func switchTo(n *Node) {
	if curNode == n {
		return
	}
	if curNode != nil {
		for i, g := range simrt.Globals {
			curNode.vals[i].Elem().Set(reflect.ValueOf(g.Ptr).Elem())
		}
		curNode.mr, curNode.mr2 = smrand.State, smrand2.State
	}
	curNode = n
	if n != nil {
		for i, g := range simrt.Globals {
			reflect.ValueOf(g.Ptr).Elem().Set(n.vals[i].Elem())
		}
		smrand.State, smrand2.State = n.mr, n.mr2
	}
}

// NewNode boots a node with pristine package state.
func (r *Run) NewNode() *Node {
	n := &Node{ID: len(r.Nodes), vals: freshGlobals(), boot: int64(r.entSeed*31 + uint64(len(r.Nodes)))}
	r.Nodes = append(r.Nodes, n)
	return n
}

// Restart kills all tasks of the node and boots it again: only what the scenario
// itself holds as durable state survives.
func (r *Run) Restart(n *Node) {
	r.Fault("crash-restart")
	sc := r.sched
	if sc == nil {
		sc = &Sched{r: r}
	}
	sc.kill(n)
	if curNode == n {
		curNode = nil // discard the live state
	}
	n.vals = freshGlobals()
	n.mr, n.mr2 = nil, nil
	n.Inc++
	n.boot = int64(r.entSeed*31 + uint64(n.ID) + uint64(n.Inc)*7919)
	r.Tracef("restart node %d", n.ID)
}

// Now is the node's wall clock.
func (r *Run) nodeNow(n *Node) time.Time {
	t := r.now
	if n != nil {
		if n.Froze {
			t = n.at
		}
		t += n.Skew
	}
	return time.Unix(1600000000, 0).Add(time.Duration(t))
}

// Freeze stops the clock of n.
func (r *Run) Freeze(n *Node) {
	r.Fault("clock-freeze")
	n.Froze, n.at = true, r.now
}

// Jump moves the clock of n.
func (r *Run) Jump(n *Node, d time.Duration) {
	r.Fault("clock-jump")
	n.Skew += int64(d)
}

// SetBoot fixes the seed that the process-wide math/rand generator has after a start of n.
func (r *Run) SetBoot(n *Node, seed int64) {
	n.boot = seed
	n.mr, n.mr2 = nil, nil
	if curNode == n {
		smrand.State, smrand2.State = nil, nil
	}
}
