package simrt

import (
	"fmt"
	"reflect"
)

// Happens-before bookkeeping for the memory the instrumenter reports: maps, and
// variables and fields of more than one machine word. Statements are atomic in the
// simulator; in a real process these accesses are not, so two of them that are not
// ordered by synchronisation, one being a write, break the program even if every
// order of the statements would be fine.

// RaceOn switches the bookkeeping on.
var RaceOn bool

// Thread is a simulated thread's clock.
type Thread struct {
	ID int
	C  []uint32
}

// Cur is the running thread.
var Cur *Thread

// RaceFound holds the first race of the current epoch.
var RaceFound string

var raceGen uint64

// Clock is embedded in synchronisation objects.
type VClock struct {
	gen uint64
	c   []uint32
}

type raceAt struct {
	id   int
	clk  uint32
	site uint32
}

type raceCell struct {
	w     raceAt
	hasW  bool
	reads []raceAt
}

var (
	raceMem  = map[uintptr]*raceCell{}
	raceMaps = map[uintptr]*raceCell{}
	raceKeep = map[uintptr]interface{}{}
)

// RaceStart begins an epoch.
func RaceStart() {
	raceGen++
	RaceFound = ""
	if len(raceAtomics) > 0 {
		raceAtomics = map[uintptr]*VClock{}
	}
	if len(raceMem)+len(raceMaps)+len(raceKeep) > 0 {
		raceMem, raceMaps, raceKeep = map[uintptr]*raceCell{}, map[uintptr]*raceCell{}, map[uintptr]interface{}{}
	}
	RaceOn = true
}

// RaceStop ends it.
func RaceStop() { RaceOn = false }

func join(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// NewThread makes a thread that starts now; parent may be nil.
func NewThread(id int, parent *Thread) *Thread {
	t := &Thread{ID: id}
	if parent != nil {
		t.C = join(t.C, parent.C)
		parent.C[parent.ID]++
	}
	for len(t.C) <= id {
		t.C = append(t.C, 0)
	}
	t.C[id] = 1
	return t
}

// Acquire orders what follows after what was released into c.
func (c *VClock) Acquire() {
	if !RaceOn || Cur == nil || c.gen != raceGen {
		return
	}
	Cur.C = join(Cur.C, c.c)
}

// Release orders what came before ahead of later acquisitions.
func (c *VClock) Release() {
	Moved = true // those that wait may go on
	if !RaceOn || Cur == nil {
		return
	}
	if c.gen != raceGen {
		c.gen, c.c = raceGen, nil
	}
	c.c = join(append([]uint32(nil), c.c...), Cur.C)
	Cur.C[Cur.ID]++
}

var raceAtomics = map[uintptr]*VClock{}

// AtomicHB is called before an atomic operation.
func AtomicHB(a uintptr) {
	if !RaceOn || Cur == nil {
		return
	}
	c := raceAtomics[a]
	if c == nil {
		c = &VClock{}
		raceAtomics[a] = c
	}
	c.Acquire()
	c.Release()
}

func (c *raceCell) access(write bool, site uint32) (conflict bool, other raceAt) {
	me := Cur
	before := func(x raceAt) bool { return x.id == me.ID || (x.id < len(me.C) && x.clk <= me.C[x.id]) }
	if c.hasW && !before(c.w) {
		conflict, other = true, c.w
	}
	at := raceAt{me.ID, me.C[me.ID], site}
	if write {
		for _, x := range c.reads {
			if !before(x) {
				conflict, other = true, x
			}
		}
		c.w, c.hasW, c.reads = at, true, c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].id == me.ID {
			c.reads[i] = at
			return
		}
	}
	c.reads = append(c.reads, at)
	return
}

// Acc reports an access: f gives a map, or a pointer to what is accessed.
func Acc(f func() interface{}, write bool, site uint32) {
	if !RaceOn || Cur == nil || RaceFound != "" {
		return
	}
	var p interface{}
	func() {
		defer func() { _ = recover() }()
		p = f()
	}()
	if p == nil {
		return
	}
	v := reflect.ValueOf(p)
	bad, other := false, raceAt{}
	what := "map"
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return
		}
		a := v.Pointer()
		c := raceMaps[a]
		if c == nil {
			c = &raceCell{}
			raceMaps[a] = c
			raceKeep[a] = p
		}
		bad, other = c.access(write, site)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		what = v.Type().Elem().String()
		a, n := v.Pointer(), v.Type().Elem().Size()/8
		if n < 2 || n > 64 {
			return
		}
		k := 0
		for i := uintptr(0); i < n; i++ {
			w := a + 8*i
			c := raceMem[w]
			if c == nil {
				c = &raceCell{}
				raceMem[w] = c
				raceKeep[a] = p
			}
			if b, o := c.access(write, site); b {
				k++
				other = o
			}
		}
		bad = k >= 2
	default:
		return
	}
	if bad {
		k := "read"
		if write {
			k = "write"
		}
		RaceFound = fmt.Sprintf("unsynchronised access to a %s shared between calls: %s at %s, other access at %s", what, k, SiteName(site), SiteName(other.site))
	}
}

// SiteName is the source position of a statement.
func SiteName(s uint32) string {
	if int(s) < len(Inst.Sites) {
		return Inst.Sites[s]
	}
	return "?"
}
