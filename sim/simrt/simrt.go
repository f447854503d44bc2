// Package simrt is the seam between the instrumented library and the simulator.
//
// The instrumenter inserts a call of Y before every statement of the library, and
// redirects its clock, randomness, locks and goroutines here. Everything in this
// package assumes that at most one instrumented goroutine runs at any moment: the
// simulator runs tasks as coroutines.
package simrt

import (
	cryptorand "crypto/rand"
	"errors"
	"io"
	"time"
)

// MaxSites bounds the number of instrumented statements.
const MaxSites = 1 << 16

// Site is the per-statement bookkeeping.
type Site struct {
	Count uint32
	Watch uint32
}

// Tab is indexed by the statement number.
var Tab [MaxSites]Site

// Countdown is the number of statements until the engine gets control.
var Countdown int64 = 1 << 62

// Hook is the engine's entry point, called with the statement about to execute.
var Hook func(site uint32)

// Y marks the beginning of a statement.
func Y(site uint32) {
	s := &Tab[site]
	s.Count++
	Countdown--
	if Countdown <= 0 || s.Watch != 0 {
		if Hook != nil {
			Hook(site)
		} else {
			Countdown = 1 << 62
		}
	}
}

// ---- clock -------------------------------------------------------------

// Clock returns the simulated wall clock of the current node.
var Clock func() time.Time

// SleepHook implements time.Sleep.
var SleepHook func(d time.Duration)

// Now replaces time.Now.
func Now() time.Time {
	if Clock == nil {
		return time.Unix(1600000000, 0)
	}
	return Clock()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if SleepHook != nil {
		SleepHook(d)
	}
}

// ---- entropy -----------------------------------------------------------

// Entropy is the source behind crypto/rand for the current task.
var Entropy io.Reader

type entropyReader struct{}

func (entropyReader) Read(b []byte) (int, error) {
	if Entropy == nil {
		return 0, errors.New("simrt: entropy drawn outside of a simulated task")
	}
	return Entropy.Read(b)
}

// Reader is what crypto/rand.Reader is replaced with.
var Reader io.Reader = entropyReader{}

// RealEntropy is the original source; only the engine's own bookkeeping may use it.
var RealEntropy io.Reader

func init() {
	RealEntropy = cryptorand.Reader
	cryptorand.Reader = Reader
}

// MathRandSeed gives the seed for the process-wide math/rand generator of the
// current node incarnation.
var MathRandSeed func() int64

// ---- goroutines and blocking --------------------------------------------

// GoHook starts a simulated goroutine.
var GoHook func(fn func())

var pending []func()

// Go replaces the go statement.
func Go(fn func()) {
	if GoHook != nil {
		GoHook(fn)
		return
	}
	pending = append(pending, fn)
}

// BlockHook suspends the current task until another one has made progress.
var BlockHook func()

// Moved is set by simulated I/O when it transferred something: blocked tasks may
// be able to proceed.
var Moved bool

// SyncHook is told about every synchronisation operation.
var SyncHook func()

// Sync is called around synchronisation operations: the places where schedules differ most.
func Sync() {
	if SyncHook != nil {
		SyncHook()
	}
}

// Block is called by blocking primitives while they cannot proceed.
func Block() {
	if BlockHook != nil {
		BlockHook()
		return
	}
	if len(pending) > 0 {
		f := pending[0]
		pending = pending[1:]
		f()
		return
	}
	panic("simrt: deadlock outside of the scheduler")
}

// ---- package variables ---------------------------------------------------

// Global is a package-level variable of the library.
type Global struct {
	Name string
	Ptr  interface{} // pointer to the variable
}

// Globals lists all package-level variables of the library.
var Globals []Global

// RegGlobal is called by the generated registration files.
func RegGlobal(name string, ptr interface{}) {
	Globals = append(Globals, Global{name, ptr})
}

// Instrumentation describes the tree the binary was built from; filled in by the
// generated file zz_tab.go.
type Instrumentation struct {
	Sites     []string // "pkg/file.go:line"
	NonSerial string   // reason why the tree cannot be run statement by statement
	DictInts  []uint64
	DictStrs  []string
	Packages  []string
	GoStmts   int
	NoRaces   string // reason why accesses are not reported
	Accesses  int    // reported accesses in the source
}
