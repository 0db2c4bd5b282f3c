package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []Decision
	model  []uint64
}

// Sample is a finished path with a concrete model, for replay against the real code.
type Sample struct {
	Inputs []Input
	Obs    [][2]string
}

// Explorer runs one harness over all paths.
type Explorer struct {
	P       *Program
	sh      *SolverShared
	name    string
	setup   *ssa.Function
	run     *ssa.Function
	tier    int
	workers int
	limit   int64
	stopOn  int // stop after this many distinct violation messages (0: never)

	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	busy     int
	stop     bool
	deadline time.Time

	paths, infeasible, forks int64
	steps                    int64
	maxSteps                 int64
	unknowns                 map[string]int
	unsupported              map[string]int
	unsupSamples             []Sample
	internal                 map[string]int
	covers                   map[string]int64
	viols                    map[string][]*Violation
	samples                  []Sample
	seen                     int64
	timedOut                 bool
	setupErr                 string
	setupSteps               int64
	rng                      *rand.Rand
	wantSamples              int
	maxVars                  int
	partial                  map[string]string
}

func (x *Explorer) push(prefix []Decision, model []uint64) {
	x.mu.Lock()
	x.work = append(x.work, workItem{prefix, model})
	x.forks++
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) notePinned(where string) {
	x.mu.Lock()
	x.unsupported["symbolic float pinned to a few values at "+where]++
	x.mu.Unlock()
}

func (x *Explorer) noteUnknown(where string) {
	x.mu.Lock()
	x.unknowns[where]++
	x.mu.Unlock()
}

func (m *Machine) evalInputs(model []uint64) []Input {
	out := make([]Input, len(m.inputs))
	for i, in := range m.inputs {
		out[i] = Input{Kind: in.Kind, V: in.V}
		if in.e != nil {
			out[i].V = m.eb.Eval(in.e, model)
		}
	}
	return out
}

func (x *Explorer) violation(m *Machine, kind, msg string, model []uint64) {
	v := &Violation{Harness: x.name, Msg: msg, Kind: kind, Stack: m.where(), Inputs: m.evalInputs(model)}
	x.mu.Lock()
	defer x.mu.Unlock()
	k := kind + ": " + msg
	if len(x.viols[k]) < 40 {
		x.viols[k] = append(x.viols[k], v)
	}
}

func (x *Explorer) explore(budget time.Duration) {
	x.cond = sync.NewCond(&x.mu)
	x.unknowns = map[string]int{}
	x.unsupported = map[string]int{}
	x.internal = map[string]int{}
	x.covers = map[string]int64{}
	x.viols = map[string][]*Violation{}
	x.rng = rand.New(rand.NewSource(1))
	x.deadline = time.Now().Add(budget)
	x.sh.deadline.Store(x.deadline.UnixNano())
	defer x.sh.deadline.Store(0)
	x.work = []workItem{{}}
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget, func() {
		x.mu.Lock()
		if x.busy > 0 || len(x.work) > 0 {
			x.timedOut = true
		}
		x.stop = true
		x.mu.Unlock()
		x.cond.Broadcast()
	})
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	timer.Stop()
}

func (x *Explorer) worker(id int) {
	m := newMachine(x.P, nil, x)
	m.sol = newSolver(x.sh, m.eb)
	defer m.sol.close()
	m.limit = x.limit
	var state Value
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				x.mu.Lock()
				switch y := r.(type) {
				case pathAbort:
					x.setupErr = y.kind + ": " + y.msg
				case *GoPanic:
					x.setupErr = "panic: " + y.msg + " at " + y.stack
				default:
					x.setupErr = fmt.Sprint(r) + " at " + m.where() + goStack()
				}
				x.stop = true
				x.mu.Unlock()
				x.cond.Broadcast()
			}
		}()
		m.resetPath()
		m.limit = 2_000_000_000
		for _, p := range m.P.prog.AllPackages() {
			if pp := p.Pkg.Path(); m.pkgState[p] == 0 && (strings.Contains(pp, "yarql") && !strings.Contains(pp, "examples")) {
				m.initPkg(p)
			}
		}
		if x.setup != nil {
			state = m.call(m.P.fn(x.setup), nil, nil)
		}
		m.limit = x.limit
		if m.setupCheck() {
			x.mu.Lock()
			x.setupSteps = m.steps
			x.mu.Unlock()
		}
		return true
	}()
	if !ok {
		return
	}
	m.baseObj = m.nextObj
	for {
		x.mu.Lock()
		for len(x.work) == 0 && x.busy > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.work) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			break
		}
		it := x.work[len(x.work)-1]
		x.work[len(x.work)-1] = workItem{}
		x.work = x.work[:len(x.work)-1]
		x.busy++
		x.mu.Unlock()
		x.runPath(m, it, state)
		x.mu.Lock()
		x.busy--
		done := x.busy == 0 && len(x.work) == 0
		x.mu.Unlock()
		if done {
			x.cond.Broadcast()
		}
	}
	x.mu.Lock()
	if x.partial == nil {
		x.partial = m.partial
	}
	x.mu.Unlock()
}

func (m *Machine) setupCheck() bool { return true }

func goStack() string {
	b := make([]byte, 6000)
	return "\n" + string(b[:runtime.Stack(b, false)])
}

func (x *Explorer) runPath(m *Machine, it workItem, state Value) {
	m.resetPath()
	m.prefix = it.prefix
	m.model = it.model
	m.inPath = true
	kind, msg := "", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch y := r.(type) {
				case pathAbort:
					kind, msg = y.kind, y.msg
				case *GoPanic:
					kind, msg = "panic", y.msg
					m.X.violation(m, "panic", y.msg+" ["+short(y.stack)+"]", m.model)
				case specAbort:
					kind, msg = "internal", "stray speculation abort"
				default:
					kind, msg = "internal", fmt.Sprint(r)+" at "+m.where()+goStack()
				}
			}
		}()
		var args []Value
		if x.setup != nil {
			args = []Value{state}
		}
		m.call(m.P.fn(x.run), args, nil)
	}()
	switch kind {
	case "steplimit", "depth":
		m.X.violation(m, kind, trimMsg(msg), m.model)
	}
	m.inPath = false
	nv := len(m.eb.vars)
	var sample *Sample
	takeSample := func() *Sample {
		s := &Sample{Inputs: m.evalInputs(m.model)}
		for _, o := range m.obs {
			b := make([]byte, len(o.cells))
			for i, c := range o.cells {
				b[i] = byte(m.eb.Eval(m.toExpr(c, 8), m.model))
			}
			s.Obs = append(s.Obs, [2]string{o.label, hex.EncodeToString(b)})
		}
		return s
	}
	x.mu.Lock()
	x.steps += m.steps
	if m.steps > x.maxSteps {
		x.maxSteps = m.steps
	}
	if nv > x.maxVars {
		x.maxVars = nv
	}
	switch kind {
	case "", "violation":
		x.paths++
		for c := range m.covers {
			x.covers[c]++
		}
		if kind == "" {
			x.seen++
			if len(x.samples) < x.wantSamples {
				sample = takeSample()
				x.samples = append(x.samples, *sample)
			} else if x.wantSamples > 0 {
				if k := x.rng.Int63n(x.seen); k < int64(x.wantSamples) {
					sample = takeSample()
					x.samples[k] = *sample
				}
			}
		}
	case "infeasible":
		x.infeasible++
	case "panic", "steplimit", "depth":
		x.paths++
	case "unsupported":
		k := msg
		x.unsupported[k]++
		if len(x.unsupSamples) < 200 {
			x.unsupSamples = append(x.unsupSamples, *takeSample())
		}
	default:
		x.internal[kind+": "+msg]++
	}
	if x.stopOn > 0 && len(x.viols) >= x.stopOn {
		x.stop = true
		x.cond.Broadcast()
	}
	x.mu.Unlock()
	m.undo()
}

func trimMsg(s string) string {
	if i := strings.Index(s, ":"); i >= 0 {
		return s[:i]
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
