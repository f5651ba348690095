package main

// Jobs: one symbolic machine per (harness, shard).

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// JobResult is what one (harness, shard) produced.
type JobResult struct {
	Harness   string
	Shard     int
	Obs       map[string]*Obligation
	Order     []string
	Cover     map[string]bool
	Paths     int
	Steps     int
	Queries   int
	SolverSec float64
	WallSec   float64
	Unsup     string // undecided: construct outside the verifier's reach
	Fns       map[string]int
	Contracts map[string]int
	Assume    map[string]bool
	Loops     map[string]int
	WantLoop  map[string]bool
	Shapes    map[string]int
	Loose     map[string]bool
	Blind     map[string]bool
	BadInit   map[string]bool
	Vars      map[string][]string
	Unrolled  map[string]int
}

func newMachine(w *World) *Machine {
	c := newCtx()
	m := &Machine{
		w: w, c: c,
		obs: map[string]*Obligation{}, cover: map[string]bool{},
		fuel: 3000000, infos: map[*ssa.Function]*fnInfo{},
		modset: map[string]map[string][]PathElem{},
		fnsRun: map[string]int{}, contract: map[string]int{}, assume: map[string]bool{},
		entCache: map[[2]interface{}]bool{},
		globals:  map[*ssa.Global]int{},
		maxCex:   6, wantLoop: map[string]bool{}, shapes: map[string]int{}, loose: map[string]bool{}, blind: map[string]bool{}, badInit: map[string]bool{}, vague: map[string]bool{}, fnVars: map[string][]string{}, loopsProved: map[string]int{}, unrolled: map[string]int{},
	}
	m.s = newSolver(c)
	return m
}

// globalDeadline bounds the whole proof phase, when set.
var globalDeadline time.Time

const firstObj = 1 << 16

// initPackages executes the package initialisers concretely.
func (m *Machine) initPackages() {
	m.initing = true
	m.deadline = time.Now().Add(120 * time.Second)
	for _, p := range m.w.pkgs {
		fn := p.Func("init")
		st := &State{heap: m.base, nextObj: firstObj + 4096*m.initN}
		if m.initN > 0 {
			st.nextObj = m.initNext
		}
		m.cur = st
		m.pushFrame(st, fn, nil, nil, nil, func(m *Machine, st *State, _ []Val) {
			m.base = st.heap
			m.initNext = st.nextObj
		})
		m.run(st)
		m.initN++
	}
	m.initing = false
	m.fnsRun = map[string]int{}
	m.assume = map[string]bool{}
	var gs []*ssa.Global
	for g := range m.globals {
		if m.w.mutableGlobals()[g] {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return m.globals[gs[i]] < m.globals[gs[j]] })
	for _, g := range gs {
		if o := m.base.get(m.globals[g]); o != nil {
			n := *o
			n.val = m.anyValue(g, o.typ, o.val)
			m.base = m.base.set(o.id, &n)
		}
	}
}

func (m *Machine) runHarness(h *Harness) {
	st := &State{heap: m.base, nextObj: m.initNext}
	m.cur = st
	m.work = nil
	m.pushFrame(st, h.fn, nil, nil, nil, func(m *Machine, st *State, _ []Val) {})
	m.run(st)
}

func runJob(w *World, h *Harness, shard int, limit time.Duration, verbose bool) *JobResult {
	start := time.Now()
	r := runJobWith(w, h, shard, limit, verbose, false)
	if left := limit - time.Since(start); strings.Contains(r.Unsup, changingGlobal) && left > 0 {
		// What fails with the values the program starts with fails.
		r2 := runJobWith(w, h, shard, left, verbose, true)
		if r2.Unsup == "" {
			r2.Unsup = r.Unsup
		}
		return r2
	}
	return r
}

func runJobWith(w *World, h *Harness, shard int, limit time.Duration, verbose, initial bool) (res *JobResult) {
	start := time.Now()
	m := newMachine(w)
	m.initialGlobals = initial
	m.verbose = verbose
	m.harn, m.shard, m.nsh = h.name, shard, h.shards
	res = &JobResult{Harness: h.name, Shard: shard}
	defer m.s.close()
	finish := func() {
		res.Obs, res.Order, res.Cover = m.obs, m.order, m.cover
		res.Paths = m.paths
		res.Queries = m.s.queries
		res.SolverSec = m.s.dur.Seconds()
		res.WallSec = time.Since(start).Seconds()
		res.Fns, res.Contracts, res.Assume = m.fnsRun, m.contract, m.assume
		res.Loops, res.Unrolled = m.loopsProved, m.unrolled
		res.WantLoop, res.Shapes = m.wantLoop, m.shapes
		res.Loose, res.Blind, res.BadInit, res.Vars = m.loose, m.blind, m.badInit, m.fnVars
	}
	attempt := func() (again bool) {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case restartSignal:
					if verbose {
						fmt.Println("restart:", x.why)
					}
					again = true
				case unsupported:
					res.Unsup = x.msg
				default:
					res.Unsup = fmt.Sprintf("internal error: %v", r)
					if os.Getenv("GOVC_STACK") != "" {
						fmt.Println(res.Unsup)
						debug.PrintStack()
					}
				}
			}
		}()
		m.runHarness(h)
		return false
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(unsupported); ok {
					res.Unsup = "package init: " + x.msg
				} else {
					res.Unsup = fmt.Sprintf("package init: %v", r)
					if os.Getenv("GOVC_STACK") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		m.initPackages()
	}()
	if res.Unsup != "" {
		finish()
		return res
	}
	m.deadline = start.Add(limit)
	for i := 0; ; i++ {
		m.obs = map[string]*Obligation{}
		m.order = nil
		m.cover = map[string]bool{}
		m.paths = 0
		m.fnsRun, m.contract = map[string]int{}, map[string]int{}
		m.loopsProved, m.unrolled = map[string]int{}, map[string]int{}
		m.entCache = map[[2]interface{}]bool{}
		if !attempt() {
			break
		}
		if i > 200 {
			res.Unsup = "too many restarts"
			break
		}
	}
	finish()
	return res
}

// HarnessResult aggregates the shards.
type HarnessResult struct {
	H        *Harness
	Jobs     []*JobResult
	Obs      map[string]*Obligation
	Order    []string
	Unsup    []string
	Vacuous  []string
	Loops    map[string]int
	Unrolled map[string]int
	Shapes   map[string]int
	Vars     map[string][]string
	Loose    map[string]bool
	Blind    map[string]bool
	Wall     float64
	// annotations without a place in the code
	Misfit []string
}

func (r *HarnessResult) refuted() []string {
	var out []string
	for _, l := range r.Order {
		if len(r.Obs[l].refuted) > 0 {
			out = append(out, l)
		}
	}
	return out
}
func (r *HarnessResult) unknown() []string {
	var out []string
	for _, l := range r.Order {
		if len(r.Obs[l].unknown) > 0 {
			out = append(out, l)
		}
	}
	return out
}

func runAll(w *World, hs []*Harness, workers int, limit time.Duration, verbose bool) []*HarnessResult {
	type job struct {
		h *HarnessResult
		s int
	}
	var out []*HarnessResult
	var jobs []job
	for _, h := range hs {
		r := &HarnessResult{H: h, Obs: map[string]*Obligation{}, Loops: map[string]int{}, Unrolled: map[string]int{}, Shapes: map[string]int{}, Vars: map[string][]string{}, Loose: map[string]bool{}, Blind: map[string]bool{}}
		out = append(out, r)
		for s := 0; s < h.shards; s++ {
			jobs = append(jobs, job{r, s})
		}
	}
	// sharded harnesses first: they are the long ones
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].h.H.shards > jobs[b].h.H.shards })
	ch := make(chan job)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				var jr *JobResult
				l := limit
				if r := time.Until(globalDeadline); !globalDeadline.IsZero() && r < l {
					l = r
				}
				if l > 0 {
					jr = runJob(w, j.h.H, j.s, l, verbose)
				} else {
					jr = &JobResult{Harness: j.h.H.name, Shard: j.s, Unsup: "time budget of the check"}
				}
				mu.Lock()
				j.h.Jobs = append(j.h.Jobs, jr)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, r := range out {
		cov := map[string]bool{}
		used := map[string]int{}
		want := map[string]string{}
		for _, j := range r.Jobs {
			for k, v := range j.Loops {
				used["loop "+k] += v
			}
			for k, n := range j.Shapes {
				if x, ok := w.shapes[k]; ok && x != n {
					want["shape "+k] = fmt.Sprintf("%s has %d loops, its invariants were written for %d", k, n, x)
				}
				r.Shapes[k] = n
			}
			for k, v := range j.Vars {
				r.Vars[k] = v
			}
			for k := range j.BadInit {
				r.Misfit = append(r.Misfit, k)
			}
			for k := range j.Blind {
				r.Blind[k] = true
			}
			for k := range j.Loose {
				r.Loose[k] = true
			}
			for k := range j.WantLoop {
				want["loop "+k] = "no loop " + k
			}
			for _, l := range j.Order {
				o := j.Obs[l]
				t := r.Obs[l]
				if t == nil {
					t = &Obligation{label: l, pos: o.pos}
					r.Obs[l] = t
					r.Order = append(r.Order, l)
				}
				t.n += o.n
				t.trivial += o.trivial
				t.solver += o.solver
				t.second += o.second
				t.refuted = append(t.refuted, o.refuted...)
				t.unknown = append(t.unknown, o.unknown...)
			}
			for k, v := range j.Cover {
				cov[k] = cov[k] || v
			}
			for k, v := range j.Loops {
				r.Loops[k] += v
			}
			for k, v := range j.Unrolled {
				r.Unrolled[k] += v
			}
			if j.Unsup != "" {
				r.Unsup = append(r.Unsup, j.Unsup)
			}
			r.Wall += j.WallSec
		}
		if len(r.Unsup) == 0 {
			n := 0
			for _, o := range r.Obs {
				n += o.n
			}
			if n == 0 {
				r.Vacuous = append(r.Vacuous, "no obligations")
			}
			for k, v := range cov {
				if !v {
					r.Vacuous = append(r.Vacuous, "unreached: "+k)
				}
			}
		}
		sort.Strings(r.Order)
		for k, v := range want {
			if used[k] == 0 {
				r.Misfit = append(r.Misfit, v)
			}
		}
		// a guess stands only with the invariants it was made for
		for _, l := range append(r.refuted(), r.unknown()...) {
			if len(r.Loose) > 0 && (strings.HasPrefix(l, "inv-") || strings.HasPrefix(l, "pre:")) {
				r.Misfit = append(r.Misfit, sortedKeys(r.Loose)...)
				break
			}
		}
		if len(r.refuted()) > 0 {
			r.Misfit = append(r.Misfit, sortedKeys(r.Blind)...)
		}
		sort.Strings(r.Misfit)
	}
	return out
}

func (r *HarnessResult) summary() string {
	n, tr, so, se, ref, unk := 0, 0, 0, 0, 0, 0
	for _, o := range r.Obs {
		n += o.n
		tr += o.trivial
		so += o.solver
		se += o.second
		ref += len(o.refuted)
		unk += len(o.unknown)
	}
	paths, q := 0, 0
	sv, max := 0.0, 0.0
	for _, j := range r.Jobs {
		paths += j.Paths
		q += j.Queries
		sv += j.SolverSec
		if j.WallSec > max {
			max = j.WallSec
		}
	}
	s := fmt.Sprintf("%-44s obl %d/%d (const %d solver %d cvc5 %d) paths %d queries %d solver %.1fs max %.1fs", r.H.name, n-ref-unk, n, tr, so, se, paths, q, sv, max)
	if ref > 0 {
		s += fmt.Sprintf(" REFUTED %d %v", ref, r.refuted())
	}
	if unk > 0 {
		s += fmt.Sprintf(" UNKNOWN %d %v", unk, r.unknown())
	}
	for i, u := range r.Unsup {
		if i < 2 {
			s += "\n    UNSUPPORTED " + u
		}
	}
	if len(r.Misfit) > 0 {
		s += "\n    MISFIT " + strings.Join(r.Misfit, "; ")
	}
	if len(r.Vacuous) > 0 {
		s += "\n    VACUOUS " + strings.Join(r.Vacuous, "; ")
	}
	return s
}
