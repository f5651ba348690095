package main

// The symbolic machine: executes go/ssa with forking at undecided branches.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pathDead struct{}
type forkSignal struct{ cond *Term }
type restartSignal struct{ why string }

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    []Val
	defers []deferred
	onRet  func(m *Machine, st *State, res []Val)
	dest   ssa.Value // value in the caller's frame that receives the result
	loops  []activeLoop
	free   []Val
	runDef bool // running defers
	unr    int  // loop iterations without an invariant
}

type activeLoop struct {
	head *ssa.BasicBlock
	key  string
	mark int // objects up to here existed when the loop was entered
}

type State struct {
	heap    pmap
	nextObj int
	fresh   int
	frames  []*Frame
	pc      *PC
	mode    string // mode of the invariant function being run
	modeKey string
	use     map[string]*Func // contracts in use-mode, copied on write
	loopInv map[string]*Func
	inputs  []Input
	spawned []*Func
	steps   int
	oldMark int
	enumN   int
	labels  string
	noWrite bool // frame condition active: writes to old objects are violations
	ghost   map[string]Val
	trace   []string
}

// Input is a named harness input, for counterexamples.
type Input struct {
	name string
	kind string // int, bool, bytes, string
	t    *Term
	arr  string
	len  *Term
	sgn  bool
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	loops []*loopInfo // by source order of header
	head  map[*ssa.BasicBlock]*loopInfo
}
type loopInfo struct {
	ord    int
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type Obligation struct {
	label   string
	pos     string
	n       int // instances
	trivial int // decided without the solver
	solver  int
	second  int
	refuted []*Cex
	unknown []string
}

type Cex struct {
	harness string
	label   string
	pos     string
	values  map[string]interface{}
	note    string
}

type Machine struct {
	w               *World
	c               *Ctx
	s               *Solver
	work            []*State
	cur             *State
	snap            State
	snapTop         Frame
	obs             map[string]*Obligation
	order           []string
	cover           map[string]bool
	paths           int
	harn            string
	shard           int
	nsh             int
	fuel            int
	infos           map[*ssa.Function]*fnInfo
	initN, initNext int
	// loop modification sets, grown across restarts
	modset         map[string]map[string][]PathElem
	fnsRun         map[string]int // repo functions executed
	contract       map[string]int // contracts used at call sites
	assume         map[string]bool
	entCache       map[[2]interface{}]bool
	deadline       time.Time
	base           pmap
	baseN          int
	globals        map[*ssa.Global]int
	initialGlobals bool // package variables that change have their initial values
	initing        bool
	maxCex         int
	verbose        bool
	loopsProved    map[string]int
	wantLoop       map[string]bool     // loops with an invariant
	vague          map[string]bool     // texts the models know nothing about
	blind          map[string]bool     // variables no invariant speaks of
	loose          map[string]bool     // guesses which variable an invariant means
	badInit        map[string]bool     // invariants that do not hold at the start
	fnVars         map[string][]string // the variables of functions with such loops
	shapes         map[string]int      // functions with such loops: how many loops they have
	unrolled       map[string]int
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if i, ok := m.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}, head: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.head[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.head[s] = l
					i.loops = append(i.loops, l)
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	pos := func(l *loopInfo) token.Pos {
		min := token.Pos(0)
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p != 0 && (min == 0 || p < min) {
					min = p
				}
			}
		}
		return min
	}
	sort.SliceStable(i.loops, func(a, b int) bool {
		la, lb := i.loops[a], i.loops[b]
		pa, pb := pos(la), pos(lb)
		if pa != pb {
			return pa < pb
		}
		return len(la.blocks) > len(lb.blocks)
	})
	for k, l := range i.loops {
		l.ord = k
	}
	m.infos[fn] = i
	return i
}

// ---- state handling

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = append([]Val(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]activeLoop(nil), f.loops...)
		n.frames[i] = &g
	}
	n.inputs = append([]Input(nil), st.inputs...)
	n.spawned = append([]*Func(nil), st.spawned...)
	if st.ghost != nil {
		n.ghost = map[string]Val{}
		for k, v := range st.ghost {
			n.ghost[k] = v
		}
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (m *Machine) freshName(st *State, p string) string {
	st.fresh++
	return fmt.Sprintf("%s!%d", p, st.fresh)
}

// known looks the literal up in the path condition.
func known(pc *PC, lit, neg *Term) (bool, bool) {
	for p := pc; p != nil; p = p.prev {
		if p.lit == lit {
			return true, true
		}
		if p.lit == neg {
			return false, true
		}
	}
	return false, false
}

// knownB extends known to conjunctions and disjunctions.
func (m *Machine) knownB(pc *PC, b *Term) (bool, bool) {
	if v, ok := known(pc, b, m.c.Not(b)); ok {
		return v, true
	}
	switch b.op {
	case OAnd, OOr:
		all := true
		for _, a := range b.args {
			v, ok := m.knownB(pc, a)
			if ok && v == (b.op == OOr) {
				return b.op == OOr, true
			}
			all = all && ok
		}
		if all {
			return b.op == OAnd, true
		}
	case ONot:
		v, ok := m.knownB(pc, b.args[0])
		return !v, ok
	}
	return false, false
}

func (m *Machine) assumeT(st *State, t *Term) {
	if t == m.c.True {
		return
	}
	if t == m.c.False {
		panic(pathDead{})
	}
	if t.op == OAnd {
		for _, a := range t.args {
			m.assumeT(st, a)
		}
		return
	}
	if v, ok := known(st.pc, t, m.c.Not(t)); ok {
		if !v {
			panic(pathDead{})
		}
		return
	}
	st.pc = st.pc.push(t)
}

// decide resolves a condition, forking the current instruction if both
// outcomes are possible.
func (m *Machine) decide(st *State, cond *Term) bool {
	if cond == m.c.True {
		return true
	}
	if cond == m.c.False {
		return false
	}
	neg := m.c.Not(cond)
	if v, ok := known(st.pc, cond, neg); ok {
		return v
	}
	t := m.s.check(st.pc, cond) != "unsat"
	if !t {
		// the path is feasible, so cond is false
		st.pc = st.pc.push(neg)
		return false
	}
	f := m.s.check(st.pc, neg) != "unsat"
	if !f {
		st.pc = st.pc.push(cond)
		return true
	}
	panic(forkSignal{cond})
}

func (m *Machine) entails(st *State, cond *Term) bool {
	if cond == m.c.True {
		return true
	}
	if cond == m.c.False {
		return false
	}
	neg := m.c.Not(cond)
	if v, ok := known(st.pc, cond, neg); ok {
		return v
	}
	k := [2]interface{}{st.pc, cond}
	if r, ok := m.entCache[k]; ok {
		return r
	}
	r := m.s.check(st.pc, neg) == "unsat"
	m.entCache[k] = r
	return r
}

// constOf finds a constant value of t under the path condition, if syntactic.
func (m *Machine) constOf(st *State, t *Term) (int, bool) {
	if t.isConst() {
		if !t.k.IsInt64() {
			return 0, false
		}
		return int(t.k.Int64()), true
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.lit.op == OEq0 {
			l := p.lit.args[0]
			d := m.c.Sub(t, l)
			if d.isConst() && d.k.IsInt64() {
				return int(d.k.Int64()), true
			}
			d = m.c.Add(t, l)
			if d.isConst() && d.k.IsInt64() {
				return int(d.k.Int64()), true
			}
		}
	}
	return 0, false
}

// pos of the current instruction
func (m *Machine) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.ip < len(f.block.Instrs) {
			p := f.block.Instrs[f.ip].Pos()
			if p == 0 {
				// look around in the block
				for _, in := range f.block.Instrs {
					if in.Pos() != 0 {
						p = in.Pos()
						break
					}
				}
			}
			if p != 0 {
				q := m.w.prog.Fset.Position(p)
				fn := q.Filename
				if k := strings.LastIndex(fn, "/"); k >= 0 {
					fn = fn[k+1:]
				}
				return fmt.Sprintf("%s:%d", fn, q.Line)
			}
		}
	}
	return "?"
}

// whereFn names the innermost repository function on the stack.
func (m *Machine) whereFn(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if m.w.isRepo(st.frames[i].fn) {
			return fnName(st.frames[i].fn)
		}
	}
	return fnName(st.top().fn)
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return s
}

// oblige records that cond must hold here; afterwards it is assumed.
func (m *Machine) oblige(st *State, cond *Term, label string) {
	o := m.obs[label]
	if o == nil {
		o = &Obligation{label: label, pos: m.where(st)}
		m.obs[label] = o
		m.order = append(m.order, label)
	}
	o.n++
	if cond == m.c.True {
		o.trivial++
		return
	}
	if v, ok := known(st.pc, cond, m.c.Not(cond)); ok && v {
		o.trivial++
		return
	}
	neg := m.c.Not(cond)
	r := m.s.check(st.pc, neg)
	if r == "unknown" || strings.HasPrefix(r, "unknown") {
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("/tmp/unk%d.smt2", m.s.queries), []byte(m.s.script(st.pc, neg)), 0644)
		}
		r = m.s.second(st.pc, neg, 20000)
		if r == "unsat" {
			o.second++
		} else {
			r = m.s.checkT(st.pc, neg, 60000)
		}
	}
	switch r {
	case "unsat":
		o.solver++
		st.pc = st.pc.push(cond)
		return
	case "sat":
		if mentionsVague(neg, map[*Term]bool{}) {
			o.unknown = append(o.unknown, m.where(st)+" text outside the models")
			break
		}
		if st.mode == "inv-init" && strings.HasPrefix(label, "inv-") {
			// the loop does not start where the invariant says: its
			// variables mean something else
			m.badInit[st.modeKey+" starts elsewhere: "+label] = true
		}
		if len(o.refuted) < m.maxCex {
			cx := m.model(st, neg)
			cx.label = label
			cx.pos = m.where(st)
			cx.note = "condition: " + cond.String()
			if m.verbose {
				cx.note += fmt.Sprintf("\nstack: %s\ntrace: %v", m.stack(st), st.trace)
			}
			o.refuted = append(o.refuted, cx)
		} else {
			o.refuted = append(o.refuted, nil)
		}
	default:
		o.unknown = append(o.unknown, m.where(st)+" "+r)
		if m.verbose {
			fmt.Println("UNKNOWN", label, m.where(st), cond)
		}
	}
	// continue as if it held
	if m.s.check(st.pc, cond) == "unsat" {
		panic(pathDead{})
	}
	st.pc = st.pc.push(cond)
}

func (m *Machine) stack(st *State) string {
	var s []string
	for _, f := range st.frames {
		s = append(s, f.fn.Name())
	}
	return strings.Join(s, ">")
}

// model extracts the harness inputs from a satisfiable query, preferring
// short byte strings.
func (m *Machine) model(st *State, neg *Term) *Cex {
	pc := st.pc.push(neg)
	cx := &Cex{harness: m.harn, values: map[string]interface{}{}}
	for _, max := range []int64{16, 64, 300, 5000, 70000} {
		q := pc
		for _, in := range st.inputs {
			if in.len != nil && !in.len.isConst() {
				q = q.push(m.c.Le(in.len, m.c.Int(max)))
			}
		}
		if m.s.check(q, nil) != "sat" {
			continue
		}
		var ts []*Term
		for _, in := range st.inputs {
			if in.len != nil {
				ts = append(ts, in.len)
			} else {
				ts = append(ts, in.t)
			}
		}
		vs, err := m.s.values(ts)
		if err != nil {
			return cx
		}
		for i, in := range st.inputs {
			if in.len == nil {
				cx.values[in.name] = vs[i].String()
				continue
			}
			n := int(vs[i].Int64())
			var bs []*Term
			for j := 0; j < n; j++ {
				bs = append(bs, m.c.Sel(in.arr, m.c.Int(int64(j)), big0, b255))
			}
			bv, err := m.s.values(bs)
			if err != nil {
				continue
			}
			b := make([]int, n)
			for j := range bv {
				b[j] = int(new(big.Int).And(bv[j], b255).Int64())
			}
			cx.values[in.name] = b
		}
		return cx
	}
	cx.note = "no small model"
	return cx
}

// goPanic: the code under verification would panic here.
func (m *Machine) goPanic(st *State, msg string) {
	if m.initing {
		unsup("panic in init: %s at %s", msg, m.where(st))
	}
	m.oblige(st, m.c.False, "nopanic:"+m.whereFn(st))
	panic(pathDead{})
}

// guard: runtime check whose failure is a panic.
func (m *Machine) guard(st *State, cond *Term, msg string) {
	if cond == m.c.True {
		return
	}
	if m.initing {
		if cond == m.c.False {
			unsup("panic in init: %s at %s", msg, m.where(st))
		}
	}
	m.oblige(st, cond, "nopanic:"+m.whereFn(st))
}

// ---- running

func (m *Machine) run(st *State) {
	m.work = append(m.work, st)
	for len(m.work) > 0 {
		st := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.runState(st)
	}
}

func (m *Machine) runState(st *State) {
	for !m.runSome(st) {
	}
}

// runSome runs until the state ends (true) or a fork happened (false).
func (m *Machine) runSome(st *State) (done bool) {
	m.cur = st
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkSignal:
				// roll the instruction back and split
				st.heap, st.pc, st.fresh, st.nextObj = m.snap.heap, m.snap.pc, m.snap.fresh, m.snap.nextObj
				st.enumN = m.snap.enumN
				st.inputs = st.inputs[:len(m.snap.inputs)]
				st.spawned = st.spawned[:len(m.snap.spawned)]
				st.ghost = m.snap.ghost
				st.mode, st.modeKey = m.snap.mode, m.snap.modeKey
				st.use, st.loopInv = m.snap.use, m.snap.loopInv
				st.frames = m.snap.frames
				*st.top() = m.snapTop
				o := st.clone()
				st.pc = st.pc.push(x.cond)
				o.pc = o.pc.push(m.c.Not(x.cond))
				if m.verbose {
					w := m.where(st)
					st.trace = append(append([]string(nil), st.trace...), w+":T:"+trunc(x.cond.String(), 300))
					o.trace = append(append([]string(nil), o.trace...), w+":F:"+trunc(x.cond.String(), 300))
				}
				m.work = append(m.work, o)
				done = false
			case pathDead:
				done = true
			case unsupported:
				x.msg = fmt.Sprintf("%s (at %s in %s)", x.msg, m.where(st), m.stack(st))
				if m.verbose {
					x.msg += fmt.Sprintf(" trace %v", st.trace)
				}
				panic(x)
			default:
				panic(r)
			}
		}
	}()
	for len(st.frames) > 0 {
		f := st.top()
		if f.ip >= len(f.block.Instrs) {
			panic(fmt.Sprintf("fell off block in %s", f.fn))
		}
		in := f.block.Instrs[f.ip]
		st.steps++
		if st.steps > m.fuel {
			unsup("fuel exhausted")
		}
		if st.steps&15 == 0 && time.Now().After(m.deadline) {
			unsup("time limit")
		}
		m.snap.heap, m.snap.pc, m.snap.fresh, m.snap.nextObj = st.heap, st.pc, st.fresh, st.nextObj
		m.snap.enumN = st.enumN
		m.snap.inputs = st.inputs
		m.snap.spawned = st.spawned
		m.snap.ghost = st.ghost
		m.snap.mode, m.snap.modeKey = st.mode, st.modeKey
		m.snap.use, m.snap.loopInv = st.use, st.loopInv
		m.snap.frames = st.frames
		m.snapTop = *f
		m.exec(st, f, in)
	}
	m.paths++
	return true
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (m *Machine) val(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return &Ptr{obj: m.global(x)}
	case *ssa.Function:
		return &Func{fn: x}
	case *ssa.Builtin:
		return &Func{bi: x}
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no index for %v in %v", v, f.fn))
	}
	return f.env[i]
}

func (m *Machine) setVal(f *Frame, v ssa.Value, x Val) {
	f.env[f.info.idx[v]] = x
}

func (m *Machine) constVal(x *ssa.Const) Val {
	if x.Value == nil {
		return m.zero(x.Type())
	}
	t := x.Type()
	switch {
	case isBoolT(t):
		return m.c.Bool(constant.BoolVal(x.Value))
	case isStringT(t):
		return m.lit(constant.StringVal(x.Value))
	case intOf(t) != nil:
		v := constant.ToInt(x.Value)
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return m.c.Big(b)
	case isFloatT(t):
		return m.constFloat(x.Value, t)
	}
	unsup("constant of type %v", t)
	return nil
}

func (m *Machine) global(g *ssa.Global) int {
	if id, ok := m.globals[g]; ok {
		return id
	}
	st := m.cur
	pkg := g.Pkg.Pkg.Path()
	et := g.Type().(*types.Pointer).Elem()
	var v Val
	if m.w.isRepoPkg(g.Pkg) {
		v = m.zero(et)
	} else {
		v = m.stdGlobal(pkg, g.Name(), et)
	}
	if !m.initing && m.w.mutableGlobals()[g] {
		v = m.anyValue(g, et, v)
	}
	// globals live in the base heap with negative-free ids allocated at init
	m.baseN++
	id := m.baseN
	if id >= 1<<16 {
		unsup("too many globals")
	}
	o := &Obj{id: id, typ: et, val: v, name: g.RelString(nil), site: g, old: true}
	m.base = m.base.set(id, o)
	if st != nil {
		st.heap = st.heap.set(id, o)
		m.snap.heap = m.snap.heap.set(id, o)
		for _, w := range m.work {
			w.heap = w.heap.set(id, o)
		}
	}
	m.globals[g] = id
	return id
}

func (m *Machine) pushFrame(st *State, fn *ssa.Function, args []Val, free []Val, dest ssa.Value, onRet func(*Machine, *State, []Val)) {
	if len(st.frames) > 300 {
		unsup("call depth")
	}
	m.w.build(fn)
	if len(fn.Blocks) == 0 {
		unsup("call of external function %s", fnName(fn))
	}
	if m.w.isRepo(fn) && !m.initing {
		m.fnsRun[fnName(fn)]++
	}
	info := m.info(fn)
	f := &Frame{fn: fn, info: info, block: fn.Blocks[0], env: make([]Val, info.n), onRet: onRet, dest: dest, free: free}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity of %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		f.env[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[info.idx[p]] = free[i]
	}
	st.frames = append(st.frames, f)
}

// finish returns from the top frame.
func (m *Machine) finish(st *State, res []Val) {
	f := st.top()
	n := len(st.frames) - 1
	st.frames = st.frames[:n:n]
	if f.onRet != nil {
		f.onRet(m, st, res)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	c := st.top()
	m.deliver(c, f.dest, res)
	c.ip++
}

func (m *Machine) deliver(c *Frame, dest ssa.Value, res []Val) {
	if dest == nil {
		return
	}
	switch len(res) {
	case 0:
	case 1:
		if _, ok := dest.Type().(*types.Tuple); ok {
			m.setVal(c, dest, Tuple(res))
		} else {
			m.setVal(c, dest, res[0])
		}
	default:
		m.setVal(c, dest, Tuple(res))
	}
}

func (m *Machine) jump(st *State, f *Frame, b *ssa.BasicBlock) {
	from := f.block
	// leaving loops
	for len(f.loops) > 0 {
		l := f.info.head[f.loops[len(f.loops)-1].head]
		if l.blocks[b] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	if l := f.info.head[b]; l != nil {
		key := fmt.Sprintf("%s#%d", fnName(f.fn), l.ord)
		inv := st.loopInv[key]
		if inv == nil && st.loopInv["*"] != nil && m.w.isRepo(f.fn) && l.waits() {
			inv = st.loopInv["*"]
		}
		if inv != nil {
			if st.loopInv[key] != nil && !m.w.isSpec(f.fn) {
				m.shapes[fnName(f.fn)] = len(f.info.loops)
				if m.fnVars[fnName(f.fn)] == nil {
					m.fnVars[fnName(f.fn)] = varsOf(f.fn)
				}
			}
			m.loopHead(st, f, from, l, key, inv)
			return
		}
		if l.blocks[from] {
			m.unrolled[key]++
			if f.unr++; f.unr > 1000 {
				unsup("loop %s needs an invariant", key)
			}
		}
	}
	m.enter(st, f, from, b)
}

// waits: the loop communicates.
func (l *loopInfo) waits() bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select, *ssa.Send:
				return true
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) enter(st *State, f *Frame, from, b *ssa.BasicBlock) {
	// phis
	k := -1
	for i, p := range b.Preds {
		if p == from {
			k = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, m.val(f, phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		m.setVal(f, b.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = from
	f.block = b
	f.ip = n
}

func pathKey(p []PathElem) (string, []PathElem) {
	var sb strings.Builder
	for i, e := range p {
		if e.t != nil {
			return sb.String(), p[:i]
		}
		fmt.Fprintf(&sb, ".%d", e.k)
	}
	return sb.String(), p
}

func siteKey(o *Obj) string {
	if v, ok := o.site.(ssa.Value); ok {
		if v.Parent() != nil {
			return fmt.Sprintf("%s/%s@%d", fnName(v.Parent()), v.Name(), v.Pos())
		}
		return v.Name()
	}
	return fmt.Sprint(o.site)
}

// noteWrite maintains loop modification sets and frame conditions.
func (m *Machine) noteWrite(st *State, o *Obj, path []PathElem) {
	if m.initing {
		return
	}
	if st.noWrite && o.id <= st.oldMark && !strings.HasPrefix(st.mode, "inv") && !m.w.isSpec(st.top().fn) {
		m.oblige(st, m.c.False, "frame:"+m.whereFn(st))
	}
	if st.mode == "inv-assume" {
		return
	}
	for _, f := range st.frames {
		for _, l := range f.loops {
			if o.id > l.mark {
				continue
			}
			pk, pp := pathKey(path)
			key := siteKey(o)
			ms := m.modset[l.key]
			if ms == nil {
				ms = map[string][]PathElem{}
				m.modset[l.key] = ms
			}
			covered := false
			for k := range ms {
				if i := strings.IndexByte(k, '|'); k[:i] == key && (k[i+1:] == pk || strings.HasPrefix(pk, k[i+1:]+".") || k[i+1:] == "") {
					covered = true
					break
				}
			}
			if !covered {
				ms[key+"|"+pk] = pp
				panic(restartSignal{"loop " + l.key + " modifies " + key + pk})
			}
		}
	}
}

// loopHead applies the invariant rule at a loop header.
func (m *Machine) loopHead(st *State, f *Frame, from *ssa.BasicBlock, l *loopInfo, key string, inv *Func) {
	args := m.bindInv(st, f, inv, key, l)
	if l.blocks[from] && f.isActive(l.head) {
		// back edge: the invariant must be preserved; the path ends here
		st.mode, st.modeKey = "inv-keep", key
		m.pushFrame(st, inv.fn, args, inv.free, nil, func(m *Machine, st *State, _ []Val) {
			panic(pathDead{})
		})
		return
	}
	m.loopsProved[key]++
	st.mode, st.modeKey = "inv-init", key
	m.pushFrame(st, inv.fn, args, inv.free, nil, func(m *Machine, st *State, _ []Val) {
		// havoc
		f := st.top()
		m.havoc(st, key)
		if st.loopInv[key] == nil {
			m.carried(st, f, l, key)
		}
		st.mode = "inv-assume"
		args := m.bindInv(st, f, inv, key, l)
		m.pushFrame(st, inv.fn, args, inv.free, nil, func(m *Machine, st *State, _ []Val) {
			f := st.top()
			st.mode = ""
			f.loops = append(f.loops, activeLoop{l.head, key, st.nextObj})
			m.enter(st, f, from, l.head)
		})
	})
}

func (f *Frame) isActive(h *ssa.BasicBlock) bool {
	for _, l := range f.loops {
		if l.head == h {
			return true
		}
	}
	return false
}

// bindInv matches the invariant's parameters with the variables of the
// function by name: *T parameters receive the address of a T variable.
func (m *Machine) bindInv(st *State, f *Frame, inv *Func, key string, l *loopInfo) []Val {
	var args []Val
	for _, p := range inv.fn.Params {
		args = append(args, m.findVar(st, f, p.Name(), p.Type(), key, l))
	}
	return args
}

func (m *Machine) findVar(st *State, f *Frame, name string, t types.Type, key string, l *loopInfo) Val {
	var cand, outer, own []*Ptr
	fits := func(vt types.Type) bool {
		if types.Identical(vt, t) {
			return true
		}
		pt, ok := t.(*types.Pointer)
		return ok && types.Identical(vt, pt.Elem())
	}
	if i := l.counter(); i != nil && intOf(t) != nil && name != "rangeindex" && i.Comment == "rangeindex" && l.copies(i, name) {
		// the key of a range loop: at the head it is the next one
		if p, ok := f.env[f.info.idx[i]].(*Ptr); ok && p != nil {
			o := st.obj(p.obj)
			if n, ok := m.getPath(st, o.val, p.path, o).(*Term); ok {
				return m.c.Add(n, m.c.Int(1))
			}
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				if p, ok := f.env[f.info.idx[a]].(*Ptr); ok && p != nil && fits(a.Type().(*types.Pointer).Elem()) {
					cand = append(cand, p)
					if !l.blocks[b] {
						outer = append(outer, p)
					}
					if name == "rangeindex" && loads(l.head, a) {
						own = append(own, p)
					}
				}
			}
		}
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			if p, ok := f.env[f.info.idx[fv]].(*Ptr); ok && fits(fv.Type().(*types.Pointer).Elem()) {
				cand = append(cand, p)
			}
		}
	}
	if len(cand) == 0 {
		for _, p := range f.fn.Params {
			if p.Name() == name && types.Identical(p.Type(), t) {
				return f.env[f.info.idx[p]]
			}
		}
		if v := m.guessVar(st, f, name, t, key, l, fits); v != nil {
			return v
		}
		unsup("loop invariant of %s: no variable %s of type %v", key, name, t)
	}
	// the loop's own counter; variables of the loop's body are not meant
	if len(outer) > 0 {
		cand = outer
	}
	if len(own) > 0 {
		cand = own
	}
	return m.varVal(st, cand[len(cand)-1], t)
}

func (m *Machine) varVal(st *State, p *Ptr, t types.Type) Val {
	o := st.obj(p.obj)
	if types.Identical(o.typ, t) {
		return m.getPath(st, o.val, p.path, o)
	}
	return p
}

// guessVar looks for what has become of a variable the invariant speaks of.
// The guess only matters if the invariant holds of it: an invariant that does
// not hold leaves the harness undecided.
func (m *Machine) guessVar(st *State, f *Frame, name string, t types.Type, key string, l *loopInfo, fits func(types.Type) bool) Val {
	counter := func() *Term {
		i := l.counter()
		if i == nil {
			return nil
		}
		p, ok := f.env[f.info.idx[i]].(*Ptr)
		if !ok || p == nil {
			return nil
		}
		o := st.obj(p.obj)
		n, _ := m.getPath(st, o.val, p.path, o).(*Term)
		return n
	}
	if name == "rangeindex" && intOf(t) != nil {
		// a range loop has become a loop with a counter
		if n := counter(); n != nil && l.counter().Comment != "rangeindex" {
			m.loose[key+": rangeindex taken for "+l.counter().Comment+"-1"] = true
			return m.c.Sub(n, m.c.Int(1))
		}
		return nil
	}
	// a renamed variable: the only one of the type that was not there before
	was := m.w.vars[fnName(f.fn)]
	if was != nil && was[name] {
		var found []*Ptr
		var as string
		for _, b := range f.fn.Blocks {
			if l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || a.Comment == "" || was[a.Comment] || a.Comment == "rangeindex" || !token.IsIdentifier(a.Comment) {
					continue
				}
				if p, ok := f.env[f.info.idx[a]].(*Ptr); ok && p != nil && fits(a.Type().(*types.Pointer).Elem()) {
					found = append(found, p)
					as = a.Comment
				}
			}
		}
		if len(found) == 1 {
			m.loose[key+": "+name+" taken for "+as] = true
			return m.varVal(st, found[0], t)
		}
		if len(found) > 1 {
			return nil
		}
	}
	if intOf(t) != nil {
		// a loop with a counter has become a range loop
		if i := l.counter(); i != nil && i.Comment == "rangeindex" && !l.hasKey(i) {
			if n := counter(); n != nil {
				m.loose[key+": "+name+" taken for rangeindex+1"] = true
				return m.c.Add(n, m.c.Int(1))
			}
		}
	}
	return nil
}

// varsOf lists the names of the variables of a function.
func varsOf(fn *ssa.Function) []string {
	set := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && token.IsIdentifier(a.Comment) {
				set[a.Comment] = true
			}
		}
	}
	return sortedKeys(set)
}

// counter is the variable the loop's condition is about, which the loop
// increments: rangeindex or a counter of the source.
func (l *loopInfo) counter() *ssa.Alloc {
	var out *ssa.Alloc
	for _, in := range l.head.Instrs {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok || intOf(a.Type().(*types.Pointer).Elem()) == nil {
			continue
		}
		if a.Comment == "rangeindex" {
			return a
		}
		if out == nil && l.increments(a) {
			out = a
		}
	}
	return out
}

func (l *loopInfo) increments(a *ssa.Alloc) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				if x, ok := s.Val.(*ssa.BinOp); ok && x.Op == token.ADD {
					if u, ok := x.X.(*ssa.UnOp); ok && u.X == ssa.Value(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

// copies: the loop stores its range index into the variable.
func (l *loopInfo) copies(i *ssa.Alloc, name string) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if a, ok := s.Addr.(*ssa.Alloc); ok && a.Comment != "" && (name == "" || a.Comment == name) && a != i {
					if u, ok := s.Val.(*ssa.UnOp); ok && u.X == ssa.Value(i) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (l *loopInfo) hasKey(i *ssa.Alloc) bool { return l.copies(i, "") }

func loads(b *ssa.BasicBlock, a *ssa.Alloc) bool {
	for _, in := range b.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(a) {
			return true
		}
	}
	return false
}

// carried: an invariant for any waiting loop says nothing of the variables such
// a loop carries from one round to the next.
func (m *Machine) carried(st *State, f *Frame, l *loopInfo, key string) {
	for k := range m.modset[key] {
		sk := k[:strings.IndexByte(k, '|')]
		for id := 1; id <= st.nextObj; id++ {
			o := st.heap.get(id)
			if o == nil || siteKey(o) != sk {
				continue
			}
			if a, ok := o.site.(*ssa.Alloc); ok && a.Parent() == f.fn && !l.blocks[a.Block()] {
				m.blind[key+": nothing known of "+a.Comment] = true
			}
		}
	}
}

func (m *Machine) havoc(st *State, key string) {
	for k, path := range m.modset[key] {
		i := strings.IndexByte(k, '|')
		sk := k[:i]
		for id := 1; id <= st.nextObj; id++ {
			o := st.heap.get(id)
			if o == nil || siteKey(o) != sk {
				continue
			}
			m.setObj(st, o, m.havocPath(st, o, o.val, path, o.typ))
		}
	}
}

func (m *Machine) havocPath(st *State, o *Obj, v Val, path []PathElem, t types.Type) Val {
	if len(path) == 0 {
		return m.havocVal(st, t, v, siteKey(o))
	}
	switch x := v.(type) {
	case *Struct:
		f := append([]Val(nil), x.f...)
		k := path[0].k
		f[k] = m.havocPath(st, o, f[k], path[1:], under(t).(*types.Struct).Field(k).Type())
		return &Struct{f}
	case Undef:
		return x
	}
	return m.havocVal(st, t, v, siteKey(o))
}

func (m *Machine) havocVal(st *State, t types.Type, old Val, why string) Val {
	if is, ok := old.(*iterState); ok && is.lazy {
		n := *is
		n.seen = append([]seenEnt(nil), is.seen...)
		for i := range n.seen {
			n.seen[i].t = m.c.BVar(m.freshName(st, "seen"))
		}
		return &n
	}
	if t != nil {
		if ii := intOf(t); ii != nil {
			return m.c.Var(m.freshName(st, "h"), ii.lo, ii.hi)
		}
		if isBoolT(t) {
			return m.c.BVar(m.freshName(st, "hb"))
		}
		if s, ok := under(t).(*types.Struct); ok {
			if _, isObj := old.(*MapObj); !isObj {
				r := &Struct{}
				for i := 0; i < s.NumFields(); i++ {
					r.f = append(r.f, m.havocVal(st, s.Field(i).Type(), nil, why))
				}
				return r
			}
		}
	}
	return Undef{why}
}
