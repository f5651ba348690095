package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables of the repository. One that nothing writes once the
// program is initialised has the value the initialisers gave it. Any other has
// whatever value an earlier call left in it: a harness starts with an
// arbitrary one.

type globalScan struct {
	w     *World
	fns   []*ssa.Function
	mut   map[*ssa.Global]bool
	seen  map[*ssa.Function]map[int]int // parameter -> 1 in progress / not written, 2 written
	inits map[*ssa.Function]bool
}

var mutOnce sync.Mutex
var mutOf = map[*World]map[*ssa.Global]bool{}

func (w *World) mutableGlobals() map[*ssa.Global]bool {
	mutOnce.Lock()
	defer mutOnce.Unlock()
	if r, ok := mutOf[w]; ok {
		return r
	}
	s := &globalScan{w: w, mut: map[*ssa.Global]bool{}, seen: map[*ssa.Function]map[int]int{}, inits: map[*ssa.Function]bool{}}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		w.build(fn)
		if fn.Pkg == nil || len(fn.Blocks) == 0 || w.isSpec(fn) {
			return
		}
		s.fns = append(s.fns, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.pkgs {
		for _, mb := range p.Members {
			switch x := mb.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if _, ok := x.Type().Underlying().(*types.Interface); ok {
					continue
				}
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := w.prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	s.findInits()
	for _, fn := range s.fns {
		if s.inits[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || s.mut[g] || !w.isRepoPkg(g.Pkg) || w.specFiles[w.prog.Fset.Position(g.Pos()).Filename] || strings.HasPrefix(g.Name(), "init$") {
						continue
					}
					if s.writes(in, g, true, 0) {
						s.mut[g] = true
					}
				}
			}
		}
	}
	if os.Getenv("GOVC_MUT") != "" {
		for g := range s.mut {
			println("changes:", g.String())
		}
	}
	mutOf[w] = s.mut
	return s.mut
}

// findInits: functions that run at initialisation only.
func (s *globalScan) findInits() {
	callers := map[*ssa.Function][]*ssa.Function{}
	other := map[*ssa.Function]bool{}
	for _, fn := range s.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if call != nil && call.Common().Value == f {
						callers[f] = append(callers[f], fn)
					} else {
						other[f] = true
					}
				}
			}
		}
	}
	isInit := func(fn *ssa.Function) bool {
		return fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
	}
	for _, fn := range s.fns {
		exported := fn.Object() != nil && fn.Object().Exported()
		s.inits[fn] = isInit(fn) || !exported && !other[fn] && fn.Signature.Recv() == nil && len(callers[fn]) > 0
	}
	for again := true; again; {
		again = false
		for _, fn := range s.fns {
			if !s.inits[fn] || isInit(fn) {
				continue
			}
			for _, c := range callers[fn] {
				if !s.inits[c] {
					s.inits[fn], again = false, true
					break
				}
			}
		}
	}
}

// writes: the instruction may write what v refers to. addr: v is the address
// of the variable or of a part of it; otherwise v is a slice, map or pointer
// it holds.
func (s *globalScan) writes(in ssa.Instruction, v ssa.Value, addr bool, depth int) bool {
	if depth > 12 {
		return true
	}
	use := func(r ssa.Value, addr bool) bool {
		refs := r.Referrers()
		if refs == nil {
			return true
		}
		for _, x := range *refs {
			if s.writes(x, r, addr, depth+1) {
				return true
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return false
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return use(x, false)
		case *types.Pointer:
			return addr && use(x, false)
		}
		return false
	case *ssa.FieldAddr:
		return use(x, addr)
	case *ssa.IndexAddr:
		return x.X == v && use(x, addr)
	case *ssa.Slice:
		return x.X == v && use(x, false)
	case *ssa.Store:
		if x.Addr == v {
			return true
		}
		return addr // the address itself gets away
	case *ssa.MapUpdate:
		return x.Map == v
	case *ssa.ChangeType:
		return use(x, addr)
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				return c.Args[0] == v
			case "copy":
				return c.Args[0] == v
			case "append":
				return c.Args[0] == v
			}
			return false
		}
		fn := c.StaticCallee()
		if fn == nil {
			return addr
		}
		for i, a := range c.Args {
			if a == v && s.param(fn, i, addr) {
				return true
			}
		}
		return false
	case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Send, *ssa.Return, *ssa.Phi:
		return addr
	}
	return false
}

// param: the function may write what its parameter refers to.
func (s *globalScan) param(fn *ssa.Function, i int, addr bool) bool {
	s.w.build(fn)
	if !s.w.isRepoPkg(fn.Pkg) || i >= len(fn.Params) || len(fn.Blocks) == 0 {
		return addr // a library function: it may, if it has the address
	}
	if s.seen[fn] == nil {
		s.seen[fn] = map[int]int{}
	}
	if r := s.seen[fn][i]; r != 0 {
		return r == 2
	}
	s.seen[fn][i] = 1
	p := fn.Params[i]
	if refs := p.Referrers(); refs != nil {
		for _, x := range *refs {
			if s.writes(x, p, addr, 1) {
				s.seen[fn][i] = 2
				return true
			}
		}
	}
	return false
}

// anyValue: what a variable may hold when a harness starts. Reading it leaves
// the harness undecided, since nothing says how such variables hang together;
// a sync.Once may have been done or not.
func (m *Machine) anyValue(g *ssa.Global, t types.Type, old Val) Val {
	switch types.TypeString(t, nil) {
	case "github.com/Breeze0806/go/log.Logger":
		m.assume["the logger set with SetLogger leaves the library's state alone, as the default one does"] = true
		return old
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup":
		return old
	case "sync.Once":
		if x, ok := old.(*Struct); ok && len(x.f) > 1 {
			f := append([]Val(nil), x.f...)
			f[1] = m.c.BVar("done-before:" + g.Name())
			return &Struct{f}
		}
	}
	if m.initialGlobals {
		return old
	}
	return Undef{changingGlobal + g.RelString(nil)}
}

const changingGlobal = "package variable that changes after initialisation: "
