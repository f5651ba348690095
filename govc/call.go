package main

// Calls, builtins, channels, goroutines.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the callee and arguments of a call.
func (m *Machine) callee(st *State, f *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		iv, ok := m.val(f, c.Value).(*Iface)
		if !ok {
			unsup("method call on %T", m.val(f, c.Value))
		}
		if pk := c.Method.Pkg(); pk != nil && pk.Path() == "github.com/Breeze0806/go/log" {
			// the log has no effect
			m.assume["calls of the Breeze log package have no effect"] = true
			return &Func{name: "log", nat: func(m *Machine, st *State, a []Val) []Val {
				var r []Val
				rs := c.Signature().Results()
				for i := 0; i < rs.Len(); i++ {
					r = append(r, m.zero(rs.At(i).Type()))
				}
				return r
			}}, nil
		}
		if iv.t == nil {
			m.goPanic(st, "nil interface method call")
		}
		for _, a := range c.Args {
			args = append(args, m.val(f, a))
		}
		fn := m.method(iv.t, c.Method)
		return fn, append([]Val{iv.v}, args...)
	}
	for _, a := range c.Args {
		args = append(args, m.val(f, a))
	}
	return m.val(f, c.Value), args
}

func (m *Machine) method(t types.Type, meth *types.Func) *Func {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	fn := m.w.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		unsup("method %s of %v", meth.Name(), t)
	}
	return &Func{fn: fn}
}

// call performs a call; dest receives the result, or cont runs instead.
func (m *Machine) call(st *State, f *Frame, fv Val, args []Val, dest ssa.Value, cc *ssa.CallCommon, cont func(*Machine, *State, []Val)) {
	fn, ok := fv.(*Func)
	if !ok {
		unsup("call of %T", fv)
	}
	done := func(res []Val) {
		if cont != nil {
			cont(m, st, res)
			return
		}
		m.deliver(f, dest, res)
		f.ip++
	}
	if fn.bi != nil {
		done(m.builtin(st, fn.bi, args, cc, dest))
		return
	}
	if fn.nat != nil {
		done(fn.nat(m, st, args))
		return
	}
	if fn.fn == nil {
		m.goPanic(st, "call of nil function")
	}
	m.callFn(st, f, fn.fn, args, fn.free, dest, cont)
}

func (m *Machine) callFn(st *State, f *Frame, fn *ssa.Function, args, free []Val, dest ssa.Value, cont func(*Machine, *State, []Val)) {
	done := func(res []Val) {
		if cont != nil {
			cont(m, st, res)
			return
		}
		m.deliver(f, dest, res)
		f.ip++
	}
	if o := fn.Origin(); o != nil && m.w.isSpec(o) {
		if h, ok := intrinsics[o.Name()]; ok {
			h(m, st, f, fn, args, done)
			return
		}
	}
	if m.w.isSpec(fn) {
		if h, ok := intrinsics[fn.Name()]; ok {
			h(m, st, f, fn, args, done)
			return
		}
	}
	name := fnName(fn)
	if m.initing && fn.Synthetic == "package initializer" {
		done(nil)
		return
	}
	if st.use != nil {
		if u, ok := st.use[name]; ok && !m.onStack(st, u.fn) {
			m.contract[name]++
			m.pushFrame(st, u.fn, args, u.free, dest, cont)
			return
		}
	}
	if h, ok := models[name]; ok {
		h(m, st, f, fn, args, done)
		return
	}
	if r := m.w.replacement(name); r != nil {
		m.assume["model of "+name+" ("+r.Name()+")"] = true
		m.pushFrame(st, r, args, nil, dest, cont)
		return
	}
	if fn.Pkg != nil && !m.w.isRepo(fn) && !m.w.isSpec(fn) {
		path := fn.Pkg.Pkg.Path()
		if path == "github.com/Breeze0806/go/log" {
			done(m.zeroResults(fn))
			return
		}
		if !executable[path] && !executableFn[name] {
			unsup("call of %s (no model)", name)
		}
	}
	m.pushFrame(st, fn, args, free, dest, cont)
}

func (m *Machine) onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (m *Machine) zeroResults(fn *ssa.Function) []Val {
	var r []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		r = append(r, m.zero(rs.At(i).Type()))
	}
	return r
}

// std packages whose source may be executed symbolically
var executable = map[string]bool{
	"encoding/binary": true, "encoding/hex": true, "errors": true, "math": true,
	"sort": true, "internal/byteorder": true, "unicode": true, "math/bits": true,
}

var executableFn = map[string]bool{
	"bytes.NewReader": true, "(*bytes.Reader).Read": true, "(*bytes.Reader).ReadByte": true,
	"(*bytes.Reader).Len": true, "io.ReadFull": true, "io.ReadAtLeast": true,
	"strings.Cut": true, "(*fmt.wrapError).Error": true, "(*github.com/Breeze0806/mysql.MySQLError).Error": true, "(*bytes.Reader).Size": true,
}

func (m *Machine) builtin(st *State, b *ssa.Builtin, args []Val, cc *ssa.CallCommon, dest ssa.Value) []Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Text:
			return []Val{m.textLen(x)}
		case *Slice:
			return []Val{x.len}
		case *MapRef:
			if x.obj == 0 {
				return []Val{m.c.Int(0)}
			}
			mo, ok := st.obj(x.obj).val.(*MapObj)
			if ok && mo.gen != nil && mo.ln != nil {
				return []Val{mo.ln}
			}
			if !ok || mo.gen != nil {
				unsup("len of an abstract map")
			}
			return []Val{m.c.Int(int64(len(mo.ents)))}
		case *Ptr, *Array:
			t := cc.Args[0].Type()
			if p, ok := under(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			return []Val{m.c.Int(under(t).(*types.Array).Len())}
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return []Val{x.cap}
		case *ChanRef:
			if x.obj == 0 {
				return []Val{m.c.Int(0)}
			}
			return []Val{m.chanObj(st, x).cap}
		}
	case "append":
		s := args[0].(*Slice)
		st0 := under(cc.Args[0].Type())
		sl, ok := st0.(*types.Slice)
		if !ok {
			unsup("append to %v", st0)
		}
		et := sl.Elem()
		switch x := args[1].(type) {
		case *Text:
			return []Val{m.appendText(st, s, x, dest)}
		case *Slice:
			if isByteT(et) {
				return []Val{m.appendText(st, s, m.sliceText(st, x), dest)}
			}
			if _, ok := m.constOf(st, x.len); !ok {
				return []Val{m.appendList(st, s, x, et, dest)}
			}
			return []Val{m.appendVals(st, s, m.elemsAny(st, x), et, dest)}
		}
	case "copy":
		return []Val{m.copySlice(st, args[0].(*Slice), args[1])}
	case "delete":
		m.mapDelete(st, args[0].(*MapRef), args[1])
		return nil
	case "close":
		m.closeChan(st, args[0].(*ChanRef))
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			if b.Name() == "min" {
				r = m.c.Ite(m.c.Le(x, r), x, r)
			} else {
				r = m.c.Ite(m.c.Le(r, x), x, r)
			}
		}
		return []Val{r}
	case "print", "println":
		return nil
	case "recover":
		return []Val{&Iface{}}
	case "ssa:deferstack":
		return []Val{&Opaque{"deferstack"}}
	case "ssa:wrapnilchk":
		p, ok := args[0].(*Ptr)
		if ok && p.obj == 0 {
			m.goPanic(st, "nil pointer method call")
		}
		return []Val{args[0]}
	case "clear":
		if x, ok := args[0].(*MapRef); ok && x.obj != 0 {
			o := st.obj(x.obj)
			m.noteWrite(st, o, nil)
			mo := *(o.val.(*MapObj))
			mo.ents = nil
			mo.gen = nil
			m.setObj(st, o, &mo)
			return nil
		}
	}
	unsup("builtin %s", b.Name())
	return nil
}

// ---- goroutines and channels

// ChanObj: hooks give a channel an environment (the other goroutines).
type ChanObj struct {
	cap    *Term
	buf    []Val
	closed bool
	label  string
	onRecv *Func // func() (v T, ok bool): a receive the environment serves
	ready  *Func // func() bool: whether a receive can proceed
	onSend *Func // func(v T): the environment takes the value
	canSnd *Func // func() bool
}

func (m *Machine) spawn(st *State, fv Val, args []Val) {
	fn, ok := fv.(*Func)
	if !ok || fn.fn == nil {
		unsup("go statement on %T", fv)
	}
	st.spawned = append(st.spawned[:len(st.spawned):len(st.spawned)], &Func{fn: fn.fn, free: fn.free, args: args})
}

func (m *Machine) closeChan(st *State, c *ChanRef) {
	if c.obj == 0 {
		m.goPanic(st, "close of nil channel")
	}
	o := st.obj(c.obj)
	co := *(o.val.(*ChanObj))
	if co.closed {
		m.goPanic(st, "close of closed channel")
	}
	co.closed = true
	m.noteWrite(st, o, nil)
	m.setObj(st, o, &co)
}

func (m *Machine) chanObj(st *State, c *ChanRef) *ChanObj {
	if c.obj == 0 {
		return nil
	}
	return st.obj(c.obj).val.(*ChanObj)
}

// block: the goroutine would block here for ever.
func (m *Machine) block(st *State, why string) {
	m.oblige(st, m.c.False, "noblock:"+m.whereFn(st))
	panic(pathDead{})
}

type selCase struct {
	send bool
	c    *ChanRef
	v    Val
	idx  int
	et   types.Type
}

// doSelect resolves a select among cases; k receives (index, recvOk, value).
func (m *Machine) doSelect(st *State, f *Frame, cases []selCase, blocking bool, k func(m *Machine, st *State, idx int, ok *Term, v Val)) {
	// ask the hooks which hooked cases can proceed, one after the other
	var avail []selCase
	var step func(m *Machine, st *State, i int, avail []selCase)
	step = func(m *Machine, st *State, i int, avail []selCase) {
		if i == len(cases) {
			m.fireSelect(st, cases, avail, blocking, k)
			return
		}
		cs := cases[i]
		co := m.chanObj(st, cs.c)
		if co == nil {
			step(m, st, i+1, avail)
			return
		}
		next := func(m *Machine, st *State, can *Term) {
			if m.decide(st, can) {
				step(m, st, i+1, append(avail[:len(avail):len(avail)], cs))
			} else {
				step(m, st, i+1, avail)
			}
		}
		var hook *Func
		if cs.send {
			hook = co.canSnd
		} else {
			hook = co.ready
		}
		if hook != nil {
			m.pushCall(st, hook, nil, func(m *Machine, st *State, res []Val) {
				can := res[0].(*Term)
				if !blocking {
					// it may come later only
					st.fresh++
					can = m.c.And(can, m.c.BVar(fmt.Sprintf("now!%d", st.fresh)))
				}
				next(m, st, can)
			})
			return
		}
		can := m.c.False
		if cs.send {
			if co.closed {
				m.goPanic(st, "send on closed channel")
			}
			if co.onSend != nil {
				can = m.c.True
			} else if n, ok := m.constOf(st, co.cap); ok && len(co.buf) < n {
				can = m.c.True
			}
		} else {
			if co.onRecv != nil || len(co.buf) > 0 || co.closed {
				can = m.c.True
			}
		}
		next(m, st, can)
	}
	step(m, st, 0, avail)
}

func (m *Machine) fireSelect(st *State, cases, avail []selCase, blocking bool, k func(m *Machine, st *State, idx int, ok *Term, v Val)) {
	if len(avail) == 0 {
		if !blocking {
			k(m, st, -1, m.c.False, nil)
			return
		}
		m.block(st, "select")
	}
	i := 0
	for i < len(avail)-1 {
		st.fresh++
		ch := m.c.BVar(fmt.Sprintf("select!%d!%d", st.fresh, i))
		if m.decide(st, ch) {
			break
		}
		i++
	}
	cs := avail[i]
	co := m.chanObj(st, cs.c)
	if cs.send {
		if co.onSend != nil {
			m.pushCall(st, co.onSend, []Val{cs.v}, func(m *Machine, st *State, _ []Val) {
				k(m, st, cs.idx, m.c.False, nil)
			})
			return
		}
		n := *co
		n.buf = append(append([]Val(nil), co.buf...), cs.v)
		o := st.obj(cs.c.obj)
		m.noteWrite(st, o, nil)
		m.setObj(st, o, &n)
		k(m, st, cs.idx, m.c.False, nil)
		return
	}
	if len(co.buf) > 0 {
		n := *co
		v := n.buf[0]
		n.buf = append([]Val(nil), co.buf[1:]...)
		o := st.obj(cs.c.obj)
		m.noteWrite(st, o, nil)
		m.setObj(st, o, &n)
		k(m, st, cs.idx, m.c.True, v)
		return
	}
	if co.onRecv != nil {
		m.pushCall(st, co.onRecv, nil, func(m *Machine, st *State, res []Val) {
			k(m, st, cs.idx, res[1].(*Term), res[0])
		})
		return
	}
	k(m, st, cs.idx, m.c.False, m.zero(cs.et))
}

func (m *Machine) pushCall(st *State, fn *Func, args []Val, k func(m *Machine, st *State, res []Val)) {
	if fn.nat != nil {
		k(m, st, fn.nat(m, st, args))
		return
	}
	m.pushFrame(st, fn.fn, args, fn.free, nil, k)
}

func (m *Machine) selectInstr(st *State, f *Frame, x *ssa.Select) {
	var cases []selCase
	for i, s := range x.States {
		cs := selCase{idx: i, c: m.val(f, s.Chan).(*ChanRef)}
		cs.et = under(s.Chan.Type()).(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			cs.send = true
			cs.v = m.val(f, s.Send)
		}
		cases = append(cases, cs)
	}
	m.doSelect(st, f, cases, x.Blocking, func(m *Machine, st *State, idx int, ok *Term, v Val) {
		f := st.top()
		t := Tuple{m.c.Int(int64(idx)), ok}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, m.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
				}
			}
		}
		m.setVal(f, x, t)
		f.ip++
	})
}

func (m *Machine) sendInstr(st *State, f *Frame, x *ssa.Send) {
	cs := selCase{send: true, c: m.val(f, x.Chan).(*ChanRef), v: m.val(f, x.X)}
	cs.et = under(x.Chan.Type()).(*types.Chan).Elem()
	m.doSelect(st, f, []selCase{cs}, true, func(m *Machine, st *State, idx int, ok *Term, v Val) {
		st.top().ip++
	})
}

func (m *Machine) recvOp(st *State, f *Frame, x *ssa.UnOp, c *ChanRef) {
	cs := selCase{c: c, et: under(x.X.Type()).(*types.Chan).Elem()}
	m.doSelect(st, f, []selCase{cs}, true, func(m *Machine, st *State, idx int, ok *Term, v Val) {
		f := st.top()
		if x.CommaOk {
			m.setVal(f, x, Tuple{v, ok})
		} else {
			m.setVal(f, x, v)
		}
		f.ip++
	})
}

func trimPkg(s string) string {
	return strings.TrimPrefix(s, "github.com/Breeze0806/gobinlog/")
}
