package main

// The specification language: functions of the spec overlay with built-in
// meaning.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) constStr(v Val) string {
	s, ok := v.(*Text).concrete()
	if !ok {
		unsup("a name must be constant")
	}
	return s
}

func (m *Machine) inputName(st *State, n string) string {
	k := 0
	name := n
	for {
		dup := false
		for _, in := range st.inputs {
			if in.name == name {
				dup = true
			}
		}
		if !dup {
			return name
		}
		k++
		name = fmt.Sprintf("%s#%d", n, k)
	}
}

func (m *Machine) addInput(st *State, in Input) {
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], in)
}

func simple(name string, g func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val) {
	intrinsics[name] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		done(g(m, st, f, fn, a))
	}
}

func copyUse(u map[string]*Func) map[string]*Func {
	n := map[string]*Func{}
	for k, v := range u {
		n[k] = v
	}
	return n
}

func (m *Machine) newBytes(st *State, name string, ln *Term) *Slice {
	arr := "in_" + name
	id := m.alloc(st, nil, &Text{[]Seg{{kind: sSub, arr: arr, off: m.c.Int(0), len: ln}}}, arr)
	m.addInput(st, Input{name: name, kind: "bytes", arr: arr, len: ln})
	return &Slice{id, m.c.Int(0), ln, ln}
}

var maxLen = pow2(40)

func init() {
	intIn := func(name string, lo, hi *big.Int) {
		simple(name, func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
			n := m.inputName(st, m.constStr(a[0]))
			t := m.c.Var("in_"+n, lo, hi)
			m.addInput(st, Input{name: n, kind: "int", t: t})
			return []Val{t}
		})
	}
	p := func(n int) *big.Int { return new(big.Int).Sub(pow2(n), big1) }
	neg := func(n int) *big.Int { return new(big.Int).Neg(pow2(n)) }
	intIn("vInt", neg(63), p(63))
	intIn("vI64", neg(63), p(63))
	intIn("vI32", neg(31), p(31))
	intIn("vU64", big0, p(64))
	intIn("vU32", big0, p(32))
	intIn("vU16", big0, p(16))
	intIn("vByte", big0, p(8))
	simple("vBool", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.inputName(st, m.constStr(a[0]))
		t := m.c.BVar("in_" + n)
		m.addInput(st, Input{name: n, kind: "bool", t: t})
		return []Val{t}
	})
	simple("vRange", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.inputName(st, m.constStr(a[0]))
		lo, hi := a[1].(*Term), a[2].(*Term)
		t := m.c.Var("in_"+n, lo.lo, hi.hi)
		m.addInput(st, Input{name: n, kind: "int", t: t})
		m.assumeT(st, m.c.And(m.c.Le(lo, t), m.c.Le(t, hi)))
		return []Val{t}
	})
	intrinsics["vEnum"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		n := m.inputName(st, m.constStr(a[0]))
		lo, ok1 := m.constOf(st, a[1].(*Term))
		hi, ok2 := m.constOf(st, a[2].(*Term))
		if !ok1 || !ok2 {
			unsup("vEnum bounds must be constant")
		}
		first := st.enumN == 0
		st.enumN++
		call := f.block.Instrs[f.ip].(ssa.Value)
		for k := hi; k >= lo; k-- {
			if first && m.nsh > 1 && k%m.nsh != m.shard {
				continue
			}
			o := st.clone()
			t := m.c.Int(int64(k))
			m.addInput(o, Input{name: n, kind: "int", t: t})
			g := o.top()
			m.deliver(g, call, []Val{t})
			g.ip++
			m.work = append(m.work, o)
		}
		panic(pathDead{})
	}
	simple("vBytes", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.inputName(st, m.constStr(a[0]))
		return []Val{m.newBytes(st, n, m.c.Var("len_"+n, big0, maxLen))}
	})
	simple("vBytesN", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.inputName(st, m.constStr(a[0]))
		ln := a[1].(*Term)
		m.assumeT(st, m.c.Le(m.c.Int(0), ln))
		return []Val{m.newBytes(st, n, ln)}
	})
	simple("vString", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.inputName(st, m.constStr(a[0]))
		s := m.newBytes(st, n, m.c.Var("len_"+n, big0, maxLen))
		return []Val{m.sliceText(st, s)}
	})
	assume := func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		c := a[0].(*Term)
		m.assumeT(st, c)
		if m.s.check(st.pc, nil) == "unsat" {
			panic(pathDead{})
		}
		return nil
	}
	simple("vAssume", assume)
	// vRequire(c): what the contract of a library function is written for; the
	// code doing something else is outside the contract, not a violation
	simple("vRequire", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		m.oblige(st, a[0].(*Term), "pre:"+m.whereFn(st))
		return nil
	})
	simple("vEnsure", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		m.oblige(st, a[0].(*Term), m.constStr(a[1]))
		return nil
	})
	simple("vCover", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.constStr(a[0])
		if !m.cover[n] && m.s.check(st.pc, nil) == "sat" {
			m.cover[n] = true
		} else if _, ok := m.cover[n]; !ok {
			m.cover[n] = false
		}
		return nil
	})
	simple("vInv", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		c := a[0].(*Term)
		switch st.mode {
		case "inv-assume":
			m.assumeT(st, c)
			if m.s.check(st.pc, nil) == "unsat" {
				panic(pathDead{})
			}
		case "inv-init", "inv-keep":
			m.oblige(st, c, st.mode+":"+trimPkg(st.modeKey)+":"+m.constStr(a[1]))
		default:
			unsup("vInv outside an invariant")
		}
		return nil
	})
	// vBind(p, v): in the invariant, *p == v; assumed by assignment.
	simple("vBind", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		p := a[0].(*Ptr)
		switch st.mode {
		case "inv-assume":
			m.store(st, p, a[1])
		case "inv-init", "inv-keep":
			t := under(fn.Params[0].Type()).(*types.Pointer).Elem()
			o := st.obj(p.obj)
			cur := m.getPath(st, o.val, p.path, o)
			m.oblige(st, m.specEqual(st, cur, a[1], t), st.mode+":"+trimPkg(st.modeKey)+":"+m.constStr(a[2]))
		default:
			unsup("vBind outside an invariant")
		}
		return nil
	})
	simple("vMode", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		k := map[string]int64{"inv-init": 1, "inv-assume": 2, "inv-keep": 3}[st.mode]
		return []Val{m.c.Int(k)}
	})
	simple("vUse", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		st.use = copyUse(st.use)
		st.use[repoQual(m.constStr(a[0]))] = a[1].(*Iface).v.(*Func)
		return nil
	})
	simple("vLoop", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		k, _ := m.constOf(st, a[1].(*Term))
		st.loopInv = copyUse(st.loopInv)
		key := "*" // every loop that communicates and has no invariant of its own
		if n := m.constStr(a[0]); n != "*" {
			key = fmt.Sprintf("%s#%d", repoQual(n), k)
			m.wantLoop[key] = true
		}
		st.loopInv[key] = a[2].(*Iface).v.(*Func)
		return nil
	})
	simple("vEqB", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.sameText(st, m.sliceText(st, a[0].(*Slice)), m.sliceText(st, a[1].(*Slice)))}
	})
	simple("vEqS", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.sameText(st, a[0].(*Text), a[1].(*Text))}
	})
	// vHas: the text certainly contains the other
	simple("vHas", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		x, y := a[0].(*Text), a[1].(*Text)
		return []Val{m.c.Bool(m.partOf(x, y))}
	})
	// vSame: equality of any two values, in positive position
	simple("vSame", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.specEqual(st, a[0], a[1], fn.Params[0].Type())}
	})
	simple("vAnd", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		r := m.c.True
		for _, e := range m.elems(st, a[0].(*Slice)) {
			r = m.c.And(r, e.(*Term))
		}
		return []Val{r}
	})
	simple("vOr", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		r := m.c.False
		for _, e := range m.elems(st, a[0].(*Slice)) {
			r = m.c.Or(r, e.(*Term))
		}
		return []Val{r}
	})
	simple("vImp", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.c.Or(m.c.Not(a[0].(*Term)), a[1].(*Term))}
	})
	simple("vIte", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))}
	})
	uf := func(m *Machine, st *State, a []Val) (string, []*Term) {
		var ts []*Term
		for _, e := range m.elems(st, a[1].(*Slice)) {
			ts = append(ts, e.(*Term))
		}
		return m.constStr(a[0]), ts
	}
	simple("vUFI", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n, ts := uf(m, st, a)
		return []Val{m.c.UF("uf_"+n, neg(63), p(63), ts...)}
	})
	simple("vUFN", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n, ts := uf(m, st, a)
		return []Val{m.c.UF("uf_"+n, big0, maxLen, ts...)}
	})
	simple("vUFB", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n, ts := uf(m, st, a)
		return []Val{m.c.UFB("ufb_"+n, ts...)}
	})
	// vUFR(name, lo, hi, ...): with constant bounds
	simple("vUFR", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		var ts []*Term
		for _, e := range m.elems(st, a[3].(*Slice)) {
			ts = append(ts, e.(*Term))
		}
		return []Val{m.c.UF("uf_"+m.constStr(a[0]), a[1].(*Term).lo, a[2].(*Term).hi, ts...)}
	})
	// vUFU: any uint64
	simple("vUFU", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n, ts := uf(m, st, a)
		return []Val{m.c.UF("uf_"+n, big0, p(64), ts...)}
	})
	// vUFS: an uninterpreted string
	simple("vUFS", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n, ts := uf(m, st, a)
		return []Val{&Text{[]Seg{{kind: sOp, arr: "ufs_" + n, args: ts, len: m.c.UF("ufl_"+n, big0, maxLen, ts...)}}}}
	})
	// vInjS: a string per integer, different ones for different integers
	simple("vInjS", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := m.constStr(a[0])
		return []Val{&Text{[]Seg{{kind: sOp, arr: "inj_" + n, args: []*Term{a[1].(*Term)}, len: m.c.UF("injl_"+n, big0, maxLen, a[1].(*Term))}}}}
	})
	// vSameArr: both lists share a backing array
	simple("vSameArr", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		x, y := a[0].(*Slice), a[1].(*Slice)
		return []Val{m.c.Bool(x.obj != 0 && x.obj == y.obj)}
	})
	// vListIdx(n, p): a list of n copies of p, whose first field (an int) is
	// the index
	simple("vListIdx", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := a[0].(*Term)
		proto, ok := a[1].(*Iface)
		if !ok {
			unsup("vListIdx of %T", a[1])
		}
		av := &AbsVec{trk: m.c.Int(-1), def: func(m *Machine, st *State, i *Term) Val {
			s := append([]Val(nil), proto.v.(*Struct).f...)
			s[0] = i
			return &Iface{proto.t, &Struct{s}}
		}}
		id := m.alloc(st, nil, av, "vListIdx")
		return []Val{&Slice{id, m.c.Int(0), n, n}}
	})
	// vSameRef: the same objects and the same terms
	simple("vSameRef", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.c.Bool(m.identical(a[0], a[1]))}
	})
	simple("vMark", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		st.oldMark = st.nextObj
		return nil
	})
	// vFrame(on): from now on writes to objects that exist already are violations
	simple("vFrame", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		on := a[0] == Val(m.c.True)
		st.noWrite = on
		if on {
			st.oldMark = st.nextObj
		}
		return nil
	})
	simple("vFresh", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		s := a[0].(*Slice)
		return []Val{m.c.Bool(s.obj == 0 || s.obj > st.oldMark || s.cap.isConst() && s.cap.k.Sign() == 0)}
	})
	// vWithin(a, b): a's bytes are part of b's backing array, inside b
	simple("vWithin", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		x, y := a[0].(*Slice), a[1].(*Slice)
		if x.obj != y.obj {
			return []Val{m.c.False}
		}
		return []Val{m.c.And(m.c.Le(y.off, x.off), m.c.Le(m.c.Add(x.off, x.len), m.c.Add(y.off, y.len)))}
	})
	// vOff(a): the offset of a's first byte in its backing array
	simple("vOff", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{a[0].(*Slice).off}
	})
	simple("vSameBase", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		x, y := a[0].(*Slice), a[1].(*Slice)
		return []Val{m.c.Bool(x.obj == y.obj)}
	})
	// vList(n, k, v): a list of symbolic length n whose k-th element is v
	simple("vList", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := a[0].(*Term)
		av := &AbsVec{trk: a[1].(*Term), val: a[2]}
		id := m.alloc(st, nil, av, f.block.Instrs[f.ip])
		return []Val{&Slice{id, m.c.Int(0), n, n}}
	})
	// vListF(n, f): a list of symbolic length n with elements f(i), computed
	// natively by a uninterpreted generator (ints only)
	simple("vListUF", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := a[0].(*Term)
		nm := m.constStr(a[1])
		et := under(fn.Signature.Results().At(0).Type()).(*types.Slice).Elem()
		ii := intOf(et)
		av := &AbsVec{trk: m.c.Int(-1), def: func(m *Machine, st *State, i *Term) Val { return m.c.UF("ufl_"+nm, ii.lo, ii.hi, i) }}
		id := m.alloc(st, nil, av, "vListUF")
		return []Val{&Slice{id, m.c.Int(0), n, n}}
	})
	// vListDef(n, f, ax): a list of symbolic length n with elements f(i); ax is
	// a fact about any two of its indices (nil: none)
	simple("vListDef", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		n := a[0].(*Term)
		g := a[1].(*Func)
		av := &AbsVec{trk: m.c.Int(-1), def: func(m *Machine, st *State, i *Term) Val {
			return m.evalPure(st, g, []Val{i})[0]
		}}
		if ax := a[2].(*Func); ax.fn != nil {
			av.ax = ax
		}
		cp := m.c.Var(m.freshName(st, "cap"), big0, maxLen)
		m.assumeT(st, m.c.Le(n, cp))
		id := m.alloc(st, nil, av, f.block.Instrs[f.ip])
		return []Val{&Slice{id, m.c.Int(0), n, cp}}
	})
	// vListSet(l, f, ax): the elements of l become f(i)
	simple("vListSet", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		l, g := a[0].(*Slice), a[1].(*Func)
		if l.obj == 0 {
			return nil
		}
		if !l.off.isConst() || l.off.k.Sign() != 0 {
			unsup("vListSet of part of a list")
		}
		av := &AbsVec{trk: m.c.Int(-1), def: func(m *Machine, st *State, i *Term) Val {
			return m.evalPure(st, g, []Val{i})[0]
		}}
		if ax := a[2].(*Func); ax.fn != nil {
			av.ax = ax
		}
		o := st.obj(l.obj)
		m.noteWrite(st, o, nil)
		m.setObj(st, o, av)
		return nil
	})
	// vListIs(l, n, f): l has n elements, f(0) .. f(n-1)
	simple("vListIs", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		l, n, g := a[0].(*Slice), a[1].(*Term), a[2].(*Func)
		same := m.c.Eq(l.len, n)
		if !m.decide(st, same) {
			return []Val{m.c.False}
		}
		j := m.c.Var(m.freshName(st, "j"), big0, maxLen)
		if l.obj == 0 || !m.decide(st, m.c.Lt(j, n)) {
			return []Val{m.c.True}
		}
		et := under(fn.Params[0].Type()).(*types.Slice).Elem()
		cur := m.listAt(st, l)(m, st, j)
		want := m.evalPure(st, g, []Val{j})[0]
		return []Val{m.specEqual(st, cur, want, et)}
	})
	// vTouch(l, i): assume the facts about l for index i
	simple("vTouch", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		l := a[0].(*Slice)
		if l.obj != 0 {
			o := st.obj(l.obj)
			if x, ok := o.val.(*AbsVec); ok && x.ax != nil {
				m.absTouch(st, o, x, m.c.Add(l.off, a[1].(*Term)))
			}
		}
		return nil
	})
	// vMapLen(m, n): the map has n entries
	simple("vMapLen", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		o := st.obj(a[0].(*MapRef).obj)
		mo := *(o.val.(*MapObj))
		mo.ln = a[1].(*Term)
		m.setObj(st, o, &mo)
		return nil
	})
	// vMapIs(m, gen): in an invariant that is being assumed, the map's entries
	// are those of gen
	simple("vMapIs", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		mt := under(fn.Params[0].Type()).(*types.Map)
		o := st.obj(a[0].(*MapRef).obj)
		if st.mode != "inv-assume" {
			unsup("vMapIs outside the assumption of an invariant")
		}
		m.setObj(st, o, &MapObj{kt: mt.Key(), vt: mt.Elem(), gen: a[1].(*Func)})
		return nil
	})
	// vVisited(k): the innermost iteration over a map has met key k
	simple("vVisited", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		var is *iterState
		best := 0
		for i := len(st.frames) - 1; i >= 0 && is == nil; i-- {
			if m.w.isSpec(st.frames[i].fn) {
				continue
			}
			for _, v := range st.frames[i].env {
				if it, ok := v.(*Iter); ok && it.obj > best {
					if s, ok := st.obj(it.obj).val.(*iterState); ok && s.lazy {
						best, is = it.obj, s
					}
				}
			}
		}
		if is == nil {
			unsup("vVisited outside an iteration over a map")
		}
		k := a[0].(*Iface)
		mo, ok := st.obj(is.m.obj).val.(*MapObj)
		if !ok {
			unsup("vVisited of a map that changes")
		}
		for _, s := range is.seen {
			if m.decide(st, m.equal(st, s.k, k.v, mo.kt)) {
				return []Val{s.t}
			}
		}
		return []Val{m.c.False}
	})
	// channels with an environment
	hook := func(name string, set func(c *ChanObj, f *Func)) {
		simple(name, func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
			iv := a[0].(*Iface)
			c := iv.v.(*ChanRef)
			o := st.obj(c.obj)
			co := *(o.val.(*ChanObj))
			set(&co, a[1].(*Iface).v.(*Func))
			m.setObj(st, o, &co)
			return nil
		})
	}
	hook("vOnRecv", func(c *ChanObj, f *Func) { c.onRecv = f })
	hook("vOnSend", func(c *ChanObj, f *Func) { c.onSend = f })
	hook("vCanRecv", func(c *ChanObj, f *Func) { c.ready = f })
	hook("vCanSend", func(c *ChanObj, f *Func) { c.canSnd = f })
	simple("vChanState", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		c := a[0].(*Iface).v.(*ChanRef)
		co := st.obj(c.obj).val.(*ChanObj)
		return []Val{m.c.Int(int64(len(co.buf))), m.c.Bool(co.closed)}
	})
	simple("vSpawned", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.c.Int(int64(len(st.spawned)))}
	})
	// vRunSpawned(i): run the body of the i-th started goroutine here
	intrinsics["vRunSpawned"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		k, _ := m.constOf(st, a[0].(*Term))
		if k >= len(st.spawned) {
			unsup("no such goroutine")
		}
		g := st.spawned[k]
		m.pushFrame(st, g.fn, g.args, g.free, nil, nil)
	}
	simple("vBlocked", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val { return nil })
	simple("vUnreachable", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		m.oblige(st, m.c.False, m.constStr(a[0]))
		panic(pathDead{})
	})
	simple("vStop", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		panic(pathDead{})
	})
	// vMapGen: a map with unknown keys whose entries are produced on demand
	// by gen(key) (value, present)
	simple("vMapGen", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		mt := under(fn.Signature.Results().At(0).Type()).(*types.Map)
		gen := a[0].(*Func)
		mo := &MapObj{kt: mt.Key(), vt: mt.Elem()}
		mo.gen = gen
		return []Val{&MapRef{m.alloc(st, nil, mo, "vMapGen")}}
	})
	simple("vSymbolic", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		return []Val{m.c.True}
	})
	simple("vDump", func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val) []Val {
		for _, e := range m.elems(st, a[0].(*Slice)) {
			fmt.Println("DUMP", showVal(e))
			if iv, ok := e.(*Iface); ok {
				if s, ok := iv.v.(*Slice); ok {
					fmt.Println("   =", m.sliceText(st, s))
				}
			}
		}
		return nil
	})
}

func repoQual(n string) string {
	// "replication.X", "X", "(*T).M", "replication.(*T).M" -> ssa RelString names
	const rp = repoPath + "/replication"
	pre := repoPath
	if len(n) > 12 && n[:12] == "replication." {
		pre = rp
		n = n[12:]
	} else if n[0] == '@' {
		return n[1:]
	}
	if n[0] == '(' {
		if n[1] == '*' {
			return "(*" + pre + "." + n[2:]
		}
		return "(" + pre + "." + n[1:]
	}
	return pre + "." + n
}

// specEqual is equality in positive position (sufficient conditions allowed).
func (m *Machine) specEqual(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Text:
		return m.sameText(st, x, b.(*Text))
	case *Slice:
		y := b.(*Slice)
		if (x.obj == 0) != (y.obj == 0) {
			// lists of abstract length: nil is a list of length 0
			if l := m.absOf(st, x, y); l != nil {
				return m.c.Eq(l.len, m.c.Int(0))
			}
			return m.c.False
		}
		if x.obj == 0 {
			return m.c.True
		}
		if x.obj == y.obj {
			e := m.c.And(m.c.Eq(x.off, y.off), m.c.Eq(x.len, y.len))
			if e == m.c.True {
				return e
			}
		}
		sl := under(t).(*types.Slice)
		if isByteT(sl.Elem()) {
			return m.sameText(st, m.sliceText(st, x), m.sliceText(st, y))
		}
		xo, yo := st.obj(x.obj), st.obj(y.obj)
		if ax, ok := xo.val.(*AbsVec); ok {
			if ay, ok := yo.val.(*AbsVec); ok && ax.def != nil && ay.def == nil && ax.trk.isConst() && ax.trk.k.Sign() < 0 {
				c := m.c.Eq(x.len, y.len)
				in := m.c.And(m.c.Le(m.c.Int(0), ay.trk), m.c.Lt(ay.trk, y.len))
				if m.decide(st, in) {
					c = m.c.And(c, m.specEqual(st, m.absGet(st, ax, m.c.Add(x.off, ay.trk), xo), ay.val, sl.Elem()))
				}
				return c
			}
			if ay, ok := yo.val.(*AbsVec); ok && ax.def == nil && ay.def == nil {
				c := m.c.And(m.c.Eq(x.len, y.len), m.c.Eq(ax.trk, ay.trk))
				in := m.c.And(m.c.Le(m.c.Int(0), ax.trk), m.c.Lt(ax.trk, x.len))
				if m.decide(st, in) {
					c = m.c.And(c, m.specEqual(st, ax.val, ay.val, sl.Elem()))
				}
				return c
			}
			// a concrete list against an abstract one
			if ay, ok := yo.val.(*Vec); ok {
				return m.vecAbs(st, x, ax, y, ay, sl.Elem())
			}
		}
		if ax, ok := xo.val.(*Vec); ok {
			if ay, ok := yo.val.(*AbsVec); ok {
				return m.vecAbs(st, y, ay, x, ax, sl.Elem())
			}
		}
		n, ok1 := m.constOf(st, x.len)
		k, ok2 := m.constOf(st, y.len)
		if ok1 && ok2 {
			if n != k {
				return m.c.False
			}
			c := m.c.True
			ex, ey := m.elems(st, x), m.elems(st, y)
			for i := range ex {
				c = m.c.And(c, m.specEqual(st, ex[i], ey[i], sl.Elem()))
			}
			return c
		}
		unsup("comparison of lists %T and %T", xo.val, yo.val)
	case *Struct:
		y := b.(*Struct)
		r := m.c.True
		s := under(t).(*types.Struct)
		for i := range x.f {
			r = m.c.And(r, m.specEqual(st, x.f[i], y.f[i], s.Field(i).Type()))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := m.c.True
		et := under(t).(*types.Array).Elem()
		for i := range x.e {
			r = m.c.And(r, m.specEqual(st, x.e[i], y.e[i], et))
		}
		return r
	case *MapRef:
		y := b.(*MapRef)
		return m.c.Bool(x.obj == y.obj)
	}
	return m.equal(st, a, b, t)
}

// absOf returns the one of x and y that is a list of abstract length.
func (m *Machine) absOf(st *State, x, y *Slice) *Slice {
	for _, s := range []*Slice{x, y} {
		if s.obj != 0 {
			if _, ok := st.obj(s.obj).val.(*AbsVec); ok {
				return s
			}
		}
	}
	return nil
}

func (m *Machine) vecAbs(st *State, x *Slice, ax *AbsVec, y *Slice, ay *Vec, et types.Type) *Term {
	c := m.c.Eq(x.len, y.len)
	for i, e := range m.elems(st, y) {
		if m.decide(st, m.c.Eq(ax.trk, m.c.Int(int64(i)))) {
			c = m.c.And(c, m.specEqual(st, ax.val, e, et))
		}
	}
	return c
}

// identical: the same representation, component by component.
func (m *Machine) identical(a, b Val) bool {
	switch x := a.(type) {
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !m.identical(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if m.idx(x.path[i]) != m.idx(y.path[i]) {
				return false
			}
		}
		return true
	case *MapRef:
		y, ok := b.(*MapRef)
		return ok && x.obj == y.obj
	case *ChanRef:
		y, ok := b.(*ChanRef)
		return ok && x.obj == y.obj
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || types.Identical(x.t, y.t) && m.identical(x.v, y.v)
	}
	return a == b
}
