package main

// Instruction semantics.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) exec(st *State, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.ip++
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := m.alloc(st, t, m.zero(t), x)
		m.setVal(f, x, &Ptr{obj: id})
		f.ip++
	case *ssa.Store:
		p := m.val(f, x.Addr)
		m.store(st, p.(*Ptr), m.val(f, x.Val))
		f.ip++
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			m.recvOp(st, f, x, m.val(f, x.X).(*ChanRef))
			return
		}
		m.setVal(f, x, m.unop(st, f, x))
		f.ip++
	case *ssa.BinOp:
		v := m.binop(st, x.Op, m.val(f, x.X), m.val(f, x.Y), x.X.Type(), x.Y.Type())
		if t, ok := v.(*Term); ok && t.ite {
			v = m.simp(st, t)
		}
		m.setVal(f, x, v)
		f.ip++
	case *ssa.Jump:
		m.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		c, ok := m.val(f, x.Cond).(*Term)
		if !ok {
			unsup("branch on %T", m.val(f, x.Cond))
		}
		if m.decide(st, c) {
			m.jump(st, f, f.block.Succs[0])
		} else {
			m.jump(st, f, f.block.Succs[1])
		}
	case *ssa.Return:
		var res []Val
		for _, r := range x.Results {
			res = append(res, m.val(f, r))
		}
		m.finish(st, res)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.ip++
			return
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		// the instruction is repeated until no defers are left
		m.call(st, f, d.fn, d.args, nil, d.call, func(m *Machine, st *State, _ []Val) {})
	case *ssa.Defer:
		fn, args := m.callee(st, f, &x.Call)
		f.defers = append(f.defers, deferred{fn, args, &x.Call})
		f.ip++
	case *ssa.Go:
		fn, args := m.callee(st, f, &x.Call)
		m.spawn(st, fn, args)
		f.ip++
	case *ssa.Call:
		fn, args := m.callee(st, f, &x.Call)
		m.call(st, f, fn, args, x, &x.Call, nil)
	case *ssa.Panic:
		m.goPanic(st, "explicit panic")
	case *ssa.Extract:
		t := m.val(f, x.Tuple).(Tuple)
		m.setVal(f, x, t[x.Index])
		f.ip++
	case *ssa.FieldAddr:
		p := m.val(f, x.X).(*Ptr)
		if p.obj == 0 {
			m.goPanic(st, "nil pointer dereference")
		}
		m.setVal(f, x, addPath(p, PathElem{k: x.Field}))
		f.ip++
	case *ssa.Field:
		m.setVal(f, x, m.val(f, x.X).(*Struct).f[x.Field])
		f.ip++
	case *ssa.IndexAddr:
		m.setVal(f, x, m.indexAddr(st, m.val(f, x.X), m.val(f, x.Index).(*Term), x.X.Type()))
		f.ip++
	case *ssa.Index:
		m.setVal(f, x, m.index(st, m.val(f, x.X), m.val(f, x.Index).(*Term)))
		f.ip++
	case *ssa.Lookup:
		if v := m.lookup(st, f, x); v != nil {
			m.setVal(f, x, v)
			f.ip++
		}
	case *ssa.Slice:
		m.setVal(f, x, m.slice(st, f, x))
		f.ip++
	case *ssa.MakeSlice:
		t := x.Type().Underlying().(*types.Slice)
		m.setVal(f, x, m.makeSlice(st, t.Elem(), m.val(f, x.Len).(*Term), m.val(f, x.Cap).(*Term), x))
		f.ip++
	case *ssa.MakeMap:
		t := x.Type().Underlying().(*types.Map)
		id := m.alloc(st, nil, &MapObj{kt: t.Key(), vt: t.Elem()}, x)
		m.setVal(f, x, &MapRef{id})
		f.ip++
	case *ssa.MapUpdate:
		m.mapUpdate(st, m.val(f, x.Map).(*MapRef), m.val(f, x.Key), m.val(f, x.Value))
		f.ip++
	case *ssa.MakeChan:
		id := m.alloc(st, nil, &ChanObj{cap: m.val(f, x.Size).(*Term)}, x)
		m.setVal(f, x, &ChanRef{id})
		f.ip++
	case *ssa.MakeClosure:
		fn := &Func{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fn.free = append(fn.free, m.val(f, b))
		}
		m.setVal(f, x, fn)
		f.ip++
	case *ssa.MakeInterface:
		m.setVal(f, x, &Iface{x.X.Type(), m.val(f, x.X)})
		f.ip++
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var ops [1]*ssa.Value
		v := m.val(f, *in.Operands(ops[:0])[0])
		m.setVal(f, in.(ssa.Value), v)
		f.ip++
	case *ssa.Convert:
		m.setVal(f, x, m.convert(st, m.val(f, x.X), x.X.Type(), x.Type(), x))
		f.ip++
	case *ssa.MultiConvert:
		m.setVal(f, x, m.convert(st, m.val(f, x.X), x.X.Type(), x.Type(), x))
		f.ip++
	case *ssa.TypeAssert:
		m.setVal(f, x, m.typeAssert(st, m.val(f, x.X), x))
		f.ip++
	case *ssa.Range:
		m.setVal(f, x, m.rangeInit(st, m.val(f, x.X), x))
		f.ip++
	case *ssa.Next:
		m.setVal(f, x, m.rangeNext(st, m.val(f, x.Iter), x))
		f.ip++
	case *ssa.Select:
		m.selectInstr(st, f, x)
	case *ssa.Send:
		m.sendInstr(st, f, x)
	case *ssa.SliceToArrayPointer:
		s := m.val(f, x.X).(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		m.guard(st, m.c.Le(m.c.Int(n), s.len), "slice to array")
		unsup("slice to array pointer")
	case *ssa.Phi:
		panic("phi in the middle of a block")
	default:
		unsup("instruction %T", in)
	}
}

func (m *Machine) unop(st *State, f *Frame, x *ssa.UnOp) Val {
	v := m.val(f, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*Ptr)
		if !ok {
			unsup("dereference of %T", v)
		}
		return m.load(st, p)
	case token.NOT:
		return m.c.Not(v.(*Term))
	case token.SUB:
		if fl, ok := v.(*Float); ok {
			half := m.c.Big(pow2(fl.w - 1))
			if m.decide(st, m.c.Le(half, fl.bits)) {
				return &Float{m.c.Sub(fl.bits, half), fl.w}
			}
			return &Float{m.c.Add(fl.bits, half), fl.w}
		}
		return m.wrap(st, m.c.Neg(v.(*Term)), x.Type())
	case token.XOR:
		// ^x = -x-1, as unsigned max-x
		ii := intOf(x.Type())
		if ii.signed {
			return m.c.Sub(m.c.Int(-1), v.(*Term))
		}
		return m.c.Sub(m.c.Big(ii.hi), v.(*Term))
	}
	unsup("unary %v", x.Op)
	return nil
}

// wrap reduces the mathematical integer t to the machine type.
func (m *Machine) wrap(st *State, t *Term, typ types.Type) *Term {
	ii := intOf(typ)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(ii.lo) >= 0 && t.hi.Cmp(ii.hi) <= 0 {
		return t
	}
	if t.isConst() {
		return m.wrapExplicit(t, ii)
	}
	in := m.c.And(m.c.Le(m.c.Big(ii.lo), t), m.c.Le(t, m.c.Big(ii.hi)))
	if ii.bits >= 32 && m.entails(st, in) {
		return t
	}
	return m.wrapExplicit(t, ii)
}

func (m *Machine) wrapExplicit(t *Term, ii *intInfo) *Term {
	if !ii.signed {
		return m.c.Mod(t, pow2(ii.bits))
	}
	h := m.c.Big(pow2(ii.bits - 1))
	// if t is known nonnegative below 2^bits, an ite is friendlier
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(pow2(ii.bits)) < 0 {
		return m.c.Ite(m.c.Lt(t, h), t, m.c.Sub(t, m.c.Big(pow2(ii.bits))))
	}
	return m.c.Sub(m.c.Mod(m.c.Add(t, h), pow2(ii.bits)), h)
}

// unsignedOf maps a machine value to its bit pattern as a nonnegative integer.
func (m *Machine) unsignedOf(st *State, t *Term, ii *intInfo) *Term {
	if !ii.signed || t.lo != nil && t.lo.Sign() >= 0 {
		return t
	}
	if m.entails(st, m.c.Le(m.c.Int(0), t)) {
		return t
	}
	return m.c.Mod(t, pow2(ii.bits))
}

func (m *Machine) binop(st *State, op token.Token, a, b Val, ta, tb types.Type) Val {
	if _, ok := a.(Undef); ok {
		unsup("use of an undefined value")
	}
	switch op {
	case token.EQL, token.NEQ:
		c := m.equal(st, a, b, ta)
		if op == token.NEQ {
			c = m.c.Not(c)
		}
		return c
	}
	if isStringT(ta) {
		x, y := a.(*Text), b.(*Text)
		switch op {
		case token.ADD:
			return m.concat(x, y)
		case token.LSS:
			return m.c.Bool(m.textCmp(st, x, y) < 0)
		case token.LEQ:
			return m.c.Bool(m.textCmp(st, x, y) <= 0)
		case token.GTR:
			return m.c.Bool(m.textCmp(st, x, y) > 0)
		case token.GEQ:
			return m.c.Bool(m.textCmp(st, x, y) >= 0)
		}
		unsup("string operator %v", op)
	}
	if isFloatT(ta) {
		return m.floatOp(st, op, a, b, ta)
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %v on %T, %T", op, a, b)
	}
	c := m.c
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		return m.wrap(st, c.Add(x, y), ta)
	case token.SUB:
		return m.wrap(st, c.Sub(x, y), ta)
	case token.MUL:
		return m.wrap(st, c.Mul(x, y), ta)
	}
	ii := intOf(ta)
	switch op {
	case token.QUO, token.REM:
		if k, ok := m.constOf(st, y); ok && !y.isConst() {
			y = c.Int(int64(k))
		}
		if !y.isConst() {
			if m.decide(st, c.Eq(y, c.Int(0))) {
				m.goPanic(st, "division by zero")
			}
			unsup("division by a variable")
		}
		if y.k.Sign() == 0 {
			m.goPanic(st, "division by zero")
		}
		k := new(big.Int).Abs(y.k)
		var q, r *Term
		if x.lo != nil && x.lo.Sign() >= 0 || m.entails(st, c.Le(c.Int(0), x)) {
			q, r = c.Div(x, k), c.Mod(x, k)
		} else {
			nx := c.Neg(x)
			ge := c.Le(c.Int(0), x)
			q = c.Ite(ge, c.Div(x, k), c.Neg(c.Div(nx, k)))
			r = c.Ite(ge, c.Mod(x, k), c.Neg(c.Mod(nx, k)))
		}
		if op == token.REM {
			return r
		}
		if y.k.Sign() < 0 {
			q = c.Neg(q)
		}
		return m.wrap(st, q, ta)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		ux, uy := m.unsignedOf(st, x, ii), m.unsignedOf(st, y, ii)
		var r *Term
		switch op {
		case token.AND:
			r = c.BitAnd(ux, uy)
		case token.OR:
			r = c.BitOr(ux, uy)
		case token.XOR:
			r = c.BitXor(ux, uy)
		case token.AND_NOT:
			r = c.Sub(ux, c.BitAnd(ux, uy))
		}
		if ii.signed {
			return m.wrapExplicitIfNeeded(r, ii)
		}
		return r
	case token.SHL, token.SHR:
		iy := intOf(tb)
		if iy.signed {
			m.guard(st, c.Le(c.Int(0), y), "negative shift")
		}
		if k, ok := m.constOf(st, y); ok && !y.isConst() {
			y = c.Int(int64(k))
		}
		sh := func(k *Term) *Term {
			n := int64(1 << 20)
			if k.k.IsInt64() {
				n = k.k.Int64()
			}
			if op == token.SHL {
				if n >= int64(ii.bits) {
					return c.Int(0)
				}
				return m.wrap(st, c.Scale(pow2(int(n)), x), ta)
			}
			if n >= int64(ii.bits) {
				n = int64(ii.bits)
			}
			return c.Div(x, pow2(int(n)))
		}
		if y.isConst() {
			return sh(y)
		}
		if constIte(y) {
			return c.iteMap(y, sh)
		}
		if y.lo != nil && y.hi != nil && y.lo.Sign() >= 0 && y.hi.Cmp(bi(64)) <= 0 {
			lo, hi := y.lo.Int64(), y.hi.Int64()
			r := sh(c.Int(hi))
			for i := hi - 1; i >= lo; i-- {
				r = c.Ite(c.Eq(y, c.Int(i)), sh(c.Int(i)), r)
			}
			return r
		}
		unsup("shift by a wide variable")
	}
	unsup("operator %v", op)
	return nil
}

func (m *Machine) wrapExplicitIfNeeded(t *Term, ii *intInfo) *Term {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(ii.lo) >= 0 && t.hi.Cmp(ii.hi) <= 0 {
		return t
	}
	return m.wrapExplicit(t, ii)
}

// textCmp compares texts lexicographically, splitting cases.
func (m *Machine) textCmp(st *State, x, y *Text) int {
	a, ok1 := m.flat(x)
	b, ok2 := m.flat(y)
	if !ok1 || !ok2 {
		unsup("order of symbolic strings")
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if m.decide(st, m.c.Eq(a[i], b[i])) {
			continue
		}
		if m.decide(st, m.c.Lt(a[i], b[i])) {
			return -1
		}
		return 1
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func (m *Machine) equal(st *State, a, b Val, t types.Type) *Term {
	if _, ok := a.(Undef); ok {
		unsup("comparison of an undefined value")
	}
	if _, ok := b.(Undef); ok {
		unsup("comparison of an undefined value")
	}
	switch x := a.(type) {
	case *Term:
		return m.c.Eq(x, b.(*Term))
	case *Text:
		return m.textEqual(st, x, b.(*Text))
	case *Ptr:
		y := b.(*Ptr)
		if x.obj != y.obj {
			return m.c.False
		}
		if len(x.path) != len(y.path) {
			return m.c.False
		}
		r := m.c.True
		for i := range x.path {
			r = m.c.And(r, m.c.Eq(m.idx(x.path[i]), m.idx(y.path[i])))
		}
		return r
	case *Slice:
		y := b.(*Slice) // comparison with nil only
		if x.obj == 0 || y.obj == 0 {
			return m.c.Bool(x.obj == y.obj)
		}
	case *MapRef:
		return m.c.Bool(x.obj == b.(*MapRef).obj)
	case *ChanRef:
		return m.c.Bool(x.obj == b.(*ChanRef).obj)
	case *Func:
		y := b.(*Func)
		xn := x.fn == nil && x.nat == nil && x.bi == nil
		yn := y.fn == nil && y.nat == nil && y.bi == nil
		if xn || yn {
			return m.c.Bool(xn == yn)
		}
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			unsup("interface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return m.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.c.False
		}
		return m.equal(st, x.v, y.v, x.t)
	case *Struct:
		y := b.(*Struct)
		r := m.c.True
		s := under(t).(*types.Struct)
		for i := range x.f {
			r = m.c.And(r, m.equal(st, x.f[i], y.f[i], s.Field(i).Type()))
			if r == m.c.False {
				return r
			}
		}
		return r
	case *Array:
		y := b.(*Array)
		r := m.c.True
		et := under(t).(*types.Array).Elem()
		for i := range x.e {
			r = m.c.And(r, m.equal(st, x.e[i], y.e[i], et))
		}
		return r
	case *Opaque:
		if y, ok := b.(*Opaque); ok {
			return m.c.Bool(x == y || x.name == y.name)
		}
	case *Float:
		return m.floatOp(st, token.EQL, a, b, t).(*Term)
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// textEqual is string equality in code: exact, or a case split on a fresh
// condition implied by the sufficient one.
func (m *Machine) textEqual(st *State, x, y *Text) *Term {
	c, exact := m.textEq(st, x, y)
	if exact || c == m.c.True {
		return c
	}
	a, b := x.String(), y.String()
	if a > b {
		a, b = b, a
	}
	u := m.c.BVar("streq:" + a + "==" + b)
	// c implies equality
	m.assumeT(st, m.c.Or(m.c.Not(c), u))
	return u
}

// sameText is text equality of the contracts: a sufficient condition. Where a
// text is outside the models, what does not follow is not known to be wrong.
func (m *Machine) sameText(st *State, x, y *Text) *Term {
	c, exact := m.textEq(st, x, y)
	if !exact && c != m.c.True && (m.isVague(x) || m.isVague(y)) {
		c = m.c.Or(c, m.c.BVar(m.freshName(st, "vague:")))
	}
	return c
}

func (m *Machine) isVague(t *Text) bool {
	for _, s := range t.segs {
		if s.kind == sOp && m.vague[s.arr] {
			return true
		}
	}
	return false
}

// mentionsVague: the condition depends on a text outside the models.
func mentionsVague(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == OBVar && strings.HasPrefix(t.name, "vague:") {
		return true
	}
	for _, a := range t.args {
		if mentionsVague(a, seen) {
			return true
		}
	}
	return false
}

func (m *Machine) floatOp(st *State, op token.Token, a, b Val, t types.Type) Val {
	x, ok1 := a.(*Float)
	y, ok2 := b.(*Float)
	if ok1 && ok2 {
		if x.bits.isConst() && y.bits.isConst() {
			return m.floatConstOp(op, x, y)
		}
		switch op {
		case token.EQL:
			return m.c.UFB(fmt.Sprintf("feq%d", x.w), x.bits, y.bits)
		case token.LSS:
			return m.c.UFB(fmt.Sprintf("flt%d", x.w), x.bits, y.bits)
		}
	}
	unsup("float operator %v", op)
	return nil
}

// ---- indexing and slicing

func (m *Machine) inBounds(i, n *Term) *Term {
	return m.c.And(m.c.Le(m.c.Int(0), i), m.c.Lt(i, n))
}

func (m *Machine) indexAddr(st *State, x Val, i *Term, t types.Type) Val {
	switch v := x.(type) {
	case *Slice:
		m.guard(st, m.inBounds(i, v.len), "index out of range")
		return &Ptr{v.obj, []PathElem{m.mkIdx(m.c.Add(v.off, i))}}
	case *Ptr: // pointer to array
		n := under(under(t).(*types.Pointer).Elem()).(*types.Array).Len()
		m.guard(st, m.inBounds(i, m.c.Int(n)), "index out of range")
		if v.obj == 0 {
			m.goPanic(st, "nil pointer dereference")
		}
		return addPath(v, m.mkIdx(i))
	}
	unsup("IndexAddr of %T", x)
	return nil
}

func (m *Machine) index(st *State, x Val, i *Term) Val {
	switch v := x.(type) {
	case *Text:
		m.guard(st, m.inBounds(i, m.textLen(v)), "index out of range")
		return m.textAt(st, v, i)
	case *Array:
		m.guard(st, m.inBounds(i, m.c.Int(int64(len(v.e)))), "index out of range")
		return m.pick(st, v.e, m.mkIdx(i))
	}
	unsup("Index of %T", x)
	return nil
}

func (m *Machine) slice(st *State, f *Frame, x *ssa.Slice) Val {
	v := m.val(f, x.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return m.val(f, e).(*Term)
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = m.c.Int(0)
	}
	switch s := v.(type) {
	case *Text:
		n := m.textLen(s)
		if hi == nil {
			hi = n
		}
		m.guard(st, m.c.And(m.c.Le(m.c.Int(0), lo), m.c.Le(lo, hi), m.c.Le(hi, n)), "slice bounds")
		return m.subText(st, s, lo, hi)
	case *Slice:
		if hi == nil {
			hi = s.len
		}
		cp := s.cap
		if max != nil {
			m.guard(st, m.c.And(m.c.Le(hi, max), m.c.Le(max, s.cap)), "slice bounds")
			cp = max
		}
		m.guard(st, m.c.And(m.c.Le(m.c.Int(0), lo), m.c.Le(lo, hi), m.c.Le(hi, cp)), "slice bounds")
		if s.obj == 0 {
			return s
		}
		return &Slice{s.obj, m.c.Add(s.off, lo), m.c.Sub(hi, lo), m.c.Sub(cp, lo)}
	case *Ptr:
		// array
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := m.c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		m.guard(st, m.c.And(m.c.Le(m.c.Int(0), lo), m.c.Le(lo, hi), m.c.Le(hi, cp), m.c.Le(cp, n)), "slice bounds")
		if s.obj == 0 {
			m.goPanic(st, "nil pointer dereference")
		}
		if len(s.path) == 0 {
			return &Slice{s.obj, lo, m.c.Sub(hi, lo), m.c.Sub(cp, lo)}
		}
		// a slice of an array inside a larger object: copy (read-only use)
		arr := m.load(st, s).(*Array)
		id := m.alloc(st, nil, &Vec{append([]Val(nil), arr.e...)}, "arrslice")
		o := st.obj(id)
		m.setObj(st, o, &ROAlias{vec: &Vec{append([]Val(nil), arr.e...)}, src: s})
		return &Slice{id, lo, m.c.Sub(hi, lo), m.c.Sub(cp, lo)}
	}
	unsup("slice of %T", v)
	return nil
}

// ROAlias is the content of a slice over an array embedded in another object.
type ROAlias struct {
	vec *Vec
	src *Ptr
}

func (m *Machine) makeSlice(st *State, et types.Type, n, cp *Term, site interface{}) *Slice {
	m.guard(st, m.c.And(m.c.Le(m.c.Int(0), n), m.c.Le(n, cp)), "makeslice: len out of range")
	if k, ok := m.constOf(st, n); ok {
		n = m.c.Int(int64(k))
	}
	if k, ok := m.constOf(st, cp); ok {
		cp = m.c.Int(int64(k))
	}
	if n.isConst() && cp.isConst() && cp.k.Cmp(bi(1<<16)) <= 0 {
		c := int(cp.k.Int64())
		v := &Vec{make([]Val, c)}
		if c > 0 {
			z := m.zero(et)
			for i := range v.e {
				v.e[i] = z
			}
		}
		id := m.alloc(st, nil, v, site)
		return &Slice{id, m.c.Int(0), n, cp}
	}
	if isByteT(et) {
		id := m.alloc(st, nil, &Text{[]Seg{{kind: sRep, v: m.c.Int(0), len: cp}}}, site)
		return &Slice{id, m.c.Int(0), n, cp}
	}
	// list of symbolic length: all elements zero
	z := m.zero(et)
	id := m.alloc(st, nil, &AbsVec{trk: m.c.Int(-1), def: func(*Machine, *State, *Term) Val { return z }}, site)
	return &Slice{id, m.c.Int(0), n, cp}
}

// ---- slice contents

// sliceText returns the bytes of a byte slice.
func (m *Machine) sliceText(st *State, s *Slice) *Text {
	if s.obj == 0 || s.len.isConst() && s.len.k.Sign() == 0 {
		return emptyText
	}
	o := st.obj(s.obj)
	switch v := o.val.(type) {
	case *Text:
		return m.subText(st, v, s.off, m.c.Add(s.off, s.len))
	case *Vec:
		return m.vecText(st, v.e, s)
	case *Array:
		return m.vecText(st, v.e, s)
	case *ROAlias:
		return m.vecText(st, v.vec.e, s)
	case Undef:
		unsup("read of bytes the loop invariant does not describe")
	}
	unsup("bytes of %T", o.val)
	return nil
}

func (m *Machine) vecText(st *State, e []Val, s *Slice) *Text {
	b := make([]*Term, len(e))
	for i := range e {
		b[i] = e[i].(*Term)
	}
	return m.subText(st, bytesText(b), s.off, m.c.Add(s.off, s.len))
}

func (m *Machine) textSlice(st *State, t *Text, site interface{}) *Slice {
	n := m.textLen(t)
	id := 0
	explicit := true
	for _, s := range t.segs {
		if s.kind != sBytes {
			explicit = false
		}
	}
	if f, ok := m.flat(t); ok && explicit && len(f) <= 64 {
		v := &Vec{make([]Val, len(f))}
		for i := range f {
			v.e[i] = f[i]
		}
		id = m.alloc(st, nil, v, site)
	} else {
		id = m.alloc(st, nil, t, site)
	}
	return &Slice{id, m.c.Int(0), n, n}
}

// elems returns the elements of a slice of concrete length.
func (m *Machine) elems(st *State, s *Slice) []Val {
	if s.obj == 0 {
		return nil
	}
	n, ok := m.constOf(st, s.len)
	if !ok {
		unsup("elements of a slice of symbolic length")
	}
	off, ok := m.constOf(st, s.off)
	if !ok {
		unsup("elements of a slice at a symbolic offset")
	}
	r := make([]Val, n)
	o := st.obj(s.obj)
	for i := range r {
		r[i] = m.getPath(st, o.val, []PathElem{{k: off + i}}, o)
	}
	return r
}

func (m *Machine) vecSlice(st *State, e []Val, cp int, zero Val, site interface{}) *Slice {
	v := &Vec{make([]Val, cp)}
	copy(v.e, e)
	for i := len(e); i < cp; i++ {
		v.e[i] = zero
	}
	id := m.alloc(st, nil, v, site)
	return &Slice{id, m.c.Int(0), m.c.Int(int64(len(e))), m.c.Int(int64(cp))}
}

func growCap(old, need int) int {
	n := old
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

func (m *Machine) appendVals(st *State, s *Slice, add []Val, et types.Type, site interface{}) *Slice {
	if len(add) == 0 {
		return s
	}
	if s.obj != 0 {
		if av, ok := st.obj(s.obj).val.(*AbsVec); ok {
			if av.def != nil {
				return m.appendAbs(st, s, av, m.c.Int(int64(len(add))), func(m *Machine, st *State, i *Term) Val {
					for k := 0; k < len(add)-1; k++ {
						if m.decide(st, m.c.Eq(i, m.c.Int(int64(k)))) {
							return add[k]
						}
					}
					return add[len(add)-1]
				}, site)
			}
			n := *av
			ln := s.len
			for _, v := range add {
				if m.decide(st, m.c.Eq(ln, av.trk)) {
					n.val = v
				}
				ln = m.c.AddK(ln, 1)
			}
			id := m.alloc(st, nil, &n, site)
			return &Slice{id, m.c.Int(0), ln, ln}
		}
	}
	n, ok := m.constOf(st, s.len)
	cp, ok2 := m.constOf(st, s.cap)
	off, ok3 := m.constOf(st, s.off)
	if !ok || !ok2 || !ok3 {
		unsup("append to a slice of symbolic length")
	}
	if n+len(add) <= cp {
		o := st.obj(s.obj)
		v := o.val
		for i, a := range add {
			p := []PathElem{{k: off + n + i}}
			m.noteWrite(st, o, p)
			v = m.setPath(st, v, p, a)
		}
		m.setObj(st, st.obj(s.obj), v)
		return &Slice{s.obj, s.off, m.c.Int(int64(n + len(add))), s.cap}
	}
	e := append(append([]Val(nil), m.elems(st, s)...), add...)
	return m.vecSlice(st, e, growCap(cp, len(e)), m.zero(et), site)
}

// appendAbs appends n elements el(0..n-1) to a list of symbolic length.
func (m *Machine) appendAbs(st *State, s *Slice, av *AbsVec, n *Term, el func(*Machine, *State, *Term) Val, site interface{}) *Slice {
	if !s.off.isConst() || s.off.k.Sign() != 0 {
		unsup("append to part of an abstract list")
	}
	ln := m.c.Add(s.len, n)
	old := *av
	if !(n.isConst() && n.k.Cmp(big1) == 0) {
		old.ax = nil
	}
	nv := &AbsVec{trk: m.c.Int(-1)}
	if n.isConst() && n.k.Cmp(big1) == 0 {
		*nv = old
		nv.ups = append(append([]absUp(nil), av.ups...), absUp{s.len, el(m, st, m.c.Int(0))})
	} else if s.len.isConst() && s.len.k.Sign() == 0 {
		nv.def = el
	} else {
		at := s.len
		nv.def = func(m *Machine, st *State, i *Term) Val {
			if m.decide(st, m.c.Lt(i, at)) {
				return m.absGet(st, &old, i, nil)
			}
			return el(m, st, m.c.Sub(i, at))
		}
	}
	if m.decide(st, m.c.Le(ln, s.cap)) {
		// in place; elements beyond ln keep their value, nobody asks for them
		// unless the list is resliced
		o := st.obj(s.obj)
		m.noteWrite(st, o, nil)
		if nv.def != nil && len(nv.ups) == len(av.ups) {
			bd, all := nv.def, ln
			nv.def = func(m *Machine, st *State, i *Term) Val {
				if m.decide(st, m.c.Lt(i, all)) {
					return bd(m, st, i)
				}
				return m.absGet(st, &old, i, nil)
			}
		}
		m.setObj(st, st.obj(s.obj), nv)
		return &Slice{s.obj, s.off, ln, s.cap}
	}
	cp := m.c.Var(m.freshName(st, "cap"), big0, maxLen)
	m.assumeT(st, m.c.Le(ln, cp))
	id := m.alloc(st, nil, nv, site)
	return &Slice{id, m.c.Int(0), ln, cp}
}

// listAt: the elements of a list of symbolic length, as they are now.
func (m *Machine) listAt(st *State, s *Slice) func(*Machine, *State, *Term) Val {
	o := st.obj(s.obj)
	v := o.val
	return func(m *Machine, st *State, i *Term) Val {
		return m.getPath(st, v, []PathElem{m.mkIdx(m.c.Add(s.off, i))}, o)
	}
}

// appendList: append(s, x...) for a list x of symbolic length.
func (m *Machine) appendList(st *State, s, x *Slice, et types.Type, site interface{}) *Slice {
	if x.obj == 0 {
		return s
	}
	if m.decide(st, m.c.Eq(x.len, m.c.Int(0))) {
		return s
	}
	z := m.zero(et)
	av := &AbsVec{trk: m.c.Int(-1), def: func(*Machine, *State, *Term) Val { return z }}
	if s.obj != 0 {
		switch v := st.obj(s.obj).val.(type) {
		case *AbsVec:
			if v.def == nil {
				unsup("append of a list to an abstract list")
			}
			av = v
		case *Vec:
			if len(v.e) > 0 {
				at := m.listAt(st, &Slice{s.obj, m.c.Int(0), nil, nil})
				av = &AbsVec{trk: m.c.Int(-1), def: at}
			}
		default:
			unsup("append of a list to %T", v)
		}
	}
	return m.appendAbs(st, s, av, x.len, m.listAt(st, x), site)
}

// copyList: copy(d, s) of n elements of lists of symbolic length.
func (m *Machine) copyList(st *State, d, s *Slice, n *Term) {
	o := st.obj(d.obj)
	from := m.listAt(st, &Slice{s.obj, s.off, nil, nil})
	to := m.listAt(st, &Slice{d.obj, m.c.Int(0), nil, nil})
	if n == s.len && n == d.len && d.off.isConst() && d.off.k.Sign() == 0 {
		to = nil
	}
	off := d.off
	m.noteWrite(st, o, nil)
	m.setObj(st, st.obj(d.obj), &AbsVec{trk: m.c.Int(-1), def: func(m *Machine, st *State, i *Term) Val {
		if to == nil || m.decide(st, m.c.And(m.c.Le(off, i), m.c.Lt(i, m.c.Add(off, n)))) {
			return from(m, st, m.c.Sub(i, off))
		}
		return to(m, st, i)
	}})
}

// appendText appends bytes; a fresh buffer is always made unless the spare
// capacity is known to suffice.
func (m *Machine) appendText(st *State, s *Slice, t *Text, site interface{}) *Slice {
	explicit := true
	for _, s := range t.segs {
		if s.kind != sBytes {
			explicit = false
		}
	}
	if f, ok := m.flat(t); ok && explicit {
		if len(f) == 0 {
			return s
		}
		_, k1 := m.constOf(st, s.len)
		_, k2 := m.constOf(st, s.cap)
		_, k3 := m.constOf(st, s.off)
		isText := false
		if s.obj != 0 {
			_, isText = st.obj(s.obj).val.(*Text)
		}
		if k1 && k2 && k3 && !isText {
			vs := make([]Val, len(f))
			for i := range f {
				vs[i] = f[i]
			}
			return m.appendVals(st, s, vs, types.Typ[types.Uint8], site)
		}
	}
	cur := m.sliceText(st, s)
	n := m.concat(cur, t)
	ln := m.textLen(n)
	if s.obj != 0 && m.decide(st, m.c.Le(m.c.Add(s.off, ln), m.c.Add(s.off, s.cap))) {
		// in place: writes into the shared backing array beyond len
		o := st.obj(s.obj)
		var all *Text
		switch v := o.val.(type) {
		case *Text:
			all = v
		case *Vec:
			b := make([]*Term, len(v.e))
			for i := range v.e {
				b[i] = v.e[i].(*Term)
			}
			all = bytesText(b)
		default:
			unsup("append of symbolic bytes into %T", o.val)
		}
		m.noteWrite(st, o, nil)
		pre := m.subText(st, all, m.c.Int(0), m.c.Add(s.off, s.len))
		post := m.subText(st, all, m.c.Add(s.off, ln), m.textLen(all))
		m.setObj(st, o, m.concat(pre, t, post))
		return &Slice{s.obj, s.off, ln, s.cap}
	}
	id := m.alloc(st, nil, n, site)
	return &Slice{id, m.c.Int(0), ln, ln}
}

func (m *Machine) copySlice(st *State, d *Slice, src Val) *Term {
	var n *Term
	var srcLen *Term
	switch s := src.(type) {
	case *Slice:
		srcLen = s.len
	case *Text:
		srcLen = m.textLen(s)
	}
	if m.decide(st, m.c.Le(srcLen, d.len)) {
		n = srcLen
	} else {
		n = d.len
	}
	if k, ok := m.constOf(st, n); ok {
		n = m.c.Int(int64(k))
	}
	if n.isConst() && n.k.Sign() == 0 || d.obj == 0 {
		return m.c.Int(0)
	}
	o := st.obj(d.obj)
	if s, ok := src.(*Slice); ok && s.obj != 0 {
		_, abs1 := o.val.(*AbsVec)
		_, abs2 := st.obj(s.obj).val.(*AbsVec)
		if abs1 || abs2 {
			m.copyList(st, d, s, n)
			return n
		}
	}
	if s, ok := src.(*Slice); ok {
		if _, isText := o.val.(*Text); !isText && n.isConst() {
			ss := &Slice{s.obj, s.off, n, s.cap}
			es := m.elemsAny(st, ss)
			doff, ok := m.constOf(st, d.off)
			if !ok {
				unsup("copy to a symbolic offset")
			}
			v := o.val
			for i, e := range es {
				p := []PathElem{{k: doff + i}}
				m.noteWrite(st, o, p)
				v = m.setPath(st, v, p, e)
			}
			m.setObj(st, st.obj(d.obj), v)
			return n
		}
	}
	// bytes
	var t *Text
	switch s := src.(type) {
	case *Slice:
		t = m.sliceText(st, &Slice{s.obj, s.off, n, s.cap})
	case *Text:
		t = m.subText(st, s, m.c.Int(0), n)
	}
	var cur *Text
	whole := &Slice{d.obj, m.c.Int(0), m.c.Int(0), nil}
	switch v := o.val.(type) {
	case *Text:
		cur = v
	case *Vec:
		b := make([]*Term, len(v.e))
		for i := range v.e {
			x, ok := v.e[i].(*Term)
			if !ok {
				unsup("copy between %T", v.e[i])
			}
			b[i] = x
		}
		cur = bytesText(b)
		_ = whole
	case *Array:
		b := make([]*Term, len(v.e))
		for i := range v.e {
			b[i] = v.e[i].(*Term)
		}
		cur = bytesText(b)
	default:
		unsup("copy into %T", o.val)
	}
	m.noteWrite(st, o, nil)
	tl := m.textLen(cur)
	pre := m.subText(st, cur, m.c.Int(0), d.off)
	post := m.subText(st, cur, m.c.Add(d.off, n), tl)
	r := m.concat(pre, t, post)
	switch v := o.val.(type) {
	case *Text:
		m.setObj(st, o, r)
	case *Vec:
		f, ok := m.flat(r)
		if !ok || len(f) != len(v.e) {
			m.setObj(st, o, r)
			break
		}
		nv := &Vec{make([]Val, len(f))}
		for i := range f {
			nv.e[i] = f[i]
		}
		m.setObj(st, o, nv)
	case *Array:
		f, ok := m.flat(r)
		if !ok {
			unsup("copy of symbolic length into an array")
		}
		nv := &Array{make([]Val, len(f))}
		for i := range f {
			nv.e[i] = f[i]
		}
		m.setObj(st, o, nv)
	}
	return n
}

// elemsAny reads elements at possibly symbolic offset.
func (m *Machine) elemsAny(st *State, s *Slice) []Val {
	n, ok := m.constOf(st, s.len)
	if !ok {
		unsup("elements of a slice of symbolic length")
	}
	o := st.obj(s.obj)
	r := make([]Val, n)
	for i := range r {
		r[i] = m.getPath(st, o.val, []PathElem{m.mkIdx(m.c.AddK(s.off, int64(i)))}, o)
	}
	return r
}

// ---- conversions

func (m *Machine) convert(st *State, v Val, from, to types.Type, site interface{}) Val {
	ft, tt := under(from), under(to)
	if fi, ti := intOf(ft), intOf(tt); fi != nil && ti != nil {
		return m.wrapConv(st, v.(*Term), ti)
	}
	if isStringT(tt) {
		switch x := v.(type) {
		case *Text:
			return x
		case *Slice:
			if s, ok := ft.(*types.Slice); ok && isByteT(s.Elem()) {
				return m.sliceText(st, x)
			}
		case *Term:
			if x.isConst() {
				return m.lit(string(rune(x.k.Int64())))
			}
		}
	}
	if s, ok := tt.(*types.Slice); ok && isByteT(s.Elem()) {
		if x, ok := v.(*Text); ok {
			if c, ok := x.concrete(); ok && c == "" {
				id := m.alloc(st, nil, &Vec{}, site)
				z := m.c.Int(0)
				return &Slice{id, z, z, z}
			}
			return m.textSlice(st, x, site)
		}
	}
	if isFloatT(tt) {
		if x, ok := v.(*Float); ok {
			return m.convFloat(x, to)
		}
		if x, ok := v.(*Term); ok && x.isConst() {
			return m.constFloatInt(x, to)
		}
		if x, ok := v.(*Term); ok {
			w := 64
			if under(to).(*types.Basic).Kind() == types.Float32 {
				w = 32
			}
			return &Float{m.c.UF(fmt.Sprintf("i2f%d", w), big0, new(big.Int).Sub(pow2(w), big1), x), w}
		}
	}
	switch v.(type) {
	case *Ptr, *Iface, *Func, *MapRef, *ChanRef, *Slice, *Struct, *Array:
		if types.Identical(ft, tt) {
			return v
		}
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

func (m *Machine) wrapConv(st *State, t *Term, ti *intInfo) *Term {
	if t.lo != nil && t.hi != nil && t.lo.Cmp(ti.lo) >= 0 && t.hi.Cmp(ti.hi) <= 0 {
		return t
	}
	if ti.bits >= 32 {
		in := m.c.And(m.c.Le(m.c.Big(ti.lo), t), m.c.Le(t, m.c.Big(ti.hi)))
		if m.entails(st, in) {
			return t
		}
	}
	return m.wrapExplicit(t, ti)
}

// ---- interfaces

func (m *Machine) typeAssert(st *State, v Val, x *ssa.TypeAssert) Val {
	i, ok := v.(*Iface)
	if !ok {
		unsup("type assertion on %T", v)
	}
	hit := false
	var res Val
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if i.t != nil && types.Implements(i.t, it) {
			hit = true
			res = i
		}
	} else if i.t != nil && types.Identical(i.t, x.AssertedType) {
		hit = true
		res = i.v
	}
	if x.CommaOk {
		if !hit {
			res = m.zero(x.AssertedType)
		}
		return Tuple{res, m.c.Bool(hit)}
	}
	if !hit {
		m.goPanic(st, "type assertion")
	}
	return res
}

// ---- maps

func (m *Machine) mapFind(st *State, mo *MapObj, k Val) (int, bool) {
	for i, e := range mo.ents {
		if m.decide(st, m.equal(st, e.k, k, mo.kt)) {
			return i, true
		}
	}
	return 0, false
}

func (m *Machine) lookup(st *State, f *Frame, x *ssa.Lookup) Val {
	v := m.val(f, x.X)
	k := m.val(f, x.Index)
	if t, ok := v.(*Text); ok {
		i := k.(*Term)
		m.guard(st, m.inBounds(i, m.textLen(t)), "index out of range")
		return m.textAt(st, t, i)
	}
	r := v.(*MapRef)
	mt := under(x.X.Type()).(*types.Map)
	if r.obj != 0 {
		// an entry of an abstract map not asked for yet: the specification
		// supplies it, then the instruction runs again
		if mo, ok := st.obj(r.obj).val.(*MapObj); ok && mo.gen != nil && mo.gen.nat == nil {
			if _, hit := m.mapFind(st, mo, k); !hit {
				mode := st.mode
				m.pushFrame(st, mo.gen.fn, []Val{k}, mo.gen.free, nil, func(m *Machine, st *State, res []Val) {
					o := st.obj(r.obj)
					n := *(o.val.(*MapObj))
					e := MapEnt{k, nil}
					if m.decide(st, res[1].(*Term)) {
						e.v = res[0]
					}
					n.ents = append(append([]MapEnt(nil), n.ents...), e)
					m.setObj(st, o, &n)
					st.mode = mode
				})
				return nil
			}
		}
	}
	val, ok := m.mapGet(st, r, k, mt)
	if x.CommaOk {
		return Tuple{val, m.c.Bool(ok)}
	}
	return val
}

func (m *Machine) mapGet(st *State, r *MapRef, k Val, mt *types.Map) (Val, bool) {
	if r.obj == 0 {
		return m.zero(mt.Elem()), false
	}
	mo, ok := st.obj(r.obj).val.(*MapObj)
	if !ok {
		unsup("map the loop invariant does not describe")
	}
	if i, ok := m.mapFind(st, mo, k); ok {
		if mo.ents[i].v == nil {
			return m.zero(mt.Elem()), false // known absent
		}
		return mo.ents[i].v, true
	}
	if mo.gen != nil {
		res := mo.gen.nat(m, st, []Val{k})
		n := *mo
		n.ents = append(append([]MapEnt(nil), mo.ents...), MapEnt{k, res[0]})
		o := st.obj(r.obj)
		m.setObj(st, o, &n)
		if res[0] == nil {
			return m.zero(mt.Elem()), false
		}
		return res[0], true
	}
	return m.zero(mt.Elem()), false
}

func (m *Machine) mapUpdate(st *State, r *MapRef, k, v Val) {
	if r.obj == 0 {
		m.goPanic(st, "assignment to entry in nil map")
	}
	o := st.obj(r.obj)
	m.noteWrite(st, o, nil)
	mo, ok := o.val.(*MapObj)
	if !ok {
		unsup("map the loop invariant does not describe")
	}
	n := *mo
	n.ln = nil
	n.ents = append([]MapEnt(nil), mo.ents...)
	if i, ok := m.mapFind(st, mo, k); ok {
		n.ents[i].v = v
	} else {
		n.ents = append(n.ents, MapEnt{k, v})
	}
	m.setObj(st, st.obj(r.obj), &n)
}

func (m *Machine) mapDelete(st *State, r *MapRef, k Val) {
	if r.obj == 0 {
		return
	}
	o := st.obj(r.obj)
	m.noteWrite(st, o, nil)
	mo, ok := o.val.(*MapObj)
	if !ok {
		unsup("map the loop invariant does not describe")
	}
	if i, ok := m.mapFind(st, mo, k); ok {
		n := *mo
		n.ln = nil
		n.ents = append([]MapEnt(nil), mo.ents...)
		if mo.gen != nil {
			n.ents[i].v = nil
		} else {
			n.ents = append(n.ents[:i], n.ents[i+1:]...)
		}
		m.setObj(st, st.obj(r.obj), &n)
	} else if mo.gen != nil {
		n := *mo
		n.ln = nil
		n.ents = append(append([]MapEnt(nil), mo.ents...), MapEnt{k, nil})
		m.setObj(st, o, &n)
	}
}

// ---- range over maps and strings

type Iter struct{ obj int }
type iterState struct {
	m    *MapRef
	left []MapEnt
	text *Text
	pos  int
	// a map with unknown keys: which of the known ones came up
	lazy bool
	seen []seenEnt
}
type seenEnt struct {
	k Val
	t *Term
}

func (m *Machine) rangeInit(st *State, v Val, site interface{}) Val {
	is := &iterState{}
	switch x := v.(type) {
	case *MapRef:
		is.m = x
		if x.obj != 0 {
			mo, ok := st.obj(x.obj).val.(*MapObj)
			if !ok {
				unsup("range over a map the loop invariant does not describe")
			}
			if mo.gen != nil {
				is.lazy = true
				for _, e := range mo.ents {
					if e.v != nil {
						is.seen = append(is.seen, seenEnt{e.k, m.c.False})
					}
				}
			} else {
				is.left = mo.ents
			}
		}
	case *Text:
		is.text = x
	default:
		unsup("range over %T", v)
	}
	return &Iter{m.alloc(st, nil, is, site)}
}

func (m *Machine) rangeNext(st *State, v Val, x *ssa.Next) Val {
	it := v.(*Iter)
	o := st.obj(it.obj)
	m.noteWrite(st, o, nil)
	is, ok := o.val.(*iterState)
	if !ok {
		unsup("iteration the loop invariant does not describe")
	}
	if is.lazy {
		return m.lazyNext(st, it, is, x)
	}
	if is.m != nil {
		// any order: choose the next entry by case split
		tt := x.Type().(*types.Tuple)
		n := len(is.left)
		if n == 0 {
			z := func(t types.Type) Val {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return m.zero(t)
			}
			return Tuple{m.c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
		}
		k := 0
		if n > 1 {
			for k < n-1 {
				ch := m.c.BVar(fmt.Sprintf("mapiter!%d!%d!%d", it.obj, n, k))
				if m.decide(st, ch) {
					break
				}
				k++
			}
		}
		e := is.left[k]
		// current value (may have been updated during the iteration)
		cur := e.v
		if mo, ok := st.obj(is.m.obj).val.(*MapObj); ok {
			i, ok := m.mapFind(st, mo, e.k)
			if ok {
				cur = mo.ents[i].v
			}
		}
		ns := *is
		ns.left = append(append([]MapEnt(nil), is.left[:k]...), is.left[k+1:]...)
		m.setObj(st, st.obj(it.obj), &ns)
		return Tuple{m.c.True, e.k, cur}
	}
	b, ok := m.flat(is.text)
	if !ok {
		unsup("range over a symbolic string")
	}
	if is.pos >= len(b) {
		return Tuple{m.c.False, m.c.Int(0), m.c.Int(0)}
	}
	r := b[is.pos]
	if m.decide(st, m.c.Le(m.c.Int(128), r)) {
		if s, ok := is.text.concrete(); ok {
			for i, c := range s[is.pos:] {
				_ = i
				ns := *is
				ns.pos += len(string(c))
				m.setObj(st, o, &ns)
				return Tuple{m.c.True, m.c.Int(int64(is.pos)), m.c.Int(int64(c))}
			}
		}
		unsup("range over non-ASCII string")
	}
	ns := *is
	ns.pos++
	m.setObj(st, o, &ns)
	return Tuple{m.c.True, m.c.Int(int64(is.pos)), r}
}

// lazyNext: a map with unknown keys yields a known key not yet seen, some
// other key, or ends when all known keys were seen. (Other keys may come up
// again: more histories than there are.)
func (m *Machine) lazyNext(st *State, it *Iter, is *iterState, x *ssa.Next) Val {
	tt := x.Type().(*types.Tuple)
	o := st.obj(is.m.obj)
	mo, ok := o.val.(*MapObj)
	if !ok || mo.gen == nil {
		unsup("range over a map that changes")
	}
	base := m.freshName(st, "next")
	if m.decide(st, m.c.BVar(base+"end")) {
		for _, s := range is.seen {
			m.assumeT(st, s.t)
		}
		if mo.ln != nil && len(is.seen) == 0 {
			// nothing known
		}
		z := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return m.zero(t)
		}
		return Tuple{m.c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	if mo.ln != nil {
		m.assumeT(st, m.c.Lt(m.c.Int(0), mo.ln))
	}
	for i, s := range is.seen {
		if m.decide(st, m.c.BVar(fmt.Sprintf("%s.%d", base, i))) {
			m.assumeT(st, m.c.Not(s.t))
			k, ok := m.mapFind(st, mo, s.k)
			if !ok {
				unsup("range over a map that changes")
			}
			ns := *is
			ns.seen = append([]seenEnt(nil), is.seen...)
			ns.seen[i].t = m.c.True
			m.setObj(st, st.obj(it.obj), &ns)
			return Tuple{m.c.True, s.k, mo.ents[k].v}
		}
	}
	k := m.freshOf(st, mo.kt, base)
	for _, e := range mo.ents {
		if m.decide(st, m.equal(st, e.k, k, mo.kt)) {
			panic(pathDead{}) // counted above, or absent
		}
	}
	var res []Val
	if mo.gen.nat != nil {
		unsup("range over a map with a native generator")
	}
	res = m.evalPure(st, mo.gen, []Val{k})
	m.assumeT(st, res[1].(*Term))
	o = st.obj(is.m.obj)
	n := *mo
	n.ents = append(append([]MapEnt(nil), mo.ents...), MapEnt{k, res[0]})
	m.setObj(st, o, &n)
	return Tuple{m.c.True, k, res[0]}
}

// freshOf: an arbitrary value of a type made of integers.
func (m *Machine) freshOf(st *State, t types.Type, name string) Val {
	if ii := intOf(t); ii != nil {
		return m.c.Var(m.freshName(st, name), ii.lo, ii.hi)
	}
	switch u := under(t).(type) {
	case *types.Array:
		a := &Array{}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, m.freshOf(st, u.Elem(), name))
		}
		return a
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, m.freshOf(st, u.Field(i).Type(), name))
		}
		return s
	}
	unsup("an arbitrary %v", t)
	return nil
}

// simp resolves ites whose condition the path condition decides.
func (m *Machine) simp(st *State, t *Term) *Term {
	return m.c.simpIte(t, func(b *Term) (bool, bool) { return m.knownB(st.pc, b) }, map[*Term]*Term{})
}
