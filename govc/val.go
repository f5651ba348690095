package main

// Values of the symbolic machine, the persistent heap, and type helpers.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term (ints, bools), *Text (strings), *Slice, *Ptr, *Struct,
// *Array, *Iface, *Func, *MapRef, *ChanRef, *Float, Undef, Tuple, *Opaque.
type Val interface{}

type Undef struct{ why string }
type Tuple []Val

type Struct struct{ f []Val }
type Array struct{ e []Val }

type Slice struct {
	obj           int // 0: nil
	off, len, cap *Term
}

type PathElem struct {
	k int   // field index, or constant index
	t *Term // symbolic index if non-nil
}
type Ptr struct {
	obj  int // 0: nil
	path []PathElem
}
type Iface struct {
	t types.Type // nil: nil interface
	v Val
}
type Func struct {
	fn   *ssa.Function
	free []Val
	bi   *ssa.Builtin
	nat  func(m *Machine, st *State, args []Val) []Val
	name string
	args []Val // of a go statement
}
type MapRef struct{ obj int }
type ChanRef struct{ obj int }

// Float is an IEEE value known by its bit pattern.
type Float struct {
	bits *Term
	w    int // width of bits
}

// Opaque is a value nothing is known about except identity.
type Opaque struct{ name string }

// Object contents beyond plain values.
type Vec struct{ e []Val } // backing array of a slice, concrete length

type MapEnt struct{ k, v Val }
type MapObj struct {
	ents []MapEnt
	kt   types.Type
	vt   types.Type
	// rest, when non-nil, yields the entry of a key not among ents
	// (lazily initialised map): native generator.
	gen *Func
	ln  *Term // length of a lazily initialised map, if known
}

// AbsVec is the backing array of an append-only list of symbolic length of
// which only the element at index trk is tracked.
type AbsVec struct {
	trk *Term // tracked index
	val Val   // its value (meaningful when trk < length)
	def func(m *Machine, st *State, i *Term) Val
	ups []absUp // stores over def, oldest first
	// ax, when non-nil, is a fact about the elements at any two indices,
	// assumed for the indices read so far
	ax   *Func
	seen []*Term
}

type absUp struct {
	idx *Term
	val Val
}

type Obj struct {
	id   int
	typ  types.Type
	val  Val
	name string
	site interface{} // allocation site
	old  bool        // existed before the function under verification ran
}

// persistent map int -> *Obj
type pnode struct {
	kids [16]*pnode
	objs [16]*Obj
}
type pmap struct {
	root  *pnode
	depth int // levels below root; depth 0: root is a leaf
}

func (p pmap) get(i int) *Obj {
	n := p.root
	if n == nil || i>>(4*uint(p.depth+1)) != 0 {
		return nil
	}
	for d := p.depth; d > 0; d-- {
		n = n.kids[(i>>(4*uint(d)))&15]
		if n == nil {
			return nil
		}
	}
	return n.objs[i&15]
}
func (p pmap) set(i int, o *Obj) pmap {
	if p.root == nil {
		p.root = &pnode{}
	}
	for i>>(4*uint(p.depth+1)) != 0 {
		r := &pnode{}
		r.kids[0] = p.root
		p.root = r
		p.depth++
	}
	p.root = pset(p.root, p.depth, i, o)
	return p
}
func pset(n *pnode, d, i int, o *Obj) *pnode {
	c := &pnode{}
	if n != nil {
		*c = *n
	}
	if d == 0 {
		c.objs[i&15] = o
	} else {
		k := (i >> (4 * uint(d))) & 15
		c.kids[k] = pset(c.kids[k], d-1, i, o)
	}
	return c
}

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

type intInfo struct {
	bits   int
	signed bool
	lo, hi *big.Int
}

var intInfos = map[types.BasicKind]*intInfo{}

func init() {
	add := func(k types.BasicKind, bits int, signed bool) {
		i := &intInfo{bits: bits, signed: signed}
		if signed {
			i.lo = new(big.Int).Neg(pow2(bits - 1))
			i.hi = new(big.Int).Sub(pow2(bits-1), big1)
		} else {
			i.lo = big0
			i.hi = new(big.Int).Sub(pow2(bits), big1)
		}
		intInfos[k] = i
	}
	add(types.Int, 64, true)
	add(types.Int8, 8, true)
	add(types.Int16, 16, true)
	add(types.Int32, 32, true)
	add(types.Int64, 64, true)
	add(types.Uint, 64, false)
	add(types.Uint8, 8, false)
	add(types.Uint16, 16, false)
	add(types.Uint32, 32, false)
	add(types.Uint64, 64, false)
	add(types.Uintptr, 64, false)
	add(types.UntypedInt, 64, true)
	add(types.UntypedRune, 32, true)
}

func intOf(t types.Type) *intInfo {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil
	}
	return intInfos[b.Kind()]
}
func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isByteT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return m.c.False
		case u.Info()&types.IsInteger != 0:
			return m.c.Int(0)
		case u.Info()&types.IsString != 0:
			return emptyText
		case u.Info()&types.IsFloat != 0:
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			return &Float{m.c.Int(0), w}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return &Ptr{}
		}
	case *types.Pointer:
		return &Ptr{}
	case *types.Slice:
		return m.nilSlice()
	case *types.Map:
		return &MapRef{}
	case *types.Chan:
		return &ChanRef{}
	case *types.Signature:
		return &Func{}
	case *types.Interface:
		return &Iface{}
	case *types.Struct:
		s := &Struct{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<16 {
			unsup("array of %d elements", u.Len())
		}
		a := &Array{make([]Val, u.Len())}
		for i := range a.e {
			a.e[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = m.zero(u.At(i).Type())
		}
		return tu
	}
	unsup("zero value of %v", t)
	return nil
}

func (m *Machine) nilSlice() *Slice {
	z := m.c.Int(0)
	return &Slice{0, z, z, z}
}

func (st *State) obj(id int) *Obj {
	o := st.heap.get(id)
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}

func (m *Machine) alloc(st *State, typ types.Type, v Val, site interface{}) int {
	st.nextObj++
	id := st.nextObj
	st.heap = st.heap.set(id, &Obj{id: id, typ: typ, val: v, site: site})
	return id
}

func (m *Machine) setObj(st *State, o *Obj, v Val) {
	n := *o
	n.val = v
	st.heap = st.heap.set(o.id, &n)
}

// ---- reading and writing through paths

func (m *Machine) getPath(st *State, v Val, path []PathElem, o *Obj) Val {
	for i := 0; i < len(path); i++ {
		p := path[i]
		switch x := v.(type) {
		case *Struct:
			v = x.f[p.k]
		case *Array:
			v = m.pick(st, x.e, p)
		case *Vec:
			v = m.pick(st, x.e, p)
		case *Text:
			v = m.textAt(st, x, m.idx(p))
		case *AbsVec:
			v = m.absGet(st, x, m.idx(p), o)
		case Undef:
			unsup("read of a value the loop invariant does not describe (%s)", x.why)
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func (m *Machine) idx(p PathElem) *Term {
	if p.t != nil {
		return p.t
	}
	return m.c.Int(int64(p.k))
}

// pick reads element p of e: constant, or symbolic over ints/bools (ite
// chain) and otherwise by case split.
func (m *Machine) pick(st *State, e []Val, p PathElem) Val {
	if p.t == nil {
		return e[p.k]
	}
	if k, ok := m.constOf(st, p.t); ok {
		return e[k]
	}
	allTerms := len(e) <= 300
	for _, x := range e {
		if _, ok := x.(*Term); !ok {
			allTerms = false
			break
		}
	}
	if allTerms && len(e) > 0 {
		r := e[len(e)-1].(*Term)
		for i := len(e) - 2; i >= 0; i-- {
			r = m.c.Ite(m.c.Eq(p.t, m.c.Int(int64(i))), e[i].(*Term), r)
		}
		return r
	}
	for i := range e {
		if m.decide(st, m.c.Eq(p.t, m.c.Int(int64(i)))) {
			return e[i]
		}
	}
	panic(pathDead{})
}

func (m *Machine) absGet(st *State, x *AbsVec, i *Term, o *Obj) Val {
	if x.ax != nil && o != nil {
		if c := st.heap.get(o.id); c != nil && c.val == Val(x) {
			x = m.absTouch(st, c, x, i)
		} else {
			for _, j := range x.seen {
				m.assumeT(st, m.evalPure(st, x.ax, []Val{i, j})[0].(*Term))
				m.assumeT(st, m.evalPure(st, x.ax, []Val{j, i})[0].(*Term))
			}
			m.assumeT(st, m.evalPure(st, x.ax, []Val{i, i})[0].(*Term))
		}
	}
	for k := len(x.ups) - 1; k >= 0; k-- {
		if m.decide(st, m.c.Eq(i, x.ups[k].idx)) {
			return x.ups[k].val
		}
	}
	if !(x.trk.isConst() && x.trk.k.Sign() < 0) && m.decide(st, m.c.Eq(i, x.trk)) {
		return x.val
	}
	if x.def == nil {
		unsup("read of an untracked element")
	}
	return x.def(m, st, i)
}

// absTouch assumes the list's facts for index i and the indices read before.
func (m *Machine) absTouch(st *State, o *Obj, x *AbsVec, i *Term) *AbsVec {
	for _, j := range x.seen {
		if j == i {
			return x
		}
	}
	for _, j := range x.seen {
		m.assumeT(st, m.evalPure(st, x.ax, []Val{i, j})[0].(*Term))
		m.assumeT(st, m.evalPure(st, x.ax, []Val{j, i})[0].(*Term))
	}
	m.assumeT(st, m.evalPure(st, x.ax, []Val{i, i})[0].(*Term))
	n := *x
	n.seen = append(append([]*Term(nil), x.seen...), i)
	m.setObj(st, st.heap.get(o.id), &n)
	return &n
}

// evalPure runs a function of the specification at once. A fork in it rolls
// back to the instruction that needed the value.
func (m *Machine) evalPure(st *State, fn *Func, args []Val) []Val {
	depth := len(st.frames)
	heap, next, mode := st.heap, st.nextObj, st.mode
	var out []Val
	ok := false
	m.pushFrame(st, fn.fn, args, fn.free, nil, func(m *Machine, st *State, res []Val) {
		out = res
		ok = true
	})
	for len(st.frames) > depth {
		f := st.top()
		st.steps++
		if st.steps > m.fuel {
			unsup("fuel exhausted")
		}
		m.exec(st, f, f.block.Instrs[f.ip])
	}
	if !ok {
		panic("evalPure")
	}
	st.mode = mode
	pure := true
	for _, v := range out {
		pure = pure && flatVal(v)
	}
	if pure {
		st.heap, st.nextObj = heap, next
	}
	return out
}

// flatVal: the value refers to no object.
func flatVal(v Val) bool {
	switch x := v.(type) {
	case *Term, *Text, *Float:
		return true
	case *Struct:
		for _, e := range x.f {
			if !flatVal(e) {
				return false
			}
		}
		return true
	case *Array:
		for _, e := range x.e {
			if !flatVal(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *Machine) setPath(st *State, v Val, path []PathElem, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *Struct:
		f := append([]Val(nil), x.f...)
		f[p.k] = m.setPath(st, f[p.k], path[1:], nv)
		return &Struct{f}
	case *Array:
		return &Array{m.setElem(st, x.e, path, nv)}
	case *Vec:
		return &Vec{m.setElem(st, x.e, path, nv)}
	case *Text:
		return m.textSet(st, x, m.idx(p), nv.(*Term))
	case *AbsVec:
		i := m.idx(p)
		if x.def != nil {
			n := *x
			if len(path) > 1 {
				nv = m.setPath(st, m.absGet(st, x, i, nil), path[1:], nv)
			}
			n.ups = append(append([]absUp(nil), x.ups...), absUp{i, nv})
			return &n
		}
		if len(path) != 1 {
			unsup("nested store in an abstract list")
		}
		if m.decide(st, m.c.Eq(i, x.trk)) {
			n := *x
			n.val = nv
			return &n
		}
		return x
	case Undef:
		unsup("write into a value the loop invariant does not describe (%s)", x.why)
	}
	unsup("store into %T", v)
	return nil
}

func (m *Machine) setElem(st *State, e []Val, path []PathElem, nv Val) []Val {
	p := path[0]
	n := append([]Val(nil), e...)
	if p.t == nil {
		n[p.k] = m.setPath(st, n[p.k], path[1:], nv)
		return n
	}
	if k, ok := m.constOf(st, p.t); ok {
		n[k] = m.setPath(st, n[k], path[1:], nv)
		return n
	}
	for i := range n {
		if m.decide(st, m.c.Eq(p.t, m.c.Int(int64(i)))) {
			n[i] = m.setPath(st, n[i], path[1:], nv)
			return n
		}
	}
	panic(pathDead{})
}

func (m *Machine) load(st *State, p *Ptr) Val {
	if p.obj == 0 {
		m.goPanic(st, "nil pointer dereference")
	}
	o := st.obj(p.obj)
	v := m.getPath(st, o.val, p.path, o)
	if u, ok := v.(Undef); ok {
		unsup("read of a value the loop invariant does not describe (%s)", u.why)
	}
	return v
}

func (m *Machine) store(st *State, p *Ptr, v Val) {
	if p.obj == 0 {
		m.goPanic(st, "nil pointer dereference")
	}
	o := st.obj(p.obj)
	m.noteWrite(st, o, p.path)
	m.setObj(st, o, m.setPath(st, o.val, p.path, v))
}

func addPath(p *Ptr, e PathElem) *Ptr {
	n := make([]PathElem, len(p.path)+1)
	copy(n, p.path)
	n[len(p.path)] = e
	return &Ptr{p.obj, n}
}

func (m *Machine) mkIdx(t *Term) PathElem {
	if t.isConst() {
		return PathElem{k: int(t.k.Int64())}
	}
	return PathElem{t: t}
}

func showVal(v Val) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Text:
		return x.String()
	case *Struct:
		var s []string
		for _, f := range x.f {
			s = append(s, showVal(f))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *Slice:
		return fmt.Sprintf("slice(%d,%v,%v)", x.obj, x.off, x.len)
	case *Ptr:
		return fmt.Sprintf("&%d%v", x.obj, x.path)
	case *Iface:
		return fmt.Sprintf("iface(%v,%s)", x.t, showVal(x.v))
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("%T", v)
}

func (t *Term) String() string {
	n := 0
	var p func(x *Term) string
	p = func(x *Term) string {
		n++
		if n > 60 {
			return "..."
		}
		return node(x, p)
	}
	return p(t)
}
