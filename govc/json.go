package main

// encoding/json.Marshal by its documented mapping from types to JSON. The
// result is a tree kept beside the (opaque) bytes; values with a MarshalJSON
// method of their own are references to their contract.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jnode struct {
	kind string // object string int bool null list base64 ref other
	text *Text
	term *Term
	keys map[string]*jnode
	sl   *Slice
	typ  types.Type
}

type jfield struct {
	name   string
	tagged bool
	omit   bool
	depth  int
	path   []int
	typ    types.Type
}

func isMarshaler(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "MarshalJSON" || n == "MarshalText" {
			return true
		}
	}
	return false
}

// jsonFields: the fields encoding/json sees (its rules for embedded structs).
func jsonFields(t *types.Struct) []jfield {
	var all []jfield
	type lvl struct {
		t    *types.Struct
		path []int
	}
	cur := []lvl{{t, nil}}
	seen := map[*types.Struct]bool{}
	for d := 0; len(cur) > 0; d++ {
		var next []lvl
		for _, l := range cur {
			if seen[l.t] {
				continue
			}
			seen[l.t] = true
			for i := 0; i < l.t.NumFields(); i++ {
				f := l.t.Field(i)
				tag := reflect.StructTag(l.t.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				path := append(append([]int(nil), l.path...), i)
				name, opts, _ := strings.Cut(tag, ",")
				ft := f.Type()
				if f.Embedded() && name == "" {
					if s, ok := under(ft).(*types.Struct); ok {
						next = append(next, lvl{s, path})
						continue
					}
					if _, ok := ft.(*types.Pointer); ok {
						unsup("json of an embedded pointer")
					}
				}
				if !f.Exported() {
					continue
				}
				jf := jfield{name: name, tagged: name != "", depth: d, path: path, typ: ft}
				if name == "" {
					jf.name = f.Name()
				}
				for _, o := range strings.Split(opts, ",") {
					switch o {
					case "":
					case "omitempty":
						jf.omit = true
					default:
						unsup("json option %s", o)
					}
				}
				all = append(all, jf)
			}
		}
		cur = next
	}
	// dominant fields
	var out []jfield
	for _, f := range all {
		best, n, tagged := f.depth, 0, 0
		for _, g := range all {
			if g.name == f.name && g.depth < best {
				best = g.depth
			}
		}
		if f.depth > best {
			continue
		}
		for _, g := range all {
			if g.name == f.name && g.depth == best {
				n++
				if g.tagged {
					tagged++
				}
			}
		}
		if n == 1 || f.tagged && tagged == 1 {
			out = append(out, f)
		}
	}
	return out
}

func (m *Machine) jsonOf(st *State, t types.Type, v Val) *jnode {
	if iv, ok := v.(*Iface); ok {
		if iv.t == nil {
			return &jnode{kind: "null"}
		}
		return m.jsonOf(st, iv.t, iv.v)
	}
	if p, ok := v.(*Ptr); ok && p.obj == 0 {
		return &jnode{kind: "null"}
	}
	if isMarshaler(t) {
		n := &jnode{kind: "ref", typ: t}
		return n
	}
	if isMarshaler(types.NewPointer(t)) {
		unsup("json of a value whose pointer has a marshaler")
	}
	switch {
	case isStringT(t):
		return &jnode{kind: "string", text: v.(*Text)}
	case isBoolT(t):
		return &jnode{kind: "bool", term: v.(*Term)}
	case intOf(t) != nil:
		return &jnode{kind: "int", term: v.(*Term)}
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		p := v.(*Ptr)
		o := st.obj(p.obj)
		return m.jsonOf(st, u.Elem(), m.getPath(st, o.val, p.path, o))
	case *types.Struct:
		n := &jnode{kind: "object", keys: map[string]*jnode{}}
		for _, f := range jsonFields(u) {
			var x Val = v
			for _, i := range f.path {
				x = x.(*Struct).f[i]
			}
			k := m.jsonOf(st, f.typ, x)
			if f.omit && m.jsonEmpty(st, f.typ, x) {
				continue
			}
			n.keys[f.name] = k
		}
		return n
	case *types.Slice:
		s := v.(*Slice)
		if s.obj == 0 && s.len.isConst() {
			return &jnode{kind: "null"}
		}
		if isByteT(u.Elem()) {
			return &jnode{kind: "base64", text: m.sliceText(st, s)}
		}
		return &jnode{kind: "list", sl: s, typ: u.Elem()}
	}
	return &jnode{kind: "other", typ: t}
}

func (m *Machine) jsonEmpty(st *State, t types.Type, v Val) bool {
	switch x := v.(type) {
	case *Text:
		return m.decide(st, m.c.Eq(m.textLen(x), m.c.Int(0)))
	case *Term:
		if isBoolT(t) {
			return !m.decide(st, x)
		}
		return m.decide(st, m.c.Eq(x, m.c.Int(0)))
	case *Slice:
		return m.decide(st, m.c.Eq(x.len, m.c.Int(0)))
	case *Iface:
		return x.t == nil
	case *Ptr:
		return x.obj == 0
	}
	return false
}

func jsonKey(id int) string { return fmt.Sprintf("json:%d", id) }

func init() {
	models["encoding/json.Marshal"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		n := m.jsonOf(st, types.NewInterfaceType(nil, nil), a[0])
		if n.kind == "other" {
			unsup("json of %v", n.typ)
		}
		id := m.alloc(st, nil, m.opaqueText(st, "json"), "json.Marshal")
		g := map[string]Val{}
		for k, v := range st.ghost {
			g[k] = v
		}
		g[jsonKey(id)] = n
		st.ghost = g
		ln := m.textLen(st.obj(id).val.(*Text))
		m.assume["encoding/json.Marshal maps types to JSON as documented; valid UTF-8 text is rendered verbatim (escaped)"] = true
		done([]Val{&Slice{id, m.c.Int(0), ln, ln}, &Iface{}})
	}
	get := func(m *Machine, st *State, out Val, path string) *jnode {
		n, ok := st.ghost[jsonKey(out.(*Slice).obj)].(*jnode)
		if !ok {
			unsup("json not made by encoding/json")
		}
		for _, k := range strings.Split(path, ".") {
			if n == nil {
				return &jnode{kind: "missing"}
			}
			if k != "" {
				if n.kind == "ref" || n.kind == "other" {
					unsup("json of %v", n.typ)
				}
				n = n.keys[k]
			}
		}
		if n == nil {
			return &jnode{kind: "missing"}
		}
		return n
	}
	simple := func(name string, f func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term) {
		intrinsics[name] = func(m *Machine, st *State, fr *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
			done([]Val{f(m, st, get(m, st, a[0], m.constStr(a[1])), a, fn)})
		}
	}
	simple("vJSONStr", func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term {
		if n.kind == "ref" {
			unsup("text rendered by %v", n.typ)
		}
		if n.kind != "string" {
			return m.c.False
		}
		return m.sameText(st, n.text, a[2].(*Text))
	})
	simple("vJSONInt", func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term {
		if n.kind != "int" {
			return m.c.False
		}
		return m.c.Eq(n.term, a[2].(*Term))
	})
	simple("vJSONBool", func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term {
		if n.kind != "bool" {
			return m.c.False
		}
		return m.c.Or(m.c.And(n.term, a[2].(*Term)), m.c.And(m.c.Not(n.term), m.c.Not(a[2].(*Term))))
	})
	simple("vJSONNull", func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term {
		return m.c.Bool(n.kind == "null")
	})
	// vJSONList(out, path, list): the elements of list, in order, each by its
	// own mapping; an absent list counts as empty
	simple("vJSONList", func(m *Machine, st *State, n *jnode, a []Val, fn *ssa.Function) *Term {
		w := a[2].(*Slice)
		switch n.kind {
		case "null", "missing":
			return m.c.Eq(w.len, m.c.Int(0))
		case "ref", "other":
			unsup("json of %v", n.typ)
		case "list":
			et := under(fn.Signature.Params().At(2).Type()).(*types.Slice).Elem()
			if !types.Identical(et, n.typ) {
				unsup("json list of %v", n.typ)
			}
			if n.sl.obj != w.obj {
				return m.c.False
			}
			return m.c.And(m.c.Eq(n.sl.off, w.off), m.c.Eq(n.sl.len, w.len))
		}
		return m.c.False
	})
}
