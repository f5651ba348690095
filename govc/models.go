package main

// Native models of standard library functions, and the intrinsics of the
// specification language.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler func(m *Machine, st *State, f *Frame, fn *ssa.Function, args []Val, done func([]Val))

var models = map[string]handler{}
var intrinsics = map[string]handler{}

// modelNotes documents what each model assumes about the real function.
var modelNotes = map[string]string{}

func pure(name string, g func(m *Machine, st *State, a []Val) []Val) {
	models[name] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, args []Val, done func([]Val)) {
		m.assume["model of "+name] = true
		done(g(m, st, args))
	}
}

// ---- floats

func (m *Machine) constFloat(v constant.Value, t types.Type) Val {
	x, _ := constant.Float64Val(v)
	if under(t).(*types.Basic).Kind() == types.Float32 {
		return &Float{m.c.Int(int64(math.Float32bits(float32(x)))), 32}
	}
	return &Float{m.c.Big(new(big.Int).SetUint64(math.Float64bits(x))), 64}
}

func (m *Machine) constFloatInt(x *Term, t types.Type) Val {
	v, _ := new(big.Float).SetInt(x.k).Float64()
	if under(t).(*types.Basic).Kind() == types.Float32 {
		return &Float{m.c.Int(int64(math.Float32bits(float32(v)))), 32}
	}
	return &Float{m.c.Big(new(big.Int).SetUint64(math.Float64bits(v))), 64}
}

func (m *Machine) convFloat(x *Float, t types.Type) Val {
	w := 64
	if under(t).(*types.Basic).Kind() == types.Float32 {
		w = 32
	}
	if w == x.w {
		return x
	}
	if x.bits.isConst() {
		if w == 64 {
			return &Float{m.c.Big(new(big.Int).SetUint64(math.Float64bits(float64(math.Float32frombits(uint32(x.bits.k.Uint64())))))), 64}
		}
		return &Float{m.c.Int(int64(math.Float32bits(float32(math.Float64frombits(x.bits.k.Uint64()))))), 32}
	}
	if w == 64 {
		return &Float{m.c.UF("f32to64", big0, new(big.Int).Sub(pow2(64), big1), x.bits), 64}
	}
	if x.bits.op == OUF && x.bits.name == "f32to64" {
		return &Float{x.bits.args[0], 32}
	}
	return &Float{m.c.UF("f64to32", big0, new(big.Int).Sub(pow2(32), big1), x.bits), 32}
}

func fval(x *Float) float64 {
	if x.w == 32 {
		return float64(math.Float32frombits(uint32(x.bits.k.Uint64())))
	}
	return math.Float64frombits(x.bits.k.Uint64())
}

func (m *Machine) floatConstOp(op token.Token, x, y *Float) Val {
	a, b := fval(x), fval(y)
	switch op {
	case token.EQL:
		return m.c.Bool(a == b)
	case token.LSS:
		return m.c.Bool(a < b)
	case token.GTR:
		return m.c.Bool(a > b)
	case token.LEQ:
		return m.c.Bool(a <= b)
	case token.GEQ:
		return m.c.Bool(a >= b)
	}
	unsup("float arithmetic")
	return nil
}

// ---- globals of the standard library

func (m *Machine) baseObj(t types.Type, v Val, name string) int {
	m.baseN++
	id := m.baseN
	o := &Obj{id: id, typ: t, val: v, name: name, site: name, old: true}
	m.base = m.base.set(id, o)
	if m.cur != nil {
		m.cur.heap = m.cur.heap.set(id, o)
		m.snap.heap = m.snap.heap.set(id, o)
		for _, w := range m.work {
			w.heap = w.heap.set(id, o)
		}
	}
	return id
}

func (m *Machine) errType() types.Type {
	p := m.w.prog.ImportedPackage("errors")
	return types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
}

func (m *Machine) stdGlobal(pkg, name string, t types.Type) Val {
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
		id := m.baseObj(nil, &Struct{[]Val{m.lit(pkg + "." + name)}}, pkg+"."+name)
		return &Iface{m.errType(), &Ptr{obj: id}}
	}
	switch pkg + "." + name {
	case "encoding/binary.LittleEndian", "encoding/binary.BigEndian":
		return m.zero(t)
	case "time.Local", "time.UTC":
		id := m.baseObj(nil, &Struct{}, pkg+"."+name)
		return &Ptr{obj: id}
	case "os.Stderr", "os.Stdout":
		return &Ptr{obj: m.baseObj(nil, &Struct{}, pkg+"."+name)}
	}
	if strings.HasPrefix(pkg, "github.com/Breeze0806/go/") {
		return m.zero(t)
	}
	// a variable initialised with a constant
	if p := m.w.prog.ImportedPackage(pkg); p != nil {
		if fn := p.Func("init"); fn != nil {
			m.w.build(fn)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok && g.Name() == name {
							if c, ok := s.Val.(*ssa.Const); ok {
								m.assume["variable "+pkg+"."+name+" keeps its initial value"] = true
								return m.constVal(c)
							}
						}
					}
				}
			}
		}
	}
	unsup("global %s.%s", pkg, name)
	return nil
}

func (m *Machine) newErr(st *State, t *Text) Val {
	id := m.alloc(st, nil, &Struct{[]Val{t}}, "error")
	return &Iface{m.errType(), &Ptr{obj: id}}
}

// partOf: y is certainly a part of x.
func (m *Machine) partOf(x, y *Text) bool {
	bytesAt := func(a, b []*Term) bool {
		for i := range b {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	same := func(a, b Seg) bool {
		if a.kind != b.kind || a.arr != b.arr || a.off != b.off || a.len != b.len || a.lower != b.lower ||
			a.v != b.v || a.w != b.w || len(a.args) != len(b.args) || len(a.b) != len(b.b) {
			return false
		}
		return bytesAt(a.args, b.args) && bytesAt(a.b, b.b)
	}
	n := len(y.segs)
	if n == 0 {
		return true
	}
	for i := 0; i+n <= len(x.segs); i++ {
		ok := true
		for j, s := range y.segs {
			e := x.segs[i+j]
			switch d := len(e.b) - len(s.b); {
			case s.kind != sBytes || e.kind != sBytes || d < 0 || j > 0 && j < n-1:
				ok = same(e, s)
			case n == 1:
				ok = false
				for k := 0; k <= d && !ok; k++ {
					ok = bytesAt(e.b[k:], s.b)
				}
			case j == 0:
				ok = bytesAt(e.b[d:], s.b)
			default:
				ok = bytesAt(e.b, s.b)
			}
			if !ok {
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// opaqueText is a text the models know nothing about.
func (m *Machine) opaqueText(st *State, p string) *Text {
	n := m.freshName(st, p)
	m.vague[n] = true
	return &Text{[]Seg{{kind: sOp, arr: n, len: m.c.Var(n+".len", big0, pow2(40))}}}
}

// ---- fmt

// format renders a format string; unknown parts become opaque text.
// Stringers and errors among the arguments are called first.
func (m *Machine) format(st *State, format *Text, args []Val, k func(m *Machine, st *State, t *Text)) {
	fs, ok := format.concrete()
	if !ok {
		k(m, st, m.opaqueText(st, "fmt"))
		return
	}
	for i, a := range args {
		iv, ok := a.(*Iface)
		if !ok || iv.t == nil {
			continue
		}
		if _, res := iv.v.(resolvedText); res {
			continue
		}
		for _, mn := range []string{"Error", "String"} {
			if !m.stringerInFormat(fs, i) {
				break
			}
			ms := types.NewMethodSet(iv.t)
			sel := ms.Lookup(nil, mn)
			if sel == nil {
				continue
			}
			tf := sel.Obj().(*types.Func)
			sig := tf.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isStringT(sig.Results().At(0).Type()) {
				continue
			}
			if p, ok := iv.v.(*Ptr); ok && p.obj == 0 {
				break
			}
			m.w.mu.Lock()
			fn := m.w.prog.MethodValue(sel)
			m.w.mu.Unlock()
			if fn == nil || !(m.w.isRepo(fn) || m.w.isSpec(fn) || fn.Pkg != nil && executable[fn.Pkg.Pkg.Path()] || executableFn[fnName(fn)]) {
				// library type: opaque
				rest := append([]Val(nil), args...)
				rest[i] = &Iface{iv.t, resolvedText{m.opaqueText(st, "str")}}
				m.format(st, format, rest, k)
				return
			}
			idx := i
			m.pushFrame(st, fn, []Val{iv.v}, nil, nil, func(m *Machine, st *State, res []Val) {
				rest := append([]Val(nil), args...)
				rest[idx] = &Iface{iv.t, resolvedText{res[0].(*Text)}}
				m.format(st, format, rest, k)
			})
			return
		}
	}
	k(m, st, m.formatNow(st, fs, args))
}

type resolvedText struct{ t *Text }

// stringerInFormat: the i-th argument is printed by %v or %s.
func (m *Machine) stringerInFormat(fs string, i int) bool {
	n := 0
	for p := 0; p < len(fs); p++ {
		if fs[p] != '%' {
			continue
		}
		p++
		plus := false
		for p < len(fs) && strings.IndexByte("0123456789.+-# *", fs[p]) >= 0 {
			if fs[p] == '+' || fs[p] == '#' {
				plus = true
			}
			if fs[p] == '*' {
				n++
			}
			p++
		}
		if p >= len(fs) || fs[p] == '%' {
			continue
		}
		if n == i {
			return (fs[p] == 'v' || fs[p] == 's') && !plus
		}
		n++
	}
	return false
}

func (m *Machine) formatNow(st *State, fs string, args []Val) *Text {
	var parts []*Text
	n := 0
	i := 0
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			parts = append(parts, m.lit(fs[i:]))
			break
		}
		parts = append(parts, m.lit(fs[i:i+j]))
		i += j + 1
		zero, minus, plus := false, false, false
		for i < len(fs) && strings.IndexByte("0+-# ", fs[i]) >= 0 {
			switch fs[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+', '#', ' ':
				plus = true
			}
			i++
		}
		w, prec := 0, -1
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			w = w*10 + int(fs[i]-'0')
			i++
		}
		if i < len(fs) && fs[i] == '*' && n < len(args) {
			t, ok := args[n].(*Iface).v.(*Term)
			if !ok {
				return m.opaqueText(st, "fmt")
			}
			if w, ok = m.constOf(st, t); !ok || w < 0 {
				return m.opaqueText(st, "fmt")
			}
			n++
			i++
		}
		if i < len(fs) && fs[i] == '.' {
			prec = 0
			i++
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				prec = prec*10 + int(fs[i]-'0')
				i++
			}
		}
		if i >= len(fs) {
			return m.opaqueText(st, "fmt")
		}
		verb := fs[i]
		i++
		if verb == '%' {
			parts = append(parts, m.lit("%"))
			continue
		}
		if n >= len(args) {
			parts = append(parts, m.opaqueText(st, "fmt"))
			continue
		}
		a := args[n].(*Iface)
		n++
		parts = append(parts, m.formatArg(st, a, verb, zero, minus, plus, w, prec))
	}
	return m.concat(parts...)
}

func (m *Machine) formatArg(st *State, a *Iface, verb byte, zero, minus, plus bool, w, prec int) *Text {
	if rt, ok := a.v.(resolvedText); ok {
		if w == 0 && prec < 0 && !plus {
			return rt.t
		}
		return m.opaqueText(st, "fmt")
	}
	if a.t == nil || plus {
		return m.opaqueText(st, "fmt")
	}
	if t, ok := a.v.(*Term); ok && intOf(a.t) != nil && (verb == 'd' || verb == 'v') {
		if verb == 'v' {
			prec = -1
		}
		switch {
		case prec >= 0 && w == 0:
			// precision: minimum number of digits (sign not counted)
			if m.decide(st, m.c.Lt(t, m.c.Int(0))) {
				return m.concat(m.lit("-"), m.padText(st, m.c.Neg(t), prec))
			}
			return m.padText(st, t, prec)
		case prec >= 0:
			return m.opaqueText(st, "fmt")
		case w == 0:
			return m.decText(st, t)
		case zero && !minus:
			return m.padText(st, t, w)
		default:
			// space padded
			if m.decide(st, m.c.Le(m.c.Big(pow10(w-1)), t)) {
				return m.decText(st, t)
			}
			if t.isConst() {
				s := t.k.String()
				for len(s) < w {
					if minus {
						s += " "
					} else {
						s = " " + s
					}
				}
				return m.lit(s)
			}
			return m.opaqueText(st, "fmt")
		}
	}
	if t, ok := a.v.(*Term); ok && intOf(a.t) != nil && (verb == 'x' || verb == 'X' || verb == 'c') {
		if verb == 'c' && t.hi != nil && t.hi.Cmp(bi(127)) <= 0 {
			return bytesText([]*Term{t})
		}
		if verb != 'c' && prec < 0 && (w == 0 || zero) && !minus && w <= 16 && t.lo != nil && t.lo.Sign() >= 0 {
			al := int64('a')
			if verb == 'X' {
				al = 'A'
			}
			// as many digits as it takes
			n, top := max(w, 1), new(big.Int)
			for {
				top.Lsh(bi(1), uint(4*n))
				if n >= 17 || (t.hi != nil && t.hi.Cmp(top) < 0) || m.decide(st, m.c.Lt(t, m.c.Big(new(big.Int).Set(top)))) {
					break
				}
				n++
			}
			if n > 16 {
				return m.opaqueText(st, "fmt")
			}
			var ds []*Term
			for k := n - 1; k >= 0; k-- {
				d := m.c.Mod(m.c.Div(t, new(big.Int).Lsh(bi(1), uint(4*k))), bi(16))
				ds = append(ds, m.hexDigit(d, al))
			}
			return bytesText(ds)
		}
		return m.opaqueText(st, "fmt")
	}
	if w == 0 && prec < 0 && (verb == 's' || verb == 'v') {
		if t, ok := a.v.(*Text); ok && isStringT(a.t) {
			return t
		}
		if s, ok := a.v.(*Slice); ok && verb == 's' {
			if sl, ok := under(a.t).(*types.Slice); ok && isByteT(sl.Elem()) {
				return m.sliceText(st, s)
			}
		}
	}
	if t, ok := a.v.(*Text); ok && verb == 'q' {
		_ = t
	}
	if b, ok := a.v.(*Term); ok && isBoolT(a.t) && (verb == 'v' || verb == 't') {
		if m.decide(st, b) {
			return m.lit("true")
		}
		return m.lit("false")
	}
	return m.opaqueText(st, "fmt")
}

func (m *Machine) hexDigit(d *Term, al int64) *Term {
	if d.isConst() {
		k := d.k.Int64()
		if k < 10 {
			return m.c.Int('0' + k)
		}
		return m.c.Int(al + k - 10)
	}
	t := m.c.Ite(m.c.Le(d, m.c.Int(9)), m.c.AddK(d, '0'), m.c.AddK(d, al-10))
	if m.c.nibble == nil {
		m.c.nibble = map[*Term]*Term{}
	}
	m.c.nibble[t] = d
	return t
}

// hexValue: whether b is a hexadecimal digit, and its value.
func (m *Machine) hexValue(b *Term) (ok, v *Term) {
	if d := m.c.nibble[b]; d != nil {
		return m.c.True, d
	}
	in := func(lo, hi byte) *Term {
		return m.c.And(m.c.Le(m.c.Int(int64(lo)), b), m.c.Le(b, m.c.Int(int64(hi))))
	}
	num, low, up := in('0', '9'), in('a', 'f'), in('A', 'F')
	return m.c.Or(num, low, up), m.c.Ite(num, m.c.AddK(b, -'0'), m.c.Ite(low, m.c.AddK(b, 10-'a'), m.c.AddK(b, 10-'A')))
}

// ---- bytes.Buffer: the struct's first field (buf) holds the content

func (m *Machine) bufAppend(st *State, p *Ptr, t *Text) {
	if p.obj == 0 {
		m.goPanic(st, "nil buffer")
	}
	fp := addPath(p, PathElem{k: 0})
	s := m.load(st, fp).(*Slice)
	if s.len.isConst() && s.len.k.Sign() == 0 && s.obj != 0 {
		// after Reset or over a caller's slice: the storage is reused
		m.store(st, fp, m.appendText(st, s, t, "bytes.Buffer"))
		return
	}
	// whether the storage is reused makes no difference to earlier contents
	if m.textLen(t).isConst() && m.textLen(t).k.Sign() == 0 {
		return
	}
	n := m.concat(m.sliceText(st, s), t)
	ln := m.textLen(n)
	id := m.alloc(st, nil, n, "bytes.Buffer")
	m.store(st, fp, &Slice{id, m.c.Int(0), ln, ln})
}

func isBuffer(t types.Type) bool { return t != nil && t.String() == "*bytes.Buffer" }

func (m *Machine) bufText(st *State, p *Ptr) *Text {
	return m.sliceText(st, m.load(st, addPath(p, PathElem{k: 0})).(*Slice))
}

// writeTo appends t to an io.Writer.
func (m *Machine) writeTo(st *State, w *Iface, t *Text, done func([]Val)) {
	if w.t == nil {
		m.goPanic(st, "nil writer")
	}
	if isBuffer(w.t) {
		m.bufAppend(st, w.v.(*Ptr), t)
		done([]Val{m.textLen(t), &Iface{}})
		return
	}
	unsup("write to %v", w.t)
}

func (m *Machine) inSet(b *Term, set string) *Term {
	var cs []*Term
	for i := 0; i < len(set); i++ {
		cs = append(cs, m.c.Eq(b, m.c.Int(int64(set[i]))))
	}
	return m.c.Or(cs...)
}

// indexAny finds the first byte of t in set: -1 or its position.
func (m *Machine) indexAny(st *State, t *Text, set string) *Term {
	off := m.c.Int(0)
	for _, s := range t.segs {
		switch s.kind {
		case sBytes, sPad:
			b := s.b
			if s.kind == sPad {
				b = m.padBytes(s)
			}
			for i, x := range b {
				if m.decide(st, m.inSet(x, set)) {
					return m.c.AddK(off, int64(i))
				}
			}
		case sDec:
			if strings.ContainsAny(set, "0123456789-") {
				unsup("search for digits in a decimal")
			}
		case sSub:
			if s.len.isConst() && s.len.k.Cmp(bi(64)) <= 0 {
				for i, x := range m.expandSeg(s).b {
					if m.decide(st, m.inSet(x, set)) {
						return m.c.AddK(off, int64(i))
					}
				}
				break
			}
			// symbolic: a fresh answer with what is known about it
			nm := fmt.Sprintf("idx:%s:%x", s.String(), set)
			hit := m.c.BVar("hit:" + nm)
			if m.decide(st, hit) {
				i := m.c.Var(nm, big0, pow2(41))
				m.assumeT(st, m.c.Lt(i, s.len))
				m.assumeT(st, m.inSet(m.segAt(s, i), set))
				return m.c.Add(off, i)
			}
		default:
			unsup("search in %v", s)
		}
		off = m.c.Add(off, m.segLen(s))
	}
	return m.c.Int(-1)
}

// split cuts t at every occurrence of the one-byte separator.
func (m *Machine) split(st *State, t *Text, sep byte, max int) []*Text {
	var out []*Text
	var cur []Seg
	for _, s := range t.segs {
		switch s.kind {
		case sBytes, sPad:
			b := s.b
			if s.kind == sPad {
				b = m.padBytes(s)
			}
			start := 0
			for i, x := range b {
				if max > 0 && len(out) == max-1 {
					break
				}
				if m.decide(st, m.c.Eq(x, m.c.Int(int64(sep)))) {
					cur = append(cur, Seg{kind: sBytes, b: b[start:i]})
					out = append(out, m.norm(cur))
					cur = nil
					start = i + 1
				}
			}
			cur = append(cur, Seg{kind: sBytes, b: b[start:]})
		case sDec:
			if sep >= '0' && sep <= '9' {
				unsup("split at a digit")
			}
			if sep == '-' && !(s.v.lo != nil && s.v.lo.Sign() >= 0) {
				if !m.entails(st, m.c.Le(m.c.Int(0), s.v)) {
					unsup("split of a possibly negative decimal at '-'")
				}
			}
			cur = append(cur, s)
		default:
			unsup("split of %v", s)
		}
	}
	return append(out, m.norm(cur))
}

func (m *Machine) strList(st *State, ts []*Text) *Slice {
	vs := make([]Val, len(ts))
	for i, t := range ts {
		vs[i] = t
	}
	return m.vecSlice(st, vs, len(vs), emptyText, "strings")
}

// parseNum models strconv.ParseInt/ParseUint in base 10.
func (m *Machine) parseNum(st *State, t *Text, lo, hi *big.Int, signed bool) []Val {
	fail := func() []Val {
		return []Val{m.c.Int(0), m.newErr(st, m.opaqueText(st, "parseerr"))}
	}
	if s, ok := t.concrete(); ok {
		if signed {
			v, err := strconv.ParseInt(s, 10, hi.BitLen()+1)
			if err != nil {
				return []Val{m.c.Int(v), m.newErr(st, m.lit(err.Error()))}
			}
			return []Val{m.c.Int(v), &Iface{}}
		}
		v, err := strconv.ParseUint(s, 10, hi.BitLen())
		if err != nil {
			return []Val{m.c.Big(new(big.Int).SetUint64(v)), m.newErr(st, m.lit(err.Error()))}
		}
		return []Val{m.c.Big(new(big.Int).SetUint64(v)), &Iface{}}
	}
	if len(t.segs) == 1 && t.segs[0].kind == sDec {
		v := t.segs[0].v
		if m.decide(st, m.c.And(m.c.Le(m.c.Big(lo), v), m.c.Le(v, m.c.Big(hi)))) {
			return []Val{v, &Iface{}}
		}
		return fail()
	}
	if b, ok := m.flat(t); ok && len(b) > 0 && len(b) <= 20 {
		neg := false
		if signed && m.decide(st, m.c.Eq(b[0], m.c.Int('-'))) {
			neg = true
			b = b[1:]
		} else if signed && m.decide(st, m.c.Eq(b[0], m.c.Int('+'))) {
			b = b[1:]
		}
		if len(b) == 0 {
			return fail()
		}
		v := m.c.Int(0)
		for _, x := range b {
			if !m.decide(st, m.c.And(m.c.Le(m.c.Int('0'), x), m.c.Le(x, m.c.Int('9')))) {
				return fail()
			}
			v = m.c.addScaled(m.c.AddK(x, -'0'), bi(10), v)
		}
		if neg {
			v = m.c.Neg(v)
		}
		if m.decide(st, m.c.And(m.c.Le(m.c.Big(lo), v), m.c.Le(v, m.c.Big(hi)))) {
			return []Val{v, &Iface{}}
		}
		return fail()
	}
	unsup("number in text %v", t)
	return nil
}

func (m *Machine) timeUF(st *State, tv Val, what string) *Term {
	s := tv.(*Struct)
	sec := s.f[1].(*Term)
	z := "utc"
	if p := s.f[2].(*Ptr); p.obj != 0 {
		z = m.cur.obj(p.obj).name
	}
	var lo, hi *big.Int
	switch what {
	case "year":
		if sec.lo != nil && sec.hi != nil && sec.lo.Cmp(bi(-1<<33)) >= 0 && sec.hi.Cmp(bi(1<<33)) <= 0 {
			lo, hi = bi(1600), bi(2300)
		}
	case "month":
		lo, hi = bi(1), bi(12)
	case "day":
		lo, hi = bi(1), bi(31)
	case "hour":
		lo, hi = bi(0), bi(23)
	case "minute", "second":
		lo, hi = bi(0), bi(59)
	}
	return m.c.UF("time_"+what+"_"+z, lo, hi, sec)
}

func init() {
	pure("strconv.AppendInt", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.appendText(st, a[0].(*Slice), m.numText(st, a[1].(*Term), a[2]), "strconv")}
	})
	models["strconv.AppendUint"] = models["strconv.AppendInt"]
	pure("strconv.FormatInt", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.numText(st, a[0].(*Term), a[1])}
	})
	models["strconv.FormatUint"] = models["strconv.FormatInt"]
	pure("strconv.Itoa", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.decText(st, a[0].(*Term))}
	})
	pure("strconv.AppendFloat", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.appendText(st, a[0].(*Slice), m.floatText(st, a[1].(*Float), a[2], a[3], a[4]), "strconv")}
	})
	pure("strconv.FormatFloat", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.floatText(st, a[0].(*Float), a[1], a[2], a[3])}
	})
	pure("strconv.ParseInt", func(m *Machine, st *State, a []Val) []Val {
		base, _ := m.constOf(st, a[1].(*Term))
		bits, _ := m.constOf(st, a[2].(*Term))
		if base != 10 && base != 0 {
			unsup("ParseInt base %d", base)
		}
		if bits == 0 {
			bits = 64
		}
		return m.parseNum(st, a[0].(*Text), new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), big1), true)
	})
	pure("strconv.ParseUint", func(m *Machine, st *State, a []Val) []Val {
		base, _ := m.constOf(st, a[1].(*Term))
		bits, _ := m.constOf(st, a[2].(*Term))
		if base != 10 && base != 0 {
			unsup("ParseUint base %d", base)
		}
		if bits == 0 {
			bits = 64
		}
		return m.parseNum(st, a[0].(*Text), big0, new(big.Int).Sub(pow2(bits), big1), false)
	})
	pure("strconv.Atoi", func(m *Machine, st *State, a []Val) []Val {
		return m.parseNum(st, a[0].(*Text), new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1), true)
	})
	pure("math.Float32frombits", func(m *Machine, st *State, a []Val) []Val {
		return []Val{&Float{a[0].(*Term), 32}}
	})
	pure("math.Float64frombits", func(m *Machine, st *State, a []Val) []Val {
		return []Val{&Float{a[0].(*Term), 64}}
	})
	pure("math.Float32bits", func(m *Machine, st *State, a []Val) []Val { return []Val{a[0].(*Float).bits} })
	pure("math.Float64bits", func(m *Machine, st *State, a []Val) []Val { return []Val{a[0].(*Float).bits} })

	// fmt
	sprintf := func(m *Machine, st *State, format Val, list Val, k func(m *Machine, st *State, t *Text)) {
		m.format(st, format.(*Text), m.elems(st, list.(*Slice)), k)
	}
	ret := func(f *Frame, done func([]Val), g func(m *Machine, st *State, t *Text) []Val) func(m *Machine, st *State, t *Text) {
		return func(m *Machine, st *State, t *Text) { done(g(m, st, t)) }
	}
	models["fmt.Sprintf"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		m.assume["model of fmt formatting"] = true
		sprintf(m, st, a[0], a[1], ret(f, done, func(m *Machine, st *State, t *Text) []Val { return []Val{t} }))
	}
	models["fmt.Errorf"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		var wrapped, cause Val
		for _, e := range m.elems(st, a[1].(*Slice)) {
			if iv, ok := e.(*Iface); ok && iv.t != nil && types.Implements(iv.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				cause = iv
			}
		}
		if fs, ok := a[0].(*Text).concrete(); ok && strings.Contains(fs, "%w") {
			wrapped = cause
		}
		fin := func(m *Machine, st *State, t *Text) {
			if wrapped != nil {
				p := m.w.prog.ImportedPackage("fmt")
				wt := types.NewPointer(p.Pkg.Scope().Lookup("wrapError").Type())
				id := m.alloc(st, nil, &Struct{[]Val{t, wrapped}}, "error")
				done([]Val{&Iface{wt, &Ptr{obj: id}}})
				return
			}
			done([]Val{m.newErr(st, t)})
		}
		// of error texts only the text of a cause is kept
		if fs, ok := a[0].(*Text).concrete(); ok && cause != nil && (strings.Contains(fs, "%v") || strings.Contains(fs, "%w")) {
			m.format(st, m.lit("%v"), []Val{cause}, func(m *Machine, st *State, t *Text) {
				fin(m, st, m.concat(m.opaqueText(st, "errorf"), t, m.opaqueText(st, "errorf")))
			})
			return
		}
		fin(m, st, m.opaqueText(st, "errorf"))
	}
	models["fmt.Fprintf"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		m.assume["model of fmt formatting"] = true
		w := a[0].(*Iface)
		sprintf(m, st, a[1], a[2], func(m *Machine, st *State, t *Text) { m.writeTo(st, w, t, done) })
	}
	// Sprint adds spaces between operands neither of which is a string
	sprint := func(m *Machine, st *State, list Val, ln bool, k func(m *Machine, st *State, t *Text)) {
		args := m.elems(st, list.(*Slice))
		var sb strings.Builder
		str := func(v Val) bool {
			iv, ok := v.(*Iface)
			return ok && iv.t != nil && types.Identical(under(iv.t), types.Typ[types.String])
		}
		for i := range args {
			if i > 0 && (ln || !str(args[i-1]) && !str(args[i])) {
				sb.WriteByte(' ')
			}
			sb.WriteString("%v")
		}
		if ln {
			sb.WriteByte('\n')
		}
		m.assume["model of fmt formatting"] = true
		m.format(st, m.lit(sb.String()), args, k)
	}
	models["fmt.Sprint"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		sprint(m, st, a[0], false, ret(f, done, func(m *Machine, st *State, t *Text) []Val { return []Val{t} }))
	}
	models["fmt.Sprintln"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		sprint(m, st, a[0], true, ret(f, done, func(m *Machine, st *State, t *Text) []Val { return []Val{t} }))
	}
	models["fmt.Fprint"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		w := a[0].(*Iface)
		sprint(m, st, a[1], false, func(m *Machine, st *State, t *Text) { m.writeTo(st, w, t, done) })
	}
	models["fmt.Appendf"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		m.assume["model of fmt formatting"] = true
		sprintf(m, st, a[1], a[2], ret(f, done, func(m *Machine, st *State, t *Text) []Val {
			return []Val{m.appendText(st, a[0].(*Slice), t, "fmt")}
		}))
	}
	pure("fmt.Printf", func(m *Machine, st *State, a []Val) []Val { return []Val{m.c.Int(0), &Iface{}} })
	pure("fmt.Println", func(m *Machine, st *State, a []Val) []Val { return []Val{m.c.Int(0), &Iface{}} })
	pure("io.WriteString", func(m *Machine, st *State, a []Val) []Val {
		var r []Val
		m.writeTo(st, a[0].(*Iface), a[1].(*Text), func(x []Val) { r = x })
		return r
	})

	// bytes.Buffer
	pure("(*bytes.Buffer).Write", func(m *Machine, st *State, a []Val) []Val {
		s := a[1].(*Slice)
		m.bufAppend(st, a[0].(*Ptr), m.sliceText(st, s))
		return []Val{s.len, &Iface{}}
	})
	pure("(*bytes.Buffer).WriteString", func(m *Machine, st *State, a []Val) []Val {
		t := a[1].(*Text)
		m.bufAppend(st, a[0].(*Ptr), t)
		return []Val{m.textLen(t), &Iface{}}
	})
	pure("(*bytes.Buffer).WriteByte", func(m *Machine, st *State, a []Val) []Val {
		m.bufAppend(st, a[0].(*Ptr), bytesText([]*Term{a[1].(*Term)}))
		return []Val{&Iface{}}
	})
	pure("(*bytes.Buffer).WriteRune", func(m *Machine, st *State, a []Val) []Val {
		r := a[1].(*Term)
		if !m.decide(st, m.c.Lt(r, m.c.Int(128))) {
			if r.isConst() {
				s := string(rune(r.k.Int64()))
				m.bufAppend(st, a[0].(*Ptr), m.lit(s))
				return []Val{m.c.Int(int64(len(s))), &Iface{}}
			}
			unsup("WriteRune of a symbolic rune")
		}
		m.bufAppend(st, a[0].(*Ptr), bytesText([]*Term{r}))
		return []Val{m.c.Int(1), &Iface{}}
	})
	pure("(*bytes.Buffer).Bytes", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.load(st, addPath(a[0].(*Ptr), PathElem{k: 0}))}
	})
	pure("(*bytes.Buffer).String", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.bufText(st, a[0].(*Ptr))}
	})
	pure("(*bytes.Buffer).Len", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.load(st, addPath(a[0].(*Ptr), PathElem{k: 0})).(*Slice).len}
	})
	pure("(*bytes.Buffer).Reset", func(m *Machine, st *State, a []Val) []Val {
		p := addPath(a[0].(*Ptr), PathElem{k: 0})
		s := m.load(st, p).(*Slice)
		z := m.c.Int(0)
		m.store(st, p, &Slice{s.obj, s.off, z, s.cap})
		return nil
	})
	pure("(*bytes.Buffer).Grow", func(m *Machine, st *State, a []Val) []Val { return nil })
	newBuf := func(m *Machine, st *State, s *Slice) []Val {
		p := m.w.prog.ImportedPackage("bytes")
		bt := p.Pkg.Scope().Lookup("Buffer").Type()
		z := m.zero(bt).(*Struct)
		z.f[0] = s
		return []Val{&Ptr{obj: m.alloc(st, bt, z, "bytes.NewBuffer")}}
	}
	pure("bytes.NewBuffer", func(m *Machine, st *State, a []Val) []Val { return newBuf(m, st, a[0].(*Slice)) })
	pure("bytes.NewBufferString", func(m *Machine, st *State, a []Val) []Val {
		return newBuf(m, st, m.textSlice(st, a[0].(*Text), "bytes.NewBufferString"))
	})
	pure("bytes.Equal", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.textEqual(st, m.sliceText(st, a[0].(*Slice)), m.sliceText(st, a[1].(*Slice)))}
	})
	pure("bytes.Compare", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.c.Int(int64(m.textCmp(st, m.sliceText(st, a[0].(*Slice)), m.sliceText(st, a[1].(*Slice)))))}
	})
	trimR := func(m *Machine, st *State, s *Slice, set string) *Slice {
		t := m.sliceText(st, s)
		b, ok := m.flat(t)
		if !ok {
			unsup("TrimRight of symbolic length")
		}
		n := len(b)
		for n > 0 && m.decide(st, m.inSet(b[n-1], set)) {
			n--
		}
		if n == 0 {
			return m.nilSlice()
		}
		return &Slice{s.obj, s.off, m.c.Int(int64(n)), s.cap}
	}
	pure("bytes.TrimRight", func(m *Machine, st *State, a []Val) []Val {
		set, ok := a[1].(*Text).concrete()
		if !ok {
			unsup("TrimRight cutset")
		}
		return []Val{trimR(m, st, a[0].(*Slice), set)}
	})
	pure("bytes.IndexByte", func(m *Machine, st *State, a []Val) []Val {
		c := a[1].(*Term)
		if !c.isConst() {
			unsup("IndexByte of a symbolic byte")
		}
		return []Val{m.indexAny(st, m.sliceText(st, a[0].(*Slice)), string([]byte{byte(c.k.Int64())}))}
	})

	// strings
	pure("strings.ToLower", func(m *Machine, st *State, a []Val) []Val {
		t := a[0].(*Text)
		var out []Seg
		for _, s := range t.segs {
			switch s.kind {
			case sBytes:
				n := Seg{kind: sBytes}
				for _, b := range s.b {
					n.b = append(n.b, m.lowerByte(b))
				}
				out = append(out, n)
			case sSub:
				s.lower = true
				out = append(out, s)
			case sDec, sPad:
				out = append(out, s)
			default:
				unsup("ToLower of %v", s)
			}
		}
		m.assume["strings.ToLower maps ASCII letters only (inputs assumed ASCII there)"] = true
		return []Val{m.norm(out)}
	})
	pure("strings.EqualFold", func(m *Machine, st *State, a []Val) []Val {
		x, y := a[0].(*Text), a[1].(*Text)
		xs, ok1 := x.concrete()
		ys, ok2 := y.concrete()
		if ok1 && ok2 {
			return []Val{m.c.Bool(strings.EqualFold(xs, ys))}
		}
		_, ok1 = m.flat(x)
		_, ok2 = m.flat(y)
		if ok1 || ok2 {
			unsup("strings.EqualFold")
		}
		// unknown texts: equal ones are, others may be
		if m.decide(st, m.textEqual(st, x, y)) {
			return []Val{m.c.True}
		}
		return []Val{m.c.BVar(m.freshName(st, "fold"))}
	})
	pure("strings.IndexAny", func(m *Machine, st *State, a []Val) []Val {
		set, ok := a[1].(*Text).concrete()
		if !ok {
			unsup("IndexAny set")
		}
		return []Val{m.indexAny(st, a[0].(*Text), set)}
	})
	one := func(t *Text) (string, bool) {
		s, ok := t.concrete()
		return s, ok && len(s) == 1
	}
	pure("strings.IndexByte", func(m *Machine, st *State, a []Val) []Val {
		c := a[1].(*Term)
		if !c.isConst() {
			unsup("IndexByte of a symbolic byte")
		}
		return []Val{m.indexAny(st, a[0].(*Text), string([]byte{byte(c.k.Int64())}))}
	})
	pure("strings.IndexRune", func(m *Machine, st *State, a []Val) []Val {
		c := a[1].(*Term)
		if !c.isConst() || c.k.Int64() > 127 {
			unsup("IndexRune")
		}
		return []Val{m.indexAny(st, a[0].(*Text), string([]byte{byte(c.k.Int64())}))}
	})
	pure("strings.Index", func(m *Machine, st *State, a []Val) []Val {
		if s, ok := one(a[1].(*Text)); ok {
			return []Val{m.indexAny(st, a[0].(*Text), s)}
		}
		x, ok1 := a[0].(*Text).concrete()
		y, ok2 := a[1].(*Text).concrete()
		if !ok1 || !ok2 {
			unsup("strings.Index")
		}
		return []Val{m.c.Int(int64(strings.Index(x, y)))}
	})
	pure("strings.Contains", func(m *Machine, st *State, a []Val) []Val {
		if s, ok := one(a[1].(*Text)); ok {
			i := m.indexAny(st, a[0].(*Text), s)
			return []Val{m.c.Le(m.c.Int(0), i)}
		}
		x, ok1 := a[0].(*Text).concrete()
		y, ok2 := a[1].(*Text).concrete()
		if !ok1 || !ok2 {
			if m.partOf(a[0].(*Text), a[1].(*Text)) {
				return []Val{m.c.True}
			}
			unsup("strings.Contains")
		}
		return []Val{m.c.Bool(strings.Contains(x, y))}
	})
	split := func(m *Machine, st *State, t *Text, sep *Text, max int) []Val {
		s, ok := one(sep)
		if !ok {
			unsup("split separator")
		}
		if max == 0 {
			return []Val{m.nilSlice()}
		}
		if max == 1 {
			return []Val{m.strList(st, []*Text{t})}
		}
		return []Val{m.strList(st, m.split(st, t, s[0], max))}
	}
	pure("strings.Split", func(m *Machine, st *State, a []Val) []Val {
		return split(m, st, a[0].(*Text), a[1].(*Text), -1)
	})
	pure("strings.SplitN", func(m *Machine, st *State, a []Val) []Val {
		n, ok := m.constOf(st, a[2].(*Term))
		if !ok {
			unsup("SplitN count")
		}
		return split(m, st, a[0].(*Text), a[1].(*Text), n)
	})
	pure("strings.Join", func(m *Machine, st *State, a []Val) []Val {
		var ts []*Text
		for i, e := range m.elems(st, a[0].(*Slice)) {
			if i > 0 {
				ts = append(ts, a[1].(*Text))
			}
			ts = append(ts, e.(*Text))
		}
		return []Val{m.concat(ts...)}
	})
	trim := func(m *Machine, st *State, t *Text, set string, left, right bool) *Text {
		segs := append([]Seg(nil), t.segs...)
		for left && len(segs) > 0 {
			s := segs[0]
			if s.kind == sDec || s.kind == sPad {
				break
			}
			if s.kind != sBytes {
				unsup("trim of %v", s)
			}
			if len(s.b) == 0 {
				segs = segs[1:]
				continue
			}
			if !m.decide(st, m.inSet(s.b[0], set)) {
				break
			}
			segs[0] = Seg{kind: sBytes, b: s.b[1:]}
		}
		for right && len(segs) > 0 {
			s := segs[len(segs)-1]
			if s.kind == sDec || s.kind == sPad {
				break
			}
			if s.kind != sBytes {
				unsup("trim of %v", s)
			}
			if len(s.b) == 0 {
				segs = segs[:len(segs)-1]
				continue
			}
			if !m.decide(st, m.inSet(s.b[len(s.b)-1], set)) {
				break
			}
			segs[len(segs)-1] = Seg{kind: sBytes, b: s.b[:len(s.b)-1]}
		}
		return m.norm(segs)
	}
	pure("strings.TrimSpace", func(m *Machine, st *State, a []Val) []Val {
		return []Val{trim(m, st, a[0].(*Text), " \t\r\n\v\f", true, true)}
	})
	pure("strings.TrimRight", func(m *Machine, st *State, a []Val) []Val {
		set, _ := a[1].(*Text).concrete()
		return []Val{trim(m, st, a[0].(*Text), set, false, true)}
	})
	pure("strings.TrimLeft", func(m *Machine, st *State, a []Val) []Val {
		set, _ := a[1].(*Text).concrete()
		return []Val{trim(m, st, a[0].(*Text), set, true, false)}
	})
	pure("strings.HasPrefix", func(m *Machine, st *State, a []Val) []Val {
		p := a[1].(*Text)
		t := a[0].(*Text)
		n := m.textLen(p)
		if !m.decide(st, m.c.Le(n, m.textLen(t))) {
			return []Val{m.c.False}
		}
		return []Val{m.textEqual(st, m.subText(st, t, m.c.Int(0), n), p)}
	})

	// hex
	models["encoding/hex.EncodeToString"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		s := a[0].(*Slice)
		if b, ok := m.flat(m.sliceText(st, s)); ok && len(b) <= 64 {
			var r []*Term
			for _, x := range b {
				r = append(r, m.hexDigit(m.c.Div(x, bi(16)), 'a'), m.hexDigit(m.c.Mod(x, bi(16)), 'a'))
			}
			done([]Val{bytesText(r)})
			return
		}
		done([]Val{m.opaqueText(st, "hex")})
	}
	pure("encoding/hex.Encode", func(m *Machine, st *State, a []Val) []Val {
		d, s := a[0].(*Slice), a[1].(*Slice)
		b, ok := m.flat(m.sliceText(st, s))
		if !ok {
			unsup("hex of bytes of unknown length")
		}
		var r []*Term
		for _, x := range b {
			r = append(r, m.hexDigit(m.c.Div(x, bi(16)), 'a'), m.hexDigit(m.c.Mod(x, bi(16)), 'a'))
		}
		n := m.c.Int(int64(len(r)))
		if !m.decide(st, m.c.Le(n, d.len)) {
			m.goPanic(st, "hex.Encode: short destination")
		}
		m.copySlice(st, d, bytesText(r))
		return []Val{n}
	})
	hexDecode := func(m *Machine, st *State, t *Text, room *Term) ([]*Term, Val) {
		b, ok := m.flat(t)
		if !ok {
			unsup("hex decoding of text of unknown length")
		}
		all, vs := m.c.True, []*Term(nil)
		for i := 0; i+1 < len(b); i += 2 {
			o1, h := m.hexValue(b[i])
			o2, l := m.hexValue(b[i+1])
			all = m.c.And(all, o1, o2)
			vs = append(vs, m.c.Add(m.c.Scale(bi(16), h), l))
		}
		if len(b)%2 != 0 || !m.decide(st, all) {
			return nil, m.newErr(st, m.opaqueText(st, "hexerr"))
		}
		if room != nil && !m.decide(st, m.c.Le(m.c.Int(int64(len(vs))), room)) {
			m.goPanic(st, "hex.Decode: short destination")
		}
		return vs, &Iface{}
	}
	pure("encoding/hex.Decode", func(m *Machine, st *State, a []Val) []Val {
		d := a[0].(*Slice)
		vs, err := hexDecode(m, st, m.sliceText(st, a[1].(*Slice)), d.len)
		if len(vs) > 0 {
			m.copySlice(st, d, bytesText(vs))
		}
		return []Val{m.c.Int(int64(len(vs))), err}
	})
	pure("encoding/hex.DecodeString", func(m *Machine, st *State, a []Val) []Val {
		vs, err := hexDecode(m, st, a[0].(*Text), nil)
		return []Val{m.textSlice(st, bytesText(vs), "hex.DecodeString"), err}
	})

	// time
	pure("time.Unix", func(m *Machine, st *State, a []Val) []Val {
		loc := m.stdLoc(st, "time.Local")
		return []Val{&Struct{[]Val{a[1], a[0], loc}}}
	})
	pure("(time.Time).Local", func(m *Machine, st *State, a []Val) []Val {
		s := a[0].(*Struct)
		return []Val{&Struct{[]Val{s.f[0], s.f[1], m.stdLoc(st, "time.Local")}}}
	})
	pure("(time.Time).UTC", func(m *Machine, st *State, a []Val) []Val {
		s := a[0].(*Struct)
		return []Val{&Struct{[]Val{s.f[0], s.f[1], &Ptr{}}}}
	})
	pure("(time.Time).In", func(m *Machine, st *State, a []Val) []Val {
		s := a[0].(*Struct)
		return []Val{&Struct{[]Val{s.f[0], s.f[1], a[1]}}}
	})
	pure("(time.Time).Date", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.timeUF(st, a[0], "year"), m.timeUF(st, a[0], "month"), m.timeUF(st, a[0], "day")}
	})
	pure("(time.Time).Clock", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.timeUF(st, a[0], "hour"), m.timeUF(st, a[0], "minute"), m.timeUF(st, a[0], "second")}
	})
	for _, p := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second"} {
		p := p
		pure("(time.Time)."+p, func(m *Machine, st *State, a []Val) []Val {
			return []Val{m.timeUF(st, a[0], strings.ToLower(p))}
		})
	}
	pure("(time.Time).Unix", func(m *Machine, st *State, a []Val) []Val { return []Val{a[0].(*Struct).f[1]} })
	pure("(time.Time).String", func(m *Machine, st *State, a []Val) []Val {
		s := a[0].(*Struct)
		z := "utc"
		if p := s.f[2].(*Ptr); p.obj != 0 {
			z = st.obj(p.obj).name
		}
		sec := s.f[1].(*Term)
		return []Val{&Text{[]Seg{{kind: sOp, arr: "time_string_" + z, args: []*Term{sec, s.f[0].(*Term)}, len: m.c.UF("time_string_len_"+z, big0, bi(100), sec)}}}}
	})
	tfmt := func(m *Machine, st *State, tv Val, layout *Text) *Text {
		l, ok := layout.concrete()
		if !ok {
			unsup("time layout")
		}
		var parts []*Text
		for len(l) > 0 {
			switch {
			case strings.HasPrefix(l, "2006"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "year"), 4))
				l = l[4:]
			case strings.HasPrefix(l, "01"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "month"), 2))
				l = l[2:]
			case strings.HasPrefix(l, "02"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "day"), 2))
				l = l[2:]
			case strings.HasPrefix(l, "15"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "hour"), 2))
				l = l[2:]
			case strings.HasPrefix(l, "04"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "minute"), 2))
				l = l[2:]
			case strings.HasPrefix(l, "05"):
				parts = append(parts, m.padText(st, m.timeUF(st, tv, "second"), 2))
				l = l[2:]
			case strings.IndexByte("-: /", l[0]) >= 0:
				parts = append(parts, m.lit(l[:1]))
				l = l[1:]
			default:
				unsup("time layout")
			}
		}
		return m.concat(parts...)
	}
	pure("(time.Time).Format", func(m *Machine, st *State, a []Val) []Val {
		return []Val{tfmt(m, st, a[0], a[1].(*Text))}
	})
	pure("(time.Time).AppendFormat", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.appendText(st, a[1].(*Slice), tfmt(m, st, a[0], a[2].(*Text)), "time")}
	})

	// sync
	models["(*sync.Once).Do"] = func(m *Machine, st *State, f *Frame, fn *ssa.Function, a []Val, done func([]Val)) {
		p := addPath(a[0].(*Ptr), PathElem{k: 1})
		v := m.load(st, p)
		d, ok := v.(*Term)
		if !ok {
			d = m.c.False
		}
		if m.decide(st, d) {
			done(nil)
			return
		}
		m.store(st, p, m.c.True)
		m.pushCall(st, a[1].(*Func), nil, func(m *Machine, st *State, _ []Val) { done(nil) })
	}
	pure("(*sync/atomic.Value).Load", func(m *Machine, st *State, a []Val) []Val {
		return []Val{m.load(st, addPath(a[0].(*Ptr), PathElem{k: 0}))}
	})
	pure("(*sync/atomic.Value).Store", func(m *Machine, st *State, a []Val) []Val {
		if a[1].(*Iface).t == nil {
			m.goPanic(st, "atomic.Value.Store(nil)")
		}
		m.store(st, addPath(a[0].(*Ptr), PathElem{k: 0}), a[1])
		return nil
	})
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		pure(n, func(m *Machine, st *State, a []Val) []Val { return nil })
	}
}

func (m *Machine) stdLoc(st *State, name string) Val {
	p := m.w.prog.ImportedPackage("time")
	g := p.Var(strings.TrimPrefix(name, "time."))
	id := m.global(g)
	return st.obj(id).val
}

func (m *Machine) numText(st *State, v *Term, base Val) *Text {
	b, ok := m.constOf(st, base.(*Term))
	if !ok || b != 10 {
		unsup("number in base %v", base)
	}
	return m.decText(st, v)
}

func (m *Machine) floatText(st *State, f *Float, verb, prec, bits Val) *Text {
	v, ok1 := m.constOf(st, verb.(*Term))
	p, ok2 := m.constOf(st, prec.(*Term))
	b, ok3 := m.constOf(st, bits.(*Term))
	if !ok1 || !ok2 || !ok3 {
		unsup("float format")
	}
	if f.bits.isConst() {
		return m.lit(strconv.FormatFloat(fval(f), byte(v), p, b))
	}
	n := fmt.Sprintf("float_%c_%d_%d_of%d", v, p, b, f.w)
	return &Text{[]Seg{{kind: sOp, arr: n, args: []*Term{f.bits}, len: m.c.UF(n+".len", big1, bi(400), f.bits)}}}
}
