package main

// Text: symbolic byte strings as sequences of segments.

import (
	"fmt"
	"math/big"
	"strings"
)

type segKind uint8

const (
	sBytes segKind = iota // explicit bytes
	sSub                  // arr[off:off+len], possibly lower-cased
	sDec                  // canonical decimal text of v
	sPad                  // v zero-padded to exactly w digits (0 <= v < 10^w)
	sRep                  // n copies of byte v
	sOp                   // opaque: name(args), length len
)

type Seg struct {
	kind  segKind
	b     []*Term
	arr   string // sSub array or sOp name
	off   *Term
	len   *Term
	lower bool
	v     *Term
	w     int
	args  []*Term
}

type Text struct{ segs []Seg }

var emptyText = &Text{}

func (s Seg) String() string {
	switch s.kind {
	case sBytes:
		var sb strings.Builder
		for _, x := range s.b {
			if x.isConst() {
				sb.WriteByte(byte(x.k.Int64()))
			} else {
				sb.WriteString("{" + x.String() + "}")
			}
		}
		return fmt.Sprintf("%q", sb.String())
	case sSub:
		return fmt.Sprintf("%s[%v+:%v]", s.arr, s.off, s.len)
	case sDec:
		return fmt.Sprintf("dec(%v)", s.v)
	case sPad:
		return fmt.Sprintf("pad%d(%v)", s.w, s.v)
	case sRep:
		return fmt.Sprintf("rep(%v,%v)", s.v, s.len)
	}
	return fmt.Sprintf("%s%v", s.arr, s.args)
}

func (t *Text) String() string {
	var p []string
	for _, s := range t.segs {
		p = append(p, s.String())
	}
	return strings.Join(p, "+")
}

func (m *Machine) lit(s string) *Text {
	if s == "" {
		return emptyText
	}
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = m.c.Int(int64(s[i]))
	}
	return &Text{[]Seg{{kind: sBytes, b: b}}}
}

func bytesText(b []*Term) *Text {
	if len(b) == 0 {
		return emptyText
	}
	return &Text{[]Seg{{kind: sBytes, b: b}}}
}

// concrete returns the Go string if every byte is constant.
func (t *Text) concrete() (string, bool) {
	var sb strings.Builder
	for _, s := range t.segs {
		if s.kind != sBytes {
			return "", false
		}
		for _, x := range s.b {
			if !x.isConst() {
				return "", false
			}
			sb.WriteByte(byte(x.k.Int64()))
		}
	}
	return sb.String(), true
}

// flat returns the bytes if the text has a concrete length without Dec parts.
func (m *Machine) flat(t *Text) ([]*Term, bool) {
	var r []*Term
	for _, s := range t.segs {
		switch s.kind {
		case sBytes:
			r = append(r, s.b...)
		case sPad:
			r = append(r, m.padBytes(s)...)
		case sSub, sRep:
			if !s.len.isConst() || s.len.k.Cmp(bi(4096)) > 0 {
				return nil, false
			}
			n := int(s.len.k.Int64())
			for i := 0; i < n; i++ {
				r = append(r, m.segAt(s, m.c.Int(int64(i))))
			}
		default:
			return nil, false
		}
	}
	return r, true
}

func pow10(n int) *big.Int { return new(big.Int).Exp(bi(10), bi(int64(n)), nil) }

func (m *Machine) padBytes(s Seg) []*Term {
	r := make([]*Term, s.w)
	for i := 0; i < s.w; i++ {
		d := m.c.Div(s.v, pow10(s.w-1-i))
		if i > 0 {
			d = m.c.Mod(d, bi(10))
		}
		r[i] = m.c.AddK(d, '0')
	}
	return r
}

func (m *Machine) lowerByte(b *Term) *Term {
	if b.isConst() {
		k := b.k.Int64()
		if k >= 'A' && k <= 'Z' {
			return m.c.Int(k + 32)
		}
		return b
	}
	up := m.c.And(m.c.Le(m.c.Int('A'), b), m.c.Le(b, m.c.Int('Z')))
	return m.c.Ite(up, m.c.AddK(b, 32), b)
}

var b255 = bi(255)

func (m *Machine) segAt(s Seg, i *Term) *Term {
	switch s.kind {
	case sBytes:
		if !i.isConst() {
			unsup("symbolic index into a literal")
		}
		return s.b[i.k.Int64()]
	case sSub:
		b := m.c.Sel(s.arr, m.c.Add(s.off, i), big0, b255)
		if s.lower {
			return m.lowerByte(b)
		}
		return b
	case sRep:
		return s.v
	case sPad:
		if i.isConst() {
			return m.padBytes(s)[i.k.Int64()]
		}
	}
	unsup("byte of text segment %v", s)
	return nil
}

func (m *Machine) segLen(s Seg) *Term {
	switch s.kind {
	case sBytes:
		return m.c.Int(int64(len(s.b)))
	case sPad:
		return m.c.Int(int64(s.w))
	case sDec:
		lo, hi := bi(1), (*big.Int)(nil)
		if s.v.hi != nil && s.v.lo != nil {
			n := len(s.v.hi.String())
			if l := len(s.v.lo.String()); l > n {
				n = l
			}
			hi = bi(int64(n))
		}
		return m.c.UF("declen", lo, hi, s.v)
	}
	return s.len
}

func (m *Machine) textLen(t *Text) *Term {
	r := m.c.Int(0)
	for _, s := range t.segs {
		r = m.c.Add(r, m.segLen(s))
	}
	return r
}

func (m *Machine) textAt(st *State, t *Text, i *Term) *Term {
	off := m.c.Int(0)
	if i.isConst() == false {
		if k, ok := m.constOf(st, i); ok {
			i = m.c.Int(int64(k))
		}
	}
	for n, s := range t.segs {
		l := m.segLen(s)
		rel := m.c.Sub(i, off)
		if n == len(t.segs)-1 || m.decide(st, m.c.Lt(rel, l)) {
			if s.kind == sBytes && !rel.isConst() {
				r := s.b[len(s.b)-1]
				for k := len(s.b) - 2; k >= 0; k-- {
					r = m.c.Ite(m.c.Eq(rel, m.c.Int(int64(k))), s.b[k], r)
				}
				return r
			}
			if s.kind == sPad && !rel.isConst() {
				bs := m.padBytes(s)
				r := bs[len(bs)-1]
				for k := len(bs) - 2; k >= 0; k-- {
					r = m.c.Ite(m.c.Eq(rel, m.c.Int(int64(k))), bs[k], r)
				}
				return r
			}
			return m.segAt(s, rel)
		}
		off = m.c.Add(off, l)
	}
	unsup("index into empty text")
	return nil
}

func (m *Machine) textSet(st *State, t *Text, i, v *Term) *Text {
	if f, ok := m.flat(t); ok {
		k, ok := m.constOf(st, i)
		if !ok {
			n := make([]*Term, len(f))
			for j := range f {
				n[j] = m.c.Ite(m.c.Eq(i, m.c.Int(int64(j))), v, f[j])
			}
			return bytesText(n)
		}
		n := append([]*Term(nil), f...)
		n[k] = v
		return bytesText(n)
	}
	unsup("store into symbolic bytes")
	return nil
}

// subText is t[lo:hi]; bounds have been checked.
func (m *Machine) subText(st *State, t *Text, lo, hi *Term) *Text {
	if lo == hi {
		return emptyText
	}
	if len(t.segs) == 1 && t.segs[0].kind == sSub {
		s := t.segs[0]
		s.off = m.c.Add(s.off, lo)
		s.len = m.c.Sub(hi, lo)
		return &Text{[]Seg{s}}
	}
	var out []Seg
	off := m.c.Int(0)
	if lo.isConst() && lo.k.Sign() == 0 && hi == m.textLen(t) {
		return t
	}
	for _, s := range t.segs {
		l := m.segLen(s)
		end := m.c.Add(off, l)
		// entirely before lo, or after hi?
		if m.decide(st, m.c.Le(end, lo)) {
			off = end
			continue
		}
		if m.decide(st, m.c.Le(hi, off)) {
			break
		}
		a, b := m.c.Int(0), l
		if m.decide(st, m.c.Lt(off, lo)) {
			a = m.c.Sub(lo, off)
		}
		if m.decide(st, m.c.Lt(hi, end)) {
			b = m.c.Sub(hi, off)
		}
		out = append(out, m.cutSeg(st, s, a, b))
		off = end
	}
	return m.norm(out)
}

func (m *Machine) cutSeg(st *State, s Seg, a, b *Term) Seg {
	if a.isConst() && a.k.Sign() == 0 && b == m.segLen(s) {
		return s
	}
	switch s.kind {
	case sPad:
		s = Seg{kind: sBytes, b: m.padBytes(s)}
		fallthrough
	case sBytes:
		x, ok1 := m.constOf(st, a)
		y, ok2 := m.constOf(st, b)
		if !ok1 || !ok2 {
			// case split over the few positions
			for i := 0; i <= len(s.b) && !ok1; i++ {
				if m.decide(st, m.c.Eq(a, m.c.Int(int64(i)))) {
					x, ok1 = i, true
				}
			}
			for i := 0; i <= len(s.b) && !ok2; i++ {
				if m.decide(st, m.c.Eq(b, m.c.Int(int64(i)))) {
					y, ok2 = i, true
				}
			}
			if !ok1 || !ok2 {
				panic(pathDead{})
			}
		}
		return Seg{kind: sBytes, b: s.b[x:y]}
	case sSub:
		s.off = m.c.Add(s.off, a)
		s.len = m.c.Sub(b, a)
		return s
	case sRep:
		s.len = m.c.Sub(b, a)
		return s
	}
	unsup("cut inside text segment %v", s)
	return s
}

// norm merges adjacent segments and drops empty ones.
func (m *Machine) norm(in []Seg) *Text {
	var out []Seg
	for _, s := range in {
		if s.kind == sBytes && len(s.b) == 0 {
			continue
		}
		if (s.kind == sSub || s.kind == sRep) && s.len.isConst() && s.len.k.Sign() == 0 {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.kind == sBytes && s.kind == sBytes {
				b := make([]*Term, 0, len(p.b)+len(s.b))
				b = append(b, p.b...)
				p.b = append(b, s.b...)
				continue
			}
			if p.kind == sSub && s.kind == sSub && p.arr == s.arr && p.lower == s.lower && m.c.Add(p.off, p.len) == s.off {
				p.len = m.c.Add(p.len, s.len)
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return emptyText
	}
	return &Text{out}
}

func (m *Machine) concat(ts ...*Text) *Text {
	var segs []Seg
	for _, t := range ts {
		segs = append(segs, t.segs...)
	}
	return m.norm(segs)
}

// decText is the canonical decimal text of v.
func (m *Machine) decText(st *State, v *Term) *Text {
	if v.isConst() {
		return m.lit(v.k.String())
	}
	if v.lo != nil && v.lo.Sign() >= 0 && v.hi != nil && v.hi.Cmp(bi(9)) <= 0 {
		return bytesText([]*Term{m.c.AddK(v, '0')})
	}
	return &Text{[]Seg{{kind: sDec, v: v}}}
}

// padText is v printed with %0wd (v >= 0 must hold on this path).
func (m *Machine) padText(st *State, v *Term, w int) *Text {
	if v.isConst() && v.k.Sign() >= 0 {
		return m.lit(fmt.Sprintf("%0*s", w, v.k.String()))
	}
	if w <= 1 {
		return m.decText(st, v)
	}
	if m.decide(st, m.c.Lt(v, m.c.Int(0))) {
		// %0wd of a negative number: sign, then padded to w-1
		return m.concat(m.lit("-"), m.padText(st, m.c.Neg(v), w-1))
	}
	if m.decide(st, m.c.Lt(v, m.c.Big(pow10(w)))) {
		return &Text{[]Seg{{kind: sPad, v: v, w: w}}}
	}
	return m.decText(st, v)
}

func isDigitConst(t *Term) bool {
	return t.isConst() && t.k.Cmp(bi('0')) >= 0 && t.k.Cmp(bi('9')) <= 0
}

// textEq returns a condition under which a and b are equal; exact tells
// whether it is also necessary.
func (m *Machine) textEq(st *State, a, b *Text) (*Term, bool) {
	x, y := append([]Seg(nil), a.segs...), append([]Seg(nil), b.segs...)
	cond := m.c.True
	exact := true
	for _, l := range [][]Seg{x, y} {
		for i := range l {
			if l[i].v != nil && l[i].v.ite {
				l[i].v = m.simp(st, l[i].v)
			}
		}
	}
	and := func(t *Term) bool {
		cond = m.c.And(cond, t)
		return cond != m.c.False
	}
	for {
		if len(x) == 0 && len(y) == 0 {
			return cond, exact
		}
		if len(x) == 0 || len(y) == 0 {
			// the rest must be empty
			rest := append(append([]Seg(nil), x...), y...)
			for _, s := range rest {
				if s.kind == sBytes || s.kind == sPad || s.kind == sDec {
					return m.c.False, exact
				}
				and(m.c.Eq(m.segLen(s), m.c.Int(0)))
			}
			return cond, exact
		}
		s, t := x[0], y[0]
		if s.kind == sPad && t.kind == sPad && s.w == t.w {
			if !and(m.c.Eq(s.v, t.v)) {
				return cond, exact
			}
			x, y = x[1:], y[1:]
			continue
		}
		if s.kind == sDec && t.kind == sDec {
			// sufficient; necessary too if both are followed by a non-digit or the end
			if !and(m.c.Eq(s.v, t.v)) {
				if !(m.nonDigitNext(x[1:]) && m.nonDigitNext(y[1:])) {
					exact = false
				}
				return cond, exact
			}
			if !(m.nonDigitNext(x[1:]) && m.nonDigitNext(y[1:])) {
				exact = false
			}
			x, y = x[1:], y[1:]
			continue
		}
		if s.kind == sDec || t.kind == sDec {
			// decimal against explicit digits
			if s.kind != sDec {
				s, t, x, y = t, s, y, x
			}
			c, n, ok := m.decAgainst(s.v, y, m.nonDigitNext(x[1:]))
			if !ok {
				return m.c.False, false
			}
			if !and(c) {
				return cond, exact
			}
			x = x[1:]
			y = dropBytes(m, y, n)
			continue
		}
		if s.kind == sPad {
			x[0] = Seg{kind: sBytes, b: m.padBytes(s)}
			continue
		}
		if t.kind == sPad {
			y[0] = Seg{kind: sBytes, b: m.padBytes(t)}
			continue
		}
		if s.kind == sBytes && t.kind == sBytes {
			n := len(s.b)
			if len(t.b) < n {
				n = len(t.b)
			}
			for i := 0; i < n; i++ {
				if !and(m.c.Eq(s.b[i], t.b[i])) {
					return cond, exact
				}
			}
			x, y = dropBytes(m, x, n), dropBytes(m, y, n)
			continue
		}
		if s.kind == sOp || t.kind == sOp {
			if s.kind == t.kind && s.arr == t.arr && len(s.args) == len(t.args) {
				for i := range s.args {
					if s.args[i] != t.args[i] {
						and(m.c.Eq(s.args[i], t.args[i]))
						if !strings.HasPrefix(s.arr, "inj_") {
							exact = false
						}
					}
				}
				if cond == m.c.False {
					return cond, exact
				}
				x, y = x[1:], y[1:]
				continue
			}
			return m.c.False, false
		}
		if s.kind == sRep && t.kind == sRep {
			and(m.c.Eq(s.v, t.v))
			and(m.c.Eq(s.len, t.len))
			exact = false
			x, y = x[1:], y[1:]
			continue
		}
		if s.kind == sSub && t.kind == sSub && s.arr == t.arr && s.lower == t.lower {
			if s.off == t.off && s.len == t.len {
				x, y = x[1:], y[1:]
				continue
			}
			if len(x) == 1 && len(y) == 1 {
				eq := m.c.And(m.c.Eq(s.off, t.off), m.c.Eq(s.len, t.len))
				if cond == m.c.True && m.entails(st, m.c.And(m.c.Eq(s.len, m.c.Int(0)), m.c.Eq(t.len, m.c.Int(0)))) {
					return m.c.True, exact
				}
				return m.c.And(cond, m.c.Or(eq, m.c.And(m.c.Eq(s.len, m.c.Int(0)), m.c.Eq(t.len, m.c.Int(0))))), false
			}
			// equal offsets: split the longer one
			if s.off == t.off {
				d := m.c.Sub(s.len, t.len)
				if d.isConst() {
					if d.k.Sign() > 0 {
						x[0] = Seg{kind: sSub, arr: s.arr, off: m.c.Add(s.off, t.len), len: d, lower: s.lower}
						y = y[1:]
					} else {
						y[0] = Seg{kind: sSub, arr: s.arr, off: m.c.Add(s.off, s.len), len: m.c.Neg(d), lower: s.lower}
						x = x[1:]
					}
					continue
				}
			}
			and(m.c.Eq(s.off, t.off))
			and(m.c.Eq(s.len, t.len))
			exact = false
			x, y = x[1:], y[1:]
			continue
		}
		// one is sSub/sRep, the other explicit bytes (or other arrays)
		if s.kind == sBytes {
			s, t, x, y = t, s, y, x
		}
		if t.kind != sBytes {
			if s.len.isConst() && s.len.k.Cmp(bi(512)) <= 0 {
				x[0] = m.expandSeg(s)
				continue
			}
			if t.len.isConst() && t.len.k.Cmp(bi(512)) <= 0 {
				y[0] = m.expandSeg(t)
				continue
			}
			e := m.c.And(m.c.Eq(s.len, m.c.Int(0)), m.c.Eq(t.len, m.c.Int(0)))
			exact = false
			if !and(e) {
				return cond, exact
			}
			x, y = x[1:], y[1:]
			continue
		}
		// s: sub or rep with possibly symbolic length; t: bytes
		if s.len.isConst() {
			if s.len.k.Cmp(bi(4096)) > 0 {
				return m.c.False, false
			}
			x[0] = m.expandSeg(s)
			if len(x[0].b) == 0 {
				x = x[1:]
			}
			continue
		}
		if len(x) == 1 {
			// the symbolic segment takes all the rest of y
			n := m.restLen(y)
			if f, ok := m.flat(&Text{y}); ok {
				and(m.c.Eq(s.len, m.c.Int(int64(len(f)))))
				for i, b := range f {
					and(m.c.Eq(m.segAt(s, m.c.Int(int64(i))), b))
				}
				return cond, exact
			}
			_ = n
			return m.c.False, false
		}
		return m.c.False, false
	}
}

func (m *Machine) restLen(y []Seg) *Term { return m.textLen(&Text{y}) }

func (m *Machine) expandSeg(s Seg) Seg {
	n := int(s.len.k.Int64())
	r := Seg{kind: sBytes}
	for i := 0; i < n; i++ {
		r.b = append(r.b, m.segAt(s, m.c.Int(int64(i))))
	}
	return r
}

func dropBytes(m *Machine, x []Seg, n int) []Seg {
	for n > 0 {
		s := x[0]
		k := 0
		switch s.kind {
		case sBytes:
			k = len(s.b)
			if k > n {
				s.b = s.b[n:]
				r := append([]Seg{s}, x[1:]...)
				return r
			}
		case sPad:
			k = s.w
			if k > n {
				s = Seg{kind: sBytes, b: m.padBytes(s)[n:]}
				return append([]Seg{s}, x[1:]...)
			}
		}
		n -= k
		x = x[1:]
	}
	if len(x) > 0 && x[0].kind == sBytes && len(x[0].b) == 0 {
		x = x[1:]
	}
	return x
}

func (m *Machine) nonDigitNext(x []Seg) bool {
	if len(x) == 0 {
		return true
	}
	s := x[0]
	if s.kind == sBytes && s.b[0].isConst() {
		return !isDigitConst(s.b[0])
	}
	return false
}

// decAgainst compares dec(v) with the digits at the start of y; it returns
// the condition and the number of bytes of y consumed.
func (m *Machine) decAgainst(v *Term, y []Seg, closed bool) (*Term, int, bool) {
	// collect leading explicit digits: pads and constant digit bytes
	var ds []*Term
	neg := false
	first := true
	val := m.c.Int(0)
	n := 0
	ended := true
loop:
	for _, s := range y {
		switch s.kind {
		case sPad:
			val = m.c.addScaled(s.v, pow10(s.w), val)
			for i := 0; i < s.w; i++ {
				ds = append(ds, nil)
			}
			if ds[0] == nil {
				ds[0] = m.padBytes(s)[0]
			}
			n += s.w
		case sBytes:
			for _, b := range s.b {
				if first && b.isConst() && b.k.Int64() == '-' {
					neg = true
					first = false
					n++
					continue
				}
				dig := isDigitConst(b) || b.lo != nil && b.hi != nil && b.lo.Cmp(bi('0')) >= 0 && b.hi.Cmp(bi('9')) <= 0
				if !dig {
					if !b.isConst() && !(b.lo != nil && b.lo.Cmp(bi('9')) > 0) {
						ended = false
					}
					break loop
				}
				val = m.c.addScaled(m.c.AddK(b, -'0'), bi(10), val)
				ds = append(ds, b)
				n++
				first = false
			}
		default:
			ended = false
			break loop
		}
		first = false
	}
	if len(ds) == 0 || !ended {
		return nil, 0, false
	}
	if neg {
		val = m.c.Neg(val)
	}
	c := m.c.Eq(v, val)
	if len(ds) > 1 || neg {
		// no leading zero
		c = m.c.And(c, m.c.Not(m.c.Eq(ds[0], m.c.Int('0'))))
	}
	if !closed {
		// more digits could follow dec(v): only sufficient
		return c, n, true
	}
	return c, n, true
}
