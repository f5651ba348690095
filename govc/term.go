package main

// Terms: hash-consed integer/boolean terms with a simplifier. Integers are
// mathematical; machine wrap-around is made explicit by the executor.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer constant
	OVar             // integer variable
	OLin             // c + sum coef*arg
	OMul             // nonlinear product
	ODiv             // floor division by positive constant
	OMod             // mod positive constant
	OIte             // integer ite
	OSel             // array select: args[0]=idx, name=array
	OUF              // integer uninterpreted application
	OTrue
	OFalse
	OBVar
	OUFB // boolean uninterpreted application
	OEq0 // lin == 0
	OLe0 // lin <= 0
	ONot
	OAnd
	OOr
)

type Term struct {
	op     Op
	id     int
	name   string
	k      *big.Int   // OConst value, OLin constant, ODiv/OMod divisor
	coefs  []*big.Int // OLin
	args   []*Term
	lo, hi *big.Int // bounds (ints), nil = unbounded
	size   int
	ite    bool // contains an integer ite with non-constant leaves
}

func (t *Term) isBool() bool  { return t.op >= OTrue }
func (t *Term) isConst() bool { return t.op == OConst }

// Ctx owns the terms of one worker.
type Ctx struct {
	tab    map[string]*Term
	n      int
	fresh  int
	True   *Term
	False  *Term
	small  [600]*Term
	nibble map[*Term]*Term // hexadecimal digit -> value
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}}
	c.True = c.mk(&Term{op: OTrue})
	c.False = c.mk(&Term{op: OFalse})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteString(t.name)
	if t.op == OVar || t.op == OSel || t.op == OUF {
		sb.WriteByte(0)
		if t.lo != nil {
			sb.WriteString(t.lo.String())
		}
		sb.WriteByte(1)
		if t.hi != nil {
			sb.WriteString(t.hi.String())
		}
	}
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(t.coefs[i].String())
			sb.WriteByte('*')
		}
		fmt.Fprintf(&sb, "%d", a.id)
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.size = 1
	t.ite = t.op == OIte && !constIte(t)
	for _, a := range t.args {
		t.ite = t.ite || a.ite
		t.size += a.size
		if t.size > 1<<20 {
			t.size = 1 << 20
		}
	}
	c.tab[key] = t
	return t
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

func bi(x int64) *big.Int { return big.NewInt(x) }

func (c *Ctx) Big(k *big.Int) *Term {
	if k.IsInt64() {
		v := k.Int64()
		if v >= 0 && v < 600 {
			if c.small[v] == nil {
				c.small[v] = c.mk(&Term{op: OConst, k: bi(v), lo: bi(v), hi: bi(v)})
			}
			return c.small[v]
		}
	}
	kk := new(big.Int).Set(k)
	return c.mk(&Term{op: OConst, k: kk, lo: kk, hi: kk})
}
func (c *Ctx) Int(k int64) *Term { return c.Big(bi(k)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var makes (or returns) the integer variable of that name.
func (c *Ctx) Var(name string, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OVar, name: name, lo: lo, hi: hi})
}
func (c *Ctx) BVar(name string) *Term { return c.mk(&Term{op: OBVar, name: name}) }
func (c *Ctx) Fresh(p string) string {
	c.fresh++
	return fmt.Sprintf("%s!%d", p, c.fresh)
}
func (c *Ctx) UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	return c.mk(&Term{op: OUF, name: name, args: args, lo: lo, hi: hi})
}
func (c *Ctx) UFB(name string, args ...*Term) *Term {
	return c.mk(&Term{op: OUFB, name: name, args: args})
}
func (c *Ctx) Sel(arr string, idx *Term, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OSel, name: arr, args: []*Term{idx}, lo: lo, hi: hi})
}

// ---- linear forms

type linForm struct {
	k     *big.Int
	terms map[*Term]*big.Int
}

func toLin(t *Term) linForm {
	switch t.op {
	case OConst:
		return linForm{k: t.k}
	case OLin:
		m := make(map[*Term]*big.Int, len(t.args))
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return linForm{t.k, m}
	}
	return linForm{big0, map[*Term]*big.Int{t: big1}}
}

func (c *Ctx) fromLin(l linForm) *Term {
	type pair struct {
		t *Term
		c *big.Int
	}
	ps := make([]pair, 0, len(l.terms))
	for t, k := range l.terms {
		if k.Sign() != 0 {
			ps = append(ps, pair{t, k})
		}
	}
	if len(ps) == 0 {
		return c.Big(l.k)
	}
	if len(ps) == 1 && l.k.Sign() == 0 && ps[0].c.Cmp(big1) == 0 {
		return ps[0].t
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].t.id < ps[j].t.id })
	n := &Term{op: OLin, k: l.k}
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	var tmp big.Int
	for _, p := range ps {
		n.args = append(n.args, p.t)
		n.coefs = append(n.coefs, p.c)
		a, b := p.t.lo, p.t.hi
		if p.c.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil {
			if a == nil {
				lo = nil
			} else {
				lo.Add(lo, tmp.Mul(a, p.c))
			}
		}
		if hi != nil {
			if b == nil {
				hi = nil
			} else {
				hi.Add(hi, tmp.Mul(b, p.c))
			}
		}
	}
	n.lo, n.hi = lo, hi
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return c.Big(lo)
	}
	return c.mk(n)
}

func (c *Ctx) addScaled(a *Term, kb *big.Int, b *Term) *Term {
	if b.isConst() && b.k.Sign() == 0 {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.Big(new(big.Int).Add(a.k, new(big.Int).Mul(kb, b.k)))
	}
	la, lb := toLin(a), toLin(b)
	m := make(map[*Term]*big.Int, len(la.terms)+len(lb.terms))
	for t, k := range la.terms {
		m[t] = k
	}
	for t, k := range lb.terms {
		kk := new(big.Int).Mul(k, kb)
		if o, ok := m[t]; ok {
			kk.Add(kk, o)
		}
		m[t] = kk
	}
	return c.fromLin(linForm{new(big.Int).Add(la.k, new(big.Int).Mul(lb.k, kb)), m})
}
func (c *Ctx) Add(a, b *Term) *Term { return c.addScaled(a, big1, b) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.addScaled(a, bi(-1), b) }
func (c *Ctx) Neg(a *Term) *Term    { return c.addScaled(c.Int(0), bi(-1), a) }
func (c *Ctx) Scale(k *big.Int, a *Term) *Term {
	return c.addScaled(c.Int(0), k, a)
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(a.k, b)
	}
	if b.isConst() {
		return c.Scale(b.k, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if t.lo == nil || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if t.hi == nil || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
	}
	return c.mk(t)
}

func floorDiv(x, k *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(x, k, m) // Euclidean; k>0 so floor
	return q
}

// iteMap applies f to the leaves of an ite chain.
func (c *Ctx) iteMap(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.iteMap(t.args[1], f), c.iteMap(t.args[2], f))
	}
	return f(t)
}

func constIte(t *Term) bool {
	for t.op == OIte {
		if !constIte(t.args[1]) {
			return false
		}
		t = t.args[2]
	}
	return t.op == OConst
}

// Div is floor division by a positive constant.
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Sign() <= 0 {
		panic("Div: nonpositive divisor")
	}
	if k.Cmp(big1) == 0 {
		return a
	}
	if a.isConst() {
		return c.Big(floorDiv(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if l.Cmp(h) == 0 {
			return c.Big(l)
		}
		if d := new(big.Int).Sub(h, l); d.Cmp(big1) == 0 {
			return c.Ite(c.Le(c.Big(new(big.Int).Mul(h, k)), a), c.Big(h), c.Big(l))
		}
	}
	if a.op == OIte && constIte(a) {
		return c.iteMap(a, func(x *Term) *Term { return c.Div(x, k) })
	}
	switch a.op {
	case OLin:
		// split off multiples of k
		q := linForm{k: floorDiv(a.k, k), terms: map[*Term]*big.Int{}}
		r := linForm{k: new(big.Int).Mod(a.k, k), terms: map[*Term]*big.Int{}}
		var m big.Int
		for i, t := range a.args {
			if m.Mod(a.coefs[i], k).Sign() == 0 {
				q.terms[t] = floorDiv(a.coefs[i], k)
			} else {
				r.terms[t] = a.coefs[i]
			}
		}
		rt := c.fromLin(r)
		if len(q.terms) > 0 || q.k.Sign() != 0 {
			return c.Add(c.fromLin(q), c.Div(rt, k))
		}
		if rt != a {
			return c.Div(rt, k)
		}
		// group by a common divisor g of k: (g*x + y) div k with 0<=y<g = x div (k/g)
		for _, g := range commonDivs(a, k) {
			hiPart := linForm{k: floorDiv(a.k, g), terms: map[*Term]*big.Int{}}
			loPart := linForm{k: new(big.Int).Mod(a.k, g), terms: map[*Term]*big.Int{}}
			for i, t := range a.args {
				if m.Mod(a.coefs[i], g).Sign() == 0 {
					hiPart.terms[t] = floorDiv(a.coefs[i], g)
				} else {
					loPart.terms[t] = a.coefs[i]
				}
			}
			lp := c.fromLin(loPart)
			if lp.lo != nil && lp.hi != nil && lp.lo.Sign() >= 0 && lp.hi.Cmp(g) < 0 {
				return c.Div(c.fromLin(hiPart), new(big.Int).Div(k, g))
			}
		}
	case ODiv:
		return c.Div(a.args[0], new(big.Int).Mul(a.k, k))
	case OMod:
		// (x mod (m)) div k with k | m  ->  (x div k) mod (m/k)
		var m big.Int
		if m.Mod(a.k, k).Sign() == 0 {
			return c.Mod(c.Div(a.args[0], k), floorDiv(a.k, k))
		}
	}
	t := &Term{op: ODiv, k: k, args: []*Term{a}}
	if a.lo != nil {
		t.lo = floorDiv(a.lo, k)
	}
	if a.hi != nil {
		t.hi = floorDiv(a.hi, k)
	}
	return c.mk(t)
}

// commonDivs lists candidate group divisors: the coefficients that divide k.
func commonDivs(a *Term, k *big.Int) []*big.Int {
	var r []*big.Int
	var m big.Int
	for _, cf := range a.coefs {
		ac := new(big.Int).Abs(cf)
		if ac.Cmp(big1) > 0 && m.Mod(k, ac).Sign() == 0 {
			r = append(r, ac)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Cmp(r[j]) > 0 })
	return r
}

// Mod is the nonnegative remainder by a positive constant.
func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return c.Int(0)
	}
	if a.isConst() {
		return c.Big(new(big.Int).Mod(a.k, k))
	}
	if a.lo != nil && a.hi != nil {
		q := floorDiv(a.lo, k)
		if q.Cmp(floorDiv(a.hi, k)) == 0 {
			return c.addScaled(a, new(big.Int).Neg(k), c.Big(q))
		}
		h := floorDiv(a.hi, k)
		if d := new(big.Int).Sub(h, q); d.Cmp(big1) == 0 {
			return c.Ite(c.Le(c.Big(new(big.Int).Mul(h, k)), a), c.Sub(a, c.Big(new(big.Int).Mul(h, k))), c.Sub(a, c.Big(new(big.Int).Mul(q, k))))
		}
	}
	if a.op == OIte && constIte(a) {
		return c.iteMap(a, func(x *Term) *Term { return c.Mod(x, k) })
	}
	var m big.Int
	switch a.op {
	case OLin:
		r := linForm{k: new(big.Int).Mod(a.k, k), terms: map[*Term]*big.Int{}}
		changed := r.k.Cmp(a.k) != 0
		for i, t := range a.args {
			cf := a.coefs[i]
			if m.Mod(cf, k).Sign() == 0 {
				changed = true
				continue
			}
			r.terms[t] = cf
		}
		if changed {
			return c.Mod(c.fromLin(r), k)
		}
		// (g*x + y) mod k with g | k, 0<=y<g  ->  g*(x mod (k/g)) + y
		for _, g := range commonDivs(a, k) {
			hiPart := linForm{k: floorDiv(a.k, g), terms: map[*Term]*big.Int{}}
			loPart := linForm{k: new(big.Int).Mod(a.k, g), terms: map[*Term]*big.Int{}}
			for i, t := range a.args {
				if m.Mod(a.coefs[i], g).Sign() == 0 {
					hiPart.terms[t] = floorDiv(a.coefs[i], g)
				} else {
					loPart.terms[t] = a.coefs[i]
				}
			}
			lp := c.fromLin(loPart)
			if lp.lo != nil && lp.hi != nil && lp.lo.Sign() >= 0 && lp.hi.Cmp(g) < 0 {
				return c.addScaled(lp, g, c.Mod(c.fromLin(hiPart), new(big.Int).Div(k, g)))
			}
		}
	case OMod:
		if m.Mod(a.k, k).Sign() == 0 {
			return c.Mod(a.args[0], k)
		}
	}
	t := &Term{op: OMod, k: k, args: []*Term{a}, lo: big0, hi: new(big.Int).Sub(k, big1)}
	return c.mk(t)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b == c.True {
		return x
	}
	if b == c.False {
		return y
	}
	if x == y {
		return x
	}
	if x.isBool() {
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	if b.op == ONot {
		return c.Ite(b.args[0], y, x)
	}
	return c.mk(&Term{op: OIte, args: []*Term{b, x, y}, lo: minB(x.lo, y.lo), hi: maxB(x.hi, y.hi)})
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.args[0]
	case OLe0:
		// not(l<=0) = 1-l <= 0
		return c.le0(c.Sub(c.Int(1), a.args[0]))
	case OAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.Not(x)
		}
		return c.Or(xs...)
	case OOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.Not(x)
		}
		return c.And(xs...)
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	set := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || set[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		set[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if set[c.Not(x)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, args: out})
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) le0(l *Term) *Term {
	if l.hi != nil && l.hi.Sign() <= 0 {
		return c.True
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return c.False
	}
	if l.op == OIte && constIte(l) {
		return c.Ite(l.args[0], c.le0(l.args[1]), c.le0(l.args[2]))
	}
	if l.op == OLin {
		// divide by gcd of coefs
		g := new(big.Int)
		for _, k := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big1) > 0 {
			n := linForm{k: new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.k), g)), terms: map[*Term]*big.Int{}}
			for i, a := range l.args {
				n.terms[a] = new(big.Int).Quo(l.coefs[i], g)
			}
			l = c.fromLin(n)
			if l.hi != nil && l.hi.Sign() <= 0 {
				return c.True
			}
			if l.lo != nil && l.lo.Sign() > 0 {
				return c.False
			}
		}
		// single ite-const term: distribute
		if len(l.args) == 1 && l.args[0].op == OIte && constIte(l.args[0]) {
			return c.le0(c.iteMap(l.args[0], func(x *Term) *Term { return c.addScaled(c.Big(l.k), l.coefs[0], x) }))
		}
	}
	// over a range that starts (or ends) at the boundary: an equality
	if l.lo != nil && l.lo.Sign() == 0 {
		return c.eq0(l)
	}
	if l.hi != nil && l.hi.Cmp(big1) == 0 {
		return c.Not(c.eq0(c.AddK(l, -1)))
	}
	return c.mk(&Term{op: OLe0, args: []*Term{l}})
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddK(c.Sub(a, b), 1)) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isBool() {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.op == OIte && b.isConst() && constIte(a) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == OIte && a.isConst() && constIte(b) {
		return c.Eq(b, a)
	}
	return c.eq0(c.Sub(a, b))
}

func (c *Ctx) eq0(l *Term) *Term {
	if l.isConst() {
		return c.Bool(l.k.Sign() == 0)
	}
	if l.lo != nil && l.lo.Sign() > 0 || l.hi != nil && l.hi.Sign() < 0 {
		return c.False
	}
	if l.op == OLin {
		g := new(big.Int)
		for _, k := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		var m big.Int
		if m.Mod(l.k, g).Sign() != 0 {
			return c.False
		}
		neg := l.coefs[0].Sign() < 0
		if g.Cmp(big1) > 0 || neg {
			if neg {
				g.Neg(g)
			}
			n := linForm{k: new(big.Int).Quo(l.k, g), terms: map[*Term]*big.Int{}}
			for i, a := range l.args {
				n.terms[a] = new(big.Int).Quo(l.coefs[i], g)
			}
			l = c.fromLin(n)
		}
		if l.op == OLin && len(l.args) == 1 && l.args[0].op == OIte && constIte(l.args[0]) {
			return c.iteBool(l.args[0], func(x *Term) *Term { return c.eq0(c.addScaled(c.Big(l.k), l.coefs[0], x)) })
		}
		// mixed radix: if lin = g*x + y with |y| < g for some coefficient g, split to x==0 && y==0
		if l.op == OLin && len(l.args) >= 2 {
			if s := c.splitRadix(l); s != nil {
				return s
			}
		}
	}
	return c.mk(&Term{op: OEq0, args: []*Term{l}})
}

func (c *Ctx) iteBool(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.iteBool(t.args[1], f), c.iteBool(t.args[2], f))
	}
	return f(t)
}

func (c *Ctx) splitRadix(l *Term) *Term {
	var m big.Int
	cands := map[string]*big.Int{}
	for _, k := range l.coefs {
		a := new(big.Int).Abs(k)
		if a.Cmp(big1) > 0 {
			cands[a.String()] = a
		}
	}
	for _, g := range cands {
		hp := linForm{k: big0, terms: map[*Term]*big.Int{}}
		lp := linForm{k: big0, terms: map[*Term]*big.Int{}}
		for i, a := range l.args {
			if m.Mod(l.coefs[i], g).Sign() == 0 {
				hp.terms[a] = new(big.Int).Quo(l.coefs[i], g)
			} else {
				lp.terms[a] = l.coefs[i]
			}
		}
		if len(lp.terms) == 0 || len(hp.terms) == 0 {
			continue
		}
		// constant: choose split so that low part is in (-g, g)
		kq, kr := new(big.Int).QuoRem(l.k, g, new(big.Int))
		hp.k, lp.k = kq, kr
		lt := c.fromLin(lp)
		ng := new(big.Int).Neg(g)
		if lt.lo != nil && lt.hi != nil && lt.lo.Cmp(ng) > 0 && lt.hi.Cmp(g) < 0 {
			return c.And(c.eq0(c.fromLin(hp)), c.eq0(lt))
		}
	}
	return nil
}

// ---- bit operations on nonnegative integers

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

// bits returns a mask of the bits that may be set in the nonnegative t.
func (c *Ctx) bits(t *Term) *big.Int {
	if t.isConst() {
		return t.k
	}
	if t.op == OLin && t.k.Sign() >= 0 {
		acc := new(big.Int).Set(t.k)
		ok := true
		for i, a := range t.args {
			cf := t.coefs[i]
			if cf.Sign() < 0 || a.lo == nil || a.lo.Sign() < 0 || a.hi == nil {
				ok = false
				break
			}
			tz := int(cf.TrailingZeroBits())
			if new(big.Int).Rsh(cf, uint(tz)).Cmp(big1) != 0 {
				ok = false
				break
			}
			b := new(big.Int).Lsh(c.bits(a), uint(tz))
			if new(big.Int).And(acc, b).Sign() != 0 {
				ok = false
				break
			}
			acc.Or(acc, b)
		}
		if ok {
			return acc
		}
	}
	if t.op == OIte {
		return new(big.Int).Or(c.bits(t.args[1]), c.bits(t.args[2]))
	}
	if t.hi == nil {
		return nil
	}
	m := new(big.Int).Sub(pow2(t.hi.BitLen()), big1)
	// trailing zeros
	if t.op == OLin {
		tz := -1
		if t.k.Sign() != 0 {
			tz = int(t.k.TrailingZeroBits())
		}
		for _, k := range t.coefs {
			z := int(k.TrailingZeroBits())
			if tz < 0 || z < tz {
				tz = z
			}
		}
		if tz > 0 {
			m.AndNot(m, new(big.Int).Sub(pow2(tz), big1))
		}
	}
	return m
}

func (c *Ctx) AndConst(x *Term, mask *big.Int) *Term {
	if mask.Sign() == 0 {
		return c.Int(0)
	}
	if x.isConst() {
		return c.Big(new(big.Int).And(x.k, mask))
	}
	if x.op == OIte {
		return c.iteMap(x, func(y *Term) *Term { return c.AndConst(y, mask) })
	}
	if b := c.bits(x); b != nil {
		mask = new(big.Int).And(mask, b)
		if mask.Cmp(b) == 0 {
			return x
		}
		if mask.Sign() == 0 {
			return c.Int(0)
		}
		// widen runs over impossible bits is unnecessary
	}
	r := c.Int(0)
	n := mask.BitLen()
	for i := 0; i < n; {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && mask.Bit(j) == 1 {
			j++
		}
		f := c.Mod(c.Div(x, pow2(i)), pow2(j-i))
		r = c.addScaled(r, pow2(i), f)
		i = j
	}
	return r
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (c *Ctx) BitAnd(x, y *Term) *Term {
	if y.isConst() {
		return c.AndConst(x, y.k)
	}
	if x.isConst() {
		return c.AndConst(y, x.k)
	}
	if constIte(y) {
		return c.iteMap(y, func(k *Term) *Term { return c.AndConst(x, k.k) })
	}
	if constIte(x) {
		return c.iteMap(x, func(k *Term) *Term { return c.AndConst(y, k.k) })
	}
	return c.bitwise(x, y, func(a, b *Term) *Term { return c.And(a, b) })
}

func (c *Ctx) BitOr(x, y *Term) *Term {
	bx, by := c.bits(x), c.bits(y)
	if bx != nil && by != nil && new(big.Int).And(bx, by).Sign() == 0 {
		return c.Add(x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		return c.Sub(c.Add(x, y), c.AndConst(x, y.k))
	}
	if constIte(y) || constIte(x) {
		return c.Sub(c.Add(x, y), c.BitAnd(x, y))
	}
	return c.bitwise(x, y, func(a, b *Term) *Term { return c.Or(a, b) })
}

func (c *Ctx) BitXor(x, y *Term) *Term {
	bx, by := c.bits(x), c.bits(y)
	if bx != nil && by != nil && new(big.Int).And(bx, by).Sign() == 0 {
		return c.Add(x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() || constIte(y) || constIte(x) {
		return c.addScaled(c.Add(x, y), bi(-2), c.BitAnd(x, y))
	}
	return c.bitwise(x, y, func(a, b *Term) *Term { return c.Not(c.Eq(a, b)) })
}

func (c *Ctx) bitwise(x, y *Term, f func(a, b *Term) *Term) *Term {
	if x.hi == nil || y.hi == nil || x.hi.BitLen() > 16 || y.hi.BitLen() > 16 {
		unsup("wide bitwise operation on two variables")
	}
	n := x.hi.BitLen()
	if m := y.hi.BitLen(); m > n {
		n = m
	}
	r := c.Int(0)
	for i := 0; i < n; i++ {
		a := c.Eq(c.Mod(c.Div(x, pow2(i)), bi(2)), c.Int(1))
		b := c.Eq(c.Mod(c.Div(y, pow2(i)), bi(2)), c.Int(1))
		r = c.Add(r, c.Ite(f(a, b), c.Big(pow2(i)), c.Int(0)))
	}
	return r
}

// rebuild applies f to the conditions of all ites in t, bottom up; f returns
// (value, decided).
func (c *Ctx) simpIte(t *Term, known func(*Term) (bool, bool), memo map[*Term]*Term) *Term {
	if !t.ite {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OIte:
		if v, ok := known(t.args[0]); ok {
			if v {
				r = c.simpIte(t.args[1], known, memo)
			} else {
				r = c.simpIte(t.args[2], known, memo)
			}
		} else {
			r = c.Ite(t.args[0], c.simpIte(t.args[1], known, memo), c.simpIte(t.args[2], known, memo))
		}
	case OLin:
		r = c.Big(t.k)
		for i, a := range t.args {
			r = c.addScaled(r, t.coefs[i], c.simpIte(a, known, memo))
		}
	case ODiv:
		r = c.Div(c.simpIte(t.args[0], known, memo), t.k)
	case OMod:
		r = c.Mod(c.simpIte(t.args[0], known, memo), t.k)
	default:
		r = t
	}
	memo[t] = r
	return r
}
