package replication

import "sort"

// Contracts of the MySQL 5.6 GTID sets (C18).
//
// A set in canonical form maps a server id to a list of n(id) >= 1 intervals
// [s(id,j), e(id,j)], sorted, disjoint and not adjacent: e(id,i)+1 < s(id,j)
// for i < j. All four are unknown functions; the facts about them are assumed
// for the indices the code or the contract looks at. A sequence number q has a
// place in a list, the number of intervals ending below it; it is a member iff
// the interval there begins at or below it (lemma below).

const gnoMax = 1<<63 - 2

func symSID(name string) (sid SID) {
	copy(sid[:], vBytesN(name, 16))
	return
}

func idOf(k SID) int {
	return vUFI("id", int(k[0]), int(k[1]), int(k[2]), int(k[3]), int(k[4]), int(k[5]), int(k[6]), int(k[7]),
		int(k[8]), int(k[9]), int(k[10]), int(k[11]), int(k[12]), int(k[13]), int(k[14]), int(k[15]))
}

// gset: a canonical set of intervals per server.
type gset struct{ name string }

func (g gset) has(id int) bool { return vUFB(g.name+".has", id) }
func (g gset) n(id int) int    { return vUFR(g.name+".n", 1, 1<<40, id) }
func (g gset) s(id, j int) int64 {
	return int64(vUFR(g.name+".s", 1, gnoMax, id, j))
}
func (g gset) e(id, j int) int64 {
	return int64(vUFR(g.name+".e", 1, gnoMax, id, j))
}
func (g gset) iv(id, j int) interval { return interval{g.s(id, j), g.e(id, j)} }
func (g gset) in(id, j int) bool     { return vAnd(0 <= j, j < g.n(id)) }

// canon: the canonical form, for two intervals.
func (g gset) canon(id, i, j int) bool {
	return vAnd(
		vImp(g.in(id, i), g.s(id, i) <= g.e(id, i)),
		vImp(g.in(id, j), g.s(id, j) <= g.e(id, j)),
		vImp(vAnd(0 <= i, i < j, j < g.n(id)), g.e(id, i)+1 < g.s(id, j)),
		vImp(vAnd(0 <= j, j < i, i < g.n(id)), g.e(id, j)+1 < g.s(id, i)))
}

func (g gset) list(id int) []interval {
	return vListDef(g.n(id), func(j int) interval { return g.iv(id, j) }, func(i, j int) bool { return g.canon(id, i, j) })
}

// set: the set itself; the entries of the given servers are looked up first.
func (g gset) set(sids ...SID) Mysql56GTIDSet {
	m := vMapGen(func(k SID) ([]interval, bool) {
		id := idOf(k)
		if !g.has(id) {
			return nil, false
		}
		return g.list(id), true
	})
	for _, sid := range sids {
		_ = m[sid]
	}
	vMapLen(m, vUFN(g.name+".len"))
	return m
}

// place: the number of intervals that end below q.
func (g gset) place(id int, q int64) (p int) {
	n := g.n(id)
	p = vRange(g.name+".place", 0, 1<<40)
	vAssume(vAnd(p <= n, vImp(p > 0, g.e(id, p-1) < q), vImp(p < n, q <= g.e(id, p))))
	g.near(id, p, p-1)
	return
}

// touch: the canonical form, for these intervals and those the code reads.
func (g gset) touch(set Mysql56GTIDSet, sid SID, idx ...int) {
	if l, ok := set[sid]; ok {
		for _, i := range idx {
			vTouch(l, i)
		}
	}
}

// near: the canonical form, for a number of intervals.
func (g gset) near(id int, idx ...int) {
	for x := range idx {
		for y := range idx[:x+1] {
			vAssume(g.canon(id, idx[x], idx[y]))
		}
	}
}

func (g gset) member(id, p int, q int64) bool {
	return vAnd(g.has(id), p < g.n(id), g.s(id, p) <= q)
}

// A number is in an interval of the list iff it is in the one at its place.
func prove_C18_lemma_member() {
	g := gset{"set"}
	id, q := vInt("id"), vI64("sequence")
	p, k := g.place(id, q), vInt("k")
	vAssume(vAnd(g.has(id), g.in(id, k)))
	g.near(id, p, p-1, k)
	inside := vAnd(g.s(id, k) <= q, q <= g.e(id, k))
	vCover("any")
	vEnsure(vImp(inside, vAnd(k == p, g.member(id, p, q))), "C18.member-is-at-its-place")
	vEnsure(vImp(vAnd(k == p, g.member(id, p, q)), inside), "C18.member-at-its-place-is-inside")
}

func prove_C18_containsGTID() {
	g, sid, q := gset{"set"}, symSID("server"), vI64("sequence")
	set, id := g.set(sid), idOf(sid)
	p := g.place(id, q)
	g.touch(set, sid, p-1, p)
	vLoop("replication.(Mysql56GTIDSet).ContainsGTID", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, rangeindex < p), "not-beyond-its-place")
	})
	vMark()
	vFrame(true)
	r := set.ContainsGTID(Mysql56GTID{Server: sid, Sequence: q})
	vFrame(false)
	vCover("answer")
	vEnsure(r == g.member(id, p, q), "C18.membership")
}

// Values of another flavor are in no set and change none.
func prove_C18_otherFlavor() {
	g, sid := gset{"set"}, symSID("server")
	set := g.set(sid)
	vMark()
	vFrame(true)
	vEnsure(!set.ContainsGTID(MariadbGTID{}), "C18.foreign-gtid-not-in")
	vEnsure(!set.ContainsGTID(nil), "C18.foreign-gtid-not-in")
	vEnsure(!set.Contains(MariadbGTIDSet{}), "C18.foreign-set-not-in")
	vEnsure(!set.Equal(MariadbGTIDSet{}), "C18.foreign-set-not-equal")
	r := set.AddGTID(MariadbGTID{})
	vFrame(false)
	r56, ok := r.(Mysql56GTIDSet)
	vEnsure(ok, "C18.foreign-gtid-changes-nothing")
	if ok {
		iv, has := r56[sid]
		vEnsure(has == g.has(idOf(sid)), "C18.foreign-gtid-changes-nothing")
		if has {
			vEnsure(vListIs(iv, g.n(idOf(sid)), func(j int) interval { return g.iv(idOf(sid), j) }), "C18.foreign-gtid-changes-nothing")
		}
	}
	vCover("foreign")
}

// covered: the j-th interval of o is inside one of g's.
func (g gset) covers(o gset, id, j int) bool {
	p := g.place(id, o.e(id, j))
	return g.member(id, p, o.s(id, j))
}

// An interval whose elements are all members is inside one interval: the
// interval at the place of its end, which is the one at the place of its start.
func prove_C18_lemma_covered() {
	g := gset{"set"}
	id, lo, hi := vInt("id"), vI64("from"), vI64("to")
	vAssume(vAnd(lo <= hi, hi < gnoMax))
	a, b, c := g.place(id, lo), g.place(id, hi), vInt("c")
	vAssume(vAnd(g.in(id, c), g.member(id, a, lo)))
	g.near(id, a, a-1, b, b-1, c)
	// every element after the interval of the first one up to the last
	next := g.e(id, a) + 1
	vAssume(vImp(vAnd(lo <= next, next <= hi), vAnd(g.s(id, c) <= next, next <= g.e(id, c))))
	vCover("any")
	vEnsure(vAnd(a == b, g.member(id, b, lo)), "C18.covered-by-one-interval")
}

// If Contains says yes, any interval of the other set is covered.
func prove_C18_contains_true() {
	g, o, sid, j := gset{"set"}, gset{"other"}, symSID("server"), vInt("j")
	id := idOf(sid)
	vAssume(vAnd(o.has(id), o.in(id, j)))
	p := g.place(id, o.e(id, j))
	cov := g.member(id, p, o.s(id, j))
	set, other := g.set(sid), o.set(sid)
	g.touch(set, sid, p-1, p)
	o.touch(other, sid, j)
	vLoop("replication.(Mysql56GTIDSet).Contains", 0, func() {
		vInv(vImp(vVisited(sid), cov), "covered-so-far")
	})
	inner := func(at int, cur SID) bool {
		if cur == sid {
			return vImp(j < at, cov)
		}
		return vImp(vVisited(sid), cov)
	}
	// the parameter sid is the server the function is at
	vLoop("replication.(Mysql56GTIDSet).Contains", 1, func(rangeindex int, i int, otherIntervals []interval, sid SID) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < len(otherIntervals)), 0 <= i), "bounds")
		vInv(inner(rangeindex+1, sid), "covered-so-far")
	})
	vLoop("replication.(Mysql56GTIDSet).Contains", 2, func(rangeindex int, i int, sid SID) {
		vInv(vAnd(0 <= rangeindex, 0 <= i), "bounds")
		vInv(inner(rangeindex, sid), "covered-so-far")
	})
	vMark()
	vFrame(true)
	r := set.Contains(other)
	vFrame(false)
	vCover("answer")
	vEnsure(vImp(r, cov), "C18.superset-holds")
}

// If every interval of the other set is covered, Contains says yes.
func prove_C18_contains_false() {
	g, o := gset{"set"}, gset{"other"}
	set := g.set()
	// where the j-th interval of the other set is covered
	at := func(id, j int) int { return vUFN("covered", id, j) }
	other := vMapGen(func(k SID) ([]interval, bool) {
		id := idOf(k)
		if !o.has(id) {
			return nil, false
		}
		vAssume(g.has(id))
		return vListDef(o.n(id), func(j int) interval { return o.iv(id, j) }, func(i, j int) bool {
			g.near(id, at(id, i), at(id, j))
			return vAnd(o.canon(id, i, j), vImp(o.in(id, i), g.in(id, at(id, i))),
				vImp(o.in(id, i), vAnd(g.s(id, at(id, i)) <= o.s(id, i), o.e(id, i) <= g.e(id, at(id, i)))))
		}), true
	})
	vLoop("replication.(Mysql56GTIDSet).Contains", 0, func() {})
	vLoop("replication.(Mysql56GTIDSet).Contains", 1, func(rangeindex int, i int, otherIntervals []interval, sid SID) {
		k, id := rangeindex, idOf(sid)
		vInv(vAnd(-1 <= k, vOr(k == -1, k < len(otherIntervals)), 0 <= i), "bounds")
		vTouch(otherIntervals, k)
		vInv(vImp(k == -1, i == 0), "at-the-first")
		vInv(vImp(k >= 0, i == at(id, k)), "at-the-interval-that-covers")
	})
	vLoop("replication.(Mysql56GTIDSet).Contains", 2, func(rangeindex int, i int, otherIntervals []interval, sid SID) {
		k, id := rangeindex, idOf(sid)
		vTouch(otherIntervals, k)
		g.near(id, i, at(id, k))
		vInv(vAnd(0 <= k, 0 <= i), "bounds")
		vInv(i <= at(id, k), "not-beyond-the-one-that-covers")
	})
	vMark()
	vFrame(true)
	r := set.Contains(Mysql56GTIDSet(other))
	vFrame(false)
	vCover("answer")
	vEnsure(r, "C18.superset-is-recognised")
}

// Equal sets have the same representation (the canonical form is unique, lemma
// below), so Equal compares representations. If it says yes, any server of the
// set is in the other set with the same intervals, and there are as many
// servers in both, hence the same.
//
// assume:C18: two finite sets of the same size one of which contains the other are equal (number of servers, Equal)
func prove_C18_equal_true() {
	g, o, sid, j := gset{"set"}, gset{"other"}, symSID("server"), vInt("j")
	id := idOf(sid)
	vAssume(vAnd(g.has(id), g.in(id, j)))
	same := vAnd(o.has(id), g.n(id) == o.n(id), g.s(id, j) == o.s(id, j), g.e(id, j) == o.e(id, j))
	set, other := g.set(sid), o.set(sid)
	vLoop("replication.(Mysql56GTIDSet).Equal", 0, func() {
		vInv(vImp(vVisited(sid), same), "same-so-far")
	})
	mine := sid
	vLoop("replication.(Mysql56GTIDSet).Equal", 1, func(rangeindex int, intervals, otherIntervals []interval, sid SID) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < len(intervals)), len(intervals) == len(otherIntervals)), "bounds")
		if sid == mine {
			vInv(vImp(j <= rangeindex, same), "same-so-far")
		} else {
			vInv(vImp(vVisited(mine), same), "same-so-far")
		}
	})
	vMark()
	vFrame(true)
	r := set.Equal(other)
	vFrame(false)
	vCover("answer")
	vEnsure(vImp(r, vAnd(same, vUFN("set.len") == vUFN("other.len"))), "C18.equal-holds")
}

// If the representations are the same, Equal says yes.
func prove_C18_equal_false() {
	g := gset{"set"}
	a, b := g.set(), g.set()
	vLoop("replication.(Mysql56GTIDSet).Equal", 0, func() {})
	vLoop("replication.(Mysql56GTIDSet).Equal", 1, func(rangeindex int, intervals, otherIntervals []interval) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < len(intervals)), len(intervals) == len(otherIntervals)), "bounds")
	})
	vMark()
	vFrame(true)
	r := a.Equal(b)
	vFrame(false)
	vCover("answer")
	vEnsure(r, "C18.equality-is-recognised")
}

// Two canonical lists that denote the same set are the same: if they agree up
// to interval j and differ there (or one ends), some number is in one only.
func prove_C18_lemma_unique() {
	g, o := gset{"set"}, gset{"other"}
	id, j := vInt("id"), vInt("j")
	vAssume(vAnd(0 <= j, j <= g.n(id), j <= o.n(id)))
	vAssume(vImp(j > 0, vAnd(g.s(id, j-1) == o.s(id, j-1), g.e(id, j-1) == o.e(id, j-1))))
	ing, ino := g.in(id, j), o.in(id, j)
	vAssume(vOr(ing, ino))
	// a number that tells them apart
	gs, ge, os, oe := g.s(id, j), g.e(id, j), o.s(id, j), o.e(id, j)
	w := gs
	if !ing || ino && os < gs {
		w = os
	} else if ing && ino && gs == os {
		if ge < oe {
			w = ge + 1
		} else {
			w = oe + 1
		}
	}
	vAssume(vNot(vAnd(ing, ino, gs == os, ge == oe)))
	k := vInt("k")
	g.near(id, j-1, j, j+1, k)
	o.near(id, j-1, j, j+1, k)
	vCover("differ")
	atG, atO := vAnd(ing, gs <= w, w <= ge), vAnd(ino, os <= w, w <= oe)
	vEnsure(vOr(atG, atO), "C18.canonical-form-unique")
	inside := func(x gset) bool { return vAnd(x.in(id, k), x.s(id, k) <= w, w <= x.e(id, k)) }
	vEnsure(vImp(atG, vNot(inside(o))), "C18.canonical-form-unique")
	vEnsure(vImp(vNot(atG), vNot(inside(g))), "C18.canonical-form-unique")
}

func vNot(c bool) bool { return vImp(c, false) }

// ---- AddGTID

// The union with q: with p intervals below q, q extends the interval before it
// (left), the one after it (right), joins them, or is an interval of its own.
type union struct {
	g           gset
	id, p       int
	q           int64
	left, right bool
}

func (g gset) with(id, p int, q int64) union {
	n := g.n(id)
	return union{g, id, p, q, vAnd(p > 0, g.e(id, p-1) == q-1), vAnd(p < n, g.s(id, p) == q+1)}
}

// After the first i intervals were copied: how many there are, and the j-th.
func (u union) flags(i int) (left, right, single bool) {
	left = vAnd(u.left, i >= u.p)
	right = vAnd(u.right, i > u.p)
	single = vAnd(vNot(u.left), vNot(u.right), i > u.p)
	return
}

func (u union) n(i int) int {
	left, right, single := u.flags(i)
	return vIte(single, i+1, vIte(vAnd(left, right), i-1, i))
}

func (u union) iv(i, j int) interval {
	g, id, p, q := u.g, u.id, u.p, u.q
	left, right, single := u.flags(i)
	switch {
	case left && right && j == p-1:
		return interval{g.s(id, p-1), g.e(id, p)}
	case left && right && j >= p:
		return g.iv(id, j+1)
	case left && j == p-1:
		return interval{g.s(id, p-1), q}
	case !left && right && j == p:
		return interval{q, g.e(id, p)}
	case single && j == p:
		return interval{q, q}
	case single && j > p:
		return g.iv(id, j-1)
	}
	return g.iv(id, j)
}

// done: q has been put somewhere.
func (u union) done(i int) bool {
	return vOr(vAnd(u.left, i >= u.p), i > u.p)
}

// The final list, also when q goes behind all intervals.
func (u union) final() (int, func(j int) interval) {
	n := u.g.n(u.id)
	if u.p == n && !u.left {
		return n + 1, func(j int) interval {
			if j == n {
				return interval{u.q, u.q}
			}
			return u.g.iv(u.id, j)
		}
	}
	return u.n(n), func(j int) interval { return u.iv(n, j) }
}

func prove_C18_addGTID() {
	g, sid, oid, q := gset{"set"}, symSID("server"), symSID("other"), vI64("sequence")
	vAssume(vAnd(1 <= q, q <= gnoMax))
	vAssume(sid != oid)
	id, other := idOf(sid), idOf(oid)
	vAssume(id != other)
	set := g.set(sid, oid)
	p := g.place(id, q)
	g.touch(set, sid, p-1, p)
	member := g.member(id, p, q)
	u := g.with(id, p, q)
	vUse("replication.(Mysql56GTIDSet).ContainsGTID", func(s Mysql56GTIDSet, gtid GTID) bool {
		vEnsure(vAnd(vSameRef(s, set), gtid == GTID(Mysql56GTID{Server: sid, Sequence: q})), "C18.asks-for-the-gtid")
		return member
	})
	un, uiv := u.final()
	listOf := func(id, n int) []interval {
		return vListDef(n, func(j int) interval { return g.iv(id, j) }, nil)
	}
	// the new set so far: what was seen, unless the target is being built
	soFar := func(newSet Mysql56GTIDSet, at SID, inside bool) {
		tgt := vVisited(sid)
		oth := vVisited(oid)
		if inside && at == sid {
			tgt = false
		}
		if inside && at == oid {
			oth = false
		}
		if vMode() == 2 {
			vMapIs(newSet, func(k SID) ([]interval, bool) {
				if k == sid {
					n := g.n(id)
					return vListDef(u.n(n), func(j int) interval { return u.iv(n, j) }, nil), tgt
				}
				if k == oid {
					return listOf(other, g.n(other)), oth
				}
				i := idOf(k)
				return listOf(i, g.n(i)), vBool("copied")
			})
			return
		}
		l, ok := newSet[sid]
		vInv(ok == tgt, "target-when-seen")
		if ok {
			n := g.n(id)
			vInv(vListIs(l, u.n(n), func(j int) interval { return u.iv(n, j) }), "target-list")
		}
		l, ok = newSet[oid]
		vInv(ok == oth, "others-when-seen")
		if ok {
			vInv(vListIs(l, g.n(other), func(j int) interval { return g.iv(other, j) }), "others-copied")
		}
	}
	vLoop("replication.(Mysql56GTIDSet).AddGTID", 0, func(newSet Mysql56GTIDSet, added bool) {
		vInv(added == vAnd(vVisited(sid), u.done(g.n(id))), "added")
		soFar(newSet, sid, false)
	})
	vLoop("replication.(Mysql56GTIDSet).AddGTID", 1, func(rangeindex int, intervals []interval, newIntervals *[]interval, newSet Mysql56GTIDSet, added bool) {
		i := rangeindex + 1
		vInv(vAnd(0 <= i, i <= g.n(id)), "bounds")
		vInv(added == u.done(i), "added")
		vTouch(intervals, i-1)
		f := func(j int) interval { return u.iv(i, j) }
		if vMode() == 2 {
			*newIntervals = vListDef(u.n(i), f, nil)
		} else {
			vInv(vListIs(*newIntervals, u.n(i), f), "list-so-far")
		}
		soFar(newSet, sid, true)
	})
	vMark()
	vFrame(true)
	r := set.AddGTID(Mysql56GTID{Server: sid, Sequence: q})
	vFrame(false)
	r56, ok := r.(Mysql56GTIDSet)
	vEnsure(ok, "C18.same-flavor")
	if !ok {
		return
	}
	lo, has := r56[oid]
	vEnsure(has == g.has(other), "C18.other-servers-kept")
	if has {
		vCover("other-server")
		vEnsure(vListIs(lo, g.n(other), func(j int) interval { return g.iv(other, j) }), "C18.other-servers-kept")
	}
	l, has := r56[sid]
	vEnsure(has, "C18.server-present")
	if !has {
		return
	}
	switch {
	case member:
		vCover("member")
		vEnsure(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "C18.already-in")
	case !g.has(id):
		vCover("new-server")
		vEnsure(vListIs(l, 1, func(j int) interval { return interval{q, q} }), "C18.first-of-its-server")
	default:
		if u.left && u.right {
			vCover("joined")
		}
		vCover("added")
		vEnsure(vListIs(l, un, uiv), "C18.union")
	}
}

// The list AddGTID builds is canonical and denotes the union.
func prove_C18_lemma_union() {
	g := gset{"set"}
	id, q, x, y, m := vInt("id"), vI64("sequence"), vRange("x", 0, 1<<41), vRange("y", 0, 1<<41), vI64("m")
	vAssume(vAnd(1 <= q, q <= gnoMax))
	p := g.place(id, q)
	vAssume(vNot(vAnd(p < g.n(id), g.s(id, p) <= q)))
	u := g.with(id, p, q)
	n, f := u.final()
	vAssume(vAnd(x <= y, y < n))
	g.near(id, p-1, p, x-1, x, x+1, y-1, y, y+1)
	a, b := f(x), f(y)
	vCover("any")
	vEnsure(vAnd(1 <= n, a.start <= a.end, 1 <= a.start, a.end <= gnoMax), "C18.result-canonical")
	vEnsure(vImp(x < y, a.end < b.start-1), "C18.result-canonical")
	// the elements of an interval of the result
	in := func(iv interval) bool { return vAnd(iv.start <= m, m <= iv.end) }
	old := func(k int) bool { return vAnd(g.in(id, k), in(g.iv(id, k))) }
	vEnsure(vImp(in(a), vOr(m == q, old(x-1), old(x), old(x+1))), "C18.result-within-union")
	// the elements of an interval of the set, and q itself
	at := func(k int) bool { return vAnd(0 <= k, k < n, in(f(k))) }
	z := vRange("z", 0, 1<<40)
	vAssume(vOr(old(z), m == q))
	g.near(id, p-1, p, z-1, z, z+1)
	vEnsure(vOr(vAnd(m == q, vOr(at(p-1), at(p))), at(z-1), at(z), at(z+1)), "C18.union-within-result")
}

// The set of a single GTID.
func prove_C18_single() {
	sid, oid, q := symSID("server"), symSID("other"), vI64("sequence")
	vAssume(vAnd(1 <= q, q <= gnoMax, sid != oid))
	set := Mysql56GTID{Server: sid, Sequence: q}.GTIDSet()
	m, ok := set.(Mysql56GTIDSet)
	vEnsure(ok, "C18.single-flavor")
	if ok {
		l, has := m[sid]
		vEnsure(vAnd(has, len(m) == 1), "C18.single")
		if has {
			vEnsure(vListIs(l, 1, func(int) interval { return interval{q, q} }), "C18.single")
		}
		_, has = m[oid]
		vEnsure(!has, "C18.single")
	}
	vCover("single")
}

// ---- the servers of a set, in order

func keyAt(name string, j int) (k SID) {
	for i := range k {
		k[i] = byte(vUFR(name, 0, 255, i, j))
	}
	return
}

func sidLess(a, b SID) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// SIDs returns every server of the set once, in order.
//
// assume:C18: sort.Sort permutes the elements so that no later one is Less than an earlier one (Len, Less and Swap of the list are verified)
func prove_C18_C19_sids() {
	g, sid := gset{"set"}, symSID("server")
	id := idOf(sid)
	set := g.set(sid)
	// where the server is in the list, -1 if it is not
	pos := -1
	fact := func(name string, n, pos int) func(i, j int) bool {
		return func(i, j int) bool {
			k := keyAt(name, i)
			return vImp(vAnd(0 <= i, i < n), vAnd((k == sid) == (i == pos), g.has(idOf(k))))
		}
	}
	vLoop("replication.(Mysql56GTIDSet).SIDs", 0, func(sids *[]SID) {
		if vMode() == 2 {
			n := vRange("servers", 0, 1<<40)
			pos = vInt("position")
			vAssume(vAnd(vImp(vVisited(sid), vAnd(0 <= pos, pos < n)), vImp(vNot(vVisited(sid)), pos == -1)))
			*sids = vListDef(n, func(j int) SID { return keyAt("met", j) }, fact("met", n, pos))
			return
		}
		l := *sids
		at := pos
		if pos < 0 && vVisited(sid) {
			at = len(l) - 1
		}
		vInv(vAnd(vImp(vVisited(sid), vAnd(0 <= at, at < len(l))), vImp(vNot(vVisited(sid)), at == -1)), "position")
		j := vInt("j")
		if 0 <= j && j < len(l) {
			vInv(vAnd((l[j] == sid) == (j == at), g.has(idOf(l[j]))), "elements")
		}
	})
	sorted, final := false, -1
	vUse("@sort.Sort", func(data sort.Interface) {
		l, ok := data.(sidList)
		vEnsure(ok, "C18.C19.sorts-by-server")
		if !ok {
			vStop()
		}
		// a permutation: the server is where it is, if it was
		n := len(l)
		was := vInt("was")
		vAssume(vAnd(0 <= was, was < n))
		for _, i := range []int{was, pos} {
			if 0 <= i && i < n {
				k := l[i]
				vEnsure((k == sid) == (i == pos), "C18.C19.list-of-servers")
				vEnsure(g.has(idOf(k)), "C18.C19.list-of-servers")
			}
		}
		final = vInt("final")
		vAssume(vIte2(pos >= 0, vAnd(0 <= final, final < n), final == -1))
		// sorted("sorted", …) is the order of Less (prove_C18_C19_order)
		vListSet([]SID(l), func(j int) SID { return keyAt("sorted", j) }, fact("sorted", n, final))
		sorted = true
	})
	vMark()
	vFrame(true)
	r := set.SIDs()
	vFrame(false)
	vCover("servers")
	i := vInt("first")
	if len(r) > 1 {
		vEnsure(sorted, "C18.C19.sorted")
	}
	if sorted && 0 <= i && i < len(r) {
		vCover("two")
		vEnsure(r[i] == keyAt("sorted", i), "C18.C19.sorted")
	}
	if 0 <= i && i < len(r) {
		vEnsure(g.has(idOf(r[i])), "C18.C19.only-servers")
		vEnsure(vImp(r[i] == sid, i == final), "C18.C19.once")
	}
	if g.has(id) {
		vCover("server-of-the-set")
		ok := vAnd(0 <= final, final < len(r))
		vEnsure(ok, "C18.C19.every-server")
		if ok {
			vEnsure(r[final] == sid, "C18.C19.every-server")
		}
	}
}

func vIte2(c, a, b bool) bool { return vAnd(vImp(c, a), vImp(vNot(c), b)) }

// The order is that of the bytes; Swap exchanges two elements.
func prove_C18_C19_order() {
	n := vRange("n", 2, 1<<40)
	l := sidList(vListDef(n, func(j int) SID { return keyAt("key", j) }, nil))
	i, j, k := vInt("i"), vInt("j"), vInt("k")
	vAssume(vAnd(0 <= i, i < n, 0 <= j, j < n, 0 <= k, k < n))
	vEnsure(l.Len() == n, "C18.C19.length")
	vEnsure(l.Less(i, j) == sidLess(keyAt("key", i), keyAt("key", j)), "C18.C19.order")
	l.Swap(i, j)
	w := k
	if k == i {
		w = j
	} else if k == j {
		w = i
	}
	vCover("order")
	vEnsure(l[k] == keyAt("key", w), "C18.C19.swap")
}
