package replication

import (
	"bytes"
	"errors"
	"sort"
	"strconv"
)

// Contracts of the texts and encodings of GTIDs and of the MariaDB sets (C19).

// ---- server ids

// The text of a server id: 32 hexadecimal digits in groups of 8-4-4-4-12.
func sidText(sid SID) string {
	const digits = "0123456789abcdef"
	b := []byte{}
	for i, x := range sid {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			b = append(b, '-')
		}
		b = append(b, digits[x>>4], digits[x&15])
	}
	return string(b)
}

func prove_C19_sid() {
	sid := symSID("server")
	s := sid.String()
	vEnsure(vEqS(s, sidText(sid)), "C19.server-id-text")
	vEnsure(len(s) == 36, "C19.server-id-text")
	back, err := ParseSID(s)
	vCover("sid")
	vEnsure(err == nil, "C19.server-id-read-back")
	vEnsure(back == sid, "C19.server-id-read-back")
}

// ---- single GTIDs

func prove_C19_mysqlGTID() {
	sid, q := symSID("server"), vI64("sequence")
	vAssume(q >= 1)
	g := Mysql56GTID{Server: sid, Sequence: q}
	r, err := ParseGTID(g.Flavor(), g.String())
	vCover("gtid")
	vEnsure(err == nil, "C19.gtid-read-back")
	vEnsure(r == GTID(g), "C19.gtid-read-back")
	r, err = DecodeGTID(EncodeGTID(g))
	vEnsure(err == nil, "C19.gtid-decoded")
	vEnsure(r == GTID(g), "C19.gtid-decoded")
	vEnsure(vAnd(g.SourceServer() == interface{}(sid), g.SequenceNumber() == interface{}(q), g.SequenceDomain() == nil), "C19.gtid-parts")
}

func prove_C19_mariadbGTID() {
	g := symMariadb()
	r, err := ParseGTID(g.Flavor(), g.String())
	vCover("gtid")
	vEnsure(err == nil, "C19.gtid-read-back")
	vEnsure(r == GTID(g), "C19.gtid-read-back")
	r, err = DecodeGTID(EncodeGTID(g))
	vEnsure(err == nil, "C19.gtid-decoded")
	vEnsure(r == GTID(g), "C19.gtid-decoded")
}

func prove_C19_noGTID() {
	r, err := DecodeGTID(EncodeGTID(nil))
	vCover("nil")
	vEnsure(vAnd(r == nil, err == nil), "C19.nil-gtid")
}

// ---- GTID events

func prove_C19_mysqlGTIDEvent() {
	buf, f, h := symBody(25)
	ev := NewMysql56BinlogEvent(buf)
	vFrame(true)
	g, begin, err := ev.GTID(f)
	vFrame(false)
	vCover("gtid")
	var sid SID
	copy(sid[:], buf[h+1:h+17])
	vEnsure(vAnd(err == nil, !begin), "C19.event-decodes")
	vEnsure(g == GTID(Mysql56GTID{Server: sid, Sequence: int64(le(buf, h+17, 8))}), "C19.event-gtid")
}

func prove_C19_mariadbGTIDEvent() {
	buf, f, h := symBody(13)
	ev := NewMariadbBinlogEvent(buf)
	vFrame(true)
	g, begin, err := ev.GTID(f)
	vFrame(false)
	vCover("gtid")
	vEnsure(err == nil, "C19.event-decodes")
	vEnsure(begin == (buf[h+12]%2 == 0), "C19.event-begins-a-transaction")
	vEnsure(g == GTID(MariadbGTID{Sequence: le(buf, h, 8), Domain: uint32(le(buf, h+8, 4)), Server: uint32(le(buf, 5, 4))}), "C19.event-gtid")
}

func prove_C19_previousGTIDs() {
	buf, f, h := symBody(8)
	ev := NewMysql56BinlogEvent(buf)
	g := gset{"set"}
	set := g.set()
	fails := vBool("malformed")
	vUse("replication.NewMysql56GTIDSetFromSIDBlock", func(data []byte) (Mysql56GTIDSet, error) {
		vEnsure(vEqB(data, buf[h:]), "C19.event-body")
		if fails {
			return nil, errSpec
		}
		return set, nil
	})
	s, err := ev.PreviousGTIDs(f)
	if fails {
		vCover("malformed")
		vEnsure(err != nil, "C19.event-malformed")
		return
	}
	vCover("set")
	m, ok := s.(Mysql56GTIDSet)
	vEnsure(vAnd(err == nil, ok), "C19.event-decodes")
	if ok {
		vEnsure(vSameRef(m, set), "C19.event-set")
	}
}

var errSpec = errors.New("error of the contract")

// ---- the text of a MySQL 5.6 set
//
// The servers in order, separated by commas; after each its intervals, each
// after a colon: the start, and if it differs, a hyphen and the end.

func ivText(iv interval) string {
	s := ":" + strconv.FormatInt(iv.start, 10)
	if iv.start != iv.end {
		s += "-" + strconv.FormatInt(iv.end, 10)
	}
	return s
}

func ownSID(id int) string { return vUFS("sidText", id) }

func prove_C19_setString() {
	g := gset{"set"}
	set := g.set()
	n := vRange("servers", 0, 1<<40)
	use_sids(g, set, n)
	vUse("replication.(SID).String", func(s SID) string { return ownSID(idOf(s)) })
	last, cur, lastIv, ivs := "", -1, "", -1
	sep := func() string {
		if cur > 0 {
			return ","
		}
		return ""
	}
	// after the servers before rangeindex+1
	vLoop("replication.(Mysql56GTIDSet).String", 0, func(rangeindex int, buf *bytes.Buffer) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < n)), "server")
		switch vMode() {
		case 1:
			vEnsure(vEqS(buf.String(), ""), "C19.set-text-begins")
		case 2:
			cur = rangeindex + 1
			last = ""
			if cur > 0 {
				last = vString("servers-before")
			}
			*buf = bytes.Buffer{}
			buf.WriteString(last)
		case 3:
			vEnsure(rangeindex == cur, "C19.set-text-every-server")
			vEnsure(ivs == g.n(idOf(keyAt("servers", cur))), "C19.set-text-every-interval")
			vEnsure(vEqS(buf.String(), lastIv), "C19.set-text-server")
		}
	})
	vLoop("replication.(Mysql56GTIDSet).String", 1, func(rangeindex int, buf *bytes.Buffer) {
		id := idOf(keyAt("servers", cur))
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n(id))), "interval")
		switch vMode() {
		case 1:
			vEnsure(vEqS(buf.String(), last+sep()+ownSID(id)), "C19.set-text-server")
		case 2:
			ivs = rangeindex + 1
			lastIv = last + sep() + ownSID(id)
			if ivs > 0 {
				lastIv = vString("intervals-before")
			}
			*buf = bytes.Buffer{}
			buf.WriteString(lastIv)
		case 3:
			vEnsure(rangeindex == ivs, "C19.set-text-every-interval")
			vEnsure(vEqS(buf.String(), lastIv+ivText(g.iv(id, ivs))), "C19.set-text-interval")
		}
	})
	vMark()
	vFrame(true)
	s := set.String()
	vFrame(false)
	vCover("text")
	vEnsure(vAnd(cur == n, vEqS(s, last)), "C19.set-text")
}

// The contract of SIDs, for its callers (prove_C18_C19_sids).
func use_sids(g gset, set Mysql56GTIDSet, n int) {
	vUse("replication.(Mysql56GTIDSet).SIDs", func(s Mysql56GTIDSet) []SID {
		vEnsure(vSameRef(s, set), "C19.servers-of-the-set")
		return vListDef(n, func(j int) SID { return keyAt("servers", j) }, func(i, j int) bool {
			return vAnd(vImp(vAnd(0 <= i, i < n), g.has(idOf(keyAt("servers", i)))))
		})
	})
}

// An interval's text, without the colon, read back.
func prove_C19_interval() {
	iv := interval{vI64("start"), vI64("end")}
	vAssume(vAnd(1 <= iv.start, iv.start <= iv.end))
	back, err := parseInterval(ivText(iv)[1:])
	vCover("interval")
	vEnsure(err == nil, "C19.interval-read-back")
	vEnsure(back == iv, "C19.interval-read-back")
}

// Reading the text of a set. A piece is what stands between two commas: the
// text of a server id and of its intervals, with colons in between. None of
// the parts contains a comma, a colon or white space (they are made of
// hexadecimal digits and hyphens).
//
// assume:C19: strings.Split gives back the parts of a text joined with the separator if no part contains it, strings.TrimSpace leaves a text alone that has no white space
// assume:C19: sort.Sort leaves a list alone in which each element is Less than the next
func prove_C19_setParse() {
	g, sid := gset{"set"}, symSID("server")
	n, pos, id := vRange("servers", 1, 1<<40), vInt("position"), idOf(sid)
	vAssume(vAnd(-1 <= pos, pos < n))
	server := func(i int) (SID, int) {
		k := keyAt("servers", i)
		vAssume((k == sid) == (i == pos))
		return k, idOf(k)
	}
	text := vUFS("setText")
	cur, part := 0, 0
	piece := func() string { return vUFS("piece", cur) }
	own := func() (SID, int) { return server(cur) }
	vUse("@strings.Split", func(s, sep string) []string {
		if sep == "," {
			vRequire(vEqS(s, text))
			return vListDef(n, func(j int) string { return vUFS("piece", j) }, nil)
		}
		vRequire(vAnd(sep == ":", vEqS(s, piece())))
		_, id := own()
		return vListDef(g.n(id)+1, func(j int) string {
			if j == 0 {
				return ownSID(id)
			}
			return vUFS("ivText", id, j-1)
		}, nil)
	})
	vUse("@strings.TrimSpace", func(s string) string {
		vRequire(vEqS(s, piece()))
		return s
	})
	vUse("replication.ParseSID", func(s string) (SID, error) {
		k, id := own()
		vEnsure(vEqS(s, ownSID(id)), "C19.server-of-the-piece")
		return k, nil
	})
	vUse("replication.parseInterval", func(s string) (interval, error) {
		_, id := own()
		vEnsure(vEqS(s, vUFS("ivText", id, part)), "C19.interval-of-the-piece")
		return g.iv(id, part), nil
	})
	vUse("@sort.Sort", func(data sort.Interface) {
		_, id := own()
		l, ok := data.(intervalList)
		vRequire(ok)
		vRequire(vListIs([]interval(l), g.n(id), func(j int) interval { return g.iv(id, j) }))
	})
	vLoop("replication.parseMysql56GTIDSet", 0, func(rangeindex int, set Mysql56GTIDSet) {
		i := rangeindex + 1
		vInv(vAnd(0 <= i, i <= n), "piece")
		done := vAnd(0 <= pos, pos < i)
		if vMode() == 2 {
			cur = i
			vAssume(len(piece()) > 0)
			vMapIs(set, func(k SID) ([]interval, bool) {
				if k == sid {
					return g.list(id), done
				}
				x := idOf(k)
				return g.list(x), vBool("read")
			})
			return
		}
		l, ok := set[sid]
		vInv(ok == done, "servers-so-far")
		if ok {
			vInv(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "intervals")
		}
	})
	vLoop("replication.parseMysql56GTIDSet", 1, func(rangeindex int, intervals *[]interval) {
		i, iv := rangeindex+1, func(j int) interval { _, id := own(); return g.iv(id, j) }
		_, id := own()
		vInv(vAnd(0 <= i, i <= g.n(id)), "interval")
		if vMode() == 2 {
			part = i
			g.near(id, i)
			*intervals = vListDef(i, iv, nil)
		} else {
			vInv(vListIs(*intervals, i, iv), "intervals-so-far")
		}
	})
	r, err := gtidSetParsers[(Mysql56GTIDSet)(nil).Flavor()](text)
	vCover("read")
	vEnsure(err == nil, "C19.set-read-back")
	set, ok := r.(Mysql56GTIDSet)
	vEnsure(ok, "C19.set-read-back")
	if !ok {
		return
	}
	l, ok := set[sid]
	vEnsure(ok == (pos >= 0), "C19.set-read-back")
	if ok {
		vCover("server")
		vEnsure(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "C19.set-read-back")
	}
}

// The order of intervals is that of their starts; Swap exchanges two of them.
func prove_C19_interval_order() {
	n := vRange("n", 2, 1<<40)
	key := func(j int) interval {
		return interval{start: int64(vUFI("start", j)), end: int64(vUFI("end", j))}
	}
	l := intervalList(vListDef(n, key, nil))
	i, j, k := vInt("i"), vInt("j"), vInt("k")
	vAssume(vAnd(0 <= i, i < n, 0 <= j, j < n, 0 <= k, k < n))
	vAssume(vImp(i != j, key(i).start != key(j).start)) // disjoint intervals
	vEnsure(l.Len() == n, "C19.length")
	vEnsure(l.Less(i, j) == (key(i).start < key(j).start), "C19.interval-order")
	l.Swap(i, j)
	w := k
	if k == i {
		w = j
	} else if k == j {
		w = i
	}
	vCover("order")
	vEnsure(l[k] == key(w), "C19.interval-swap")
}

// ---- the SID block of a MySQL 5.6 set
//
// The number of servers; for each in order its id, the number of its intervals,
// and their starts and ends plus one; numbers take 8 bytes, lowest first.

func le64(v int) string {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(uint64(v) >> (8 * i))
	}
	return string(b)
}

func prove_C19_block() {
	g := gset{"set"}
	set := g.set()
	n := len(set)
	vAssume(n < 1<<40)
	use_sids(g, set, n)
	last, cur, lastIv, ivs := "", -1, "", -1
	own := func() SID { return keyAt("servers", cur) }
	head := func() string {
		k := own()
		return last + string(k[:]) + le64(g.n(idOf(k)))
	}
	vLoop("replication.(Mysql56GTIDSet).SIDBlock", 0, func(rangeindex int, buf *bytes.Buffer) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < n)), "server")
		switch vMode() {
		case 1:
			vEnsure(vEqS(buf.String(), le64(n)), "C19.block-number-of-servers")
		case 2:
			cur = rangeindex + 1
			last = le64(n)
			if cur > 0 {
				last = vString("servers-before")
			}
			*buf = bytes.Buffer{}
			buf.WriteString(last)
		case 3:
			vEnsure(rangeindex == cur, "C19.block-every-server")
			vEnsure(ivs == g.n(idOf(own())), "C19.block-every-interval")
			vEnsure(vEqS(buf.String(), lastIv), "C19.block-server")
		}
	})
	vLoop("replication.(Mysql56GTIDSet).SIDBlock", 1, func(rangeindex int, buf *bytes.Buffer) {
		id := idOf(own())
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n(id))), "interval")
		switch vMode() {
		case 1:
			vEnsure(vEqS(buf.String(), head()), "C19.block-server")
		case 2:
			ivs = rangeindex + 1
			lastIv = head()
			if ivs > 0 {
				lastIv = vString("intervals-before")
			}
			*buf = bytes.Buffer{}
			buf.WriteString(lastIv)
		case 3:
			vEnsure(rangeindex == ivs, "C19.block-every-interval")
			vEnsure(vEqS(buf.String(), lastIv+le64(int(g.s(id, ivs)))+le64(int(g.e(id, ivs))+1)), "C19.block-interval")
		}
	})
	vMark()
	vFrame(true)
	b := set.SIDBlock()
	vFrame(false)
	vCover("block")
	vEnsure(vAnd(cur == n, vEqB(b, []byte(last))), "C19.block")
}

// Reading a block. server(i) begins at off(i).
func prove_C19_fromBlock() {
	g, sid := gset{"set"}, symSID("server")
	data := vBytes("block")
	n, pos, id := vRange("servers", 0, 1<<30), vInt("position"), idOf(sid)
	vAssume(vAnd(-1 <= pos, pos < n))
	off := func(i int) int { return vUFR("off", 8, 1<<40, i) }
	vAssume(vAnd(off(0) == 8, off(n) == len(data), len(data) >= 8))
	vAssume(le(data, 0, 8) == uint64(n))
	cur := 0
	// the facts about server i
	server := func(i int) (SID, int) {
		k := keyAt("servers", i)
		x := idOf(k)
		vAssume((k == sid) == (i == pos))
		return k, x
	}
	laid := func(i int) {
		_, x := server(i)
		vAssume(off(i+1) == off(i)+24+16*g.n(x))
		vAssume(off(i+1) <= off(n))
		for j, b := range keyAt("servers", i) {
			vAssume(data[off(i)+j] == b)
		}
		vAssume(le(data, off(i)+16, 8) == uint64(g.n(x)))
	}
	vLoop("replication.NewMysql56GTIDSetFromSIDBlock", 0, func(i uint64, nSIDs uint64, buf *bytes.Reader, set Mysql56GTIDSet) {
		k := int(i)
		vInv(vAnd(i <= uint64(n), nSIDs == uint64(n)), "server")
		vInv(buf.Len() == len(data)-off(k), "at-the-server")
		done := vAnd(0 <= pos, pos < k)
		if vMode() == 2 {
			cur = k
			if k < n {
				laid(k)
			}
			vMapIs(set, func(key SID) ([]interval, bool) {
				if key == sid {
					return g.list(id), done
				}
				return g.list(idOf(key)), vAnd(key != keyAt("servers", cur), vBool("read"))
			})
			return
		}
		l, ok := set[sid]
		vInv(ok == done, "servers-so-far")
		if ok {
			vInv(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "intervals")
		}
	})
	vLoop("replication.NewMysql56GTIDSetFromSIDBlock", 1, func(j, nIntervals uint64, buf *bytes.Reader, set Mysql56GTIDSet) {
		_, x := server(cur)
		m := int(j)
		here := off(cur) + 24 + 16*m
		vInv(vAnd(j <= nIntervals, nIntervals == uint64(g.n(x))), "interval")
		vInv(buf.Len() == len(data)-here, "at-the-interval")
		done := vAnd(0 <= pos, pos < cur)
		own := pos == cur
		if vMode() == 2 {

			if m < g.n(x) {
				vAssume(vAnd(here+16 <= off(cur+1), le(data, here, 8) == uint64(g.s(x, m)), le(data, here+8, 8) == uint64(g.e(x, m)+1)))
			}
			vMapIs(set, func(key SID) ([]interval, bool) {
				y := idOf(key)
				if key == keyAt("servers", cur) {
					return vListDef(m, func(j int) interval { return g.iv(y, j) }, nil), m > 0
				}
				if key == sid {
					return g.list(id), done
				}
				return g.list(y), vBool("read")
			})
			return
		}
		l, ok := set[sid]
		switch {
		case own:
			vInv(ok == (m > 0), "server-being-read")
			if ok {
				vInv(vListIs(l, m, func(j int) interval { return g.iv(id, j) }), "intervals-so-far")
			}
		default:
			vInv(ok == done, "servers-so-far")
			if ok {
				vInv(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "intervals")
			}
		}
	})
	vMark()
	vFrame(true)
	set, err := NewMysql56GTIDSetFromSIDBlock(data)
	vFrame(false)
	vCover("read")
	vEnsure(err == nil, "C19.block-read-back")
	l, ok := set[sid]
	vEnsure(ok == (pos >= 0), "C19.block-read-back")
	if ok {
		vCover("server")
		vEnsure(vListIs(l, g.n(id), func(j int) interval { return g.iv(id, j) }), "C19.block-read-back")
	}
}

// ---- MariaDB sets
//
// A set is a list of positions, one per domain.

type mset struct{ name string }

func (g mset) n() int { return vUFR(g.name+".n", 0, 1<<40) }
func (g mset) at(i int) MariadbGTID {
	return MariadbGTID{
		Domain:   uint32(vUFR(g.name+".domain", 0, 1<<32-1, i)),
		Server:   uint32(vUFR(g.name+".server", 0, 1<<32-1, i)),
		Sequence: vUFU(g.name+".sequence", i),
	}
}

// set: the set; domain is that of member pos, or of none.
func (g mset) set(domain uint32, pos int) MariadbGTIDSet {
	return MariadbGTIDSet(vListDef(g.n(), g.at, g.facts(domain, pos)))
}

func (g mset) facts(domain uint32, pos int) func(i, j int) bool {
	return func(i, j int) bool {
		in := vAnd(0 <= i, i < g.n(), 0 <= j, j < g.n())
		return vImp(in, vAnd((g.at(i).Domain == g.at(j).Domain) == (i == j), (g.at(i).Domain == domain) == (i == pos)))
	}
}

func symMariadb() MariadbGTID {
	return MariadbGTID{Domain: vU32("domain"), Server: vU32("server"), Sequence: vU64("sequence")}
}

func prove_C19_mariadbContainsGTID() {
	g, x := mset{"set"}, symMariadb()
	pos := vInt("position")
	vAssume(vAnd(-1 <= pos, pos < g.n()))
	set := g.set(x.Domain, pos)
	vTouch([]MariadbGTID(set), pos)
	vLoop("replication.(MariadbGTIDSet).ContainsGTID", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n()), vImp(pos >= 0, rangeindex < pos)), "before-its-domain")
	})
	vMark()
	vFrame(true)
	r := set.ContainsGTID(x)
	vFrame(false)
	vCover("answer")
	vEnsure(r == vAnd(pos >= 0, g.at(pos).Sequence >= x.Sequence), "C19.mariadb-membership")
}

func prove_C19_mariadbContains() {
	g, o, j := mset{"set"}, mset{"other"}, vInt("j")
	vAssume(vAnd(0 <= j, j < o.n()))
	set, other := g.set(0, vInt("zero-domain")), o.set(0, vInt("zero-domain-of-other"))
	all := vBool("all")
	k := 0
	in := func(k int) bool { return vOr(all, vUFB("in", k)) }
	vUse("replication.(MariadbGTIDSet).ContainsGTID", func(s MariadbGTIDSet, x GTID) bool {
		vEnsure(vSameRef(s, set), "C19.mariadb-asks-the-set")
		vEnsure(x == GTID(o.at(k)), "C19.mariadb-asks-for-each")
		return in(k)
	})
	vLoop("replication.(MariadbGTIDSet).Contains", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < o.n())), "bounds")
		vInv(vImp(j <= rangeindex, in(j)), "contained-so-far")
		k = rangeindex + 1
	})
	vMark()
	vFrame(true)
	r := set.Contains(other)
	vFrame(false)
	vCover("answer")
	vEnsure(vImp(r, in(j)), "C19.mariadb-superset-holds")
	vEnsure(vImp(all, r), "C19.mariadb-superset-is-recognised")
}

func prove_C19_mariadbEqual() {
	g, o, j := mset{"set"}, mset{"other"}, vInt("j")
	vAssume(vAnd(0 <= j, j < g.n()))
	set, other := g.set(0, vInt("zero-domain")), o.set(0, vInt("zero-domain-of-other"))
	same := vAnd(g.n() == o.n(), g.at(j) == o.at(j))
	vLoop("replication.(MariadbGTIDSet).Equal", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n()), g.n() == o.n()), "bounds")
		vInv(vImp(j <= rangeindex, same), "same-so-far")
	})
	vMark()
	vFrame(true)
	r := set.Equal(other)
	vFrame(false)
	vCover("answer")
	vEnsure(vImp(r, same), "C19.mariadb-equal-holds")
}

func prove_C19_mariadbEqualItself() {
	g := mset{"set"}
	set, other := g.set(0, vInt("zero-domain")), g.set(0, vInt("zero-domain-again"))
	vLoop("replication.(MariadbGTIDSet).Equal", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n())), "bounds")
	})
	vMark()
	vFrame(true)
	r := set.Equal(other)
	vFrame(false)
	vCover("answer")
	vEnsure(r, "C19.mariadb-equality-is-recognised")
}

func prove_C19_mariadbOtherFlavor() {
	g := mset{"set"}
	set := g.set(0, vInt("zero-domain"))
	vMark()
	vFrame(true)
	vEnsure(!set.ContainsGTID(Mysql56GTID{}), "C19.mariadb-foreign-gtid-not-in")
	vEnsure(!set.Contains(Mysql56GTIDSet{}), "C19.mariadb-foreign-set-not-in")
	vEnsure(!set.Equal(Mysql56GTIDSet{}), "C19.mariadb-foreign-set-not-equal")
	r := set.AddGTID(Mysql56GTID{})
	vFrame(false)
	r2, ok := r.(MariadbGTIDSet)
	vEnsure(ok, "C19.mariadb-foreign-gtid-changes-nothing")
	if ok {
		vEnsure(vListIs([]MariadbGTID(r2), g.n(), g.at), "C19.mariadb-foreign-gtid-changes-nothing")
	}
	vCover("foreign")
}

// Adding: the position of the domain moves forward, never back; a new domain is
// put at the end. What existed before is not written to (the frame), which
// includes spare room behind the set's elements.
func prove_C19_mariadbAddGTID() {
	g, x := mset{"set"}, symMariadb()
	pos := vInt("position")
	vAssume(vAnd(-1 <= pos, pos < g.n()))
	set := g.set(x.Domain, pos)
	vTouch([]MariadbGTID(set), pos)
	vLoop("replication.(MariadbGTIDSet).AddGTID", 0, func(rangeindex int) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n()), vImp(pos >= 0, rangeindex < pos)), "before-its-domain")
	})
	vMark()
	vFrame(true)
	r := set.AddGTID(x)
	vFrame(false)
	r2, ok := r.(MariadbGTIDSet)
	vEnsure(ok, "C19.mariadb-add-flavor")
	if !ok {
		return
	}
	l := []MariadbGTID(r2)
	switch {
	case pos < 0:
		vCover("new-domain")
		vEnsure(vListIs(l, g.n()+1, func(j int) MariadbGTID {
			if j == g.n() {
				return x
			}
			return g.at(j)
		}), "C19.mariadb-new-domain")
	case x.Sequence > g.at(pos).Sequence:
		vCover("forward")
		vEnsure(vListIs(l, g.n(), func(j int) MariadbGTID {
			if j == pos {
				return x
			}
			return g.at(j)
		}), "C19.mariadb-moves-forward")
	default:
		vCover("behind")
		vEnsure(vListIs(l, g.n(), g.at), "C19.mariadb-never-back")
	}
	vEnsure(vListIs([]MariadbGTID(set), g.n(), g.at), "C19.mariadb-original-unaltered")
}

func prove_C19_mariadbSingle() {
	x := symMariadb()
	s, ok := x.GTIDSet().(MariadbGTIDSet)
	vCover("single")
	vEnsure(ok, "C19.mariadb-single")
	if ok {
		vEnsure(vListIs([]MariadbGTID(s), 1, func(int) MariadbGTID { return x }), "C19.mariadb-single")
	}
}

// The text of a set: those of the members, in order, with commas in between.
func prove_C19_mariadbString() {
	g := mset{"set"}
	vAssume(g.n() >= 1)
	set := g.set(0, vInt("zero-domain"))
	k := 0
	text := func(j int) string { return vUFS("gtidText", j) }
	vUse("replication.(MariadbGTID).String", func(x MariadbGTID) string {
		vEnsure(x == g.at(k), "C19.mariadb-text-of-each")
		return text(k)
	})
	vUse("@strings.Join", func(l []string, sep string) string {
		vEnsure(vAnd(vListIs(l, g.n(), text), sep == ","), "C19.mariadb-joined-with-commas")
		return vUFS("setText")
	})
	vLoop("replication.(MariadbGTIDSet).String", 0, func(rangeindex int, s []string) {
		k = rangeindex + 1
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n())), "bounds")
		f := func(j int) string {
			if j <= rangeindex {
				return text(j)
			}
			return ""
		}
		if vMode() == 2 {
			vListSet(s, f, nil)
		}
		vInv(vListIs(s, g.n(), f), "texts-so-far")
	})
	vMark()
	vFrame(true)
	s := set.String()
	vFrame(false)
	vCover("text")
	vEnsure(vEqS(s, vUFS("setText")), "C19.mariadb-set-text")
}

// Reading it back; and a text with two positions for a domain is refused.
func prove_C19_mariadbParse() {
	g := mset{"set"}
	vAssume(g.n() >= 1)
	first, again := vInt("first"), vInt("again")
	dup := vBool("duplicate")
	vAssume(vImp(dup, vAnd(0 <= first, first < again, again < g.n(), g.at(first).Domain == g.at(again).Domain)))
	distinct := func(i, j int) bool {
		in := vAnd(0 <= i, i < g.n(), 0 <= j, j < g.n())
		return vImp(vAnd(in, vNot(dup)), (g.at(i).Domain == g.at(j).Domain) == (i == j))
	}
	k := 0
	text := func(j int) string { return vUFS("gtidText", j) }
	vUse("@strings.Split", func(s, sep string) []string {
		vRequire(vAnd(sep == ",", vEqS(s, vUFS("setText"))))
		return vListDef(g.n(), text, nil)
	})
	vUse("replication.parseMariadbGTID", func(s string) (GTID, error) {
		vEnsure(vEqS(s, text(k)), "C19.mariadb-reads-each")
		return g.at(k), nil
	})
	sofar := func(k int) func(j int) MariadbGTID {
		return func(j int) MariadbGTID {
			if j < k {
				return g.at(j)
			}
			return MariadbGTID{}
		}
	}
	vLoop("replication.parseMariadbGTIDSet", 0, func(rangeindex int, gtidSet MariadbGTIDSet) {
		k = rangeindex + 1
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < g.n()), vImp(dup, rangeindex < again)), "bounds")
		if vMode() == 2 {
			vListSet([]MariadbGTID(gtidSet), sofar(k), distinct)
		}
		vInv(vListIs([]MariadbGTID(gtidSet), g.n(), sofar(k)), "read-so-far")
	})
	vLoop("replication.parseMariadbGTIDSet", 1, func(rangeindex int, gtidSet MariadbGTIDSet) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < k)), "bounds")
		vInv(vImp(vAnd(dup, k == again), rangeindex < first), "before-the-duplicate")
	})
	r, err := gtidSetParsers[(MariadbGTIDSet)(nil).Flavor()](vUFS("setText"))
	if dup {
		vCover("duplicate")
		vEnsure(err != nil, "C19.mariadb-one-position-per-domain")
		return
	}
	vCover("read")
	vEnsure(err == nil, "C19.mariadb-set-read-back")
	set, ok := r.(MariadbGTIDSet)
	vEnsure(ok, "C19.mariadb-set-read-back")
	if ok {
		vEnsure(vListIs([]MariadbGTID(set), g.n(), g.at), "C19.mariadb-set-read-back")
	}
}
