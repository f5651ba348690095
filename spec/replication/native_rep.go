package replication

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// ---- cells (C10-C14)

func nxTryCell(r *vRng, c nxCol) {
	v := c.gen(r)
	pre, post := r.bytes(r.Intn(5)), r.bytes(r.Intn(5))
	data := append(append(append([]byte{}, pre...), v.enc...), post...)
	keep := append([]byte{}, data...)
	r.note("%v %x", c, v.enc[:min(len(v.enc), 40)])
	out, l, err := CellBytes(data, len(pre), c.typ, c.meta, c.unsigned)
	r.check(err == nil, "cell.noerror", "%v: %v", c, err)
	r.check(l == len(v.enc), "cell.length", "%v: consumed %d of %d bytes, cell %x", c, l, len(v.enc), v.enc[:min(len(v.enc), 60)])
	why := v.verify(out)
	r.check(why == "", "cell.value", "%v: cell %x: %s", c, v.enc[:min(len(v.enc), 60)], why)
	r.check(bytes.Equal(data, keep), "cell.frame", "%v: the event buffer was written to", c)
	n, err := cellLength(data, len(pre), c.typ, c.meta)
	r.check(err == nil && n == len(v.enc), "cell.lengthrule", "%v: length rule says %d (%v), cell has %d bytes", c, n, err, len(v.enc))
}

func search_C10_cells(r *vRng) { nxTryCell(r, nxNumericCol(r)) }
func search_C11_cells(r *vRng) { nxTryCell(r, nxDecimalAnyCol(r)) }
func search_C12_cells(r *vRng) { nxZone(r); nxTryCell(r, nxTemporalCol(r)) }
func search_C13_cells(r *vRng) { nxTryCell(r, nxStringCol(r)) }

func search_C14_docs(r *vRng) {
	depth, fan := r.Intn(7), []int{2, 4, 8, 40}[r.Intn(4)]
	if fan == 40 && depth > 2 {
		depth = 2
	}
	d := nxJSONDoc(r, depth, fan)
	if r.oneIn(60) { // larger than 64KB
		for i := 0; i < 5; i++ {
			d.kids = append(d.kids, &nxJSON{kind: "string", s: nxJSONText(r, 15000)})
			if d.kind == "object" {
				d.keys = append(d.keys, fmt.Sprintf("big%d", i))
			}
		}
		if d.kind != "object" {
			d.kind = "array"
		}
	}
	b := d.encode(r.oneIn(4))
	p := 1
	for 1<<(8*uint(p)) <= len(b) {
		p++
	}
	p += r.Intn(5 - p)
	c := nxCol{kind: "json", typ: 245, meta: uint16(p), gen: func(*vRng) nxVal {
		return nxVal{enc: append(nxLE(uint64(len(b)), p), b...), check: func(got []byte) string { return d.checkText(string(got)) }}
	}}
	nxTryCell(r, c)
}

// ---- rows (C09)

func search_C09_rows(r *vRng) {
	c := nxNewConf(r)
	c.extra = []int{0, 0, 0, 1, 8}[r.Intn(5)]
	nxZone(r)
	max := 12
	if r.oneIn(12) {
		max = 300
	}
	t := nxNewTable(r, max, nxAnyCol)
	kind := r.Intn(3)
	presB, presA, rows := nxMakeRows(r, t, kind, 1+r.upto(6))
	body := c.rowsBody(kind, t.id, t.flags, len(t.cols), presB, presA, rows)
	raw := c.event(nxHdr{typ: c.rowsType(kind)}, body, false)
	keep := append([]byte{}, raw...)
	tm := &TableMap{Database: t.db, Name: t.name}
	for _, x := range t.cols {
		tm.Types = append(tm.Types, x.typ)
		tm.Metadata = append(tm.Metadata, x.meta)
	}
	f := BinlogFormat{FormatVersion: 4, HeaderLength: byte(19 + c.extra), HeaderSizes: c.headerSizes()}
	r.note("v2=%v id4=%v kind=%d cols=%v pres=%v/%v rows=%d", c.v2, c.id4, kind, t.cols, presB, presA, len(rows))
	ev := NewMysql56BinlogEvent(raw)
	got, err := ev.Rows(f, tm)
	r.check(err == nil, "rows.noerror", "%v", err)
	r.check(bytes.Equal(raw, keep), "rows.frame", "the event buffer was written to")
	r.check(got.Flags == t.flags, "rows.flags", "flags %d want %d", got.Flags, t.flags)
	r.check(len(got.Rows) == len(rows), "rows.count", "%d rows, %d encoded", len(got.Rows), len(rows))
	bm := func(what string, b *Bitmap, want []bool) {
		r.check(b.Count() == len(want), "rows.bitmap", "%s: %d bits want %d", what, b.Count(), len(want))
		n := 0
		for i, w := range want {
			r.check(b.Bit(i) == w, "rows.bitmap", "%s: bit %d is %v", what, i, b.Bit(i))
			if w {
				n++
			}
		}
		r.check(b.BitCount() == n, "rows.bitmap", "%s: %d bits set, want %d", what, b.BitCount(), n)
	}
	if kind != nxWrite {
		bm("identify columns", &got.IdentifyColumns, presB)
	} else {
		r.check(got.IdentifyColumns.Count() == 0, "rows.bitmap", "a write has identify columns")
	}
	if kind != nxDelete {
		bm("data columns", &got.DataColumns, presA)
	} else {
		r.check(got.DataColumns.Count() == 0, "rows.bitmap", "a delete has data columns")
	}
	img := func(i int, what string, nulls *Bitmap, data []byte, cells []nxCell) {
		if cells == nil {
			r.check(nulls.Count() == 0 && len(data) == 0, "rows.image", "row %d has a %s image", i, what)
			return
		}
		var bits []bool
		for _, x := range cells {
			if !x.absent {
				bits = append(bits, x.null)
			}
		}
		_, enc := nxImage(cells, false)
		bm(fmt.Sprintf("row %d %s nulls", i, what), nulls, bits)
		r.check(bytes.Equal(data, enc), "rows.image", "row %d %s image: got %x want %x", i, what, data[:min(len(data), 100)], enc[:min(len(enc), 100)])
		// decoding column by column consumes the image
		p := 0
		for k, x := range cells {
			if x.absent || x.null {
				continue
			}
			out, l, err := CellBytes(data, p, tm.Types[k], tm.Metadata[k], t.cols[k].unsigned)
			r.check(err == nil, "rows.decode", "row %d column %d: %v", i, k, err)
			why := x.v.verify(out)
			r.check(why == "" && l == len(x.v.enc), "rows.decode", "row %d column %d %v: consumed %d of %d; %s", i, k, t.cols[k], l, len(x.v.enc), why)
			p += l
		}
		r.check(p == len(data), "rows.consume", "row %d: %d of %d bytes consumed", i, p, len(data))
	}
	for i := range rows {
		img(i, "before", &got.Rows[i].NullIdentifyColumns, got.Rows[i].Identify, rows[i].before)
		img(i, "after", &got.Rows[i].NullColumns, got.Rows[i].Data, rows[i].after)
	}
}

// ---- table maps (C15)

func search_C15_tablemap(r *vRng) {
	c := nxNewConf(r)
	c.extra = []int{0, 0, 0, 1, 8}[r.Intn(5)]
	max := 12
	if r.oneIn(5) {
		max = 600
	}
	t := nxNewTable(r, max, func(r *vRng) nxCol {
		if r.oneIn(20) { // types that are only announced
			return []nxCol{{typ: 249, mb: []byte{1}, meta: 1}, {typ: 250, mb: []byte{3}, meta: 3}, {typ: 251, mb: []byte{4}, meta: 4},
				{typ: 253, mb: []byte{0x2c, 1}, meta: 300}, {typ: 6}, {typ: 0}, {typ: 247, mb: []byte{2, 1}, meta: 0x201}, {typ: 248, mb: []byte{3, 4}, meta: 0x304}}[r.Intn(8)]
		}
		return nxAnyCol(r)
	})
	if max == 600 && r.bool() {
		for len(t.cols) < 248+r.Intn(8) {
			t.cols = append(t.cols, nxAnyCol(r))
			t.nullable = append(t.nullable, r.bool())
		}
	}
	if !c.id4 {
		t.id = r.bits(48)
	}
	r.note("%s.%s id=%d cols=%v", t.db, t.name, t.id, t.cols)
	raw := c.event(nxHdr{typ: 19}, c.tableMapBody(t), false)
	f := BinlogFormat{FormatVersion: 4, HeaderLength: byte(19 + c.extra), HeaderSizes: c.headerSizes()}
	ev := NewMysql56BinlogEvent(raw)
	r.check(ev.IsTableMap(), "tablemap.type", "not a table map")
	r.check(ev.TableID(f) == t.id, "tablemap.id", "id %d want %d", ev.TableID(f), t.id)
	tm, err := ev.TableMap(f)
	r.check(err == nil, "tablemap.noerror", "%v", err)
	r.check(tm.Database == t.db && tm.Name == t.name, "tablemap.names", "%q.%q want %q.%q", tm.Database, tm.Name, t.db, t.name)
	r.check(tm.Flags == t.flags, "tablemap.flags", "flags %d want %d", tm.Flags, t.flags)
	r.check(len(tm.Types) == len(t.cols) && len(tm.Metadata) == len(t.cols), "tablemap.count", "%d types, %d metadata, want %d", len(tm.Types), len(tm.Metadata), len(t.cols))
	r.check(tm.CanBeNull.Count() == len(t.cols), "tablemap.null", "%d null bits, want %d", tm.CanBeNull.Count(), len(t.cols))
	for i, x := range t.cols {
		r.check(tm.Types[i] == x.typ && tm.Metadata[i] == x.meta, "tablemap.column", "column %d: %d/%#x want %d/%#x", i, tm.Types[i], tm.Metadata[i], x.typ, x.meta)
		r.check(tm.CanBeNull.Bit(i) == t.nullable[i], "tablemap.null", "column %d nullable %v", i, !t.nullable[i])
	}
	// row events carry the same id
	for k := 0; k < 3; k++ {
		row := NewMysql56BinlogEvent(c.event(nxHdr{typ: c.rowsType(k)}, append(nxLE(t.id, c.idSize()), r.bytes(10)...), false))
		r.check(row.TableID(f) == t.id, "rows.id", "row event id %d want %d", row.TableID(f), t.id)
	}
}

// ---- headers and control events (C16)

func nxMake(flavor int, raw []byte) BinlogEvent {
	if flavor == 0 {
		return NewMysql56BinlogEvent(raw)
	}
	return NewMariadbBinlogEvent(raw)
}

func search_C16_C19_events(r *vRng) {
	c := nxNewConf(r)
	c.extra = []int{0, 0, 0, 0, 1, 8, 60}[r.Intn(7)]
	flavor := 0
	if r.oneIn(4) {
		flavor = 1
	}
	switch r.Intn(4) {
	case 0:
		c.ntypes = 27 + r.Intn(229)
	}
	h := nxHdr{ts: uint32(r.bits(32)), server: uint32(r.bits(32)), next: uint32(r.bits(32)), flags: uint16(r.bits(16))}
	fde := nxMake(flavor, c.fde(h))
	f, err := fde.Format()
	r.check(err == nil, "format.noerror", "%v", err)
	r.check(f.FormatVersion == 4, "format.version", "version %d", f.FormatVersion)
	want := strings.TrimRight(c.version, "\x00")
	r.check(f.ServerVersion == want, "format.server", "server version %q want %q", f.ServerVersion, want)
	r.check(int(f.HeaderLength) == 19+c.extra, "format.headerlength", "header length %d want %d", f.HeaderLength, 19+c.extra)
	r.check(bytes.Equal(f.HeaderSizes, c.headerSizes()), "format.sizes", "header sizes %v want %v", f.HeaderSizes, c.headerSizes())
	r.check(f.ChecksumAlgorithm == c.alg, "format.checksum", "algorithm %d want %d", f.ChecksumAlgorithm, c.alg)
	r.check(!f.IsZero(), "format.zero", "a format is zero")

	vars, cs := nxStatusVars(r)
	if flavor == 1 {
		vars, cs = nxStatusVars(r)
	}
	dbl := r.Intn(20)
	switch r.Intn(6) {
	case 0:
		dbl = 0
	case 1:
		dbl = 255
	}
	sqll := r.Intn(60)
	switch r.Intn(10) {
	case 0:
		sqll = 0
	case 1:
		sqll = r.Intn(65536)
	}
	q := nxQuery{db: string(r.text(dbl)), sql: string(r.text(sqll)), thread: uint32(r.bits(32)), vars: vars, charset: cs}
	file, off := string(r.text(r.Intn(40))), r.bits(63)
	iv, ivt := r.bits(64), byte(1+r.Intn(2))
	s1, s2 := r.bits(64), r.bits(64)
	var sid [16]byte
	copy(sid[:], r.bytes(16))
	gno := r.bits(63)
	dom, fl2 := uint32(r.bits(32)), byte(r.Intn(8))
	set := nxSet(r, 8)
	kinds := []byte{2, 4, 5, 13, 14, 33, 35, 16, 27, 30}
	k := kinds[r.Intn(len(kinds))]
	var body []byte
	switch k {
	case 2:
		body = q.body()
	case 4:
		body = append(nxLE(off, 8), file...)
	case 5:
		body = append([]byte{ivt}, nxLE(iv, 8)...)
	case 13:
		body = append(nxLE(s1, 8), nxLE(s2, 8)...)
	case 33:
		if flavor == 1 {
			k = 162
			body = append(append(nxLE(gno, 8), nxLE(uint64(dom), 4)...), fl2)
			body = append(body, make([]byte, 6)...)
		} else {
			body = append(append([]byte{1}, sid[:]...), nxLE(gno, 8)...)
			body = append(body, make([]byte, []int{0, 17}[r.Intn(2)])...)
		}
	case 35:
		body = set.block()
	case 16:
		body = nxLE(iv, 8)
	default:
		body = r.bytes(r.Intn(30))
	}
	h.typ = k
	r.note("type %d flavor %d extra %d alg %d body %x", k, flavor, c.extra, c.alg, body[:min(len(body), 60)])
	plain := c.event(h, body, false)
	sent := plain
	if c.crc {
		sent = c.event(h, body, true)
	}
	ev := nxMake(flavor, append([]byte{}, sent...))
	r.check(ev.IsValid(), "event.valid", "a well-formed event is not valid")
	hdr := func(ev BinlogEvent) {
		r.check(ev.Timestamp() == h.ts, "header.timestamp", "%d want %d", ev.Timestamp(), h.ts)
		r.check(ev.NextPosition() == int64(h.next), "header.next", "%d want %d", ev.NextPosition(), h.next)
		var b binlogEvent
		switch e := ev.(type) {
		case mysql56BinlogEvent:
			b = e.binlogEvent
		case mariadbBinlogEvent:
			b = e.binlogEvent
		}
		r.check(b.Type() == k && b.ServerID() == h.server && b.Flags() == h.flags && int(b.Length()) == len(sent), "header.fields",
			"type %d server %d flags %d length %d", b.Type(), b.ServerID(), b.Flags(), b.Length())
		is := map[string]bool{}
		for n, x := range map[string]bool{"fde": ev.IsFormatDescription(), "query": ev.IsQuery(), "xid": ev.IsXID(), "gtid": ev.IsGTID(), "rotate": ev.IsRotate(),
			"intvar": ev.IsIntVar(), "rand": ev.IsRand(), "prev": ev.IsPreviousGTIDs(), "rowsquery": ev.IsRowsQuery(), "tm": ev.IsTableMap(),
			"write": ev.IsWriteRows(), "update": ev.IsUpdateRows(), "delete": ev.IsDeleteRows(), "pseudo": ev.IsPseudo()} {
			if x {
				is[n] = true
			}
		}
		exp := map[string]bool{}
		if n, ok := map[byte]string{2: "query", 4: "rotate", 5: "intvar", 13: "rand", 14: "", 16: "xid", 33: "gtid", 162: "gtid", 35: "prev", 30: "write"}[k]; ok && n != "" {
			exp[n] = true
		}
		if flavor == 1 && k == 33 {
			exp = map[string]bool{}
		}
		r.check(reflect.DeepEqual(is, exp), "header.kind", "type %d is %v want %v", k, is, exp)
	}
	hdr(ev)
	st, sum, err := ev.StripChecksum(f)
	r.check(err == nil, "strip.noerror", "%v", err)
	if c.crc {
		r.check(bytes.Equal(sum, sent[len(sent)-4:]), "strip.checksum", "checksum %x", sum)
	} else {
		r.check(sum == nil, "strip.checksum", "checksum %x without one", sum)
	}
	r.check(bytes.Equal(st.Bytes(), func() []byte {
		b := append([]byte{}, sent...)
		return b[:len(plain)]
	}()), "strip.bytes", "stripped event differs from the plain one")
	hdr(st)
	switch k {
	case 2:
		got, err := st.Query(f)
		r.check(err == nil, "query.noerror", "%v", err)
		r.check(got.Database == q.db && got.SQL == q.sql, "query.text", "%q %q want %q %q", nxClip(got.Database), nxClip(got.SQL), nxClip(q.db), nxClip(q.sql))
		if cs == nil {
			r.check(got.Charset == nil, "query.charset", "charset %v without one, vars %x", got.Charset, vars)
		} else {
			r.check(got.Charset != nil && *got.Charset == Charset{int32(cs[0]), int32(cs[1]), int32(cs[2])}, "query.charset", "charset %v want %v, vars %x", got.Charset, *cs, vars)
		}
	case 4:
		n, p, err := st.Rotate(f)
		r.check(err == nil && n == file && p == int64(off), "rotate", "%q %d %v want %q %d", n, p, err, file, off)
	case 5:
		t, v, err := st.IntVar(f)
		r.check(err == nil && t == ivt && v == iv, "intvar", "%d %d %v want %d %d", t, v, err, ivt, iv)
	case 13:
		a, b, err := st.Rand(f)
		r.check(err == nil && a == s1 && b == s2, "rand", "%d %d %v want %d %d", a, b, err, s1, s2)
	case 33:
		g, bg, err := st.GTID(f)
		if flavor == 0 {
			r.check(err == nil && !bg && g == GTID(Mysql56GTID{SID(sid), int64(gno)}), "gtid", "%v %v %v want %x:%d", g, bg, err, sid, gno)
		}
	case 162:
		g, bg, err := st.GTID(f)
		r.check(err == nil && bg == (fl2&1 == 0) && g == GTID(MariadbGTID{dom, h.server, gno}), "gtid", "%v %v %v want %d-%d-%d", g, bg, err, dom, h.server, gno)
	case 35:
		if flavor == 0 {
			g, err := st.PreviousGTIDs(f)
			r.check(err == nil, "previous.noerror", "%v", err)
			r.check(set.same(g.(Mysql56GTIDSet)), "previous", "%v want %v", g, set)
		}
	}
	if k == 5 {
		b := append([]byte{}, plain...)
		b[19+c.extra] = byte(3 + r.Intn(200))
		_, _, err := nxMake(flavor, b).IntVar(f)
		r.check(err != nil, "intvar.kind", "an unknown int-var id is accepted")
	}
}

// ---- validity gate (C17)

func search_C17_valid(r *vRng) {
	var b []byte
	switch r.Intn(5) {
	case 0:
		b = r.bytes(r.Intn(65))
	case 1:
		b = r.bytes(19 + r.Intn(40))
		copy(b[9:], nxLE(uint64(len(b)), 4))
	case 2:
		c := nxNewConf(r)
		b = c.event(nxHdr{typ: byte(r.Intn(40))}, r.bytes(r.Intn(30)), r.bool())
		b = b[:r.Intn(len(b)+1)]
	case 3:
		c := nxNewConf(r)
		b = c.event(nxHdr{typ: byte(r.Intn(40))}, r.bytes(r.Intn(30)), r.bool())
		b = append(b, r.bytes(r.Intn(20))...)
	case 4:
		n := r.Intn(40)
		b = r.bytes(n)
		v := uint64(n + r.Intn(3) - 1)
		if r.oneIn(4) {
			v = uint64(r.Intn(25))
		}
		if n >= 13 {
			copy(b[9:], nxLE(v, 4))
		}
	}
	r.note("%x", b)
	want := len(b) >= 19 && uint64(len(b)) == uint64(b[9])|uint64(b[10])<<8|uint64(b[11])<<16|uint64(b[12])<<24
	for fl := 0; fl < 2; fl++ {
		ev := nxMake(fl, b)
		r.check(ev.IsValid() == want, "valid.iff", "IsValid(%x) = %v", b, !want)
		if want {
			ev.Timestamp()
			ev.NextPosition()
			ev.IsFormatDescription()
			ev.IsQuery()
			ev.IsXID()
			ev.IsGTID()
			ev.IsRotate()
			ev.IsIntVar()
			ev.IsRand()
			ev.IsPreviousGTIDs()
			ev.IsRowsQuery()
			ev.IsTableMap()
			ev.IsWriteRows()
			ev.IsUpdateRows()
			ev.IsDeleteRows()
		}
	}
}

// ---- GTID sets (C18, C19)

type nxGSet map[[16]byte][][2]uint64 // sorted, disjoint, not adjacent

func nxSIDs(r *vRng) [][16]byte {
	var out [][16]byte
	n := 1 + r.Intn(4)
	if r.oneIn(6) {
		n = 1 + r.Intn(12)
	}
	for i := 0; i < n; i++ {
		var s [16]byte
		switch r.Intn(3) {
		case 0:
			s[15] = byte(i)
		case 1:
			s[r.Intn(16)] = byte(r.Intn(256))
		default:
			r.Read(s[:])
		}
		out = append(out, s)
	}
	return out
}

func nxIntervals(r *vRng, window int) [][2]uint64 {
	var out [][2]uint64
	p := uint64(1 + r.Intn(3))
	long := r.oneIn(10)
	if r.oneIn(80) { // more than a byte counts
		for i := 0; i < 200+r.Intn(400); i++ {
			e := p + uint64(r.Intn(2))
			out = append(out, [2]uint64{p, e})
			p = e + 2 + uint64(r.Intn(2))
		}
		return out
	}
	for len(out) < 1 || (long || r.Intn(3) > 0 && len(out) < 6) && len(out) < 14 {
		e := p + uint64(r.Intn(3))
		out = append(out, [2]uint64{p, e})
		p = e + 2 + uint64(r.Intn(3))
		if r.oneIn(20) {
			p += r.bits(61)
		}
		if p > uint64(window) && window > 0 && len(out) > 0 && !long && !r.oneIn(4) {
			break
		}
		if p > 1<<62 {
			break
		}
	}
	return out
}

func nxSet(r *vRng, window int) nxGSet {
	s := nxGSet{}
	if r.oneIn(10) {
		return s
	}
	for _, sid := range nxSIDs(r) {
		s[sid] = nxIntervals(r, window)
	}
	return s
}

func (s nxGSet) sids() [][16]byte {
	var k [][16]byte
	for x := range s {
		k = append(k, x)
	}
	sort.Slice(k, func(a, b int) bool { return bytes.Compare(k[a][:], k[b][:]) < 0 })
	return k
}

func (s nxGSet) block() []byte {
	b := nxLE(uint64(len(s)), 8)
	for _, k := range s.sids() {
		b = append(b, k[:]...)
		b = append(b, nxLE(uint64(len(s[k])), 8)...)
		for _, iv := range s[k] {
			b = append(append(b, nxLE(iv[0], 8)...), nxLE(iv[1]+1, 8)...)
		}
	}
	return b
}

func nxUUID(s [16]byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", s[:4], s[4:6], s[6:8], s[8:10], s[10:])
}

func (s nxGSet) text() string {
	var out []string
	for _, k := range s.sids() {
		t := nxUUID(k)
		for _, iv := range s[k] {
			if iv[0] == iv[1] {
				t += fmt.Sprintf(":%d", iv[0])
			} else {
				t += fmt.Sprintf(":%d-%d", iv[0], iv[1])
			}
		}
		out = append(out, t)
	}
	return strings.Join(out, ",")
}

func (s nxGSet) has(sid [16]byte, n uint64) bool {
	for _, iv := range s[sid] {
		if iv[0] <= n && n <= iv[1] {
			return true
		}
	}
	return false
}

func (s nxGSet) covers(o nxGSet) bool {
	for k, l := range o {
		for _, iv := range l {
			ok := false
			for _, x := range s[k] { // canonical: one interval must cover it
				ok = ok || x[0] <= iv[0] && iv[1] <= x[1]
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

func (s nxGSet) add(sid [16]byte, n uint64) nxGSet {
	o := nxGSet{}
	for k, l := range s {
		o[k] = append([][2]uint64{}, l...)
	}
	if s.has(sid, n) {
		return o
	}
	l := append(o[sid], [2]uint64{n, n})
	sort.Slice(l, func(a, b int) bool { return l[a][0] < l[b][0] })
	var m [][2]uint64
	for _, iv := range l {
		if len(m) > 0 && m[len(m)-1][1]+1 == iv[0] {
			m[len(m)-1][1] = iv[1]
		} else {
			m = append(m, iv)
		}
	}
	o[sid] = m
	return o
}

func (s nxGSet) same(g Mysql56GTIDSet) bool {
	if len(g) != len(s) {
		return false
	}
	for k, l := range s {
		x := g[SID(k)]
		if len(x) != len(l) {
			return false
		}
		for i := range l {
			if uint64(x[i].start) != l[i][0] || uint64(x[i].end) != l[i][1] {
				return false
			}
		}
	}
	return true
}

func (s nxGSet) set() Mysql56GTIDSet {
	g := Mysql56GTIDSet{}
	for k, l := range s {
		for _, iv := range l {
			g[SID(k)] = append(g[SID(k)], interval{int64(iv[0]), int64(iv[1])})
		}
	}
	return g
}

func search_C18_sets(r *vRng) {
	a := nxSet(r, 8)
	var b nxGSet
	switch r.Intn(3) {
	case 0:
		b = nxSet(r, 8)
	case 1: // over the same servers
		b = nxGSet{}
		for k := range a {
			if r.Intn(4) > 0 {
				b[k] = nxIntervals(r, 8)
			}
		}
	case 2: // a part of a
		b = nxGSet{}
		for k, l := range a {
			for _, iv := range l {
				if r.bool() {
					d := uint64(0)
					if iv[1] > iv[0] && r.bool() {
						d = 1
					}
					b[k] = append(b[k], [2]uint64{iv[0] + d, iv[1]})
				}
			}
		}
	}
	sa, sb := a.set(), b.set()
	r.note("%s | %s", a.text(), b.text())
	r.check(sa.Contains(sb) == a.covers(b), "set.contains", "(%s).Contains(%s) = %v", a.text(), b.text(), sa.Contains(sb))
	r.check(sb.Contains(sa) == b.covers(a), "set.contains", "(%s).Contains(%s) = %v", b.text(), a.text(), sb.Contains(sa))
	eq := a.text() == b.text()
	r.check(sa.Equal(sb) == eq && sb.Equal(sa) == eq, "set.equal", "(%s).Equal(%s) = %v", a.text(), b.text(), sa.Equal(sb))
	r.check(sa.Equal(a.set()) && sa.Contains(a.set()), "set.equal", "%s is not equal to itself", a.text())
	r.check(!sa.Contains(MariadbGTIDSet{}) && !sa.Equal(MariadbGTIDSet{}) && !sa.ContainsGTID(MariadbGTID{}), "set.flavor", "a MariaDB value is contained")
	cur, m := sa, a
	keep := []Mysql56GTIDSet{}
	keepM := []nxGSet{}
	n := 1 + r.Intn(12)
	sids := append(a.sids(), nxSIDs(r)...)
	for i := 0; i < n; i++ {
		sid := sids[r.Intn(len(sids))]
		seq := uint64(1 + r.Intn(12))
		if l := m[sid]; len(l) > 0 && r.bool() {
			iv := l[r.Intn(len(l))]
			seq = []uint64{iv[0] - 1, iv[1] + 1, iv[0], iv[1], iv[1] + 2}[r.Intn(5)]
			if seq == 0 {
				seq = 1
			}
		}
		for k := uint64(0); k < 3; k++ {
			q := seq + k - 1
			if q >= 1 {
				g := Mysql56GTID{SID(sid), int64(q)}
				r.check(cur.ContainsGTID(g) == m.has(sid, q), "set.member", "(%s).ContainsGTID(%d of %x) = %v", m.text(), q, sid, cur.ContainsGTID(g))
			}
		}
		keep, keepM = append(keep, cur), append(keepM, m)
		nx := cur.AddGTID(Mysql56GTID{SID(sid), int64(seq)}).(Mysql56GTIDSet)
		nm := m.add(sid, seq)
		r.check(nm.same(nx), "set.add", "(%s).AddGTID(%s:%d) = %s", m.text(), nxUUID(sid), seq, nx.String())
		r.check(nx.String() == nm.text(), "set.string", "%s prints as %s", nm.text(), nx.String())
		if r.oneIn(6) && i > 0 { // branch off an earlier set
			j := r.Intn(len(keep))
			nx, nm = keep[j], keepM[j]
		}
		cur, m = nx, nm
		for j := range keep {
			r.check(keepM[j].same(keep[j]), "set.frame", "AddGTID altered the set %s: now %s", keepM[j].text(), keep[j].String())
		}
	}
	var none GTID
	_ = none
	r.check(cur.AddGTID(MariadbGTID{1, 2, 3}).Equal(cur), "set.flavor", "adding a MariaDB GTID changes the set")
}

func search_C19_texts(r *vRng) {
	var sid [16]byte
	copy(sid[:], r.bytes(16))
	seq := int64(r.bits(63))
	if seq == 0 {
		seq = 1
	}
	g := Mysql56GTID{SID(sid), seq}
	t := fmt.Sprintf("%s:%d", nxUUID(sid), seq)
	r.note("%s", t)
	r.check(g.String() == t, "gtid.string", "%s want %s", g.String(), t)
	p, err := ParseGTID("MySQL56", t)
	r.check(err == nil && p == GTID(g), "gtid.parse", "%v %v", p, err)
	p, err = ParseGTID(g.Flavor(), g.String())
	r.check(err == nil && p == GTID(g), "gtid.parse", "%v %v", p, err)
	p, err = DecodeGTID(EncodeGTID(g))
	r.check(err == nil && p == GTID(g), "gtid.encode", "%v %v", p, err)
	ps, err := ParseSID(SID(sid).String())
	r.check(err == nil && ps == SID(sid), "sid.parse", "%v %v", ps, err)

	mg := MariadbGTID{uint32(r.bits(32)), uint32(r.bits(32)), r.bits(64)}
	mt := fmt.Sprintf("%d-%d-%d", mg.Domain, mg.Server, mg.Sequence)
	r.check(mg.String() == mt, "mariadb.string", "%s want %s", mg.String(), mt)
	p, err = ParseGTID("MariaDB", mt)
	r.check(err == nil && p == GTID(mg), "mariadb.parse", "%v %v", p, err)
	p, err = DecodeGTID(EncodeGTID(mg))
	r.check(err == nil && p == GTID(mg), "mariadb.encode", "%v %v", p, err)

	s := nxSet(r, 8)
	gs := s.set()
	r.check(gs.String() == s.text(), "set.string", "%s want %s", gs.String(), s.text())
	back, err := gtidSetParsers[gs.Flavor()](gs.String())
	r.check(err == nil && gs.Equal(back) && s.same(back.(Mysql56GTIDSet)), "set.parse", "%s parses to %v %v", s.text(), back, err)
	r.check(bytes.Equal(gs.SIDBlock(), s.block()), "set.block", "SID block of %s: %x want %x", s.text(), gs.SIDBlock(), s.block())
	bb, err := NewMysql56GTIDSetFromSIDBlock(s.block())
	r.check(err == nil && s.same(bb), "set.fromblock", "block of %s decodes to %v %v", s.text(), bb, err)
	r.check(g.GTIDSet().Equal(Mysql56GTIDSet{SID(sid): []interval{{seq, seq}}}), "gtid.set", "%v", g.GTIDSet())
}

type nxMSet []MariadbGTID

func search_C19_mariadb(r *vRng) {
	n := 1 + r.Intn(8)
	var m nxMSet
	dom := func() uint32 {
		if r.oneIn(5) {
			return uint32(r.bits(32))
		}
		return uint32(r.Intn(6))
	}
	seq := func() uint64 {
		if r.oneIn(5) {
			return r.bits(64)
		}
		return uint64(1 + r.Intn(6))
	}
	for i := 0; i < n; i++ {
		d := dom()
		dup := false
		for _, x := range m {
			dup = dup || x.Domain == d
		}
		if !dup {
			m = append(m, MariadbGTID{d, uint32(r.Intn(5)), seq()})
		}
	}
	str := func(m nxMSet) string {
		var p []string
		for _, x := range m {
			p = append(p, fmt.Sprintf("%d-%d-%d", x.Domain, x.Server, x.Sequence))
		}
		return strings.Join(p, ",")
	}
	r.note("%s", str(m))
	var cur GTIDSet = append(MariadbGTIDSet{}, m...)
	if r.bool() {
		p, err := gtidSetParsers["MariaDB"](str(m))
		r.check(err == nil && p.Equal(cur), "mariadb.setparse", "%s parses to %v %v", str(m), p, err)
		cur = p
	}
	// no text makes two positions of one domain
	more := append(nxMSet{}, m...)
	for i := 0; i < 1+r.Intn(2); i++ {
		at := r.Intn(len(more) + 1)
		x := m[r.Intn(len(m))]
		if r.bool() {
			x.Server, x.Sequence = uint32(r.Intn(5)), seq()
		}
		more = append(more[:at:at], append(nxMSet{x}, more[at:]...)...)
	}
	if p, err := gtidSetParsers["MariaDB"](str(more)); err == nil {
		ds := map[uint32]bool{}
		for _, x := range p.(MariadbGTIDSet) {
			r.check(!ds[x.Domain], "mariadb.onedomain", "%s parses to %v", str(more), p)
			ds[x.Domain] = true
		}
	}
	r.check(cur.String() == str(m), "mariadb.setstring", "%s want %s", cur.String(), str(m))
	r.check(cur.Flavor() == "MariaDB", "mariadb.flavor", "%s", cur.Flavor())
	has := func(m nxMSet, g MariadbGTID) bool {
		for _, x := range m {
			if x.Domain == g.Domain {
				return x.Sequence >= g.Sequence
			}
		}
		return false
	}
	type kept struct {
		s GTIDSet
		m string
	}
	var ks []kept
	for i := 0; i < 1+r.Intn(10); i++ {
		g := MariadbGTID{dom(), uint32(r.Intn(5)), seq()}
		if len(m) > 0 && r.bool() {
			x := m[r.Intn(len(m))]
			g.Domain, g.Sequence = x.Domain, x.Sequence+uint64(r.Intn(3))-1
		}
		r.check(cur.ContainsGTID(g) == has(m, g), "mariadb.member", "(%s).ContainsGTID(%v) = %v", str(m), g, cur.ContainsGTID(g))
		var o nxMSet
		for _, x := range m {
			if r.Intn(3) > 0 {
				x.Sequence = x.Sequence + uint64(r.Intn(3)) - 1
				o = append(o, x)
			}
		}
		if r.oneIn(3) {
			o = append(o, MariadbGTID{uint32(r.Intn(8)) + 100, 1, 1})
		}
		all := true
		for _, x := range o {
			all = all && has(m, x)
		}
		os := MariadbGTIDSet(append(nxMSet{}, o...))
		r.check(cur.Contains(os) == all, "mariadb.contains", "(%s).Contains(%s) = %v", str(m), str(o), !all)
		ks = append(ks, kept{cur, str(m)})
		nx := cur.AddGTID(g)
		nm := append(nxMSet{}, m...)
		at := -1
		for j, x := range nm {
			if x.Domain == g.Domain {
				at = j
			}
		}
		if at < 0 {
			nm = append(nm, g)
		} else if g.Sequence > nm[at].Sequence {
			nm[at] = g
		}
		// one position per domain, the larger sequence number
		got := nx.(MariadbGTIDSet)
		r.check(len(got) == len(nm), "mariadb.add", "(%s).AddGTID(%v) = %s", str(m), g, got.String())
		for _, x := range nm {
			c := 0
			for _, y := range got {
				if x == y {
					c++
				}
			}
			r.check(c == 1, "mariadb.add", "(%s).AddGTID(%v) = %s", str(m), g, got.String())
		}
		for _, k := range ks {
			r.check(k.s.String() == k.m, "mariadb.frame", "AddGTID altered %s: now %s", k.m, k.s.String())
		}
		if r.oneIn(3) { // add to the same set once more
			continue
		}
		cur, m = nx, nxMSet(append([]MariadbGTID{}, got...))
	}
}

var _ = time.Local
