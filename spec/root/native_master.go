package gobinlog

// A simulated master: histories with the transactions they must be delivered
// as, and a server that speaks enough of the protocol to serve them. Written
// from the MySQL documentation; it uses only the exported interface.

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- histories

type hxChange struct {
	typ   StatementType
	table MysqlTableName
	q     *nxQuery
	ts    uint32
	t     *nxTable
	rows  []nxRow
}

type hxTran struct {
	now, next Position
	ts        uint32
	changes   []hxChange
	ev        int // index of the commit event
}

type hxEvent struct {
	raw        []byte
	file       int
	start, end uint32
	what       string
	crc        bool
}

// hxBound: a position at which a dump may start
type hxBound struct {
	pos  Position
	ev   int // first event served
	tran int // transactions before it
}

type hxHist struct {
	c      nxConf
	algs   []byte // checksum algorithm of each file
	files  []string
	evs    []hxEvent
	trans  []hxTran
	bounds []hxBound
	tables map[MysqlTableName]*nxTable
	ids    []uint64
	gtid   bool
	server uint32
	base   uint32
}

type hxGen struct {
	r     *vRng
	h     *hxHist
	pos   Position // commit boundary so far
	off   uint32
	file  int
	ts    uint32
	open  []hxChange
	tabs  []*nxTable
	known map[uint64]*nxTable
	// what units there may be
	units int
	rot   bool
	small bool
	col   func(*vRng) nxCol
}

func (g *hxGen) conf() nxConf {
	c := g.h.c
	c.alg = g.h.algs[g.file]
	c.crc = c.alg == 1
	return c
}

func (g *hxGen) emit(what string, typ byte, body []byte) *hxEvent {
	c := g.conf()
	n := 19 + c.extra + len(body)
	if typ == 15 {
		n = 19 + len(body) + 4
	} else if c.crc {
		n += 4
	}
	start := g.off
	g.off += uint32(n)
	if g.r.oneIn(3) {
		g.ts = uint32(g.r.bits(32))
	} else {
		g.ts++
	}
	h := nxHdr{ts: g.ts, server: g.h.server, next: g.off, typ: typ, flags: uint16(g.r.Intn(2))}
	var raw []byte
	if typ == 15 {
		raw = c.fde(h)
	} else {
		raw = c.event(h, body, c.crc)
	}
	g.h.evs = append(g.h.evs, hxEvent{raw: raw, file: g.file, start: start, end: g.off, what: what, crc: c.crc || typ == 15})
	return &g.h.evs[len(g.h.evs)-1]
}

func (g *hxGen) bound() {
	g.h.bounds = append(g.h.bounds, hxBound{Position{g.h.files[g.file], int64(g.off)}, len(g.h.evs), len(g.h.trans)})
}

func (g *hxGen) ignorable() {
	r := g.r
	switch r.Intn(7) {
	case 0:
		g.emit("heartbeat", 27, []byte(g.h.files[g.file]))
	case 1:
		g.emit("anonymous gtid", 34, g.gtidBody())
	case 2:
		g.emit("gtid", 33, g.gtidBody())
	case 3:
		g.emit("previous gtids", 35, nxLE(0, 8))
	case 4:
		t := []byte{0, 3, 14, 26, 28, 36, 37, 38, 39, 40, 41, 42, 100, 162, 170, 255}[r.Intn(16)]
		g.emit("unknown event", t, r.bytes(r.Intn(30)))
	case 5:
		g.query(g.unknownSQL())
	default:
	}
}

func (g *hxGen) gtidBody() []byte {
	r := g.r
	b := append([]byte{byte(r.Intn(2))}, r.bytes(16)...)
	b = append(b, nxLE(uint64(1+r.Intn(1000)), 8)...)
	b = append(b, 2)
	b = append(b, nxLE(r.Uint64(), 8)...)
	b = append(b, nxLE(r.Uint64(), 8)...)
	return append(b, r.bytes(r.Intn(18))...)
}

func hxCase(r *vRng, s string) string {
	b := []byte(s)
	k := r.Intn(4)
	for i := range b {
		switch {
		case k == 0 || k == 1 && r.bool() || k == 2 && i == 0:
			b[i] = strings.ToUpper(s)[i]
		}
	}
	return string(b)
}

func (g *hxGen) sql(kw string) string {
	r := g.r
	s := hxCase(r, kw)
	n := r.Intn(30)
	if r.oneIn(20) {
		n = r.Intn(5000)
	}
	t := string(r.text(n))
	if n > 0 || kw == "insert" || r.bool() {
		s += string(" \t\r\n"[r.Intn(4)]) + t
	}
	return s
}

// endSQL: a BEGIN, COMMIT or ROLLBACK as the server logs it, or with
// something harmless behind it
func (g *hxGen) endSQL(kw string) string {
	s := hxCase(g.r, kw)
	switch g.r.Intn(6) {
	case 0:
		s += string(" \t\r\n"[g.r.Intn(4)])
	case 1:
		s += string(" \t\r\n"[g.r.Intn(4)]) + "/* x */"
	}
	return s
}

func (g *hxGen) unknownSQL() string {
	r := g.r
	return []string{"", "FLUSH TABLES", "GRANT ALL ON *.* TO x", "SAVEPOINT `a`", "ANALYZE TABLE t", "beginning", "com mit", " begin",
		"/* commit */ commit", "insertx into t", "BEGIN2", "xa start 'a'", "RELEASE SAVEPOINT a", "\"commit\"", "replace into t", "Rollbacks",
		"-- x", "(insert)", "call p()", "comm"}[r.Intn(20)]
}

func (g *hxGen) query(sql string) *nxQuery {
	r := g.r
	q := &nxQuery{sql: sql, thread: uint32(r.bits(32))}
	if r.Intn(4) > 0 {
		q.db = nxName(r)
	}
	q.vars, q.charset = nxStatusVars(r)
	g.emit("query "+nxClip(sql), 2, q.body())
	return q
}

func (g *hxGen) commit() {
	e := len(g.h.evs) - 1
	next := Position{g.h.files[g.file], int64(g.off)}
	g.h.trans = append(g.h.trans, hxTran{now: g.pos, next: next, ts: g.ts, changes: g.open, ev: e})
	g.pos = next
	g.open = nil
	g.bound()
}

func (g *hxGen) maybeIgnore() {
	if g.r.oneIn(4) {
		g.ignorable()
	}
}

// shape: another shape of the same table, announced later
func (g *hxGen) shape(t *nxTable) *nxTable {
	r := g.r
	n := *t
	n.cols = append([]nxCol{}, t.cols...)
	n.nullable = append([]bool{}, t.nullable...)
	for i := range n.cols {
		if !r.oneIn(3) {
			continue
		}
		for k := 0; k < 20; k++ {
			c := g.col(r)
			if c.unsigned == t.cols[i].unsigned {
				n.cols[i] = c
				break
			}
		}
		n.nullable[i] = r.bool()
	}
	n.optional = nil
	if r.bool() {
		n.optional = r.text(r.Intn(20))
	}
	return &n
}

func (g *hxGen) announce(t *nxTable) {
	g.emit("table map "+t.db+"."+t.name, 19, g.h.c.tableMapBody(t))
	g.known[t.id] = t
	g.h.ids = append(g.h.ids, t.id)
}

// statement: table maps, then rows events of the announced tables
func (g *hxGen) statement(auto bool) {
	r := g.r
	n := 1
	if r.oneIn(4) && !auto {
		n = 1 + r.Intn(3)
	}
	var use []*nxTable
	for i := 0; i < n; i++ {
		k := r.Intn(len(g.tabs))
		if r.oneIn(5) {
			g.tabs[k] = g.shape(g.tabs[k])
		}
		if r.oneIn(6) {
			// the table gets another id; the old one may come to mean another table
			t := *g.tabs[k]
			t.id = r.bits(8 * g.h.c.idSize())
			if r.bool() {
				t.id = g.tabs[r.Intn(len(g.tabs))].id
			}
			g.tabs[k] = &t
		}
		t := g.tabs[k]
		clash := false
		for _, u := range use {
			if u.id == t.id {
				clash = true
			}
		}
		if clash {
			continue
		}
		g.announce(t)
		if r.oneIn(10) {
			g.announce(t)
		}
		use = append(use, t)
	}
	for _, t := range use {
		m := 1
		if r.oneIn(4) && !auto {
			m = r.Intn(3)
		}
		for j := 0; j < m; j++ {
			g.rowsEvent(t)
			if auto {
				g.commit()
			}
		}
	}
}

func (g *hxGen) rowsEvent(t *nxTable) {
	r := g.r
	kind := r.Intn(3)
	nrows := 1
	if r.oneIn(3) {
		nrows = 1 + r.upto(12)
	}
	presB, presA, rows := nxMakeRows(r, t, kind, nrows)
	g.emit([]string{"write", "update", "delete"}[kind]+" rows "+t.db+"."+t.name, g.h.c.rowsType(kind),
		g.h.c.rowsBody(kind, t.id, uint16(r.Intn(2)), len(t.cols), presB, presA, rows))
	g.open = append(g.open, hxChange{typ: []StatementType{StatementInsert, StatementUpdate, StatementDelete}[kind],
		table: NewMysqlTableName(t.db, t.name), ts: g.ts, t: t, rows: rows})
}

func (g *hxGen) sqlChange(kws []string) {
	k := g.r.Intn(len(kws))
	q := g.query(g.sql(kws[k]))
	g.open = append(g.open, hxChange{typ: hxTypes[kws[k]], q: q, ts: g.ts})
}

var hxTypes = map[string]StatementType{"insert": StatementInsert, "update": StatementUpdate, "delete": StatementDelete, "create": StatementCreate,
	"alter": StatementAlter, "drop": StatementDrop, "truncate": StatementTruncate, "rename": StatementRename, "set": StatementSet}
var hxDML = []string{"insert", "update", "delete"}
var hxDDL = []string{"create", "alter", "drop", "truncate", "rename", "set"}

func (g *hxGen) tx(end int) {
	r := g.r
	g.query(g.endSQL("begin"))
	for i, n := 0, r.upto(5); i < n; i++ {
		g.maybeIgnore()
		switch {
		case r.oneIn(6):
			g.sqlChange(hxDML)
		case r.oneIn(12):
			g.sqlChange(hxDDL)
		default:
			g.statement(false)
		}
	}
	g.maybeIgnore()
	switch end {
	case 0:
		g.emit("xid", 16, g.r.bytes(8))
	case 1:
		g.query(g.endSQL("commit"))
	default:
		g.open = nil
		g.query(g.endSQL("rollback"))
	}
	g.commit()
}

func (g *hxGen) fileHead() {
	g.off = 4
	g.bound()
	g.emit("format description", 15, g.confFDE())
	if g.r.bool() {
		g.emit("previous gtids", 35, nxLE(0, 8))
	}
}

func (g *hxGen) confFDE() []byte { return g.conf().fdeBody(g.ts) }

func (g *hxGen) rotate() {
	r := g.r
	next := hxFileName(r, len(g.h.files))
	g.emit("rotate to "+next, 4, append(nxLE(4, 8), next...))
	g.h.files = append(g.h.files, next)
	alg := g.h.algs[g.file]
	if r.oneIn(3) {
		alg = byte(r.Intn(2))
	}
	g.h.algs = append(g.h.algs, alg)
	g.file++
	g.pos = Position{next, 4}
	g.fileHead()
}

func hxFileName(r *vRng, i int) string {
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("%s.%06d", r.printable(1+r.upto(200)), i+1)
	case 1:
		return fmt.Sprintf("b.%d", 999999+i)
	}
	return fmt.Sprintf("mysql-bin.%06d", i+1)
}

func (r *vRng) printable(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./"[r.Intn(66)]
	}
	return string(b)
}

// hxTwin: a table much like another one, of another name.
func hxTwin(r *vRng, o *nxTable) *nxTable {
	t := *o
	t.names = nil
	for i := range o.cols {
		t.names = append(t.names, fmt.Sprintf("twin%d", i))
	}
	swap := func(s string) string {
		b := []byte(s)
		for i, c := range b {
			if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	switch r.Intn(4) {
	case 0:
		t.db = swap(t.db)
	case 1:
		t.name = swap(t.name)
	case 2:
		t.db, t.name = t.name, t.db
	case 3:
		t.name = t.name[:len(t.name)-1] + "~"
	}
	t.id = r.bits(32)
	return &t
}

// hxHistory draws a history.
func hxHistory(r *vRng, units int, col func(*vRng) nxCol) *hxHist {
	c := nxNewConf(r)
	if r.oneIn(3) {
		c.extra = r.Intn(20)
	}
	h := &hxHist{c: c, algs: []byte{c.alg}, server: uint32(r.bits(32)), tables: map[MysqlTableName]*nxTable{}}
	h.files = []string{hxFileName(r, 0)}
	g := &hxGen{r: r, h: h, ts: uint32(r.bits(32)), known: map[uint64]*nxTable{}, col: col}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		t := nxNewTable(r, 6, col)
		if i > 0 && r.oneIn(3) {
			t = hxTwin(r, g.tabs[0])
		}
		t.id &= 1<<(8*uint(c.idSize())) - 1
		name := NewMysqlTableName(t.db, t.name)
		if h.tables[name] != nil {
			continue
		}
		h.tables[name] = t
		g.tabs = append(g.tabs, t)
	}
	// every table starts with an id of its own
	for i, t := range g.tabs {
		for j := 0; j < i; j++ {
			if g.tabs[j].id == t.id {
				t.id = t.id ^ uint64(i+1)<<8
			}
		}
	}
	h.gtid = r.bool()
	g.pos = Position{h.files[0], 4}
	g.fileHead()
	if r.oneIn(4) {
		// a file that has grown large
		g.off = []uint32{0x7fffff00, 0x80000000, 0xfff00000, 0x12345678}[r.Intn(4)]
		h.base = g.off
		h.bounds = nil
		g.pos = Position{h.files[0], int64(g.off)}
		g.bound()
	}
	for i := 0; i < units; i++ {
		if h.gtid {
			g.emit("gtid", byte(33+r.Intn(2)), g.gtidBody())
		}
		g.maybeIgnore()
		switch k := r.Intn(16); {
		case k < 5:
			g.tx(0)
		case k < 7:
			g.tx(1)
		case k < 9:
			g.tx(2)
		case k < 10:
			g.sqlChange(hxDDL)
			g.commit()
		case k < 12:
			g.statement(true)
		case k < 13:
			g.sqlChange(hxDML)
			g.commit()
		case k < 14:
			g.query(g.unknownSQL())
		default:
			g.rotate()
		}
	}
	return h
}

// packets: what a master sends for a dump from the position; idx maps every
// packet to the event it carries (-1: made up for the dump).
func (h *hxHist) packets(r *vRng, b hxBound) (out [][]byte, idx []int) {
	conf := func(f int) nxConf {
		c := h.c
		c.alg = h.algs[f]
		c.crc = c.alg == 1
		return c
	}
	file := 0
	for i := range h.files {
		if h.files[i] == b.pos.Filename {
			file = i
		}
	}
	add := func(ev []byte, i int) {
		out = append(out, append([]byte{0}, ev...))
		idx = append(idx, i)
	}
	fake := func(c nxConf, f int, off int64) {
		add(c.event(nxHdr{ts: 0, server: h.server, next: 0, typ: 4, flags: 0x20}, append(nxLE(uint64(off), 8), h.files[f]...), c.crc), -1)
	}
	c := conf(file)
	fake(c, file, b.pos.Offset)
	first := b.ev
	if b.pos.Offset != 4 {
		add(c.fde(nxHdr{ts: h.base, server: h.server, next: 0, flags: 0x20}), -1)
	}
	for i := first; i < len(h.evs); i++ {
		if i > first && h.evs[i].file != h.evs[i-1].file {
			fake(conf(h.evs[i-1].file), h.evs[i].file, 4)
		} else if i == first && h.evs[i].file != file {
			fake(c, h.evs[i].file, 4)
		}
		add(h.evs[i].raw, i)
	}
	return
}

func (h *hxHist) boundAt(file string, off uint32) *hxBound {
	for i := range h.bounds {
		if h.bounds[i].pos.Filename == file && uint32(h.bounds[i].pos.Offset) == off {
			return &h.bounds[i]
		}
	}
	return nil
}

// describe the history, for a failure report
func (h *hxHist) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "history: crc %v v2 %v id4 %v extra header %d version %q types %d gtid %v\n", h.algs, h.c.v2, h.c.id4, h.c.extra, h.c.version, h.c.ntypes, h.gtid)
	for i, e := range h.evs {
		if i > 60 {
			b.WriteString("  ...\n")
			break
		}
		fmt.Fprintf(&b, "  %s %d..%d %s\n", nxClip(h.files[e.file]), e.start, e.end, e.what)
	}
	return b.String()
}

// ---- what a delivered transaction must be

func (h *hxHist) compare(got *Transaction, k int) string {
	w := h.trans[k]
	if got == nil {
		return "nil transaction"
	}
	if got.NowPosition != w.now {
		return fmt.Sprintf("transaction %d starts at %+v, want %+v", k, got.NowPosition, w.now)
	}
	return h.compareRest(got, k)
}

func (h *hxHist) compareRest(got *Transaction, k int) string {
	w := h.trans[k]
	if got.NextPosition != w.next {
		return fmt.Sprintf("transaction %d ends at %+v, want %+v", k, got.NextPosition, w.next)
	}
	if got.Timestamp != int64(w.ts) {
		return fmt.Sprintf("transaction %d: timestamp %d, want %d", k, got.Timestamp, w.ts)
	}
	if len(got.Events) != len(w.changes) {
		return fmt.Sprintf("transaction %d: %d changes, want %d", k, len(got.Events), len(w.changes))
	}
	for i, c := range w.changes {
		if s := c.compare(got.Events[i]); s != "" {
			return fmt.Sprintf("transaction %d change %d: %s", k, i, s)
		}
	}
	return ""
}

func (c hxChange) compare(e *StreamEvent) string {
	if e == nil {
		return "nil"
	}
	if e.Type != c.typ {
		return fmt.Sprintf("kind %v, want %v", e.Type, c.typ)
	}
	if e.Timestamp != int64(c.ts) {
		return fmt.Sprintf("timestamp %d, want %d", e.Timestamp, c.ts)
	}
	if c.q != nil {
		if e.Query.SQL != c.q.sql || e.Query.Database != c.q.db {
			return fmt.Sprintf("query %q in %q, want %q in %q", nxClip(e.Query.SQL), nxClip(e.Query.Database), nxClip(c.q.sql), nxClip(c.q.db))
		}
		cs := e.Query.Charset
		switch {
		case (cs == nil) != (c.q.charset == nil):
			return fmt.Sprintf("charset %v, want %v", cs, c.q.charset)
		case cs != nil && (cs.Client != int32(c.q.charset[0]) || cs.Conn != int32(c.q.charset[1]) || cs.Server != int32(c.q.charset[2])):
			return fmt.Sprintf("charset %v, want %v", *cs, *c.q.charset)
		}
		if len(e.RowValues)+len(e.RowIdentifies) > 0 {
			return "a statement with rows"
		}
		return ""
	}
	if e.Table != c.table {
		return fmt.Sprintf("table %v, want %v", e.Table, c.table)
	}
	if e.Query.SQL != "" {
		return "a row change with SQL text"
	}
	nb, na := 0, 0
	for _, r := range c.rows {
		if r.before != nil {
			nb++
		}
		if r.after != nil {
			na++
		}
	}
	if len(e.RowIdentifies) != nb || len(e.RowValues) != na {
		return fmt.Sprintf("%d before and %d after images, want %d and %d", len(e.RowIdentifies), len(e.RowValues), nb, na)
	}
	for i, r := range c.rows {
		if r.before != nil {
			if s := c.image(e.RowIdentifies[i], r.before); s != "" {
				return fmt.Sprintf("row %d before: %s", i, s)
			}
		}
		if r.after != nil {
			if s := c.image(e.RowValues[i], r.after); s != "" {
				return fmt.Sprintf("row %d after: %s", i, s)
			}
		}
	}
	return ""
}

func (c hxChange) image(d *RowData, cells []nxCell) string {
	if d == nil || len(d.Columns) != len(cells) {
		return "wrong number of columns"
	}
	for i, w := range cells {
		g := d.Columns[i]
		if g.Filed != c.t.names[i] || g.Type != ColumnType(c.t.cols[i].typ) {
			return fmt.Sprintf("column %d is %q of type %d, want %q of type %d", i, g.Filed, g.Type, c.t.names[i], c.t.cols[i].typ)
		}
		if g.IsEmpty != w.absent {
			return fmt.Sprintf("column %d: absent %v, want %v", i, g.IsEmpty, w.absent)
		}
		if w.absent || w.null {
			if g.Data != nil {
				return fmt.Sprintf("column %d: NULL or absent, but has data %q", i, nxClip(string(g.Data)))
			}
			continue
		}
		if s := w.v.verify(g.Data); s != "" {
			return fmt.Sprintf("column %d (%v): %s", i, c.t.cols[i], s)
		}
	}
	return ""
}

// ---- table information

type hxColumn struct {
	name     string
	unsigned bool
}

func (c hxColumn) Field() string       { return c.name }
func (c hxColumn) IsUnSignedInt() bool { return c.unsigned }

type hxTabInfo struct {
	name MysqlTableName
	cols []MysqlColumn
}

func (t hxTabInfo) Name() MysqlTableName   { return t.name }
func (t hxTabInfo) Columns() []MysqlColumn { return t.cols }

type hxMapper struct {
	h     *hxHist
	calls []MysqlTableName
	n     int
	fault func(n int) (fail, short bool)
}

var errHxMapper = errors.New("no such table, says the mapper")

// hxUserErr: what a handler or a mapper may fail with.
func hxUserErr(k int, plain error) error {
	switch k % 8 {
	case 1:
		return context.Canceled
	case 3:
		return io.EOF
	case 5:
		return errStreamEOF
	case 7:
		return context.DeadlineExceeded
	}
	return plain
}

func (m *hxMapper) MysqlTable(name MysqlTableName) (MysqlTable, error) {
	m.calls = append(m.calls, name)
	m.n++
	t, ok := m.h.tables[name]
	if !ok {
		return nil, fmt.Errorf("the mapper was asked for %v, which is not in the history", name)
	}
	info := hxTabInfo{name: name}
	for i := range t.cols {
		info.cols = append(info.cols, hxColumn{t.names[i], t.cols[i].unsigned})
	}
	if m.fault != nil {
		fail, short := m.fault(m.n)
		if fail {
			return nil, hxUserErr(m.n, errHxMapper)
		}
		if short {
			if m.n%2 == 0 || len(info.cols) == 0 {
				info.cols = append(info.cols, hxColumn{"more", false})
			} else {
				info.cols = info.cols[:len(info.cols)-1]
			}
		}
	}
	return info, nil
}

// ---- the master

const (
	hxEnd     = iota // all packets, then silence
	hxEOF            // EOF packet
	hxErr            // ERR packet
	hxClose          // connection closed
	hxReset          // connection reset
	hxShort          // part of a packet, then closed
	hxSeq            // a packet out of sequence
	hxHangSet        // the first statement is never answered
	hxErrSet         // the first statement is refused
	hxGreet          // closed instead of a greeting
	hxDenied         // log in refused
)

type hxPlan struct {
	stop    int // packets sent before the fault; -1 all
	fault   int
	code    uint16
	msg     string
	inject  [][]byte // sent in place of packet stop, then as if nothing happened
	chunk   int      // bytes per write; 0: packet by packet, -1: all at once
	gate    func(i int) bool
	dropAll bool
}

type hxAttempt struct {
	cmds   []string // queries and dumps in order
	dump   []hxDump
	bad    string
	closed chan struct{}
	sent   atomic.Int64
	eof    atomic.Bool // the client has closed
	heard  atomic.Bool // the client has sent something
}

type hxDump struct {
	server, off uint32
	flags       uint16
	file        string
}

type hxMaster struct {
	r    *vRng
	h    *hxHist
	l    net.Listener
	plan func(n int) hxPlan
	mu   sync.Mutex
	att  []*hxAttempt
	wg   sync.WaitGroup
	tcp  bool
	stop chan struct{}
}

var hxSerial atomic.Int64

func hxServe(r *vRng, h *hxHist, tcp bool, plan func(n int) hxPlan) *hxMaster {
	m := &hxMaster{r: r, h: h, plan: plan, tcp: tcp, stop: make(chan struct{})}
	var err error
	if tcp {
		m.l, err = net.Listen("tcp", "127.0.0.1:0")
	} else {
		m.l, err = net.Listen("unix", fmt.Sprintf("vs-%d-%d.sock", os.Getpid(), hxSerial.Add(1)))
	}
	if err != nil {
		panic(vDiscard{"cannot listen: " + err.Error()})
	}
	m.wg.Add(1)
	go m.acceptLoop()
	return m
}

func (m *hxMaster) dsn() string {
	if m.tcp {
		return "u:p@tcp(" + m.l.Addr().String() + ")/mysql"
	}
	return "u:p@unix(" + m.l.Addr().String() + ")/mysql"
}

func (m *hxMaster) acceptLoop() {
	defer m.wg.Done()
	for {
		c, err := m.l.Accept()
		if err != nil {
			return
		}
		a := &hxAttempt{closed: make(chan struct{})}
		m.mu.Lock()
		n := len(m.att)
		m.att = append(m.att, a)
		m.mu.Unlock()
		m.wg.Add(1)
		go func() {
			defer m.wg.Done()
			m.connection(c, a, m.plan(n))
		}()
	}
}

func (m *hxMaster) attempt(i int) *hxAttempt {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i < len(m.att) {
		return m.att[i]
	}
	return nil
}

func (m *hxMaster) attempts() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.att)
}

// shutdown ends the master; every connection is closed.
func (m *hxMaster) shutdown() {
	close(m.stop)
	m.l.Close()
	m.wg.Wait()
}

func hxPacket(seq byte, payload []byte) []byte {
	b := append(nxLE(uint64(len(payload)), 3), seq)
	return append(b, payload...)
}

func hxRead(c net.Conn) (seq byte, payload []byte, err error) {
	var h [4]byte
	if _, err = io.ReadFull(c, h[:]); err != nil {
		return
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	payload = make([]byte, n)
	_, err = io.ReadFull(c, payload)
	return h[3], payload, err
}

var hxOK = []byte{0, 0, 0, 2, 0, 0, 0}

func hxErrPacket(code uint16, msg string) []byte {
	b := append([]byte{0xff}, nxLE(uint64(code), 2)...)
	b = append(b, "#HY000"...)
	return append(b, msg...)
}

func (m *hxMaster) connection(c net.Conn, a *hxAttempt, p hxPlan) {
	done := make(chan struct{})
	defer close(done)
	go func() {
		select {
		case <-m.stop:
			c.Close()
		case <-done:
		}
	}()
	defer close(a.closed)
	defer c.Close()
	if p.fault == hxGreet {
		return
	}
	g := []byte{10}
	g = append(g, "5.7.30-log\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, "abcdefgh\x00"...)
	caps := uint32(0x00000001 | 0x00000200 | 0x00000008 | 0x00008000 | 0x00002000 | 0x00080000)
	g = append(g, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, "ijklmnopqrst\x00"...)
	g = append(g, "mysql_native_password\x00"...)
	c.Write(hxPacket(0, g))
	if _, _, err := hxRead(c); err != nil {
		a.eof.Store(true)
		return
	}
	a.heard.Store(true)
	if p.fault == hxDenied {
		c.Write(hxPacket(2, hxErrPacket(p.code, p.msg)))
		return
	}
	c.Write(hxPacket(2, hxOK))
	for {
		seq, cmd, err := hxRead(c)
		if err != nil || len(cmd) == 0 {
			a.eof.Store(true)
			return
		}
		switch cmd[0] {
		case 1:
			a.eof.Store(true)
			return
		case 3:
			m.mu.Lock()
			a.cmds = append(a.cmds, "query "+string(cmd[1:]))
			m.mu.Unlock()
			switch p.fault {
			case hxHangSet:
				continue
			case hxErrSet:
				c.Write(hxPacket(seq+1, hxErrPacket(p.code, p.msg)))
			default:
				c.Write(hxPacket(seq+1, hxOK))
			}
		case 18:
			if len(cmd) < 11 {
				m.mu.Lock()
				a.bad = fmt.Sprintf("short dump request %x", cmd)
				m.mu.Unlock()
				return
			}
			d := hxDump{off: binary.LittleEndian.Uint32(cmd[1:]), flags: binary.LittleEndian.Uint16(cmd[5:]), server: binary.LittleEndian.Uint32(cmd[7:]), file: string(cmd[11:])}
			m.mu.Lock()
			a.cmds = append(a.cmds, "dump")
			a.dump = append(a.dump, d)
			m.mu.Unlock()
			if !m.send(c, a, p, seq+1, d) {
				return
			}
			// whatever comes after the request is seen by the loop
		default:
			m.mu.Lock()
			a.cmds = append(a.cmds, fmt.Sprintf("command %d", cmd[0]))
			m.mu.Unlock()
			c.Write(hxPacket(seq+1, hxOK))
		}
	}
}

// send serves the dump; false when the connection is over.
func (m *hxMaster) send(c net.Conn, a *hxAttempt, p hxPlan, seq byte, d hxDump) bool {
	b := m.h.boundAt(d.file, d.off)
	if b == nil {
		c.Write(hxPacket(seq, hxErrPacket(1236, "no event starts there")))
		return true
	}
	pk, _ := m.h.packets(m.r, *b)
	stop := p.stop
	if stop < 0 || stop > len(pk) {
		stop = len(pk)
	}
	var out []byte
	flush := func(force bool) bool {
		for len(out) > 0 && (force || p.chunk <= 0 || len(out) >= p.chunk) {
			n := len(out)
			if p.chunk > 0 && n > p.chunk {
				n = p.chunk
			}
			if _, err := c.Write(out[:n]); err != nil {
				return false
			}
			out = out[n:]
		}
		return true
	}
	put := func(payload []byte) bool {
		for len(payload) >= 1<<24-1 {
			out = append(out, hxPacket(seq, payload[:1<<24-1])...)
			seq++
			payload = payload[1<<24-1:]
		}
		out = append(out, hxPacket(seq, payload)...)
		seq++
		if p.chunk >= 0 {
			return flush(false)
		}
		return true
	}
	for i := 0; i < stop; i++ {
		if p.gate != nil {
			if !flush(true) {
				return false
			}
			if !p.gate(i) {
				return true
			}
		}
		if !put(pk[i]) {
			return false
		}
		a.sent.Store(int64(i + 1))
	}
	if p.inject != nil {
		for _, e := range p.inject {
			if !put(append([]byte{0}, e...)) {
				return false
			}
		}
		for i := stop; i < len(pk); i++ {
			if !put(pk[i]) {
				return false
			}
		}
	}
	ok := flush(true)
	a.sent.Store(int64(stop) + 1)
	if !ok {
		return false
	}
	switch p.fault {
	case hxEOF:
		c.Write(hxPacket(seq, []byte{0xfe, 0, 0, 2, 0}))
	case hxErr:
		c.Write(hxPacket(seq, hxErrPacket(p.code, p.msg)))
	case hxClose:
		return false
	case hxReset:
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		return false
	case hxShort:
		ev := append([]byte{0}, m.h.evs[len(m.h.evs)-1].raw...)
		if stop < len(pk) {
			ev = pk[stop]
		}
		b := hxPacket(seq, ev)
		c.Write(b[:1+int(p.code)%(len(b)-1)])
		return false
	case hxSeq:
		ev := append([]byte{0}, m.h.evs[len(m.h.evs)-1].raw...)
		if stop < len(pk) {
			ev = pk[stop]
		}
		c.Write(hxPacket(seq+1+byte(p.code%250), ev))
	}
	return true
}

// ---- running a stream

type hxRun struct {
	err     error // of Stream
	errs    []error
	got     []*Transaction // accepted by the handler
	offered int
	why     string // a violation seen on the way
}

const hxLong = 20 * time.Second

// hxWithin runs f and says whether it came back in time.
func hxWithin(f func()) bool {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer func() {
			p = recover()
			close(done)
		}()
		f()
	}()
	select {
	case <-done:
		if p != nil {
			panic(p)
		}
		return true
	case <-time.After(hxLong):
		return false
	}
}

// hxLibGoroutines: goroutines with a frame of the library or its driver
func hxLibGoroutines() []string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, line := range strings.Split(g, "\n") {
			if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "goroutine ") {
				continue
			}
			created := strings.HasPrefix(line, "created by ")
			l := strings.TrimPrefix(line, "created by ")
			_ = created
			if (strings.HasPrefix(l, "github.com/Breeze0806/") || strings.HasPrefix(l, "github.com/!breeze0806/")) && !strings.Contains(l, ".hx") && !strings.Contains(l, "gobinlog.Test") &&
				!strings.Contains(l, "(*hx") && !strings.Contains(l, "vTrial") && !strings.Contains(l, ".search_") && !strings.Contains(l, ".known_") {
				out = append(out, g)
				break
			}
		}
	}
	// the known finding: the driver loses the connection when the
	// cancellation falls between its dial and its handshake
	n := int(hxDialLeaks.Load())
	k := 0
	for _, g := range out {
		if n > 0 && strings.Contains(g, "mysql.(*mysqlConn).startWatcher.func1(") && strings.Count(g, "\n\t") == 2 {
			n--
			continue
		}
		out[k] = g
		k++
	}
	return out[:k]
}

var hxDialLeaks atomic.Int64

// hxDialWindow: the caller has cancelled and the master has heard nothing
// from the client, not even the log in.
func hxDialWindow(ctx context.Context, err error, a *hxAttempt) bool {
	return err != nil && ctx.Err() != nil && strings.Contains(err.Error(), "context canceled") && strings.Contains(err.Error(), "newMysqlConn") &&
		(a == nil || !a.heard.Load())
}

func hxWait(cond func() bool) bool {
	end := time.Now().Add(hxLong)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(min(i, 100)) * 50 * time.Microsecond)
		}
	}
}

var _ = bytes.Equal
var _ = context.Background
