package gobinlog

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/Breeze0806/gobinlog/replication"
)

// The contract of (*Streamer).parseEvents: one iteration of its loop, for any
// event in any state (C01-C04, C15, C17), under the contracts of the event
// accessors (proved in replication), of GetStatementCategory and of
// append*EventFromRows.

// ---- event kinds

const (
	kFDE = iota
	kXID
	kRotate
	kQuery
	kTableMap
	kWrite
	kUpdate
	kDelete
	kPrevGTIDs
	kGTID
	kRand
	kIntVar
	kRowsQuery
	kOther
	kMax
)

// specState: the abstract state before an event, and what this event has done
// so far.
type specState struct {
	pos      Position
	open     bool // a BEGIN is open
	n        int  // pending changes
	elem     *StreamEvent
	snap     StreamEvent // contents of elem
	haveFmt  bool
	format   replication.BinlogFormat
	present  bool // the table id has an entry
	tm       *replication.TableMap
	tcK      *tableCache
	ev       *specEvent
	closed   bool // the channel was closed, or the context ended
	fail     bool // a decoder, the mapper or the handler failed
	handled  bool // the handler was called

	disagrees bool // the mapper's table has another number of columns
	accepted bool
	rotated  bool
	gotFmt   bool
	made     *StreamEvent // the change made of a rows event
	tran     []*StreamEvent
}

// specEvent is an event whose contents are unknown. Its methods check that
// they are used as the interface demands.
type specEvent struct {
	g        *specState
	raw      *specEvent // the event before StripChecksum
	kind     int
	valid    bool
	asked    bool // IsValid was called
	stripped bool
	next     int64
	ts       uint32
	id       uint64 // table id
	cat      StatementType
	query    replication.Query
	rows     replication.Rows
	file     string
	off      int64
}

func (e *specEvent) use() {
	vEnsure(e.raw.asked, "C17.gate.before-use")
	vEnsure(e.raw.valid, "C17.gate.rejects")
}

func (e *specEvent) body(f replication.BinlogFormat) {
	e.use()
	vEnsure(e.stripped, "C01.C16.body-without-checksum")
	vEnsure(e.g.haveFmt, "C01.C16.body-needs-format")
	vEnsure(sameFormat(f, e.g.format), "C01.C16.body-format")
}

func sameFormat(a, b replication.BinlogFormat) bool {
	return vAnd(a.FormatVersion == b.FormatVersion, vEqS(a.ServerVersion, b.ServerVersion),
		a.HeaderLength == b.HeaderLength, a.ChecksumAlgorithm == b.ChecksumAlgorithm)
}

func (e *specEvent) is(k int) bool { e.use(); return e.kind == k }

func (e *specEvent) failure(name string) error {
	if vBool(name) {
		e.g.fail = true
		return errors.New(name)
	}
	return nil
}

// userError: what the handler and the mapper may fail with.
func userError(name string) error {
	switch vRange(name+"-error", 0, 5) {
	case 1:
		return io.EOF
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return errStreamEOF
	case 5:
		return masterError(name)
	}
	return errors.New(name)
}

func (e *specEvent) IsValid() bool {
	e.raw.asked = true
	return e.raw.valid
}
func (e *specEvent) IsFormatDescription() bool { return e.is(kFDE) }
func (e *specEvent) IsQuery() bool             { return e.is(kQuery) }
func (e *specEvent) IsXID() bool               { return e.is(kXID) }
func (e *specEvent) IsGTID() bool              { return e.is(kGTID) }
func (e *specEvent) IsRotate() bool            { return e.is(kRotate) }
func (e *specEvent) IsIntVar() bool            { return e.is(kIntVar) }
func (e *specEvent) IsRand() bool              { return e.is(kRand) }
func (e *specEvent) IsPreviousGTIDs() bool     { return e.is(kPrevGTIDs) }
func (e *specEvent) IsRowsQuery() bool         { return e.is(kRowsQuery) }
func (e *specEvent) IsTableMap() bool          { return e.is(kTableMap) }
func (e *specEvent) IsWriteRows() bool         { return e.is(kWrite) }
func (e *specEvent) IsUpdateRows() bool        { return e.is(kUpdate) }
func (e *specEvent) IsDeleteRows() bool        { return e.is(kDelete) }
func (e *specEvent) Timestamp() uint32         { e.use(); return e.ts }
func (e *specEvent) NextPosition() int64       { e.use(); return e.next }
func (e *specEvent) IsPseudo() bool            { e.use(); return false }
func (e *specEvent) Bytes() []byte             { e.use(); return nil }

func (e *specEvent) Format() (replication.BinlogFormat, error) {
	e.use()
	vEnsure(!e.stripped, "C16.format-of-unstripped")
	if err := e.failure("format"); err != nil {
		return replication.BinlogFormat{}, err
	}
	f := replication.BinlogFormat{FormatVersion: 4, ServerVersion: vInjS("version", vInt("version")),
		HeaderLength: byte(vRange("headerLength", 19, 255)), ChecksumAlgorithm: vByte("alg")}
	e.g.format, e.g.haveFmt, e.g.gotFmt = f, true, true
	return f, nil
}

func (e *specEvent) GTID(f replication.BinlogFormat) (replication.GTID, bool, error) {
	e.body(f)
	return nil, false, e.failure("gtid")
}

func (e *specEvent) PreviousGTIDs(f replication.BinlogFormat) (replication.GTIDSet, error) {
	e.body(f)
	return nil, e.failure("previousGtids")
}

func (e *specEvent) IntVar(f replication.BinlogFormat) (byte, uint64, error) {
	e.body(f)
	return 1, vU64("intvar"), e.failure("intvarErr")
}

func (e *specEvent) Rand(f replication.BinlogFormat) (uint64, uint64, error) {
	e.body(f)
	return vU64("seed1"), vU64("seed2"), e.failure("rand")
}

func (e *specEvent) Query(f replication.BinlogFormat) (replication.Query, error) {
	e.body(f)
	if err := e.failure("query"); err != nil {
		return replication.Query{}, err
	}
	return e.query, nil
}

func (e *specEvent) Rotate(f replication.BinlogFormat) (string, int64, error) {
	e.body(f)
	if err := e.failure("rotate"); err != nil {
		return "", 0, err
	}
	e.g.rotated = true
	return e.file, e.off, nil
}

func (e *specEvent) TableID(f replication.BinlogFormat) uint64 {
	e.body(f)
	return e.id
}

func (e *specEvent) TableMap(f replication.BinlogFormat) (*replication.TableMap, error) {
	e.body(f)
	if err := e.failure("tableMap"); err != nil {
		return nil, err
	}
	tm := symTableMap("tm")
	if e.id == specK {
		e.g.tm, e.g.present = tm, true
	}
	specTM = tm
	return tm, nil
}

func symTableMap(p string) *replication.TableMap {
	return &replication.TableMap{Database: vInjS("name", vInt(p+".db")), Name: vInjS("name", vInt(p+".table")),
		CanBeNull: replication.NewServerBitmap(vRange(p+".columns", 0, 1<<20))}
}

func (e *specEvent) Rows(f replication.BinlogFormat, tm *replication.TableMap) (replication.Rows, error) {
	e.body(f)
	if e.id == specK {
		vEnsure(e.g.present, "C15.rows.announced")
		vEnsure(tm == e.g.tm, "C15.C01.rows.latest-table-map")
	}
	if err := e.failure("rows"); err != nil {
		return replication.Rows{}, err
	}
	return e.rows, nil
}

func (e *specEvent) StripChecksum(f replication.BinlogFormat) (replication.BinlogEvent, []byte, error) {
	e.use()
	vEnsure(e.g.haveFmt, "C01.C16.strip-needs-format")
	vEnsure(sameFormat(f, e.g.format), "C01.C16.strip-format")
	if err := e.failure("strip"); err != nil {
		return nil, nil, err
	}
	n := *e
	n.stripped = true
	return &n, nil, nil
}

// ---- the mapper

type specMapper struct{ g *specState }
type specTable struct {
	name MysqlTableName
	cols []MysqlColumn
}

func (t *specTable) Name() MysqlTableName   { return t.name }
func (t *specTable) Columns() []MysqlColumn { return t.cols }

var specTM *replication.TableMap // the table map of the current event
var specK uint64                 // any table id
var specJ uint64                 // any other table id

func newSpecTable(name MysqlTableName, p string) *specTable {
	return &specTable{name, vList[MysqlColumn](vRange(p, 0, 1<<20), 0, nil)}
}

func sameName(a, b MysqlTableName) bool {
	return vAnd(vEqS(a.DbName, b.DbName), vEqS(a.TableName, b.TableName))
}
func nameOf(tm *replication.TableMap) MysqlTableName {
	return MysqlTableName{DbName: tm.Database, TableName: tm.Name}
}

func (m *specMapper) MysqlTable(name MysqlTableName) (MysqlTable, error) {
	vEnsure(sameName(name, nameOf(specTM)), "C15.mapper.asked-for-the-announced-table")
	if vBool("mapper") {
		m.g.fail = true
		return nil, userError("mapper")
	}
	t := newSpecTable(name, "mapper.columns")
	if len(t.cols) != specTM.CanBeNull.Count() {
		m.g.fail, m.g.disagrees = true, true
	}
	return t, nil
}

// ---- context

type specCtx struct {
	context.Context
	done  chan struct{}
	ended bool
	err   error
}

func (c *specCtx) Done() <-chan struct{} { return c.done }

// Err: whatever it is when it is asked for, and then for good.
func (c *specCtx) Err() error {
	if c.err == nil {
		switch vRange("contextErr", 0, 2) {
		case 1:
			c.err = context.Canceled
		case 2:
			c.err = context.DeadlineExceeded
		default:
			vAssume(!c.ended)
		}
	}
	return c.err
}
func (c *specCtx) Deadline() (time.Time, bool) {
	return time.Time{}, false
}
func (c *specCtx) Value(k interface{}) interface{} { return nil }

// ---- the contract

// isChange: a statement that is a change (recorded in the transaction).
func isChange(c StatementType) bool {
	return vOr(c == StatementInsert, c == StatementUpdate, c == StatementDelete, c == StatementCreate, c == StatementAlter,
		c == StatementDrop, c == StatementTruncate, c == StatementRename, c == StatementSet)
}
func isRows(k int) bool { return vOr(k == kWrite, k == kUpdate, k == kDelete) }

// adds: the event adds a change to the open transaction.
func adds(g *specState) bool {
	return vOr(vAnd(g.ev.kind == kQuery, isChange(g.ev.cat)), isRows(g.ev.kind))
}

// commits: the event is a commit point.
func commits(g *specState) bool {
	q := g.ev.kind == kQuery
	return vOr(g.ev.kind == kXID, vAnd(q, vOr(g.ev.cat == StatementCommit, g.ev.cat == StatementRollback)), vAnd(adds(g), !g.open))
}

func rowsType(k int) StatementType {
	switch k {
	case kWrite:
		return StatementInsert
	case kUpdate:
		return StatementUpdate
	}
	return StatementDelete
}

// checkElem: the tracked element of the list of changes, after the event.
func checkElem(g *specState, k int, list []*StreamEvent, what string) {
	n := g.n
	if adds(g) {
		n++
	}
	vEnsure(len(list) == n, "C01.C02."+what+".number-of-changes")
	if k < g.n {
		vEnsure(sameChange(list[k], &g.snap), "C01.C02."+what+".earlier-change-intact")
	} else if k < n {
		c := list[k]
		vEnsure(c.Timestamp == int64(g.ev.ts), "C01."+what+".change-timestamp")
		if g.ev.kind == kQuery {
			vEnsure(c.Type == g.ev.cat, "C01."+what+".statement-type")
			vEnsure(vSame(c.Query, g.ev.query), "C01."+what+".statement")
			vEnsure(vAnd(len(c.RowValues) == 0, len(c.RowIdentifies) == 0), "C01."+what+".statement-has-no-rows")
		} else {
			vEnsure(g.made != nil, "C01."+what+".rows-decoded")
			vEnsure(sameChange(c, g.made), "C01."+what+".rows-change")
		}
	}
}

func sameChange(a, b *StreamEvent) bool {
	return vAnd(a.Type == b.Type, sameName(a.Table, b.Table), a.Timestamp == b.Timestamp, vSame(a.Query, b.Query),
		vSame(a.RowValues, b.RowValues), vSame(a.RowIdentifies, b.RowIdentifies))
}

// change: what append*EventFromRows makes of a rows event (any contents).
func change(p string, typ StatementType, table MysqlTableName, ts int64) *StreamEvent {
	return &StreamEvent{Type: typ, Table: table, Timestamp: ts,
		Query:         replication.Query{SQL: vInjS("sql", vInt(p+".sql"))},
		RowValues:     []*RowData{&RowData{}},
		RowIdentifies: []*RowData{&RowData{}}}
}

func prove_C01_C02_C03_C04_C05_C06_C08_C15_C16_C17_parse() {
	k := vRange("k", 0, 1<<40)
	specK, specJ = vU64("K"), vU64("J")
	vAssume(specK != specJ)
	start := Position{Filename: vInjS("file", vInt("startFile")), Offset: vI64("startOffset")}
	g := &specState{}
	s, bad := NewStreamer("dsn", vU32("serverID"), &specMapper{g})
	vEnsure(bad == nil, "C01.streamer")
	s.SetBinlogPosition(start)
	ctx := &specCtx{done: make(chan struct{})}
	vCanRecv(ctx.done, func() bool { return vBool("cancelled") })
	vOnRecv(ctx.done, func() (struct{}, bool) {
		g.closed, ctx.ended = true, true
		return struct{}{}, false
	})
	events := make(chan replication.BinlogEvent)
	vOnRecv(events, func() (replication.BinlogEvent, bool) {
		if vBool("closed") {
			g.closed = true
			return nil, false
		}
		e := &specEvent{g: g, kind: vRange("kind", 0, kMax-1), valid: vBool("valid"), next: vI64("next"), ts: vU32("ts"), id: vU64("tableID"),
			cat:   StatementType(vRange("category", int(StatementUnknown), int(StatementSet))),
			query: replication.Query{Database: vInjS("db", vInt("db")), SQL: vInjS("sql", vInt("sql")), Charset: &replication.Charset{}},
			rows:  replication.Rows{Flags: vU16("rowsFlags")},
			file:  vInjS("file", vInt("rotateFile")), off: vI64("rotateOffset")}
		e.raw = e
		g.ev = e
		if !e.valid {
			g.fail = true
		}
		return e, true
	})
	s.sendTransaction = func(t *Transaction) error {
		vCover("delivery")
		vEnsure(g.haveFmt, "C01.delivery-before-format")
		vEnsure(!g.handled, "C02.delivered-once")
		vEnsure(commits(g), "C02.delivery-only-at-commit")
		vEnsure(!g.fail, "C06.C02.no-delivery-after-failure")
		g.handled = true
		vEnsure(vAnd(vEqS(t.NowPosition.Filename, g.pos.Filename), t.NowPosition.Offset == g.pos.Offset), "C03.start-label")
		vEnsure(vAnd(vEqS(t.NextPosition.Filename, g.pos.Filename), t.NextPosition.Offset == g.ev.next), "C03.end-label")
		vEnsure(t.Timestamp == int64(g.ev.ts), "C01.transaction-timestamp")
		if vAnd(g.ev.kind == kQuery, g.ev.cat == StatementRollback) {
			vEnsure(len(t.Events) == 0, "C02.rollback-delivers-nothing")
		} else {
			checkElem(g, k, t.Events, "delivered")
		}
		if vBool("handler") {
			g.fail = true
			return userError("handler")
		}
		g.accepted = true
		g.tran = t.Events
		return nil
	}
	vUse("GetStatementCategory", func(sql string) StatementType {
		vEnsure(vEqS(sql, g.ev.query.SQL), "C02.category-of-the-statement")
		return g.ev.cat
	})
	appendRows := func(kind int) func(tc *tableCache, rows *replication.Rows, ts int64) (*StreamEvent, error) {
		return func(tc *tableCache, rows *replication.Rows, ts int64) (*StreamEvent, error) {
			vEnsure(g.ev.kind == kind, "C01.rows.kind")
			vEnsure(rows.Flags == g.ev.rows.Flags, "C01.rows.rows-of-the-event")
			vEnsure(ts == int64(g.ev.ts), "C01.rows.timestamp")
			if g.ev.id == specK {
				vEnsure(g.present, "C15.rows.announced")
				vEnsure(tc.tableMap == g.tm, "C15.C01.rows.latest-table-map")
				vEnsure(sameName(tc.table.Name(), nameOf(g.tm)), "C15.C01.rows.table")
			}
			ev := change("new", rowsType(kind), tc.table.Name(), ts)
			if vBool("append") {
				g.fail = true
				return ev, errors.New("append")
			}
			g.made = ev
			return ev, nil
		}
	}
	vUse("appendInsertEventFromRows", appendRows(kWrite))
	vUse("appendUpdateEventFromRows", appendRows(kUpdate))
	vUse("appendDeleteEventFromRows", appendRows(kDelete))

	// settle: the state after the event
	settle := func() {
		if g.accepted {
			g.pos.Offset = g.ev.next
		}
		if g.rotated {
			g.pos.Filename, g.pos.Offset = g.ev.file, g.ev.off
		}
	}

	vLoop("(*Streamer).parseEvents", 0, func(pos *Position, format *replication.BinlogFormat, autocommit *bool, tranEvents *[]*StreamEvent, tablesMaps *map[uint64]*tableCache) {
		switch vMode() {
		case 1:
			vEnsure(vSame(*pos, start), "C03.initial-position")
			vEnsure(vAnd(format.IsZero(), *autocommit, len(*tranEvents) == 0, len(*tablesMaps) == 0), "C02.initial-state")
		case 2:
			ctx.ended, ctx.err = false, nil
			*g = specState{pos: Position{Filename: vInjS("file", vInt("posFile")), Offset: vI64("posOffset")}, open: vBool("open"),
				n: vRange("n", 0, 1<<40), haveFmt: vBool("haveFmt"), present: vBool("present")}
			vAssume(vImp(!g.open, g.n == 0))
			g.elem = change("old", StatementType(vRange("old.type", 0, 12)), MysqlTableName{vInjS("name", vInt("old.db")), vInjS("name", vInt("old.table"))}, vI64("old.ts"))
			g.snap = *g.elem
			if g.haveFmt {
				g.format = replication.BinlogFormat{FormatVersion: 4, ServerVersion: vInjS("version", vInt("curVersion")),
					HeaderLength: byte(vRange("curHeaderLength", 19, 255)), ChecksumAlgorithm: vByte("curAlg")}
			}
			vBind(pos, g.pos, "pos")
			vBind(format, g.format, "format")
			vBind(autocommit, !g.open, "autocommit")
			if vBool("nilList") {
				vAssume(g.n == 0)
				vBind(tranEvents, nil, "tranEvents")
			} else {
				vBind(tranEvents, vList(g.n, k, g.elem), "tranEvents")
			}
			g.tm = symTableMap("curTM")
			t := newSpecTable(nameOf(g.tm), "curColumns")
			vAssume(len(t.cols) == g.tm.CanBeNull.Count())
			g.tcK = &tableCache{tableMap: g.tm, table: t}
			vBind(tablesMaps, vMapGen(func(id uint64) (*tableCache, bool) {
				if id == specK {
					return g.tcK, g.present
				}
				tm := symTableMap("otherTM")
				t := newSpecTable(nameOf(tm), "otherColumns")
				vAssume(len(t.cols) == tm.CanBeNull.Count())
				return &tableCache{tableMap: tm, table: t}, vBool("otherPresent")
			}), "tablesMaps")
		case 3:
			vCover("next")
			vEnsure(vSpawned() == 0, "C05.no-goroutine")
			vEnsure(!g.closed, "C01.C06.stops-at-end")
			vEnsure(!g.disagrees, "C15.C06.other-column-count-rejected")
			vEnsure(!g.fail, "C06.C04.failure-ends-the-stream")
			vEnsure(vImp(!g.haveFmt, vOr(g.ev.kind == kRotate, g.ev.kind == kFDE)), "C01.event-before-format")
			vEnsure(vImp(g.ev.kind == kFDE, g.gotFmt), "C16.C01.format-followed")
			real := vAnd(g.haveFmt, g.ev.kind != kFDE)
			vEnsure(vImp(real, vImp(commits(g), g.handled)), "C01.C02.commit-delivers")
			vEnsure(vImp(vAnd(real, g.ev.kind == kRotate), g.rotated), "C03.rotation-followed")
			vEnsure(vImp(vAnd(g.ev.id == specK, isRows(g.ev.kind)), g.present), "C15.C01.C06.unknown-table-id")
			settle()
			vEnsure(vAnd(vEqS(pos.Filename, g.pos.Filename), pos.Offset == g.pos.Offset), "C03.C04.position")
			begins := vAnd(real, g.ev.kind == kQuery, g.ev.cat == StatementBegin)
			open := g.open
			if begins {
				open = true
			} else if g.accepted {
				open = false
			}
			vEnsure(*autocommit == !open, "C02.transaction-open")
			if vAnd(begins, g.open) {
				// not in a well-formed binlog
			} else if vOr(begins, g.accepted) {
				vEnsure(len(*tranEvents) == 0, "C02.buffer-empty-at-boundary")
			} else if real {
				checkElem(g, k, *tranEvents, "buffered")
			} else {
				vEnsure(len(*tranEvents) == g.n, "C02.buffer-unchanged")
			}
			if g.accepted {
				vEnsure(!vSameArr(*tranEvents, g.tran), "C02.C08.delivered-list-not-reused")
			}
			vEnsure(vIte(g.haveFmt, 1, 0) == vIte(!format.IsZero(), 1, 0), "C16.format-kept")
			vEnsure(sameFormat(*format, g.format), "C16.format-kept")
			tc, ok := (*tablesMaps)[specK]
			vEnsure(ok == g.present, "C15.table-known")
			if ok {
				vEnsure(tc.tableMap == g.tm, "C15.latest-table-map")
				vEnsure(sameName(tc.table.Name(), nameOf(g.tm)), "C15.table-of-the-map")
				vEnsure(len(tc.table.Columns()) == g.tm.CanBeNull.Count(), "C15.column-count")
				other, ok := (*tablesMaps)[specJ]
				vEnsure(vOr(!ok, other != tc), "C15.ids-apart")
			}
		}
	})
	got, err := s.parseEvents(ctx, events)
	vCover("end")
	vEnsure(vSpawned() == 0, "C05.no-goroutine")
	settle()
	vEnsure(vAnd(vEqS(got.Filename, g.pos.Filename), got.Offset == g.pos.Offset), "C04.C17.resume-position")
	if g.closed {
		vCover("closed")
		vEnsure(err == nil, "C06.clean-end")
		vEnsure(!g.handled, "C02.delivery-after-end")
	} else {
		vCover("failed")
		vEnsure(err != nil, "C06.C17.failure-reported")
		// nothing else ends the stream
		vEnsure(vOr(g.fail, !g.haveFmt, g.ev.kind == kRand, g.ev.kind == kIntVar, g.ev.kind == kRowsQuery,
			vAnd(isRows(g.ev.kind), vOr(g.ev.id != specK, !g.present))), "C01.no-spurious-failure")
		vEnsure(!g.accepted, "C04.accepted-then-failed")
	}
}
