package gobinlog

import (
	"errors"

	"github.com/Breeze0806/gobinlog/replication"
)

// Contracts of getValuesFromRow, getIdentifiesFromRow and append*EventFromRows
// (C01, C09, C13, C15): for every table shape, presence bitmap, NULL pattern
// and image.

// specColumn: the mapper's column at an ordinal position.
type specColumn struct{ i int }

func (c specColumn) Field() string       { return vInjS("field", c.i) }
func (c specColumn) IsUnSignedInt() bool { return vUFB("unsigned", c.i) }

// The image of a row: which columns are present, which present ones are NULL,
// where a cell starts.
func imgPresent(c int) bool { return vUFB("present", c) }
func imgNull(v int) bool    { return vUFB("null", v) }
func imgIndex(c int) int    { return vUFN("valueIndex", c) } // present columns below c
func imgPos(c int) int      { return vUFN("cellPos", c) }
func imgHas(c int) bool     { return vAnd(imgPresent(c), !imgNull(imgIndex(c))) }

// cellText, cellLen: what CellBytes makes of the image at a position.
func cellText(pos int, typ byte, meta uint16, unsigned bool) string {
	return vUFS("cell", pos, int(typ), int(meta), vIte(unsigned, 1, 0))
}
func cellLen(pos int, typ byte, meta uint16, unsigned bool) int {
	return vUFN("cellLen", pos, int(typ), int(meta), vIte(unsigned, 1, 0))
}

type specImage struct {
	n     int // columns
	tc    *tableCache
	types []byte
	meta  []uint16
	rs    *replication.Rows
	row   int
	data  []byte // the image
	bad   bool   // a cell did not decode
}

// def: the defining equations of the image at column c.
func (g *specImage) def(c int) {
	vAssume(vAnd(imgIndex(0) == 0, imgPos(0) == 0))
	if vAnd(0 <= c, c < g.n) {
		vAssume(imgIndex(c+1) == imgIndex(c)+vIte(imgPresent(c), 1, 0))
		vAssume(imgPos(c+1) == imgPos(c)+vIte(imgHas(c), cellLen(imgPos(c), g.types[c], g.meta[c], vUFB("unsigned", c)), 0))
	}
}

func newImage(identify bool) *specImage {
	n := vRange("columns", 0, 1<<20)
	g := &specImage{n: n, types: vBytesN("types", n), meta: vListUF[uint16](n, "meta"), row: vRange("row", 0, 1<<40), data: vBytes("image")}
	g.tc = &tableCache{
		tableMap: &replication.TableMap{Types: g.types, Metadata: g.meta, CanBeNull: replication.NewServerBitmap(n)},
		table:    &specTable{MysqlTableName{vInjS("name", vInt("db")), vInjS("name", vInt("table"))}, vListIdx[MysqlColumn](n, specColumn{})}}
	// the bitmaps of the event and of the row
	rows := vRange("rows", 0, 1<<40)
	vAssume(g.row < rows)
	nulls := replication.NewServerBitmap(imgIndex(n))
	cols := replication.NewServerBitmap(vRange("rowsColumns", 0, 1<<20))
	row := replication.Row{NullColumns: replication.NewServerBitmap(imgIndex(n)), Data: vBytes("otherImage"),
		NullIdentifyColumns: nulls, Identify: g.data}
	g.rs = &replication.Rows{IdentifyColumns: cols, DataColumns: replication.NewServerBitmap(vRange("otherColumns", 0, 1<<20))}
	if !identify {
		row.NullColumns, row.NullIdentifyColumns = row.NullIdentifyColumns, row.NullColumns
		row.Data, row.Identify = row.Identify, row.Data
		g.rs.DataColumns, g.rs.IdentifyColumns = g.rs.IdentifyColumns, g.rs.DataColumns
	}
	g.rs.Rows = vList(rows, g.row, row)
	vUse("replication.(*Bitmap).Bit", func(b *replication.Bitmap, i int) bool {
		vEnsure(vAnd(0 <= i, i < b.Count()), "C09.C17.bitmap-in-range")
		if vSameRef(*b, cols) {
			return imgPresent(i)
		}
		vEnsure(vSameRef(*b, nulls), "C09.C13.right-bitmap")
		return imgNull(i)
	})
	vUse("replication.CellBytes", func(data []byte, pos int, typ byte, meta uint16, unsigned bool) ([]byte, int, error) {
		vEnsure(vSameRef(data, g.data), "C09.right-image")
		if vBool("cell") {
			g.bad = true
			return nil, 0, errors.New("cell")
		}
		return []byte(cellText(pos, typ, meta, unsigned)), cellLen(pos, typ, meta, unsigned), nil
	})
	return g
}

// column: what column c of the image is delivered as.
func (g *specImage) check(col *ColumnData, c int) {
	vEnsure(vEqS(col.Filed, vInjS("field", c)), "C15.C01.column-name")
	vEnsure(col.Type == ColumnType(g.types[c]), "C15.C01.column-type")
	vEnsure(col.IsEmpty == !imgPresent(c), "C13.C01.absent-flag")
	vEnsure((col.Data == nil) == !imgHas(c), "C13.C01.null-has-no-data")
	if col.Data != nil {
		vEnsure(vEqS(string(col.Data), cellText(imgPos(c), g.types[c], g.meta[c], vUFB("unsigned", c))), "C09.C01.C10.C15.cell-decoded")
	}
}

func (g *specImage) loop(k int) interface{} {
	return func(c int, cols *[]*ColumnData, pos, index int) {
		switch vMode() {
		case 2:
			vInv(vAnd(0 <= c, c <= g.n), "column")
			vInv(vAnd(pos == imgPos(c), index == imgIndex(c)), "position")
			g.def(c)
			// lemma (prove_C09_lemma_count): below a present column there are
			// fewer present columns than in all
			vAssume(vImp(vAnd(c < g.n, imgPresent(c)), imgIndex(c) < imgIndex(g.n)))
			g.bad = false
			want := &ColumnData{}
			if k < c {
				want.Filed, want.Type, want.IsEmpty = vInjS("field", k), ColumnType(g.types[k]), !imgPresent(k)
				if imgHas(k) {
					want.Data = []byte(cellText(imgPos(k), g.types[k], g.meta[k], vUFB("unsigned", k)))
				}
			}
			vBind(cols, vList(c, k, want), "columns")
		default:
			vInv(vAnd(0 <= c, c <= g.n), "column")
			vEnsure(vAnd(pos == imgPos(c), index == imgIndex(c)), "C09.C01.position-in-the-image")
			vEnsure(!g.bad, "C06.C09.bad-cell-ends-the-row")
			if vMode() == 1 {
				vInv(len(*cols) == c, "columns-appended-one-by-one")
			} else {
				vEnsure(len(*cols) == c, "C09.C15.every-column")
			}
			if k < c {
				g.check((*cols)[k], k)
			}
		}
	}
}

func proveImage(identify bool, f func(tc *tableCache, rs *replication.Rows, row int) (*RowData, error)) {
	k := vRange("k", 0, 1<<20)
	g := newImage(identify)
	g.def(0)
	name, cnt := "getValuesFromRow", g.rs.DataColumns.Count()
	if identify {
		name, cnt = "getIdentifiesFromRow", g.rs.IdentifyColumns.Count()
		l := g.loop(k).(func(c int, cols *[]*ColumnData, pos, index int))
		vLoop(name, 0, func(c int, identifies *RowData, pos, identifyIndex int) {
			l(c, &identifies.Columns, pos, identifyIndex)
		})
	} else {
		l := g.loop(k).(func(c int, cols *[]*ColumnData, pos, index int))
		vLoop(name, 0, func(c int, values *RowData, pos, valueIndex int) { l(c, &values.Columns, pos, valueIndex) })
	}
	out, err := f(g.tc, g.rs, g.row)
	if cnt != g.n {
		vCover("mismatch")
		vEnsure(err != nil, "C15.column-count-rejected")
		return
	}
	if g.bad {
		vCover("bad")
		vEnsure(err != nil, "C06.C09.bad-cell-reported")
		return
	}
	vCover("row")
	vEnsure(err == nil, "C01.C09.row-decodes")
	vEnsure(len(out.Columns) == g.n, "C09.C15.C01.all-columns")
	if k < g.n {
		g.check(out.Columns[k], k)
	}
}

func prove_C01_C06_C09_C10_C13_C15_values()     { proveImage(false, getValuesFromRow) }
func prove_C01_C06_C09_C10_C13_C15_identifies() { proveImage(true, getIdentifiesFromRow) }

// ---- append*EventFromRows: one change per row, in order

func proveAppend(typ StatementType, fn string, f func(tc *tableCache, rows *replication.Rows, ts int64) (*StreamEvent, error)) {
	n, k := vRange("rows", 0, 1<<40), vRange("k", 0, 1<<40)
	rows := &replication.Rows{Rows: vList(n, k, replication.Row{})}
	tc := &tableCache{tableMap: &replication.TableMap{}, table: &specTable{MysqlTableName{vInjS("name", vInt("db")), vInjS("name", vInt("table"))}, nil}}
	ts := vI64("timestamp")
	bad, cur := false, 0
	val, ident := &RowData{}, &RowData{} // the images of row k
	image := func(mine *RowData) func(t *tableCache, rs *replication.Rows, i int) (*RowData, error) {
		return func(t *tableCache, rs *replication.Rows, i int) (*RowData, error) {
			vEnsure(vAnd(t == tc, rs == rows), "C01.C15.rows.of-this-event")
			vEnsure(i == cur, "C01.rows.row-in-order")
			if vBool("bad") {
				bad = true
				return nil, errors.New("row")
			}
			if i == k {
				return mine, nil
			}
			return &RowData{}, nil
		}
	}
	vUse("getValuesFromRow", image(val))
	vUse("getIdentifiesFromRow", image(ident))
	hasVal, hasIdent := typ != StatementDelete, typ != StatementInsert
	check := func(list []*RowData, c int, has bool, want *RowData, what string) {
		if !has {
			vEnsure(len(list) == 0, "C01.rows."+what+".none")
			return
		}
		if vMode() == 1 {
			vInv(len(list) == c, what+"-appended-one-by-one")
		} else {
			vEnsure(len(list) == c, "C01.C09.rows."+what+".one-per-row")
		}
		if k < c {
			vEnsure(list[k] == want, "C01.C09.rows."+what+".of-the-row")
		}
	}
	whole := func(ev *StreamEvent, c int) {
		vEnsure(ev.Type == typ, "C01.rows.kind")
		vEnsure(ev.Timestamp == ts, "C01.rows.timestamp")
		vEnsure(sameName(ev.Table, tc.table.Name()), "C01.C15.rows.table")
		vEnsure(vEqS(ev.Query.SQL, ""), "C01.C20.rows.no-sql")
		check(ev.RowValues, c, hasVal, val, "values")
		check(ev.RowIdentifies, c, hasIdent, ident, "identifies")
	}
	vLoop(fn, 0, func(rangeindex int, ev *StreamEvent) {
		c := rangeindex + 1
		vInv(vAnd(0 <= c, c <= n), "row")
		cur = c
		if vMode() == 2 {
			bad = false
			if hasVal {
				vBind(&ev.RowValues, vList(c, k, val), "values")
			}
			if hasIdent {
				vBind(&ev.RowIdentifies, vList(c, k, ident), "identifies")
			}
		} else {
			vEnsure(!bad, "C06.C09.bad-row-ends-the-event")
			whole(ev, c)
		}
	})
	ev, err := f(tc, rows, ts)
	if bad {
		vCover("bad")
		vEnsure(err != nil, "C06.C09.bad-row-reported")
		return
	}
	vCover("event")
	vEnsure(err == nil, "C01.rows.decodes")
	whole(ev, n)
}

func prove_C01_C06_C09_C15_C20_insert() {
	proveAppend(StatementInsert, "appendInsertEventFromRows", appendInsertEventFromRows)
}
func prove_C01_C06_C09_C15_C20_update() {
	proveAppend(StatementUpdate, "appendUpdateEventFromRows", appendUpdateEventFromRows)
}
func prove_C01_C06_C09_C15_C20_delete() {
	proveAppend(StatementDelete, "appendDeleteEventFromRows", appendDeleteEventFromRows)
}
