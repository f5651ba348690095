package gobinlog

import (
	"encoding/json"

	"github.com/Breeze0806/gobinlog/replication"
)

// Contracts of the marshalers (C20): each of Transaction, StreamEvent, RowData
// and ColumnData serialises without error to an object with its own members,
// and its lists to the lists of its elements in order. encoding/json is taken
// by its documentation; by induction over the nesting the whole transaction
// serialises.

func specMarshal(v interface{}) ([]byte, error) {
	if m, ok := v.(json.Marshaler); ok {
		return m.MarshalJSON()
	}
	return json.Marshal(v)
}

func prove_C20_transaction() {
	n := vRange("events", 0, 1<<40)
	t := &Transaction{NowPosition: Position{vString("nowFile"), vI64("nowOffset")}, NextPosition: Position{vString("nextFile"), vI64("nextOffset")},
		Timestamp: int64(vU32("timestamp")), Events: vList(n, 0, (*StreamEvent)(nil))}
	if vBool("noEvents") {
		n, t.Events = 0, nil
	}
	now, next, events := t.NowPosition, t.NextPosition, t.Events
	vFrame(true)
	b, err := specMarshal(t)
	vFrame(false)
	vCover("transaction")
	vEnsure(err == nil, "C20.succeeds")
	vEnsure(vAnd(vJSONStr(b, "nowPosition.filename", now.Filename), vJSONInt(b, "nowPosition.offset", now.Offset)), "C20.now-position")
	vEnsure(vAnd(vJSONStr(b, "nextPosition.filename", next.Filename), vJSONInt(b, "nextPosition.offset", next.Offset)), "C20.next-position")
	vEnsure(vJSONList(b, "events", events), "C20.events-in-order")
}

func prove_C20_event() {
	s := &StreamEvent{Type: StatementType(vEnum("kind", 0, 13)), Table: MysqlTableName{vString("db"), vString("table")}, Timestamp: int64(vU32("timestamp")),
		Query: replication.Query{Database: vString("database"), SQL: vString("sql")}}
	s.RowValues = vList(vRange("values", 0, 1<<40), 0, (*RowData)(nil))
	s.RowIdentifies = vList(vRange("identifies", 0, 1<<40), 0, (*RowData)(nil))
	if vBool("noValues") {
		s.RowValues = nil
	}
	if vBool("noIdentifies") {
		s.RowIdentifies = nil
	}
	w := *s
	vFrame(true)
	b, err := specMarshal(s)
	vFrame(false)
	vCover("event")
	vEnsure(err == nil, "C20.succeeds")
	kind := "unknown"
	for i, c := range specCategories {
		if c == w.Type {
			kind = specKeywords[i]
		}
	}
	vEnsure(vJSONStr(b, "type", kind), "C20.kind")
	vEnsure(vAnd(vJSONStr(b, "name.db", w.Table.DbName), vJSONStr(b, "name.table", w.Table.TableName)), "C20.table")
	if w.Query.SQL != "" {
		vEnsure(vJSONStr(b, "sql", w.Query.SQL), "C20.sql")
		return
	}
	vEnsure(vJSONList(b, "rowValues", w.RowValues), "C20.row-values-in-order")
	vEnsure(vJSONList(b, "rowIdentifies", w.RowIdentifies), "C20.row-identifiers-in-order")
}

func prove_C20_row() {
	r := &RowData{Columns: vList(vRange("columns", 0, 1<<40), 0, (*ColumnData)(nil))}
	if vBool("noColumns") {
		r.Columns = nil
	}
	cols := r.Columns
	vFrame(true)
	b, err := specMarshal(r)
	vFrame(false)
	vCover("row")
	vEnsure(err == nil, "C20.succeeds")
	vEnsure(vJSONList(b, "Columns", cols), "C20.columns-in-order")
}

var specTypes = []byte{replication.TypeDecimal, replication.TypeTiny, replication.TypeShort, replication.TypeLong, replication.TypeFloat, replication.TypeDouble,
	replication.TypeNull, replication.TypeTimestamp, replication.TypeLongLong, replication.TypeInt24, replication.TypeDate, replication.TypeTime,
	replication.TypeDateTime, replication.TypeYear, replication.TypeNewDate, replication.TypeVarchar, replication.TypeBit, replication.TypeTimestamp2,
	replication.TypeDateTime2, replication.TypeTime2, replication.TypeJSON, replication.TypeNewDecimal, replication.TypeEnum, replication.TypeSet,
	replication.TypeTinyBlob, replication.TypeMediumBlob, replication.TypeLongBlob, replication.TypeBlob, replication.TypeVarString, replication.TypeString,
	replication.TypeGeometry}
var specTypeNames = []string{"Decimal", "Tiny", "Short", "Long", "Float", "Double",
	"Null", "Timestamp", "LongLong", "Int24", "Date", "Time",
	"DateTime", "Year", "NewDate", "Varchar", "Bit", "Timestamp2",
	"DateTime2", "Time2", "JSON", "NewDecimal", "Enum", "Set",
	"TinyBlob", "MediumBlob", "LongBlob", "Blob", "VarString", "String",
	"Geometry"}

func prove_C20_column() {
	k := vEnum("type", 0, 31)
	c := &ColumnData{Filed: vString("name"), IsEmpty: vBool("absent"), Data: vBytes("data")}
	want := "unknown"
	if k < 31 {
		c.Type, want = ColumnType(specTypes[k]), specTypeNames[k]
	} else {
		c.Type = ColumnType(vRange("code", 0, 255))
		for _, t := range specTypes {
			vAssume(c.Type != ColumnType(t))
		}
	}
	if vBool("null") {
		c.Data = nil
	}
	w := *c
	vFrame(true)
	b, err := specMarshal(c)
	vFrame(false)
	vCover("column")
	vEnsure(err == nil, "C20.succeeds")
	vEnsure(vJSONStr(b, "filed", w.Filed), "C20.column-name")
	vEnsure(vJSONStr(b, "type", want), "C20.column-type")
	vEnsure(vJSONBool(b, "isEmpty", w.IsEmpty), "C20.column-absent")
	if w.Data == nil {
		vEnsure(vJSONNull(b, "data"), "C20.null-is-null")
	} else {
		vEnsure(vJSONStr(b, "data", string(w.Data)), "C20.data-verbatim")
	}
}
