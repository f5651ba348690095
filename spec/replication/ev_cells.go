package replication

// The length rule and the value decoder agree on the size of every cell (C09);
// decoding writes to nothing that exists, and its result is new or lies inside
// the cell (C08).

// cellsAgree runs both on a cell of which prefix bytes give the length.
func cellsAgree(data []byte, pos int, typ byte, meta uint16) {
	n, err := cellLength(data, pos, typ, meta)
	vEnsure(err == nil, "C09.cell.lengthrule.noerror")
	vEnsure(n >= 0, "C09.cell.nonnegative")
	vAssume(pos+n <= len(data))
	vFrame(true)
	out, l, err := CellBytes(data, pos, typ, meta, vBool("unsigned"))
	vFrame(false)
	vCover("cell")
	vEnsure(cellPrivate(out, data, pos, n), "C08.cell-private")
	vEnsure(err == nil, "C09.cell.decoder.noerror")
	vEnsure(l == n, "C09.cell.agree")
}

// cellPrivate: nothing else shares out's bytes.
func cellPrivate(out, data []byte, pos, n int) bool {
	if vFresh(out) {
		return true
	}
	return vWithin(out, data[pos:pos+n])
}

var fixedTypes = []byte{TypeTiny, TypeShort, TypeInt24, TypeLong, TypeLongLong, TypeFloat, TypeDouble, TypeYear, TypeTimestamp, TypeDate, TypeNewDate, TypeTime, TypeDateTime}

func prove_C09_C08_cell_fixed() {
	data, pos := symData(0)
	cellsAgree(data, pos, fixedTypes[vEnum("type", 0, len(fixedTypes)-1)], vU16("meta"))
}

func prove_C09_C08_cell_fractional() {
	data, pos := symData(0)
	typ := []byte{TypeTimestamp2, TypeDateTime2, TypeTime2}[vEnum("type", 0, 2)]
	cellsAgree(data, pos, typ, uint16(vEnum("fsp", 0, 6)))
}

// DECIMAL: prove_C11_C09_C08_decimal.

func prove_C09_C08_cell_bit() {
	n := vEnum("bits", 1, 64)
	data, pos := symData(0)
	cellsAgree(data, pos, TypeBit, uint16(n/8)<<8|uint16(n%8))
}

func prove_C09_C08_cell_enum_set() {
	data, pos := symData(0)
	if vBool("set") {
		n := uint16(vEnum("size", 1, 8))
		typ := []byte{TypeString, TypeSet}[vEnum("type", 0, 1)]
		cellsAgree(data, pos, typ, uint16(TypeSet)<<8|n)
		return
	}
	n := uint16(vEnum("size", 1, 2))
	typ := []byte{TypeString, TypeEnum}[vEnum("type", 0, 1)]
	cellsAgree(data, pos, typ, uint16(TypeEnum)<<8|n)
}

func prove_C09_C08_cell_string() {
	meta := vU16("meta")
	typ := []byte{TypeVarchar, TypeVarString}[vEnum("type", 0, 1)]
	prefix := 1
	if meta > 255 {
		prefix = 2
	}
	data, pos := symData(prefix)
	cellsAgree(data, pos, typ, meta)
}

func prove_C09_C08_cell_char() {
	hi := vEnum("lengthhi", 0, 3)
	prefix := 1
	if hi > 0 {
		prefix = 2
	}
	data, pos := symData(prefix)
	cellsAgree(data, pos, TypeString, []uint16{0xfe, 0xee, 0xde, 0xce}[hi]*256+uint16(vByte("lengthlo")))
}

func use_printJSONData(data []byte) ([]byte, error) { return vBytes("json"), nil }

func prove_C09_C08_cell_blob() {
	prefix := vEnum("prefix", 1, 4)
	typ := []byte{TypeTinyBlob, TypeMediumBlob, TypeLongBlob, TypeBlob, TypeGeometry, TypeJSON}[vEnum("type", 0, 5)]
	vUse("replication.printJSONData", use_printJSONData)
	data, pos := symData(prefix)
	cellsAgree(data, pos, typ, uint16(prefix))
}
