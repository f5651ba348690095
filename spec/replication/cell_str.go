package replication

// Contracts of CellBytes for strings and binary values (C13): exactly the
// bytes the master logged, for every declared maximum length.

func prove_C13_varchar() {
	typ := []byte{TypeVarchar, TypeVarString}[vEnum("type", 0, 1)]
	data, pos := symData(2)
	meta := vU16("meta")
	prefix := 1
	if meta > 255 {
		prefix = 2
	}
	n := int(le(data, pos, prefix))
	vAssume(pos+prefix+n <= len(data))
	out, l, err := CellBytes(data, pos, typ, meta, vBool("unsigned"))
	vCover("varchar")
	vEnsure(err == nil, "C13.varchar.noerror")
	vEnsure(l == prefix+n, "C13.varchar.length")
	vEnsure(out != nil, "C13.varchar.present")
	vEnsure(vEqB(out, data[pos+prefix:pos+prefix+n]), "C13.varchar.value")
}

// CHAR and BINARY: the declared length's upper bits are folded into the type.
func prove_C13_char() {
	hi := vEnum("lengthhi", 0, 3)
	lo := vByte("lengthlo")
	max := hi*256 + int(lo)
	typeByte := []uint16{0xfe, 0xee, 0xde, 0xce}[hi]
	meta := typeByte*256 + uint16(lo)
	data, pos := symData(2)
	prefix := 1
	if max > 255 {
		prefix = 2
	}
	n := int(le(data, pos, prefix))
	vAssume(pos+prefix+n <= len(data))
	out, l, err := CellBytes(data, pos, TypeString, meta, vBool("unsigned"))
	vCover("char")
	vEnsure(err == nil, "C13.char.noerror")
	vEnsure(l == prefix+n, "C13.char.length")
	vEnsure(out != nil, "C13.char.present")
	vEnsure(vEqB(out, data[pos+prefix:pos+prefix+n]), "C13.char.value")
}

func prove_C13_blob() {
	typ := []byte{TypeTinyBlob, TypeMediumBlob, TypeLongBlob, TypeBlob, TypeGeometry}[vEnum("type", 0, 4)]
	prefix := vEnum("prefix", 1, 4)
	data, pos := symData(4)
	n := int(le(data, pos, prefix))
	vAssume(pos+prefix+n <= len(data))
	out, l, err := CellBytes(data, pos, typ, uint16(prefix), vBool("unsigned"))
	vCover("blob")
	vEnsure(err == nil, "C13.blob.noerror")
	vEnsure(l == prefix+n, "C13.blob.length")
	vEnsure(out != nil, "C13.blob.present")
	vEnsure(vEqB(out, data[pos+prefix:pos+prefix+n]), "C13.blob.value")
}
