package replication

// Contracts of table maps (C15) and rows events (C09).
//
// A recursively defined quantity of the specification (the position of the
// c-th column's metadata, the number of bits set below i, the position of a
// row, the position of a cell) is an uninterpreted function; its defining
// equation is assumed at the indices an argument needs.

// ---- length-encoded integers: value and size at an offset of the event

func lenVal(d []byte, pos int) int  { return vUFN("lenval", vOff(d)+pos) }
func lenSize(d []byte, pos int) int { return vUFN("lensize", vOff(d)+pos) }

func use_readLenEncInt(data []byte, pos int) (uint64, int, bool) {
	vEnsure(vAnd(0 <= pos, pos+lenSize(data, pos) <= len(data)), "pre:readLenEncInt")
	return uint64(lenVal(data, pos)), pos + lenSize(data, pos), true
}

func prove_C15_C09_lenenc() {
	form := vEnum("form", 0, 3)
	n := []int{0, 2, 3, 8}[form]
	data, pos := symData(1 + n)
	if form == 0 {
		vAssume(data[pos] < 251)
	} else {
		vAssume(data[pos] == []byte{0, 0xfc, 0xfd, 0xfe}[form])
	}
	vFrame(true)
	v, p, ok := readLenEncInt(data, pos)
	vCover("lenenc")
	vEnsure(ok, "C15.lenenc.ok")
	vEnsure(p == pos+1+n, "C15.lenenc.size")
	if form == 0 {
		vEnsure(v == uint64(data[pos]), "C15.lenenc.value")
	} else {
		vEnsure(v == le(data, pos+1, n), "C15.lenenc.value")
	}
}

// ---- bitmaps

// bitOf: bit i of the bitmap that starts at offset off of the event.
func bitOf(off, i int) bool { return vUFB("bit", off, i) }

// nbits: the number of bits set below i: nbits(0) = 0,
// nbits(i+1) = nbits(i) + bit(i).
func nbits(off, i int) int { return vUFN("nbits", off, i) }
func b2i(b bool) int       { return vIte(b, 1, 0) }
func nbitsDef(off, i int) {
	vAssume(nbits(off, 0) == 0)
	vAssume(vImp(i >= 0, nbits(off, i+1) == nbits(off, i)+b2i(bitOf(off, i))))
}

func use_Bit(b *Bitmap, index int) bool {
	vEnsure(vAnd(0 <= index, index < b.count), "pre:Bit")
	return bitOf(vOff(b.data), index)
}

func use_BitCount(b *Bitmap) int {
	vEnsure(b.count >= 0, "pre:BitCount")
	return nbits(vOff(b.data), b.count)
}

// Bit(i) is bit i%8 of byte i/8.
func prove_C09_C15_bit() {
	data, pos := symData(0)
	n := vRange("count", 0, 1<<40)
	vAssume(len(data)-pos >= (n+7)/8)
	b, next := newBitmap(data, pos, n)
	vEnsure(next == pos+(n+7)/8, "C09.bitmap.next")
	vEnsure(b.Count() == n, "C09.bitmap.count")
	k := vEnum("bit", 0, 7)
	q := vRange("byte", 0, 1<<40)
	i := q*8 + k
	vAssume(i < n)
	vFrame(true)
	vCover("bit")
	vEnsure(b.Bit(i) == (data[pos+q]&(1<<uint(k)) != 0), "C09.bitmap.bit")
}

// BitCount counts the bits below count.
func prove_C09_bitcount() {
	data, pos := symData(0)
	n := vRange("count", 0, 1<<40)
	vAssume(len(data)-pos >= (n+7)/8)
	b, _ := newBitmap(data, pos, n)
	vUse("replication.(*Bitmap).Bit", use_Bit)
	vLoop("replication.(*Bitmap).BitCount", 0, func(i, sum int) {
		nbitsDef(pos, i)
		vInv(vAnd(0 <= i, i <= n), "index")
		vInv(sum == nbits(pos, i), "sum")
	})
	vFrame(true)
	got := b.BitCount()
	vCover("bitcount")
	vEnsure(got == nbits(pos, n), "C09.bitmap.bitcount")
}

// Lemma: a set bit i < n has nbits(i) < nbits(n).
func lemmaCount(off, i, n int) {
	for k := i + 1; k < n; k++ {
		nbitsDef(off, k)
	}
}

func prove_C09_lemma_count() {
	off, i, n := vRange("off", 0, 1<<40), vRange("i", 0, 1<<40), vRange("n", 0, 1<<40)
	vAssume(vAnd(i < n, bitOf(off, i)))
	nbitsDef(off, i)
	vLoop("replication.lemmaCount", 0, func(k int) {
		nbitsDef(off, k)
		vInv(vAnd(i < k, k <= n), "index")
		vInv(nbits(off, i) < nbits(off, k), "count")
	})
	lemmaCount(off, i, n)
	vCover("lemma")
	vEnsure(nbits(off, i) < nbits(off, n), "C09.lemma.count")
}

// ---- per-column metadata

func isAny(t byte, l ...byte) bool {
	r := false
	for _, x := range l {
		r = vOr(r, t == x)
	}
	return r
}
func metaNone(t byte) bool {
	return isAny(t, TypeDecimal, TypeTiny, TypeShort, TypeLong, TypeNull, TypeTimestamp, TypeLongLong, TypeInt24, TypeDate, TypeTime, TypeDateTime, TypeYear, TypeNewDate)
}
func metaOne(t byte) bool {
	return isAny(t, TypeFloat, TypeDouble, TypeTimestamp2, TypeDateTime2, TypeTime2, TypeJSON, TypeTinyBlob, TypeMediumBlob, TypeLongBlob, TypeBlob, TypeGeometry)
}
func metaBig(t byte) bool    { return isAny(t, TypeNewDecimal, TypeEnum, TypeSet, TypeString) }
func metaLittle(t byte) bool { return isAny(t, TypeVarchar, TypeBit, TypeVarString) }
func metaKnown(t byte) bool  { return vOr(metaNone(t), metaOne(t), metaBig(t), metaLittle(t)) }

// metaLen: bytes of metadata of a column of type t.
func metaLen(t byte) int {
	return vIte(metaNone(t), 0, vIte(metaOne(t), 1, 2))
}

// byteOr0 is d[i], or 0 past the end.
func byteOr0(d []byte, i int) int {
	if i < len(d) {
		return int(d[i])
	}
	return 0
}

// metaVal: the metadata of a column of type t stored at pos.
func metaVal(d []byte, pos int, t byte) uint16 {
	b0, b1 := byteOr0(d, pos), byteOr0(d, pos+1)
	return uint16(vIte(metaNone(t), 0, vIte(metaOne(t), b0, vIte(metaBig(t), b0*256+b1, b1*256+b0))))
}

func use_metadataRead(data []byte, pos int, typ byte) (uint16, int, error) {
	vEnsure(vAnd(pos >= 0, pos+metaLen(typ) <= len(data), metaKnown(typ)), "pre:metadataRead")
	return metaVal(data, pos, typ), pos + metaLen(typ), nil
}

func prove_C15_metadataread() {
	data, pos := symData(0)
	t := vByte("type")
	vAssume(vAnd(metaKnown(t), pos+metaLen(t) <= len(data)))
	vFrame(true)
	v, p, err := metadataRead(data, pos, t)
	vCover("metadata")
	vEnsure(err == nil, "C15.metadata.noerror")
	vEnsure(p == pos+metaLen(t), "C15.metadata.length")
	vEnsure(v == metaVal(data, pos, t), "C15.metadata.value")
}

// metaPos: where column c's metadata is: metaPos(0) is the start,
// metaPos(c+1) = metaPos(c) + metaLen(type of c).
func metaPos(c int) int { return vUFN("metapos", c) }

// symTableID: the header of a table map or rows event, with the table id in
// four or six bytes as announced by the format description.
func symTableID(n int) (ev BinlogEvent, buf, data []byte, f BinlogFormat, idsize int) {
	buf, f, h := symBody(n + 6)
	data = buf[h:]
	t := buf[4]
	vAssume(vAnd(t >= 1, t <= 40))
	idsize = []int{4, 6}[vEnum("idsize", 0, 1)]
	vAssume((f.HeaderSizes[t-1] == 6) == (idsize == 4))
	return symEvent(buf), buf, data, f, idsize
}

func prove_C15_tableid() {
	ev, _, data, f, n := symTableID(0)
	vFrame(true)
	vCover("tableid")
	vEnsure(ev.TableID(f) == le(data, 0, n), "C15.tableid")
}

// A table map: names, column count, types, metadata and nullability, whatever
// follows the null bitmap.
//
// assume:C15: column counts are below 2^31 (MySQL allows 4096 columns)
func prove_C15_tablemap() {
	ev, buf, data, f, p := symTableID(8)
	vAssume(buf[4] == 19)
	flags := le(data, p, 2)
	p += 2
	dbl := int(data[p])
	vAssume(len(data) >= p+1+dbl+1+1)
	db := string(data[p+1 : p+1+dbl])
	p += dbl + 2
	nl := int(data[p])
	vAssume(len(data) >= p+1+nl+1+1)
	name := string(data[p+1 : p+1+nl])
	p += nl + 2
	cols := lenVal(data, p)
	vAssume(vAnd(cols < 1<<31, p+lenSize(data, p)+cols < len(data)))
	p += lenSize(data, p)
	tp := p
	p += cols
	ml := lenVal(data, p)
	vAssume(vAnd(lenSize(data, p) >= 1, ml < 1<<31))
	m0 := p + lenSize(data, p)
	end := m0 + ml
	vAssume(end+(cols+7)/8 <= len(data))
	vAssume(vAnd(metaPos(0) == m0, metaPos(cols) == end))

	k := vInt("k") // any column
	vAssume(vAnd(0 <= k, k < cols))
	vUse("replication.readLenEncInt", use_readLenEncInt)
	vUse("replication.metadataRead", use_metadataRead)
	// well-formed: known types, metadata back to back
	def := func(c int) {
		if vAnd(0 <= c, c < cols) {
			t := data[tp+c]
			vAssume(metaKnown(t))
			vAssume(metaPos(c+1) == metaPos(c)+metaLen(t))
			vAssume(vAnd(m0 <= metaPos(c), metaPos(c+1) <= end))
		}
	}
	def(k)
	want := metaVal(data, metaPos(k), data[tp+k])
	vLoop("replication.(binlogEvent).TableMap", 0, func(c, pos int, result *TableMap) {
		vInv(vAnd(0 <= c, c <= cols), "index")
		def(c)
		vInv(pos == metaPos(c), "pos")
		vBind(&result.Metadata, vList(cols, k, uint16(vIte(k < c, int(want), 0))), "metadata")
	})
	vFrame(true)
	tm, err := ev.TableMap(f)
	vCover("tablemap")
	vEnsure(err == nil, "C15.tablemap.noerror")
	vEnsure(uint64(tm.Flags) == flags, "C15.tablemap.flags")
	vEnsure(vEqS(tm.Database, db), "C15.tablemap.database")
	vEnsure(vEqS(tm.Name, name), "C15.tablemap.name")
	vEnsure(vEqB(tm.Types, data[tp:tp+cols]), "C15.tablemap.types")
	vEnsure(len(tm.Metadata) == cols, "C15.tablemap.columns")
	vEnsure(tm.Metadata[k] == want, "C15.tablemap.metadata")
	vEnsure(tm.CanBeNull.count == cols, "C15.tablemap.nullable")
	vEnsure(vEqB(tm.CanBeNull.data, data[end:end+(cols+7)/8]), "C15.tablemap.nullable")
}

// ---- rows

// cellLen: the size of the cell at pos for a type and metadata; the contract
// of cellLength. That this is what the value decoder consumes, for every type
// and metadata, is prove_C09_celllength.
func cellLen(pos int, typ byte, meta uint16) int { return vUFN("celllen", pos, int(typ), int(meta)) }

func use_cellLength(data []byte, pos int, typ byte, meta uint16) (int, error) {
	vEnsure(vAnd(0 <= pos, pos+cellLen(pos, typ, meta) <= len(data)), "pre:cellLength")
	return cellLen(pos, typ, meta), nil
}

// An event with any number of rows, described by rowPos (start of row r) and
// by cellPos (start of column c's cell in image i of row r; a column that is
// absent or NULL takes no bytes).
func rowPos(r int) int        { return vUFN("rowpos", r) }
func cellPos(r, i, c int) int { return vUFN("cellpos", r, i, c) }

// assume:C09: every row takes at least one byte (a row of a table with columns always does)
func prove_C09_rows() {
	k := vEnum("event", 0, 5)
	typ := []byte{23, 24, 25, 30, 31, 32}[k]
	v2 := k >= 3
	ident, dat := k%3 != 0, k%3 != 2
	buf, f, h := symBody(14)
	data := buf[h:]
	vAssume(buf[4] == typ)
	p := []int{4, 6}[vEnum("idsize", 0, 1)]
	vAssume((f.HeaderSizes[typ-1] == 6) == (p == 4))
	flags := le(data, p, 2)
	p += 2
	if v2 {
		extra := int(le(data, p, 2))
		vAssume(vAnd(extra >= 2, p+extra < len(data)))
		p += extra
	}
	cols := lenVal(data, p)
	vAssume(vAnd(lenSize(data, p) >= 1, cols < 1<<31, p+lenSize(data, p) <= len(data)))
	p += lenSize(data, p)
	nb := (cols + 7) / 8
	identAt, datAt := p, p
	if ident {
		datAt += nb
		p += nb
	}
	if dat {
		p += nb
	}
	vAssume(p <= len(data))
	base := vOff(data)
	identBits, datBits := base+identAt, base+datAt // the presence bitmaps
	numI, numD := nbits(identBits, cols), nbits(datBits, cols)
	vAssume(vAnd(0 <= numI, numI <= cols, 0 <= numD, numD <= cols))

	tm := &TableMap{Types: vBytesN("types", cols), Metadata: vListUF[uint16](cols, "meta")}

	// the rows
	rows := vRange("rows", 0, 1<<40)
	vAssume(vAnd(rowPos(0) == p, rowPos(rows) == len(data)))
	bitmapAt := func(r, i int) int { // the null bitmap of image i
		if i == 1 && ident {
			return cellPos(r, 0, cols)
		}
		return rowPos(r)
	}
	count := func(i int) int {
		if i == 0 {
			return numI
		}
		return numD
	}
	present := func(i int) int {
		if i == 0 {
			return identBits
		}
		return datBits
	}
	def := func(r int) { // row r < rows
		last := 0
		if dat {
			last = 1
		}
		if ident {
			vAssume(cellPos(r, 0, 0) == rowPos(r)+(numI+7)/8)
			vAssume(vAnd(cellPos(r, 0, 0) <= cellPos(r, 0, cols), cellPos(r, 0, cols) <= len(data)))
		}
		if dat {
			vAssume(cellPos(r, 1, 0) == bitmapAt(r, 1)+(numD+7)/8)
			vAssume(vAnd(cellPos(r, 1, 0) <= cellPos(r, 1, cols), cellPos(r, 1, cols) <= len(data)))
		}
		vAssume(vAnd(rowPos(r+1) == cellPos(r, last, cols), p <= rowPos(r), rowPos(r) < rowPos(r+1), rowPos(r+1) <= len(data)))
	}
	cell := func(r, i, c int) { // column c < cols of image i of row r
		nbitsDef(present(i), c)
		// lemma (prove_C09_lemma_count): a present column has its null bit
		vAssume(vImp(bitOf(present(i), c), nbits(present(i), c) < nbits(present(i), cols)))
		in := vAnd(bitOf(present(i), c), !bitOf(base+bitmapAt(r, i), nbits(present(i), c)))
		l := cellLen(cellPos(r, i, c), tm.Types[c], tm.Metadata[c])
		vAssume(cellPos(r, i, c+1) == cellPos(r, i, c)+vIte(in, l, 0))
		vAssume(vAnd(cellPos(r, i, 0) <= cellPos(r, i, c), cellPos(r, i, c+1) <= cellPos(r, i, cols)))
	}
	image := func(r, i int) (Bitmap, []byte) {
		b := bitmapAt(r, i)
		return Bitmap{data: data[b : b+(count(i)+7)/8], count: count(i)}, data[cellPos(r, i, 0):cellPos(r, i, cols)]
	}
	m := vInt("m") // any row
	vAssume(vAnd(0 <= m, m < rows))
	def(m)
	var want Row
	if ident {
		want.NullIdentifyColumns, want.Identify = image(m, 0)
	}
	if dat {
		want.NullColumns, want.Data = image(m, 1)
	}

	cur := 0 // the row the outer loop is at
	vUse("replication.readLenEncInt", use_readLenEncInt)
	vUse("replication.cellLength", use_cellLength)
	vUse("replication.(*Bitmap).Bit", use_Bit)
	vUse("replication.(*Bitmap).BitCount", use_BitCount)
	vLoop("replication.(binlogEvent).Rows", 0, func(pos int, result *Rows) {
		r := 0
		if vMode() == 2 {
			r = vInt("r")
			cur = r
		} else {
			r = len(result.Rows)
		}
		vInv(vAnd(0 <= r, r <= rows), "rows")
		if r < rows {
			def(r)
		}
		vInv(pos == rowPos(r), "pos")
		vBind(&result.Rows, vList(r, m, want), "rows")
	})
	for i := 0; i < 2; i++ {
		if !(i == 0 && ident || i == 1 && dat) {
			continue
		}
		loop := 1 + i
		vLoop("replication.(binlogEvent).Rows", loop, func(c, pos, valueIndex int) {
			vInv(vAnd(0 <= c, c <= cols), "column")
			nbitsDef(present(i), 0)
			if c < cols {
				cell(cur, i, c)
			}
			vInv(pos == cellPos(cur, i, c), "pos")
			vInv(valueIndex == nbits(present(i), c), "index")
		})
	}
	ev := symEvent(buf)
	vFrame(true)
	got, err := ev.Rows(f, tm)
	vCover("rows")
	vEnsure(err == nil, "C09.rows.noerror")
	vEnsure(uint64(got.Flags) == flags, "C09.rows.flags")
	if ident {
		vEnsure(got.IdentifyColumns.count == cols, "C09.rows.identifycolumns")
		vEnsure(vEqB(got.IdentifyColumns.data, data[identAt:identAt+nb]), "C09.rows.identifycolumns")
	} else {
		vEnsure(got.IdentifyColumns.count == 0, "C09.rows.identifycolumns")
	}
	if dat {
		vEnsure(got.DataColumns.count == cols, "C09.rows.datacolumns")
		vEnsure(vEqB(got.DataColumns.data, data[datAt:datAt+nb]), "C09.rows.datacolumns")
	} else {
		vEnsure(got.DataColumns.count == 0, "C09.rows.datacolumns")
	}
	vEnsure(len(got.Rows) == rows, "C09.rows.count")
	row := got.Rows[m]
	vEnsure(row.NullIdentifyColumns.count == want.NullIdentifyColumns.count, "C09.rows.nulls")
	vEnsure(vEqB(row.NullIdentifyColumns.data, want.NullIdentifyColumns.data), "C09.rows.nulls")
	vEnsure(row.NullColumns.count == want.NullColumns.count, "C09.rows.nulls")
	vEnsure(vEqB(row.NullColumns.data, want.NullColumns.data), "C09.rows.nulls")
	vEnsure(vEqB(row.Identify, want.Identify), "C09.rows.image")
	vEnsure(vEqB(row.Data, want.Data), "C09.rows.image")
}
