package replication

// Contracts of the event header, the validity gate (C17) and the control
// events (C16). Each one ranges over all buffer contents and lengths.

// symEvent: an event of either flavour over arbitrary bytes.
func symEvent(buf []byte) BinlogEvent {
	if vEnum("flavour", 0, 1) == 0 {
		return NewMysql56BinlogEvent(buf)
	}
	return NewMariadbBinlogEvent(buf)
}

// The gate accepts exactly the buffers that hold a full header whose length
// field is the buffer's length.
//
// assume:C17: event buffers are shorter than 2^32 bytes (the packet layer caps them at 1 GB, max_allowed_packet)
func prove_C17_gate() {
	buf := vBytes("buf")
	vAssume(len(buf) < 1<<32)
	ok := symEvent(buf).IsValid()
	vCover("gate")
	if len(buf) < 19 {
		vEnsure(!ok, "C17.gate.short")
		return
	}
	vEnsure(ok == (le(buf, 9, 4) == uint64(len(buf))), "C17.gate.length")
}

// On an accepted buffer no header accessor fails, and each returns its field.
func prove_C17_C16_accessors() {
	buf := vBytes("buf")
	ev := symEvent(buf)
	vFrame(true)
	vAssume(vAnd(len(buf) < 1<<32, ev.IsValid()))
	vCover("accepted")
	vEnsure(uint64(ev.Timestamp()) == le(buf, 0, 4), "C16.header.timestamp")
	vEnsure(ev.NextPosition() == int64(le(buf, 13, 4)), "C16.header.nextposition")
	t := buf[4]
	vEnsure(ev.IsFormatDescription() == (t == 15), "C16.type.format")
	vEnsure(ev.IsQuery() == (t == 2), "C16.type.query")
	vEnsure(ev.IsRotate() == (t == 4), "C16.type.rotate")
	vEnsure(ev.IsXID() == (t == 16), "C16.type.xid")
	vEnsure(ev.IsIntVar() == (t == 5), "C16.type.intvar")
	vEnsure(ev.IsRand() == (t == 13), "C16.type.rand")
	vEnsure(ev.IsPreviousGTIDs() == (t == 35), "C16.type.previousgtids")
	vEnsure(ev.IsRowsQuery() == (t == 29), "C16.type.rowsquery")
	vEnsure(ev.IsTableMap() == (t == 19), "C16.type.tablemap")
	vEnsure(ev.IsWriteRows() == vOr(t == 23, t == 30), "C16.type.writerows")
	vEnsure(ev.IsUpdateRows() == vOr(t == 24, t == 31), "C16.type.updaterows")
	vEnsure(ev.IsDeleteRows() == vOr(t == 25, t == 32), "C16.type.deleterows")
	vEnsure(!ev.IsPseudo(), "C16.type.pseudo")
	switch e := ev.(type) {
	case mysql56BinlogEvent:
		vEnsure(e.IsGTID() == (t == 33), "C16.type.gtid")
		hdrRest(e.binlogEvent, buf)
	case mariadbBinlogEvent:
		vEnsure(e.IsGTID() == (t == 162), "C16.type.gtid")
		hdrRest(e.binlogEvent, buf)
	}
}

func hdrRest(e binlogEvent, buf []byte) {
	vEnsure(e.Type() == buf[4], "C16.header.type")
	vEnsure(uint64(e.ServerID()) == le(buf, 5, 4), "C16.header.serverid")
	vEnsure(uint64(e.Length()) == le(buf, 9, 4), "C16.header.length")
	vEnsure(uint64(e.Flags()) == le(buf, 17, 2), "C16.header.flags")
	vEnsure(vEqB(e.Bytes(), buf), "C16.header.bytes")
}

//assume:C15,C16,C09: event headers have 19 to 200 bytes (MySQL: 19)

// symBody: an event with a header of h bytes and n bytes of body at least.
func symBody(n int) (buf []byte, f BinlogFormat, h int) {
	buf = vBytes("buf")
	h = vRange("headerlength", 19, 200)
	vAssume(len(buf) >= h+n)
	f = BinlogFormat{FormatVersion: 4, HeaderLength: byte(h), ChecksumAlgorithm: vByte("alg"), HeaderSizes: vBytesN("headersizes", 40)}
	return
}

// Format: the announced version, server version, header length, header sizes
// and checksum algorithm.
//
// assume:C16: a format description event always ends with the algorithm byte and four checksum bytes (MySQL 5.6.1 and later)
func prove_C16_format() {
	buf := vBytes("buf")
	vAssume(len(buf) >= 19+57+5)
	n := vEnum("versionlength", 0, 50)
	vAssume(le(buf, 19, 2) == 4)
	if n > 0 {
		vAssume(buf[21+n-1] != 0)
	}
	for i := n; i < 50; i++ {
		vAssume(buf[21+i] == 0)
	}
	vAssume(buf[19+56] >= 19)
	ev := symEvent(buf)
	vFrame(true)
	f, err := ev.Format()
	vCover("format")
	vEnsure(err == nil, "C16.format.noerror")
	vEnsure(f.FormatVersion == 4, "C16.format.version")
	vEnsure(vEqS(f.ServerVersion, string(buf[21:21+n])), "C16.format.serverversion")
	vEnsure(f.HeaderLength == buf[75], "C16.format.headerlength")
	vEnsure(f.ChecksumAlgorithm == buf[len(buf)-5], "C16.format.checksum")
	vEnsure(vEqB(f.HeaderSizes, buf[76:len(buf)-5]), "C16.format.headersizes")
}

// HeaderSize(t) is the announced size of type t.
func prove_C16_C15_headersize() {
	sizes := vBytes("sizes")
	t := vByte("type")
	vAssume(vAnd(t >= 1, int(t) <= len(sizes)))
	f := BinlogFormat{HeaderSizes: sizes}
	vCover("headersize")
	vEnsure(f.HeaderSize(t) == sizes[t-1], "C16.headersize")
}

func prove_C16_rotate() {
	buf, f, h := symBody(8)
	ev := symEvent(buf)
	vFrame(true)
	file, off, err := ev.Rotate(f)
	vCover("rotate")
	vEnsure(err == nil, "C16.rotate.noerror")
	vEnsure(uint64(off) == le(buf, h, 8), "C16.rotate.position")
	vEnsure(vEqS(file, string(buf[h+8:])), "C16.rotate.file")
}

func prove_C16_intvar() {
	buf, f, h := symBody(9)
	vAssume(vOr(buf[h] == 1, buf[h] == 2))
	ev := symEvent(buf)
	vFrame(true)
	t, v, err := ev.IntVar(f)
	vCover("intvar")
	vEnsure(err == nil, "C16.intvar.noerror")
	vEnsure(t == buf[h], "C16.intvar.type")
	vEnsure(v == le(buf, h+1, 8), "C16.intvar.value")
}

func prove_C16_rand() {
	buf, f, h := symBody(16)
	ev := symEvent(buf)
	vFrame(true)
	a, b, err := ev.Rand(f)
	vCover("rand")
	vEnsure(err == nil, "C16.rand.noerror")
	vEnsure(a == le(buf, h, 8), "C16.rand.seed1")
	vEnsure(b == le(buf, h+8, 8), "C16.rand.seed2")
}

// StripChecksum: with checksums off or unannounced the event itself, with
// CRC32 the event without its last four bytes, which are the checksum. Every
// decoder is a function of the bytes of the event, so it gives the same result
// either way.
func prove_C16_stripchecksum() {
	buf := vBytes("buf")
	vAssume(len(buf) >= 23)
	alg := []byte{0, 255, 1}[vEnum("alg", 0, 2)]
	ev := symEvent(buf)
	vFrame(true)
	got, sum, err := ev.StripChecksum(BinlogFormat{ChecksumAlgorithm: alg})
	vCover("strip")
	vEnsure(err == nil, "C16.strip.noerror")
	var b []byte
	switch e := got.(type) {
	case mysql56BinlogEvent:
		_, same := ev.(mysql56BinlogEvent)
		vEnsure(same, "C16.strip.flavour")
		b = e.Bytes()
	case mariadbBinlogEvent:
		_, same := ev.(mariadbBinlogEvent)
		vEnsure(same, "C16.strip.flavour")
		b = e.Bytes()
	default:
		vEnsure(false, "C16.strip.flavour")
	}
	if alg == 1 {
		vEnsure(vEqB(b, buf[:len(buf)-4]), "C16.strip.body")
		vEnsure(vEqB(sum, buf[len(buf)-4:]), "C16.strip.checksum")
	} else {
		vEnsure(vEqB(b, buf), "C16.strip.body")
		vEnsure(len(sum) == 0, "C16.strip.checksum")
	}
}

// Query: database, SQL text and charset, for every combination of the status
// variables that may come before the charset, in the order the master writes
// them, and any bytes after it.
//
// assume:C16: status variables come in the order MySQL writes them: flags2, sql_mode, catalog, auto_increment, charset, anything else
func prove_C16_query() {
	buf, f, h := symBody(13)
	data := buf[h:]
	vars := int(le(data, 11, 2))
	db := int(data[8])
	vAssume(len(data) >= 13+vars+db+1)
	p, end := 13, 13+vars
	take := func(code byte, n int) {
		vAssume(p+1+n <= end)
		vAssume(data[p] == code)
		p += 1 + n
	}
	if vEnum("flags2", 0, 1) == 1 {
		take(0, 4)
	}
	if vEnum("sqlmode", 0, 1) == 1 {
		take(1, 8)
	}
	switch vEnum("catalog", 0, 2) {
	case 1:
		vAssume(p+2 <= end)
		take(6, 1+int(data[p+1]))
	case 2:
		vAssume(p+2 <= end)
		take(2, 2+int(data[p+1]))
	}
	if vEnum("autoincrement", 0, 1) == 1 {
		take(3, 4)
	}
	charset := vEnum("charset", 0, 1) == 1
	cp := p
	if charset {
		take(4, 6)
	} else if vEnum("more", 0, 1) == 1 {
		vAssume(p < end)
		vAssume(vAnd(data[p] > 4, data[p] != 6))
	} else {
		vAssume(p == end)
	}
	if charset && p < end && vEnum("next", 0, 1) == 1 {
		vAssume(vAnd(data[p] > 4, data[p] != 6))
	} else if charset {
		vAssume(p == end)
	}
	ev := symEvent(buf)
	vFrame(true)
	q, err := ev.Query(f)
	vCover("query")
	vEnsure(err == nil, "C16.query.noerror")
	vEnsure(vEqS(q.Database, string(data[end:end+db])), "C16.query.database")
	vEnsure(vEqS(q.SQL, string(data[end+db+1:])), "C16.query.sql")
	if charset {
		vEnsure(q.Charset != nil, "C16.query.charset.present")
		vEnsure(q.Charset.Client == int32(le(data, cp+1, 2)), "C16.query.charset.client")
		vEnsure(q.Charset.Conn == int32(le(data, cp+3, 2)), "C16.query.charset.conn")
		vEnsure(q.Charset.Server == int32(le(data, cp+5, 2)), "C16.query.charset.server")
	} else {
		vEnsure(q.Charset == nil, "C16.query.charset.absent")
	}
}

// Whatever the bytes of the status block are, the scan neither fails by a
// panic nor touches the database and the text.
func prove_C16_query_anyvars() {
	buf, f, h := symBody(13)
	data := buf[h:]
	vars := int(le(data, 11, 2))
	db := int(data[8])
	vAssume(len(data) >= 13+vars+db+1)
	ev := NewMysql56BinlogEvent(buf)
	vFrame(true)
	vLoop("replication.(binlogEvent).Query", 0, inv_query)
	q, err := ev.Query(f)
	vCover("query")
	if err == nil {
		vEnsure(vEqS(q.Database, string(data[13+vars:13+vars+db])), "C16.query.database")
		vEnsure(vEqS(q.SQL, string(data[13+vars+db+1:])), "C16.query.sql")
	}
}

func inv_query(pos int, query *Query, data []byte, dbPos, dbLen, sqlPos int) {
	vInv(pos >= 0, "pos")
	vBind(&query.Database, string(data[dbPos:dbPos+dbLen]), "database")
	vBind(&query.SQL, string(data[sqlPos:]), "sql")
}
