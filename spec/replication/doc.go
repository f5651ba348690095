package replication

// Contracts of the printers of JSON documents (C14).
//
// A document is a tree; valueText(typ, at) is the text denoting the value of a
// type stored at an offset of the buffer, valueFits(typ, at) says that a well
// formed value is stored there and valueLen(typ, at) how many bytes it takes.
// The three are functions without further properties: each printer is checked
// against their defining equation for its own storage form, with the printers
// it calls under the same contract (induction over the tree).

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
)

func valueText(typ byte, at int, top bool) string {
	return vUFS("jsonText", int(typ), at, vIte(top, 1, 0))
}
func valueFits(typ byte, at int) bool { return vUFB("jsonFits", int(typ), at) }
func valueLen(typ byte, at int) int   { return vUFN("jsonLen", int(typ), at) }

func entryText(at, pos int, large bool) string {
	return vUFS("jsonEntry", at, pos, vIte(large, 1, 0))
}
func entryFits(at, pos int, large bool) bool {
	return vUFB("jsonEntryFits", at, pos, vIte(large, 1, 0))
}

// symDoc: the tail of a document, from an offset.
func symDoc(n int) (base, data []byte, at int) {
	base = vBytes("document")
	at = vRange("at", 0, 1<<40)
	vAssume(at <= len(base)-n)
	return base, base[at:], at
}

// A buffer that already holds text.
func printed() (*bytes.Buffer, string) {
	b := &bytes.Buffer{}
	pre := vString("printed")
	b.WriteString(pre)
	return b, pre
}

// The contract of printJSONValue, for its callers. The text of the short
// scalars (types 4 to 8) is given outright, wherever they are stored.
func use_value(base []byte) interface{} {
	return func(typ byte, data []byte, toplevel bool, result *bytes.Buffer) error {
		if 4 <= typ && typ <= 8 {
			vEnsure(vAnd(vSameBase(data, base), scalarLen(typ) <= len(data)), "C14.value-where-it-is-stored")
			if typ == 4 {
				vEnsure(data[0] <= 2, "C14.value-where-it-is-stored")
			}
			result.WriteString(scalarText(typ, data, 0, toplevel))
			return nil
		}
		vEnsure(vAnd(vSameBase(data, base), valueFits(typ, vOff(data)), valueLen(typ, vOff(data)) <= len(data)), "C14.value-where-it-is-stored")
		result.WriteString(valueText(typ, vOff(data), toplevel))
		return nil
	}
}

// The document as a whole.
func prove_C14_C08_document() {
	data := vBytes("document")
	want := ""
	if len(data) > 0 {
		want = storedText(data[0], data, 1, true)
	}
	vUse("replication.printJSONValue", use_value(data))
	vMark()
	vFrame(true)
	out, err := printJSONData(data)
	vFrame(false)
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vFresh(out), "C08.document-private")
	if len(data) == 0 {
		vCover("empty")
		vEnsure(vEqB(out, []byte("'null'")), "C14.empty-is-null")
		return
	}
	vCover("document")
	vEnsure(vEqB(out, []byte(want)), "C14.document")
}

// holds: part of an invariant whose failure breaks the property.
func holds(c bool, label string) {
	if vMode() == 2 {
		vAssume(c)
	} else {
		vEnsure(c, label)
	}
}

// Containers: a header of the number of members and the size in bytes, the key
// entries (offset and 2-byte length) of an object, the value entries (type and
// value or offset).
func container(large, object bool) (base, data []byte, at, w, n, size int) {
	w = 2
	if large {
		w = 4
	}
	base, data, at = symDoc(2 * w)
	n, size = int(le(data, 0, w)), int(le(data, w, w))
	head := 2*w + n*(w+1)
	if object {
		head += n * (w + 2)
	}
	vAssume(vAnd(head <= size, size <= len(data)))
	return
}

func use_entry(base []byte, at, size int, large bool) interface{} {
	return func(data []byte, pos int, lg bool, result *bytes.Buffer) error {
		vEnsure(vAnd(vSameBase(data, base), vOff(data) == at, size <= len(data), lg == large, entryFits(at, pos, large)), "C14.value-entry-where-it-is")
		result.WriteString(entryText(at, pos, large))
		return nil
	}
}

func prove_C14_array() {
	large := vBool("large")
	base, data, at, w, n, size := container(large, false)
	vUse("replication.printJSONValueEntry", use_entry(base, at, size, large))
	buf, pre := printed()
	start := 2 * w
	last, cur := "", 0
	vLoop("replication.printJSONArray", 0, func(i, pos int, result *bytes.Buffer) {
		vInv(vAnd(0 <= i, i <= n), "element")
		holds(pos == start+i*(w+1), "C14.array.entry")
		switch vMode() {
		case 1:
			vEnsure(vEqS(result.String(), pre+"JSON_ARRAY("), "C14.array.opened")
		case 2:
			last, cur = pre+"JSON_ARRAY(", i
			if i > 0 {
				last = vString("elements")
			}
			*result = bytes.Buffer{}
			result.WriteString(last)
			vAssume(entryFits(at, pos, large))
		case 3:
			sep := ""
			if cur > 0 {
				sep = ","
			}
			vEnsure(i == cur+1, "C14.array.every-element-in-order")
			vEnsure(vEqS(result.String(), last+sep+entryText(at, start+cur*(w+1), large)), "C14.array.element")
		}
	})
	err := printJSONArray(data, large, buf)
	vCover("array")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vImp(n == 0, vEqS(buf.String(), pre+"JSON_ARRAY()")), "C14.array.empty")
	vEnsure(vImp(n > 0, vAnd(cur == n, vEqS(buf.String(), last+")"))), "C14.array.closed")
}

// escaped: the bytes of a string as they are written within an SQL string; at
// the top, the JSON string is itself within the SQL string.
func escaped(b []byte, top bool) string {
	if !vSymbolic() {
		t := ""
		for _, c := range b {
			t += escapedByte(c, top)
		}
		return t
	}
	return vUFS("jsonEscaped", vOff(b), len(b), vIte(top, 1, 0))
}

func use_escaped(base []byte) interface{} {
	return func(data []byte, toplevel bool, result *bytes.Buffer) {
		vEnsure(vSameBase(data, base), "C14.string-where-it-is-stored")
		result.WriteString(escaped(data, toplevel))
	}
}

// What one byte of a string is written as. Within an SQL string, the quote and
// the backslash are escaped; within a JSON string in an SQL string, the JSON
// escapes of the double quote, the backslash and the control characters are.
func escapedByte(c byte, top bool) string {
	switch {
	case c == '\'':
		return `\'`
	case top && c == '\\':
		return `\\\\`
	case c == '\\':
		return `\\`
	case top && c == '"':
		return `\\"`
	case top && c < 0x20:
		d := int(c & 15)
		return `\\u00` + string([]byte{'0' + c>>4, byte(vIte(d < 10, '0'+d, 'a'+d-10))})
	}
	return string([]byte{c})
}

// printJSONEscaped: every byte, in order.
func prove_C14_escaped() {
	top := vBool("toplevel")
	_, data, _ := symDoc(0)
	n := vRange("n", 0, 1<<40)
	vAssume(n <= len(data))
	data = data[:n]
	buf, pre := printed()
	last, cur := pre, -1
	vLoop("replication.printJSONEscaped", 0, func(rangeindex int, result *bytes.Buffer) {
		vInv(vAnd(-1 <= rangeindex, vOr(rangeindex == -1, rangeindex < n)), "byte")
		switch vMode() {
		case 1:
			vEnsure(vEqS(result.String(), pre), "C14.escape.nothing-before")
		case 2:
			cur = rangeindex
			if cur >= 0 {
				last = vString("escaped")
			}
			*result = bytes.Buffer{}
			result.WriteString(last)
		case 3:
			vEnsure(rangeindex == cur+1, "C14.escape.every-byte")
			vEnsure(vEqS(result.String(), last+escapedByte(data[cur+1], top)), "C14.escape.byte")
		}
	})
	printJSONEscaped(data, top, buf)
	vCover("escaped")
	vEnsure(vAnd(vOr(n == 0, cur == n-1), vEqS(buf.String(), last)), "C14.escape.nothing-behind")
}

func prove_C14_object() {
	large := vBool("large")
	k := vRange("k", 0, 1<<40)
	base, data, at, w, n, size := container(large, true)
	key := func(i int) []byte {
		off, l := int(le(data, 2*w+i*(w+2), w)), int(le(data, 2*w+i*(w+2)+w, 2))
		vAssume(off+l <= size) // well formed
		return data[off : off+l]
	}
	vUse("replication.printJSONValueEntry", use_entry(base, at, size, large))
	vUse("replication.printJSONEscaped", use_escaped(base))
	buf, pre := printed()
	vLoop("replication.printJSONObject", 0, func(i, pos int, keys *[][]byte) {
		vInv(vAnd(0 <= i, i <= n), "key")
		holds(pos == 2*w+i*(w+2), "C14.object.key-entry")
		if vMode() == 2 {
			var want []byte
			if k < i {
				want = key(k)
			}
			vBind(keys, vList(n, k, want), "keys")
			if i < n {
				key(i)
			}
		} else {
			vInv(len(*keys) == n, "keys")
			if k < i {
				vEnsure(vEqB((*keys)[k], key(k)), "C14.object.key")
			}
		}
	})
	start := 2*w + n*(w+2)
	last, cur := "", 0
	vLoop("replication.printJSONObject", 1, func(i, pos int, keys *[][]byte, result *bytes.Buffer) {
		vInv(vAnd(0 <= i, i <= n), "member")
		holds(pos == start+i*(w+1), "C14.object.value-entry")
		switch vMode() {
		case 1:
			vInv(len(*keys) == n, "keys")
			if k < n {
				vEnsure(vEqB((*keys)[k], key(k)), "C14.object.key")
			}
			vEnsure(vEqS(result.String(), pre+"JSON_OBJECT("), "C14.object.opened")
		case 2:
			// the keys are as they were for every k (first loop)
			if i < n {
				vBind(keys, vList(n, i, key(i)), "keys")
			}
			last, cur = pre+"JSON_OBJECT(", i
			if i > 0 {
				last = vString("members")
			}
			*result = bytes.Buffer{}
			result.WriteString(last)
			vAssume(entryFits(at, pos, large))
		case 3:
			sep := ""
			if cur > 0 {
				sep = ","
			}
			vEnsure(i == cur+1, "C14.object.every-member-in-order")
			vEnsure(vEqS(result.String(), last+sep+"'"+escaped(key(cur), false)+"',"+entryText(at, start+cur*(w+1), large)), "C14.object.member")
		}
	})
	err := printJSONObject(data, large, buf)
	vCover("object")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vImp(n == 0, vEqS(buf.String(), pre+"JSON_OBJECT()")), "C14.object.empty")
	vEnsure(vImp(n > 0, vAnd(cur == n, vEqS(buf.String(), last+")"))), "C14.object.closed")
}

func quoted(s string, top bool) string {
	if top {
		return "'" + s + "'"
	}
	return s
}

// scalarText: the text of a scalar of a fixed-width type at an offset.
func scalarLen(typ byte) int {
	switch typ {
	case 4:
		return 1
	case 5, 6:
		return 2
	case 7, 8:
		return 4
	}
	return 8
}

func scalarText(typ byte, data []byte, pos int, top bool) string {
	v := le(data, pos, scalarLen(typ))
	switch typ {
	case 4:
		vAssume(v <= 2)
		return quoted([]string{"null", "true", "false"}[v], top)
	case 5:
		return quoted(strconv.Itoa(int(int16(v))), top)
	case 7:
		return quoted(strconv.Itoa(int(int32(v))), top)
	case 9:
		return quoted(strconv.FormatInt(int64(v), 10), top)
	}
	return quoted(strconv.FormatUint(v, 10), top)
}

// storedText: the text of the well-formed value of a type at an offset.
func storedText(typ byte, base []byte, at int, top bool) string {
	if 4 <= typ && typ <= 8 {
		vAssume(at+scalarLen(typ) <= len(base))
		return scalarText(typ, base, at, top)
	}
	vAssume(vAnd(valueFits(typ, at), at+valueLen(typ, at) <= len(base)))
	return valueText(typ, at, top)
}

// A value entry: type, then the value itself if it is short enough, else the
// offset (from the start of the container) it is stored at.
func prove_C14_entry() {
	large := vBool("large")
	typ := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15}[vEnum("type", 0, 13)]
	w := 2
	if large {
		w = 4
	}
	pos := vRange("pos", 0, 1<<40)
	base, data, at := symDoc(0)
	vAssume(pos+1+w <= len(data))
	vAssume(data[pos] == typ)
	vUse("replication.printJSONValue", use_value(base))
	buf, pre := printed()
	want := ""
	if 4 <= typ && typ <= 8 && scalarLen(typ) <= w {
		vCover("inlined")
		want = scalarText(typ, data, pos+1, false)
	} else {
		vCover("out-of-line")
		off := int(le(data, pos+1, w))
		vAssume(off <= len(data))
		want = storedText(typ, base, at+off, false)
	}
	err := printJSONValueEntry(data, pos, large, buf)
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vEqS(buf.String(), pre+want), "C14.entry")
}

// printJSONValue, containers: the printer of the form, on the same bytes.
func prove_C14_container() {
	typ := byte(vEnum("type", 0, 3))
	base, data, at := symDoc(0)
	use := func(object bool) interface{} {
		return func(d []byte, large bool, result *bytes.Buffer) error {
			vEnsure(vAnd(vSameBase(d, base), vOff(d) == at, len(d) == len(data)), "C14.container-where-it-is")
			vEnsure(vAnd(object == (typ < 2), large == (typ%2 == 1)), "C14.container-form")
			result.WriteString(valueText(typ, at, false))
			return nil
		}
	}
	vUse("replication.printJSONObject", use(true))
	vUse("replication.printJSONArray", use(false))
	buf, pre := printed()
	err := printJSONValue(typ, data, vBool("toplevel"), buf)
	vCover("container")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vEqS(buf.String(), pre+valueText(typ, at, false)), "C14.container")
}

func prove_C14_scalar() {
	typ := byte(vEnum("type", 4, 10))
	top := vBool("toplevel")
	_, data, _ := symDoc(scalarLen(typ))
	buf, pre := printed()
	want := scalarText(typ, data, 0, top)
	err := printJSONValue(typ, data, top, buf)
	vCover("scalar")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vEqS(buf.String(), pre+want), "C14.scalar")
}

func prove_C14_double() {
	top := vBool("toplevel")
	_, data, _ := symDoc(8)
	buf, pre := printed()
	f := math.Float64frombits(le(data, 0, 8))
	err := printJSONValue(11, data, top, buf)
	vCover("double")
	vEnsure(err == nil, "C14.decodes")
	// shortest text that reads back as the number, in any notation
	is := func(verb byte) bool {
		return vEqS(buf.String(), pre+quoted(string(strconv.AppendFloat(nil, f, verb, -1, 64)), top))
	}
	vEnsure(vOr(is('E'), is('e'), is('f'), is('g'), is('G')), "C14.double")
}

// symSize: a length prefix of 1 to 5 bytes, 7 bits in each.
func symSize(data []byte, pos int) (size, next int) {
	n := vEnum("prefix", 1, 5)
	vAssume(pos+n <= len(data))
	for i := 0; i < n; i++ {
		b := int(data[pos+i])
		if i < n-1 {
			vAssume(b >= 128)
			b -= 128
		} else {
			vAssume(vAnd(b < 128, vOr(b > 0, n == 1))) // no longer than needed
		}
		size += b << (7 * i)
	}
	vAssume(size < 1<<32)
	return size, pos + n
}

func prove_C14_length() {
	pos := vRange("pos", 0, 1<<40)
	_, data, _ := symDoc(0)
	size, next := symSize(data, pos)
	l, p := readVariableLength(data, pos)
	vCover("length")
	vEnsure(vAnd(l == size, p == next), "C14.length-prefix")
}

func prove_C14_string() {
	top := vBool("toplevel")
	base, data, _ := symDoc(0)
	size, pos := symSize(data, 0)
	vAssume(pos+size <= len(data))
	vUse("replication.printJSONEscaped", use_escaped(base))
	s := escaped(data[pos:pos+size], top)
	buf, pre := printed()
	err := printJSONValue(12, data, top, buf)
	vCover("string")
	vEnsure(err == nil, "C14.decodes")
	if top {
		vEnsure(vEqS(buf.String(), pre+"'\""+s+"\"'"), "C14.string")
	} else {
		vEnsure(vEqS(buf.String(), pre+"'"+s+"'"), "C14.string")
	}
}

func cast(s, typ string, top bool) string {
	s = "CAST('" + s + "' AS " + typ + ")"
	if top {
		return "CAST(" + s + " AS JSON)"
	}
	return s
}

// An opaque value: type, length prefix, payload.
func symOpaque(typ byte, n int) (data []byte, pos, size int) {
	_, data, _ = symDoc(1)
	vAssume(data[0] == typ)
	size, pos = symSize(data, 1)
	vAssume(vAnd(size >= n, pos+size <= len(data)))
	return
}

func prove_C14_date() {
	top := vBool("toplevel")
	data, pos, size := symOpaque(TypeDate, 8)
	vAssume(size == 8)
	v := le(data, pos, 8) >> 24
	ym, d := v>>22, v>>17%32
	vAssume(vAnd(ym < 10000*13, v%(1<<17) == 0))
	buf, pre := printed()
	err := printJSONValue(15, data, top, buf)
	vCover("date")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vEqS(buf.String(), pre+cast(fmt.Sprintf("%04d-%02d-%02d", ym/13, ym%13, d), "DATE", top)), "C14.date")
}

func prove_C14_datetime() {
	top := vBool("toplevel")
	data, pos, size := symOpaque(TypeDateTime, 8)
	vAssume(size == 8)
	raw := le(data, pos, 8)
	v, us := raw>>24, raw%(1<<24)
	ym, d, h, m, s := v>>22, v>>17%32, v>>12%32, v>>6%64, v%64
	vAssume(vAnd(ym < 10000*13, h <= 23, m <= 59, s <= 59, us <= 999999))
	buf, pre := printed()
	err := printJSONValue(15, data, top, buf)
	vCover("datetime")
	vEnsure(err == nil, "C14.decodes")
	want := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", ym/13, ym%13, d, h, m, s)
	if us != 0 {
		want += fmt.Sprintf(".%06d", us)
	}
	vEnsure(vEqS(buf.String(), pre+cast(want, "DATETIME(6)", top)), "C14.datetime")
}

func prove_C14_time() {
	top := vBool("toplevel")
	data, pos, size := symOpaque(TypeTime, 8)
	vAssume(size == 8)
	raw := le(data, pos, 8)
	neg := raw >= 1<<63
	if neg {
		raw = -raw // two's complement
	}
	v, us := raw>>24, raw%(1<<24)
	h, m, s := v>>12, v>>6%64, v%64
	vAssume(vAnd(h <= 838, m <= 59, s <= 59, us <= 999999))
	buf, pre := printed()
	err := printJSONValue(15, data, top, buf)
	vCover("time")
	vEnsure(err == nil, "C14.decodes")
	want := fmt.Sprintf("%02d:%02d:%02d", h, m, s)
	if neg {
		want = "-" + want
	}
	if us != 0 {
		want += fmt.Sprintf(".%06d", us)
	}
	vEnsure(vEqS(buf.String(), pre+cast(want, "TIME(6)", top)), "C14.time")
}

// DECIMAL: precision, scale, then the digits as in a DECIMAL column (C11).
func prove_C14_decimal() {
	top := vBool("toplevel")
	data, pos, size := symOpaque(TypeNewDecimal, 2)
	p, s := data[pos], data[pos+1]
	vAssume(vAnd(1 <= p, p <= 65, s <= 30, s <= p))
	group := func(n int) int { return n/9*4 + (n%9+1)/2 } // bytes of n digits
	vAssume(size == 2+group(int(p)-int(s))+group(int(s)))
	digits := vString("digits")
	vUse("replication.CellBytes", func(d []byte, at int, typ byte, meta uint16, unsigned bool) ([]byte, int, error) {
		vEnsure(vAnd(vSameBase(d, data), vOff(d)+at == vOff(data)+pos+2, len(d)-at >= size-2, typ == TypeNewDecimal, meta == uint16(p)<<8+uint16(s)), "C14.decimal-digits")
		return []byte(digits), size - 2, nil
	})
	buf, pre := printed()
	err := printJSONValue(15, data, top, buf)
	vCover("decimal")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(vEqS(buf.String(), pre+cast(digits, "DECIMAL("+strconv.Itoa(int(p))+","+strconv.Itoa(int(s))+")", top)), "C14.decimal")
}

// The column: a length prefix of 1 to 4 bytes and the document.
func prove_C14_cell() {
	prefix := vEnum("lengthbytes", 1, 4)
	data, pos := symData(prefix)
	l := int(le(data, pos, prefix))
	vAssume(pos+prefix+l <= len(data))
	text := vString("text")
	vUse("replication.printJSONData", func(d []byte) ([]byte, error) {
		vEnsure(vAnd(vSameBase(d, data), vOff(d) == pos+prefix, len(d) == l), "C14.document-of-the-cell")
		return []byte(text), nil
	})
	out, n, err := CellBytes(data, pos, TypeJSON, uint16(prefix), vBool("unsigned"))
	vCover("cell")
	vEnsure(err == nil, "C14.decodes")
	vEnsure(n == prefix+l, "C14.C09.cell-length")
	vEnsure(vEqB(out, []byte(text)), "C14.cell")
}
