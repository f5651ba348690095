package replication

// Contracts of CellBytes for integers, YEAR, BIT, ENUM and SET (C10): the
// text is the decimal text of the value MySQL stored, the length consumed is
// the storage size.

import (
	"math"
	"strconv"
)

func le(d []byte, pos, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v |= uint64(d[pos+i]) << (8 * uint(i))
	}
	return v
}

func be(d []byte, pos, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(d[pos+i])
	}
	return v
}

func specInt(d []byte, pos, n int, unsigned bool) []byte {
	u := le(d, pos, n)
	if unsigned {
		return strconv.AppendUint(nil, u, 10)
	}
	if n == 8 {
		return strconv.AppendInt(nil, int64(u), 10)
	}
	if d[pos+n-1] >= 128 {
		return strconv.AppendInt(nil, int64(u)-int64(1)<<(8*uint(n)), 10)
	}
	return strconv.AppendInt(nil, int64(u), 10)
}

// symData: an event body with n bytes available at pos.
func symData(n int) ([]byte, int) {
	data := vBytes("data")
	pos := vInt("pos")
	vAssume(vAnd(0 <= pos, pos <= len(data)-n))
	return data, pos
}

func prove_C10_integers() {
	k := vEnum("type", 0, 4)
	typ := []byte{TypeTiny, TypeShort, TypeInt24, TypeLong, TypeLongLong}[k]
	n := []int{1, 2, 3, 4, 8}[k]
	data, pos := symData(n)
	unsigned := vBool("unsigned")
	meta := vU16("meta")
	out, l, err := CellBytes(data, pos, typ, meta, unsigned)
	vCover("integers")
	vEnsure(err == nil, "C10.int.noerror")
	vEnsure(l == n, "C10.int.length")
	vEnsure(vEqB(out, specInt(data, pos, n, unsigned)), "C10.int.value")
}

func prove_C10_floats() {
	single := vBool("single")
	if single {
		data, pos := symData(4)
		out, l, err := CellBytes(data, pos, TypeFloat, vU16("meta"), vBool("unsigned"))
		vCover("float")
		vEnsure(err == nil, "C10.float.noerror")
		vEnsure(l == 4, "C10.float.length")
		f := math.Float32frombits(uint32(le(data, pos, 4)))
		vEnsure(vEqB(out, strconv.AppendFloat(nil, float64(f), 'f', -1, 32)), "C10.float.value")
		return
	}
	data, pos := symData(8)
	out, l, err := CellBytes(data, pos, TypeDouble, vU16("meta"), vBool("unsigned"))
	vCover("double")
	vEnsure(err == nil, "C10.double.noerror")
	vEnsure(l == 8, "C10.double.length")
	f := math.Float64frombits(le(data, pos, 8))
	vEnsure(vEqB(out, strconv.AppendFloat(nil, f, 'f', -1, 64)), "C10.double.value")
}

func prove_C10_year() {
	data, pos := symData(1)
	out, l, err := CellBytes(data, pos, TypeYear, vU16("meta"), vBool("unsigned"))
	vCover("year")
	vEnsure(err == nil, "C10.year.noerror")
	vEnsure(l == 1, "C10.year.length")
	if data[pos] == 0 {
		vEnsure(vEqB(out, []byte("0000")), "C10.year.zero")
	} else {
		vEnsure(vEqB(out, strconv.AppendInt(nil, 1900+int64(data[pos]), 10)), "C10.year.value")
	}
}

// BIT(n): metadata is full bytes in the high, leftover bits in the low byte.
func prove_C10_bit() {
	n := vEnum("bits", 1, 64)
	nb := (n + 7) / 8
	data, pos := symData(nb)
	out, l, err := CellBytes(data, pos, TypeBit, uint16(n/8)<<8|uint16(n%8), vBool("unsigned"))
	vCover("bit")
	vEnsure(err == nil, "C10.bit.noerror")
	vEnsure(l == nb, "C10.bit.length")
	vEnsure(vEqB(out, data[pos:pos+nb]), "C10.bit.value")
}

// ENUM and SET arrive as TypeString with the real type in the high metadata
// byte; plain TypeEnum is supported as well.
func prove_C10_enum_set() {
	kind := vEnum("kind", 0, 2)
	data, pos := symData(8)
	unsigned := vBool("unsigned")
	switch kind {
	case 0, 1:
		n := vEnum("size", 1, 2)
		typ, meta := byte(TypeString), uint16(TypeEnum)<<8|uint16(n)
		if kind == 1 {
			typ = TypeEnum
		}
		out, l, err := CellBytes(data, pos, typ, meta, unsigned)
		vCover("enum")
		vEnsure(err == nil, "C10.enum.noerror")
		vEnsure(l == n, "C10.enum.length")
		vEnsure(vEqB(out, strconv.AppendUint(nil, le(data, pos, n), 10)), "C10.enum.value")
	case 2:
		n := vEnum("size", 1, 8)
		out, l, err := CellBytes(data, pos, TypeString, uint16(TypeSet)<<8|uint16(n), unsigned)
		vCover("set")
		vEnsure(err == nil, "C10.set.noerror")
		vEnsure(l == n, "C10.set.length")
		vEnsure(vEqB(out, strconv.AppendUint(nil, le(data, pos, n), 10)), "C10.set.value")
	}
}
