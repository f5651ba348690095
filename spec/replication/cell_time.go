package replication

// Contracts of CellBytes for the temporal types (C12). Assumptions describe
// the representable values.

import (
	"fmt"
	"time"
)

func prove_C12_date() {
	data, pos := symData(3)
	typ := []byte{TypeDate, TypeNewDate}[vEnum("type", 0, 1)]
	v := int(le(data, pos, 3))
	y, m, d := v/512, v/32%16, v%32
	vAssume(vAnd(y <= 9999, m <= 12, d <= 31))
	out, l, err := CellBytes(data, pos, typ, vU16("meta"), vBool("unsigned"))
	vCover("date")
	vEnsure(err == nil, "C12.date.noerror")
	vEnsure(l == 3, "C12.date.length")
	vEnsure(vEqB(out, []byte(fmt.Sprintf("%04d-%02d-%02d", y, m, d))), "C12.date.value")
}

func prove_C12_time() {
	data, pos := symData(3)
	v := int(le(data, pos, 3))
	neg := false
	if v >= 1<<23 {
		neg = true
		v = 1<<24 - v
	}
	h, m, s := v/10000, v/100%100, v%100
	vAssume(vAnd(h <= 838, m <= 59, s <= 59))
	out, l, err := CellBytes(data, pos, TypeTime, vU16("meta"), vBool("unsigned"))
	want := fmt.Sprintf("%02d:%02d:%02d", h, m, s)
	if neg {
		want = "-" + want
	}
	vCover("time")
	vEnsure(err == nil, "C12.time.noerror")
	vEnsure(l == 3, "C12.time.length")
	vEnsure(vEqB(out, []byte(want)), "C12.time.value")
}

func prove_C12_datetime() {
	data, pos := symData(8)
	v := le(data, pos, 8)
	vAssume(v < 100000000000000)
	y, mo, d := v/10000000000, v/100000000%100, v/1000000%100
	h, m, s := v/10000%100, v/100%100, v%100
	vAssume(vAnd(mo <= 12, d <= 31, h <= 23, m <= 59, s <= 59))
	out, l, err := CellBytes(data, pos, TypeDateTime, vU16("meta"), vBool("unsigned"))
	vCover("datetime")
	vEnsure(err == nil, "C12.datetime.noerror")
	vEnsure(l == 8, "C12.datetime.length")
	vEnsure(vEqB(out, []byte(fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, m, s))), "C12.datetime.value")
}

// specInstant: the text of a stored instant in the process's time zone.
func specInstant(sec int64) string {
	if sec == 0 {
		return "0000-00-00 00:00:00"
	}
	t := time.Unix(sec, 0)
	y, mo, d := t.Date()
	h, m, s := t.Clock()
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, int(mo), d, h, m, s)
}

func prove_C12_timestamp() {
	data, pos := symData(4)
	out, l, err := CellBytes(data, pos, TypeTimestamp, vU16("meta"), vBool("unsigned"))
	vCover("timestamp")
	vEnsure(err == nil, "C12.timestamp.noerror")
	vEnsure(l == 4, "C12.timestamp.length")
	vEnsure(vEqB(out, []byte(specInstant(int64(le(data, pos, 4))))), "C12.timestamp.value")
}

// specFrac: the fraction of fsp digits held in an n-byte number v.
func specFrac(fsp int, v int) string {
	if fsp == 0 {
		return ""
	}
	if fsp%2 == 1 {
		vAssume(v%10 == 0)
		v /= 10
	}
	vAssume(vAnd(0 <= v, v < int(pow10(fsp))))
	return "." + fmt.Sprintf("%0*d", fsp, v)
}

func prove_C12_timestamp2() {
	fsp := vEnum("fsp", 0, 6)
	fb := (fsp + 1) / 2
	data, pos := symData(4 + fb)
	sec := int64(be(data, pos, 4))
	fr := specFrac(fsp, int(be(data, pos+4, fb)))
	// the zero timestamp has no fraction
	vAssume(vOr(sec != 0, be(data, pos+4, fb) == 0))
	out, l, err := CellBytes(data, pos, TypeTimestamp2, uint16(fsp), vBool("unsigned"))
	vCover("timestamp2")
	vEnsure(err == nil, "C12.timestamp2.noerror")
	vEnsure(l == 4+fb, "C12.timestamp2.length")
	vEnsure(vEqB(out, []byte(specInstant(sec)+fr)), "C12.timestamp2.value")
}

func prove_C12_datetime2() {
	fsp := vEnum("fsp", 0, 6)
	fb := (fsp + 1) / 2
	data, pos := symData(5 + fb)
	raw := be(data, pos, 5)
	vAssume(raw >= 0x8000000000)
	v := raw - 0x8000000000
	ym := v / (1 << 22)
	y, mo, d := ym/13, ym%13, v/(1<<17)%32
	h, m, s := v/(1<<12)%32, v/64%64, v%64
	vAssume(vAnd(y <= 9999, d <= 31, h <= 23, m <= 59, s <= 59))
	fr := specFrac(fsp, int(be(data, pos+5, fb)))
	out, l, err := CellBytes(data, pos, TypeDateTime2, uint16(fsp), vBool("unsigned"))
	vCover("datetime2")
	vEnsure(err == nil, "C12.datetime2.noerror")
	vEnsure(l == 5+fb, "C12.datetime2.length")
	vEnsure(vEqB(out, []byte(fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, m, s)+fr)), "C12.datetime2.value")
}

func prove_C12_time2() {
	fsp := vEnum("fsp", 0, 6)
	fb := (fsp + 1) / 2
	data, pos := symData(3 + fb)
	one := int64(1) << (8 * uint(fb))
	n := int64(be(data, pos, 3+fb)) - one<<23
	sign := ""
	if n < 0 {
		n = -n
		sign = "-"
	}
	hms, frac := n/one, n%one
	h, m, s := hms/4096, hms/64%64, hms%64
	vAssume(vAnd(h <= 838, m <= 59, s <= 59))
	fr := specFrac(fsp, int(frac))
	out, l, err := CellBytes(data, pos, TypeTime2, uint16(fsp), vBool("unsigned"))
	vCover("time2")
	vEnsure(err == nil, "C12.time2.noerror")
	vEnsure(l == 3+fb, "C12.time2.length")
	vEnsure(vEqB(out, []byte(sign+fmt.Sprintf("%02d:%02d:%02d", h, m, s)+fr)), "C12.time2.value")
}
