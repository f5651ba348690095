package PKG

// An encoder of MySQL binlog events and column values, written from the MySQL
// documentation and independent of the repository's own event builders, with
// the text each value must decode to.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// ---- values

type nxVal struct {
	enc   []byte
	want  string
	check func(got []byte) string // "" when right; replaces want
}

func (v nxVal) verify(got []byte) string {
	if got == nil {
		return "no data, as for NULL"
	}
	if v.check != nil {
		return v.check(got)
	}
	if string(got) != v.want {
		return fmt.Sprintf("got %q want %q", nxClip(string(got)), nxClip(v.want))
	}
	return ""
}

func nxClip(s string) string {
	if len(s) > 120 {
		return s[:120] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

type nxCol struct {
	kind     string
	typ      byte   // type byte of the table map
	mb       []byte // metadata bytes of the table map
	meta     uint16 // the metadata number
	unsigned bool
	gen      func(r *vRng) nxVal
}

func (c nxCol) String() string { return fmt.Sprintf("%s/%d/%#x/%v", c.kind, c.typ, c.meta, c.unsigned) }

func nxLE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}
func nxBE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// bits: a value of n bits with interesting boundaries
func (r *vRng) bits(n int) uint64 {
	var v uint64
	m := ^uint64(0) >> uint(64-n)
	switch r.Intn(8) {
	case 0:
		v = 0
	case 1:
		v = m
	case 2:
		v = 1 << uint(n-1)
	case 3:
		v = 1<<uint(n-1) - 1
	case 4:
		v = uint64(r.Intn(256))
	case 5:
		v = uint64(1) << uint(r.Intn(n))
	default:
		v = r.Uint64()
	}
	return v & m
}

func nxIntCol(r *vRng, k int) nxCol {
	typ := []byte{1, 2, 9, 3, 8}[k]
	n := []int{1, 2, 3, 4, 8}[k]
	u := r.bool()
	return nxCol{kind: fmt.Sprintf("int%d", n*8), typ: typ, unsigned: u, gen: func(r *vRng) nxVal {
		v := r.bits(8 * n)
		x := new(big.Int).SetUint64(v)
		if !u && v>>(uint(8*n)-1) == 1 {
			x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
		}
		return nxVal{enc: nxLE(v, n), want: x.String()}
	}}
}

func nxPlain(s string) bool {
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	a, b, dot := strings.Cut(s, ".")
	ok := func(x string) bool {
		for i := 0; i < len(x); i++ {
			if x[i] < '0' || x[i] > '9' {
				return false
			}
		}
		return len(x) > 0
	}
	return ok(a) && (!dot || ok(b))
}

func nxFloatCol() nxCol {
	return nxCol{kind: "float", typ: 4, mb: []byte{4}, meta: 4, gen: func(r *vRng) nxVal {
		var v uint32
		for {
			v = uint32(r.bits(32))
			switch r.Intn(4) {
			case 0:
				v = math.Float32bits(float32(r.NormFloat64()))
			case 1:
				v = math.Float32bits(float32(r.Intn(2000000) - 1000000))
			}
			if v>>23&0xff != 0xff {
				break
			}
		}
		return nxVal{enc: nxLE(uint64(v), 4), check: func(got []byte) string {
			f, err := strconv.ParseFloat(string(got), 32)
			if err != nil || !nxPlain(string(got)) || math.Float32bits(float32(f)) != v {
				return fmt.Sprintf("%q is not the plain text of float32 %#x", got, v)
			}
			return ""
		}}
	}}
}

func nxDouble(r *vRng) uint64 {
	for {
		v := r.bits(64)
		switch r.Intn(4) {
		case 0:
			v = math.Float64bits(r.NormFloat64())
		case 1:
			v = math.Float64bits(float64(r.Intn(2000000) - 1000000))
		}
		if v>>52&0x7ff != 0x7ff {
			return v
		}
	}
}

func nxDoubleCol() nxCol {
	return nxCol{kind: "double", typ: 5, mb: []byte{8}, meta: 8, gen: func(r *vRng) nxVal {
		v := nxDouble(r)
		return nxVal{enc: nxLE(v, 8), check: func(got []byte) string {
			f, err := strconv.ParseFloat(string(got), 64)
			if err != nil || !nxPlain(string(got)) || math.Float64bits(f) != v {
				return fmt.Sprintf("%q is not the plain text of float64 %#x", got, v)
			}
			return ""
		}}
	}}
}

func nxYearCol() nxCol {
	return nxCol{kind: "year", typ: 13, gen: func(r *vRng) nxVal {
		v := byte(r.Intn(256))
		if r.oneIn(4) {
			v = 0
		}
		if v == 0 {
			return nxVal{enc: []byte{0}, want: "0000"}
		}
		return nxVal{enc: []byte{v}, want: strconv.Itoa(1900 + int(v))}
	}}
}

func nxBitCol(n int) nxCol {
	m := []byte{byte(n % 8), byte(n / 8)}
	return nxCol{kind: "bit", typ: 16, mb: m, meta: uint16(m[0]) | uint16(m[1])<<8, gen: func(r *vRng) nxVal {
		b := nxBE(r.bits(n), (n+7)/8)
		return nxVal{enc: b, want: string(b)}
	}}
}

func nxEnumCol(n int) nxCol {
	return nxCol{kind: "enum", typ: 254, mb: []byte{247, byte(n)}, meta: 247<<8 | uint16(n), gen: func(r *vRng) nxVal {
		v := r.bits(8 * n)
		return nxVal{enc: nxLE(v, n), want: strconv.FormatUint(v, 10)}
	}}
}

func nxSetCol(n int) nxCol {
	return nxCol{kind: "set", typ: 254, mb: []byte{248, byte(n)}, meta: 248<<8 | uint16(n), gen: func(r *vRng) nxVal {
		v := r.bits(8 * n)
		return nxVal{enc: nxLE(v, n), want: strconv.FormatUint(v, 10)}
	}}
}

// nxDecimal encodes intg digits before and frac digits after the point.
func nxDecimal(digits string, p, s int, neg bool) []byte {
	sizes := []int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}
	ip, fp := digits[:p-s], digits[p-s:]
	var b []byte
	put := func(d string) {
		if d == "" {
			return
		}
		v, _ := strconv.ParseUint(d, 10, 64)
		b = append(b, nxBE(v, sizes[len(d)])...)
	}
	k := len(ip) % 9
	put(ip[:k])
	for i := k; i < len(ip); i += 9 {
		put(ip[i : i+9])
	}
	i := 0
	for ; i+9 <= len(fp); i += 9 {
		put(fp[i : i+9])
	}
	put(fp[i:])
	b[0] ^= 0x80
	if neg {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	return b
}

func nxDecimalText(digits string, p, s int, neg bool) string {
	ip := strings.TrimLeft(digits[:p-s], "0")
	if ip == "" {
		ip = "0"
	}
	t := ip
	if s > 0 {
		t += "." + digits[p-s:]
	}
	if neg {
		t = "-" + t
	}
	return t
}

func nxDecDigits(r *vRng, p, s int) (string, bool) {
	d := bytes.Repeat([]byte("0"), p)
	switch r.Intn(6) {
	case 0:
	case 1:
		d[p-1] = byte('1' + r.Intn(9))
	case 2:
		for i := range d {
			d[i] = '9'
		}
	case 3: // groups zero or not
		for i := 0; i < p; {
			n := 9
			if i < p-s && (p-s-i)%9 != 0 {
				n = (p - s - i) % 9
			}
			z := r.bool()
			for j := i; j < i+n && j < p; j++ {
				if !z {
					d[j] = byte('0' + r.Intn(10))
				}
			}
			i += n
		}
	case 4:
		d[r.Intn(p)] = byte('1' + r.Intn(9))
	default:
		for i := range d {
			d[i] = byte('0' + r.Intn(10))
		}
	}
	neg := r.bool()
	if strings.Trim(string(d), "0") == "" {
		neg = false
	}
	return string(d), neg
}

func nxDecimalCol(p, s int) nxCol {
	return nxCol{kind: "decimal", typ: 246, mb: []byte{byte(p), byte(s)}, meta: uint16(p)<<8 | uint16(s), gen: func(r *vRng) nxVal {
		d, neg := nxDecDigits(r, p, s)
		return nxVal{enc: nxDecimal(d, p, s, neg), want: nxDecimalText(d, p, s, neg)}
	}}
}

// ---- temporal

func nxYMD(r *vRng) (y, m, d int) {
	switch r.Intn(6) {
	case 0:
		return 0, 0, 0
	case 1:
		return r.Intn(10000), 0, 0
	case 2:
		return r.Intn(10000), r.Intn(13), 0
	case 3:
		return 9999, 12, 31
	}
	return r.Intn(10000), 1 + r.Intn(12), 1 + r.Intn(31)
}
func nxHMS(r *vRng) (h, m, s int) {
	switch r.Intn(5) {
	case 0:
		return 0, 0, 0
	case 1:
		return 23, 59, 59
	}
	return r.Intn(24), r.Intn(60), r.Intn(60)
}

// nxFrac: a fraction with fsp digits and its storage (big endian, in units
// of 10^-(fsp rounded up to even))
func nxFrac(r *vRng, fsp int) (text string, stored int64, nb int) {
	nb = (fsp + 1) / 2
	if fsp == 0 {
		return "", 0, 0
	}
	lim := int64(1)
	for i := 0; i < fsp; i++ {
		lim *= 10
	}
	v := r.Int63n(lim)
	switch r.Intn(5) {
	case 0:
		v = 0
	case 1:
		v = lim - 1
	case 2:
		v = 1
	}
	text = fmt.Sprintf(".%0*d", fsp, v)
	stored = v
	if fsp%2 == 1 {
		stored *= 10
	}
	return text, stored, nb
}

func nxDateCol(typ byte) nxCol {
	return nxCol{kind: "date", typ: typ, gen: func(r *vRng) nxVal {
		y, m, d := nxYMD(r)
		return nxVal{enc: nxLE(uint64(y*512+m*32+d), 3), want: fmt.Sprintf("%04d-%02d-%02d", y, m, d)}
	}}
}

func nxSignedHMS(r *vRng) (neg bool, h, m, s int) {
	h, m, s = r.Intn(839), r.Intn(60), r.Intn(60)
	switch r.Intn(6) {
	case 0:
		h, m, s = 0, 0, 0
	case 1:
		h, m, s = 838, 59, 59
	case 2:
		h, m = 0, 0
	case 3:
		h = 100 + r.Intn(739)
	}
	return r.bool() && h+m+s != 0, h, m, s
}

func nxTimeCol() nxCol {
	return nxCol{kind: "time", typ: 11, gen: func(r *vRng) nxVal {
		neg, h, m, s := nxSignedHMS(r)
		v := int64(h*10000 + m*100 + s)
		t := fmt.Sprintf("%02d:%02d:%02d", h, m, s)
		if neg {
			v, t = -v, "-"+t
		}
		return nxVal{enc: nxLE(uint64(v), 3), want: t}
	}}
}

func nxDateTimeCol() nxCol {
	return nxCol{kind: "datetime", typ: 12, gen: func(r *vRng) nxVal {
		y, mo, d := nxYMD(r)
		h, mi, s := nxHMS(r)
		v := uint64(y)*10000000000 + uint64(mo)*100000000 + uint64(d)*1000000 + uint64(h*10000+mi*100+s)
		return nxVal{enc: nxLE(v, 8), want: fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s)}
	}}
}

// nxCivil renders an instant with an independent calendar computation.
func nxCivil(sec int64, offset int) string {
	t := sec + int64(offset)
	days := t / 86400
	rem := t % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	y, m := int64(1970), int64(1)
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	for days < 0 {
		y--
		if leap(y) {
			days += 366
		} else {
			days += 365
		}
	}
	for {
		n := int64(365)
		if leap(y) {
			n = 366
		}
		if days < n {
			break
		}
		days -= n
		y++
	}
	ml := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(y) {
		ml[1] = 29
	}
	for days >= ml[m-1] {
		days -= ml[m-1]
		m++
	}
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, days+1, rem/3600, rem/60%60, rem%60)
}

func nxZone(r *vRng) {
	names := []string{"UTC", "America/New_York", "Asia/Shanghai", "Australia/Lord_Howe", "Europe/London"}
	switch r.Intn(3) {
	case 0:
		if l, err := time.LoadLocation(names[r.Intn(len(names))]); err == nil {
			time.Local = l
			return
		}
		fallthrough
	case 1:
		time.Local = time.FixedZone("x", (r.Intn(27*4)-13*4)*900)
	case 2:
		time.Local = time.UTC
	}
}

func nxStamp(r *vRng) (uint32, string) {
	var v uint32
	switch r.Intn(6) {
	case 0:
		return 0, "0000-00-00 00:00:00"
	case 1:
		v = 1
	case 2:
		v = 0x7fffffff
	case 3:
		v = uint32(r.Intn(86400*2) + 1)
	default:
		v = uint32(1 + r.Int63n(0x7fffffff))
	}
	_, off := time.Unix(int64(v), 0).Zone()
	return v, nxCivil(int64(v), off)
}

func nxTimestampCol() nxCol {
	return nxCol{kind: "timestamp", typ: 7, gen: func(r *vRng) nxVal {
		v, t := nxStamp(r)
		return nxVal{enc: nxLE(uint64(v), 4), want: t}
	}}
}

func nxTimestamp2Col(fsp int) nxCol {
	return nxCol{kind: "timestamp2", typ: 17, mb: []byte{byte(fsp)}, meta: uint16(fsp), gen: func(r *vRng) nxVal {
		v, t := nxStamp(r)
		ft, st, nb := nxFrac(r, fsp)
		if v == 0 { // the zero timestamp has no fraction
			st = 0
			if fsp > 0 {
				ft = "." + strings.Repeat("0", fsp)
			}
		}
		return nxVal{enc: append(nxBE(uint64(v), 4), nxBE(uint64(st), nb)...), want: t + ft}
	}}
}

func nxDateTime2Col(fsp int) nxCol {
	return nxCol{kind: "datetime2", typ: 18, mb: []byte{byte(fsp)}, meta: uint16(fsp), gen: func(r *vRng) nxVal {
		y, mo, d := nxYMD(r)
		h, mi, s := nxHMS(r)
		ft, st, nb := nxFrac(r, fsp)
		v := (uint64(y*13+mo)<<5|uint64(d))<<17 | uint64(h)<<12 | uint64(mi)<<6 | uint64(s)
		return nxVal{enc: append(nxBE(v+0x8000000000, 5), nxBE(uint64(st), nb)...),
			want: fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s) + ft}
	}}
}

func nxTime2Col(fsp int) nxCol {
	return nxCol{kind: "time2", typ: 19, mb: []byte{byte(fsp)}, meta: uint16(fsp), gen: func(r *vRng) nxVal {
		neg, h, m, s := nxSignedHMS(r)
		if h == 838 && m == 59 && s == 59 {
			s = 58
		}
		ft, st, nb := nxFrac(r, fsp)
		if !neg && h+m+s == 0 && st != 0 {
			neg = r.bool()
		}
		// the packed number: hms << 24 | microseconds, negated as a whole
		us := st
		for i := nb * 2; i < 6; i++ {
			us *= 10
		}
		v := (int64(h)<<12|int64(m)<<6|int64(s))<<24 | us
		t := fmt.Sprintf("%02d:%02d:%02d", h, m, s) + ft
		if neg {
			v, t = -v, "-"+t
		}
		var b []byte
		switch nb {
		case 0:
			b = nxBE(uint64(v>>24+0x800000), 3)
		case 1, 2: // my_time_packed_to_binary: integer part and fraction/10^n
			div := int64(10000)
			if nb == 2 {
				div = 100
			}
			ip := v >> 24
			fp := v - ip<<24 // microseconds part as a non-negative number
			if neg && st != 0 {
				// (v % 2^24) keeps the sign in C; MySQL stores the low byte(s)
				// of the negative fraction with the integer part floored
				f := -(us / div)
				b = append(nxBE(uint64(ip+0x800000), 3), nxBE(uint64(f), nb)...)
			} else {
				b = append(nxBE(uint64(ip+0x800000), 3), nxBE(uint64(fp/div), nb)...)
			}
		default:
			b = nxBE(uint64(v+0x800000000000), 6)
		}
		return nxVal{enc: b, want: t}
	}}
}

// ---- strings

func (r *vRng) text(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // all the same
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
	default:
		const a = "abcXYZ 019_-'\"\\\x00\xff\xe4\xb8\xad"
		for i := range b {
			b[i] = a[r.Intn(len(a))]
		}
	}
	return b
}

func (r *vRng) strlen(max int) int {
	n := r.Intn(20)
	switch r.Intn(16) {
	case 0, 1, 2:
		n = 0
	case 3:
		n = 255
	case 4:
		n = 256
	case 5:
		n = r.Intn(max + 1)
		if n > 3000 && !r.oneIn(8) {
			n = r.Intn(3000)
		}
	case 6:
		if max <= 1024 || r.oneIn(8) {
			n = max
		}
	}
	if n > max {
		n = max
	}
	return n
}

func nxVarcharCol(max int) nxCol {
	p := 1
	if max > 255 {
		p = 2
	}
	return nxCol{kind: "varchar", typ: 15, mb: nxLE(uint64(max), 2), meta: uint16(max), gen: func(r *vRng) nxVal {
		s := r.text(r.strlen(max))
		return nxVal{enc: append(nxLE(uint64(len(s)), p), s...), want: string(s)}
	}}
}

func nxCharCol(max int) nxCol {
	b0 := byte(254 ^ (max & 0x300 >> 4))
	b0 = byte(254 ^ ((max & 0x300) >> 4))
	p := 1
	if max > 255 {
		p = 2
	}
	return nxCol{kind: "char", typ: 254, mb: []byte{b0, byte(max)}, meta: uint16(b0)<<8 | uint16(max&0xff), gen: func(r *vRng) nxVal {
		s := r.text(r.strlen(max))
		return nxVal{enc: append(nxLE(uint64(len(s)), p), s...), want: string(s)}
	}}
}

func nxBlobCol(typ byte, p int) nxCol {
	max := 255
	if p == 2 {
		max = 65535
	} else if p > 2 {
		max = 70000
	}
	return nxCol{kind: "blob", typ: typ, mb: []byte{byte(p)}, meta: uint16(p), gen: func(r *vRng) nxVal {
		s := r.text(r.strlen(max))
		return nxVal{enc: append(nxLE(uint64(len(s)), p), s...), want: string(s)}
	}}
}

func (r *vRng) declared(max int) int {
	switch r.Intn(6) {
	case 0:
		return []int{0, 1, 254, 255, 256, 257, 511, 512, 767, 768, 1023}[r.Intn(11)]
	case 1:
		return max
	case 2:
		return r.Intn(300)
	}
	return r.Intn(max + 1)
}

func nxNumericCol(r *vRng) nxCol {
	switch k := r.Intn(12); k {
	case 0, 1, 2, 3, 4:
		return nxIntCol(r, k)
	case 5:
		return nxFloatCol()
	case 6:
		return nxDoubleCol()
	case 7:
		return nxYearCol()
	case 8:
		return nxBitCol(1 + r.Intn(64))
	case 9:
		return nxEnumCol(1 + r.Intn(2))
	case 10:
		return nxSetCol([]int{1, 2, 3, 4, 5, 6, 7, 8}[r.Intn(8)])
	}
	return nxIntCol(r, r.Intn(5))
}

func nxDecimalAnyCol(r *vRng) nxCol {
	p := 1 + r.Intn(65)
	m := p
	if m > 30 {
		m = 30
	}
	s := r.Intn(m + 1)
	switch r.Intn(6) {
	case 0:
		s = 0
	case 1:
		s = m
	case 2:
		if p > 9 {
			s = (p - 9) % (m + 1)
		}
	}
	return nxDecimalCol(p, s)
}

func nxTemporalCol(r *vRng) nxCol {
	switch r.Intn(9) {
	case 0:
		return nxDateCol(10)
	case 1:
		return nxTimeCol()
	case 2:
		return nxDateTimeCol()
	case 3:
		return nxTimestampCol()
	case 4:
		return nxTimestamp2Col(r.Intn(7))
	case 5:
		return nxDateTime2Col(r.Intn(7))
	case 6, 7:
		return nxTime2Col(r.Intn(7))
	}
	return nxDateCol(14)
}

func nxStringCol(r *vRng) nxCol {
	switch r.Intn(4) {
	case 0:
		return nxVarcharCol(r.declared(65535))
	case 1:
		return nxCharCol(r.declared(1023))
	case 2:
		return nxBlobCol(252, 1+r.Intn(4))
	}
	return nxBlobCol(255, 4)
}

func nxJSONCol() nxCol {
	return nxCol{kind: "json", typ: 245, mb: []byte{4}, meta: 4, gen: func(r *vRng) nxVal {
		d := nxJSONDoc(r, 3, 6)
		b := d.encode(r.oneIn(6))
		return nxVal{enc: append(nxLE(uint64(len(b)), 4), b...), check: func(got []byte) string { return d.checkText(string(got)) }}
	}}
}

func nxAnyCol(r *vRng) nxCol {
	switch r.Intn(10) {
	case 0:
		return nxDecimalAnyCol(r)
	case 1, 2:
		return nxTemporalCol(r)
	case 3, 4, 5:
		return nxStringCol(r)
	case 6:
		return nxJSONCol()
	}
	return nxNumericCol(r)
}

// ---- JSON documents

type nxJSON struct {
	kind string // object array null true false int uint double string date time datetime decimal
	keys []string
	kids []*nxJSON
	i    int64
	u    uint64
	w    int // width in bytes of int and uint
	bits uint64
	s    string
	neg  bool
	f    [7]int // y mo d h mi s us
	p, q int
}

func nxJSONText(r *vRng, n int) string {
	a := "abcdefghijklmnop XYZ0123456789_,()-+.:{}[]\xe4\xb8\xad"
	if r.oneIn(3) {
		a = "ab'\"\\,()\n\x00\x1f /"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

// nxQuoted: the string within an SQL string; at the top, as a JSON string
// within an SQL string.
func nxQuoted(s string, top bool) string {
	if top {
		t := ""
		for i := 0; i < len(s); i++ {
			switch c := s[i]; {
			case c == '"' || c == '\\':
				t += "\\" + string([]byte{c})
			case c < 0x20:
				t += fmt.Sprintf("\\u%04x", c)
			default:
				t += string([]byte{c})
			}
		}
		s = "\"" + t + "\""
	}
	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'").Replace(s) + "'"
}

func nxJSONDoc(r *vRng, depth, fan int) *nxJSON {
	k := r.Intn(16)
	if depth <= 0 && k < 6 {
		k += 6
	}
	switch {
	case k < 6:
		d := &nxJSON{kind: "array"}
		if k < 3 {
			d.kind = "object"
		}
		n := r.upto(fan)
		for i := 0; i < n; i++ {
			d.kids = append(d.kids, nxJSONDoc(r, depth-1, fan))
			if d.kind == "object" {
				kl := r.Intn(12)
				if r.oneIn(20) {
					kl = 250 + r.Intn(20)
				}
				k := nxJSONText(r, kl) + strconv.Itoa(i)
				if r.oneIn(3) {
					k = strconv.Itoa(i) + "_" + nxJSONText(r, kl)
				}
				d.keys = append(d.keys, k)
			}
		}
		return d
	case k == 6:
		return &nxJSON{kind: []string{"null", "true", "false"}[r.Intn(3)]}
	case k == 7, k == 8:
		w := []int{2, 4, 8}[r.Intn(3)]
		v := r.bits(8 * w)
		return &nxJSON{kind: "int", w: w, i: int64(v<<uint(64-8*w)) >> uint(64-8*w)}
	case k == 9:
		w := []int{2, 4, 8}[r.Intn(3)]
		return &nxJSON{kind: "uint", w: w, u: r.bits(8 * w)}
	case k == 10:
		return &nxJSON{kind: "double", bits: nxDouble(r)}
	case k == 11, k == 12:
		n := r.Intn(20)
		switch r.Intn(12) {
		case 0:
			n = 0
		case 1:
			n = 127
		case 2:
			n = 128
		case 3:
			n = 129 + r.Intn(400)
		case 4:
			if r.oneIn(4) {
				n = 16383 + r.Intn(3)
			}
		}
		return &nxJSON{kind: "string", s: nxJSONText(r, n)}
	case k == 13:
		p := 1 + r.Intn(65)
		q := r.Intn(min(p, 30) + 1)
		dg, neg := nxDecDigits(r, p, q)
		return &nxJSON{kind: "decimal", s: dg, neg: neg, p: p, q: q}
	}
	d := &nxJSON{kind: []string{"date", "time", "datetime"}[r.Intn(3)]}
	us := 0
	switch r.Intn(4) {
	case 0:
		us = 1 + r.Intn(999999)
	case 1:
		us = 1
	case 2:
		us = 500000
	}
	switch d.kind {
	case "time":
		var h, m, s int
		d.neg, h, m, s = nxSignedHMS(r)
		if h+m+s == 0 && us != 0 {
			d.neg = r.bool()
		}
		if h == 838 && m == 59 && s == 59 {
			us = 0
		}
		d.f = [7]int{0, 0, 0, h, m, s, us}
	case "date":
		y, m, dd := nxYMD(r)
		d.f = [7]int{y, m, dd}
	default:
		y, m, dd := nxYMD(r)
		h, mi, s := nxHMS(r)
		d.f = [7]int{y, m, dd, h, mi, s, us}
	}
	return d
}

func nxVarLen(n int) []byte {
	var b []byte
	for n >= 128 {
		b = append(b, byte(n&127|128))
		n >>= 7
	}
	return append(b, byte(n))
}

func (d *nxJSON) typ(large bool) byte {
	switch d.kind {
	case "object":
		if large {
			return 1
		}
		return 0
	case "array":
		if large {
			return 3
		}
		return 2
	case "null", "true", "false":
		return 4
	case "int":
		return map[int]byte{2: 5, 4: 7, 8: 9}[d.w]
	case "uint":
		return map[int]byte{2: 6, 4: 8, 8: 10}[d.w]
	case "double":
		return 11
	case "string":
		return 12
	}
	return 15
}

// encode is the whole binary value, type byte included.
func (d *nxJSON) encode(force bool) []byte {
	if !force {
		if b, ok := d.body(false, false); ok {
			return append([]byte{d.typ(false)}, b...)
		}
	}
	b, _ := d.body(true, force)
	return append([]byte{d.typ(true)}, b...)
}

// value encodes a container child: small when it fits, unless forced.
func (d *nxJSON) value(force bool) (byte, []byte) {
	if !force || d.kind != "object" && d.kind != "array" {
		if b, ok := d.body(false, force); ok {
			return d.typ(false), b
		}
	}
	b, _ := d.body(true, force)
	return d.typ(true), b
}

func (d *nxJSON) body(large, force bool) ([]byte, bool) {
	switch d.kind {
	case "null":
		return []byte{0}, true
	case "true":
		return []byte{1}, true
	case "false":
		return []byte{2}, true
	case "int":
		return nxLE(uint64(d.i), d.w), true
	case "uint":
		return nxLE(d.u, d.w), true
	case "double":
		return nxLE(d.bits, 8), true
	case "string":
		return append(nxVarLen(len(d.s)), d.s...), true
	case "decimal":
		e := append([]byte{byte(d.p), byte(d.q)}, nxDecimal(d.s, d.p, d.q, d.neg)...)
		return append(append([]byte{246}, nxVarLen(len(e))...), e...), true
	case "date", "time", "datetime":
		t := map[string]byte{"date": 10, "time": 11, "datetime": 12}[d.kind]
		f := d.f
		var v int64
		if d.kind == "time" {
			v = (int64(f[3])<<12|int64(f[4])<<6|int64(f[5]))<<24 | int64(f[6])
			if d.neg {
				v = -v
			}
		} else {
			v = ((int64(f[0]*13+f[1])<<5|int64(f[2]))<<17|int64(f[3])<<12|int64(f[4])<<6|int64(f[5]))<<24 | int64(f[6])
		}
		return append([]byte{t, 8}, nxLE(uint64(v), 8)...), true
	}
	sz, esz := 2, 3
	if large {
		sz, esz = 4, 5
	}
	head := 2 * sz
	if d.kind == "object" {
		head += len(d.keys) * (sz + 2)
	}
	head += len(d.kids) * esz
	var keys, ents, vals bytes.Buffer
	kl := 0
	for _, k := range d.keys {
		kl += len(k)
	}
	off := head
	for _, k := range d.keys {
		keys.Write(nxLE(uint64(off), sz))
		keys.Write(nxLE(uint64(len(k)), 2))
		off += len(k)
	}
	for _, c := range d.kids {
		t, b := c.value(force)
		ents.WriteByte(t)
		inline := t == 4 || t == 5 || t == 6 || large && (t == 7 || t == 8)
		if inline {
			ents.Write(append(b, make([]byte, sz-len(b))...))
			continue
		}
		ents.Write(nxLE(uint64(head+kl+vals.Len()), sz))
		vals.Write(b)
	}
	total := head + kl + vals.Len()
	if !large && total > 65535 {
		return nil, false
	}
	var out bytes.Buffer
	out.Write(nxLE(uint64(len(d.kids)), sz))
	out.Write(nxLE(uint64(total), sz))
	out.Write(keys.Bytes())
	out.Write(ents.Bytes())
	for _, k := range d.keys {
		out.WriteString(k)
	}
	out.Write(vals.Bytes())
	return out.Bytes(), true
}

// checkText reads the rendered text back and compares it with the document.
func (d *nxJSON) checkText(s string) string {
	rest, why := d.match(s, true)
	if why == "" && rest != "" {
		why = "trailing text " + nxClip(rest)
	}
	if why != "" {
		why += " in " + nxClip(s)
	}
	return why
}

func nxLit(s, lit string) (string, string) {
	if !strings.HasPrefix(s, lit) {
		return s, fmt.Sprintf("expected %q at %q", nxClip(lit), nxClip(s))
	}
	return s[len(lit):], ""
}

func (d *nxJSON) match(s string, top bool) (rest, why string) {
	q := ""
	if top {
		q = "'"
	}
	lit := func(l string) (string, string) { return nxLit(s, l) }
	cast := func(l string) (string, string) {
		if top {
			l = "CAST(" + l + " AS JSON)"
		}
		return nxLit(s, l)
	}
	us := ""
	if d.f[6] != 0 {
		us = fmt.Sprintf(".%06d", d.f[6])
	}
	f := d.f
	switch d.kind {
	case "object", "array":
		w := "JSON_ARRAY("
		if d.kind == "object" {
			w = "JSON_OBJECT("
		}
		if s, why = nxLit(s, w); why != "" {
			return
		}
		for i, k := range d.kids {
			if i > 0 {
				if s, why = nxLit(s, ","); why != "" {
					return
				}
			}
			if d.kind == "object" {
				if s, why = nxLit(s, nxQuoted(d.keys[i], false)+","); why != "" {
					return
				}
			}
			if s, why = k.match(s, false); why != "" {
				return
			}
		}
		return nxLit(s, ")")
	case "null", "true", "false":
		return lit(q + d.kind + q)
	case "int":
		return lit(q + strconv.FormatInt(d.i, 10) + q)
	case "uint":
		return lit(q + strconv.FormatUint(d.u, 10) + q)
	case "double":
		s, why = nxLit(s, q)
		n := 0
		for n < len(s) && strings.IndexByte("0123456789+-.eE", s[n]) >= 0 {
			n++
		}
		v, err := strconv.ParseFloat(s[:n], 64)
		if err != nil || math.Float64bits(v) != d.bits {
			return s, fmt.Sprintf("%q is not double %#x", s[:n], d.bits)
		}
		return nxLit(s[n:], q)
	case "string":
		return lit(nxQuoted(d.s, top))
	case "decimal":
		return cast(fmt.Sprintf("CAST('%s' AS DECIMAL(%d,%d))", nxDecimalText(d.s, d.p, d.q, d.neg), d.p, d.q))
	case "date":
		return cast(fmt.Sprintf("CAST('%04d-%02d-%02d' AS DATE)", f[0], f[1], f[2]))
	case "time":
		sign := ""
		if d.neg {
			sign = "-"
		}
		return cast(fmt.Sprintf("CAST('%s%02d:%02d:%02d%s' AS TIME(6))", sign, f[3], f[4], f[5], us))
	case "datetime":
		return cast(fmt.Sprintf("CAST('%04d-%02d-%02d %02d:%02d:%02d%s' AS DATETIME(6))", f[0], f[1], f[2], f[3], f[4], f[5], us))
	}
	return s, "?"
}

// ---- events

type nxConf struct {
	crc     bool
	alg     byte // announced checksum algorithm: 0 off, 1 crc32, 255 undefined
	v2      bool
	id4     bool
	extra   int // header bytes beyond 19
	version string
	ntypes  int  // entries of the header size table
	extraV2 int  // extra data bytes of v2 row events
	pad     bool // unused bitmap bits are set
}

func nxNewConf(r *vRng) nxConf {
	c := nxConf{v2: r.bool(), id4: r.oneIn(3), version: "5.7.30-log", ntypes: 38, pad: r.bool()}
	if r.bool() {
		c.alg, c.crc = 1, true
	} else if r.oneIn(4) {
		c.alg = 255
	}
	if r.oneIn(3) {
		c.version = string(bytes.Trim(r.text(r.Intn(51)), "\x00"))
	}
	switch r.Intn(4) {
	case 0:
		c.ntypes = 35 + r.Intn(220)
	case 1:
		c.ntypes = 40
	}
	if c.v2 {
		c.extraV2 = []int{0, 0, 0, 1, 5, 30}[r.Intn(6)]
		if r.oneIn(15) {
			c.extraV2 = []int{126, 254, 510, 32766, 65533 - r.Intn(4), r.Intn(65534)}[r.Intn(6)]
		}
	}
	return c
}

func (c nxConf) idSize() int {
	if c.id4 {
		return 4
	}
	return 6
}

// headerSizes: post-header lengths by type
func (c nxConf) headerSizes() []byte {
	h := make([]byte, c.ntypes)
	set := func(t int, v byte) {
		if t-1 < len(h) {
			h[t-1] = v
		}
	}
	set(2, 13)
	set(4, 8)
	set(15, 84)
	id := byte(8)
	if c.id4 {
		id = 6
	}
	for _, t := range []int{19, 20, 21, 22, 23, 24, 25} {
		set(t, id)
	}
	for _, t := range []int{30, 31, 32} {
		if c.id4 {
			set(t, 6)
		} else {
			set(t, 10)
		}
	}
	set(33, 25)
	set(34, 25)
	for i := 40; i < len(h); i++ {
		h[i] = byte(i * 7)
	}
	return h
}

type nxHdr struct {
	ts, server, next uint32
	typ              byte
	flags            uint16
}

// event assembles header, body and checksum.
func (c nxConf) event(h nxHdr, body []byte, crc bool) []byte {
	n := 19 + c.extra + len(body)
	if h.typ == 15 {
		n = 19 + len(body)
	}
	if crc {
		n += 4
	}
	b := append([]byte{}, nxLE(uint64(h.ts), 4)...)
	b = append(b, h.typ)
	b = append(b, nxLE(uint64(h.server), 4)...)
	b = append(b, nxLE(uint64(n), 4)...)
	b = append(b, nxLE(uint64(h.next), 4)...)
	b = append(b, nxLE(uint64(h.flags), 2)...)
	if h.typ != 15 {
		for i := 0; i < c.extra; i++ {
			b = append(b, byte(0xa0+i))
		}
	}
	b = append(b, body...)
	if crc {
		b = append(b, nxLE(uint64(crc32.ChecksumIEEE(b)), 4)...)
	}
	return b
}

func (c nxConf) fdeBody(ts uint32) []byte {
	b := nxLE(4, 2)
	v := make([]byte, 50)
	copy(v, c.version)
	b = append(b, v...)
	b = append(b, nxLE(uint64(ts), 4)...)
	b = append(b, byte(19+c.extra))
	b = append(b, c.headerSizes()...)
	b = append(b, c.alg)
	return b
}

// fde: the format description always carries four checksum bytes
func (c nxConf) fde(h nxHdr) []byte {
	h.typ = 15
	return c.event(h, c.fdeBody(h.ts), true)
}

func nxLenEnc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return append([]byte{0xfc}, nxLE(uint64(n), 2)...)
	}
	return append([]byte{0xfd}, nxLE(uint64(n), 3)...)
}

// nxBitmap encodes a bitmap; pad is what servers leave in the unused bits.
func nxBitmap(bits []bool, pad bool) []byte {
	b := make([]byte, (len(bits)+7)/8)
	if n := len(bits) % 8; pad && n != 0 {
		b[len(b)-1] = 0xff << uint(n)
	}
	for i, x := range bits {
		if x {
			b[i/8] |= 1 << uint(i%8)
		}
	}
	return b
}

type nxTable struct {
	id       uint64
	flags    uint16
	db, name string
	cols     []nxCol
	nullable []bool
	names    []string
	optional []byte // optional metadata of newer servers
}

func (c nxConf) tableMapBody(t *nxTable) []byte {
	b := nxLE(t.id, c.idSize())
	b = append(b, nxLE(uint64(t.flags), 2)...)
	b = append(b, byte(len(t.db)))
	b = append(b, t.db...)
	b = append(b, 0, byte(len(t.name)))
	b = append(b, t.name...)
	b = append(b, 0)
	b = append(b, nxLenEnc(len(t.cols))...)
	var mb []byte
	for _, x := range t.cols {
		b = append(b, x.typ)
		mb = append(mb, x.mb...)
	}
	b = append(b, nxLenEnc(len(mb))...)
	b = append(b, mb...)
	b = append(b, nxBitmap(t.nullable, c.pad)...)
	return append(b, t.optional...)
}

// nxCell: one column of one image
type nxCell struct {
	absent, null bool
	v            nxVal
}

type nxRow struct {
	before, after []nxCell // nil when the kind has none
}

// nxImage encodes an image: null bitmap over the present columns, then cells.
func nxImage(cells []nxCell, pad bool) (nulls, data []byte) {
	var bits []bool
	for _, c := range cells {
		if c.absent {
			continue
		}
		bits = append(bits, c.null)
		if !c.null {
			data = append(data, c.v.enc...)
		}
	}
	return nxBitmap(bits, pad), data
}

const (
	nxWrite = iota
	nxUpdate
	nxDelete
)

func (c nxConf) rowsType(kind int) byte {
	if c.v2 {
		return byte(30 + kind)
	}
	return byte(23 + kind)
}

func (c nxConf) rowsBody(kind int, id uint64, flags uint16, ncols int, presB, presA []bool, rows []nxRow) []byte {
	b := nxLE(id, c.idSize())
	b = append(b, nxLE(uint64(flags), 2)...)
	if c.v2 {
		b = append(b, nxLE(uint64(2+c.extraV2), 2)...)
		for i := 0; i < c.extraV2; i++ {
			b = append(b, byte(i*37+1))
		}
	}
	b = append(b, nxLenEnc(ncols)...)
	if kind != nxWrite {
		b = append(b, nxBitmap(presB, c.pad)...)
	}
	if kind != nxDelete {
		b = append(b, nxBitmap(presA, c.pad)...)
	}
	for _, r := range rows {
		if kind != nxWrite {
			n, d := nxImage(r.before, c.pad)
			b = append(append(b, n...), d...)
		}
		if kind != nxDelete {
			n, d := nxImage(r.after, c.pad)
			b = append(append(b, n...), d...)
		}
	}
	return b
}

func nxNewTable(r *vRng, maxCols int, col func(*vRng) nxCol) *nxTable {
	n := 1 + r.upto(maxCols-1)
	t := &nxTable{id: r.bits(32), flags: uint16(r.Intn(4)), db: nxName(r), name: nxName(r)}
	for i := 0; i < n; i++ {
		t.cols = append(t.cols, col(r))
		t.nullable = append(t.nullable, r.bool())
		t.names = append(t.names, fmt.Sprintf("c%d_%s", i, nxJSONText(r, r.Intn(5))))
	}
	if r.oneIn(3) {
		t.optional = r.text(1 + r.Intn(40))
	}
	return t
}

func nxName(r *vRng) string {
	n := 1 + r.Intn(12)
	switch r.Intn(10) {
	case 0:
		n = 255
	case 1:
		n = 1 + r.Intn(255)
	}
	const a = "abcdefghijklmnopqrstuvwxyz_$ABC0123456789\xe4\xb8\xad"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func nxPresence(r *vRng, n int, full bool) []bool {
	p := make([]bool, n)
	k := r.Intn(4)
	any := false
	for i := range p {
		p[i] = full || k == 0 || r.Intn(4) < k
		any = any || p[i]
	}
	if !any && n > 0 {
		p[r.Intn(n)] = true
	}
	return p
}

func nxCells(r *vRng, t *nxTable, pres []bool) []nxCell {
	cs := make([]nxCell, len(t.cols))
	k := r.Intn(4)
	for i := range cs {
		if !pres[i] {
			cs[i].absent = true
			continue
		}
		if t.nullable[i] && (k == 0 || k == 1 && r.bool()) {
			cs[i].null = true
			continue
		}
		cs[i].v = t.cols[i].gen(r)
	}
	return cs
}

func nxMakeRows(r *vRng, t *nxTable, kind, n int) (presB, presA []bool, rows []nxRow) {
	full := r.bool()
	presB, presA = nxPresence(r, len(t.cols), full), nxPresence(r, len(t.cols), full)
	for i := 0; i < n; i++ {
		var x nxRow
		if kind != nxWrite {
			x.before = nxCells(r, t, presB)
		}
		if kind != nxDelete {
			x.after = nxCells(r, t, presA)
		}
		rows = append(rows, x)
	}
	return
}

// ---- query events

type nxQuery struct {
	db, sql string
	charset *[3]uint16
	thread  uint32
	vars    []byte
}

// statusVars: the block as a server writes it
func nxStatusVars(r *vRng) ([]byte, *[3]uint16) {
	var b []byte
	var cs *[3]uint16
	if r.oneIn(8) {
		return nil, nil
	}
	if r.Intn(5) > 0 {
		b = append(b, 0)
		b = append(b, r.bytes(4)...)
	}
	if r.Intn(5) > 0 {
		b = append(b, 1)
		b = append(b, r.bytes(8)...)
	}
	switch r.Intn(4) {
	case 0:
		n := r.Intn(10)
		b = append(b, 2, byte(n))
		b = append(b, r.text(n)...)
		b = append(b, 0)
	case 1:
	default:
		n := r.Intn(10)
		if r.oneIn(10) {
			n = 255
		}
		b = append(b, 6, byte(n))
		b = append(b, r.text(n)...)
	}
	if r.bool() {
		b = append(b, 3)
		b = append(b, r.bytes(4)...)
	}
	if r.Intn(4) > 0 {
		cs = &[3]uint16{uint16(r.Intn(65536)), uint16(r.Intn(300)), uint16(r.Intn(300))}
		b = append(b, 4)
		for _, v := range cs {
			b = append(b, nxLE(uint64(v), 2)...)
		}
	}
	for _, code := range []byte{5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18, 19, 20} {
		if r.oneIn(5) {
			b = append(b, code)
			b = append(b, r.bytes(r.Intn(12))...)
		}
	}
	return b, cs
}

func (q nxQuery) body() []byte {
	b := nxLE(uint64(q.thread), 4)
	b = append(b, 1, 0, 0, 0, byte(len(q.db)), 0, 0)
	b = append(b, nxLE(uint64(len(q.vars)), 2)...)
	b = append(b, q.vars...)
	b = append(b, q.db...)
	b = append(b, 0)
	return append(b, q.sql...)
}

var _ = binary.LittleEndian
