package replication

// Contract of CellBytes for DECIMAL(p,s) (C11).

import "fmt"

var decBytes = []int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}

// decGroup: the value of n bytes at d[off:], as stored for a number whose
// sign is given; the first byte of the number carries the inverted sign bit.
func decGroup(d []byte, pos, off, n int, neg bool) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		b := d[pos+off+i]
		if off+i == 0 {
			b ^= 0x80
		}
		if neg {
			b = 255 - b
		}
		v = v*256 + uint64(b)
	}
	return v
}

func pow10(n int) uint64 {
	r := uint64(1)
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}

//shards:65
func prove_C11_C09_C08_decimal() {
	p := vEnum("precision", 1, 65)
	max := 30
	if p < 30 {
		max = p
	}
	s := vEnum("scale", 0, max)
	decimalContract(p, s)
}

func decimalContract(p, s int) {
	intg := p - s
	i0, ix, f0, fx := intg/9, intg%9, s/9, s%9
	size := i0*4 + decBytes[ix] + f0*4 + decBytes[fx]
	data, pos := symData(size)
	neg := data[pos] < 0x80
	// the groups
	var ig, fg []uint64
	var digits []int
	off := 0
	if ix > 0 {
		v := decGroup(data, pos, 0, decBytes[ix], neg)
		vAssume(v < pow10(ix))
		ig = append(ig, v)
		off = decBytes[ix]
	}
	for i := 0; i < i0; i++ {
		v := decGroup(data, pos, off, 4, neg)
		vAssume(v < 1000000000)
		ig = append(ig, v)
		off += 4
	}
	for i := 0; i < f0; i++ {
		v := decGroup(data, pos, off, 4, neg)
		vAssume(v < 1000000000)
		fg = append(fg, v)
		digits = append(digits, 9)
		off += 4
	}
	if fx > 0 {
		v := decGroup(data, pos, off, decBytes[fx], neg)
		vAssume(v < pow10(fx))
		fg = append(fg, v)
		digits = append(digits, fx)
	}
	// there is no negative zero
	var sum uint64
	for _, v := range ig {
		sum += v
	}
	for _, v := range fg {
		sum += v
	}
	vAssume(vOr(!neg, sum > 0))

	vFrame(true)
	out, l, err := CellBytes(data, pos, TypeNewDecimal, uint16(p)<<8|uint16(s), vBool("unsigned"))
	vFrame(false)

	want := ""
	if neg {
		want = "-"
	}
	started := false
	for _, v := range ig {
		if started {
			want += fmt.Sprintf("%09d", v)
		} else if v != 0 {
			want += fmt.Sprintf("%d", v)
			started = true
		}
	}
	if !started {
		want += "0"
	}
	if s > 0 {
		want += "."
	}
	for i, v := range fg {
		want += fmt.Sprintf("%0*d", digits[i], v)
	}
	vCover("decimal")
	vEnsure(err == nil, "C11.noerror")
	vEnsure(l == size, "C11.length")
	vEnsure(cellPrivate(out, data, pos, size), "C08.cell-private")
	n, err := cellLength(data, pos, TypeNewDecimal, uint16(p)<<8|uint16(s))
	vEnsure(err == nil, "C09.cell.lengthrule.noerror")
	vEnsure(n == l, "C09.cell.agree")
	vEnsure(vEqB(out, []byte(want)), "C11.value")
}
