package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/vk"
)

var iAngles = []int{0, 90, 180, 45, 135, 113, 157, 203, 67}

// iSlope lists the steps of the angles 3, 6, 9, ... with none for those that
// no mode has.
var iSlope = map[int]int{3: 1023, 6: 547, 9: 372, 14: 273, 17: 215, 20: 178, 23: 151, 26: 132, 29: 116, 32: 102, 36: 90, 39: 80, 42: 71, 45: 64,
	48: 57, 51: 51, 54: 45, 58: 40, 61: 35, 64: 31, 67: 27, 70: 23, 73: 19, 76: 15, 81: 11, 84: 7, 87: 3}

// iStrength is the strength of the edge filter.
func iStrength(smooth bool, wh, d int) int {
	if d < 0 {
		d = -d
	}
	// thresholds of the strengths 1, 2 and 3
	var t [3]int
	const never = 1000
	switch {
	case !smooth && wh <= 8:
		t = [3]int{56, never, never}
	case !smooth && wh <= 16:
		t = [3]int{40, never, never}
	case !smooth && wh <= 24:
		t = [3]int{8, 16, 32}
	case !smooth && wh <= 32:
		t = [3]int{0, 4, 32}
	case smooth && wh <= 8:
		t = [3]int{40, 64, never}
	case smooth && wh <= 16:
		t = [3]int{20, 48, never}
	case smooth && wh <= 24:
		t = [3]int{never, never, 4}
	}
	s := 0
	for i := range t {
		if d >= t[i] {
			s = i + 1
		}
	}
	return s
}

// iFilter smooths n samples from the corner on.
func iFilter(e []int, n, strength int) {
	if strength == 0 {
		return
	}
	k := [][]int{{0, 4, 8, 4, 0}, {0, 5, 6, 5, 0}, {2, 4, 4, 4, 2}}[strength-1]
	in := append([]int(nil), e[15:15+n]...)
	for i := 1; i < n; i++ {
		s := 8
		for j, f := range k {
			p := i + j - 2
			if p < 0 {
				p = 0
			}
			if p > n-1 {
				p = n - 1
			}
			s += f * in[p]
		}
		e[15+i] = s >> 4
	}
}

// iUpsample doubles n samples after the corner.
func iUpsample(e []int, n, depth int) {
	in := append([]int{e[15]}, e[15:15+n+1]...)
	in = append(in, e[15+n])
	e[14] = in[0]
	for i := 0; i < n; i++ {
		e[15+2*i] = iClip((-in[i]+9*in[i+1]+9*in[i+2]-in[i+3]+8)>>4, depth)
		e[16+2*i] = in[i+2]
	}
}

func iDoubles(smooth bool, wh, d int) bool {
	if d < 0 {
		d = -d
	}
	if d == 0 || d >= 40 {
		return false
	}
	return wh <= 8 || wh <= 16 && !smooth
}

// angle checks a directional prediction.
func (b *iBlk) angle(mode, delta int, filter, smooth bool) {
	b.sh.EnableIntraEdgeFilter = filter
	if b.plane == 0 {
		b.t.AngleDeltaY, b.t.AngleDeltaUV = delta, 2-delta
	} else {
		b.t.AngleDeltaUV, b.t.AngleDeltaY = delta, 2-delta
	}
	angle := iAngles[mode] + 3*delta
	wh := b.w + b.h
	var ua, ul bool
	more := func(c bool, n int) int {
		if c {
			return n
		}
		return 0
	}
	if filter && angle != 90 && angle != 180 {
		if angle > 90 && angle < 180 && wh >= 24 {
			c := (5*b.L(0) + 6*b.A(-1) + 5*b.A(0) + 8) >> 4
			b.a[15], b.l[15] = c, c
		}
		n := func(size, room int) int {
			if room < size {
				return room
			}
			return size
		}
		if b.above {
			iFilter(b.a, n(b.w, b.maxX-b.x+1)+more(angle < 90, b.h)+1, iStrength(smooth, wh, angle-90))
		}
		if b.left {
			iFilter(b.l, n(b.h, b.maxY-b.y+1)+more(angle > 180, b.w)+1, iStrength(smooth, wh, angle-180))
		}
		ua, ul = iDoubles(smooth, wh, angle-90), iDoubles(smooth, wh, angle-180)
		if ua {
			iUpsample(b.a, b.w+more(angle < 90, b.h), b.depth)
		}
		if ul {
			iUpsample(b.l, b.h+more(angle > 180, b.w), b.depth)
		}
	}
	// between interpolates at 64ths of a sample
	between := func(e func(int) int, pos, k int, double bool) int {
		if double {
			f := pos * 2 >> 1 & 31
			p := pos>>5 + 2*k
			return (e(p)*(32-f) + e(p+1)*f + 16) >> 5
		}
		f := pos >> 1 & 31
		p := pos>>6 + k
		return (e(p)*(32-f) + e(p+1)*f + 16) >> 5
	}
	b.check(mode, func(i, j int) int {
		switch {
		case angle == 90:
			return b.A(j)
		case angle == 180:
			return b.L(i)
		case angle < 90:
			pos := (i + 1) * iSlope[angle]
			last := wh - 1
			p := pos>>6 + j
			if ua {
				last *= 2
				p = pos>>5 + 2*j
			}
			if p >= last {
				return b.A(last)
			}
			return between(b.A, pos, j, ua)
		case angle > 180:
			return between(b.L, (j+1)*iSlope[270-angle], i, ul)
		}
		pos := j*64 - (i+1)*iSlope[180-angle]
		if pos >= -64 {
			return between(b.A, pos, 0, ua)
		}
		return between(b.L, i*64-(j+1)*iSlope[angle-90], 0, ul)
	})
}

// iAngle runs every angle of the modes from lo to hi.
func iAngle(size, lo, hi int, sparse bool) {
	mode := vk.Split("mode", vk.Int("mode", lo, hi), lo, hi)
	delta := vk.Split("delta", vk.Int("delta", -3, 3), -3, 3)
	smooth := vk.SplitBool("smooth", vk.Bool("smooth"))
	// the frame's edge is far away, in the middle of the neighbours or inside
	cols, rows := 40, 40
	switch vk.Split("frame", vk.Int("frame", 0, 2), 0, 2) {
	case 1:
		cols, rows = (4+iWide[size]+iWide[size]/2+3)/4, (8+iHigh[size]+iHigh[size]/2+3)/4
	case 2:
		if iWide[size] > 4 {
			cols = (4 + iWide[size]/2) / 4
		}
		if iHigh[size] > 4 {
			rows = (8 + iHigh[size]/2) / 4
		}
	}
	filter := (delta+mode)%3 != 0 || smooth
	b := iNew(size, 0, 10, 4, 8, cols, rows, false, sparse)
	n := (mode+delta+cols)%4 + 3
	if n > 3 {
		n = 3
	}
	if delta == 0 || delta == 3 {
		n = vk.Split("have", vk.Int("have", 0, 3), 0, 3)
	}
	b.have(n&1 != 0, n&2 != 0, delta != 1, delta != -1)
	b.s.MiRow, b.s.MiCol = 2, 1
	b.s.AvailU, b.s.AvailL = true, true
	if smooth {
		b.t.YModes[1+delta&1][1-delta&1] = 9 + mode%3
	}
	b.angle(mode, delta, filter, smooth)
}

//verif:bounds 4x4, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea4x4() { iAngle(0, 1, 4, false) }

//verif:bounds 4x4, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb4x4() { iAngle(0, 5, 8, false) }

//verif:bounds 4x8, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea4x8() { iAngle(5, 1, 4, false) }

//verif:bounds 4x8, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb4x8() { iAngle(5, 5, 8, false) }

//verif:bounds 8x4, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea8x4() { iAngle(6, 1, 4, false) }

//verif:bounds 8x4, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb8x4() { iAngle(6, 5, 8, false) }

//verif:bounds 8x8, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea8x8() { iAngle(1, 1, 4, false) }

//verif:bounds 8x8, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb8x8() { iAngle(1, 5, 8, false) }

//verif:bounds 4x16, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea4x16() { iAngle(13, 1, 4, false) }

//verif:bounds 4x16, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb4x16() { iAngle(13, 5, 8, false) }

//verif:bounds 16x8, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea16x8() { iAngle(8, 1, 4, false) }

//verif:bounds 16x8, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb16x8() { iAngle(8, 5, 8, false) }

//verif:bounds 16x16, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea16x16() { iAngle(2, 1, 4, false) }

//verif:bounds 16x16, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb16x16() { iAngle(2, 5, 8, false) }

//verif:bounds 16x4, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea16x4() { iAngle(14, 1, 4, false) }

//verif:bounds 16x4, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb16x4() { iAngle(14, 5, 8, false) }

//verif:bounds 8x32, vertical, horizontal, 45 and 135 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_anglea8x32() { iAngle(15, 1, 4, false) }

//verif:bounds 8x32, 113, 157, 203 and 67 degree modes with every angle, every edge sample of 10 bits, filters, availability and frame edges
//verif:loop 5000
func VerifI02_angleb8x32() { iAngle(15, 5, 8, false) }

//verif:bounds 32x32, modes with every angle, edge samples of 10 bits at the ends and the middle, filters, availability and frame edges
//verif:loop 5000
//verif:thorough
func VerifI02_angle32x32() { iAngle(3, 1, 8, true) }

//verif:bounds 16x64, modes with every angle, edge samples of 10 bits at the ends and the middle, filters, availability and frame edges
//verif:loop 5000
//verif:thorough
func VerifI02_angle16x64() { iAngle(17, 1, 8, true) }

// VerifI02_type checks which neighbours select the filter of smooth blocks.
//
//verif:bounds 8x8 luma and chroma at every parity and subsampling, neighbours of every mode and reference, one angle
func VerifI02_type() {
	plane := vk.Split("p", vk.Int("plane", 0, 1), 0, 1) * 2
	sub := plane > 0 && vk.SplitBool("sub", vk.Bool("sub"))
	row, col := 4+vk.Split("r", vk.Int("row", 0, 1), 0, 1), 6+vk.Split("c", vk.Int("col", 0, 1), 0, 1)
	b := iNew(1, plane, 8, 4, 8, 40, 40, sub, true)
	b.have(true, true, true, true)
	b.s.MiRow, b.s.MiCol = row, col
	up, left := vk.SplitBool("up", vk.Bool("up")), vk.SplitBool("left", vk.Bool("left"))
	b.s.AvailU, b.s.AvailL, b.s.AvailUChroma, b.s.AvailLChroma = up, left, !up, !left
	if plane > 0 {
		b.s.AvailU, b.s.AvailL, b.s.AvailUChroma, b.s.AvailLChroma = !up, !left, up, left
	}
	// elsewhere blocks are smooth
	for i := range b.t.YModes[:16] {
		for j := range b.t.YModes[i][:16] {
			b.t.YModes[i][j], b.t.UVModes[i][j] = 9, 9
		}
	}
	ur, uc, lr, lc := row-1, col, row, col-1
	if plane > 0 && sub {
		ur, uc = row&^1-1, col|1
		lr, lc = row|1, col&^1-1
	}
	smooth := false
	side := vk.SplitBool("side", vk.Bool("side"))
	set := func(r, c int, me, avail bool) {
		m, inter := 12, false
		if me {
			m = []int{0, 9, 10, 11, 8}[vk.Split("mode", vk.Int("mode", 0, 4), 0, 4)]
			inter = vk.SplitBool("inter", vk.Bool("inter"))
		}
		if plane > 0 {
			b.t.UVModes[r][c] = m
		} else {
			b.t.YModes[r][c] = m
		}
		if inter {
			b.s.RefFrames[r][c][0] = 1
		}
		if avail && m >= 9 && m <= 11 && !(plane > 0 && inter) {
			smooth = true
		}
	}
	set(ur, uc, side, up)
	set(lr, lc, !side, left)
	b.angle(8, 0, true, smooth)
}
