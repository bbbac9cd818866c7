package tilegroup

import (
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/vk"
)

// forward is the lossless transform an encoder applies to four values.
func forward(a, b, c, d int) (int, int, int, int) {
	a += b
	d -= c
	e := (a - d) >> 1
	b = e - b
	c = e - c
	return a - c, c, d + b, b
}

//verif:bounds every residual of 12-bit video, at 8, 10 and 12 bits; every transform type and previous value
//verif:guess 24
func VerifX01_roundtrip() {
	xFast()
	depth := 8 + 2*vk.Split("d", vk.Int("depth", 0, 2), 0, 2)
	lim := 1<<depth - 1
	name := []string{"res8", "res10", "res12"}[depth/2-4]
	var t TileGroup
	var sh sequenceheader.SequenceHeader
	sh.ColorConfig.BitDepth = depth
	t.Lossless = true
	t.PlaneTxType = vk.Int("type", 0, 15)
	var in, mid, out [4][4]int
	for i := 0; i < 16; i++ {
		in[i/4][i%4] = vk.IntAt(name, i, -lim, lim)
	}
	for j := 0; j < 4; j++ {
		mid[0][j], mid[1][j], mid[2][j], mid[3][j] = forward(in[0][j], in[1][j], in[2][j], in[3][j])
	}
	for i := 0; i < 4; i++ {
		out[i][0], out[i][1], out[i][2], out[i][3] = forward(mid[i][0], mid[i][1], mid[i][2], mid[i][3])
	}
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			t.Dequant[i][j] = 4 * out[i][j]
		}
	}
	t.InverseTranform(TX_4X4, sh)
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			vk.Assert(t.Residual[i][j] == in[i][j], "lossless residual")
		}
	}
	vk.Reach("end")
}

//verif:bounds every coefficient of 14 bits
//verif:guess 24
func VerifX01_inverse() {
	xFast()
	var t TileGroup
	var sh sequenceheader.SequenceHeader
	sh.ColorConfig.BitDepth = 8
	t.Lossless = true
	var want [4][4]int
	for i := 0; i < 4; i++ {
		row := make([]int, 4)
		for j := range row {
			row[j] = vk.IntAt("coef", i*4+j, -8192, 8191)
			t.Dequant[i][j] = row[j]
		}
		copy(want[i][:], refWHT(row, 2))
	}
	t.InverseTranform(TX_4X4, sh)
	for j := 0; j < 4; j++ {
		c := refWHT([]int{want[0][j], want[1][j], want[2][j], want[3][j]}, 0)
		for i := 0; i < 4; i++ {
			vk.Assert(t.Residual[i][j] == c[i], "inverse transformed value")
		}
	}
	vk.Reach("end")
}
