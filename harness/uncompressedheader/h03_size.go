package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:bounds whole intra headers: sizes of 1x9, 8x1, 9x8 and 16x16 coded or 40x24 from the sequence, with and without super-resolution (denominators 9 and 16), render size, screen content tools and lossless coding
func VerifH03_header() {
	s := newSpec(24)
	s.sh.EnableSuperRes = vk.SplitBool("sr", vk.Bool("sr"))
	s.sh.EnableRestoration = true
	s.sh.SeqForceScreenContentTools = vk.Split("sct", vk.Int("sct", 0, 1), 0, 1)
	s.sh.SeqForceIntegerMv = vk.Split("imv", vk.Int("imv", 0, 1), 0, 1)
	s.kind = vk.Split("kind", vk.Int("kind", 0, 1), 0, 1) * 2
	s.free.size = true
	s.read()
	s.check()
}

//verif:bounds every frame size of 1..65536 in each direction (field widths 1, 8, 16 bits), every super-resolution denominator, every render size
func VerifH03_size() {
	d := vk.Bytes("d", 12)
	r := &vkspec.R{D: d}
	s := newSpec(1)
	u := &s.u
	w := []int{0, 7, 15}[vk.Split("wbits", vk.Int("wbits", 0, 2), 0, 2)]
	h := []int{0, 7, 15}[vk.Split("hbits", vk.Int("hbits", 0, 2), 0, 2)]
	s.sh.FrameWidthBitsMinusOne, s.sh.FrameHeightBitsMinusOne = w, h
	s.sh.MaxFrameWidthMinusOne = vk.IntAt("maxw", w, 0, 1<<uint(w+1)-1)
	s.sh.MaxFrameHeightMinusOne = vk.IntAt("maxh", h, 0, 1<<uint(h+1)-1)
	u.FrameSizeOverrideFlag = vk.SplitBool("override", vk.Bool("override"))
	s.sh.EnableSuperRes = vk.SplitBool("sr", vk.Bool("sr"))
	up, hi, den := s.sh.MaxFrameWidthMinusOne+1, s.sh.MaxFrameHeightMinusOne+1, 8
	if u.FrameSizeOverrideFlag {
		up, hi = r.F(w+1)+1, r.F(h+1)+1
	}
	use := false
	if s.sh.EnableSuperRes {
		use = vk.SplitBool("use", r.Flag())
		if use {
			den = vk.Split("den", r.F(3), 0, 7) + 9
		}
	}
	b := bitstream.NewBitStream(d)
	u.frameSize(&b, &s.st, s.sh)
	fw := (up*8 + den/2) / den
	vk.Assert(vk.And(u.UpscaledWidth == up, u.FrameHeight == hi), "size before scaling")
	vk.Assert(vk.And(u.UseSuperRes == use, u.SuperResDenom == den), "super-resolution parameters")
	vk.Assert(u.FrameWidth == fw, "coded width")
	vk.Assert(vk.And(s.st.MiCols == (fw+7)/8*2, s.st.MiRows == (hi+7)/8*2), "size in 4x4 units")
	rw, rh := up, hi
	if vk.SplitBool("render", r.Flag()) {
		rw, rh = r.F(16)+1, r.F(16)+1
	}
	u.renderSize(&b)
	vk.Assert(vk.And(u.RenderWidth == rw, u.RenderHeight == rh), "render size")
	vk.Assert(b.Position == r.P, "consumed bits")
	vk.Reach("end")
}
