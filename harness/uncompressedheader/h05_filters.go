package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/vk"
	"github.com/m4tthewde/gov1/internal/vkspec"
)

//verif:bounds key frames with every loop filter level, sharpness and delta; mono or colour; no other filters
func VerifH05_deblock() {
	s := newSpec(48)
	s.sh.ColorConfig.NumPlanes = vk.Split("planes", vk.Int("planes", 0, 1), 0, 1)*2 + 1
	s.baseQ = 60
	s.free.lf = true
	s.read()
	s.check()
}

func enhance(k int) {
	s := newSpec(48)
	c := &s.sh.ColorConfig
	c.NumPlanes = []int{1, 3, 3, 3}[k]
	c.SubsamplingX = k < 3
	c.SubsamplingY = k < 2
	s.sh.Use128x128SuperBlock = vk.SplitBool("big", vk.Bool("big"))
	// every enhancement with no restoration, every restoration without enhancement
	f := vk.Split("filter", vk.Int("filter", 0, 2), 0, 2)
	s.sh.EnableCdef = f != 1
	s.sh.EnableRestoration = f != 0
	s.free.lr = f == 1 || vk.Thorough()
	mode := vk.Split("mode", vk.Int("mode", 0, 3), 0, 3)
	s.sh.EnableSuperRes = mode == 2
	s.sh.SeqForceScreenContentTools = vkspec.B(mode == 3)
	s.baseQ = 60
	if mode == 1 || mode == 2 {
		s.baseQ = 0
	}
	s.read()
	s.check()
}

//verif:bounds key frames with every enhancement strength and count and no restoration, or every restoration type and unit size and no enhancement (both only without restoration units in use, quick); mono; both superblock sizes; with and without intra block copy and super-resolution; lossy or lossless
func VerifH05_enhancemono() { enhance(0) }

//verif:bounds key frames with every enhancement strength and count and no restoration, or every restoration type and unit size and no enhancement (both only without restoration units in use, quick); 420; both superblock sizes; with and without intra block copy and super-resolution; lossy or lossless
func VerifH05_enhance420() { enhance(1) }

//verif:bounds key frames with every enhancement strength and count and no restoration, or every restoration type and unit size and no enhancement (both only without restoration units in use, quick); 422; both superblock sizes; with and without intra block copy and super-resolution; lossy or lossless
func VerifH05_enhance422() { enhance(2) }

//verif:bounds key frames with every enhancement strength and count and no restoration, or every restoration type and unit size and no enhancement (both only without restoration units in use, quick); 444; both superblock sizes; with and without intra block copy and super-resolution; lossy or lossless
func VerifH05_enhance444() { enhance(3) }
