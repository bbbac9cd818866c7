package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
)

//verif:bounds every slot pair; tables of every kind with two rows of arbitrary values
func VerifE04_memory() {
	i := vk.Split("i", vk.Int("i", 0, 7), 0, 7)
	j := vk.Split("j", vk.Int("j", 0, 7), 0, 7)
	vk.Assume(i != j)
	var s, a, b state.State
	fill(&s, "a")
	fill(&a, "a")
	fill(&b, "b")
	SaveCdfs(i, &s)
	fill(&s, "b")
	SaveCdfs(j, &s)
	initNonCoeffCdfs(&s)
	initCoeffCdfs(&s, UncompressedHeader{})
	LoadCdfs(i, &s)
	sameFrame(&s, &a, "are loaded as they were saved")
	LoadCdfs(j, &s)
	sameFrame(&s, &b, "of other slots are kept apart")
	vk.Reach("end")
}
