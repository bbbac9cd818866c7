package uncompressedheader

import (
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/vk"
)

const mix = 0x9E3779B97F4A7C15

// checker walks one table: shape, well-formedness and contents.
type checker struct {
	h   uint64
	bad bool
}

func (c *checker) table1(t []int, n int) {
	c.h = c.h*mix + uint64(len(t))
	c.bad = c.bad || len(t) != n
	for i, v := range t {
		c.h = c.h*mix + uint64(v) + 1
		prev := 0
		if i > 0 {
			prev = t[i-1]
		}
		switch {
		case i == len(t)-1:
			c.bad = c.bad || v != 0
		case i == len(t)-2:
			c.bad = c.bad || v != 32768 || prev >= v
		default:
			c.bad = c.bad || v <= prev
		}
	}
}

func (c *checker) table2(t [][]int, m, n int) {
	c.h = c.h*mix + uint64(len(t))
	c.bad = c.bad || len(t) != m
	for i := range t {
		c.table1(t[i], n)
	}
}

func (c *checker) table3(t [][][]int, l, m, n int) {
	c.h = c.h*mix + uint64(len(t))
	c.bad = c.bad || len(t) != l
	for i := range t {
		c.table2(t[i], m, n)
	}
}

func (c *checker) table4(t [][][][]int, k, l, m, n int) {
	c.h = c.h*mix + uint64(len(t))
	c.bad = c.bad || len(t) != k
	for i := range t {
		c.table3(t[i], l, m, n)
	}
}

func (c *checker) is(h uint64, name string) {
	vk.Assert(!c.bad, name+" has the alphabets of the format, increasing probabilities up to 32768 and a zero counter")
	vk.Assert(c.h == h, name+" is the default of the format")
}

//verif:bounds every table that does not depend on the quantizer
func VerifE05_modes() {
	var s state.State
	initNonCoeffCdfs(&s)
	defaults(&s)
	vk.Reach("end")
}

//verif:bounds every base index 0..255, every coefficient table
func VerifE05_coeffs() {
	var s state.State
	q := vk.Int("q", 0, 255)
	idx := 0
	for i, lim := range []int{20, 60, 120} {
		if vk.SplitBool("above", q > lim) {
			idx = i + 1
		}
	}
	initCoeffCdfs(&s, UncompressedHeader{BaseQIdx: q})
	coeffDefaults(&s, idx)
	vk.Reach("end")
}
