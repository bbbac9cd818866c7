package tilegroup

import "github.com/m4tthewde/gov1/internal/vk"

// Transform dimensions by transform size number.
var txW = []int{4, 8, 16, 32, 64, 4, 8, 8, 16, 16, 32, 32, 64, 4, 16, 8, 32, 16, 64}
var txH = []int{4, 8, 16, 32, 64, 8, 4, 16, 8, 32, 16, 64, 32, 16, 4, 32, 8, 64, 16}

func txOf(w, h int) int {
	r := -1
	for i := range txW {
		if txW[i] == w && txH[i] == h {
			r = i
		}
	}
	return r
}

func lg(n int) int {
	r := 0
	for 1<<r < n {
		r++
	}
	return r
}

func umin(a, b int) int { return vk.Ite(a < b, a, b) }

func umax(a, b int) int { return vk.Ite(a > b, a, b) }
