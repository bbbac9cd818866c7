package bitstream

// specBit is the MSB-first bit at absolute position p.
func specBit(d []byte, p int) int {
	return int(d[p>>3]>>uint(7-(p&7))) & 1
}

// specF is the value of n bits starting at p, most significant first.
func specF(d []byte, p, n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v |= specBit(d, p+i) << uint(n-1-i)
	}
	return v
}
