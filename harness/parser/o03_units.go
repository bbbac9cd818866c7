package parser

import (
	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/vk"
)

// unit appends a length-prefixed unit; wide uses a two-byte length code.
func unit(out, body []byte, wide bool) []byte {
	n := len(body)
	if wide {
		out = append(out, byte(n&127)|128, byte(n>>7))
	} else {
		out = append(out, byte(n))
	}
	return append(out, body...)
}

func wide(i int) bool { return vk.SplitBool("wide", vk.BoolAt("wide", i)) }

//verif:bounds two temporal units of 1..2 frame units of 1..2 padding, delimiter or reserved OBUs with payloads of 0..2 bytes and one- or two-byte lengths, any payload content
func VerifO03_units() {
	data := []byte{}
	types := []int{}
	payload := vk.Bytes("p", 64)
	k := 0
	wides := []bool{wide(0), wide(1), wide(2)}
	for t := 0; t < 2; t++ {
		tu := []byte{}
		fus := vk.Split("fus", vk.IntAt("fus", t, 1, 2), 1, 2)
		for f := 0; f < fus; f++ {
			fu := []byte{}
			n := 1
			if t == 0 {
				n = vk.Split("obus", vk.IntAt("obus", f, 1, 2), 1, 2)
			}
			for o := 0; o < n; o++ {
				size := (t + 2*f + o) % 3
				typ := []int{15, 2, 9, 15}[(t+f+2*o)%4]
				obu := []byte{byte(typ << 3)}
				for i := 0; i < size; i++ {
					obu = append(obu, payload[k])
					k++
				}
				if size > 0 {
					vk.Assume(obu[size] != 0)
				}
				types = append(types, typ)
				fu = unit(fu, obu, wides[0])
			}
			tu = unit(tu, fu, wides[1])
		}
		data = unit(data, tu, wides[2])
	}
	b := bitstream.NewBitStream(data)
	p := NewParser(&b)
	got := p.bitstream()
	vk.Assert(len(got) == len(types), "every OBU is parsed once")
	for i := range types {
		vk.Assert(got[i].Header.Type == types[i], "OBUs are parsed in stream order")
	}
	vk.Assert(b.Position == 8*len(data), "parsing ends at the end of the stream")
	vk.Reach("end")
}

//verif:bounds a sequence header with any operating point, then an enhancement-layer OBU of any type and content 0..3 bytes in a later frame unit or temporal unit
func VerifO03_state() {
	idc := vk.Int("idc", 1, 4095)
	seq := []byte{1 << 3, 0, byte(idc >> 8), byte(idc), 0, 0, 0, 0xc0, 0x04}
	typ := vk.Split("typ", vk.Int("typ", 3, 15), 3, 15)
	t := vk.Split("t", vk.Int("t", 0, 7), 0, 7)
	s := vk.Split("s", vk.Int("s", 0, 3), 0, 3)
	vk.Assume(!vk.And(idc>>uint(t)&1 == 1, idc>>uint(8+s)&1 == 1))
	n := vk.Split("n", vk.Int("n", 0, 3), 0, 3)
	drop := append([]byte{byte(typ<<3 | 4), byte(t<<5 | s<<3)}, vk.Bytes("p", n)...)

	fu1 := unit([]byte{}, seq, false)
	fu2 := unit([]byte{}, drop, false)
	tu1 := unit([]byte{}, fu1, false)
	var data []byte
	if vk.SplitBool("same", vk.Bool("same")) {
		tu1 = unit(tu1, fu2, false)
		data = unit([]byte{}, tu1, false)
	} else {
		data = unit([]byte{}, tu1, false)
		data = unit(data, unit([]byte{}, fu2, false), false)
	}
	b := bitstream.NewBitStream(data)
	p := NewParser(&b)
	got := p.bitstream()
	vk.Assert(len(got) == 2, "both OBUs are accounted for")
	vk.Assert(got[0].SequenceHeader.OperatingPointIdc[0] == idc, "the sequence header is read")
	vk.Assert(p.SequenceHeader.OperatingPointIdc[0] == idc, "the sequence header is kept")
	vk.Assert(b.Position == 8*len(data), "an OBU outside the operating point is skipped in every later unit")
	vk.Reach("end")
}
