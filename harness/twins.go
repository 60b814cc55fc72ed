package main

import "pgregory.net/rapid"

// texts that differ although a common checksum of them is the same: code that tells texts apart
// by a checksum, a length or some of their bytes takes one for the other
var twins = [][2]string{
	{"egipgvef", "tcudagdu"}, // crc32
	{"eqxj0q13", "4kcmhacf"}, // crc32
	{"lrubgngi", "lbfwnhsy"}, // crc32
	{"0ejzgjkz", "qrfwlhld"}, // crc32c
	{"rm1ypgpw", "aoupmqvz"}, // crc32c
	{"3alnljwe", "glhto3oj"}, // crc32c
	{"ikkwxn5t", "fgstwy3n"}, // adler32
	{"xs0j4k0j", "s5joe1r5"}, // adler32
	{"x5yolxdp", "su3qsbtx"}, // adler32
	{"0lcsqfnh", "gfympasp"}, // fnv32
	{"tt3g3e11", "wnc53rjz"}, // fnv32
	{"01pukmaz", "eqhqupt1"}, // fnv32
	{"boxwqr51", "j5lkeznf"}, // fnv32a
	{"fpmyj0cl", "p2wlu3cu"}, // fnv32a
	{"wybwj5cg", "dbvlrhsw"}, // fnv32a
	{"oichb2bs", "4fdwwyij"}, // fnv64 low
	{"4n1hq5nt", "3m3q3w03"}, // fnv64 low
	{"r0bnfwdt", "ryoil505"}, // fnv64 low
	{"c2qbtuj5", "bamivzwh"}, // fnv64a low
	{"tc42j5jz", "ypcqjhgv"}, // fnv64a low
	{"yvtu0dea", "y0mlh2n2"}, // fnv64a low
	{"rdkaxi4d", "52wvrc0l"}, // times 31
	{"svavtxzs", "qaxkx25m"}, // times 31
	{"hkmkvex2", "hphlkdot"}, // times 31
	{"q2yoqiqq", "1hfonmnp"}, // times 33
	{"2jkjlhd2", "l3n13m1l"}, // times 33
	{"mvuaadwf", "jj252bjb"}, // times 33
	{"0hhuvr1y", "2vkjgdwh"}, // times 131
	{"kfk4a0j5", "ezp10xdl"}, // times 131
	{"4l50sbqp", "l2gfh2vp"}, // times 131
	{"nyunfdvo", "bagmrnlf"}, // sdbm
	{"c1altbl1", "rrhogpt0"}, // sdbm
	{"51b2rzlo", "qajweslx"}, // sdbm
	{"ab", "ba"},             // sums
	{"Aa", "BB"},
	{"AaAa", "BBBB"},
}

// twinText is one of few texts that are easily taken for another one
func twinText(t *rapid.T) string {
	if coin(t) {
		return choose(t, twins)[pick(t, 2)]
	}
	// the same but for one byte
	b := pattern(choose(t, []int{8, 9, 12, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100}), true)
	b[choose(t, []int{0, 1, len(b) / 2, len(b) / 3, len(b) - 2, len(b) - 1})] = choose(t, []byte{'A', 'B'})
	return string(b)
}
