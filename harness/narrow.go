package main

import "strconv"

// narrow platforms have an int of 32 bits: list indexes and struct tags beyond
// it cannot be held, sizes beyond it cannot be read
const narrow = strconv.IntSize < 64

func fitsInt(k int64) bool { return int64(int(k)) == k }

// wideKeys tells whether decoding d has to refuse an integer key: a map of
// integers whose keys do not fit in the platform's int
func wideKeys(d Doc) bool {
	if !narrow {
		return false
	}
	for i, e := range d.L {
		if d.K == "map" && i%2 == 0 && e.K == "int" && !fitsInt(e.I) {
			return true
		}
		if d.K == "map" && i%2 == 0 && e.K == "uint" && e.U > 1<<31-1 {
			return true
		}
		if wideKeys(e) {
			return true
		}
	}
	return false
}

// saturate brings the size of a collection into the range a platform can read
func saturate(n int64) int64 {
	if narrow && n >= 1<<31-1 {
		return 1<<31 - 2
	}
	if narrow && n < -1<<31 {
		return -1 << 31
	}
	return n
}
