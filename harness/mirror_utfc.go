package main

// The driver's copy of spec/Utfc.tla (see mirror.go); checked against TLC's answers in every state.

type uState struct {
	offs, aux int
	long      bool
}

var u0 = uState{0, 0x410, false}

var uAux = map[int]int{0x80: 0xC0, 0x380: 0x391, 0x400: 0x410, 0x580: 0x5BE, 0x530: 0x531, 0x600: 0x60B, 0x900: 0x90D, 0x980: 0x98F,
	0xA00: 0xA02, 0xA80: 0xA8F, 0xB00: 0xB0F, 0xB80: 0xB8E, 0xC80: 0xC8E, 0xD00: 0xD0E, 0xD80: 0xD9B, 0xE00: 0xE01, 0xE80: 0xE81,
	0xF00: 0xF40, 0xF80: 0xF90, 0x1080: 0x10B0, 0x3000: 0x3040}

func uAuxOf(o int) int {
	if a, ok := uAux[o]; ok {
		return a
	}
	return o
}

type uRange struct{ lo, hi int }

var uLatin = []uRange{{0x41, 0x5b}, {0x61, 0x7b}, {0x30, 0x3a}, {0x20, 0x21}, {0x2d, 0x2e}}
var uExtra = []uRange{{0x2000, 0x2600}, {0x3000, 0x3100}, {0xfe00, 0xfe10}, {0x1f300, 0x1f5f0}}

func uPos(c int, rs []uRange) int {
	n := 0
	for _, r := range rs {
		if c >= r.lo && c < r.hi {
			return n + c - r.lo
		}
		n += r.hi - r.lo
	}
	return -1
}

// uEmit: bytes of one character and the next state.
func uEmit(s uState, c int, out []byte) ([]byte, uState) {
	if s.aux == 0 {
		if p := uPos(c, uLatin); p >= 0 {
			return append(out, byte(192+p)), s
		}
	} else if c >= s.aux && c < s.aux+64 {
		return append(out, byte(192+c-s.aux)), s
	}
	small := c &^ 127
	if n := uPos(c, uExtra); n >= 0 {
		if !s.long && small == s.offs {
			if c == small {
				return append(out, 187), s
			}
			return append(out, byte(c-small)), s
		}
		if n%256 == 0 {
			out = append(out, 190, byte(177+n/256))
		} else {
			out = append(out, byte(177+n/256), byte(n))
		}
		if c >= 0x3000 && c < 0x3100 {
			s = uState{small, uAuxOf(s.offs), false}
		}
		return out, s
	}
	if c >= 0x2600 {
		n := c - 0x2600
		lo := n % 256
		large := n &^ 32767
		if s.long && large == s.offs {
			hi := n / 256 % 128
			switch {
			case hi == 0 && lo == 0:
				return append(out, 187), s
			case hi == 0:
				return append(out, 188, byte(lo)), s
			case lo == 0:
				return append(out, 190, byte(hi)), s
			}
			return append(out, byte(hi), byte(lo)), s
		}
		hi, top := n/256%256, byte(160+n/65536)
		switch {
		case hi == 0 && lo == 0:
			out = append(out, 191, top)
		case hi == 0:
			out = append(out, 190, top, byte(lo))
		case lo == 0:
			out = append(out, 189, top, byte(hi))
		default:
			out = append(out, top, byte(hi), byte(lo))
		}
		return out, uState{large, s.offs, true}
	}
	if !s.long && small == s.offs {
		if c == small {
			return append(out, 187), s
		}
		return append(out, byte(c-small)), s
	}
	if c%256 == 0 {
		out = append(out, 190, byte(128+c/256))
	} else {
		out = append(out, byte(128+c/256), byte(c))
	}
	if c <= 0x2ff {
		small = 0
	}
	return out, uState{small, uAuxOf(s.offs), false}
}

func uEncode(cs []rune) []byte {
	s := u0
	var b []byte
	for _, c := range cs {
		b, s = uEmit(s, int(c), b)
	}
	return b
}
