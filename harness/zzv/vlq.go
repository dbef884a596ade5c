package zzv

import (
	"github.com/stephen/cssc/internal/printer"
	"github.com/stephen/cssc/internal/zz"
)

const vlqLimit = 1 << 30

const b64alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func b64digit(c byte) (int, bool) {
	switch {
	case 'A' <= c && c <= 'Z':
		return int(c - 'A'), true
	case 'a' <= c && c <= 'z':
		return int(c-'a') + 26, true
	case '0' <= c && c <= '9':
		return int(c-'0') + 52, true
	case c == '+':
		return 62, true
	case c == '/':
		return 63, true
	}
	return 0, false
}

// specVLQ decodes one value as the source map specification says; it returns
// the value and the number of characters, or 0 if the text is malformed.
func specVLQ(s []byte) (int, int) {
	v, shift := 0, uint(0)
	for i := 0; i < len(s); i++ {
		d, ok := b64digit(s[i])
		if !ok {
			return 0, 0
		}
		v |= (d & 31) << shift
		shift += 5
		if d&32 == 0 {
			if v&1 != 0 {
				return -(v >> 1), i + 1
			}
			return v >> 1, i + 1
		}
	}
	return 0, 0
}

// vlqLength is the number of characters of the encoding: there are four bits of the
// magnitude in the first one, and five in the others.
func vlqLength(v int) int {
	if v < 0 {
		v = -v
	}
	n := 1
	for limit := 16; v >= limit; limit *= 32 {
		n++
	}
	return n
}

// VLQRoundTrip: every value below 2^30, alone.
func VLQRoundTrip(arg string) {
	v := zz.Int("v", -vlqLimit+1, vlqLimit-1)
	enc := printer.VLQEncode(int32(v))
	zz.Assert(len(enc) >= 1 && len(enc) <= 7, "encoding has 1 to 7 characters")
	zz.Assert(len(enc) == vlqLength(v), "encoding has no more characters than it takes")
	sv, sn := specVLQ(enc)
	zz.Assert(sn == len(enc), "encoding is one well-formed base64 VLQ value")
	zz.Assert(sv == v, "encoding denotes the value")
	d, n := printer.VLQDecode(enc)
	zz.Assert(int(n) == len(enc), "decoded length")
	zz.Assert(int(d) == v, "decoded value")
	zz.Reach("end")
}

// VLQSequence: several values one after the other, of every magnitude.
func VLQSequence(arg string) {
	k := len(arg)
	var buf []byte
	var encoded [][]byte
	var vs []int
	for i := 0; i < k; i++ {
		v := zz.Int("v", -vlqLimit+1, vlqLimit-1)
		vs = append(vs, v)
		encoded = append(encoded, printer.VLQEncode(int32(v)))
	}
	for _, enc := range encoded {
		buf = append(buf, enc...)
	}
	for i := 0; i < k; i++ {
		sv, sn := specVLQ(buf)
		d, n := printer.VLQDecode(buf)
		zz.Assert(sn > 0 && sv == vs[i], "spec decodes the value in a sequence")
		zz.Assert(int(n) == sn, "decoded length in a sequence")
		zz.Assert(int(d) == vs[i], "decoded value in a sequence")
		buf = buf[n:]
	}
	zz.Assert(len(buf) == 0, "nothing left over")
	zz.Reach("end")
}

// VLQDecodeAny: decoding any well-formed text agrees with the specification.
func VLQDecodeAny(arg string) {
	n := len(arg)
	buf := make([]byte, n)
	for i := range buf {
		buf[i] = zz.ByteIn("d", b64alpha)
	}
	sv, sn := specVLQ(buf)
	zz.Assume(sn > 0)
	zz.Assume(sv > -vlqLimit && sv < vlqLimit)
	d, l := printer.VLQDecode(buf)
	zz.Assert(int(l) == sn, "length agrees with the specification")
	zz.Assert(int(d) == sv, "value agrees with the specification")
	zz.Reach("end")
}
