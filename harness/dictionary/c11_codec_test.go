package dictionary

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"
	"unicode/utf16"
)

func v11str(r *vrng, n int, bmp bool) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.n(6) {
		case 0:
			b.WriteRune(rune(r.rng(0x80, 0x7ff)))
		case 1:
			b.WriteRune(rune(r.rng(0x3040, 0x30ff)))
		case 2:
			if !bmp {
				b.WriteRune(vpickR(r, 0x10000, 0x1f600, 0x10ffff, 0x20b9f))
				continue
			}
			b.WriteRune('x')
		case 3:
			b.WriteRune(vpickR(r, 0, 0xd7ff, 0xe000, 0xffff, 0xfffd, 0xfeff))
		default:
			b.WriteByte(byte(r.n(128)))
		}
	}
	return b.String()
}

// v11len prefers the boundaries of the length prefix.
func v11len(r *vrng) int {
	switch r.n(12) {
	case 0:
		return vpickI(r, 127, 128, 129, 255, 256, 257)
	case 1:
		return vpickI(r, 32766, 32767, 32768, 32769, 40000, 65535, 65536)
	case 2:
		return r.n(600)
	case 3:
		return r.n(33000)
	}
	return r.n(12)
}

func v11bytes(r *vrng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

func TestVerifC11Strings(t *testing.T) {
	vrun(t, "C11", "C11Strings", "a string of up to 65536 units written by writeString or writeStringUtf16 between random bytes and read back", 500, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(50)
		n := v11len(r)
		s := ""
		if r.p(50) {
			s = strings.Repeat(vpickS(r, "a", "z"), n)
		} else if u16 {
			s = v11str(r, n, r.p(50))
		} else {
			s = v11str(r, n, false)
			if n > 20 && r.p(70) {
				for len(s) > n || len(s) > 0 && !strings.HasPrefix(s, "") {
					s = s[:len(s)-1]
				}
			}
		}
		pre, post := v11bytes(r, r.n(5)), v11bytes(r, r.n(5))
		units := len(s)
		if u16 {
			units = len(utf16.Encode([]rune(s)))
		}
		c.Input(fmt.Sprintf("utf16=%v units=%d pre=%d post=%d %.40q", u16, units, len(pre), len(post), s))
		buf := bytes.NewBuffer(append([]byte{}, pre...))
		wf, rf := writeString, bufferToString
		tooLong := utf8CountInString
		if u16 {
			wf, rf, tooLong = writeStringUtf16, bufferToStringUtf16, utf16CountInString
		}
		err := wf(buf, s)
		if tooLong(s) != (units > 32767) {
			c.Failf("the length check says %v", tooLong(s))
		}
		if (err != nil) != (units > 32767) {
			c.Failf("writing %d units: error %v", units, err)
		}
		if err != nil {
			return
		}
		end := buf.Len()
		buf.Write(post)
		e, got := rf(buf.Bytes(), len(pre))
		want := s
		if u16 {
			want = string([]rune(s))
		}
		if got != want {
			c.Failf("read back %d bytes %.60q, want %d bytes %.60q", len(got), got, len(want), want)
		}
		if e != end {
			c.Failf("the read ended at %d, the write at %d", e, end)
		}
		if !bytes.Equal(buf.Bytes()[:len(pre)], pre) {
			c.Failf("bytes in front were changed")
		}
	})
}

func TestVerifC11Lengths(t *testing.T) {
	vrun(t, "C11", "C11Lengths", "every length from -3 to 33000", 33004, 33004, func(c *vcase) {
		n := c.I - 3
		c.Input(n)
		buf := bytes.NewBuffer([]byte{7})
		err := writeStringLength(buf, n)
		if (err != nil) != (n < 0 || n > 32767) {
			c.Failf("writing length %d: error %v", n, err)
		}
		if err != nil {
			return
		}
		end := buf.Len()
		buf.WriteByte(0xff)
		e, got := bufferToStringLength(buf.Bytes(), 1)
		if got != n || e != end {
			c.Failf("length %d was read as %d, ending at %d instead of %d", n, got, e, end)
		}
	})
}

func TestVerifC11Numbers(t *testing.T) {
	vrun(t, "C11", "C11Numbers", "numbers of every width and arrays of up to 300 numbers between random bytes", 500, 0, func(c *vcase) {
		r := c.R
		pre, post := v11bytes(r, r.n(5)), v11bytes(r, r.n(5))
		buf := bytes.NewBuffer(append([]byte{}, pre...))
		x := r.u64()
		if r.p(30) {
			x = ^uint64(0) >> uint(r.n(64))
		}
		if r.p(10) {
			x = uint64(1) << uint(r.n(64))
		}
		n := r.n(8)
		if r.p(20) {
			n = vpickI(r, 126, 127, 128, 254, 255, 256, 257, 300)
		}
		a := make([]int32, n)
		for i := range a {
			a[i] = int32(r.u64())
			if r.p(20) {
				a[i] = int32(vpickI(r, 0, -1, 127, 128, 255, 256, 65535, 65536, 1<<28, 2147483647, -2147483648))
			}
		}
		c.Input([]interface{}{x, a, pre, post})
		binary.Write(buf, binary.LittleEndian, uint16(x))
		binary.Write(buf, binary.LittleEndian, uint32(x))
		binary.Write(buf, binary.LittleEndian, uint64(x))
		k := buf.Len()
		err := writeIntArray(buf, a)
		if (err != nil) != (n > 255) {
			c.Failf("writing %d numbers: error %v", n, err)
		}
		end := buf.Len()
		buf.Write(post)
		b := buf.Bytes()
		o := len(pre)
		if e, v := bufferToInt16(b, o); v != int16(x) || e != o+2 {
			c.Failf("int16 %d ending %d", v, e)
		}
		if e, v := bufferToUint16(b, o); v != uint16(x) || e != o+2 {
			c.Failf("uint16 %d ending %d", v, e)
		}
		if e, v := bufferToInt32(b, o+2); v != int32(x) || e != o+6 {
			c.Failf("int32 %d ending %d", v, e)
		}
		if e, v := bufferToUint32(b, o+2); v != uint32(x) || e != o+6 {
			c.Failf("uint32 %d ending %d", v, e)
		}
		if e, v := bufferToInt64(b, o+6); v != int64(x) || e != o+14 {
			c.Failf("int64 %d ending %d", v, e)
		}
		if e, v := bufferToUint64(b, o+6); v != x || e != o+14 {
			c.Failf("uint64 %d ending %d", v, e)
		}
		if err == nil {
			e, g := bufferToInt32Array(b, k)
			if len(g) != len(a) || e != end {
				c.Failf("%d numbers ending at %d, wrote %d ending at %d", len(g), e, len(a), end)
			}
			for i := range g {
				if g[i] != a[i] {
					c.Failf("number %d is %d, wrote %d", i, g[i], a[i])
				}
			}
		}
	})
}

func TestVerifC11Header(t *testing.T) {
	vrun(t, "C11", "C11Header", "headers with descriptions of 0 to 300 bytes, read back at an offset and from cut files", 500, 0, func(c *vcase) {
		r := c.R
		n := r.n(30)
		if r.p(50) {
			n = r.rng(250, 262)
		}
		d := strings.Repeat("d", n)
		if r.p(40) {
			for d = v11str(r, n, false); len(d) > n; {
				d = d[:len(d)-1]
			}
			if r.p(70) {
				d = strings.Replace(d, "\x00", "z", -1)
			}
		}
		h := NewDictionaryHeader(r.u64(), int64(r.u64()), d)
		if r.p(20) {
			h.CreateTime = int64(vpickI(r, 0, -1, 1, 1600000000, -9223372036854775808, 9223372036854775807))
		}
		pre, post := v11bytes(r, r.n(5)), v11bytes(r, r.n(300))
		c.Input(fmt.Sprintf("%+v pre %d post %d", *h, len(pre), len(post)))
		b, err := h.ToBytes()
		ok := len(d) <= 256 && strings.IndexByte(d, 0) < 0
		if (err == nil) != ok {
			c.Failf("description of %d bytes: error %v", len(d), err)
		}
		if err != nil {
			return
		}
		if len(b) != HeaderStorageSize {
			c.Failf("%d bytes", len(b))
		}
		file := append(append(append([]byte{}, pre...), b...), post...)
		g := ParseDictionaryHeader(file, len(pre))
		if g == nil {
			c.Failf("not read back")
		}
		if *g != *h {
			c.Failf("read back %+v", *g)
		}
		cut := r.n(len(pre) + len(b))
		if ParseDictionaryHeader(file[:cut], len(pre)) != nil {
			c.Failf("a header was read from %d bytes at offset %d", cut, len(pre))
		}
		if ParseDictionaryHeader(file[:len(pre)+len(b)], len(pre)) == nil {
			c.Failf("a header that ends with the file was not read")
		}
	})
}
