package lnreader

import (
	"bytes"
	"fmt"
	"io"
	"testing"
)

type chunkReader struct {
	b []byte
	r *vrng
	e bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.r.n(c.r.rng(1, 9000))
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if c.e && len(c.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func vwantLines(b []byte) [][]byte {
	var out [][]byte
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			out = append(out, b)
			break
		}
		l := b[:i]
		if len(l) > 0 && l[len(l)-1] == '\r' {
			l = l[:len(l)-1]
		}
		out = append(out, l)
		b = b[i+1:]
	}
	return out
}

func vlineLen(r *vrng) int {
	switch r.n(6) {
	case 0:
		return 0
	case 1:
		return r.n(4)
	case 2:
		return 4096*r.rng(1, 3) + r.rng(-4, 4)
	case 3:
		return r.n(13000)
	}
	return r.n(100)
}

func vsource(r *vrng) []byte {
	var b []byte
	for k := r.n(8); k > 0; k-- {
		n := vlineLen(r)
		for i := 0; i < n; i++ {
			b = append(b, "ab\r \t#\x00\xe3"[r.n(8)])
		}
		switch r.n(4) {
		case 0:
			b = append(b, "\r\n"...)
		case 1:
			b = append(b, "\r\r\n"...)
		default:
			b = append(b, '\n')
		}
	}
	if r.p(50) {
		n := vlineLen(r)
		for i := 0; i < n; i++ {
			b = append(b, "ab\r \t#"[r.n(6)])
		}
	}
	return b
}

func TestVerifC21Lines(t *testing.T) {
	vrun(t, "C21", "C21Lines", "sources of 0..9 lines, lengths around multiples of the buffer size, LF, CRLF and missing terminators, random chunkings", 300, 0, func(c *vcase) {
		r := c.R
		src := vsource(r)
		want := vwantLines(src)
		s := fmt.Sprintf("%d bytes: %q", len(src), src)
		c.Input(s)
		rd := NewLineNumberReader(&chunkReader{append([]byte(nil), src...), r, r.p(50)})
		for i, w := range want {
			l, err := rd.ReadLine()
			if err != nil {
				c.Failf("line %d: error %v", i+1, err)
			}
			if !bytes.Equal(l, w) {
				c.Failf("line %d is %q, want %q", i+1, l, w)
			}
			if rd.NumLine != i+1 {
				c.Failf("line number %d, want %d", rd.NumLine, i+1)
			}
		}
		for k := 0; k < 2; k++ {
			l, err := rd.ReadLine()
			if err != io.EOF || len(l) != 0 {
				c.Failf("after the last line: %q, %v", l, err)
			}
			if rd.NumLine != len(want) {
				c.Failf("line number %d after the end, want %d", rd.NumLine, len(want))
			}
		}
	})
}

// Every line over a small alphabet, up to 5 bytes, is judged as skip/empty as the specification says.
func TestVerifC21Skip(t *testing.T) {
	al := " \t#a\n\r"
	vrun(t, "C21", "C21Skip", "all lines of up to 5 bytes over space, tab, #, a, LF, CR", 9331, 9331, func(c *vcase) {
		n := c.I
		var l []byte
		for n > 0 {
			n--
			l = append(l, al[n%6])
			n /= 6
		}
		c.Input(string(l))
		blank := true
		for _, b := range l {
			if b != ' ' && b != '\t' && b != '\n' {
				blank = false
			}
		}
		if bytes.IndexByte(l, '\n') >= 0 {
			return
		}
		if got, want := IsSkipLine(l), blank || (len(l) > 0 && l[0] == '#'); got != want {
			c.Failf("IsSkipLine(%q) = %v, want %v", l, got, want)
		}
		if got := IsEmptyLine(l); got != blank {
			c.Failf("IsEmptyLine(%q) = %v, want %v", l, got, blank)
		}
	})
}
