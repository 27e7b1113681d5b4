package dictionary

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

// The contracts of GetConnectCost and SetConnectCost against a table model, over histories of gets and sets.
func TestVerifC14Grammar(t *testing.T) {
	vrun(t, "C14", "C14Grammar", "a random table of 1..6 x 1..6 cells in a file with bytes around it, and up to 40 gets and sets in range", 200, 0, func(c *vcase) {
		r := c.R
		l, rr := r.rng(1, 6), r.rng(1, 6)
		if r.p(3) {
			l, rr = r.rng(100, 300), r.rng(100, 300)
		}
		var b bytes.Buffer
		pre := r.n(5)
		for i := 0; i < pre; i++ {
			b.WriteByte(byte(r.u64()))
		}
		binary.Write(&b, binary.LittleEndian, uint16(0))
		binary.Write(&b, binary.LittleEndian, int16(l))
		binary.Write(&b, binary.LittleEndian, int16(rr))
		model := make([]int16, l*rr)
		for i := range model {
			model[i] = int16(r.u64())
			binary.Write(&b, binary.LittleEndian, model[i])
		}
		post := r.n(5)
		for i := 0; i < post; i++ {
			b.WriteByte(byte(r.u64()))
		}
		file := append([]byte(nil), b.Bytes()...)
		g := NewGrammar(b.Bytes(), pre, r.p(50))
		hist := []string{fmt.Sprintf("table %dx%d pre %d post %d", l, rr, pre, post)}
		c.Input(&hist)
		size := g.StorageSize
		if size != len(file)-pre-post {
			c.Failf("storage size %d, want %d", size, len(file)-pre-post)
		}
		check := func(x, y int) {
			if got := g.GetConnectCost(int16(x), int16(y)); got != model[x+l*y] {
				c.Failf("cost(%d,%d) is %d, want %d", x, y, got, model[x+l*y])
			}
		}
		for k := r.n(40); k >= 0; k-- {
			x, y := r.n(l), r.n(rr)
			if r.p(60) {
				v := int16(r.u64())
				if r.p(20) {
					v = InhibitedConnection
				}
				hist = append(hist, fmt.Sprintf("set(%d,%d)=%d", x, y, v))
				g.SetConnectCost(int16(x), int16(y), v)
				model[x+l*y] = v
			} else {
				hist = append(hist, fmt.Sprintf("get(%d,%d)", x, y))
				check(x, y)
			}
		}
		for y := 0; y < rr; y++ {
			for x := 0; x < l; x++ {
				check(x, y)
			}
		}
		if !bytes.Equal(file, b.Bytes()) {
			c.Failf("the file's bytes changed")
		}
		if g.StorageSize != size {
			c.Failf("the table's size changed")
		}
		var out bytes.Buffer
		g.WriteConnMatrixTo(&out)
		w := out.Bytes()
		if len(w) != 4+2*l*rr {
			c.Failf("written matrix has %d bytes, want %d", len(w), 4+2*l*rr)
		}
		for i, m := range model {
			if int16(binary.LittleEndian.Uint16(w[4+2*i:])) != m {
				c.Failf("written cell %d differs", i)
			}
		}
	})
}
