package gosudachi

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// Inhibiting pairs makes those connections, and no other, unusable.
func TestVerifC14Inhibit(t *testing.T) {
	vrun(t, "C14", "C14Inhibit", "a random table and a list of pairs (entries with fewer than two ids included)", 200, 0, func(c *vcase) {
		r := c.R
		l, rr := r.rng(1, 5), r.rng(1, 5)
		if r.p(4) {
			l, rr = r.rng(100, 300), r.rng(100, 300)
		}
		var b bytes.Buffer
		binary.Write(&b, binary.LittleEndian, uint16(0))
		binary.Write(&b, binary.LittleEndian, int16(l))
		binary.Write(&b, binary.LittleEndian, int16(rr))
		model := make([]int16, l*rr)
		for i := range model {
			model[i] = int16(r.n(30000))
			binary.Write(&b, binary.LittleEndian, model[i])
		}
		file := append([]byte(nil), b.Bytes()...)
		g := dictionary.NewGrammar(b.Bytes(), 0, false)
		var pairs []*[]int
		var desc []string
		for k := r.n(6); k > 0; k-- {
			x, y := r.n(l), r.n(rr)
			p := []int{x, y}
			switch r.n(8) {
			case 0:
				p = []int{x}
			case 1:
				p = []int{}
			case 2:
				p = append(p, r.n(5))
			}
			if len(p) >= 2 {
				model[x+l*y] = dictionary.InhibitedConnection
			}
			pairs = append(pairs, &p)
			desc = append(desc, fmt.Sprint(p))
		}
		c.Input(fmt.Sprintf("%dx%d pairs %v", l, rr, desc))
		pl := NewInhibitConnectionPlugin(pairs)
		if err := pl.SetUp(g); err != nil {
			c.Failf("SetUp: %v", err)
		}
		if err := pl.Edit(g); err != nil {
			c.Failf("Edit: %v", err)
		}
		for y := 0; y < rr; y++ {
			for x := 0; x < l; x++ {
				if got := g.GetConnectCost(int16(x), int16(y)); got != model[x+l*y] {
					c.Failf("cost(%d,%d) is %d, want %d", x, y, got, model[x+l*y])
				}
			}
		}
		if !bytes.Equal(file, b.Bytes()) {
			c.Failf("the file's bytes changed")
		}
	})
}
