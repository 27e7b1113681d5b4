package gosudachi

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type vcand struct{ B, E, L, R, Cost int }

// The segmentation chosen by a lattice against an exhaustive minimum over all segmentations.
func TestVerifC01Lattice(t *testing.T) {
	vrun(t, "C01", "C01Lattice", "random candidate graphs over texts of 0..7 positions, 1..4 connection ids, small and extreme costs, inhibited connections; one lattice used for several graphs", 300, 0, func(c *vcase) {
		r := c.R
		ids := r.rng(1, 4)
		var b bytes.Buffer
		binary.Write(&b, binary.LittleEndian, uint16(0))
		binary.Write(&b, binary.LittleEndian, int16(ids))
		binary.Write(&b, binary.LittleEndian, int16(ids))
		cost := func() int {
			switch r.n(8) {
			case 0:
				return 32767
			case 1:
				return 32766
			case 2:
				return -32768
			case 3:
				return r.rng(-32768, 32767)
			}
			return r.rng(-3, 3)
		}
		tab := make([][]int, ids)
		for i := range tab {
			tab[i] = make([]int, ids)
		}
		for y := 0; y < ids; y++ {
			for x := 0; x < ids; x++ {
				tab[x][y] = cost()
				binary.Write(&b, binary.LittleEndian, int16(tab[x][y]))
			}
		}
		g := dictionary.NewGrammar(b.Bytes(), 0, false)
		lat := NewLattice(g)
		type round struct {
			Size  int
			Cands []vcand
		}
		var hist []round
		for rounds := r.rng(1, 3); rounds > 0; rounds-- {
			size := r.n(8)
			var cs []vcand
			for p := 0; p < size; p++ {
				for k := r.n(5); k > 0; k-- {
					e := p + 1 + r.n(3)
					if e > size {
						e = size
					}
					w := cost()
					cs = append(cs, vcand{p, e, r.n(ids), r.n(ids), w})
				}
			}
			hist = append(hist, round{size, cs})
			c.Input(fmt.Sprintf("table[left of connection][right] %v rounds %+v", tab, hist))
			lat.clear()
			lat.resize(size)
			nodes := map[*LatticeNode]vcand{}
			for _, x := range cs {
				n := NewLatticeNode(nil, int16(x.L), int16(x.R), int16(x.Cost), 0)
				nodes[n] = x
				lat.Insert(x.B, x.E, n)
			}
			lat.connectEosNode()
			path, err := lat.GetBestPath()
			// minimum over all sequences of adjacent candidates, by position and last candidate (independent of the lattice)
			const inf = int(1) << 60
			best := make([]int, len(cs))
			conn := func(rid, lid int) int { return tab[rid][lid] }
			min := inf
			for i, x := range cs {
				best[i] = inf
				if x.B == 0 && conn(0, x.L) != 32767 {
					best[i] = conn(0, x.L) + x.Cost
				}
			}
			for again := true; again; {
				again = false
				for i, x := range cs {
					for j, y := range cs {
						if y.E == x.B && y.E > 0 && best[j] < inf && conn(y.R, x.L) != 32767 && best[j]+conn(y.R, x.L)+x.Cost < best[i] {
							best[i] = best[j] + conn(y.R, x.L) + x.Cost
							again = true
						}
					}
				}
			}
			for i, x := range cs {
				if x.E == size && best[i] < inf && conn(x.R, 0) != 32767 && best[i]+conn(x.R, 0) < min {
					min = best[i] + conn(x.R, 0)
				}
			}
			if size == 0 && conn(0, 0) != 32767 {
				min = conn(0, 0)
			}
			if min == inf {
				if err == nil {
					c.Failf("a path is returned although no segmentation exists")
				}
				continue
			}
			if err != nil {
				c.Failf("error %v although a segmentation of cost %d exists", err, min)
			}
			pos, last, sum := 0, 0, 0
			for _, n := range path {
				x, ok := nodes[n]
				if !ok || n.GetBegin() != x.B || n.GetEnd() != x.E {
					c.Failf("the path holds something that is not a candidate")
				}
				if x.B != pos {
					c.Failf("candidate at %d follows position %d", x.B, pos)
				}
				if conn(last, x.L) == 32767 {
					c.Failf("inhibited connection %d %d used", last, x.L)
				}
				sum += conn(last, x.L) + x.Cost
				pos, last = x.E, x.R
			}
			if pos != size || conn(last, 0) == 32767 {
				c.Failf("the path ends at %d of %d", pos, size)
			}
			sum += conn(last, 0)
			if sum != min {
				c.Failf("cost %d, minimum is %d", sum, min)
			}
		}
	})
}
