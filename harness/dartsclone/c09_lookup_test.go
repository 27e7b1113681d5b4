package dartsclone

import (
	"fmt"
	"testing"
)

//verif:use keys

func vcheckPrefixes(c *vcase, t *vtrie, text []byte, off int, lim int) {
	var want [][2]int
	for e := off + 1; e <= len(text) && e-off <= t.max; e++ {
		if v, ok := t.m[string(text[off:e])]; ok {
			want = append(want, [2]int{v, e})
		}
	}
	n := len(want)
	if lim < n {
		n = lim
		if n < 0 {
			n = 0
		}
	}
	var got [][2]int
	if p := vpanics(func() { got = t.da.CommonPrefixSearch(text, off, lim) }); p != nil {
		c.Failf("CommonPrefixSearch(%q, %d) panics: %v", text, off, p)
	}
	if len(got) != n || n > 0 && fmt.Sprint(got) != fmt.Sprint(want[:n]) {
		c.Failf("CommonPrefixSearch(%q, %d, %d) = %v, want %v", text, off, lim, got, want[:n])
	}
	var itr [][2]int
	if p := vpanics(func() {
		it := t.da.CommonPrefixSearchItr(text, off)
		for {
			for k := c.R.n(3); k > 0; k-- {
				it.Next()
			}
			if c.R.p(70) {
				if !it.Next() {
					break
				}
			} else if len(itr) == len(want) {
				break
			}
			v, e := it.Get()
			itr = append(itr, [2]int{v, e})
			if len(itr) > len(want)+2 {
				break
			}
		}
		if it.Err() != nil {
			c.Failf("iterator error %v", it.Err())
		}
		if v, _ := it.Get(); v != -1 || it.Err() == nil || it.Next() {
			c.Failf("iterator goes on after its end: %d %v", v, it.Err())
		}
	}); p != nil {
		if _, ok := p.(vfailed); ok {
			panic(p)
		}
		c.Failf("iterator over (%q, %d) panics: %v", text, off, p)
	}
	if fmt.Sprint(itr) != fmt.Sprint(want) {
		c.Failf("iterator over (%q, %d) gives %v, want %v", text, off, itr, want)
	}
}

func vprobe(r *vrng, t *vtrie) []byte {
	b := []byte(t.Keys[r.n(len(t.Keys))])
	switch r.n(8) {
	case 0:
		b = append(b, byte(r.n(256)))
	case 1:
		b = b[:r.n(len(b)+1)]
	case 2:
		b = append([]byte{}, b...)
		b[r.n(len(b))] = byte(r.n(256))
	case 3:
		b = append(b, t.Keys[r.n(len(t.Keys))]...)
	case 4:
		b = append([]byte{byte(r.n(256))}, b...)
	case 5:
		b = append(b, 0, byte(r.n(256)))
	}
	return b
}

func TestVerifC09Lookup(t *testing.T) {
	vrun(t, "C09", "C09Lookup", "tries of 1 to 6000 keys over small and full byte alphabets; looked up: all keys, cut, extended, altered and concatenated keys, NUL bytes", 20, 0, func(c *vcase) {
		tr := vbuild(c)
		if p, ok := vwell(tr.da.Array()); !ok {
			c.Failf("unit %d leads out of the array", p)
		}
		exact := func(b []byte) {
			want, n := -1, 0
			if v, ok := tr.m[string(b)]; ok {
				want, n = v, len(b)
			}
			var v, l int
			if p := vpanics(func() { v, l = tr.da.ExactMatchSearch(b) }); p != nil {
				c.Failf("ExactMatchSearch(%q) panics: %v", b, p)
			}
			if v != want || l != n {
				c.Failf("ExactMatchSearch(%q) = %d,%d want %d,%d", b, v, l, want, n)
			}
		}
		for _, k := range tr.Keys {
			exact([]byte(k))
		}
		for i := 0; i < 200; i++ {
			b := vprobe(c.R, tr)
			exact(b)
			vcheckPrefixes(c, tr, b, c.R.n(len(b)+1), vpickI(c.R, 0, 1, 2, 3, 1000, -1))
			// stepwise, in two or three pieces
			if len(b) > 0 {
				m1 := c.R.n(len(b) + 1)
				m2 := c.R.rng(m1, len(b))
				want := -1
				if v, ok := tr.m[string(b)]; ok {
					want = v
				}
				if p := vpanics(func() {
					pos, ok, last := 0, true, -1
					for _, pc := range [][2]int{{0, m1}, {m1, m2}, {m2, len(b)}} {
						var res *TraverseResult
						if c.R.p(50) {
							res = tr.da.Traverse(b, pc[0], pc[1], pos)
						} else {
							piece := append([]byte{}, b[pc[0]:pc[1]]...)
							res = tr.da.Traverse(piece, 0, len(piece), pos)
						}
						last = res.Result
						if res.Result == -2 {
							ok = false
							break
						}
						pos = res.NodePosition
					}
					if ok && last != want || !ok && want >= 0 {
						c.Failf("Traverse over %q in pieces at %d, %d gives %d, lookup of the whole %d", b, m1, m2, last, want)
					}
				}); p != nil {
					if _, ok := p.(vfailed); ok {
						panic(p)
					}
					c.Failf("Traverse over %q panics: %v", b, p)
				}
			}
		}
	})
}
