package dartsclone

import "sort"

// vkeyset generates byte-sorted distinct keys without NUL.
func vkeyset(r *vrng) []string {
	var alpha []byte
	switch r.n(5) {
	case 0:
		alpha = []byte{1, 2}
	case 1:
		alpha = []byte{'a', 'b', 'c', 255}
	case 2:
		for i := 1; i < 256; i++ {
			alpha = append(alpha, byte(i))
		}
	case 3:
		alpha = []byte{0xe3, 0x81, 0x82, 0x83, 0x80, 0xbf, 'x'}
	default:
		for i := r.rng(2, 20); i > 0; i-- {
			alpha = append(alpha, byte(r.rng(1, 255)))
		}
	}
	n := r.rng(1, 40)
	switch r.n(12) {
	case 0:
		n = r.rng(1, 3)
	case 1:
		n = r.rng(100, 1500)
	case 2:
		n = r.rng(1500, 6000)
	}
	max := r.rng(1, 8)
	word := func() string {
		var b []byte
		for k := r.rng(1, max); k > 0; k-- {
			b = append(b, alpha[r.n(len(alpha))])
		}
		return string(b)
	}
	var suf []string
	for i := r.n(4); i > 0; i-- {
		suf = append(suf, word())
	}
	m := map[string]bool{}
	var ks []string
	for i := 0; i < n; i++ {
		w := word()
		if len(suf) > 0 && r.p(50) {
			w += suf[r.n(len(suf))]
		}
		if len(ks) > 0 && r.p(15) {
			w = ks[r.n(len(ks))] + word()
		}
		if r.p(1) {
			for len(w) < 300 {
				w += word()
			}
		}
		if !m[w] {
			m[w] = true
			ks = append(ks, w)
		}
	}
	sort.Strings(ks)
	return ks
}

// vvalues gives values for n keys: nil, distinct, or with repetitions.
func vvalues(r *vrng, n int) []int {
	switch r.n(4) {
	case 0:
		return nil
	case 1:
		v := make([]int, n)
		for i := range v {
			v[i] = r.n(1 << 30)
		}
		return v
	case 2:
		v := make([]int, n)
		k := r.rng(1, 4)
		for i := range v {
			v[i] = r.n(k)
		}
		return v
	}
	v := make([]int, n)
	for i := range v {
		v[i] = i * 7
	}
	if n > 0 && r.p(30) {
		v[r.n(n)] = 1<<31 - 1
	}
	return v
}

func vbytes(ks []string) [][]byte {
	var out [][]byte
	for _, k := range ks {
		out = append(out, []byte(k))
	}
	return out
}

type vtrie struct {
	Keys   []string
	Values []int
	m      map[string]int
	max    int
	da     *DoubleArray
}

func vbuild(c *vcase) *vtrie {
	t := &vtrie{Keys: vkeyset(c.R), m: map[string]int{}}
	t.Values = vvalues(c.R, len(t.Keys))
	if len(t.Keys) <= 60 {
		c.Input(t)
	} else {
		c.Input(map[string]interface{}{"keys": len(t.Keys), "first": t.Keys[:20]})
	}
	for i, k := range t.Keys {
		v := i
		if t.Values != nil {
			v = t.Values[i]
		}
		t.m[k] = v
		if len(k) > t.max {
			t.max = len(k)
		}
	}
	t.da = NewDoubleArray()
	var err error
	if p := vpanics(func() { err = t.da.Build(vbytes(t.Keys), t.Values, nil) }); p != nil {
		c.Failf("building the trie panics: %v", p)
	}
	if err != nil {
		c.Failf("building the trie from sorted keys fails: %v", err)
	}
	return t
}

// vwell is the precondition of the lookups' contracts: every child position of the root and of inner units lies in the array.
func vwell(a []uint32) (int, bool) {
	for p := range a {
		u := daunit(a[p])
		if p == 0 || u.label() < 256 {
			b := uint32(p) ^ u.offset()
			if int(b|255) >= len(a) && int(b) >= len(a) {
				return p, false
			}
			for k := uint32(0); k < 256; k++ {
				if int(b^k) >= len(a) {
					return p, false
				}
			}
		}
	}
	return 0, true
}
