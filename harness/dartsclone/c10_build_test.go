package dartsclone

import (
	"bytes"
	"testing"
)

//verif:use keys

// vstored lists every key of the trie by walking all bytes from the root.
func vstored(c *vcase, a []uint32, limit int) map[string]int {
	out := map[string]int{}
	type fr struct {
		p   uint32
		key string
	}
	work := []fr{{0, ""}}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		u := daunit(a[f.p])
		base := f.p ^ u.offset()
		if u.hasLeaf() {
			out[f.key] = daunit(a[base]).value()
			if len(out) > limit {
				c.Failf("the trie holds more keys than were given (%q)", f.key)
			}
		}
		for k := uint32(0); k < 256; k++ {
			q := base ^ k
			if int(q) < len(a) && daunit(a[q]).label() == k && q != 0 && len(f.key) < 2000 {
				if k == 0 {
					c.Failf("a NUL follows %q in the trie", f.key)
				}
				work = append(work, fr{q, f.key + string([]byte{byte(k)})})
			}
		}
	}
	return out
}

func TestVerifC10Store(t *testing.T) {
	vrun(t, "C10", "C10Store", "sets of 1 to 6000 sorted keys with shared prefixes and suffixes, without values, with distinct and with equal values", 20, 0, func(c *vcase) {
		tr := vbuild(c)
		if p, ok := vwell(tr.da.Array()); !ok {
			c.Failf("unit %d leads out of the array", p)
		}
		got := vstored(c, tr.da.Array(), len(tr.m))
		for k, v := range tr.m {
			if g, ok := got[k]; !ok || g != v {
				c.Failf("key %q is stored as %d (%v), want %d", k, g, ok, v)
			}
		}
		if len(got) != len(tr.m) {
			c.Failf("%d keys stored, %d given", len(got), len(tr.m))
		}
		// the saved bytes describe the same array
		var buf bytes.Buffer
		if _, err := tr.da.Save(&buf); err != nil {
			c.Failf("Save: %v", err)
		}
		d2 := NewDoubleArray()
		d2.SetBuffer(buf.Bytes())
		if len(d2.Array()) != len(tr.da.Array()) {
			c.Failf("saved %d units of %d", len(d2.Array()), len(tr.da.Array()))
		}
		for i, u := range d2.Array() {
			if u != tr.da.Array()[i] {
				c.Failf("saved unit %d differs", i)
			}
		}
	})
}

func TestVerifC10Reject(t *testing.T) {
	vrun(t, "C10", "C10Reject", "key sets with an empty key, a NUL in a key, a key out of order or a negative value at any place", 40, 0, func(c *vcase) {
		r := c.R
		ks := vkeyset(r)
		if len(ks) > 300 {
			ks = ks[:300]
		}
		vals := vvalues(r, len(ks))
		keys := vbytes(ks)
		i := r.n(len(keys))
		kind := r.n(4)
		switch kind {
		case 0:
			keys[i] = []byte{}
			if r.p(50) {
				i = 0
				keys[0] = []byte{}
			}
		case 1:
			b := append([]byte{}, keys[i]...)
			p := r.n(len(b) + 1)
			b = append(b[:p], append([]byte{0}, b[p:]...)...)
			keys[i] = b
		case 2:
			if len(keys) < 2 {
				c.Trivial()
				return
			}
			j := r.n(len(keys))
			if i == j {
				j = (i + 1) % len(keys)
			}
			keys[i], keys[j] = keys[j], keys[i]
		case 3:
			if vals == nil {
				vals = make([]int, len(keys))
			}
			vals[i] = -1 - r.n(5)
		}
		c.Input(map[string]interface{}{"keys": keys, "values": vals, "kind": kind})
		var err error
		da := NewDoubleArray()
		if p := vpanics(func() { err = da.Build(keys, vals, nil) }); p != nil {
			c.Failf("Build panics: %v", p)
		}
		if err == nil {
			c.Failf("Build accepts an invalid key set (kind %d at %d)", kind, i)
		}
	})
}
