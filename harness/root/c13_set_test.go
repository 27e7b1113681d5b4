package gosudachi

//verif:use dict
//verif:use tok

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

type v13dict struct {
	ws   []vword
	a, b [][]string // references, as dictionary:word
}

func v13pos(r *vrng, d int) [6]string {
	switch r.n(5) {
	case 0:
		return [6]string{"新", fmt.Sprint(d), "*", "*", "*", "*"}
	case 1:
		return [6]string{"新", "共", "*", "*", "*", "*"}
	case 2:
		return [6]string{"新", fmt.Sprint(d), fmt.Sprint(r.n(3)), "*", "*", "*"}
	}
	return vpos[r.n(len(vpos))]
}

// v13make writes the lexicon of dictionary d (0: the system dictionary) of a set.
func v13make(c *vcase, d int, sys *v13dict) *v13dict {
	r := c.R
	x := &v13dict{}
	heads := []string{"あ", "ああ", "い", "東", "東京", "東京都", "京", "都", "a", "ab", "京都"}
	if d == 0 {
		for i, p := range vpos {
			x.ws = append(x.ws, vword{head: fmt.Sprintf("zz%d", i), surface: fmt.Sprintf("zz%d", i), pos: p, reading: "ゼ", norm: "z", dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
		}
	}
	n := r.rng(1, 7)
	if r.p(10) {
		n = r.rng(20, 60)
	}
	for i := 0; i < n; i++ {
		h := heads[r.n(len(heads))]
		w := vword{head: h, left: r.n(2), right: r.n(2), cost: r.rng(-3000, 3000), surface: h, pos: v13pos(r, d), reading: vpickS(r, "ヨ", "ミ", "ヨミ"), norm: h, dicform: "*", mode: "C", a: "*", b: "*", ws: "*"}
		if r.p(10) {
			w.left, w.right = -1, -1
		}
		if r.p(20) {
			w.norm = fmt.Sprintf("正%d-%d", d, i)
		}
		if r.p(30) {
			w.surface = fmt.Sprintf("%s%d", h, d)
		}
		if d == 0 {
			w.pos = vpos[r.n(len(vpos))]
		}
		x.ws = append(x.ws, w)
	}
	for i := range x.ws {
		w := &x.ws[i]
		x.a, x.b = append(x.a, nil), append(x.b, nil)
		if w.mode == "A" || !r.p(50) {
			continue
		}
		for k, to := range []*string{&w.a, &w.b, &w.ws} {
			if r.p(40) {
				continue
			}
			var s, refs []string
			for m := r.rng(1, 3); m > 0; m-- {
				if j := r.n(len(x.ws)); d > 0 && r.p(50) {
					s = append(s, fmt.Sprintf("U%d", j))
					refs = append(refs, fmt.Sprintf("%d:%d", d, j))
				} else {
					j := r.n(len(sys0(x, sys).ws))
					s = append(s, fmt.Sprint(j))
					refs = append(refs, fmt.Sprintf("0:%d", j))
				}
			}
			*to = strings.Join(s, "/")
			if k == 0 {
				x.a[i] = refs
			} else if k == 1 {
				x.b[i] = refs
			}
		}
		if r.p(30) {
			w.dicform = fmt.Sprint(r.n(len(x.ws)))
		}
	}
	return x
}

func sys0(x, sys *v13dict) *v13dict {
	if sys == nil {
		return x
	}
	return sys
}

func v13refs(l *dictionary.LexiconSet, ids []int32) []string {
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("%d:%d", l.GetDictionaryId(id), uint32(id)&0xfffffff))
	}
	return s
}

var v13seq int

func TestVerifC13Set(t *testing.T) {
	vrun(t, "C13", "C13Set", "a set of one system and 0 to 15 (sometimes 16) user dictionaries built from random sources, loaded the way JapaneseDictionary loads them; every lookup, word and reference against the sources", 25, 0, func(c *vcase) {
		defer vquiet()()
		r := c.R
		u16 := r.p(30)
		sys := v13make(c, 0, nil)
		img, err := vsysdict(vlines(sys.ws), vmatrix(2, 2, func(i, j int) int { return r.rng(-100, 100) }), u16)
		if err != nil {
			c.Failf("system source refused: %v", err)
		}
		var files []string
		file := func(b []byte) string {
			v13seq++
			f := vscratchFile(fmt.Sprintf("c13-%d.dic", v13seq), b)
			files = append(files, f)
			return f
		}
		d := &JapaneseDictionary{}
		defer func() {
			d.Close()
			for _, f := range files {
				os.Remove(f)
			}
		}()
		if err := d.ReadSystemDictionary(file(img), u16); err != nil {
			c.Failf("ReadSystemDictionary: %v", err)
		}
		dicts := []*v13dict{sys}
		nusers := vpickI(r, 0, 1, 2, 2, 3, 3, 4, 5, 8, 14, 15, 16)
		src := "system:\n" + vlines(sys.ws)
		g, l := vload(img, u16)
		for i := 1; i <= nusers; i++ {
			x := v13make(c, i, sys)
			src += fmt.Sprintf("user %d:\n%s", i, vlines(x.ws))
			ud, err := vuserdict(vlines(x.ws), g, l, u16)
			if err != nil {
				c.Input(src)
				c.Failf("user source %d refused: %v", i, err)
			}
			err = d.ReadUserDictionary(file(ud), u16)
			if i == 16 {
				if err == nil {
					c.Input(src)
					c.Failf("a set of 16 dictionaries accepts a further one")
				}
				break
			}
			if err != nil {
				c.Input(src)
				c.Failf("user dictionary %d: %v", i, err)
			}
			dicts = append(dicts, x)
		}
		c.Input(src)
		s := d.lexicon
		if full := s.IsFull(); full != (len(dicts) == 16) {
			c.Failf("IsFull() = %v with %d dictionaries", full, len(dicts))
		}
		// words
		n := 0
		for di, x := range dicts {
			for wi, w := range x.ws {
				n++
				id := int32(uint32(di)<<28 | uint32(wi))
				what := fmt.Sprintf("word %d of dictionary %d", wi, di)
				if g := s.GetDictionaryId(id); g != di {
					c.Failf("%s: GetDictionaryId = %d", what, g)
				}
				if a, b, k := s.GetLeftId(id), s.GetRightId(id), s.GetCost(id); int(a) != w.left || int(b) != w.right || int(k) != w.cost {
					c.Failf("%s: parameters %d %d %d, want %d %d %d", what, a, b, k, w.left, w.right, w.cost)
				}
				info := s.GetWordInfo(id)
				if info.Surface != w.surface || info.ReadingForm != w.reading || info.NormalizedForm != w.norm {
					c.Failf("%s: %q %q %q, want %q %q %q", what, info.Surface, info.ReadingForm, info.NormalizedForm, w.surface, w.reading, w.norm)
				}
				df := w.surface
				if w.dicform != "*" {
					var k int
					fmt.Sscan(w.dicform, &k)
					df = x.ws[k].surface
				}
				if info.DictionaryForm != df {
					c.Failf("%s: dictionary form %q, want %q", what, info.DictionaryForm, df)
				}
				if p := d.GetPartOfSpeechString(info.PosId); !reflect.DeepEqual(p, w.pos[:]) {
					c.Failf("%s: part of speech %v, want %v", what, p, w.pos)
				}
				if a := v13refs(s, info.AUnitSplit); strings.Join(a, " ") != strings.Join(x.a[wi], " ") {
					c.Failf("%s: A units %v, want %v", what, a, x.a[wi])
				}
				if a := v13refs(s, info.BUnitSplit); strings.Join(a, " ") != strings.Join(x.b[wi], " ") {
					c.Failf("%s: B units %v, want %v", what, a, x.b[wi])
				}
				for _, u := range append(info.AUnitSplit, info.BUnitSplit...) {
					ud, uw := s.GetDictionaryId(u), int(uint32(u)&0xfffffff)
					if g := s.GetWordInfo(u).Surface; g != dicts[ud].ws[uw].surface {
						c.Failf("%s: reference %d:%d leads to %q, want %q", what, ud, uw, g, dicts[ud].ws[uw].surface)
					}
				}
			}
		}
		if int(s.Size()) != n {
			c.Failf("Size() = %d, want %d", s.Size(), n)
		}
		// lookups
		for k := 0; k < 6; k++ {
			text := vpickS(r, "東京都", "ああい", "ab東京", "京都", "x", "", "東", "abc", "ああ東京都あ")
			for off := 0; off <= len(text); off++ {
				var want, got []string
				for di, x := range dicts {
					for wi, w := range x.ws {
						if w.left != -1 && strings.HasPrefix(text[off:], w.head) {
							want = append(want, fmt.Sprintf("%d:%d-%d", di, wi, off+len(w.head)))
						}
					}
				}
				it := s.Lookup([]byte(text), off)
				for it.Next() {
					if r.p(10) && !it.Next() {
						c.Failf("Lookup(%q, %d): Next twice", text, off)
					}
					id, e := it.Get()
					if it.Err() != nil {
						c.Failf("Lookup(%q, %d): %v", text, off, it.Err())
					}
					got = append(got, fmt.Sprintf("%d:%d-%d", s.GetDictionaryId(id), uint32(id)&0xfffffff, e))
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(want, " ") != strings.Join(got, " ") {
					c.Failf("Lookup(%q, %d) = %v, want %v", text, off, got, want)
				}
			}
		}
		// words by surface, part of speech and reading
		for k := 0; k < 10; k++ {
			x := dicts[r.n(len(dicts))]
			w := x.ws[r.n(len(x.ws))]
			var p int16 = int16(r.n(6))
			if r.p(70) {
				p = d.grammar.GetPartOfSpeechId(w.pos[:])
			}
			id := s.GetWordId(w.surface, p, w.reading)
			if id == -1 {
				continue
			}
			di, wi := s.GetDictionaryId(id), int(uint32(id)&0xfffffff)
			if di >= len(dicts) || wi >= len(dicts[di].ws) {
				c.Failf("GetWordId(%q, %d, %q) = %d:%d", w.surface, p, w.reading, di, wi)
			}
			if y := dicts[di].ws[wi]; y.surface != w.surface || y.reading != w.reading {
				c.Failf("GetWordId(%q, %d, %q) = %d:%d, which is %q %q", w.surface, p, w.reading, di, wi, y.surface, y.reading)
			}
		}
		if len(dicts) == 1 {
			c.Trivial()
		}
	})
}
