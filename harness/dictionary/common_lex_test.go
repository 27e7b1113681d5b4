package dictionary

import (
	"fmt"
	"strings"
)

// vstr gives a random short string without separators.
func vstr(r *vrng, min, max int) string {
	var b strings.Builder
	for k := r.rng(min, max); k > 0; k-- {
		b.WriteRune(vpickR(r, 'a', 'b', 'Z', '0', '9', 'あ', 'い', 'カ', 'ー', '東', '京', '都', 'é', 'ß', '𠮟', '😀', ' ', '"', '%', '/', '*', '-', 'U', '　', '\t', '.', '　'))
	}
	return b.String()
}

func vposSet(r *vrng, n int) [][6]string {
	var ps [][6]string
	for i := 0; i < n; i++ {
		var p [6]string
		for j := range p {
			p[j] = vpickS(r, "*", "名詞", "動詞", "数詞", "", "x y", "普通名詞", "z")
		}
		p[r.n(6)] += fmt.Sprint(i)
		ps = append(ps, p)
	}
	return ps
}

// vsplitIn is one entry of a split list: how it is written and the id it stands for.
func vsplits(r *vrng, n, sysN int, user bool) (string, []int32) {
	if r.p(45) {
		return "*", nil
	}
	k := r.rng(1, 4)
	if r.p(3) {
		k = r.rng(5, 127)
	}
	var ss []string
	var ids []int32
	for i := 0; i < k; i++ {
		if user && (sysN == 0 || r.p(50)) {
			j := r.n(n)
			ss = append(ss, fmt.Sprint("U", j))
			ids = append(ids, int32(j)|1<<28)
		} else if user {
			j := r.n(sysN)
			ss = append(ss, fmt.Sprint(j))
			ids = append(ids, int32(j))
		} else {
			j := r.n(n)
			ss = append(ss, vpickS(r, "", "U")+fmt.Sprint(j))
			ids = append(ids, int32(j))
		}
	}
	return strings.Join(ss, "/"), ids
}

// vsrcword is a word of a source with the split lists it means.
type vsrcword struct {
	W         vword
	A, B, S   []int32
	Dicform   int32
}

// vrandlex gives n random valid words.
func vrandlex(r *vrng, n int, poss [][6]string, ids int, sysN int, user bool) []vsrcword {
	var ws []vsrcword
	for i := 0; i < n; i++ {
		var w vword
		w.head = vstr(r, 1, 5)
		if r.p(3) {
			w.head = strings.Repeat("か", r.rng(40, 60))
		}
		if len(ws) > 0 && r.p(25) {
			w.head = ws[r.n(len(ws))].W.head
		} else if len(ws) > 0 && r.p(20) {
			w.head = ws[r.n(len(ws))].W.head + vstr(r, 1, 2)
		}
		w.left, w.right = r.n(ids), r.n(ids)
		if r.p(15) {
			w.left, w.right = -1, -1
		}
		w.cost = r.rng(-32768, 32767)
		w.surface = w.head
		if r.p(25) {
			w.surface = vstr(r, 0, 6)
		}
		w.pos = poss[r.n(len(poss))]
		w.reading, w.norm = vstr(r, 0, 6), vstr(r, 0, 6)
		if r.p(25) {
			w.reading = w.surface
		}
		if r.p(25) {
			w.norm = w.surface
		}
		if r.p(4) {
			w.norm = strings.Repeat("漢", r.rng(42, 300))
		}
		if r.p(4) {
			w.reading = strings.Repeat(vpickS(r, "x", "𠮟", "ア"), r.rng(126, 130))
		}
		if r.p(2) {
			w.reading = strings.Repeat("y", r.rng(255, 258))
		}
		x := vsrcword{Dicform: -1}
		w.dicform = "*"
		if r.p(30) {
			x.Dicform = int32(r.n(n))
			w.dicform = fmt.Sprint(x.Dicform)
		}
		w.a, x.A = vsplits(r, n, sysN, user)
		w.b, x.B = vsplits(r, n, sysN, user)
		w.ws, x.S = vsplits(r, n, sysN, user)
		w.mode = vpickS(r, "B", "C")
		if w.a == "*" && w.b == "*" && r.p(70) {
			w.mode = "A"
		}
		x.W = w
		ws = append(ws, x)
	}
	return ws
}

func vsrclines(ws []vsrcword) string {
	var b strings.Builder
	for _, w := range ws {
		b.WriteString(w.W.line())
		b.WriteByte('\n')
	}
	return b.String()
}

func vor(s, d string) string {
	if s == "" {
		return d
	}
	return s
}
