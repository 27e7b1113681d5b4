package gosudachi

//verif:use dict
//verif:use tok

import (
	"fmt"
	"strconv"
	"strings"
)

// vsrc gives the source line, cut into fields, of a word of the system (0) or the user dictionary (1).
func (t *vtok) vsrc(dict, id int) []string {
	src := t.Lex
	if dict == 1 {
		src = t.User
	}
	ls := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
	if id < 0 || id >= len(ls) {
		return nil
	}
	return strings.Split(ls[id], ",")
}

// vents tells what a source line says: reading, normalized form, part of speech, units in modes A and B (dictionary, id).
func ventry(f []string) (read, norm, pos string, units map[string][][2]int) {
	units = map[string][][2]int{}
	for i, m := range []string{"A", "B"} {
		if x := f[15+i]; x != "*" {
			for _, u := range strings.Split(x, "/") {
				d := 0
				if strings.HasPrefix(u, "U") {
					d = 1
					u = u[1:]
				}
				n, _ := strconv.Atoi(u)
				units[m] = append(units[m], [2]int{d, n})
			}
		}
	}
	read, norm = f[11], f[12]
	if read == "" {
		read = f[4]
	}
	return read, norm, strings.Join(f[5:11], ","), units
}

// vsrcText makes a text out of the words of the dictionary and other characters.
func (t *vtok) vsrcText(r *vrng) string {
	var b strings.Builder
	for k := r.rng(1, 5); k > 0; k-- {
		src := t.Lex
		if t.User != "" && r.p(40) {
			src = t.User
		}
		ls := strings.Split(strings.TrimSuffix(src, "\n"), "\n")
		f := strings.Split(ls[r.n(len(ls))], ",")
		if r.p(60) { // prefer words that have units
			for try := 0; try < 8 && f[15] == "*" && f[16] == "*"; try++ {
				f = strings.Split(ls[r.n(len(ls))], ",")
			}
		}
		b.WriteString(f[0])
		if r.p(25) {
			b.WriteString(vtext(r, 3))
		}
	}
	return b.String()
}

func vword25(m vmorph) string {
	return fmt.Sprintf("[%d,%d) %q word %d of dictionary %d oov %v pos %s reading %q normalized %q dictionary form %q", m.B, m.E, m.Surf, m.Wid, m.Did, m.Oov, m.Pos, m.Read, m.Norm, m.Dict)
}
