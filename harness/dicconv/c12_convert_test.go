package main

//verif:use dict
//verif:use lex

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// run as the converter
func init() {
	if a := os.Getenv("VERIF_DICCONV"); a != "" {
		os.Args = strings.Split(a, "\n")
		main()
		os.Exit(0)
	}
}

func v12convert(args ...string) (string, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_DICCONV="+strings.Join(append([]string{"dicconv"}, args...), "\n"))
	cmd.Dir = vscratch()
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func v12ids(xs []int32) string { return fmt.Sprint(append([]int32{}, xs...)) }

// v12words compares the words of a dictionary with their source.
func v12words(c *vcase, kind string, ws []vsrcword, g func(int16) []string, l *dictionary.DoubleArrayLexicon) {
	if int(l.Size()) != len(ws) {
		c.Failf("%s: %d words of %d", kind, l.Size(), len(ws))
	}
	heads := map[string][]int32{}
	for i, x := range ws {
		id := int32(i)
		w := x.W
		is := func(what string, got, want interface{}) {
			if got != want {
				c.Failf("%s: word %d (%q): %s is %v, in the source %v", kind, i, w.surface, what, got, want)
			}
		}
		wi := l.GetWordInfo(id)
		is("left id", int(l.GetLeftId(id)), w.left)
		is("right id", int(l.GetRightId(id)), w.right)
		is("cost", int(l.GetCost(id)), w.cost)
		is("surface", wi.Surface, w.surface)
		is("length", int(wi.HeadwordLength), len(w.head))
		is("reading", wi.ReadingForm, vor(w.reading, w.surface))
		is("normalised form", wi.NormalizedForm, vor(w.norm, w.surface))
		is("dictionary form id", wi.DictionaryFormWordId, x.Dicform)
		df := w.surface
		if x.Dicform >= 0 {
			df = ws[x.Dicform].W.surface
		}
		is("dictionary form", wi.DictionaryForm, df)
		is("part of speech", strings.Join(g(wi.PosId), ","), strings.Join(w.pos[:], ","))
		is("A units", v12ids(wi.AUnitSplit), v12ids(x.A))
		is("B units", v12ids(wi.BUnitSplit), v12ids(x.B))
		is("word structure", v12ids(wi.WordStructure), v12ids(x.S))
		if _, ok := heads[w.head]; !ok {
			heads[w.head] = nil
		}
		if w.left != -1 {
			heads[w.head] = append(heads[w.head], id)
		}
	}
	for h, want := range heads {
		if h == "" {
			continue
		}
		for _, text := range []string{h, h + "x", h + "東京"} {
			var got []int32
			for it := l.Lookup([]byte(text), 0); it.Next(); {
				id, n := it.Get()
				if n == len(h) {
					got = append(got, id)
				}
				if int(id) < 0 || int(id) >= len(ws) || ws[id].W.head != text[:n] || ws[id].W.left == -1 {
					c.Failf("%s: looking up %q gives word %d with length %d", kind, text, id, n)
				}
			}
			if v12ids(got) != v12ids(want) {
				c.Failf("%s: looking up %q in %q gives words %v, the source has %v", kind, h, text, got, want)
			}
		}
	}
}

// v12matrix writes a matrix source.
func v12matrix(r *vrng, left, right int) (string, map[[2]int]int) {
	var b strings.Builder
	m := map[[2]int]int{}
	fmt.Fprintf(&b, "%d %d\n", left, right)
	for k := r.n(left*right*2 + 1); k > 0; k-- {
		i, j, v := r.n(left), r.n(right), vpickI(r, r.rng(-32768, 32767), -32768, 32767, 0, -1, 255, 256)
		m[[2]int{i, j}] = v
		fmt.Fprintf(&b, "%s%d%s%d%s%d%s", vpickS(r, "", " ", "\t"), i, vpickS(r, " ", "\t", "  "), j, vpickS(r, " ", "\t"), v, vpickS(r, "\n", "\n", "\r\n", "\n\n", " \n", "\n \t\n"))
	}
	return b.String(), m
}

func TestVerifC12Convert(t *testing.T) {
	k := 0
	vrun(t, "C12", "C12Convert", "random dictionaries converted by dicconv to the other text encoding, and back, give every word, part of speech and connection cost of the source", 20, 0, func(c *vcase) {
		r := c.R
		k++
		u16 := r.p(50)
		nw := r.rng(1, 12)
		if r.p(5) {
			nw = r.rng(100, 500)
		}
		left, right := r.rng(1, 6), r.rng(1, 6)
		sys := vrandlex(r, nw, vposSet(r, r.rng(1, 5)), left, 0, false)
		ms, m := v12matrix(r, left, right)
		c.Input(map[string]interface{}{"utf16": u16, "lexicon": vsrclines(sys), "matrix": ms})
		sb, err := vsysdict(vsrclines(sys), ms, u16)
		if err != nil {
			c.Failf("a valid system source is rejected: %s", err)
		}
		g, _ := vload(sb, u16)
		words, file := sys, sb
		kind := "system"
		if r.p(35) {
			kind = "user"
			poss := vposSet(r, r.rng(1, 3))
			for i := 0; i < 3; i++ {
				poss = append(poss, sys[r.n(len(sys))].W.pos)
			}
			words = vrandlex(r, r.rng(1, 8), poss, left, len(sys), true)
			c.Input(map[string]interface{}{"utf16": u16, "lexicon": vsrclines(sys), "user": vsrclines(words)})
			_, l := vload(sb, u16)
			if file, err = vuserdict(vsrclines(words), g, l, u16); err != nil {
				c.Failf("a valid user source is rejected: %s", err)
			}
		}
		in := vscratchFile(fmt.Sprintf("c12-in-%d", k), file)
		defer os.Remove(in)
		for round := 0; round < 2; round++ {
			out := vscratchFile(fmt.Sprintf("c12-out-%d-%d", k, round), []byte("old content"))
			defer os.Remove(out)
			args := []string{"-o", out, in}
			if !u16 {
				args = []string{"-j", "-o", out, in}
			}
			if msg, err := v12convert(args...); err != nil {
				c.Failf("converting the %s dictionary fails: %s: %s", kind, err, msg)
			}
			u16 = !u16
			b, err := os.ReadFile(out)
			if err != nil {
				c.Failf("no converted dictionary: %s", err)
			}
			if len(b) < dictionary.HeaderStorageSize || !bytes.Equal(b[:dictionary.HeaderStorageSize], file[:dictionary.HeaderStorageSize]) {
				c.Failf("the converted %s dictionary has another header", kind)
			}
			if p := vpanics(func() {
				cg, cl := vload(b, u16)
				n := g.GetPartOfSpeechSize()
				pos := cg.GetPartOfSpeechString
				if kind == "user" {
					pos = func(id int16) []string {
						if int(id) < n {
							return g.GetPartOfSpeechString(id)
						}
						return cg.GetPartOfSpeechString(id - int16(n))
					}
				} else {
					for i := 0; i < left; i++ {
						for j := 0; j < right; j++ {
							if got := int(cg.GetConnectCost(int16(i), int16(j))); got != m[[2]int{i, j}] {
								c.Failf("converted: the connection cost of %d and %d is %d, in the source %d", i, j, got, m[[2]int{i, j}])
							}
						}
					}
				}
				v12words(c, "converted "+kind, words, pos, cl)
			}); p != nil {
				if _, ok := p.(vfailed); ok {
					panic(p)
				}
				c.Failf("reading the converted %s dictionary crashes: %v", kind, p)
			}
			in = out
		}
	})
}
