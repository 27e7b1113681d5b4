package main

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
)

// A lexicon and matrix source, and the dictionary built from it in memory.
type vword struct {
	head                 string // column 0
	left, right, cost    int
	surface              string
	pos                  [6]string
	reading, norm        string
	dicform              string
	mode                 string
	a, b, ws             string
}

func (w vword) line() string {
	return fmt.Sprintf("%s,%d,%d,%d,%s,%s,%s,%s,%s,%s,%s", w.head, w.left, w.right, w.cost, w.surface, strings.Join(w.pos[:], ","), w.reading, w.norm, w.dicform, w.mode, w.a+","+w.b+","+w.ws)
}

func vlines(ws []vword) string {
	var b strings.Builder
	for _, w := range ws {
		b.WriteString(w.line())
		b.WriteByte('\n')
	}
	return b.String()
}

type vseek struct {
	b   []byte
	pos int64
}

func (s *vseek) Write(p []byte) (int, error) {
	for int64(len(s.b)) < s.pos+int64(len(p)) {
		s.b = append(s.b, make([]byte, s.pos+int64(len(p))-int64(len(s.b)))...)
	}
	copy(s.b[s.pos:], p)
	s.pos += int64(len(p))
	return len(p), nil
}
func (s *vseek) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		s.pos = off
	case io.SeekCurrent:
		s.pos += off
	default:
		s.pos = int64(len(s.b)) + off
	}
	return s.pos, nil
}

func vquiet() func() {
	old := os.Stderr
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	os.Stderr = n
	return func() { os.Stderr = old; n.Close() }
}

func vmatrix(l, r int, cost func(i, j int) int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d\n", l, r)
	for i := 0; i < l; i++ {
		for j := 0; j < r; j++ {
			fmt.Fprintf(&b, "%d %d %d\n", i, j, cost(i, j))
		}
	}
	return b.String()
}

// vsysdict builds a system dictionary file.
func vsysdict(lex, matrix string, utf16 bool) ([]byte, error) {
	defer vquiet()()
	h := dictionary.NewDictionaryHeader(dictionary.SystemDictVersion, 1, "x")
	hb, err := h.ToBytes()
	if err != nil {
		return nil, err
	}
	w := &vseek{}
	w.Write(hb)
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), nil, utf16)
	st := dictionary.NewPosTable()
	if err := b.BuildLexicon(st, strings.NewReader(lex)); err != nil {
		return nil, err
	}
	if err := b.WriteGrammar(st, strings.NewReader(matrix), w); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(w, st); err != nil {
		return nil, err
	}
	return w.b, nil
}

// vuserdict builds a user dictionary file over a system dictionary.
func vuserdict(lex string, g *dictionary.Grammar, sys *dictionary.DoubleArrayLexicon, utf16 bool) ([]byte, error) {
	defer vquiet()()
	h := dictionary.NewDictionaryHeader(dictionary.UserDictVersion2, 1, "u")
	hb, err := h.ToBytes()
	if err != nil {
		return nil, err
	}
	w := &vseek{}
	w.Write(hb)
	b := dictionary.NewDictionaryBuilder(int64(len(hb)), sys, utf16)
	st := dictionary.NewPosTableUser(g)
	if err := b.BuildLexicon(st, strings.NewReader(lex)); err != nil {
		return nil, err
	}
	if err := b.WriteGrammarUser(&st.PosTable, w); err != nil {
		return nil, err
	}
	if err := b.WriteLexicon(w, st); err != nil {
		return nil, err
	}
	return w.b, nil
}

// vload reads a dictionary image.
func vload(b []byte, utf16 bool) (*dictionary.Grammar, *dictionary.DoubleArrayLexicon) {
	g := dictionary.NewGrammar(b, dictionary.HeaderStorageSize, utf16)
	return g, dictionary.NewDoubleArrayLexicon(b, dictionary.HeaderStorageSize+g.StorageSize, utf16)
}

func vscratchFile(name string, b []byte) string {
	p := filepath.Join(vscratch(), name)
	if err := os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
	return p
}
