package dictionary

//verif:use dict

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

// The version numbers of the file format.
const (
	v20sys  uint64 = 0x7366d3f18bd111e7
	v20usr  uint64 = 0xa50f31188bd211e7
	v20usr2 uint64 = 0x9fdeb5a90168d868
)

func v20pos(i int) [6]string {
	return [6]string{"名詞", fmt.Sprint("p", i), "*", "*", "*", "*"}
}

// v20dict gives the bytes of a small dictionary with the given version and description.
func v20dict(r *vrng, version uint64, created int64, desc string, u16 bool) []byte {
	h := NewDictionaryHeader(version, created, desc)
	hb, err := h.ToBytes()
	if err != nil {
		panic(err)
	}
	w := &vseek{}
	w.Write(hb)
	pos := NewPosTable()
	b := NewDictionaryBuilder(int64(len(hb)), nil, u16)
	var ws []vword
	for i := r.n(4); i >= 0; i-- {
		hd := vpickS(r, "a", "東", "東京", "abc", "ぬる")
		ws = append(ws, vword{head: hd, cost: r.n(100), surface: hd, pos: v20pos(r.n(3)), reading: "x", norm: hd, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
	}
	func() {
		defer vquiet()()
		if err = b.BuildLexicon(pos, strings.NewReader(vlines(ws))); err != nil {
			panic(err)
		}
		if version == v20sys || version == v20usr2 {
			if version == v20sys {
				err = b.WriteGrammar(pos, strings.NewReader("1 1\n0 0 5\n"), w)
			} else {
				err = b.WriteGrammarUser(pos, w)
			}
			if err != nil {
				panic(err)
			}
		}
		if err = b.WriteLexicon(w, pos); err != nil {
			panic(err)
		}
	}()
	return w.b
}

func TestVerifC20Open(t *testing.T) {
	dir, err := os.MkdirTemp(vscratch(), "c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	vrun(t, "C20", "C20Open", "system and user dictionaries, the same with a changed version, cut files (0 to 300 bytes), random bytes, a directory, a missing file", 300, 0, func(c *vcase) {
		r := c.R
		u16 := r.p(50)
		version := []uint64{v20sys, v20usr, v20usr2}[r.n(3)]
		desc := vpickS(r, "", "a dictionary", "辞書", strings.Repeat("x", 256), strings.Repeat("あ", 85))
		created := time.Unix(int64(r.n(2000000000)), 0).Unix()
		b := v20dict(r, version, created, desc, u16)
		name := filepath.Join(dir, fmt.Sprint("d", c.I%7))
		what := "whole"
		sys, usr := version == v20sys, version != v20sys
		switch r.n(6) {
		case 0:
			n := r.n(HeaderStorageSize)
			if r.p(40) {
				n = vpickI(r, 0, 1, 7, 8, 15, 16, 271)
			}
			b = b[:n]
			what = fmt.Sprint("cut to ", n)
			sys, usr = false, false
		case 1:
			i := r.n(8)
			b[i] ^= byte(1 << uint(r.n(8)))
			what = fmt.Sprint("version byte ", i, " changed")
			sys, usr = false, false
		case 2:
			n := r.n(600)
			b = v11rand(r, n)
			what = fmt.Sprint("random ", n)
			sys, usr = false, false
		case 3:
			if r.p(30) {
				name = vpickS(r, dir, filepath.Join(dir, "missing"), "")
				b = nil
				what = "no file"
				sys, usr = false, false
			}
		}
		c.Input(fmt.Sprintf("version %x utf16 %v %s", version, u16, what))
		if what != "no file" {
			if err := os.WriteFile(name, b, 0644); err != nil {
				panic(err)
			}
			defer os.Remove(name)
		}
		check := func(kind string, ok bool, d *BinaryDictionary, err error, head func(*BinaryDictionary) *DictionaryHeader) {
			if (err == nil) != ok {
				c.Failf("opening as %s: error %v, want success %v", kind, err, ok)
			}
			if err != nil {
				if d != nil {
					c.Failf("opening as %s: a dictionary and an error", kind)
				}
				return
			}
			h := head(d)
			if h.Version != version || h.CreateTime != created || h.Description != desc {
				c.Failf("header %+v", *h)
			}
			if (d.Grammar != nil) != (version != v20usr) {
				c.Failf("grammar %v", d.Grammar != nil)
			}
			if d.Lexicon == nil || d.Lexicon.Size() < 1 {
				c.Failf("no lexicon")
			}
			if err := d.Close(); err != nil {
				c.Failf("close: %v", err)
			}
		}
		head := func(d *BinaryDictionary) *DictionaryHeader { return d.Header }
		d, err := ReadSystemDictionary(name, u16)
		check("system", sys, d, err, head)
		d, err = ReadUserDictionary(name, u16)
		check("user", usr, d, err, head)
		d, err = NewBinaryDictionary(name, u16)
		check("any", sys || usr, d, err, head)
		if !bytes.Equal(b, v20read(name, what)) {
			c.Failf("the file changed")
		}
	})
}

func v20read(name, what string) []byte {
	if what == "no file" {
		return nil
	}
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return b
}

func v11rand(r *vrng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}
