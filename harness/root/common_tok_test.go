package gosudachi

//verif:use dict

import (
	"fmt"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
)

var vpos = [][6]string{
	{"名詞", "普通", "*", "*", "*", "*"},
	{"名詞", "数詞", "*", "*", "*", "*"},
	{"補助記号", "*", "*", "*", "*", "*"},
	{"動詞", "*", "*", "*", "五段", "終止形"},
}

const vchardef = `DEFAULT 0 1 0
SPACE 0 1 0
KANJI 0 0 2
SYMBOL 1 1 0
NUMERIC 1 1 0
ALPHA 1 1 0
HIRAGANA 0 1 2
KATAKANA 1 1 2
KANJINUMERIC 1 1 0
GREEK 1 1 0
CYRILLIC 1 1 0

0x0020 SPACE
0x0021..0x002F SYMBOL
0x0030..0x0039 NUMERIC
0x0041..0x005A ALPHA
0x0061..0x007A ALPHA
0x3041..0x309F HIRAGANA
0x30A1..0x30FF KATAKANA
0x30FC HIRAGANA KATAKANA
0x30E1 NOOOVBOW
0x4E00..0x9FFF KANJI
0x4E00 KANJINUMERIC KANJI
0x4E8C KANJINUMERIC KANJI
0x4E07 KANJINUMERIC KANJI
0x5341 KANJINUMERIC KANJI
0x0370..0x03FF GREEK
0x0400..0x04FF CYRILLIC
`

var valphabet = []rune("ああいアアメー漢字一二万十123.,aAbé ｱ㍿ｶﾞαЖ𠮟〜。")

func vtext(r *vrng, max int) string {
	n := r.n(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		ch := valphabet[r.n(len(valphabet))]
		b.WriteRune(ch)
		for r.p(25) && i+1 < n {
			b.WriteRune(ch)
			i++
		}
	}
	return b.String()
}

func vcut(r *vrng, s string, max int) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "あ"
	}
	b := r.n(len(rs))
	n := r.rng(1, max)
	if b+n > len(rs) {
		n = len(rs) - b
	}
	return string(rs[b : b+n])
}

// okWord tells whether s can stand in a CSV field.
func vokWord(s string) bool { return s != "" && !strings.ContainsAny(s, ",\\/\n\r\"") }

// vtok is a dictionary with its plugins; mk makes everything anew.
type vtok struct {
	Lex, User, Unk string
	Ids            int
	Utf16          bool
	In, Oov, Path  []string
	img            []byte
	user           []byte
	chardef        string
	unkdef         string
	rewrite        string
	enableNorm     bool
	minLen         int
	odd            bool // some word's surface form is not its key
}

// vmakeTok builds a tokenizer for texts like the given ones.
func vmakeTok(c *vcase, texts []string) *vtok {
	r := c.R
	t := &vtok{Ids: r.rng(1, 3)}
	var ws []vword
	add := func(s string, mode, a, b string) int {
		cost := r.rng(-2000, 8000)
		if r.p(5) {
			cost = vpickI(r, -32767, 32767, 0)
		}
		w := vword{head: s, left: r.n(t.Ids), right: r.n(t.Ids), cost: cost, surface: s, pos: vpos[r.n(4)], reading: "ヨミ", norm: s, dicform: "*", mode: mode, a: a, b: b, ws: "*"}
		if r.p(20) {
			w.norm = "正" + s
		}
		if r.p(12) { // a surface form that is not its key
			w.surface = s + "Ａ"
			t.odd = true
		}
		ws = append(ws, w)
		return len(ws) - 1
	}
	// every POS is there
	for i, p := range vpos {
		ws = append(ws, vword{head: fmt.Sprintf("zz%d", i), surface: fmt.Sprintf("zz%d", i), pos: p, reading: "ゼ", norm: "z", dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
	}
	base := len(ws)
	var all string
	for _, x := range texts {
		all += x
	}
	lows := strings.ToLower(all)
	for k := r.n(8); k > 0; k-- {
		s := vcut(r, lows, 3)
		if vokWord(s) {
			add(s, "A", "*", "*")
		}
	}
	for _, d := range "123一二万十" {
		if r.p(60) {
			i := add(string(d), "A", "*", "*")
			if r.p(80) {
				ws[i].pos = vpos[1]
				ws[i].norm = ws[i].head
			}
		}
	}
	units := len(ws)
	for k := r.n(4); k > 0 && units > base; k-- {
		n := r.rng(2, 3)
		var s string
		var ids []string
		for j := 0; j < n; j++ {
			u := base + r.n(units-base)
			s += ws[u].head
			ids = append(ids, fmt.Sprint(u))
		}
		a, b := strings.Join(ids, "/"), "*"
		if r.p(50) {
			b = a
		}
		if r.p(20) {
			a = "*"
		}
		if r.p(10) {
			b = ids[0]
		}
		add(s, "C", a, b)
	}
	t.Lex = vlines(ws)
	inh := r.n(3) * 8
	matrix := vmatrix(t.Ids, t.Ids, func(i, j int) int {
		if r.n(100) < inh {
			return 32767
		}
		return r.rng(-500, 500)
	})
	t.Utf16 = r.p(30)
	img, err := vsysdict(t.Lex, matrix, t.Utf16)
	if err != nil {
		panic(fmt.Sprintf("dictionary source refused: %v\n%s", err, t.Lex))
	}
	t.img = img
	if r.p(30) {
		g, l := vload(img, t.Utf16)
		var us []vword
		for k := r.rng(1, 4); k > 0; k-- {
			s := vcut(r, lows, 4)
			if !vokWord(s) {
				continue
			}
			us = append(us, vword{head: s, left: r.n(t.Ids), right: r.n(t.Ids), cost: r.rng(-2000, 8000), surface: s, pos: vpos[r.n(4)], reading: "ユ", norm: s, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"})
		}
		if n := len(us); n >= 1 && r.p(60) {
			a := fmt.Sprintf("U%d/%d", r.n(n), base+r.n(len(ws)-base+1)-1)
			var ai, bi int
			fmt.Sscanf(a, "U%d/%d", &ai, &bi)
			s := us[ai].head + ws[bi].head
			us = append(us, vword{head: s, surface: s, cost: -3000, pos: [6]string{"新", "品", "詞", "*", "*", "*"}, reading: "ユ", norm: s, dicform: "*", mode: "C", a: a, b: a, ws: "*"})
		}
		if len(us) > 0 {
			t.User = vlines(us)
			ud, err := vuserdict(t.User, g, l, t.Utf16)
			if err != nil {
				panic(fmt.Sprintf("user dictionary source refused: %v\n%s", err, t.User))
			}
			t.user = ud
		}
	}
	// unknown words
	var unk strings.Builder
	for _, cat := range []string{"DEFAULT", "KANJI", "KATAKANA", "HIRAGANA", "ALPHA", "NUMERIC", "KANJINUMERIC", "SYMBOL", "SPACE", "GREEK"} {
		if cat != "DEFAULT" && r.p(30) {
			continue
		}
		for k := r.rng(1, 2); k > 0; k-- {
			fmt.Fprintf(&unk, "%s,%d,%d,%d,%s\n", cat, r.n(t.Ids), r.n(t.Ids), r.rng(0, 9000), strings.Join(vpos[r.n(4)][:], ","))
		}
	}
	t.Unk = unk.String()
	if r.p(70) {
		t.In = append(t.In, "default")
	}
	if r.p(50) {
		t.In = append(t.In, "prolonged")
	}
	if r.p(70) {
		t.Oov = append(t.Oov, "mecab")
	}
	if len(t.Oov) == 0 || r.p(70) {
		t.Oov = append(t.Oov, "simple")
	}
	if r.p(60) {
		t.Path = append(t.Path, "numeric")
	}
	if r.p(60) {
		t.Path = append(t.Path, "katakana")
	}
	t.enableNorm = r.p(70)
	t.minLen = r.n(3)
	t.chardef = vscratchFile("tok-char.def", []byte(vchardef))
	t.unkdef = vscratchFile("tok-unk.def", []byte(t.Unk))
	t.rewrite = vscratchFile("tok-rewrite.def", []byte(vrewrite))
	return t
}

const vrewrite = "髙\n〜\n㍿ かぶ\nアア ア\nメー めえ\nガ ガ\n。。。 .\n"

// mk makes a tokenizer, its dictionary and its plugins anew.
func (t *vtok) mk() *JapaneseTokenizer {
	return t.dict().Create()
}

func (t *vtok) dict() *JapaneseDictionary {
	g, l := vload(t.img, t.Utf16)
	d := &JapaneseDictionary{grammar: g, lexicon: dictionary.NewLexiconSet(l)}
	must := func(err error) {
		if err != nil {
			panic("set-up failed: " + err.Error())
		}
	}
	must(d.ReadCharacterDefinition(t.chardef))
	for _, n := range t.In {
		var p InputTextPlugin
		if n == "default" {
			p = NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: t.rewrite})
		} else {
			marks := []string{"ー", "〜", "ｰ"}
			sym := "ー"
			p = NewProlongedSoundMarkInputTextPlugin(&ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &sym})
		}
		must(p.SetUp())
		d.inputTextPlugins = append(d.inputTextPlugins, p)
	}
	for _, n := range t.Oov {
		var p OovProviderPlugin
		if n == "mecab" {
			p = NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &t.chardef, UnkDef: &t.unkdef})
		} else {
			pos := vpos[2][:]
			var lid, rid, cost int16 = 0, 0, 20000
			p = NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &lid, RightId: &rid, Cost: &cost})
		}
		must(p.SetUp(g))
		d.oovProviderPlugins = append(d.oovProviderPlugins, p)
	}
	for _, n := range t.Path {
		var p PathRewritePlugin
		if n == "numeric" {
			en := t.enableNorm
			p = NewJoinNumericPlugin(&JoinNumericPluginConfig{EnableNormalize: &en})
		} else {
			pos := vpos[0][:]
			ml := t.minLen
			p = NewJoinKatakanaOovPlugin(&JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: &ml})
		}
		must(p.SetUp(g))
		d.pathRewritePlugins = append(d.pathRewritePlugins, p)
	}
	if t.user != nil {
		ug, ul := vload(t.user, t.Utf16)
		d.lexicon.Add(ul, int32(g.GetPartOfSpeechSize()))
		g.AddPosList(ug)
	}
	return d
}

type vmorph struct {
	B, E                        int
	Surf, Norm, Dict, Read, Pos string
	Oov                         bool
	Wid, Did                    int
}

func vdump(ml *MorphemeList) []vmorph {
	var ret []vmorph
	for i := 0; i < ml.Length(); i++ {
		m := ml.Get(i)
		ret = append(ret, vmorph{m.Begin(), m.End(), m.Surface(), m.NormalizedForm(), m.DictionaryForm(), m.ReadingForm(), strings.Join(m.PartOfSpeech(), ","), m.IsOOV(), m.GetWordId(), m.GetDictionaryId()})
	}
	return ret
}

type vtokIn struct {
	Tok   *vtok
	Texts []string
	Modes []string
}
