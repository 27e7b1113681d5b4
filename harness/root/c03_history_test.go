package gosudachi

//verif:use dict
//verif:use tok

import (
	"fmt"
	"strings"
	"testing"
)

type vhistIn struct {
	Tok   *vtok
	Texts []string
	Modes []string
}

func vresult(tok *JapaneseTokenizer, mode, text string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("panic: %v", r)
		}
	}()
	ml, err := tok.Tokenize(mode, text)
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("%+v cost %d", vdump(ml), ml.GetInternalCost())
}

func TestVerifC03History(t *testing.T) {
	vrun(t, "C03", "C03History", "random dictionaries and plugins; 2-6 texts of 0-14 characters through one tokenizer, each compared with a fresh one", 20, 0, func(c *vcase) {
		var texts, modes []string
		for k := c.R.rng(2, 6); k > 0; k-- {
			x := vtext(c.R, 14)
			if len(texts) > 0 && c.R.p(20) {
				x = texts[c.R.n(len(texts))]
			}
			if c.R.p(15) {
				x = strings.Repeat("あ", c.R.rng(1, 6)) // inhibited ids make errors likely
			}
			texts = append(texts, x)
			modes = append(modes, vpickS(c.R, "A", "B", "C"))
		}
		tk := vmakeTok(c, texts)
		c.Input(vhistIn{tk, texts, modes})
		tok := tk.mk()
		for i, x := range texts {
			got := vresult(tok, modes[i], x)
			want := vresult(tk.mk(), modes[i], x)
			if got != want {
				c.Failf("call %d (%s, %q) gave\n%s\na fresh tokenizer gives\n%s", i, modes[i], x, got, want)
			}
		}
	})
}
