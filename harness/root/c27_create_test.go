package gosudachi

//verif:use dict

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// a plugin that notes what it is called for
type vplug27 struct {
	name   string
	fail   string // the step that fails
	events *[]string
	gram   *dictionary.Grammar
}

func (p *vplug27) GetConfigStruct() interface{} { return nil }
func (p *vplug27) step(what string, g *dictionary.Grammar) error {
	*p.events = append(*p.events, p.name+" "+what)
	p.gram = g
	if p.fail == what {
		return errors.New("no " + what)
	}
	return nil
}

type vin27 struct{ vplug27 }

func (p *vin27) SetUp() error                      { return p.step("setup", nil) }
func (p *vin27) Rewrite(b *InputTextBuilder) error { return nil }

type voov27 struct{ vplug27 }

func (p *voov27) SetUp(g *dictionary.Grammar) error { return p.step("setup", g) }
func (p *voov27) ProvideOOV(in *InputText, offset int, has bool) ([]*LatticeNode, error) {
	return nil, nil
}

type vpath27 struct{ vplug27 }

func (p *vpath27) SetUp(g *dictionary.Grammar) error { return p.step("setup", g) }
func (p *vpath27) Rewrite(t *InputText, path *[]*LatticeNode, l *Lattice) error {
	return nil
}

type vedit27 struct {
	vplug27
	cost int16
}

func (p *vedit27) SetUp(g *dictionary.Grammar) error { return p.step("setup", g) }
func (p *vedit27) Edit(g *dictionary.Grammar) error {
	err := p.step("edit", g)
	if err == nil {
		g.SetConnectCost(0, 0, p.cost)
	}
	return err
}

var v27seq int

func TestVerifC27Create(t *testing.T) {
	vrun(t, "C27", "C27Create", "configurations with 0-18 user dictionaries and 0-3 plugins of each kind, in some of which a file is missing or no dictionary, or a plugin's set-up or edit fails", 40, 0, func(c *vcase) {
		defer vquiet()()
		r := c.R
		u16 := r.p(30)
		var files []string
		file := func(b []byte) string {
			v27seq++
			f := vscratchFile(fmt.Sprintf("c27-%d.bin", v27seq), b)
			files = append(files, f)
			return f
		}
		defer func() {
			for _, f := range files {
				os.Remove(f)
			}
		}()
		bad := "" // what should fail first
		breakIt := func() bool { return bad == "" && r.p(6) }
		spoil := func(what string, b []byte) string {
			if !breakIt() {
				return file(b)
			}
			bad = what
			if r.p(40) {
				return vscratch() + "/c27-missing"
			}
			return file(b[8:])
		}
		word := func(s string, id int) vword {
			return vword{head: s, left: id, right: id, cost: 10 * (id + 1), surface: s, pos: vpos27[id%3], reading: "ヨ", norm: s, dicform: "*", mode: "A", a: "*", b: "*", ws: "*"}
		}
		img, err := vsysdict(vlines([]vword{word("東", 0), word("西", 1)}), vmatrix(2, 2, func(i, j int) int { return i + 2*j }), u16)
		if err != nil {
			panic(err)
		}
		g, l := vload(img, u16)
		var events []string
		var want []string
		conf := &BaseConfig{Utf16String: u16}
		var ip []InputTextPlugin
		var op []OovProviderPlugin
		var pp []PathRewritePlugin
		var ep []EditConnectionCostPlugin
		none := breakIt()
		if none {
			bad = "no provider"
		}
		conf.SystemDict = spoil("system dictionary", img)
		step := func(name, what string) string { // tells whether this step fails
			if bad == "" {
				want = append(want, name+" "+what)
			}
			if breakIt() {
				bad = name + " " + what
				return what
			}
			return ""
		}
		last := int16(0)
		for k := r.n(4); k > 0; k-- {
			p := &vedit27{vplug27{name: fmt.Sprint("edit", k), events: &events}, int16(r.rng(-90, 90))}
			for _, w := range []string{"setup", "edit"} {
				if f := step(p.name, w); f != "" {
					p.fail = f
				}
			}
			last = p.cost
			ep = append(ep, p)
		}
		chars := ""
		if r.p(70) {
			chars = "0x6771 " + vpickS(r, "KANJI", "ALPHA", "GREEK") + "\n"
			if breakIt() {
				bad = "character definitions"
				conf.CharacterDefinitionFile = vpickS(r, vscratch()+"/c27-missing", file([]byte("0x6771 NOSUCH\n")), file([]byte("0x6771 KANJI\n0x9 ALPHA\n0x7..0x1 ALPHA\n")))
			} else {
				conf.CharacterDefinitionFile = file([]byte(chars))
			}
		}
		for k := r.n(4); k > 0; k-- {
			p := &vin27{vplug27{name: fmt.Sprint("input", k), events: &events}}
			p.fail = step(p.name, "setup")
			ip = append(ip, p)
		}
		n := r.rng(1, 3)
		if none {
			n = 0
		}
		for k := n; k > 0; k-- {
			p := &voov27{vplug27{name: fmt.Sprint("provider", k), events: &events}}
			p.fail = step(p.name, "setup")
			op = append(op, p)
		}
		for k := r.n(4); k > 0; k-- {
			p := &vpath27{vplug27{name: fmt.Sprint("path", k), events: &events}}
			p.fail = step(p.name, "setup")
			pp = append(pp, p)
		}
		users := r.n(4)
		if r.p(8) {
			users = r.rng(13, 15)
			if breakIt() || bad == "" && r.p(30) {
				bad = "a sixteenth user dictionary"
				users = r.rng(16, 18)
			}
		}
		for k := 0; k < users; k++ {
			u, err := vuserdict(vlines([]vword{word(string(rune(0x4E10+k)), k%2)}), g, l, u16)
			if err != nil {
				panic(err)
			}
			conf.UserDict = append(conf.UserDict, spoil(fmt.Sprint("user dictionary ", k), u))
		}
		c.Input(map[string]interface{}{"configuration": conf, "edits": len(ep), "inputs": len(ip), "providers": len(op), "paths": len(pp), "fails": bad, "steps": want})
		var d *JapaneseDictionary
		if p := vpanics(func() { d, err = NewJapaneseDictionary(conf, ip, op, pp, ep) }); p != nil {
			c.Failf("NewJapaneseDictionary panics: %v", p)
		}
		if bad != "" {
			if err == nil || d != nil {
				c.Failf("a dictionary is returned although this fails: %s", bad)
			}
			if none && len(events) > 0 {
				c.Failf("without a provider, plugins are set up: %v", events)
			}
			return
		}
		if err != nil {
			c.Failf("NewJapaneseDictionary: %v", err)
		}
		defer d.Close()
		sort.Strings(events)
		sort.Strings(want)
		if strings.Join(events, ", ") != strings.Join(want, ", ") {
			c.Failf("steps taken: %v, expected %v", events, want)
		}
		for i, p := range ep {
			if p.(*vedit27).gram != d.grammar {
				c.Failf("edit %d is given another grammar", i)
			}
		}
		for i, p := range op {
			if p.(*voov27).gram != d.grammar {
				c.Failf("provider %d is given another grammar", i)
			}
		}
		for i, p := range pp {
			if p.(*vpath27).gram != d.grammar {
				c.Failf("path plugin %d is given another grammar", i)
			}
		}
		if len(ep) > 0 && d.grammar.GetConnectCost(0, 0) != last || d.grammar.GetConnectCost(1, 0) != 1 || d.grammar.GetConnectCost(1, 1) != 3 {
			c.Failf("connection costs %d %d %d", d.grammar.GetConnectCost(0, 0), d.grammar.GetConnectCost(1, 0), d.grammar.GetConnectCost(1, 1))
		}
		cat := dictionary.NewCharacterCategory()
		if conf.CharacterDefinitionFile == "" {
			b, err := os.ReadFile("data/root/char.def")
			if err == nil {
				chars = string(b)
			}
		}
		if err := cat.ReadCharacterDefinition(strings.NewReader(chars)); err != nil {
			panic(err)
		}
		for _, ch := range "東A一アα" {
			if chars != "" && cat.GetCategoryTypes(ch) != d.grammar.CharCategory.GetCategoryTypes(ch) {
				c.Failf("categories of %q: %x, defined %x", ch, d.grammar.CharCategory.GetCategoryTypes(ch), cat.GetCategoryTypes(ch))
			}
		}
		if int(d.lexicon.Size()) != 2+users {
			c.Failf("%d words", d.lexicon.Size())
		}
		for k := 0; k < users; k++ {
			id := int32(uint32(k+1) << 28)
			if s := d.lexicon.GetWordInfo(id).Surface; s != string(rune(0x4E10+k)) {
				c.Failf("user dictionary %d holds %q", k, s)
			}
		}
		tok := d.Create()
		if tok.grammar != d.grammar || tok.lexicon != d.lexicon || len(tok.inputTextPlugins) != len(ip) || len(tok.oovProviderPlugins) != len(op) || len(tok.pathRewritePlugins) != len(pp) {
			c.Failf("the tokenizer has other parts")
		}
		for i := range ip {
			if tok.inputTextPlugins[i] != ip[i] {
				c.Failf("input plugin %d is another one", i)
			}
		}
		for i := range op {
			if tok.oovProviderPlugins[i] != op[i] || tok.defaultOovProvider != op[0] {
				c.Failf("provider %d is another one", i)
			}
		}
		for i := range pp {
			if tok.pathRewritePlugins[i] != pp[i] {
				c.Failf("path plugin %d is another one", i)
			}
		}
	})
}

var vpos27 = [][6]string{
	{"名詞", "普通", "*", "*", "*", "*"},
	{"動詞", "*", "*", "*", "五段", "終止形"},
	{"記号", "*", "*", "*", "*", "*"},
}
