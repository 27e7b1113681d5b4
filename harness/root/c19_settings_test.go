package gosudachi

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
)

type vsetConf struct {
	A string
	B *int
	L []string
}
type vsetInput struct {
	InputTextPlugin
	name string
	conf vsetConf
}
type vsetOov struct {
	OovProviderPlugin
	name string
	conf vsetConf
}
type vsetPath struct {
	PathRewritePlugin
	name string
	conf vsetConf
}
type vsetEdit struct {
	EditConnectionCostPlugin
	name string
	conf vsetConf
}

func (p *vsetInput) GetConfigStruct() interface{} { return &p.conf }
func (p *vsetOov) GetConfigStruct() interface{}   { return &p.conf }
func (p *vsetPath) GetConfigStruct() interface{}  { return &p.conf }
func (p *vsetEdit) GetConfigStruct() interface{}  { return &p.conf }

// an entry of a plugin list and what must come of it
type vsetEntry struct {
	json, name string
	conf       vsetConf
	bad        bool
}

var vsetNames = []string{"p", "q", "日本", "com.x.P", "P q"}

func vsetKnown(n string) bool {
	for _, x := range vsetNames {
		if x == n {
			return true
		}
	}
	return false
}

func vsetMakeEntry(r *vrng) vsetEntry {
	var e vsetEntry
	if r.p(4) {
		return vsetEntry{json: vpickS(r, "3", `"p"`, "[]", "true"), bad: true}
	}
	m := map[string]interface{}{}
	if r.p(60) {
		m["class"] = vsetNames[r.n(len(vsetNames))]
		e.name = m["class"].(string)
	}
	if r.p(50) || e.name == "" && r.p(80) {
		m["name"] = vsetNames[r.n(len(vsetNames))]
		e.name = m["name"].(string)
	}
	if r.p(5) {
		m["name"] = "unknown"
		e.name = "unknown"
	}
	if r.p(50) {
		e.conf.A = vpickS(r, "x", "あ", "p/q")
		m["A"] = e.conf.A
	}
	if r.p(50) {
		b := r.n(5)
		e.conf.B = &b
		m["B"] = b
	}
	if r.p(30) {
		for k := r.n(3); k >= 0; k-- {
			e.conf.L = append(e.conf.L, fmt.Sprint(r.n(9)))
		}
		m["L"] = e.conf.L
	}
	if r.p(4) {
		m["A"] = 7
		e.bad = true
	}
	if !vsetKnown(e.name) {
		e.bad = true
	}
	b, _ := json.Marshal(m)
	e.json = string(b)
	return e
}

func vsetEq(a, b vsetConf) bool { return reflect.DeepEqual(a, b) }

func TestVerifC19Settings(t *testing.T) {
	vrun(t, "C19", "C19Settings", "1-4 settings documents after one another, each with any of the nine keys; plugin lists of 0-4 entries, some unknown or malformed", 60, 0, func(c *vcase) {
		r := c.R
		s := NewSettingsJSON()
		dir := ""
		var want BaseConfig
		lists := [4][]vsetEntry{}
		kinds := []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}
		var docs []string
		paths := func() string {
			return vpickS(r, "system.dic", "a/b.dic", "/abs/x.dic", "", "../up.def", "/y", "./z", "日本.dic")
		}
		res := func(p string) string {
			if p == "" || filepath.IsAbs(p) || dir == "" {
				return p
			}
			return filepath.Join(dir, p)
		}
		for k := r.rng(1, 4); k > 0; k-- {
			m := map[string]interface{}{}
			def := vpickS(r, "", "/def", "rel/def", "/def2")
			if r.p(40) {
				m["path"] = vpickS(r, "", "/base", "base/dir", "/base/../other")
				dir = m["path"].(string)
			} else if dir == "" {
				dir = def
			}
			if r.p(50) {
				p := paths()
				m["systemDict"] = p
				want.SystemDict = res(p)
			}
			if r.p(50) {
				p := paths()
				m["characterDefinitionFile"] = p
				want.CharacterDefinitionFile = res(p)
			}
			if r.p(40) {
				u := r.p(50)
				m["utf16String"] = u
				want.Utf16String = u
			}
			if r.p(50) {
				ud := []string{}
				for j := r.n(4); j > 0; j-- {
					p := paths()
					ud = append(ud, p)
					want.UserDict = append(want.UserDict, res(p))
				}
				m["userDict"] = ud
			}
			for i, kind := range kinds {
				if r.p(50) {
					lists[i] = nil
					raw := []json.RawMessage{}
					for j := r.n(5); j > 0; j-- {
						e := vsetMakeEntry(r)
						lists[i] = append(lists[i], e)
						raw = append(raw, json.RawMessage(e.json))
					}
					m[kind] = raw
				}
			}
			b, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			docs = append(docs, string(b))
			c.Input(struct {
				Docs []string
				Def  string
			}{docs, def})
			if r.p(3) { // not a document
				if NewSettingsJSON().ParseSettingsJSON(def, strings.NewReader(vpickS(r, "", "{", "[]", "{\"path\": 3}", string(b[:len(b)-1])))) == nil {
					c.Failf("a malformed document is accepted")
				}
			}
			if err := s.ParseSettingsJSON(def, strings.NewReader(string(b))); err != nil {
				c.Failf("ParseSettingsJSON: %v", err)
			}
			got := s.GetBaseConfig()
			if got.SystemDict != want.SystemDict || got.CharacterDefinitionFile != want.CharacterDefinitionFile || got.Utf16String != want.Utf16String || len(got.UserDict) != len(want.UserDict) || len(want.UserDict) > 0 && !reflect.DeepEqual(got.UserDict, want.UserDict) {
				c.Failf("configuration %+v, expected %+v", *got, want)
			}
		}
		for i := range kinds {
			var names []string
			var confs []vsetConf
			var made []string
			mk := func(n string) bool {
				made = append(made, n)
				return vsetKnown(n)
			}
			var err error
			switch i {
			case 0:
				var l []InputTextPlugin
				l, err = s.GetInputTextPluginArray(func(n string) InputTextPlugin {
					if mk(n) {
						return &vsetInput{name: n}
					}
					return nil
				})
				for _, p := range l {
					names, confs = append(names, p.(*vsetInput).name), append(confs, p.(*vsetInput).conf)
				}
			case 1:
				var l []OovProviderPlugin
				l, err = s.GetOovProviderPluginArray(func(n string) OovProviderPlugin {
					if mk(n) {
						return &vsetOov{name: n}
					}
					return nil
				})
				for _, p := range l {
					names, confs = append(names, p.(*vsetOov).name), append(confs, p.(*vsetOov).conf)
				}
			case 2:
				var l []PathRewritePlugin
				l, err = s.GetPathRewritePluginArray(func(n string) PathRewritePlugin {
					if mk(n) {
						return &vsetPath{name: n}
					}
					return nil
				})
				for _, p := range l {
					names, confs = append(names, p.(*vsetPath).name), append(confs, p.(*vsetPath).conf)
				}
			case 3:
				var l []EditConnectionCostPlugin
				l, err = s.GetEditConnectionCostPluginArray(func(n string) EditConnectionCostPlugin {
					if mk(n) {
						return &vsetEdit{name: n}
					}
					return nil
				})
				for _, p := range l {
					names, confs = append(names, p.(*vsetEdit).name), append(confs, p.(*vsetEdit).conf)
				}
			}
			bad := false
			for _, e := range lists[i] {
				bad = bad || e.bad
			}
			if bad {
				if err == nil {
					c.Failf("%s: a malformed or unknown entry is accepted", kinds[i])
				}
				continue
			}
			if err != nil {
				c.Failf("%s: %v", kinds[i], err)
			}
			if len(names) != len(lists[i]) {
				c.Failf("%s: %d plugins, expected %d", kinds[i], len(names), len(lists[i]))
			}
			for j, e := range lists[i] {
				if names[j] != e.name || !vsetEq(confs[j], e.conf) {
					c.Failf("%s: plugin %d is %q with %+v, expected %q with %+v", kinds[i], j, names[j], confs[j], e.name, e.conf)
				}
			}
		}
	})
}

func TestVerifC19Builtin(t *testing.T) {
	type kind struct {
		list, name string
	}
	kinds := []kind{{"inputTextPlugin", "DefaultInputTextPlugin"}, {"inputTextPlugin", "ProlongedSoundMarkInputTextPlugin"}, {"editConnectionCostPlugin", "InhibitConnectionPlugin"},
		{"oovProviderPlugin", "MeCabOovProviderPlugin"}, {"oovProviderPlugin", "SimpleOovProviderPlugin"}, {"pathRewritePlugin", "JoinNumericPlugin"}, {"pathRewritePlugin", "JoinKatakanaOovPlugin"}}
	vrun(t, "C19", "C19Builtin", "lists of 0-5 of the plugins that come with the program, by short or full name, and unknown names", 20, 0, func(c *vcase) {
		r := c.R
		s := NewSettingsJSON()
		m := map[string][]interface{}{}
		want := map[string][]string{}
		bad := map[string]bool{}
		for k := r.n(6); k > 0; k-- {
			x := kinds[r.n(len(kinds))]
			n := x.name
			if r.p(50) {
				n = "com.worksap.nlp.sudachi." + n
			}
			if r.p(4) {
				n = vpickS(r, "x", "", "com.worksap.nlp.sudachi", "sudachi."+x.name, strings.ToLower(n), x.name+" ")
				bad[x.list] = true
			}
			m[x.list] = append(m[x.list], map[string]interface{}{vpickS(r, "class", "name"): n})
			want[x.list] = append(want[x.list], x.name)
		}
		b, _ := json.Marshal(m)
		c.Input(string(b))
		if err := s.ParseSettingsJSON("", strings.NewReader(string(b))); err != nil {
			c.Failf("ParseSettingsJSON: %v", err)
		}
		check := func(list string, ps []interface{}, err error) {
			if bad[list] {
				if err == nil {
					c.Failf("%s: an unknown plugin is accepted", list)
				}
				return
			}
			if err != nil {
				c.Failf("%s: %v", list, err)
			}
			if len(ps) != len(want[list]) {
				c.Failf("%s: %d plugins", list, len(ps))
			}
			for i, p := range ps {
				if x := fmt.Sprintf("%T", p); x != "*gosudachi."+want[list][i] {
					c.Failf("%s: plugin %d is a %s, expected %s", list, i, x, want[list][i])
				}
				for j := 0; j < i; j++ {
					if ps[i] == ps[j] {
						c.Failf("%s: plugins %d and %d are one", list, i, j)
					}
				}
			}
		}
		var ps []interface{}
		l1, err := s.GetInputTextPluginArray(DefMakeInputTextPlugin)
		for _, p := range l1 {
			ps = append(ps, p)
		}
		check("inputTextPlugin", ps, err)
		ps = nil
		l2, err := s.GetOovProviderPluginArray(DefMakeOovProviderPlugin)
		for _, p := range l2 {
			ps = append(ps, p)
		}
		check("oovProviderPlugin", ps, err)
		ps = nil
		l3, err := s.GetPathRewritePluginArray(DefMakePathRewritePlugin)
		for _, p := range l3 {
			ps = append(ps, p)
		}
		check("pathRewritePlugin", ps, err)
		ps = nil
		l4, err := s.GetEditConnectionCostPluginArray(DefMakeEditConnectionCostPlugin)
		for _, p := range l4 {
			ps = append(ps, p)
		}
		check("editConnectionCostPlugin", ps, err)
	})
}
