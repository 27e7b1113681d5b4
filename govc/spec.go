package main

// Contract language: lexer, AST and parser.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type tok struct {
	kind string // id, int, str, op, eof
	s    string
	line int
}

type lexer struct {
	toks []tok
	pos  int
	file string
}

var multiOps = []string{"<==>", "==>", "...", "&&", "||", "==", "!=", "<=", ">=", "++", "::", "..", ":="}

func lex(file, src string) *lexer {
	var toks []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			toks = append(toks, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			toks = append(toks, tok{"int", fmt.Sprint(int(r)), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F' || src[j] == 'x') {
				j++
			}
			v, err := strconv.ParseUint(src[i:j], 0, 64)
			if err != nil {
				panic(fmt.Sprintf("%s:%d: %v", file, line, err))
			}
			toks = append(toks, tok{"int", fmt.Sprint(v), line})
			i = j
		default:
			r, _ := utf8.DecodeRuneInString(src[i:])
			if unicode.IsLetter(r) || r == '_' || r == '$' {
				j := i
				for j < len(src) {
					r, w := utf8.DecodeRuneInString(src[j:])
					if unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$' {
						j += w
					} else {
						break
					}
				}
				toks = append(toks, tok{"id", src[i:j], line})
				i = j
				continue
			}
			found := false
			for _, op := range multiOps {
				if strings.HasPrefix(src[i:], op) {
					toks = append(toks, tok{"op", op, line})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				toks = append(toks, tok{"op", string(c), line})
				i++
			}
		}
	}
	toks = append(toks, tok{"eof", "", line})
	return &lexer{toks: toks, file: file}
}

func (l *lexer) peek() tok    { return l.toks[l.pos] }
func (l *lexer) peekN(n int) tok {
	if l.pos+n < len(l.toks) {
		return l.toks[l.pos+n]
	}
	return l.toks[len(l.toks)-1]
}
func (l *lexer) next() tok { t := l.toks[l.pos]; l.pos++; return t }
func (l *lexer) fail(msg string) {
	t := l.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", l.file, t.line, msg, t.s))
}
func (l *lexer) is(s string) bool { t := l.peek(); return t.kind != "str" && t.s == s && t.kind != "eof" }
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.pos++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected " + s)
	}
}
func (l *lexer) ident() string {
	t := l.next()
	if t.kind != "id" {
		l.pos--
		l.fail("identifier expected")
	}
	return t.s
}

// ---------------------------------------------------------------- AST

type Expr struct {
	Op   string // int bool id str nil field index slice call unary binary quant ite let deref
	S    string
	A    []*Expr
	Vars []SVar
	Trig [][]*Expr
	Line int
	File string
}

type SType struct {
	K    string // int bool string name ptr slice seq map array
	Name string
	Elem *SType
	Key  *SType
	N    int
}

type SVar struct {
	Name string
	T    *SType
}

func (l *lexer) parseType() *SType {
	switch {
	case l.accept("*"):
		return &SType{K: "ptr", Elem: l.parseType()}
	case l.accept("["):
		if l.accept("]") {
			return &SType{K: "slice", Elem: l.parseType()}
		}
		n, _ := strconv.Atoi(l.next().s)
		l.expect("]")
		return &SType{K: "array", N: n, Elem: l.parseType()}
	case l.is("seq"):
		l.next()
		l.expect("[")
		e := l.parseType()
		l.expect("]")
		return &SType{K: "seq", Elem: e}
	case l.is("map"):
		l.next()
		l.expect("[")
		k := l.parseType()
		l.expect("]")
		return &SType{K: "map", Key: k, Elem: l.parseType()}
	}
	n := l.ident()
	if l.is(".") {
		l.next()
		n = n + "." + l.ident()
	}
	return &SType{K: "name", Name: n}
}

func (l *lexer) mk(op, s string, a ...*Expr) *Expr {
	return &Expr{Op: op, S: s, A: a, Line: l.peek().line, File: l.file}
}

func (l *lexer) parseExpr() *Expr { return l.parseIff() }

func (l *lexer) parseIff() *Expr {
	e := l.parseImp()
	for l.accept("<==>") {
		e = l.mk("binary", "<==>", e, l.parseImp())
	}
	return e
}
func (l *lexer) parseImp() *Expr {
	e := l.parseCond()
	if l.accept("==>") {
		return l.mk("binary", "==>", e, l.parseImp())
	}
	return e
}
func (l *lexer) parseCond() *Expr {
	e := l.parseOr()
	if l.accept("?") {
		a := l.parseCond()
		l.expect(":")
		b := l.parseCond()
		return l.mk("ite", "", e, a, b)
	}
	return e
}
func (l *lexer) parseOr() *Expr {
	e := l.parseAnd()
	for l.accept("||") {
		e = l.mk("binary", "||", e, l.parseAnd())
	}
	return e
}
func (l *lexer) parseAnd() *Expr {
	e := l.parseCmp()
	for l.accept("&&") {
		e = l.mk("binary", "&&", e, l.parseCmp())
	}
	return e
}

func (l *lexer) parseCmp() *Expr {
	e := l.parseAdd()
	var res *Expr
	for {
		t := l.peek()
		if t.kind == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") || t.kind == "id" && (t.s == "in") {
			l.next()
			r := l.parseAdd()
			c := l.mk("binary", t.s, e, r)
			if res == nil {
				res = c
			} else {
				res = l.mk("binary", "&&", res, c)
			}
			e = r
			continue
		}
		break
	}
	if res == nil {
		return e
	}
	return res
}
func (l *lexer) parseAdd() *Expr {
	e := l.parseMul()
	for {
		t := l.peek()
		if t.kind == "op" && (t.s == "+" || t.s == "-" || t.s == "++") {
			l.next()
			e = l.mk("binary", t.s, e, l.parseMul())
			continue
		}
		return e
	}
}
func (l *lexer) parseMul() *Expr {
	e := l.parseUnary()
	for {
		t := l.peek()
		if t.kind == "op" && (t.s == "*" || t.s == "/" || t.s == "%") {
			l.next()
			e = l.mk("binary", t.s, e, l.parseUnary())
			continue
		}
		return e
	}
}
func (l *lexer) parseUnary() *Expr {
	switch {
	case l.accept("!"):
		return l.mk("unary", "!", l.parseUnary())
	case l.accept("-"):
		return l.mk("unary", "-", l.parseUnary())
	case l.accept("*"):
		return l.mk("deref", "", l.parseUnary())
	}
	return l.parsePostfix()
}
func (l *lexer) parseVars() []SVar {
	var vs []SVar
	for {
		var names []string
		names = append(names, l.ident())
		for l.is(",") && l.peekN(1).kind == "id" {
			// name list sharing a type:  i, j int
			save := l.pos
			l.next()
			n := l.ident()
			if l.is(",") || l.peek().kind == "id" || l.is("*") || l.is("[") {
				names = append(names, n)
				continue
			}
			l.pos = save
			break
		}
		t := l.parseType()
		for _, n := range names {
			vs = append(vs, SVar{n, t})
		}
		if !l.accept(",") {
			return vs
		}
	}
}
func (l *lexer) parsePostfix() *Expr {
	e := l.parsePrimary()
	for {
		switch {
		case l.is("."):
			l.next()
			if l.accept("*") {
				e = l.mk("field", "*", e)
				continue
			}
			e = l.mk("field", l.ident(), e)
		case l.is("["):
			l.next()
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.parseExpr()
				}
				l.expect("]")
				e = l.mk("slice", "", e, nil, hi)
				continue
			}
			i := l.parseExpr()
			if l.accept(":") {
				var hi *Expr
				if !l.is("]") {
					hi = l.parseExpr()
				}
				l.expect("]")
				e = l.mk("slice", "", e, i, hi)
				continue
			}
			l.expect("]")
			e = l.mk("index", "", e, i)
		case l.is("(") && (e.Op == "id" || e.Op == "field" && e.A[0].Op == "id"):
			l.next()
			var args []*Expr
			for !l.is(")") {
				args = append(args, l.parseExpr())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			name := e.S
			if e.Op == "field" {
				name = e.A[0].S + "." + e.S
			}
			e = l.mk("call", name, args...)
		default:
			return e
		}
	}
}
func (l *lexer) parsePrimary() *Expr {
	t := l.peek()
	switch t.kind {
	case "int":
		l.next()
		return l.mk("int", t.s)
	case "str":
		l.next()
		return l.mk("str", t.s)
	case "id":
		switch t.s {
		case "true", "false":
			l.next()
			return l.mk("bool", t.s)
		case "nil":
			l.next()
			return l.mk("nil", "")
		case "forall", "exists":
			l.next()
			e := l.mk("quant", t.s)
			e.Vars = l.parseVars()
			for l.is("{") {
				l.next()
				var tr []*Expr
				for !l.is("}") {
					tr = append(tr, l.parseExpr())
					if !l.accept(",") {
						break
					}
				}
				l.expect("}")
				e.Trig = append(e.Trig, tr)
			}
			l.expect("::")
			e.A = []*Expr{l.parseExpr()}
			return e
		case "let":
			l.next()
			n := l.ident()
			l.expect(":=")
			v := l.parseExpr()
			if !l.accept("in") {
				l.expect("::")
			}
			b := l.parseExpr()
			e := l.mk("let", n, v, b)
			return e
		}
		l.next()
		return l.mk("id", t.s)
	case "op":
		if t.s == "(" {
			l.next()
			e := l.parseExpr()
			l.expect(")")
			return e
		}
		if t.s == "[" { // seq literal [a, b, c]
			l.next()
			e := l.mk("seqlit", "")
			for !l.is("]") {
				e.A = append(e.A, l.parseExpr())
				if !l.accept(",") {
					break
				}
			}
			l.expect("]")
			return e
		}
	}
	l.fail("expression expected")
	return nil
}

// ---------------------------------------------------------------- declarations

type Clause struct {
	Label string
	E     *Expr
	Line  int
	Props []string
}

type ModEntry struct {
	E     *Expr  // location expression
	Vars  []SVar // for vars : cond
	Cond  *Expr
	All   bool // all T.f
	Comp  string
	Every bool // modifies *
}

type LoopSpec struct {
	Inv   []Clause
	Dec   *Expr
	Line  int
	Name  string
	Frame []ModEntry
	HasFrame bool
}

type Stmt struct {
	Tgt  *Expr // ghost assignment
	Kind string // use assert if let
	E    *Expr
	Name string
	Args []*Expr
	Then []Stmt
	Else []Stmt
	Line int
	Label string
	Old  bool // the lemma is applied in the function's entry heap
	Vars []SVar
	Trig [][]*Expr
}

type AtSpec struct {
	Anchor string // entry, return, call, loop
	Name   string // callee
	N      int    // ordinal (0 = all)
	When   string // before after begin end
	Body   []Stmt
}

type Contract struct {
	Pkg      string
	Key      string // Func or (*T).M / T.M
	Params   []string
	Results  []string
	Extern   bool
	Trusted  bool
	Req      []Clause
	Ens      []Clause
	Mod      []ModEntry
	HasMod   bool
	Loops    []*LoopSpec
	Ats      []AtSpec
	Props    []string
	NoSafety map[string]bool
	Dec      *Expr
	Inline   bool
	BV       bool
	Line     int
	File     string
	Timeout  int
	Opaque   bool
	Pure     bool
	Uses     []string
	Fuel     int
	MaxPaths int
	Merge    int
	Dispatch []string
	Havocs   bool
	Hide     map[string]bool
}

type SpecFn struct {
	Pkg    string
	Name   string
	Params []SVar
	Ret    *SType
	Body   *Expr
	Rec    bool
	Dec    *Expr
	Line   int
	File   string
	BV     bool
}

type Lemma struct {
	Pkg    string
	Name   string
	Params []SVar
	Req    []Clause
	Ens    []Clause
	Dec    *Expr
	Body   []Stmt
	Axiom  bool
	BV     bool
	Auto   bool // available as quantified axiom everywhere (with trigger)
	Trig   [][]*Expr
	Line   int
	File   string
	Fuel   int
	Note   string
	Props  []string
	Hide   map[string]bool
}

type GhostField struct {
	Pkg, Type, Field string
	T                *SType
}

type SpecFile struct {
	Contracts []*Contract
	Ghosts    []*GhostField
	Fns       []*SpecFn
	Lemmas    []*Lemma
}

func addHide(m map[string]bool, ns []string) map[string]bool {
	if m == nil {
		m = map[string]bool{}
	}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

func parseProps(l *lexer) []string {
	var ps []string
	for {
		ps = append(ps, l.ident())
		if !l.accept(",") {
			return ps
		}
	}
}

func (l *lexer) label() string {
	if l.is("[") {
		l.next()
		s := ""
		for !l.is("]") {
			t := l.next().s
			if s != "" && t != "," {
				s += " "
			}
			s += t
		}
		l.expect("]")
		return s
	}
	return ""
}

func (l *lexer) parseStmts() []Stmt {
	l.expect("{")
	var ss []Stmt
	for !l.accept("}") {
		ln := l.peek().line
		switch {
		case l.accept("use"):
			old := l.accept("old")
			var vs []SVar
			var trs [][]*Expr
			if l.accept("forall") {
				vs = l.parseVars()
				for l.accept("{") {
					var tr []*Expr
					for !l.is("}") {
						tr = append(tr, l.parseExpr())
						if !l.accept(",") {
							break
						}
					}
					l.expect("}")
					trs = append(trs, tr)
				}
				l.expect("::")
			}
			n := l.ident()
			l.expect("(")
			var args []*Expr
			for !l.is(")") {
				args = append(args, l.parseExpr())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			ss = append(ss, Stmt{Kind: "use", Name: n, Args: args, Line: ln, Old: old, Vars: vs, Trig: trs})
		case l.accept("assert"):
			lb := l.label()
			ss = append(ss, Stmt{Kind: "assert", E: l.parseExpr(), Line: ln, Label: lb})
		case l.accept("assume"):
			lb := l.label()
			ss = append(ss, Stmt{Kind: "assume", E: l.parseExpr(), Line: ln, Label: lb})
		case l.accept("letv"):
			n := l.ident()
			l.expect(":=")
			ss = append(ss, Stmt{Kind: "let", Name: n, E: l.parseExpr(), Line: ln})
		case l.accept("ghost"):
			t := l.parseExpr()
			l.expect(":=")
			ss = append(ss, Stmt{Kind: "ghost", Tgt: t, E: l.parseExpr(), Line: ln})
		case l.accept("snap"):
			ss = append(ss, Stmt{Kind: "snap", Name: l.ident(), Line: ln})
		case l.accept("if"):
			c := l.parseExpr()
			th := l.parseStmts()
			var el []Stmt
			if l.accept("else") {
				el = l.parseStmts()
			}
			ss = append(ss, Stmt{Kind: "if", E: c, Then: th, Else: el, Line: ln})
		case l.accept("forall"):
			l.pos--
			// forall x T :: use lemma(..)
			l.next()
			vs := l.parseVars()
			l.expect("::")
			_ = vs
			l.fail("forall statement unsupported")
		case l.accept(";"):
		default:
			l.fail("statement expected")
		}
	}
	return ss
}

func (l *lexer) parseMods() (es []ModEntry) {
	for {
		if l.accept("nothing") {
			return
		}
		if l.accept("everything") {
			es = append(es, ModEntry{Every: true})
		} else if l.accept("all") {
			n := l.ident()
			for l.accept(".") {
				n += "." + l.ident()
			}
			es = append(es, ModEntry{All: true, Comp: n})
		} else {
			m := ModEntry{E: l.parseExpr()}
			if l.accept("for") {
				m.Vars = l.parseVars()
				l.expect(":")
				m.Cond = l.parseExpr()
			}
			es = append(es, m)
		}
		if !l.accept(",") {
			return
		}
	}
}

func parseSpecFile(file string) *SpecFile {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	l := lex(file, string(b))
	sf := &SpecFile{}
	pkg := ""
	var curProps []string
	for l.peek().kind != "eof" {
		ln := l.peek().line
		switch {
		case l.accept("package"):
			t := l.next()
			pkg = t.s
			if l.accept("/") {
				pkg += "/" + l.ident()
			}
		case l.accept("ghostfield"):
			g := &GhostField{Pkg: pkg, Type: l.ident()}
			for l.accept(".") {
				if g.Field != "" {
					g.Type += "." + g.Field
				}
				g.Field = l.ident()
			}
			g.T = l.parseType()
			sf.Ghosts = append(sf.Ghosts, g)
		case l.accept("properties"):
			curProps = parseProps(l)
		case l.is("axiom") || l.is("lemma"):
			lm := &Lemma{Pkg: pkg, Axiom: l.next().s == "axiom", Line: ln, File: file}
			lm.Name = l.ident()
			l.expect("(")
			if !l.is(")") {
				lm.Params = l.parseVars()
			}
			l.expect(")")
			for {
				if l.accept("requires") {
					lm.Req = append(lm.Req, Clause{l.label(), l.parseExpr(), ln, nil})
				} else if l.accept("ensures") {
					lm.Ens = append(lm.Ens, Clause{l.label(), l.parseExpr(), ln, nil})
				} else if l.accept("decreases") {
					lm.Dec = l.parseExpr()
				} else if l.accept("auto") {
					lm.Auto = true
					for l.is("{") {
						l.next()
						var tr []*Expr
						for !l.is("}") {
							tr = append(tr, l.parseExpr())
							if !l.accept(",") {
								break
							}
						}
						l.expect("}")
						lm.Trig = append(lm.Trig, tr)
					}
				} else if l.accept("bv") {
					lm.BV = true
				} else if l.accept("property") {
					lm.Props = parseProps(l)
				} else if l.accept("fuel") {
					lm.Fuel, _ = strconv.Atoi(l.next().s)
				} else if l.accept("hide") {
					lm.Hide = addHide(lm.Hide, parseProps(l))
				} else if l.accept("note") {
					lm.Note = l.next().s
				} else if l.accept("proof") {
					lm.Body = l.parseStmts()
					break
				} else {
					break
				}
			}
			if lm.BV {
				bvRanges(lm)
			}
			sf.Lemmas = append(sf.Lemmas, lm)
		case l.accept("spec"):
			f := &SpecFn{Pkg: pkg, Line: ln, File: file}
			for {
				if l.accept("rec") {
					f.Rec = true
				} else if l.accept("bv") {
					f.BV = true
				} else {
					break
				}
			}
			l.expect("func")
			f.Name = l.ident()
			l.expect("(")
			if !l.is(")") {
				f.Params = l.parseVars()
			}
			l.expect(")")
			f.Ret = l.parseType()
			if l.accept("decreases") {
				f.Dec = l.parseExpr()
			}
			if l.accept("=") {
				f.Body = l.parseExpr()
			}
			sf.Fns = append(sf.Fns, f)
		case l.is("func") || l.is("extern") || l.is("trusted") || l.is("dynamic"):
			c := &Contract{Pkg: pkg, Line: ln, File: file, Props: append([]string{}, curProps...), NoSafety: map[string]bool{}}
			if l.accept("extern") {
				c.Extern = true
			} else if l.accept("trusted") {
				c.Trusted = true
			} else if l.accept("dynamic") {
				c.Extern = true
			}
			l.expect("func")
			key := ""
			if c.Extern {
				t := l.next()
				if t.kind != "str" {
					panic(fmt.Sprintf("%s:%d: extern func wants a quoted key", file, ln))
				}
				key = t.s
			} else if l.is("(") {
				l.next()
				rn := l.ident()
				star := l.accept("*")
				tn := l.ident()
				l.expect(")")
				l.expect(".")
				m := l.ident()
				if star {
					key = "(*" + tn + ")." + m
				} else {
					key = "(" + tn + ")." + m
				}
				c.Params = append(c.Params, rn)
			} else {
				key = l.ident()
				for l.accept("$") {
					key += "$" + l.next().s
				}
			}
			c.Key = key
			l.expect("(")
			for !l.is(")") {
				c.Params = append(c.Params, l.ident())
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			if l.accept("(") {
				for !l.is(")") {
					c.Results = append(c.Results, l.ident())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			var cur *LoopSpec
		clauses:
			for {
				ln := l.peek().line
				switch {
				case l.accept("requires"):
					c.Req = append(c.Req, Clause{l.label(), l.parseExpr(), ln, nil})
				case l.accept("ensures"):
					c.Ens = append(c.Ens, Clause{l.label(), l.parseExpr(), ln, nil})
				case l.accept("modifies"):
					if cur != nil {
						cur.HasFrame = true
						cur.Frame = append(cur.Frame, l.parseMods()...)
					} else {
						c.HasMod = true
						c.Mod = append(c.Mod, l.parseMods()...)
					}
				case l.accept("property"):
					c.Props = parseProps(l)
				case l.accept("nosafety"):
					for {
						c.NoSafety[l.ident()] = true
						if !l.accept(",") {
							break
						}
					}
				case l.accept("inline"):
					c.Inline = true
				case l.accept("opaque"):
					c.Opaque = true
				case l.accept("bv"):
					c.BV = true
				case l.accept("merge"):
					c.Merge = 1
				case l.accept("nomerge"):
					c.Merge = 1000000
				case l.accept("dispatch"):
					// the function value called is one of these functions
					for {
						c.Dispatch = append(c.Dispatch, pkg+"."+l.ident())
						if !l.accept(",") {
							break
						}
					}
				case l.accept("fuel"):
					c.Fuel, _ = strconv.Atoi(l.next().s)
				case l.accept("hide"):
					c.Hide = addHide(c.Hide, parseProps(l))
				case l.accept("maxpaths"):
					c.MaxPaths, _ = strconv.Atoi(l.next().s)
				case l.accept("timeout"):
					c.Timeout, _ = strconv.Atoi(l.next().s)
				case l.accept("loop"):
					cur = &LoopSpec{Line: ln}
					if l.peek().kind == "int" {
						l.next()
					}
					l.accept(":")
					c.Loops = append(c.Loops, cur)
				case l.accept("invariant"):
					if cur == nil {
						l.fail("invariant outside loop")
					}
					cur.Inv = append(cur.Inv, Clause{l.label(), l.parseExpr(), ln, nil})
				case l.accept("decreases"):
					if cur == nil {
						c.Dec = l.parseExpr()
					} else {
						cur.Dec = l.parseExpr()
					}
				case l.accept("at"):
					a := AtSpec{}
					a.Anchor = l.ident()
					switch a.Anchor {
					case "call":
						a.Name = l.ident()
						if l.peek().kind == "int" {
							a.N, _ = strconv.Atoi(l.next().s)
						}
						a.When = l.ident()
					case "loop":
						a.N, _ = strconv.Atoi(l.next().s)
						a.When = l.ident()
					}
					a.Body = l.parseStmts()
					c.Ats = append(c.Ats, a)
				default:
					break clauses
				}
			}
			sf.Contracts = append(sf.Contracts, c)
		default:
			l.fail("declaration expected")
		}
	}
	return sf
}
