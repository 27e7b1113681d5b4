package main

import "strings"

// Quantified formulas over slice elements address memory at (+ off i).  E-matching cannot see through the
// addition, so the bound index i is replaced by the absolute address j (i = j - off): a bijective change of the
// bound variable, which leaves the meaning as it is and makes (select M j) the trigger.

func hasSym(s, n string) bool {
	for {
		i := strings.Index(s, n)
		if i < 0 {
			return false
		}
		e := i + len(n)
		lok := i == 0 || s[i-1] == ' ' || s[i-1] == '('
		rok := e == len(s) || s[e] == ' ' || s[e] == ')'
		if lok && rok {
			return true
		}
		s = s[e:]
	}
}

func replSym(s, n, by string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, n)
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		e := i + len(n)
		lok := i == 0 || s[i-1] == ' ' || s[i-1] == '('
		rok := e == len(s) || s[e] == ' ' || s[e] == ')'
		b.WriteString(s[:i])
		if lok && rok {
			b.WriteString(by)
		} else {
			b.WriteString(n)
		}
		s = s[e:]
	}
}

// additive decomposes t into rest + sign*n (n occurring once, additively); ok is false otherwise.
func additive(t, n string) (rest string, ok bool) {
	if t == n {
		return "0", true
	}
	if !strings.HasPrefix(t, "(+ ") && !strings.HasPrefix(t, "(- ") {
		return "", false
	}
	ps := splitSexp(t[3 : len(t)-1])
	if t[1] == '-' {
		if len(ps) != 2 || hasSym(ps[1], n) {
			return "", false
		}
		r, ok := additive(ps[0], n)
		return sub(r, ps[1]), ok
	}
	rest = "0"
	found := false
	for _, p := range ps {
		if hasSym(p, n) {
			if found {
				return "", false
			}
			found = true
			r, ok := additive(p, n)
			if !ok {
				return "", false
			}
			rest = add(rest, r)
		} else {
			rest = add(rest, p)
		}
	}
	return rest, found
}

// findIndex finds in t an access (select A idx), (elemref A idx) or (X_at A idx) whose index is additively n plus
// something, with A free of n.
func findIndex(t, n string) (idx, rest string, ok bool) {
	if len(t) == 0 || t[0] != '(' || !hasSym(t, n) {
		return
	}
	ps := splitSexp(t[1 : len(t)-1])
	if len(ps) == 3 && (ps[0] == "select" || ps[0] == "elemref" || strings.HasSuffix(ps[0], "_at")) && !hasSym(ps[1], n) && hasSym(ps[2], n) {
		if r, o := additive(ps[2], n); o {
			return ps[2], r, true
		}
	}
	for _, p := range ps {
		if idx, rest, ok = findIndex(p, n); ok {
			return
		}
	}
	return
}

func wrapQuant(kind string, names, decls []string, body string, pats [][]string) string {
	rebase := func(body string, pat []string) (string, []string) {
		ns := append([]string{}, names...)
		pat = append([]string{}, pat...)
		for round := 0; round < 2; round++ {
			for k, n := range ns {
				if n == "" {
					continue
				}
				// the index must not depend on variables still to be replaced, or they are handled first
				src := strings.Join(pat, " ")
				if len(pat) == 0 {
					src = body
				}
				idx, rest, ok := "", "", false
				if len(pat) == 0 {
					idx, rest, ok = findIndex(body, n)
				} else {
					for _, p := range pat {
						if idx, rest, ok = findIndex(p, n); ok {
							break
						}
					}
				}
				_ = src
				if !ok {
					continue
				}
				ns[k] = ""
				if rest == "0" {
					continue
				}
				const mark = "\x01"
				f := func(s string) string {
					s = strings.ReplaceAll(s, idx, mark)
					s = replSym(s, n, sub(n, rest))
					return strings.ReplaceAll(s, mark, n)
				}
				body = f(body)
				for i := range pat {
					pat[i] = f(pat[i])
				}
			}
		}
		// patterns that still contain arithmetic on bound variables match nothing: drop them if the rest binds all
		var good []string
		for _, p := range pat {
			if !arithOnBound(p, names) {
				good = append(good, p)
			}
		}
		if len(good) < len(pat) && len(good) > 0 {
			all := strings.Join(good, " ")
			ok := true
			for _, n := range names {
				if !hasSym(all, n) {
					ok = false
				}
			}
			if ok {
				pat = good
			}
		}
		return body, pat
	}
	if len(pats) == 0 {
		b, _ := rebase(body, nil)
		return "(" + kind + " (" + strings.Join(decls, " ") + ") " + b + ")"
	}
	// triggers that need no change share one quantifier
	groups := map[string][][]string{}
	var order []string
	for _, p := range pats {
		b, np := rebase(body, p)
		if _, ok := groups[b]; !ok {
			order = append(order, b)
		}
		groups[b] = append(groups[b], np)
	}
	var out []string
	for _, b := range order {
		ps := ""
		for _, p := range groups[b] {
			ps += " :pattern (" + strings.Join(p, " ") + ")"
		}
		out = append(out, "("+kind+" ("+strings.Join(decls, " ")+") (! "+b+ps+"))")
	}
	if kind == "exists" {
		return or(out...)
	}
	return and(out...)
}

func arithOnBound(t string, names []string) bool {
	if len(t) == 0 || t[0] != '(' {
		return false
	}
	ps := splitSexp(t[1 : len(t)-1])
	if ps[0] == "+" || ps[0] == "-" {
		for _, n := range names {
			if hasSym(t, n) {
				return true
			}
		}
	}
	for _, p := range ps[1:] {
		if arithOnBound(p, names) {
			return true
		}
	}
	return false
}
