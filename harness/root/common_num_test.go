package gosudachi

import (
	"math/big"
	"strings"
)

var vnumDigits = map[rune]int{'0': 0, '1': 1, '2': 2, '3': 3, '4': 4, '5': 5, '6': 6, '7': 7, '8': 8, '9': 9,
	'〇': 0, '一': 1, '二': 2, '三': 3, '四': 4, '五': 5, '六': 6, '七': 7, '八': 8, '九': 9}
var vnumUnits = map[rune]int{'十': 1, '百': 2, '千': 3, '万': 4, '億': 8, '兆': 12}

// vnumSeg reads a run of digits, commas and points: its digits and how many of them are behind the point.
func vnumSeg(s []rune) (digits []int, frac int, ok bool) {
	if len(s) == 0 {
		return nil, 0, true
	}
	str := string(s)
	ip := str
	fp := ""
	if i := strings.IndexByte(str, '.'); i >= 0 {
		ip, fp = str[:i], str[i+1:]
		if fp == "" || strings.ContainsAny(fp, ".,") {
			return nil, 0, false
		}
	}
	if ip == "" {
		return nil, 0, false
	}
	gs := strings.Split(ip, ",")
	if len(gs) > 1 {
		for i, g := range gs {
			n := len([]rune(g))
			if i == 0 {
				if n < 1 || n > 3 {
					return nil, 0, false
				}
				zero := true
				for _, c := range g {
					if vnumDigits[c] != 0 {
						zero = false
					}
				}
				if zero {
					return nil, 0, false
				}
			} else if n != 3 {
				return nil, 0, false
			}
		}
	}
	for _, c := range strings.Join(gs, "") + fp {
		d, isd := vnumDigits[c]
		if !isd {
			return nil, 0, false
		}
		digits = append(digits, d)
	}
	return digits, len([]rune(fp)), true
}

// vnumber is digits times ten to the e.
type vnumber struct {
	d []int
	e int
}

// vnumAdd appends b where a has only zeros.
func vnumAdd(a, b vnumber) (vnumber, bool) {
	if len(b.d) == 0 {
		return a, true
	}
	if len(a.d) == 0 {
		return b, true
	}
	l := len(b.d) + b.e
	if a.e < l {
		return a, false
	}
	d := append([]int{}, a.d...)
	for i := 0; i < a.e-l; i++ {
		d = append(d, 0)
	}
	return vnumber{append(d, b.d...), b.e}, true
}

func (a vnumber) rat() *big.Rat {
	v := new(big.Int)
	for _, d := range a.d {
		v.Mul(v, big.NewInt(10))
		v.Add(v, big.NewInt(int64(d)))
	}
	r := new(big.Rat).SetInt(v)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(vabs(a.e))), nil)
	if a.e >= 0 {
		return r.Mul(r, new(big.Rat).SetInt(p))
	}
	return r.Quo(r, new(big.Rat).SetInt(p))
}

func vabs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// vnumRead is the reference: the number a numeral denotes (as the sum of its parts), and whether it is well formed.
func vnumRead(s []rune) (*big.Rat, bool) {
	var total, sub vnumber
	sum := new(big.Rat)
	grp := new(big.Rat)
	begin := 0
	for i := 0; i <= len(s); i++ {
		u, isU := 0, false
		if i < len(s) {
			u, isU = vnumUnits[s[i]]
			if !isU {
				continue
			}
		}
		ds, frac, ok := vnumSeg(s[begin:i])
		if !ok {
			return nil, false
		}
		part := vnumber{ds, -frac}
		begin = i + 1
		if isU && u < 4 {
			if len(ds) == 0 {
				part = vnumber{[]int{1}, 0}
			}
			part.e += u
		}
		if sub, ok = vnumAdd(sub, part); !ok {
			return nil, false
		}
		grp.Add(grp, part.rat())
		if isU && u < 4 {
			continue
		}
		if isU {
			if len(sub.d) == 0 {
				return nil, false
			}
			sub.e += u
			grp.Mul(grp, vnumber{[]int{1}, u}.rat())
		}
		if total, ok = vnumAdd(total, sub); !ok {
			return nil, false
		}
		sum.Add(sum, grp)
		sub = vnumber{}
		grp = new(big.Rat)
	}
	return sum, true
}

// vnumDenotes says whether the normalised form is a plain notation of v.
func vnumDenotes(s string, v *big.Rat) bool {
	if s == "" {
		return false
	}
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
		if fp == "" || fp[len(fp)-1] == '0' {
			return false
		}
	}
	if ip == "" {
		return false
	}
	for _, c := range ip + fp {
		if c < '0' || c > '9' {
			return false
		}
	}
	r, ok := new(big.Rat).SetString(s)
	return ok && r.Cmp(v) == 0
}

func vnumGen(r *vrng) []rune {
	var out []rune
	dig := func() rune {
		if r.p(70) {
			return rune('0' + r.n(10))
		}
		return []rune("〇一二三四五六七八九")[r.n(10)]
	}
	switch r.n(6) {
	case 0: // anything
		al := []rune("0123一二〇十百千万億兆.,,.")
		for k := r.n(9); k > 0; k-- {
			out = append(out, al[r.n(len(al))])
		}
		return out
	case 1: // anything, mostly digits
		al := []rune("012〇一0000.,千万")
		for k := r.n(14); k > 0; k-- {
			out = append(out, al[r.n(len(al))])
		}
		return out
	}
	seg := func(max int) {
		n := r.rng(1, max)
		if r.p(25) {
			for k := r.rng(1, 3); k > 0; k-- {
				out = append(out, dig())
			}
			for g := r.n(3); g > 0; g-- {
				out = append(out, ',', dig(), dig(), dig())
			}
		} else {
			for ; n > 0; n-- {
				out = append(out, dig())
			}
		}
		if r.p(20) {
			out = append(out, '.')
			for k := r.rng(1, 5); k > 0; k-- {
				if r.p(30) {
					out = append(out, '0')
				} else {
					out = append(out, dig())
				}
			}
		}
	}
	large := []rune("兆億万")
	small := []rune("千百十")
	group := func() {
		any := false
		for _, u := range small {
			if r.p(35) {
				if r.p(50) {
					seg(1)
				}
				out = append(out, u)
				any = true
			}
		}
		if !any || r.p(40) {
			seg(4)
		}
	}
	for _, u := range large {
		if r.p(35) {
			group()
			out = append(out, u)
		}
	}
	if len(out) == 0 || r.p(60) {
		group()
	}
	if r.p(25) && len(out) > 0 { // one edit
		i := r.n(len(out))
		al := []rune("0一十百千万億兆.,")
		switch r.n(3) {
		case 0:
			out[i] = al[r.n(len(al))]
		case 1:
			out = append(out[:i], append([]rune{al[r.n(len(al))]}, out[i:]...)...)
		default:
			out = append(out[:i], out[i+1:]...)
		}
	}
	return out
}

func vnumParse(p *numericParser, s []rune) (string, bool) {
	for _, ch := range s {
		if !p.append(ch) {
			return "", false
		}
	}
	if !p.done() {
		return "", false
	}
	return p.getNormalized(), true
}
