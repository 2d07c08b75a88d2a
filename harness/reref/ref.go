// Package reref defines what it means for a regular expression to match a text of bytes, position
// by position, without running an automaton. Characters are matched by well-formed UTF-8 only, and
// nothing consumes a newline. The definition does not branch on the text, so that it is one term.
package reref

import (
	"regexp/syntax"
	"unicode"

	"github.com/hound-search/hound/verifh/verifrt"
)

type key struct {
	re *syntax.Regexp
	i  int
}

// M matches expressions against one text.
type M struct {
	t          []byte
	begin, end bool // the text begins and ends at its first and last byte
	memo       map[key][]bool
}

func New(t []byte, begin, end bool) *M {
	return &M{t: t, begin: begin, end: end, memo: map[key][]bool{}}
}

func Parse(p string) (*syntax.Regexp, bool) {
	re, err := syntax.Parse(p, syntax.Perl)
	return re, err == nil
}

// Ends says for every position j whether re matches from i to j.
func (m *M) Ends(re *syntax.Regexp, i int) []bool {
	k := key{re, i}
	if v, ok := m.memo[k]; ok {
		return v
	}
	v := m.ends(re, i)
	m.memo[k] = v
	return v
}

// Match says whether re matches somewhere in the text.
func (m *M) Match(re *syntax.Regexp) bool {
	r := false
	for i := 0; i <= len(m.t); i++ {
		for _, x := range m.Ends(re, i)[i:] {
			r = verifrt.Or(r, x)
		}
	}
	return r
}

// MatchFrom says whether re matches from i to anywhere.
func (m *M) MatchFrom(re *syntax.Regexp, i int) bool {
	r := false
	for _, x := range m.Ends(re, i)[i:] {
		r = verifrt.Or(r, x)
	}
	return r
}

func (m *M) one(i int, b bool) []bool {
	v := make([]bool, len(m.t)+1)
	v[i] = b
	return v
}

func (m *M) then(cur []bool, re *syntax.Regexp) []bool {
	v := make([]bool, len(cur))
	for i, c := range cur {
		if verifrt.IsConcrete(c) && !c {
			continue
		}
		for j, x := range m.Ends(re, i) {
			v[j] = verifrt.Or(v[j], verifrt.And(c, x))
		}
	}
	return v
}

func or(a, b []bool) []bool {
	v := make([]bool, len(a))
	for i := range a {
		v[i] = verifrt.Or(a[i], b[i])
	}
	return v
}

func (m *M) star(cur []bool, re *syntax.Regexp) []bool {
	// every round of the iteration that counts consumes something
	all := cur
	for n := 0; n < len(m.t); n++ {
		next := make([]bool, len(cur))
		for i, c := range cur {
			if verifrt.IsConcrete(c) && !c {
				continue
			}
			for j, x := range m.Ends(re, i) {
				if j > i {
					next[j] = verifrt.Or(next[j], verifrt.And(c, x))
				}
			}
		}
		all = or(all, next)
		cur = next
	}
	return all
}

func isWord(b byte) bool {
	return verifrt.Or(verifrt.Or(verifrt.And(b >= 'a', b <= 'z'), verifrt.And(b >= 'A', b <= 'Z')), verifrt.Or(verifrt.And(b >= '0', b <= '9'), b == '_'))
}

func (m *M) ends(re *syntax.Regexp, i int) []bool {
	n := len(m.t)
	switch re.Op {
	case syntax.OpNoMatch:
		return m.one(i, false)
	case syntax.OpEmptyMatch:
		return m.one(i, true)
	case syntax.OpBeginLine:
		if i == 0 {
			return m.one(i, true)
		}
		return m.one(i, m.t[i-1] == '\n')
	case syntax.OpEndLine:
		if i == n {
			return m.one(i, true)
		}
		return m.one(i, m.t[i] == '\n')
	case syntax.OpBeginText:
		return m.one(i, m.begin && i == 0)
	case syntax.OpEndText:
		return m.one(i, m.end && i == n)
	case syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		a, b := false, false
		if i > 0 {
			a = isWord(m.t[i-1])
		}
		if i < n {
			b = isWord(m.t[i])
		}
		ne := verifrt.Or(verifrt.And(a, !b), verifrt.And(!a, b))
		if re.Op == syntax.OpNoWordBoundary {
			ne = !ne
		}
		return m.one(i, ne)
	case syntax.OpLiteral:
		cur := m.one(i, true)
		for _, r := range re.Rune {
			rs := []rune{r, r}
			if re.Flags&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					rs = append(rs, f, f)
				}
			}
			next := make([]bool, n+1)
			for k, c := range cur {
				if verifrt.IsConcrete(c) && !c {
					continue
				}
				m.char(next, k, c, rs)
			}
			cur = next
		}
		return cur
	case syntax.OpCharClass:
		v := make([]bool, n+1)
		m.char(v, i, true, re.Rune)
		return v
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		v := make([]bool, n+1)
		m.char(v, i, true, []rune{0, unicode.MaxRune})
		return v
	case syntax.OpCapture:
		return m.Ends(re.Sub[0], i)
	case syntax.OpConcat:
		cur := m.one(i, true)
		for _, s := range re.Sub {
			cur = m.then(cur, s)
		}
		return cur
	case syntax.OpAlternate:
		v := make([]bool, n+1)
		for _, s := range re.Sub {
			v = or(v, m.Ends(s, i))
		}
		return v
	case syntax.OpQuest:
		return or(m.one(i, true), m.Ends(re.Sub[0], i))
	case syntax.OpStar:
		return m.star(m.one(i, true), re.Sub[0])
	case syntax.OpPlus:
		return m.star(m.Ends(re.Sub[0], i), re.Sub[0])
	case syntax.OpRepeat:
		cur := m.one(i, true)
		for k := 0; k < re.Min; k++ {
			cur = m.then(cur, re.Sub[0])
		}
		if re.Max < 0 {
			return m.star(cur, re.Sub[0])
		}
		all := cur
		for k := re.Min; k < re.Max; k++ {
			cur = m.then(cur, re.Sub[0])
			all = or(all, cur)
		}
		return all
	}
	verifrt.Unsupported("regular expression operator")
	return nil
}

// char adds to v[j] that a character of the class ends at j, given c and that it starts at i.
func (m *M) char(v []bool, i int, c bool, class []rune) {
	n := len(m.t)
	for w := 1; w <= 4 && i+w <= n; w++ {
		v[i+w] = verifrt.Or(v[i+w], verifrt.And(c, m.rune(i, w, class)))
	}
}

var lowest = [5]rune{0, 0, 0x80, 0x800, 0x10000}
var highest = [5]rune{0, 0x7f, 0x7ff, 0xffff, 0x10ffff}

func (m *M) rune(i, w int, class []rune) bool {
	t := m.t[i : i+w]
	// ranges that can be encoded in w bytes
	var rs []rune
	all := false
	for k := 0; k+1 < len(class); k += 2 {
		lo, hi := class[k], class[k+1]
		if lo < lowest[w] {
			lo = lowest[w]
		}
		if hi > highest[w] {
			hi = highest[w]
		}
		if lo > hi {
			continue
		}
		all = all || lo == lowest[w] && hi == highest[w]
		rs = append(rs, lo, hi)
	}
	if len(rs) == 0 {
		return false
	}
	var ok bool
	var r rune
	switch w {
	case 1:
		ok = verifrt.And(t[0] < 0x80, t[0] != '\n')
		r = rune(t[0])
	case 2:
		ok = verifrt.And(t[0] >= 0xc2, t[0] < 0xe0)
		r = rune(t[0]&0x1f)<<6 | rune(t[1]&0x3f)
	case 3:
		ok = verifrt.And(t[0] >= 0xe0, t[0] < 0xf0)
		ok = verifrt.And(ok, verifrt.Or(t[0] != 0xe0, t[1] >= 0xa0))
		ok = verifrt.And(ok, verifrt.Or(t[0] != 0xed, t[1] < 0xa0))
		r = rune(t[0]&0x0f)<<12 | rune(t[1]&0x3f)<<6 | rune(t[2]&0x3f)
	case 4:
		ok = verifrt.And(t[0] >= 0xf0, t[0] < 0xf5)
		ok = verifrt.And(ok, verifrt.Or(t[0] != 0xf0, t[1] >= 0x90))
		ok = verifrt.And(ok, verifrt.Or(t[0] != 0xf4, t[1] < 0x90))
		r = rune(t[0]&0x07)<<18 | rune(t[1]&0x3f)<<12 | rune(t[2]&0x3f)<<6 | rune(t[3]&0x3f)
	}
	for _, b := range t[1:] {
		ok = verifrt.And(ok, verifrt.And(b >= 0x80, b < 0xc0))
	}
	if all {
		return ok
	}
	in := false
	for k := 0; k < len(rs); k += 2 {
		if rs[k] == rs[k+1] {
			in = verifrt.Or(in, r == rs[k])
		} else {
			in = verifrt.Or(in, verifrt.And(r >= rs[k], r <= rs[k+1]))
		}
	}
	return verifrt.And(ok, in)
}
