// Package hre checks the regular-expression side of searching: the trigram prefilter and the matcher.
package hre

import (
	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/codesearch/regexp"
	hindex "github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/reref"
	"github.com/hound-search/hound/verifh/verifrt"
)

// Building blocks of the patterns.
var parts = []string{
	"a", "ab", "abc", "abcd", "[ab]", "[pqr]", "[a-h]", "[^a]", ".", "a?", "b*", "a+", "(a|bc)", "(ab|cd)e?", "(abc|abd)", "a.*z", "é", "(?i:k)", "(?i:ab)", "(abc)+", "x{2}", "\\bc", "[éè]", "",
	"(?i:s)", "(bc)?", "^", "$", "(abc.*)?", "[ab][cd]", "(a|b|cd.*e)", "(?i:é)", "\\w", "b{0,2}", "(?:)", "(ab){2,}", "\\x{10348}", "(|a)", "[a-a]", "[^\\x00-\\x{10FFFF}]",
}

var templates = []func(x, y string) string{
	func(x, y string) string { return x + y },
	func(x, y string) string { return "(" + x + "|" + y + ")foo" },
	func(x, y string) string { return x + ".*" + y },
	func(x, y string) string { return "(?:" + x + ")+" + y },
	func(x, y string) string { return x + "(?:" + y + ")?" + "c" },
	func(x, y string) string { return x + "|" + y },
	func(x, y string) string { return "x(" + y + "|" + x + "|abx)y" },
	func(x, y string) string { return "(?i)" + x + "c" + y },
	func(x, y string) string { return "(?:" + x + y + "|ab" + y + ")" },
	func(x, y string) string { return "(?:" + x + "|" + y + "){2}" },
}

func pattern(np, nt int) string {
	t := verifrt.Choose("template", nt)
	x := parts[verifrt.Choose("first", np)]
	y := parts[verifrt.Choose("second", np)]
	return templates[t](x, y)
}

// satisfied evaluates a query over the trigrams of a text.
func satisfied(q *index.Query, t []byte) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		if len(q.Trigram)+len(q.Sub) == 0 {
			return false // what PostingQuery makes of it
		}
		r := true
		for _, s := range q.Trigram {
			r = verifrt.And(r, occurs(s, t))
		}
		for _, s := range q.Sub {
			r = verifrt.And(r, satisfied(s, t))
		}
		return r
	case index.QOr:
		r := false
		for _, s := range q.Trigram {
			r = verifrt.Or(r, occurs(s, t))
		}
		for _, s := range q.Sub {
			r = verifrt.Or(r, satisfied(s, t))
		}
		return r
	}
	verifrt.Unsupported("query operator")
	return false
}

func occurs(s string, t []byte) bool {
	r := false
	for i := 0; i+3 <= len(t); i++ {
		r = verifrt.Or(r, verifrt.And(t[i] == s[0], verifrt.And(t[i+1] == s[1], t[i+2] == s[2])))
	}
	return r
}

func prefilter(p string, n int, fold bool) {
	full := hindex.GetRegexpPattern(p, fold)
	re, err := regexp.Compile(full)
	verifrt.Assert(err == nil, "a valid pattern is refused")
	q := index.RegexpQuery(re.Syntax)
	prefix := "(?m)"
	if fold {
		prefix = "(?i)(?m)"
	}
	ref, _ := reref.Parse(prefix + p)
	t := verifrt.Bytes("text", n)
	m := reref.New(t, true, true).Match(ref)
	verifrt.Assert(verifrt.Implies(m, satisfied(q, t)), "a text that contains a match is not among the candidates")
	verifrt.Reach("checked")
}

// C01 checks the prefilter of every combination of two building blocks.
func C01() {
	n := 8
	if verifrt.Tier() > 0 {
		n = 10
	}
	p := pattern(len(parts), len(templates))
	verifrt.Shape(p)
	prefilter(p, n, false)
}

// Patterns whose sets of prefixes, suffixes and exact strings overflow or interact.
var hard = []string{
	"[a-d][a-d][a-d]", "[a-h]{3}", "[a-e]x[a-e]", "(a|b|c|d|e|f|g|h)xyz", "xyz(a|b|c|d|e|f|g|h)", "[abc]*[abc]bc", "abc|abd|abe", "abcd|bcda|cdab", "(abc|xbc)(d|e)", "ab(c|d)ef", "(ab|cd)(ef|gh)(ij|kl)",
	"(a|ab)(c|bcd)(d*)", "a+b+c+", "(a+b)+c", "(ab?)*c", "((ab)+|cd)+e", "(a.b|abc)d", "(abc.*xyz|abc)d", "abc(def)?abc", "abc(de|)f", "(|abc)def", "(abc)?def(ghi)?", "a{3}b{3}", "(abc){0,1}d", "(abc){1,2}d",
	"(?:a|b)(?:a|b)(?:a|b)(?:a|b)", "[ab]{4}", "[a-c]{2}x[a-c]{2}", ".{3}abc", "abc.{3}", "a.c", "a.c.e", "(a.*|b)cde", "cde(a.*|b)", "cde(.*a|b)", "(.*a|b)cde", "x*abc", "x*", "x+y*z+", "(x|y*)z", "aaa", "aaaa|aa", "a|aa|aaa|aaaa",
	"abcdefgh|abc", "(abc|abcdef)gh", "a(b(c(d|e)|f)|g)", "(((a)b)c)d", "é", "éa", "aéb", "é|a", "[à-é]bc", "(?i:éa)", "\\bword\\b", "^abc$", "^$", "$", "\\Babc", "(^a|b$)cd", "abc\\b.", "a\\.b", "a\\+b", "x-y", "foo.bar", "[[:alpha:]]bc", "\\d\\d\\d", "[0-9a]{2}b",
	"(?i)abc", "(?i)k", "(?i)ks", "(?i)sss", "(?i)abcd", "(?i)[a-c]de", "(?i)ß", "(?i:a)bc(?i:d)", "abc(?i)def", "\\x{212a}", "日本", "日|本", "[日本]a", ".日", "\\x{10348}\\x{10348}", "(a*)*", "(a*)+b", "(a|b*)?cd", "[^\\n]abc", "\\Aabc", "abc\\z", "(?s).abc", "(?U)a+b", "a??bc", "a*?bcd",
	"(ab|ab|ab)c", "(a|a)bc", "(abc|)|def", "(?:(?:abc)|(?:abd))|x.*y", "(ab[cd]|ab[ef])g", "([ab]|[cd])([ef]|[gh])i", "\\Q+.\\E", "[a-z]x", "x[a-z]", "x[a-z]y", "[^a-z]xyz", "\\Sabc", "\\W\\W\\W", "\\x00\\x01", "(foo|bar|baz)+", "(foo|ba.*r)*x", "((foo|[pq])x)?y", "q(x|[pqr]|f.*o)oo", "(z|f.*g|[ab])oo(b|c.*d)",
	"(aa|[ab]|a.*c)dd", "([ab]|)ccc", "(()|[pq]|a.*b)ccc", "(a|b.*)(c|d.*)eee", "ccc([ab]|d.*e)", "ccc(d.*e|[ab])", "(d.*e|[ab])ccc", "([ab]|cccc)ddd", "([abcdefgh]|cccc)ddd", "(cccc|[abcdefgh])ddd", "(cccc|dddd|[ab])e",
}

// C01Hard: patterns that exercise the sizes at which sets are cut down, also as literals and with case ignored.
func C01Hard() {
	n := 8
	if verifrt.Tier() > 0 {
		n = 11
	}
	p := hard[verifrt.Choose("pattern", len(hard))]
	if verifrt.Choose("literal", 2) == 1 {
		p = regexp.QuoteMeta(p)
	}
	verifrt.Shape(p)
	prefilter(p, n, verifrt.Choose("fold", 2) == 1)
}

// C01Three: combinations of three building blocks.
func C01Three() {
	ps := []string{"a", "abc", "[ab]", "[a-h]", ".", "a?", "b*", "(a|bc)", "a.*z", "(?i:k)", "(abc)+", "é", "(|abcd)", "[pqr]"}
	x, y, z := ps[verifrt.Choose("first", len(ps))], ps[verifrt.Choose("second", len(ps))], ps[verifrt.Choose("third", len(ps))]
	var p string
	switch verifrt.Choose("template", 8) {
	case 0:
		p = x + y + z
	case 1:
		p = "(" + x + "|" + y + ")" + z
	case 2:
		p = x + "(" + y + "|" + z + ")"
	case 3:
		p = "(" + x + "|" + y + "|" + z + ")dd"
	case 4:
		p = "cc(" + x + "|" + y + "|" + z + ")"
	case 5:
		p = "(" + x + y + ")+" + z
	case 6:
		p = "(" + x + "(" + y + ")?|ab" + z + ")x"
	case 7:
		p = "(" + x + "|" + y + ")(" + y + "|" + z + ")"
	}
	verifrt.Shape(p)
	prefilter(p, 7, false)
}
