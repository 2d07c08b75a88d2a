package hindex

import (
	"regexp"
	"unicode"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
)

// hasAt: text lit occurs in line at i, byte for byte or up to simple case folding.
func hasAt(line []byte, i int, lit []rune, fold bool) bool {
	if len(lit) == 0 {
		return true
	}
	for r := lit[0]; ; {
		e := string(r)
		if i+len(e) <= len(line) && verifrt.EqStr(string(line[i:i+len(e)]), e) && hasAt(line, i+len(e), lit[1:], fold) {
			return true
		}
		if !fold {
			return false
		}
		if r = unicode.SimpleFold(r); r == lit[0] {
			return false
		}
	}
}

func contains(line []byte, lit []rune, fold bool) bool {
	for i := 0; i <= len(line); i++ {
		if hasAt(line, i, lit, fold) {
			return true
		}
	}
	return false
}

func checkLiteral(ix *index.Index, q string, data []byte, fold bool) {
	res, err := ix.Search(q, &index.SearchOptions{LiteralSearch: true, IgnoreCase: fold})
	verifrt.Assert(err == nil, "a literal search fails")
	lit := []rune(q)
	hit := map[int]bool{}
	for _, f := range res.Matches {
		for _, m := range f.Matches {
			hit[m.LineNumber] = true
		}
	}
	for i, l := range lines(data) {
		w := contains(l, lit, fold)
		verifrt.Assert(!w || hit[i+1], "a line that contains the text is not found")
		verifrt.Assert(w || !hit[i+1], "a line that does not contain the text is found")
	}
	verifrt.Reach("searched")
}

// C07Short: every query of one or two ASCII characters against every short text.
func C07Short() {
	qn, dn := 1, 2
	if verifrt.Tier() > 0 {
		qn = 2
	}
	dst, ix := buildIndex(&index.IndexOptions{}, []string{"f"}, [][]byte{[]byte("ab\n")})
	q := verifrt.String("query", 1+verifrt.Choose("qlen", qn))
	for i := 0; i < len(q); i++ {
		verifrt.Assume(q[i] < 0x80)
	}
	fold := verifrt.Choose("fold", 2) == 1
	data := verifrt.Bytes("data", verifrt.Choose("len", dn+1))
	for i := range data {
		verifrt.Assume(data[i] < 0x80)
	}
	setContent(dst, "f", data)
	checkLiteral(ix, q, data, fold)
}

var c07Lits = []string{"a.b", "(x)", "^a$", "\\Q+", "k", "Ks", "é.", "a|b", "[k]", "{2}", "\\", "\\E", "$", "\\d", "ſ", "ǅ", "  ", "x*"}

// C07Long: metacharacter-rich and non-ASCII queries against arbitrary bytes.
func C07Long() {
	extra := 0
	if verifrt.Tier() > 0 {
		extra = 1
	}
	q := c07Lits[verifrt.Choose("query", len(c07Lits))]
	fold := verifrt.Choose("fold", 2) == 1
	verifrt.Shape(q)
	dst, ix := buildIndex(&index.IndexOptions{}, []string{"f"}, [][]byte{[]byte(q + "\n")})
	n := len(q) + extra
	if len(q) == 1 {
		n++
	}
	data := verifrt.Bytes("data", n)
	setContent(dst, "f", data)
	checkLiteral(ix, q, data, fold)
}

var c07Pats = []string{"a", "A", "[a-c]", "k", "K+", "\\x41", "(?-i)a", "a(?-i:B)", "[^a]", "ſ", "\\w", "^s$", "É|x", "\\bK", "[[:upper:]]", "[à-ü]", "\\W", "\\S", "\\D", "\\Ba?", "\\Q.K\\E|x", "[^\\W]", "\\x{4B}", "(?P<N>b)", "\\p{Lu}", "\\PL", "\\p{Greek}"}

// runes is an arbitrary text of n characters: ASCII, two-byte characters, or the Kelvin sign.
func runes(n int) []byte {
	var data []byte
	for i := 0; i < n; i++ {
		switch verifrt.Choose("kind", 3) {
		case 0:
			b := verifrt.Byte("ascii")
			verifrt.Assume(b < 0x80)
			data = append(data, b)
		case 1:
			b, c := verifrt.Byte("lead"), verifrt.Byte("cont")
			verifrt.Assume(b >= 0xc2 && b < 0xe0)
			verifrt.Assume(c >= 0x80 && c < 0xc0)
			data = append(data, b, c)
		case 2:
			data = append(data, 0xe2, 0x84, 0xaa)
		}
	}
	return data
}

// C07Fold: a regular expression search ignoring case is a search for the case-insensitive expression.
func C07Fold() {
	n, k := 1, len(c07Pats)-3
	if verifrt.Tier() > 0 {
		n, k = 2, k+3
	}
	p := c07Pats[verifrt.Choose("pattern", k)]
	verifrt.Shape(p)
	dst, ix := buildIndex(&index.IndexOptions{}, []string{"f"}, [][]byte{[]byte("ab\n")})
	data := runes(n)
	setContent(dst, "f", data)
	for _, fold := range []bool{false, true} {
		res, err := ix.Search(p, &index.SearchOptions{IgnoreCase: fold})
		verifrt.Assert(err == nil, "search fails")
		hit := map[int]bool{}
		for _, f := range res.Matches {
			for _, m := range f.Matches {
				hit[m.LineNumber] = true
			}
		}
		flags := "(?m)"
		if fold {
			flags = "(?im)"
		}
		re := regexp.MustCompile(flags + p)
		for i, l := range lines(data) {
			w := re.Match(l)
			verifrt.Assert(!w || hit[i+1], "a matching line is not found")
			verifrt.Assert(w || !hit[i+1], "a line that does not match is found")
		}
	}
	verifrt.Reach("searched")
}
