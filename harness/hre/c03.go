package hre

import (
	"regexp/syntax"

	"github.com/hound-search/hound/codesearch/regexp"
	"github.com/hound-search/hound/verifh/reref"
	"github.com/hound-search/hound/verifh/verifrt"
)

// wantEnd is the end of the first line that holds a match, or -1.
func wantEnd(ref *syntax.Regexp, t []byte, begin, end bool) int {
	m := reref.New(t, begin, end)
	r := -1
	// from the last start to the first
	for i := len(t); i >= 0; i-- {
		e := len(t)
		for j := len(t) - 1; j >= i; j-- {
			e = verifrt.IteInt(t[j] == '\n', j, e)
		}
		r = verifrt.IteInt(m.MatchFrom(ref, i), e, r)
	}
	return r
}

func matcher(p string, n int) {
	re, err := regexp.Compile(p)
	ref, ok := reref.Parse(p)
	verifrt.Assert((err == nil) == ok, "a valid pattern is refused or an invalid one accepted")
	if !ok {
		return
	}
	mode := verifrt.Choose("mode", 4)
	if mode != 0 {
		n--
	}
	t := verifrt.Bytes("text", verifrt.Choose("len", n+1))
	check(re, ref, t, mode != 2, mode != 3, mode == 1, "")
	verifrt.Reach("matched")
}

func check(re *regexp.Regexp, ref *syntax.Regexp, t []byte, begin, end, str bool, tag string) {
	for _, b := range t {
		verifrt.Assume(b != 0xed) // the lead byte of encoded surrogates
	}
	var got int
	if str {
		got = re.MatchString(string(t), begin, end)
	} else {
		got = re.Match(t, begin, end)
	}
	want := wantEnd(ref, t, begin, end)
	if got < 0 {
		verifrt.Assert(want < 0, tag+"a text with a match is not matched")
	} else {
		verifrt.Assert(got == want, tag+"a text is matched that has no match, or not at the end of the first matching line")
	}
}

var c03Patterns = []string{
	"", "a", "ab", "a|b", "a*", "a+", "a?b", ".", "..", ".*", "[ab]", "[^a]", "[^ab]b", "^", "$", "^a", "a$", "^$", "^a$", "(?m)^", "(?m)$", "(?m)^a", "(?m)a$", "(?m)^$", "(?m)^a$", "(?m)^a|b$", "(?m)^[^a]$",
	"\\A", "\\z", "\\Aa", "a\\z", "\\A\\z", "(?m)a\\z", "(?m)\\Aa", "\\b", "\\B", "\\ba", "a\\b", "\\Ba", "a\\B", "\\b_\\b", "\\B\\B", "\\b.", ".\\b", "\\b\\b", "\\B$", "^\\b", "(?m)^\\B", "\\bé", "é\\b",
	"(?i)a", "(?i)k", "(?i)s", "(?i)é", "(?i)ß", "(?i)[a-k]", "(?i)z", "(?i)_", "(?i)1", "(?i)ab", "(?i)K\\b", "(?i)[^k]", "(?i)[[:upper:]]", "[Aa]", "[Kk]", "[kK\\x{212a}]", "[éÉ]", "É|é|a", "É|é|ab", "A|a|bc", "K|k|bc", "ab|Ÿ|ÿ", "[σς]", "[σςΣ]", "[ÿŸ]", "[@`]",
	"é", "[à-é]", "[^é]", "[é-日]", "日", "[日本]", "\\x{10348}", "[\\x{10000}-\\x{10ffff}]", "[\\x{7f}-\\x{80}]", "[\\x{7ff}-\\x{800}]", "[\\x{fff0}-\\x{10010}]", "[\\x{80}-\\x{10ffff}]", "[^\\x{80}-\\x{10ffff}]", "[\\x00-\\x{10ffff}]", "[^\\x00-\\x{10ffff}]",
	"a{2}", "a{2,}", "a{1,2}b", "(ab)+", "(a|b)*c", "(a*)*", "(a*)+b", "(a|ab)(c|b)", "a.b", "a.*b", "a[^b]*b", "(?s)a.b", "a\\nb", "\\n", "a\\n", "\\s", "\\S", "\\w", "\\W", "\\d", "a\\s", "[\\n]", "[^\\n]", "[\\na]", "(?s).", "(?U)a+", "a??b",
	"()", "(a|)", "(|a)b", "(?:a)", "(?P<x>a)b", "a(?i:b)", "(?i:a)b", "a|^b", "^a|b", "a$|b", "(^|a)b", "(a|$)", "b($|a)", "(?m)(^|a)b", "(?m)b($|a)", "\\x00", "[\\x00-\\x1f]", "\\p{Greek}", "[[:^alpha:]]",
	"x*^a", "a$b", "a^b", "(?m)a$b", "(?m)a^b", "(?m)$^", "a\\bb", "a\\b b", " \\ba", "(?m)^\\s", "a\\zb",
	"(", "[b-a]", "a{2", "a**", "\\C", "(?=a)",
}

// patterns whose classes have many ranges of bytes
var c03Wide = []string{"(?i)[^k]", "\\W", "\\S", "\\p{Greek}", "[[:^alpha:]]", "[^ab]b", "[^a]", "[^é]", "(?i)[[:upper:]]", "..", ".\\b", "(?i)K\\b"}

// C03 compares the matcher with the definition, for every text of a few bytes.
func C03() {
	p := c03Patterns[verifrt.Choose("pattern", len(c03Patterns))]
	n := 3
	for _, s := range c03Wide {
		if p == s {
			n = 2
		}
	}
	if verifrt.Tier() > 0 {
		n++
	}
	verifrt.Shape(p)
	matcher(p, n)
}

var c03Chars = []string{"\\x{10348}", "[\\x{10000}-\\x{10ffff}]", "[\\x{fff0}-\\x{10010}]", ".", "[^a]", "日", "[é-日]", "(?i)ꙁ", "[\\x{800}-\\x{fffd}]", "[\\x{3fffe}-\\x{40001}]", "[\\x{12345}-\\x{23456}]", "[\\x{2}-\\x{10fffe}]"}

// C03Chars: every sequence of four bytes that starts like a long character.
func C03Chars() {
	p := c03Chars[verifrt.Choose("pattern", len(c03Chars))]
	verifrt.Shape(p)
	re, err := regexp.Compile(p)
	verifrt.Assert(err == nil, "a valid pattern is refused")
	ref, _ := reref.Parse(p)
	t := verifrt.Bytes("text", 4)
	verifrt.Assume(t[0] >= 0xe0)
	check(re, ref, t, true, true, false, "")
}

var c03Lines = []string{"(?m)^a", "(?m)a$", "(?m)^$", "(?m)^a$", "(?m)^[^a]*$", "(?m)a.*b", "(?m)\\bab?\\b", "(?m)a\\z", "\\Aa", "(?m)(a|b){2}", "(?m)(^|b)a(b|$)", "(?m)^.b", "(?m)b*$", "(?m)a\\B", "aba", "(?m)^ab|ba$"}

// C03Lines: longer texts over a small alphabet with newlines.
func C03Lines() {
	n := 5
	if verifrt.Tier() > 0 {
		n = 7
	}
	p := c03Lines[verifrt.Choose("pattern", len(c03Lines))]
	verifrt.Shape(p)
	re, err := regexp.Compile(p)
	verifrt.Assert(err == nil, "a valid pattern is refused")
	ref, _ := reref.Parse(p)
	t := verifrt.Bytes("text", n)
	for _, b := range t {
		verifrt.Assume(verifrt.Or(verifrt.Or(b == 'a', b == 'b'), verifrt.Or(b == '\n', b == ' ')))
	}
	check(re, ref, t, true, true, false, "")
}

var c03Reuse = []string{"a", "(?m)^a", "(?m)a$", "\\Aa", "a\\z", "\\ba", "[^a]b", "é", "(?i)k", "(?m)^$", "(?m)^a|b$", "a.b", "\\B", "(?m)^", "b\\z|a"}

// C03Reuse: the same compiled pattern matched against one text and then against another.
func C03Reuse() {
	n := 1
	if verifrt.Tier() > 0 {
		n = 2
	}
	p := c03Reuse[verifrt.Choose("pattern", len(c03Reuse))]
	verifrt.Shape(p)
	re, err := regexp.Compile(p)
	verifrt.Assert(err == nil, "a valid pattern is refused")
	ref, _ := reref.Parse(p)
	first := verifrt.Choose("firstmode", 3)
	re.Match(verifrt.Bytes("first", n), first != 1, first != 2)
	mode := verifrt.Choose("mode", 3)
	check(re, ref, verifrt.Bytes("second", 2), mode != 1, mode != 2, false, "after another text was matched: ")
}
