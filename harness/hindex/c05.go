package hindex

import (
	"regexp"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
)

// Patterns whose meaning on a path is the same line by line and on the whole text.
var c05Patterns = []string{"", "a", "^a", "a$", "\\.go$", "(?i)A", "x*", "^d/", "a|b", "q/k\\.go", "[ab]\\.", "^.$", "(", "a{2", "[b-a]", "\\bb"}

func validRe(p string) (*regexp.Regexp, bool) {
	re, err := regexp.Compile(p)
	return re, err == nil
}

// C05 searches an index with one file of arbitrary name under a file filter and an exclude filter.
func C05() {
	maxLen := 2
	pats := c05Patterns
	if verifrt.Tier() > 0 {
		maxLen = 3
	}
	n := 1 + verifrt.Choose("namelen", maxLen)
	name := verifrt.String("name", n)
	for i := 0; i < n; i++ {
		verifrt.Assume(name[i] != '/' && name[i] != 0 && name[i] < 0x80)
	}
	verifrt.Assume(name != "." && name != ".." && name != "q" && name != "d")
	if verifrt.Choose("dir", 2) == 1 {
		name = "d/" + name
	}
	c05(pats, name)
}

func c05(pats []string, name string) {
	fp := pats[verifrt.Choose("file", len(pats))]
	ep := pats[verifrt.Choose("exclude", len(pats))]
	verifrt.Shape(fp + " / " + ep)
	other := "q/k.go"
	_, ix := buildIndex(&index.IndexOptions{}, []string{name, other}, [][]byte{[]byte("ab\n"), []byte("xab\n")})
	res, err := ix.Search("ab", &index.SearchOptions{FileRegexp: fp, ExcludeFileRegexp: ep})
	fre, ok1 := validRe(fp)
	ere, ok2 := validRe(ep)
	if !ok1 || !ok2 {
		verifrt.Assert(err != nil, "an invalid filter is accepted")
		verifrt.Assert(res == nil, "an invalid filter returns results")
		return
	}
	verifrt.Assert(err == nil, "valid filters are refused")
	want := func(s string) bool {
		return (fp == "" || fre.MatchString(s)) && (ep == "" || !ere.MatchString(s))
	}
	check := func(s string) {
		got := 0
		for _, m := range res.Matches {
			if m.Filename == s {
				got++
			}
		}
		w := want(s)
		verifrt.Assert(!w || got == 1, "a file that passes the filters is missing")
		verifrt.Assert(w || got == 0, "a file that the filters reject is returned")
	}
	check(name)
	check(other)
	verifrt.Reach("filtered")
}
