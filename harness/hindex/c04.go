package hindex

import (
	"regexp"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
)

var c04Patterns = []string{"a", "^a", "a$", "^$", "a*b", "[^a]", "a|b", "", "\\bab", "^b?$"}

// anchored to the whole text: the first (kind 1) or last line (kind 2) only.
var c04Anchored = []struct {
	pat, line string
	kind      int
}{{"\\Ab", "^b", 1}, {"a\\z", "a$", 2}, {"\\A", "", 1}}

// C04 searches one file of arbitrary contents and compares the matches with a line by line oracle.
func C04() {
	maxLen, maxCtx := 4, 2
	if verifrt.Tier() > 0 {
		maxLen, maxCtx = 6, 3
	}
	c04(c04Patterns[verifrt.Choose("pattern", len(c04Patterns))], "", 0, maxLen, maxCtx)
}

// C04Text does the same with patterns anchored to the start or end of the whole text.
func C04Text() {
	a := c04Anchored[verifrt.Choose("pattern", len(c04Anchored))]
	maxLen := 4
	if verifrt.Tier() > 0 {
		maxLen = 5
	}
	c04(a.pat, a.line, a.kind, maxLen, 1)
}

func c04(pat, line string, kind, maxLen, maxCtx int) {
	dst, ix := buildIndex(&index.IndexOptions{}, []string{"f"}, [][]byte{[]byte("ab\n")})
	n := verifrt.Choose("len", maxLen+1)
	data := verifrt.Bytes("data", n)
	for i := range data {
		verifrt.Assume(data[i] < 0x80)
	}
	ctx := verifrt.Choose("ctx", maxCtx+1)
	verifrt.Shape(pat)
	setContent(dst, "f", data)
	res, err := ix.Search(pat, &index.SearchOptions{LinesOfContext: uint(ctx)})
	verifrt.Assert(err == nil, "search fails")
	ls := lines(data)
	re := regexp.MustCompile("(?m)" + pat)
	if kind != 0 {
		re = regexp.MustCompile("(?m)" + line)
	}
	hit := func(i int) bool {
		if kind == 1 && i > 0 || kind == 2 && (i < len(ls)-1 || data[n-1] == '\n') {
			return false
		}
		return re.Match(ls[i])
	}
	tag := ""
	if kind == 1 {
		tag = "text-start anchor: "
	} else if kind == 2 {
		tag = "text-end anchor: "
	}
	checkFile(res, ls, hit, ctx, tag)
	verifrt.Reach("searched")
}

func checkFile(res *index.SearchResponse, ls [][]byte, hit func(int) bool, ctx int, tag string) {
	var got []*index.Match
	if len(res.Matches) > 0 {
		verifrt.Assert(len(res.Matches) == 1 && res.Matches[0].Filename == "f", "wrong files")
		got = res.Matches[0].Matches
	}
	k := 0
	prev := -1
	for i, l := range ls {
		if !hit(i) {
			continue
		}
		verifrt.Assert(k < len(got), tag+"a matching line is not reported")
		m := got[k]
		k++
		verifrt.Assert(m.LineNumber == i+1, tag+"wrong line number")
		verifrt.Assert(verifrt.EqStr(m.Line, string(l)), tag+"wrong line text")
		lo := i - ctx
		if lo <= prev {
			lo = prev + 1
		}
		verifrt.Assert(len(m.Before) == i-lo, "wrong number of lines before the match")
		for j := lo; j < i; j++ {
			verifrt.Assert(verifrt.EqStr(m.Before[j-lo], string(ls[j])), tag+"wrong line before the match")
		}
		hi := i + ctx
		if hi >= len(ls) {
			hi = len(ls) - 1
		}
		verifrt.Assert(len(m.After) == hi-i, "wrong number of lines after the match")
		for j := i + 1; j <= hi; j++ {
			verifrt.Assert(verifrt.EqStr(m.After[j-i-1], string(ls[j])), tag+"wrong line after the match")
		}
		prev = i
	}
	verifrt.Assert(k == len(got), tag+"a line that does not match is reported")
	if k > 0 {
		verifrt.Assert(res.FilesWithMatch == 1, "wrong number of files with matches")
	} else {
		verifrt.Assert(res.FilesWithMatch == 0, "wrong number of files with matches")
	}
}
