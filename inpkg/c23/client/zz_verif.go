package client

import (
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
)

// VerifBlocks: the blocks of an arbitrary list of matches, also without context, when the printed
// lines do not show where a block ends.
func VerifBlocks() {
	k := 1 + verifrt.Choose("matches", 3+verifrt.Tier())
	ctx := verifrt.Choose("ctx", 3)
	text := func(i int) string { return string([]byte{byte('a' + i)}) }
	line := verifrt.Int("first", 3, 1000)
	var ms []*index.Match
	// numbers of lines relative to the first match
	type row struct {
		n       int
		matched bool
		first   bool
	}
	var rows []row
	rel, last := 0, -100
	for i := 0; i < k; i++ {
		gap := 0
		if i > 0 {
			gap = 1 + verifrt.Choose("gap", 2*ctx+3)
			rel += gap
		}
		nb := ctx
		if i > 0 && gap-1 < nb {
			nb = gap - 1
		}
		na := ctx
		m := &index.Match{Line: text(rel + 3), LineNumber: line + rel}
		for j := nb; j > 0; j-- {
			m.Before = append(m.Before, text(rel-j+3))
		}
		for j := 1; j <= na; j++ {
			m.After = append(m.After, text(rel+j+3))
		}
		ms = append(ms, m)
		for l := rel - nb; l <= rel+na; l++ {
			if l > last {
				rows = append(rows, row{l, l == rel, l == rel-nb})
			} else if l == rel {
				for q := range rows {
					if rows[q].n == l {
						rows[q].matched = true
					}
				}
			}
		}
		last = rel + na
	}
	var got []row
	var lines []string
	for _, b := range coalesceMatches(ms) {
		verifrt.Assert(len(b.Lines) == len(b.Matches), "a block has more lines than marks")
		for j := range b.Lines {
			got = append(got, row{b.Start + j - line, b.Matches[j], j == 0})
			lines = append(lines, b.Lines[j])
		}
	}
	verifrt.Assert(len(got) == len(rows), "the blocks lose or repeat lines")
	for i := range rows {
		verifrt.Assert(got[i].n == rows[i].n && lines[i] == text(rows[i].n+3), "a line has another number")
		verifrt.Assert(got[i].matched == rows[i].matched, "a line is marked wrongly")
		verifrt.Assert(got[i].first == rows[i].first, "blocks are separated or joined wrongly")
	}
	verifrt.Reach("grouped")
}
