package hindex

import (
	"math"
	"strings"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
)

// C06 compares the returned window with the definition for symbolic offset, limit and maximum.
func C06() {
	nf, maxL := 3, 2
	if verifrt.Tier() > 0 {
		nf, maxL = 4, 3
	}
	var files []string
	var data [][]byte
	var counts []int
	for i := 0; i < nf; i++ {
		k := verifrt.Choose("lines", maxL+1)
		files = append(files, string(rune('a'+i)))
		counts = append(counts, k)
		data = append(data, []byte("no\n"+strings.Repeat("ab\n", k)+"no\n"))
	}
	_, ix := buildIndex(&index.IndexOptions{}, files, data)
	off := verifrt.Int("offset", 0, math.MaxInt)
	lim := verifrt.Int("limit", 0, math.MaxInt)
	max := verifrt.Int("max", -1, math.MaxInt)
	ctx := verifrt.Choose("ctx", 2)
	res, err := ix.Search("^ab", &index.SearchOptions{Offset: off, Limit: lim, MaxResults: max, LinesOfContext: uint(ctx)})
	verifrt.Assert(err == nil, "search fails")
	k := 0        // returned files seen
	total := 0    // lines returned
	matching := 0 // matching files so far
	examined := 0
	for i, c := range counts {
		if c == 0 {
			continue
		}
		if max > 0 && total >= max {
			continue
		}
		examined++
		matching++
		if matching <= off || lim > 0 && matching-off > lim {
			continue
		}
		w := c
		if max > 0 && total+w > max {
			w = max - total
		}
		total += w
		verifrt.Assert(k < len(res.Matches), "a file of the requested window is missing")
		m := res.Matches[k]
		k++
		verifrt.Assert(m.Filename == files[i], "the window holds the wrong file or the wrong order")
		verifrt.Assert(len(m.Matches) == w, "wrong number of lines for a file of the window")
		for j, l := range m.Matches {
			verifrt.Assert(l.LineNumber == 2+j && l.Line == "ab", "the lines of a file are not its first matching lines")
		}
	}
	verifrt.Assert(k == len(res.Matches), "a file outside the requested window is returned")
	verifrt.Assert(res.FilesWithMatch == examined, "FilesWithMatch is not the number of matching files examined")
	verifrt.Reach("window")
}
