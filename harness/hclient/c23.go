// Package hclient checks the command-line client.
package hclient

import (
	"regexp"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

// dec is the decimal form of 1 <= n < 1000.
func dec(n int) []byte {
	d := uint16(n)
	if d < 10 {
		return []byte{byte('0' + d)}
	}
	if d < 100 {
		return []byte{byte('0' + d/10), byte('0' + d%10)}
	}
	return []byte{byte('0' + d/100), byte('0' + d/10%10), byte('0' + d%10)}
}

func outLine(n int, matched bool, text string) []byte {
	d := dec(n)
	w := len(d)
	if matched {
		d = append(d, ':')
	} else {
		d = append(d, '-')
	}
	for i := w; i < 6; i++ {
		d = append(d, ' ')
	}
	return append(append(d, text...), '\n')
}

type printed struct {
	line    int
	matched bool
	first   bool // first of its block
}

// C23 prints an arbitrary list of matches, as the server reports them, and compares the output with
// the merged blocks computed line by line.
func C23() {
	maxMatch, maxCtx, maxGap := 3, 2, 7
	if verifrt.Tier() > 0 {
		maxMatch, maxCtx, maxGap = 4, 3, 9
	}
	k := 1 + verifrt.Choose("matches", maxMatch)
	base := verifrt.Int("first line", 4, 115)
	text := func(line int) string { return string([]byte{byte('!' + uint8(line-base+4))}) }
	ctx := verifrt.Int("ctx", 0, maxCtx)
	// the longest lists are combined with the smaller contexts
	verifrt.Assume(k < maxMatch || ctx < maxCtx)
	var ms []*index.Match
	line, prev := base, base-4
	for i := 0; i < k; i++ {
		if i > 0 {
			line = line + verifrt.Int("gap", 1, maxGap)
		}
		nb, na := verifrt.Choose("before", maxCtx+1), verifrt.Choose("after", maxCtx+1)
		verifrt.Assume(nb <= ctx && na <= ctx)
		// the lines before a match never reach back past the previous match
		verifrt.Assume(line-nb > prev)
		m := &index.Match{Line: text(line), LineNumber: line}
		for j := nb; j > 0; j-- {
			m.Before = append(m.Before, text(line-j))
		}
		for j := 1; j <= na; j++ {
			m.After = append(m.After, text(line+j))
		}
		ms = append(ms, m)
		prev = line
	}
	// the server cuts context short only at the ends of the file or at the previous match
	for i := 0; i+1 < k; i++ {
		gap := ms[i+1].LineNumber - ms[i].LineNumber
		verifrt.Assume(len(ms[i].After) == ctx || i == k-2 && gap+len(ms[i+1].After) == len(ms[i].After))
		want := ctx
		if gap-1 < want {
			want = gap - 1
		}
		verifrt.Assume(len(ms[i+1].Before) == want)
	}

	f, read := hx.Output(false)
	p := client.NewAckPresenter(f)
	res := &client.Response{Results: map[string]*index.SearchResponse{
		"r": {Matches: []*index.FileMatch{{Filename: "f", Matches: ms}}},
	}}
	err := p.Present(regexp.MustCompile("zzz"), ctx, map[string]*config.Repo{}, res)
	verifrt.Assert(err == nil, "presenting fails")

	// expected lines
	var want []printed
	last := -100
	for i, m := range ms {
		s := m.LineNumber - len(m.Before)
		n := len(m.Before) + 1 + len(m.After)
		newBlock := i == 0 || s > last
		for j := 0; j < n; j++ {
			l := s + j
			isM := j == len(m.Before)
			if i > 0 && l <= last {
				if isM {
					for q := range want {
						if want[q].line == l {
							want[q].matched = true
						}
					}
				}
				continue
			}
			want = append(want, printed{l, isM, newBlock && j == 0})
		}
		if e := s + n - 1; e > last {
			last = e
		}
	}
	exp := []byte("r\nf\n")
	for i, w := range want {
		if w.first && i > 0 && ctx > 0 {
			exp = append(exp, "--\n"...)
		}
		exp = append(exp, outLine(w.line, w.matched, text(w.line))...)
	}
	if ctx > 0 {
		exp = append(exp, "--\n"...)
	}
	exp = append(exp, '\n')
	got := read()
	verifrt.Log(string(got))
	verifrt.Log(string(exp))
	verifrt.Assert(len(got) == len(exp), "wrong number of printed lines")
	verifrt.Assert(verifrt.EqBytes(got, exp), "printed lines differ from the merged matches")
	verifrt.Reach("printed")
}
