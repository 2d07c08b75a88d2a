package hindex

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

const peek = 2048

// build runs a build of one file f with the given contents and says whether f is searchable
// and whether it is listed as excluded.
func buildOne(data []byte) (searchable, excluded bool) {
	// the order of trigrams in the index does not matter here: nothing is looked up by trigram
	verifrt.Opt("skipfn:github.com/hound-search/hound/codesearch/index.sortPost", 1)
	src, dst := hx.Dir("src"), hx.Dir("db")+"/idx-1"
	hx.Put(filepath.Join(src, "f"), data)
	ref, err := index.Build(&index.IndexOptions{}, dst, src, "url", "rev")
	verifrt.Assert(err == nil, "building an index of readable files fails")
	ix, err := ref.Open()
	verifrt.Assert(err == nil, "opening a fresh index fails")
	res, err := ix.Search("", &index.SearchOptions{Limit: 1})
	verifrt.Assert(err == nil, "search fails")
	searchable = len(res.Matches) > 0
	excluded = len(excludedFiles(dst)) > 0
	return
}

func excludedFiles(dst string) []*index.ExcludedFile {
	b, err := os.ReadFile(filepath.Join(dst, "excluded_files.json"))
	verifrt.Assert(err == nil, "there is no list of excluded files")
	var ex []*index.ExcludedFile
	verifrt.Assert(json.Unmarshal(b, &ex) == nil, "the list of excluded files cannot be read")
	return ex
}

// C09Short: every short file is searchable exactly if it is valid UTF-8.
func C09Short() {
	n := 4
	if verifrt.Tier() > 0 {
		n = 5
	}
	data := verifrt.Bytes("data", 1+verifrt.Choose("len", n))
	s, x := buildOne(data)
	v := utf8.Valid(data)
	verifrt.Assert(!v || s && !x, "a file of valid UTF-8 text is not searchable")
	verifrt.Assert(v || !s, "a file that is not valid UTF-8 is searchable")
	verifrt.Assert(v || x, "a file that is not valid UTF-8 is not listed as excluded")
	verifrt.Reach("built")
}

// C09Window: characters around the end of the peek window.
func C09Window() {
	before, after := 3, 2
	if verifrt.Tier() > 0 {
		before, after = 4, 3
	}
	head := strings.Repeat("aaaaaaa\n", peek/8)[:peek-before]
	mid := verifrt.Bytes("data", before+verifrt.Choose("after", after+1))
	data := append([]byte(head), mid...)
	s, x := buildOne(data)
	// the peeked prefix is invalid if no continuation makes it valid
	p := data[:peek]
	i := len(head)
	bad := false
	for i < peek && !bad {
		if !utf8.FullRune(p[i:]) {
			break
		}
		r, sz := utf8.DecodeRune(p[i:])
		if r == utf8.RuneError && sz == 1 {
			bad = true
		}
		i += sz
	}
	verifrt.Assert(!bad || !s, "a file whose peeked prefix is not UTF-8 is searchable")
	verifrt.Assert(!bad || x, "a file whose peeked prefix is not UTF-8 is not listed as excluded")
	verifrt.Assert(s != x, "a file is both searchable and excluded, or neither")
	if !bad && utf8.Valid(mid) {
		verifrt.Assert(s, "a file of valid UTF-8 text is not searchable")
	}
	verifrt.Reach("built")
}

// C09Limits: text within the documented size and line-length limits stays searchable.
func C09Limits() {
	var b []byte
	line := func(n int) {
		for i := 1; i < n; i++ {
			b = append(b, 'a'+byte(i%3))
		}
		b = append(b, '\n')
	}
	switch verifrt.Choose("case", 5) {
	case 0: // every line as long as allowed
		line(2000)
		line(2000)
	case 1: // one line in ten too long
		for i := 0; i < 9; i++ {
			line(3)
		}
		line(2500)
	case 2: // many different trigrams, but not too many
		x := uint32(12345)
		for len(b) < 19000 {
			x = x*1664525 + 1013904223
			b = append(b, '0'+byte(x>>24)&63)
			if len(b)%70 == 0 {
				b = append(b, '\n')
			}
		}
	case 3: // one long line without a newline
		line(2500)
		b = b[:len(b)-1]
	case 4: // a multi-byte character across the end of the peek window, then more text
		for len(b) < peek {
			line(8)
		}
		b[peek-1] = 0xe2
		b = append(b, 0x84, 0xaa, '\n')
	}
	s, x := buildOne(b)
	verifrt.Assert(s && !x, "a text file within the limits is not searchable")
}
