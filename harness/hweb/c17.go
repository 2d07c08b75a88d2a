package hweb

import (
	"encoding/json"
	"net/http"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
)

// reply is what a search request answers.
type reply struct {
	Error   *string
	Results map[string]*index.SearchResponse
	Stats   *struct {
		FilesOpened int
		Duration    int
	}
}

func decode(r *resp) *reply {
	verifrt.Assert(r.status == 200, "a search is answered with another status than 200")
	var p reply
	if err := json.Unmarshal(r.body, &p); err != nil {
		verifrt.Fail("a search is not answered with well-formed JSON: " + string(r.body))
	}
	verifrt.Assert((p.Error != nil) != (p.Results != nil), "a search is answered with neither or both of results and an error")
	return &p
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !verifrt.EqStr(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameMatches(a, b *index.SearchResponse) bool {
	if len(a.Matches) != len(b.Matches) || a.FilesWithMatch != b.FilesWithMatch || a.Revision != b.Revision {
		return false
	}
	ok := true
	for i, m := range a.Matches {
		n := b.Matches[i]
		if m.Filename != n.Filename || len(m.Matches) != len(n.Matches) || m.AutoGenerated != n.AutoGenerated {
			return false
		}
		for j, x := range m.Matches {
			y := n.Matches[j]
			ok = verifrt.And(ok, verifrt.EqStr(x.Line, y.Line))
			if x.LineNumber != y.LineNumber || !sameStrings(x.Before, y.Before) || !sameStrings(x.After, y.After) {
				return false
			}
		}
	}
	return ok
}

// the repository of C17: every option changes what is found in it
func world17() (map[string]*searcher.Searcher, http.Handler) {
	db := setup()
	trees["u"] = map[string]string{
		"a.txt": rep("l\n", 30) + "ab\n" + rep("m\n", 30),
		"b.go":  "ab\nAB\na.\nab\n",
		"c.txt": "ab\nxx\nab\n",
		"d.go":  "Ab a.\n",
	}
	ss := start(db, map[string]*config.Repo{"r": repo("u", false)})
	return ss, handler(ss, 3)
}

// opts17 checks that a request is answered as the searcher itself answers the options it should stand for.
func opts17(ss map[string]*searcher.Searcher, h http.Handler, q string, form map[string]string, want index.SearchOptions, stats bool) {
	form["q"] = q
	form["repos"] = "r"
	got := decode(do(h, "GET", "/api/v1/search", form, nil))
	exp, err := ss["r"].Search(q, &want)
	if err != nil {
		verifrt.Assert(got.Error != nil && *got.Error != "", "the error of a search is not reported")
		return
	}
	verifrt.Assert(got.Error == nil, "a search fails")
	verifrt.Assert((got.Stats != nil) == stats, "the statistics are present exactly when they are asked for")
	r := got.Results["r"]
	if exp.Matches == nil {
		verifrt.Assert(r == nil && len(got.Results) == 0, "results where there are none")
		return
	}
	verifrt.Reach("found")
	verifrt.Assert(r != nil && len(got.Results) == 1, "the results are missing")
	verifrt.Assert(sameMatches(r, exp), "the results are not those of the options that the request states")
	if stats {
		verifrt.Assert(got.Stats.FilesOpened == exp.FilesOpened, "wrong number of opened files")
	}
}

func defaults17() index.SearchOptions { return index.SearchOptions{LinesOfContext: 2, MaxResults: 3} }

// digits parses a plain decimal number.
func number(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, true
}

// C17Ctx: the context parameter.
func C17Ctx() {
	ss, h := world17()
	form := map[string]string{}
	want := defaults17()
	if verifrt.Choose("given", 2) == 1 {
		s := param("ctx", 2+verifrt.Tier(), "0123456789", []string{"18446744073709551615", "18446744073709551616", "18014398509481984", "-1", "+3", "1e1", "0x5", "00000000000000000000005", "4294967297", "9223372036854775808"})
		form["ctx"] = s
		n, ok := number(s)
		if ok {
			if n > 20 || len(s) > 15 {
				n = 20
			}
			want.LinesOfContext = uint(n)
		}
		if s == "00000000000000000000005" {
			want.LinesOfContext = 5
		}
		if s == "18446744073709551616" || s == "18014398509481984" || s == "18446744073709551615" || s == "9223372036854775808" {
			// too large to be parsed, or larger than the maximum: either is a safe reading
			alt := do(h, "GET", "/api/v1/search", map[string]string{"ctx": s, "q": "ab", "repos": "r"}, nil)
			def := defaults17()
			exp, _ := ss["r"].Search("ab", &def)
			if sameMatches(decode(alt).Results["r"], exp) {
				want = def
			}
		}
	}
	opts17(ss, h, "ab", form, want, false)
}

// param is any string of up to n of the bytes, or one of the list, or any 1 byte.
func param(name string, n int, alphabet string, list []string) string {
	switch k := verifrt.Choose(name+"kind", 2+len(list)); k {
	case 0:
		b := make([]byte, verifrt.Choose(name+"len", n+1))
		for i := range b {
			b[i] = verifrt.Byte(name)
			ok := false
			for j := 0; j < len(alphabet); j++ {
				ok = verifrt.Or(ok, b[i] == alphabet[j])
			}
			verifrt.Assume(ok)
		}
		return string(b)
	case 1:
		return string([]byte{verifrt.Byte(name)})
	default:
		return list[k-2]
	}
}

// C17Limit: the maximum number of results.
func C17Limit() {
	ss, h := world17()
	form := map[string]string{}
	want := defaults17()
	if verifrt.Choose("given", 2) == 1 {
		s := param("limit", 2+verifrt.Tier(), "-+0123456789", []string{"-1", "-2", "-9223372036854775808", "-99999999999999999999", "100000", "100001", "9223372036854775807", "9223372036854775808", "99999999999999999999", "4294967297", "-4294967295", "0x1", "1.0", " 1", ""})
		form["limit"] = s
		neg, d := false, s
		if len(d) > 0 && (d[0] == '-' || d[0] == '+') {
			neg = d[0] == '-'
			d = d[1:]
		}
		n, ok := number(d)
		if ok {
			if neg {
				n = -n
			}
			if n < -1 {
				n = -1
			}
			if n > 100000 {
				n = 100000
			}
			want.MaxResults = n
			if len(d) > 18 { // too large to be parsed, or clamped: either is a safe reading
				r := decode(do(h, "GET", "/api/v1/search", map[string]string{"limit": s, "q": "ab", "repos": "r"}, nil))
				def := defaults17()
				exp, _ := ss["r"].Search("ab", &def)
				all := index.SearchOptions{LinesOfContext: 2, MaxResults: -1}
				exp2, _ := ss["r"].Search("ab", &all)
				verifrt.Assert(sameMatches(r.Results["r"], exp) || sameMatches(r.Results["r"], exp2), "a huge limit is neither the default nor the largest or smallest limit")
				return
			}
		}
	}
	opts17(ss, h, "ab", form, want, false)
}

// C17Range: offset and limit of the files.
func C17Range() {
	ss, h := world17()
	form := map[string]string{}
	want := defaults17()
	want.MaxResults = -1
	form["limit"] = "-1"
	big := []string{"", "1", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "18446744073709551616", "-1", "+1", "4294967297"}
	var b, e string
	sep := true
	if verifrt.Choose("big", 2) == 0 {
		s := param("rng", 3+verifrt.Tier(), ":-0123", nil)
		form["rng"] = s
		sep = false
		for i := 0; i < len(s) && !sep; i++ {
			if s[i] == ':' {
				sep = true
				b, e = s[:i], s[i+1:]
			}
		}
	} else {
		b, e = big[verifrt.Choose("from", len(big))], big[verifrt.Choose("to", len(big))]
		form["rng"] = b + ":" + e
	}
	safe := func(s string) (int, int) { // the readings of a number
		n, ok := number(s)
		if !ok {
			return 0, 0
		}
		if s == "9223372036854775807" {
			return 1<<63 - 1, 1<<63 - 1
		}
		if len(s) > 18 {
			return 0, 1<<63 - 1
		}
		return n, n
	}
	if sep {
		b1, b2 := safe(b)
		e1, e2 := safe(e)
		got := decode(do(h, "GET", "/api/v1/search", map[string]string{"limit": "-1", "q": "ab", "repos": "r", "rng": form["rng"]}, nil))
		if b1 != b2 || e1 != e2 {
			okay := false
			for _, o := range []int{b1, b2} {
				for _, l := range []int{e1, e2} {
					want.Offset, want.Limit = o, l
					exp, _ := ss["r"].Search("ab", &want)
					r := got.Results["r"]
					if r == nil {
						okay = okay || exp.Matches == nil
					} else {
						okay = okay || sameMatches(r, exp)
					}
				}
			}
			verifrt.Assert(okay, "a huge offset or limit is not clamped")
			return
		}
		want.Offset, want.Limit = b1, e1
	}
	opts17(ss, h, "ab", form, want, false)
}

func foldIs(s, t string) bool {
	if len(s) != len(t) {
		return false
	}
	r := true
	for i := 0; i < len(s); i++ {
		c := t[i]
		if c >= 'a' {
			r = verifrt.And(r, verifrt.Or(s[i] == c, s[i] == c-32))
		} else {
			r = verifrt.And(r, s[i] == c)
		}
	}
	return r
}

// C17Flags: the boolean parameters.
func C17Flags() {
	ss, h := world17()
	form := map[string]string{}
	want := defaults17()
	want.MaxResults = -1
	form["limit"] = "-1"
	name := []string{"i", "literal", "stats"}[verifrt.Choose("flag", 3)]
	var s string
	if n := verifrt.Choose("len", 8); n < 6 {
		s = verifrt.String("value", n)
		for i := 0; i < n; i++ {
			verifrt.Assume(s[i] < 0x80)
		}
	} else {
		s = []string{"TRUE ", "foſho", "ｔｒｕｅ", "on", "yes", "t", "truetrue", "11", "1.0", "true,1"}[verifrt.Choose("odd", 10)]
	}
	form[name] = s
	on := false
	if foldIs(s, "true") || foldIs(s, "1") || foldIs(s, "fosho") {
		on = true
		verifrt.Reach("on")
	}
	switch name {
	case "i":
		want.IgnoreCase = on
	case "literal":
		want.LiteralSearch = on
	}
	opts17(ss, h, "a.", form, want, name == "stats" && on)
}

// C17Rest: the remaining parameters, all at once.
func C17Rest() {
	ss, h := world17()
	form := map[string]string{}
	want := defaults17()
	pick := func(k string, list ...string) string {
		if i := verifrt.Choose(k, 1+len(list)); i > 0 {
			form[k] = list[i-1]
			return list[i-1]
		}
		return ""
	}
	want.FileRegexp = pick("files", "txt", "(", "^b")
	want.ExcludeFileRegexp = pick("excludeFiles", "txt", "[", "d")
	if pick("i", "1", "0") == "1" {
		want.IgnoreCase = true
	}
	if pick("literal", "Fosho") != "" {
		want.LiteralSearch = true
	}
	if pick("rng", "1:1") != "" {
		want.Offset, want.Limit = 1, 1
	}
	if pick("limit", "1") != "" {
		want.MaxResults = 1
	}
	if pick("ctx", "1") != "" {
		want.LinesOfContext = 1
	}
	q := []string{"a.", "a", "(", "", "zzz", "ab|xx"}[verifrt.Choose("q", 6)]
	opts17(ss, h, q, form, want, pick("stats", "1") != "")
}

// C17Bytes: whatever the file and the query hold, the answer is well-formed JSON.
func C17Bytes() {
	db := setup()
	n := 2 + verifrt.Tier()
	line := verifrt.Bytes("line", n)
	trees["u"] = map[string]string{"a.txt": "abc\n"}
	ss := start(db, map[string]*config.Repo{"r": repo("u", false)})
	setContent(db, "a.txt", []byte("abc"+string(line)+"\n"))
	h := handler(ss, 3)
	r := decode(do(h, "GET", "/api/v1/search", map[string]string{"q": "abc", "repos": "r", "stats": "1"}, nil))
	verifrt.Assert(r.Error == nil, "search fails")
	verifrt.Reach("found")
}

// C17Query: whatever the query, the answer is well-formed JSON with results or an error.
func C17Query() {
	_, h := world17()
	s := verifrt.String("q", 1+verifrt.Choose("len", 1+verifrt.Tier()))
	p := []string{"q", "files", "excludeFiles"}[verifrt.Choose("param", 3)]
	form := map[string]string{"q": "ab", "repos": "r"}
	form[p] = s
	decode(do(h, "GET", "/api/v1/search", form, nil))
	verifrt.Reach("answered")
}
