package hclient

import (
	"regexp"
	"strings"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

var c24Patterns = []string{"a", "ab?", "a*", "b+a", "é", "(?i)k", "^a", "a$", "(a|ab)(c|)", "."}

func fg(on bool, s string, code string) string {
	if !on {
		return s
	}
	return "\x1b[" + code + "m" + s + "\x1b[0m"
}

// C24Hilite prints one matching and one context line of arbitrary bytes.
func C24Hilite() {
	n := 3
	if verifrt.Tier() > 0 {
		n = 5
	}
	re := regexp.MustCompile(c24Patterns[verifrt.Choose("pattern", len(c24Patterns))])
	tty := verifrt.Choose("tty", 2) == 1
	line := verifrt.String("line", verifrt.Choose("len", n+1))
	other := verifrt.String("context line", 2)
	verifrt.Shape(re.String())
	f, read := hx.Output(tty)
	p := client.NewAckPresenter(f)
	res := &client.Response{Results: map[string]*index.SearchResponse{
		"k": {Matches: []*index.FileMatch{{Filename: "f", Matches: []*index.Match{{Line: line, LineNumber: 7, After: []string{other}}}}}},
	}}
	err := p.Present(re, 1, map[string]*config.Repo{}, res)
	verifrt.Assert(err == nil, "presenting fails")
	hl := ""
	end := 0
	for _, m := range re.FindAllStringIndex(line, -1) {
		hl += line[end:m[0]] + fg(tty, line[m[0]:m[1]], "1;30;103")
		end = m[1]
	}
	hl += line[end:]
	exp := fg(tty, "k", "1;31") + "\n" + fg(tty, "f", "1;32") + "\n" +
		fg(tty, "7", "1;33") + ":     " + hl + "\n" +
		fg(tty, "8", "1;33") + "-     " + other + "\n--\n\n"
	got := string(read())
	verifrt.Log(got)
	verifrt.Log(exp)
	if !tty {
		verifrt.Assert(verifrt.EqStr(hl, line), "text lost")
	}
	if tty {
		// the colours may change, the text and its extent may not
		verifrt.Assert(verifrt.EqStr(stripCodes(got), stripCodes(exp)), "the printed text differs from the lines of the response")
		verifrt.Assert(verifrt.EqStr(marks(got), marks(exp)), "the coloured parts are not the matching parts")
	} else {
		verifrt.Assert(verifrt.EqStr(got, exp), "the printed text differs from the lines of the response")
	}
	verifrt.Reach("printed")
}

// stripCodes removes the terminal codes that were printed. A code is recognised at concrete escape
// bytes only: escape bytes of the input are text.
func stripCodes(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if !verifrt.IsSym(int64(s[i])) && s[i] == 0x1b && verifrt.InEngine() {
			for i < len(s) && s[i] != 'm' {
				i++
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// marks replaces each code by one byte.
func marks(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if !verifrt.IsSym(int64(s[i])) && s[i] == 0x1b && verifrt.InEngine() {
			j := i
			for j < len(s) && s[j] != 'm' {
				j++
			}
			c := byte(1)
			if s[i:j] == "\x1b[0" || s[i:j] == "\x1b[" {
				c = 2
			}
			out = append(out, c)
			i = j
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// C24Name prints the name of a repository with an arbitrary URL.
func C24Name() {
	n := 9
	if verifrt.Tier() > 0 {
		n = 12
	}
	url := verifrt.String("url", verifrt.Choose("len", n+1))
	// only '/', '.', and letters matter
	disp := ""
	if verifrt.Choose("display name", 2) == 1 {
		disp = "D"
	}
	repos := map[string]*config.Repo{}
	known := verifrt.Choose("known", 2) == 1
	if known {
		repos["key"] = &config.Repo{Url: url, DisplayName: disp}
	}
	f, read := hx.Output(false)
	res := &client.Response{Results: map[string]*index.SearchResponse{"key": {}}}
	err := client.NewAckPresenter(f).Present(regexp.MustCompile("x"), 0, repos, res)
	verifrt.Assert(err == nil, "presenting fails")
	b := read()
	verifrt.Assert(len(b) > 0 && b[len(b)-1] == '\n', "the name is not printed")
	got := string(b[:len(b)-1])
	switch {
	case !known:
		verifrt.Assert(got == "key", "unknown repository not named by its key")
	case disp != "":
		verifrt.Assert(got == "D", "display name not used")
	default:
		i := strings.LastIndex(url, "/")
		if i < 0 {
			verifrt.Assert(got == "key", "URL without path not named by its key")
			break
		}
		base := strings.TrimSuffix(url, ".git")
		if i >= len(base) {
			base = url[:i+1] // the last component is only ".git"
		}
		last := base[i+1:]
		verifrt.Assert(got != "", "empty name")
		if got == "key" {
			verifrt.Assert(last == "" || last == "key", "URL with a path named by its key")
			break
		}
		verifrt.Assert(strings.HasSuffix(got, last) && strings.HasSuffix(base, got), "the name is not made of the last path components")
		// at most two components
		verifrt.Assert(strings.Contains(url, "//") || strings.Count(got, "/") <= 1, "more than two path components")
		if j := strings.LastIndex(url[:i], "/"); j >= 0 && j < i-1 && !strings.HasSuffix(base, "/") {
			verifrt.Assert(verifrt.EqStr(got, url[j+1:i]+"/"+last), "the name is not owner/name")
		}
	}
	verifrt.Reach("named")
}

// C24Empty prints responses with missing parts.
func C24Empty() {
	f, read := hx.Output(false)
	res := &client.Response{}
	switch verifrt.Choose("shape", 4) {
	case 1:
		res.Results = map[string]*index.SearchResponse{}
	case 2:
		res.Results = map[string]*index.SearchResponse{"r": {}}
	case 3:
		res.Results = map[string]*index.SearchResponse{"r": {Matches: []*index.FileMatch{{Filename: "f"}}}}
	}
	var repos map[string]*config.Repo
	if verifrt.Choose("repos", 2) == 1 {
		repos = map[string]*config.Repo{"r": nil}
	}
	err := client.NewAckPresenter(f).Present(regexp.MustCompile("x"), verifrt.Int("ctx", 0, 3), repos, res)
	verifrt.Assert(err == nil, "presenting fails")
	read()
	verifrt.Reach("printed")
}
