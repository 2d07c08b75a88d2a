package hclient

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

type trip func(r *http.Request) (*http.Response, error)

func (t trip) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }

// server answers every HTTP request of the client.
func server(f func(r *http.Request) (*http.Response, error)) {
	vmodel.HTTPDo = f
	if !verifrt.InEngine() {
		http.DefaultTransport = trip(f)
	}
}

type body struct {
	r    io.Reader
	fail bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		err = errors.New("connection reset")
	}
	return n, err
}

func (b *body) Close() error { return nil }

func reply(status int, text string, fail bool) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json;charset=utf-8"}}, Body: &body{strings.NewReader(text), fail}, ContentLength: -1}
}

// one is the only value of a parameter.
func one(r *http.Request, k string) string {
	v := r.Form[k]
	verifrt.Assert(len(v) <= 1, "a parameter is sent twice")
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func truth(s string) bool {
	s = strings.ToLower(s)
	return s == "true" || s == "1" || s == "fosho"
}

// C29Ask: the search that arrives at the server is the one that was asked for.
func C29Ask() {
	verifrt.Opt("preempt", 0)
	any := func(name string, n int) string { return verifrt.String(name, verifrt.Choose(name+"len", n+1)) }
	pat, repos, files := "a b", "*", ""
	switch verifrt.Choose("which", 3) {
	case 0:
		pat = any("pattern", 1+verifrt.Tier())
	case 1:
		repos = any("repos", 1+verifrt.Tier())
	case 2:
		files = any("files", 1+verifrt.Tier())
	}
	ctx := []int{0, 1, 2, 20, 300}[verifrt.Choose("ctx", 5)]
	icase, stats := verifrt.Choose("i", 2) == 1, verifrt.Choose("stats", 2) == 1
	cfg := &client.Config{Host: "hound.example:6080"}
	host, token := cfg.Host, ""
	if verifrt.Choose("headers", 2) == 1 {
		cfg.HttpHeaders = map[string]string{[]string{"Host", "host", "HOST"}[verifrt.Choose("host", 3)]: "other.example", "X-Token": "t k"}
		host, token = "other.example", "t k"
	}
	var mu sync.Mutex
	nsearch, nrepos := 0, 0
	server(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		verifrt.Assert(r.Method == "GET" && r.URL.Scheme == "http" && r.URL.Host == cfg.Host, "a request to another place")
		h := r.Host
		if h == "" {
			h = r.URL.Host
		}
		verifrt.Assert(h == host, "a request has another host")
		verifrt.Assert(r.Header.Get("X-Token") == token, "a configured header is not sent")
		switch r.URL.Path {
		case "/api/v1/search":
			nsearch++
			verifrt.Assert(r.ParseForm() == nil, "the request cannot be understood")
			verifrt.Assert(verifrt.EqStr(one(r, "q"), pat), "another pattern is searched")
			verifrt.Assert(verifrt.EqStr(one(r, "repos"), repos), "other repositories are searched")
			verifrt.Assert(verifrt.EqStr(one(r, "files"), files), "other files are searched")
			verifrt.Assert(one(r, "ctx") == dec10(ctx), "another number of lines of context is asked for")
			verifrt.Assert(truth(one(r, "i")) == icase, "case is treated in another way")
			verifrt.Assert(truth(one(r, "stats")) == stats, "statistics are asked for or not")
			verifrt.Assert(one(r, "rng") == "" && one(r, "excludeFiles") == "" && !truth(one(r, "literal")), "a search that is restricted in another way")
			return reply(200, `{"Results":{}}`, false), nil
		case "/api/v1/repos":
			nrepos++
			return reply(200, `{}`, false), nil
		}
		verifrt.Fail("a request for something else")
		return nil, nil
	})
	res, rs, err := client.SearchAndLoadRepos(cfg, pat, repos, files, ctx, icase, stats)
	verifrt.Assert(err == nil && res != nil && len(res.Results) == 0 && len(rs) == 0, "an empty answer is an error")
	verifrt.Assert(nsearch == 1 && nrepos == 1, "the wrong number of requests")
	verifrt.Reach("asked")
}

func dec10(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return dec10(n/10) + string([]byte{byte('0' + n%10)})
}

const (
	aGood = iota
	aStatus
	aText
	aCut
	aError
	aConnect
	aReset
	aKinds
)

// answer is one of the ways in which a request can be answered.
func answer(kind int, good string) (*http.Response, error) {
	switch kind {
	case aStatus:
		return reply([]int{404, 500, 503}[verifrt.Choose("status", 3)], good, false), nil
	case aText:
		return reply(200, "Hound is not ready.\n", false), nil
	case aCut:
		return reply(200, good[:len(good)-2], false), nil
	case aError:
		return reply(200, `{"Error":"error parsing regexp"}`, false), nil
	case aConnect:
		return nil, errors.New("connection refused")
	case aReset:
		return reply(200, good[:len(good)/2], true), nil
	}
	return reply(200, good, false), nil
}

// C29Answer: the answers of the server are what the client gets; a failure is an error.
func C29Answer() {
	text := verifrt.String("line", 1)
	verifrt.Assume(verifrt.And(text[0] > ' ', verifrt.And(text[0] < 127, verifrt.And(text[0] != '"', text[0] != '\\'))))
	verifrt.Assume(verifrt.And(text[0] != '&', verifrt.And(text[0] != '<', text[0] != '>')))
	sent := &index.SearchResponse{FilesWithMatch: 3, Revision: "rev", Matches: []*index.FileMatch{{Filename: "f", Matches: []*index.Match{
		{Line: text, LineNumber: 7, Before: []string{"b1", "b2"}, After: []string{text}}, {Line: "two", LineNumber: 9}}}}}
	good, err := json.Marshal(map[string]interface{}{"Results": map[string]*index.SearchResponse{"r": sent}})
	verifrt.Assert(err == nil, "harness")
	list, err := json.Marshal(map[string]*config.Repo{"r": {Url: "http://h/" + text, DisplayName: "name"}, "s": {Url: "u"}})
	verifrt.Assert(err == nil, "harness")
	ks, kr := verifrt.Choose("search", aKinds), verifrt.Choose("repos", aKinds)
	server(func(r *http.Request) (*http.Response, error) {
		if r.URL.Path == "/api/v1/search" {
			return answer(ks, string(good))
		}
		return answer(kr, string(list))
	})
	res, repos, err := client.SearchAndLoadRepos(&client.Config{Host: "h"}, "x", "*", "", 2, false, false)
	if ks != aGood || kr != aGood {
		verifrt.Assert(err != nil, "a failure is not reported")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(err == nil && res != nil, "an answer is an error")
	got := res.Results["r"]
	verifrt.Assert(len(res.Results) == 1 && got != nil && got.FilesWithMatch == 3 && got.Revision == "rev", "the results are not those of the server")
	verifrt.Assert(len(got.Matches) == 1 && got.Matches[0].Filename == "f" && len(got.Matches[0].Matches) == 2, "the matches are not those of the server")
	m, n := got.Matches[0].Matches[0], got.Matches[0].Matches[1]
	verifrt.Assert(verifrt.EqStr(m.Line, text) && m.LineNumber == 7 && len(m.Before) == 2 && m.Before[0] == "b1" && m.Before[1] == "b2" && len(m.After) == 1 && verifrt.EqStr(m.After[0], text), "a match is not that of the server")
	verifrt.Assert(n.Line == "two" && n.LineNumber == 9 && len(n.Before) == 0 && len(n.After) == 0, "a match is not that of the server")
	verifrt.Assert(len(repos) == 2 && repos["r"] != nil && repos["s"] != nil, "the repositories are not those of the server")
	verifrt.Assert(repos["r"].DisplayName == "name" && verifrt.EqStr(repos["r"].Url, "http://h/"+text) && repos["s"].Url == "u", "a repository is not that of the server")
	verifrt.Reach("answered")
}
