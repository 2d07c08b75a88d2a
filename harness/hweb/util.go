// Package hweb checks what clients of the server see: the API, the pages, the configuration they embed.
package hweb

import (
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"net/http"
	"net/url"
	"os"
	"path/filepath"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// files are the contents of the repositories, by URL.
var trees = map[string]map[string]string{}

var pulls = map[string]int{}
var dirs = map[string]string{}

type driver struct{}

func (d *driver) Clone(dir, url string) (string, error) {
	hx.Mkdir(dir)
	for n, c := range trees[url] {
		hx.Put(filepath.Join(dir, n), []byte(c))
	}
	dirs[dir] = url
	return "rev-" + url, nil
}

func (d *driver) Pull(dir string) (string, error) {
	pulls[dirs[dir]]++
	return "rev-" + dirs[dir], nil
}

func (d *driver) HeadRev(dir string) (string, error)     { return "rev-" + dirs[dir], nil }
func (d *driver) SpecialFiles() []string                 { return []string{".fake"} }
func (d *driver) AutoGeneratedFiles(dir string) []string { return nil }

func setup() string {
	verifrt.Opt("preempt", 0)
	verifrt.Opt("timers", 0)
	verifrt.Opt("onesched", 1)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	vcs.Register(func(c []byte) (vcs.Driver, error) { return &driver{}, nil }, "fake")
	return hx.Dir("db")
}

func boolp(b bool) *bool { return &b }

func repo(url string, push bool) *config.Repo {
	return &config.Repo{Url: url, Vcs: "fake", MsBetweenPolls: 3600000, EnablePushUpdates: boolp(push), EnablePollUpdates: boolp(false),
		UrlPattern: &config.UrlPattern{BaseUrl: "{url}", Anchor: "#L{line}"}}
}

// start makes the searchers of the given repositories.
func start(db string, repos map[string]*config.Repo) map[string]*searcher.Searcher {
	ss, errs, err := searcher.MakeAll(&config.Config{DbPath: db, MaxConcurrentIndexers: 1, Repos: repos})
	verifrt.Assert(err == nil && len(errs) == 0 && len(ss) == len(repos), "startup fails")
	return ss
}

// handler is the API over the given searchers.
func handler(ss map[string]*searcher.Searcher, limit int) http.Handler {
	m := http.NewServeMux()
	api.Setup(m, ss, limit)
	return m
}

// setContent replaces the stored contents of an indexed file.
func setContent(db, name string, data []byte) {
	var b bytes.Buffer
	g := gzip.NewWriter(&b)
	g.Write(data)
	g.Close()
	store(db, name, b.Bytes())
}

// breakContent makes the stored contents of a file unreadable.
func breakContent(db, name string) { store(db, name, []byte("this is not gzip")) }

func store(db, name string, data []byte) {
	for _, n := range hx.Names(db) {
		p := filepath.Join(db, n, "raw", name)
		if len(n) < 4 || n[:4] != "idx-" || !hx.Exists(p) {
			continue
		}
		f, err := os.Create(p)
		if err != nil {
			verifrt.Unsupported("cannot replace stored contents")
		}
		f.Write(data)
		f.Close()
		return
	}
	verifrt.Unsupported("stored contents are not at idx-*/raw/<name>")
}

// resp records a response.
type resp struct {
	hdr    http.Header
	status int
	heads  int // explicit statuses sent
	late   bool
	body   []byte
}

func (r *resp) Header() http.Header { return r.hdr }
func (r *resp) WriteHeader(s int) {
	if r.status != 0 {
		r.late = true
		return
	}
	r.heads++
	r.status = s
}
func (r *resp) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

const hex = "0123456789ABCDEF"

// do sends a request with the given parameters.
func do(h http.Handler, method, path string, form map[string]string, body []byte) *resp {
	vals := url.Values{}
	var q []byte
	for k, v := range form {
		vals[k] = []string{v}
		sym := false
		for i := 0; i < len(v); i++ {
			sym = sym || verifrt.IsSym(int64(v[i]))
		}
		if sym {
			continue // the parsed form is used
		}
		if len(q) > 0 {
			q = append(q, '&')
		}
		q = append(q, k...)
		q = append(q, '=')
		for i := 0; i < len(v); i++ {
			q = append(q, '%', hex[v[i]>>4], hex[v[i]&15])
		}
	}
	r := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: string(q)}, Host: "host", Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Body: ioutil.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), RequestURI: path}
	if verifrt.InEngine() {
		r.Form = vals
		r.PostForm = url.Values{}
	}
	w := &resp{hdr: http.Header{}}
	h.ServeHTTP(w, r)
	verifrt.Assert(w.status != 0 || len(w.body) == 0, "no status")
	verifrt.Assert(!w.late, "a second status is sent for one request")
	if w.status == 0 {
		w.status = 200
	}
	return w
}

// rep is n copies of a line.
func rep(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + itoa(n%10)
}

func reader(s string) *bytes.Reader { return bytes.NewReader([]byte(s)) }

// Do sends a request and returns status and body of the answer.
func Do(h http.Handler, method, path string, form map[string]string) (int, string) {
	r := do(h, method, path, form, nil)
	return r.status, string(r.body)
}
