package hweb

import (
	"errors"
	"net/http"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
	"github.com/hound-search/hound/web"
)

// site is a server and what it answers when it is complete.
type site struct {
	cfg *config.Config
	ss  map[string]*searcher.Searcher
	s   *web.Server
	dev bool
	// what it listens with
	addr    string
	handler http.Handler
	fail    chan error
	end     chan error
}

func newSite(dev bool, uri string) *site {
	verifrt.Opt("race", 1)
	db := setup()
	w := &site{dev: dev, fail: make(chan error, 1), end: make(chan error, 1)}
	trees["u:a"] = map[string]string{"f": "x a\n"}
	trees["u:b"] = map[string]string{"f": "x b\n"}
	w.cfg = &config.Config{DbPath: db, Title: "Hound", MaxConcurrentIndexers: 1, HealthCheckURI: uri, ResultLimit: 10,
		Repos: map[string]*config.Repo{"a": repo("u:a", true), "b": repo("u:b", false)}}
	w.ss = start(db, w.cfg.Repos)
	verifrt.WaitIdle()
	verifrt.Opt("onesched", 0)
	vmodel.ListenHook = func(addr string, h http.Handler) error {
		w.addr, w.handler = addr, h
		return <-w.fail
	}
	return w
}

func (w *site) start() {
	w.s = web.Start(w.cfg, ":6080", w.dev)
}

func (w *site) serve() {
	go func() { w.end <- w.s.ServeWithIndex(w.ss) }()
}

// paths whose answers come from each part of the application.
var paths = []string{"/api/v1/repos", "/", "/open_search.xml", "/excluded_files.html", "/js/hound.js", "/nothing", "/api/v1/search", "/api/v1/excludes", "/api/v1/update", "/api/v1/github-webhook"}

// few of them do not start goroutines of their own.
var few = []string{"/", "/open_search.xml", "/api/v1/repos", "/js/hound.js"}

func (w *site) ask(p string) *resp {
	switch p {
	case "/api/v1/search":
		return do(w.s, "GET", p, map[string]string{"q": "x", "repos": "*"}, nil)
	case "/api/v1/excludes":
		return do(w.s, "GET", p, map[string]string{"repo": "a"}, nil)
	}
	return do(w.s, "GET", p, nil, nil)
}

// complete checks that an answer is the one of the complete application.
func (w *site) complete(p string, r *resp) {
	want := map[string]string{
		"/": "<!DOCTYPE", "/open_search.xml": "<?xml", "/excluded_files.html": "<!DOCTYPE",
		"/api/v1/repos": `{"a":{`, "/api/v1/search": `{"Results":{"a":{`, "/api/v1/excludes": "[]", "/js/hound.js": "/",
	}[p]
	status := 200
	switch p {
	case "/nothing":
		status, want = 404, "404"
	case "/api/v1/update", "/api/v1/github-webhook":
		status, want = 405, `{"Error":`
	}
	if w.dev && p == "/js/hound.js" {
		status, want = 404, "" // the stand-in of the file server
	}
	verifrt.Assert(r.status == status, p+" is answered "+itoa(r.status)+" by a server that is not set up completely")
	verifrt.Assert(len(r.body) >= len(want) && string(r.body[:len(want)]) == want, p+" is answered by a server that is not set up completely: "+string(r.body))
	if p == "/api/v1/repos" || p == "/api/v1/search" {
		n := 0
		for i := 0; i+5 <= len(r.body); i++ {
			if s := string(r.body[i : i+5]); s == `"a":{` || s == `"b":{` {
				n++
			}
		}
		verifrt.Assert(n == 2, p+" is answered from a part of the repositories: "+string(r.body))
	}
}

func healthy(r *resp) { verifrt.Assert(r.status == 200, "the health check is answered "+itoa(r.status)) }

// C22: requests during the transition.
func c22(dev bool, clients, each, preempt int, which []string) {
	w := newSite(dev, "/healthz")
	verifrt.Opt("preempt", preempt)
	verifrt.Delays(1)
	w.start()
	done := 0
	enabled := false // a request was served by the application
	first, step := verifrt.Choose("path", len(which)), verifrt.Choose("step", 2)
	for i := 0; i < clients; i++ {
		i := i
		go func() {
			for k := 0; k < each; k++ {
				p := "/healthz"
				if k == 0 || i > 0 {
					p = which[(first+(i+k)*step)%len(which)]
				}
				before := enabled
				r := w.ask(p)
				if p == "/healthz" {
					healthy(r)
					continue
				}
				if r.status == 503 {
					verifrt.Assert(!before, "a request is refused after another one was served")
					verifrt.Reach("refused")
					continue
				}
				enabled = true
				w.complete(p, r)
				verifrt.Reach("served")
			}
			done++
		}()
	}
	w.serve()
	verifrt.WaitIdle()
	verifrt.Opt("preempt", 0)
	verifrt.Opt("onesched", 1)
	verifrt.Assert(done == clients, "a request is never answered")
	for _, p := range paths {
		w.complete(p, w.ask(p))
	}
	healthy(w.ask("/healthz"))
	verifrt.Assert(w.addr == ":6080" && w.handler == http.Handler(w.s), "the server does not listen as asked")
	verifrt.Assert(len(w.end) == 0, "the server ends by itself")
}

// C22: requests of two clients during the transition.
func C22() { c22(false, 2, 2, 2+verifrt.Tier(), few) }

// C22Dev: in development mode.
func C22Dev() { c22(true, 2, 2, 1+verifrt.Tier(), few) }

// C22More: three clients.
func C22More() { c22(verifrt.Choose("dev", 2) == 1, 3, 1+verifrt.Tier(), 1+verifrt.Tier(), paths) }

// C22Path: which requests are for the health check.
func C22Path() {
	uri := "/healthz"
	if verifrt.Choose("own", 2) == 1 {
		n := verifrt.Choose("ulen", 3)
		uri = "/" + verifrt.String("uri", n)
	}
	w := newSite(false, uri)
	w.start()
	p := "/healthz"
	switch k := verifrt.Choose("kind", 4+verifrt.Tier()); k {
	case 0:
	case 1:
		p = "/healthz/"
	case 2, 3, 4:
		p = "/" + verifrt.String("path", k-2)
	}
	health := len(p) == len(uri) && verifrt.EqStr(p, uri)
	verifrt.Opt("onesched", 1)
	method := []string{"GET", "HEAD", "POST"}[verifrt.Choose("method", 3)]
	r := do(w.s, method, p, nil, nil)
	if health {
		healthy(r)
		verifrt.Reach("healthy")
	} else {
		verifrt.Assert(r.status == 503, "a request is answered "+itoa(r.status)+" before the indexes exist")
		verifrt.Reach("refused")
	}
	w.serve()
	verifrt.WaitIdle()
	r = do(w.s, method, p, nil, nil)
	if health {
		healthy(r)
	} else {
		verifrt.Assert(r.status != 503, "a request is refused although the indexes exist")
		verifrt.Reach("served")
	}
}

// C22Fail: the server reports why it cannot listen, whenever that happens.
func C22Fail() {
	w := newSite(verifrt.Choose("dev", 2) == 1, "/healthz")
	verifrt.Opt("preempt", 2)
	why := errors.New("address already in use")
	w.start()
	go func() { w.fail <- why }()
	if verifrt.Choose("early", 2) == 1 {
		verifrt.WaitIdle()
	}
	w.serve()
	verifrt.WaitIdle()
	verifrt.Assert(len(w.end) == 1, "the failure to listen is not reported")
	verifrt.Assert(<-w.end == why, "another failure is reported than the one that happened")
	verifrt.Reach("failed")
}

// C22Broken: a server without its pages refuses requests and says why.
func C22Broken() {
	w := newSite(false, "/healthz")
	missing = []string{"index.tpl.html", "open_search.tpl.xml", "excluded_files.tpl.html"}[verifrt.Choose("page", 3)]
	w.start()
	w.serve()
	verifrt.WaitIdle()
	verifrt.Assert(len(w.end) == 1, "the server runs although one of its pages is missing")
	verifrt.Assert(<-w.end != nil, "the server ends without an error although one of its pages is missing")
	verifrt.Assert(w.ask(paths[0]).status == 503, "a server that is not set up serves requests")
	healthy(w.ask("/healthz"))
	verifrt.Reach("broken")
}

var _ = hx.Dir
