// Package hmain checks the two commands as wholes.
package hmain

import (
	"errors"
	"net/http"
	"os"
	"path/filepath"
	"syscall"

	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/cmd_houndd"
	"github.com/hound-search/hound/verifh/hweb"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

var errVcs = errors.New("vcs failed")

// origin is where a repository comes from.
type origin struct {
	rev    string
	text   string
	dead   bool
	starts int
	ends   int
}

var origins = map[string]*origin{}
var dirs = map[string]string{}

type driver struct{}

func (d *driver) get(dir string) (string, error) {
	o := origins[dirs[dir]]
	o.starts++
	verifrt.SchedPoint()
	defer func() { o.ends++ }()
	if o.dead {
		return "", errVcs
	}
	if o.text == "" {
		o.text = "rev " + o.rev + "\n"
	}
	hx.Put(filepath.Join(dir, "f.txt"), []byte(o.text))
	return o.rev, nil
}

func (d *driver) Clone(dir, url string) (string, error) {
	dirs[dir] = url
	return d.get(dir)
}
func (d *driver) Pull(dir string) (string, error)        { return d.get(dir) }
func (d *driver) HeadRev(dir string) (string, error)     { return origins[dirs[dir]].rev, nil }
func (d *driver) SpecialFiles() []string                 { return []string{".fake"} }
func (d *driver) AutoGeneratedFiles(dir string) []string { return nil }

// daemon is a run of the server.
type daemon struct {
	handler http.Handler
	addr    string
	listen  chan error
	client  func() // sends requests as soon as the server listens
	exited  bool
	code    int
	died    interface{}
}

var d *daemon

func newDaemon(names string, extra string) *daemon {
	verifrt.Opt("preempt", 0)
	verifrt.Opt("timers", 0)
	verifrt.Opt("race", 1)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	vcs.Register(func(c []byte) (vcs.Driver, error) { return &driver{}, nil }, "fake")
	hx.Mkdir("/w")
	conf := `{"dbpath":"/w/db","health-check-uri":"/healthz"` + extra + `,"repos":{`
	for i := 0; i < len(names); i++ {
		if i > 0 {
			conf += ","
		}
		n := names[i : i+1]
		origins["u:"+n] = &origin{rev: "0"}
		conf += `"` + n + `":{"url":"u:` + n + `","vcs":"fake","enable-poll-updates":false,"enable-push-updates":true}`
	}
	hx.Put("/w/config.json", []byte(conf+"}}"))
	os.Args = []string{"houndd", "-conf", "/w/config.json"}
	d = &daemon{listen: make(chan error)}
	vmodel.ListenHook = func(addr string, h http.Handler) error {
		d.addr, d.handler = addr, h
		if d.client != nil {
			go d.client()
		}
		return <-d.listen
	}
	return d
}

// run runs the command until it ends.
func (d *daemon) run() {
	defer func() {
		if r := recover(); r != nil {
			d.died = r
		}
	}()
	cmd_houndd.Main()
	d.died = "the command returns"
}

func busy() bool {
	for _, o := range origins {
		if o.starts > o.ends {
			return true
		}
	}
	return false
}

func started() int {
	n := 0
	for _, o := range origins {
		n += o.starts
	}
	return n
}

// whole checks that the database holds one complete index for each of the repositories.
func whole(n int) {
	k := 0
	for _, x := range hx.Names("/w/db") {
		if len(x) > 4 && x[:4] == "idx-" {
			k++
			for _, f := range []string{"tri", "metadata.gob", "excluded_files.json"} {
				verifrt.Assert(hx.Exists("/w/db/"+x+"/"+f), "the process ends while an index is incomplete")
			}
		}
	}
	verifrt.Assert(k == n, "the process ends while an index is being replaced")
}

// C15Main: SIGTERM at any moment of the life of the server.
func C15Main() {
	names := []string{"a", "ab"}[verifrt.Choose("repos", 2)]
	d := newDaemon(names, "")
	verifrt.Opt("preempt", 1+verifrt.Tier())
	verifrt.Delays(1)
	sent, dead := false, false
	vmodel.ExitHook = func(code int, msg string) {
		if dead {
			return
		}
		verifrt.Assert(sent, "the server exits without a request")
		verifrt.Assert(code == 0, "a graceful shutdown is a failure")
		verifrt.Assert(!busy(), "the server exits during an update")
		whole(len(names))
		dead = true
		d.exited = true
	}
	if verifrt.Choose("early", 2) == 1 {
		go func() {
			n := started()
			sent = true
			if !vmodel.Signal(syscall.SIGTERM) {
				// it dies at once; nothing may have been started
				verifrt.Assert(n == 0 && started() == 0, "the server is killed during its startup")
				dead = true
			}
		}()
		go d.run()
		verifrt.WaitIdle()
	} else {
		go d.run()
		verifrt.WaitIdle()
		verifrt.Assert(!d.exited && d.died == nil, "the server does not stay")
		status, _ := hweb.Do(d.handler, "GET", "/api/v1/repos", nil)
		verifrt.Assert(status == 200, "the server does not serve")
		for _, o := range origins {
			o.rev = "1"
		}
		go func() {
			hweb.Do(d.handler, "POST", "/api/v1/update", map[string]string{"repos": names[:1]})
		}()
		go func() {
			sent = true
			verifrt.Assert(vmodel.Signal(syscall.SIGTERM), "the server is killed")
		}()
		verifrt.WaitIdle()
		verifrt.Reach("later")
	}
	if dead && !d.exited {
		verifrt.Reach("killed")
		return
	}
	verifrt.Assert(d.exited, "the server does not end after a request for shutdown")
	verifrt.Reach("exited")
}

// C22Main: requests while the server starts.
func C22Main() {
	d := newDaemon("ab", "")
	live := "ab"
	switch verifrt.Choose("fail", 3) {
	case 1:
		origins["u:a"].dead = true
		live = "b"
	case 2:
		origins["u:a"].dead = true
		origins["u:b"].dead = true
		live = ""
	}
	os.Args = append(os.Args, "-addr", ":7000")
	path := "/api/v1/search"
	if live == "b" {
		path = []string{path, "/api/v1/repos", "/"}[verifrt.Choose("path", 3)]
	}
	verifrt.Opt("preempt", 1+verifrt.Tier())
	verifrt.Delays(1)
	vmodel.ExitHook = func(code int, msg string) { verifrt.Fail("the server exits: " + msg) }
	ask := func() int {
		s, b := hweb.Do(d.handler, "GET", path, map[string]string{"q": "rev", "repos": "*"})
		if s == 503 {
			return s
		}
		verifrt.Assert(s == 200, "a request is answered neither by the application nor with 503")
		for i := 0; i < 2; i++ {
			n := "ab"[i : i+1]
			verifrt.Assert(origins["u:"+n].ends >= 1, "a request is served before the repositories are ready")
			if path != "/" {
				has := find(b, `"`+n+`":`) >= 0
				verifrt.Assert(has == (find(live, n) >= 0), "the answer does not have exactly the repositories that could be indexed")
			}
		}
		return s
	}
	done := false
	d.client = func() {
		first := ask()
		if first == 503 {
			verifrt.Reach("refused")
		}
		s, _ := hweb.Do(d.handler, "GET", "/healthz", nil)
		verifrt.Assert(s == 200, "not healthy")
		verifrt.Assert(ask() == 200 || first == 503, "a request is refused after one was served")
		done = true
	}
	go d.run()
	verifrt.WaitIdle()
	verifrt.Assert(d.died == nil && done, "the server does not start")
	verifrt.Assert(d.addr == ":7000", "the server listens at another address")
	verifrt.Assert(ask() == 200, "a request is refused when everything is ready")
	s, _ := hweb.Do(d.handler, "GET", "/healthz", nil)
	verifrt.Assert(s == 200, "not healthy")
	verifrt.Reach("served")
	d.listen <- errors.New("the listener fails")
	verifrt.WaitIdle()
	verifrt.Assert(d.died != nil, "the server goes on without listening")
}

func find(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}
