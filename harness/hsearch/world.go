// Package hsearch checks the searcher: startup, updates, shutdown, schedules, failures and crashes.
// Everything goes through the exported interface of package searcher, with a version control driver
// that the harness controls.
package hsearch

import (
	"errors"
	"path/filepath"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// remote is a repository as it is at its origin.
type remote struct {
	url    string
	rev    string
	files  map[string]string
	fails  int // how many of the next operations may fail (which ones is arbitrary)
	failed int
	starts int // operations started, and ended
	ends   int
	wd     string // where it was cloned to
	dead   bool   // every operation fails
	noauto []string
}

// event is something a goroutine did.
type event struct {
	g    int
	what string // "vcs+", "vcs-", "fs"
	arg  string
}

type world struct {
	db      string
	remotes []*remote
	events  []event
	slow    bool     // other goroutines may run in the middle of a VCS operation
	gate    chan int // every VCS operation waits for it
}

var w *world

type driver struct{}

var errVcs = errors.New("vcs failed")

func newWorld() *world {
	w = &world{db: hx.Dir("db")}
	vcs.Register(func(c []byte) (vcs.Driver, error) {
		if string(c) == "bad" {
			return nil, errVcs
		}
		return &driver{}, nil
	}, "fake")
	return w
}

func (w *world) add(url, rev string) *remote {
	r := &remote{url: url, rev: rev}
	w.remotes = append(w.remotes, r)
	return r
}

func (w *world) byURL(url string) *remote {
	for _, r := range w.remotes {
		if r.url == url {
			return r
		}
	}
	return nil
}

func (w *world) byDir(dir string) *remote {
	for _, r := range w.remotes {
		if r.wd == dir {
			return r
		}
	}
	return nil
}

func (w *world) ev(what, arg string) {
	w.events = append(w.events, event{verifrt.Goid(), what, arg})
}

// checkout brings the working directory to the remote's revision.
func (r *remote) checkout(dir string) (string, error) {
	w.ev("vcs+", r.url)
	r.starts++
	// the revision this operation delivers is what the remote has from now on or later
	if w.slow {
		verifrt.SchedPoint()
	}
	if w.gate != nil {
		<-w.gate
	}
	rev := r.rev
	bad := r.dead
	if !bad && r.fails > 0 && verifrt.Choose("vcsfail", 2) == 1 {
		r.fails--
		bad = true
	}
	if bad {
		r.failed++
		r.ends++
		w.ev("vcs-", r.url)
		return "", errVcs
	}
	hx.Put(filepath.Join(dir, "f.txt"), []byte("rev "+rev+"\n"))
	hx.Put(filepath.Join(dir, "g.txt"), []byte("second "+rev+"\n"))
	hx.Put(filepath.Join(dir, "bin-"+rev), []byte{0xff, 0})
	r.ends++
	w.ev("vcs-", r.url)
	return rev, nil
}

func (d *driver) Clone(dir, url string) (string, error) {
	r := w.byURL(url)
	rev, err := r.checkout(dir)
	if err == nil {
		r.wd = dir
	}
	return rev, err
}

func (d *driver) Pull(dir string) (string, error) {
	r := w.byDir(dir)
	if r == nil {
		verifrt.Fail("pull of a directory that was not cloned: " + dir)
	}
	for _, n := range hx.Names(dir) {
		if len(n) > 4 && n[:4] == "bin-" {
			vmodel.Unlink(filepath.Join(dir, n))
		}
	}
	return r.checkout(dir)
}

func (d *driver) HeadRev(dir string) (string, error) { return w.byDir(dir).rev, nil }
func (d *driver) SpecialFiles() []string             { return []string{".fake"} }
func (d *driver) AutoGeneratedFiles(dir string) []string {
	if r := w.byDir(dir); r != nil {
		return r.noauto
	}
	return nil
}

func boolp(b bool) *bool { return &b }

func repo(url string, push, poll bool) *config.Repo {
	return &config.Repo{Url: url, Vcs: "fake", MsBetweenPolls: 1000, EnablePushUpdates: boolp(push), EnablePollUpdates: boolp(poll)}
}

func (w *world) cfg(limit int, names []string, repos ...*config.Repo) *config.Config {
	c := &config.Config{DbPath: w.db, MaxConcurrentIndexers: limit, Repos: map[string]*config.Repo{}}
	for i, r := range repos {
		c.Repos[names[i]] = r
	}
	return c
}

// indexes lists the index directories.
func (w *world) indexes() []string {
	var r []string
	for _, n := range hx.Names(w.db) {
		if len(n) > 4 && n[:4] == "idx-" {
			r = append(r, n)
		}
	}
	return r
}

// served checks that a searcher answers from one complete index and returns its revision.
func served(s *searcher.Searcher, tag string) string {
	res, err := s.Search("rev|second", &index.SearchOptions{})
	if err != nil {
		verifrt.Fail(tag + ": search fails: " + err.Error())
	}
	checkRes(res, tag)
	return res.Revision
}

func checkRes(res *index.SearchResponse, tag string) {
	verifrt.Assert(len(res.Matches) == 2, tag+": search does not find both files")
	for i, n := range []string{"f.txt", "g.txt"} {
		m := res.Matches[i]
		pre := "rev "
		if i == 1 {
			pre = "second "
		}
		verifrt.Assert(m.Filename == n && len(m.Matches) == 1 && m.Matches[0].Line == pre+res.Revision,
			tag+": the result does not belong to the revision it is reported for")
	}
}

func excludedOK(s *searcher.Searcher, tag string) string {
	x := s.GetExcludedFiles()
	i := find(x, "bin-")
	verifrt.Assert(i >= 0, tag+": the list of excluded files is not complete: "+x)
	j := i + 4
	for j < len(x) && x[j] != '"' {
		j++
	}
	return x[i+4 : j]
}

func find(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// update requests an update and waits until everything is quiet again.
func update(s *searcher.Searcher, tag string) {
	verifrt.Assert(s.Update(), tag+": update refused")
	verifrt.WaitIdle()
}

// inIndex selects operations on index directories.
func inIndex(op, p string) bool { return find(p, "/idx-") >= 0 }
