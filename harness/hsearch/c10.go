package hsearch

import (
	"path/filepath"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// afterRestart starts the server on what a stopped process left behind.
func (w *world) afterRestart(r *remote) {
	vmodel.Restart()
	left := len(w.indexes())
	ss, errs, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo(r.url, true, false)))
	verifrt.Assert(err == nil, "startup fails after an interrupted build")
	verifrt.Assert(len(errs) == 0 && ss["a"] != nil, "a repository has no searcher after an interrupted build")
	verifrt.Assert(served(ss["a"], "after restart") == r.rev, "searches after a restart answer from another revision")
	verifrt.Assert(excludedOK(ss["a"], "after restart") == r.rev, "the excluded files after a restart are of another revision")
	verifrt.Assert(len(w.indexes()) == 1, "a left-over index directory is not removed at startup")
	if left > 0 {
		verifrt.Reach("leftover")
	}
	verifrt.Reach("restarted")
}

// C10Crash: the process stops at any point of the first build or of an update, then starts again.
func C10Crash() {
	verifrt.Opt("preempt", 0)
	vmodel.StopBlocks = true
	w := newWorld()
	r := w.add("u", "one")
	mode := verifrt.Choose("mode", 2)
	if mode == 1 {
		ss, _, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, false)))
		verifrt.Assert(err == nil, "startup")
		verifrt.WaitIdle()
		r.rev = "two"
		vmodel.CrashAt(true, inIndex)
		ss["a"].Update()
		verifrt.WaitIdle()
	} else {
		vmodel.CrashAt(true, inIndex)
		go searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, false)))
		verifrt.WaitIdle()
	}
	if vmodel.Crashed() {
		verifrt.Reach("crashed")
		verifrt.Shape("crashed")
	}
	switch verifrt.Choose("next", 3) {
	case 1:
		r.rev = "three"
	case 2: // a forced push back
		r.rev = "one"
	}
	w.afterRestart(r)
}

// C10Fault: one operation of the first build or of an update fails, then the process is restarted.
func C10Fault() {
	verifrt.Opt("preempt", 0)
	vmodel.StopBlocks = true
	vmodel.ExitOK = true
	w := newWorld()
	r := w.add("u", "one")
	filter := func(op, p string) bool { return op != "seek" && (inIndex(op, p) || find(p, "/n-codesearch") >= 0) }
	mode := verifrt.Choose("mode", 2)
	if mode == 1 {
		ss, _, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, false)))
		verifrt.Assert(err == nil, "startup")
		verifrt.WaitIdle()
		r.rev = "two"
		vmodel.Faults(1+verifrt.Tier(), filter)
		ss["a"].Update()
		verifrt.WaitIdle()
	} else {
		vmodel.Faults(1+verifrt.Tier(), filter)
		go searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, false)))
		verifrt.WaitIdle()
	}
	if vmodel.FaultsLeft() == 0 {
		verifrt.Reach("failed")
	}
	if verifrt.Choose("next", 2) == 1 {
		r.rev = "one"
	}
	vmodel.ExitOK = false
	w.afterRestart(r)
}

// C10Both: one operation of an update fails, and the process stops at a later or an earlier one.
func C10Both() {
	verifrt.Opt("preempt", 0)
	vmodel.StopBlocks = true
	vmodel.ExitOK = true
	w := newWorld()
	r := w.add("u", "one")
	ss, _, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, false)))
	verifrt.Assert(err == nil, "startup")
	verifrt.WaitIdle()
	r.rev = "two"
	filter := func(op, p string) bool { return op != "seek" && inIndex(op, p) }
	vmodel.Faults(1, filter)
	vmodel.CrashAt(true, filter)
	ss["a"].Update()
	verifrt.WaitIdle()
	if vmodel.FaultsLeft() == 0 && vmodel.Crashed() {
		verifrt.Reach("both")
	}
	if verifrt.Choose("next", 2) == 1 {
		r.rev = "one"
	}
	vmodel.ExitOK = false
	w.afterRestart(r)
}

// C10Manifest: what is read back is what was written.
func C10Manifest() {
	src, db := hx.Dir("src"), hx.Dir("db")
	hx.Put(filepath.Join(src, "f"), []byte("x"))
	url, rev := verifrt.String("url", 3), verifrt.String("rev", 2)
	var auto []string
	for i, n := 0, verifrt.Choose("auto", 3); i < n; i++ {
		auto = append(auto, verifrt.String("file", 1+i))
	}
	dir := filepath.Join(db, "idx-1")
	if verifrt.Choose("exists", 2) == 1 {
		hx.Mkdir(dir)
	}
	a, err := index.Build(&index.IndexOptions{AutoGeneratedFiles: auto}, dir, src, url, rev)
	verifrt.Assert(err == nil, "build fails")
	b, err := index.Read(dir)
	verifrt.Assert(err == nil, "the manifest of a finished build cannot be read")
	for _, r := range []*index.IndexRef{a, b} {
		verifrt.Assert(r.Dir() == dir, "the index is somewhere else")
		verifrt.Assert(r.Url == url, "the URL read back is another one")
		verifrt.Assert(r.Rev == rev, "the revision read back is another one")
		verifrt.Assert(len(r.AutoGeneratedFiles) == len(auto), "the number of auto-generated files read back is another one")
		for i := range auto {
			verifrt.Assert(r.AutoGeneratedFiles[i] == auto[i], "the auto-generated files read back are others")
		}
	}
	ix, err := b.Open()
	verifrt.Assert(err == nil, "opening fails")
	res, err := ix.Search("x", &index.SearchOptions{})
	verifrt.Assert(err == nil && res.Revision == rev && len(res.Matches) == 1, "a search on the index read back is not of its revision")
	verifrt.Reach("read back")
}
