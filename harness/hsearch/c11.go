package hsearch

import (
	"path/filepath"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// leftover is what an earlier process left in the database directory.
type leftover struct {
	name     string
	url, rev string // "" if it is not a complete index
	taken    bool
}

var digits = []string{"0", "1", "2", "3", "4"}

// leave puts left-over number i of a kind into the database directory.
func (w *world) leave(i, kind int) *leftover {
	l := &leftover{name: "idx-" + digits[i]}
	dir := filepath.Join(w.db, l.name)
	switch kind {
	case 0: // a complete index of any URL and revision
		l.url, l.rev = verifrt.String("url", 1), verifrt.String("rev", 1)
		src := hx.Dir("old" + digits[i])
		hx.Put(filepath.Join(src, "f.txt"), []byte("rev left\n"))
		hx.Put(filepath.Join(src, "g.txt"), []byte("second left\n"))
		hx.Put(filepath.Join(src, "mark.txt"), []byte("mark "+digits[i]+"\n"))
		_, err := index.Build(&index.IndexOptions{}, dir, src, l.url, l.rev)
		verifrt.Assert(err == nil, "build")
	case 1: // nothing but a directory
		hx.Mkdir(filepath.Join(dir, "raw"))
	case 2: // a manifest that was cut off
		hx.Put(filepath.Join(dir, "metadata.gob"), []byte("\x05"))
	case 3: // not even a directory
		hx.Put(dir, []byte("x"))
	}
	return l
}

// marker tells which left-over index answers for s, or "".
func marker(s *searcher.Searcher) (string, string) {
	res, err := s.Search("mark", &index.SearchOptions{})
	if err != nil {
		verifrt.Fail("search after startup fails: " + err.Error())
	}
	if len(res.Matches) == 0 {
		return "", res.Revision
	}
	return res.Matches[0].Matches[0].Line[5:], res.Revision
}

func c11(kinds int, shape []int, limit, preempt int) {
	verifrt.Opt("preempt", preempt)
	w := newWorld()
	w.slow = preempt > 0
	vmodel.SchedFilter = func(op, p string) bool { return false }
	var ls []*leftover
	last := 0
	for i := 0; i < kinds; i++ {
		k := verifrt.Choose("leftover", 5)
		if k < last {
			verifrt.Abort("same set in another order")
		}
		last = k
		if k < 4 {
			ls = append(ls, w.leave(i, k))
		}
	}
	hx.Put(filepath.Join(w.db, "other"), []byte("x"))
	u, v := w.add("u", "1"), w.add("v", "2")
	var rs []*config.Repo
	broken := map[string]bool{}
	var names []string
	for i, k := range shape {
		names = append(names, string(rune('a'+i)))
		r := repo([]string{"u", "v", "u", "u", "v"}[k], true, false)
		switch k {
		case 2: // no such driver
			r.Vcs = "none"
			broken[names[i]] = true
		case 3: // bad settings
			m := config.SecretMessage("bad")
			r.VcsConfigMessage = &m
			broken[names[i]] = true
		case 4: // cannot be cloned
			v.dead = true
			broken[names[i]] = true
		}
		rs = append(rs, r)
	}
	repos := len(rs)
	ss, errs, err := searcher.MakeAll(w.cfg(limit, names, rs...))
	verifrt.Opt("preempt", 0)
	verifrt.Assert(err == nil, "startup fails although only single repositories have errors")
	verifrt.Assert(len(ss)+len(errs) == repos, "a repository has neither a searcher nor an error, or both")
	fresh := 0
	for i, n := range names {
		bad := broken[n]
		verifrt.Assert((ss[n] == nil) == bad, "a repository whose version control works has no searcher, or the other way round")
		verifrt.Assert((errs[n] != nil) == bad, "a repository whose version control fails has no error, or the other way round")
		if bad {
			continue
		}
		verifrt.Assert(ss[n].Repo == rs[i], "a searcher is not for the repository of its name")
		rem := u
		if rs[i].Url == "v" {
			rem = v
		}
		m, rev := marker(ss[n])
		verifrt.Assert(rev == rem.rev, "a searcher answers from another revision than the current one")
		if m == "" {
			fresh++
			served(ss[n], "after startup")
			continue
		}
		verifrt.Reach("reused")
		for _, l := range ls {
			if l.name == "idx-"+m {
				l.taken = true
				verifrt.Assert(verifrt.And(verifrt.EqStr(l.url, rs[i].Url), verifrt.EqStr(l.rev, rem.rev)), "an index of another repository or revision is reused")
			}
		}
		for _, n2 := range names {
			if n2 < n && ss[n2] != nil {
				m2, _ := marker(ss[n2])
				verifrt.Assert(m2 != m, "one index directory serves two repositories")
			}
		}
	}
	for i, n := range names {
		if ss[n] == nil {
			continue
		}
		if m, rev := marker(ss[n]); m == "" {
			for _, l := range ls {
				verifrt.Assert(l.taken || l.url == "" || !verifrt.And(verifrt.EqStr(l.url, rs[i].Url), verifrt.EqStr(l.rev, rev)), "an index of the repository's current revision is not reused")
			}
		}
	}
	verifrt.Assert(len(w.indexes()) == len(ss), "an index directory that nobody uses is left, or one in use is removed")
	verifrt.Assert(hx.Exists(filepath.Join(w.db, "other")), "a file that is no index is removed")
	if fresh > 0 {
		verifrt.Reach("fresh")
	}
	// whoever is updated next, the others keep working
	verifrt.WaitIdle()
	if a := ss["a"]; a != nil && rs[0].Url == "u" && (preempt == 0 || verifrt.Tier() > 0) {
		u.rev = "next"
		update(a, "later")
		verifrt.Assert(served(a, "later") == "next", "an update after startup is not served")
		for n, s := range ss {
			if n != "a" {
				_, rev := marker(s)
				verifrt.Assert(rev == "1" || rev == "2", "an update of one repository changes another one")
			}
		}
		verifrt.Assert(len(w.indexes()) == len(ss), "an update removes an index in use or leaves the old one")
	}
	verifrt.Reach("started")
}

var c11Shapes = [][]int{{0, 0}, {0, 1}, {1, 0}, {0, 2}, {3, 0}, {0, 4}, {4, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 0, 0}, {0, 2, 1}}

// C11: every small set of left-overs and repositories.
func C11() {
	if verifrt.Tier() > 0 {
		c11(2, c11Shapes[verifrt.Choose("shape", len(c11Shapes))], 1+verifrt.Choose("limit", 2), 0)
		return
	}
	k := verifrt.Choose("shape", 4)
	c11(2, c11Shapes[[]int{0, 1, 3, 5}[k]], 1+k&1, 0)
}

// C11Three: three left-over directories.
func C11Three() { c11(3, c11Shapes[verifrt.Choose("shape", 2)], 2, 0) }

// C11Sched: startup interleaved in every way.
func C11Sched() { c11(1, c11Shapes[verifrt.Choose("shape", 2)], 2, 1+verifrt.Tier()) }

// C11Race: no data race during startup.
func C11Race() {
	verifrt.Opt("race", 1)
	c11(1, c11Shapes[verifrt.Choose("shape", 2)], 2, 0)
}
