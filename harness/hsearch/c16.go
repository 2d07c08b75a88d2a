package hsearch

import (
	"path/filepath"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// busiest is the largest number of goroutines that were at work at the same time: a goroutine works
// from the start of a version control operation to the last file operation before its next one.
func busiest(evs []event) int {
	type span struct{ g, from, to int }
	var spans []span
	cur := map[int]int{}
	for i, e := range evs {
		if e.what == "vcs+" {
			spans = append(spans, span{e.g, i, i})
			cur[e.g] = len(spans)
		} else if k := cur[e.g]; k > 0 {
			spans[k-1].to = i
		}
	}
	max := 0
	for i := range evs {
		n := 0
		for _, s := range spans {
			if s.from <= i && i <= s.to {
				n++
			}
		}
		if n > max {
			max = n
		}
	}
	return max
}

func c16(repos, limit, preempt, updates int, fail bool) {
	if fail {
		verifrt.Opt("preempt", 0)
	} else {
		verifrt.Opt("preempt", preempt)
	}
	verifrt.Opt("timers", 0)
	verifrt.Delays(2)
	w := newWorld()
	w.slow = true
	vmodel.SchedFilter = func(op, p string) bool { return op == "open" && filepath.Base(p) == "metadata.gob" }
	vmodel.Hook = func(op, p string) {
		if inIndex(op, p) {
			w.ev("fs", "")
		}
	}
	var rs []*config.Repo
	names := []string{"a", "b", "c"}[:repos]
	for _, n := range names {
		w.add("url-"+n, "0")
		rs = append(rs, repo("url-"+n, true, false))
	}
	ss, errs, err := searcher.MakeAll(w.cfg(limit, names, rs...))
	verifrt.Assert(err == nil && len(ss)+len(errs) == repos, "startup does not account for every repository")
	verifrt.WaitIdle()
	verifrt.Assert(busiest(w.events) <= limit, "more repositories than the limit are cloned or indexed at once during startup")
	if limit > 1 && busiest(w.events) > 1 {
		verifrt.Reach("parallel")
	}
	for round := 1; round <= updates; round++ {
		w.events = nil
		if round > 1 {
			verifrt.Opt("preempt", 0)
		} else if fail {
			verifrt.Opt("preempt", preempt)
			w.remotes[verifrt.Choose("failing", repos)].fails = 1
		}
		starts := make([]int, repos)
		failed := make([]int, repos)
		for i := range names {
			w.remotes[i].rev = digits[round]
			starts[i], failed[i] = w.remotes[i].starts, w.remotes[i].failed
		}
		for _, n := range names {
			if ss[n] != nil {
				verifrt.Assert(ss[n].Update(), "update refused")
			}
		}
		verifrt.WaitIdle()
		verifrt.Assert(busiest(w.events) <= limit, "more repositories than the limit are pulled or indexed at once")
		for i, n := range names {
			if ss[n] == nil {
				continue
			}
			r := w.remotes[i]
			verifrt.Assert(r.starts > starts[i], "indexing stalls: a permit was not given back")
			if r.failed == failed[i] {
				verifrt.Assert(served(ss[n], "after the update") == r.rev, "the update is not done")
			} else {
				verifrt.Reach("failed")
			}
		}
	}
	verifrt.Reach("done")
}

// C16Start: the startup of three repositories.
func C16Start() { c16(3, 1+verifrt.Choose("limit", 2), 1+verifrt.Tier(), 0, false) }

// C16Update: updates of two repositories, with failures.
func C16Update() { c16(2, 1, 1, 1+verifrt.Tier(), true) }

// atWork is the number of version control operations under way.
func atWork(w *world) int {
	n := 0
	for _, r := range w.remotes {
		n += r.starts - r.ends
	}
	return n
}

// C16More: every version control operation is held until all that may start have started.
func C16More() {
	verifrt.Opt("preempt", 0)
	verifrt.Opt("timers", 0)
	verifrt.Delays(2)
	limit := 1 + verifrt.Choose("limit", 2)
	repos := 3
	failAt := verifrt.Choose("failat", 3) // which phase has a failure, if any
	w := newWorld()
	w.gate = make(chan int)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	var rs []*config.Repo
	names := []string{"a", "b", "c", "d"}[:repos]
	for _, n := range names {
		w.add("url-"+n, "0")
		rs = append(rs, repo("url-"+n, true, false))
	}
	pass := func(total int, what string) {
		for done := 0; done < total; done++ {
			verifrt.WaitIdle()
			want := total - done
			if want > limit {
				want = limit
			}
			n := atWork(w)
			verifrt.Assert(n <= limit, "more repositories than the limit are at work at once during "+what)
			verifrt.Assert(n >= want, "fewer repositories than the limit allows are at work during "+what+": a permit is missing")
			if n > 1 {
				verifrt.Reach("parallel")
			}
			w.gate <- 0
		}
		verifrt.WaitIdle()
		verifrt.Assert(atWork(w) == 0, what+" does not end")
	}
	if failAt == 1 {
		w.remotes[0].fails = 1
	}
	var ss map[string]*searcher.Searcher
	var errs map[string]error
	var err error
	started := false
	go func() {
		ss, errs, err = searcher.MakeAll(w.cfg(limit, names, rs...))
		started = true
	}()
	pass(repos, "startup")
	verifrt.Assert(started && err == nil && len(ss)+len(errs) == repos, "startup does not account for every repository")
	live := 0
	for round := 1; round <= 1+verifrt.Tier(); round++ {
		live = 0
		for i, n := range names {
			w.remotes[i].fails = 0
			w.remotes[i].rev = digits[round]
			if ss[n] != nil {
				verifrt.Assert(ss[n].Update(), "update refused")
				live++
			}
		}
		if failAt == 2 && round == 1 {
			w.remotes[0].fails = 1
		}
		pass(live, "an update")
	}
	for i, n := range names {
		if ss[n] != nil && w.remotes[i].failed == 0 {
			verifrt.Assert(served(ss[n], "after the updates") == w.remotes[i].rev, "the update is not done")
		}
	}
	verifrt.Reach("done")
}
