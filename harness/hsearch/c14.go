package hsearch

import (
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// c14 requests updates at arbitrary moments; each accepted one is followed by a pull that starts later.
func c14(requesters, each, timers, preempt int, all bool) {
	verifrt.Opt("race", 1)
	verifrt.Opt("preempt", preempt)
	verifrt.Opt("timers", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	w := newWorld()
	w.slow = true
	r := w.add("u", "0")
	var s *searcher.Searcher
	if all {
		ss, _, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, timers > 0)))
		verifrt.Assert(err == nil && ss["a"] != nil, "startup")
		s = ss["a"]
	} else {
		x, err := searcher.New(w.db, "a", repo("u", true, timers > 0))
		verifrt.Assert(err == nil, "startup")
		s = x
	}
	verifrt.Opt("timers", timers)
	if verifrt.Choose("idle", 2) == 1 {
		verifrt.WaitIdle()
	}
	n, done := 0, 0
	last := make([]int, requesters)
	for i := 0; i < requesters; i++ {
		i := i
		n++
		go func() {
			for j := 0; j < each; j++ {
				r.rev = digits[i+1]
				verifrt.Assert(s.Update(), "an update is refused although push updates are enabled")
				last[i] = r.starts
			}
			done++
		}()
	}
	verifrt.WaitIdle()
	verifrt.Assert(done == n, "a request for an update blocks")
	for i := 0; i < requesters; i++ {
		verifrt.Assert(r.starts > last[i], "no pull starts after an update was requested and accepted")
	}
	verifrt.Assert(r.starts == r.ends, "a pull does not end")
	verifrt.Assert(served(s, "in the end") == r.rev, "the requested update is not served")
	verifrt.Reach("pulled")
}

// C14: two requests right after startup or later.
func C14() { c14(2, 1, 0, 2, false) }

// C14All: after the startup of all repositories, with polling.
func C14All() { c14(1, 1+verifrt.Tier(), 1, 2, true) }

// C14Burst: each of two requesters asks twice.
func C14Burst() { c14(2, 2, 0, 1+verifrt.Tier(), false) }

// C14Busy: requests during a pull return at once and lead to another pull.
func C14Busy() {
	verifrt.Opt("preempt", 0)
	verifrt.Opt("timers", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	w := newWorld()
	r := w.add("u", "0")
	s, err := searcher.New(w.db, "a", repo("u", true, verifrt.Choose("poll", 2) == 1))
	verifrt.Assert(err == nil, "startup")
	verifrt.WaitIdle()
	w.gate = make(chan int)
	k := verifrt.Choose("requests", 3)
	verifrt.Assert(s.Update(), "refused")
	verifrt.WaitIdle() // the pull is under way
	verifrt.Assert(r.starts == 2 && r.ends == 1, "no pull is under way after an update request")
	for i := 0; i < k; i++ {
		verifrt.Assert(s.Update(), "an update is refused during a pull")
	}
	r.rev = "1"
	w.gate <- 0
	verifrt.WaitIdle()
	if k > 0 {
		verifrt.Assert(r.starts == 3 && r.ends == 2, "no pull follows a request made during a pull")
		r.rev = "2"
		w.gate <- 0
		verifrt.WaitIdle()
	}
	verifrt.Assert(r.starts == r.ends, "more pulls than requested are under way")
	verifrt.Assert(served(s, "in the end") == r.rev, "the last update is not served")
	// and the next one works as well
	w.gate = nil
	r.rev = "3"
	update(s, "later")
	verifrt.Assert(served(s, "later") == "3", "a later update is not served")
}

// C14Off: with push updates disabled a request is refused and has no effect.
func C14Off() {
	verifrt.Opt("race", 1)
	verifrt.Opt("preempt", 2)
	verifrt.Opt("timers", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	w := newWorld()
	r := w.add("u", "0")
	rp := repo("u", false, verifrt.Choose("poll", 2) == 1)
	if verifrt.Choose("default", 2) == 1 {
		rp.EnablePushUpdates = nil
	}
	s, err := searcher.New(w.db, "a", rp)
	verifrt.Assert(err == nil, "startup")
	if verifrt.Choose("idle", 2) == 1 {
		verifrt.WaitIdle()
	}
	r.rev = "1"
	for i := 0; i < 2; i++ {
		verifrt.Assert(!s.Update(), "an update is accepted although push updates are disabled")
	}
	verifrt.WaitIdle()
	verifrt.Assert(r.starts == 1, "a refused update has an effect")
	verifrt.Assert(served(s, "in the end") == "0", "a refused update has an effect on searches")
}
