package hsearch

import (
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// C12: rounds of updates in which version control or file operations fail.
func C12() {
	verifrt.Opt("preempt", 0)
	w := newWorld()
	r := w.add("u", "0")
	poll := verifrt.Choose("poll", 2) == 1
	ss, _, err := searcher.MakeAll(w.cfg(1, []string{"a"}, repo("u", true, poll)))
	verifrt.Assert(err == nil, "startup")
	verifrt.WaitIdle()
	s := ss["a"]
	vmodel.SchedFilter = func(op, p string) bool { return false }

	rounds, faults := 3, 1
	if verifrt.Tier() > 0 && verifrt.Choose("two", 2) == 1 {
		rounds, faults = 2, 2
	}
	r.fails = verifrt.Choose("vcsfails", 2)
	if r.fails == 0 {
		vmodel.Faults(faults, func(op, p string) bool {
			return op != "seek" && (inIndex(op, p) || find(p, "csearch") >= 0)
		})
	}
	rev := "0"
	debt := false // the last attempt failed: the next one has to bring the new revision
	for i := 1; i <= rounds; i++ {
		if i < rounds && verifrt.Choose("push", 2) == 1 {
			r.rev = digits[i]
		}
		left, failed := vmodel.FaultsLeft(), r.failed
		starts := r.starts
		update(s, "round")
		verifrt.Assert(r.starts > starts, "no attempt to update is made")
		ok := vmodel.FaultsLeft() == left && r.failed == failed
		save := vmodel.Pause()
		now := served(s, "after an update")
		vmodel.Resume(save)
		verifrt.Assert(now == rev || now == r.rev, "a revision is served that is neither the old nor the new one")
		if ok {
			verifrt.Assert(now == r.rev, "the new revision is not served after an update without failures")
			if debt {
				verifrt.Reach("caught up")
			}
			debt = false
		} else {
			debt = now != r.rev
			verifrt.Reach("failed")
		}
		rev = now
	}
	save := vmodel.Pause()
	verifrt.Assert(excludedOK(s, "in the end") == rev, "the excluded files are of another revision")
	vmodel.Resume(save)
}

// C12Poll: the same where only polling triggers updates.
func C12Poll() {
	verifrt.Opt("preempt", 0)
	w := newWorld()
	r := w.add("u", "0")
	s, err := searcher.New(w.db, "a", repo("u", false, true))
	verifrt.Assert(err == nil, "startup")
	verifrt.WaitIdle()
	vmodel.SchedFilter = func(op, p string) bool { return false }
	r.rev = "1"
	r.fails = verifrt.Choose("vcsfails", 2)
	if r.fails == 0 {
		vmodel.Faults(1, func(op, p string) bool {
			return op != "seek" && (inIndex(op, p) || find(p, "csearch") >= 0)
		})
	}
	verifrt.Opt("timers", 3)
	for i := 0; i < 3; i++ {
		left, failed, starts := vmodel.FaultsLeft(), r.failed, r.starts
		verifrt.WaitIdle()
		ok := vmodel.FaultsLeft() == left && r.failed == failed
		save := vmodel.Pause()
		now := served(s, "after a poll")
		vmodel.Resume(save)
		if ok && r.starts > starts {
			verifrt.Assert(now == r.rev, "the new revision is not served after a poll without failures")
			verifrt.Reach("polled")
		}
		if i == 1 {
			r.rev = "2"
		}
	}
}
