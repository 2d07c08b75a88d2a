package hsearch

import (
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// c15 requests a shutdown at an arbitrary moment and waits for its end.
func c15(repos, stops, updates, timers, preempt, push, poll int) {
	verifrt.Opt("race", 1)
	verifrt.Opt("timers", timers)
	verifrt.Opt("preempt", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	w := newWorld()
	w.slow = true
	var rs []*config.Repo
	names := []string{"a", "b"}[:repos]
	for i := range names {
		w.add([]string{"u", "v"}[i], "0")
		rs = append(rs, repo([]string{"u", "v"}[i], push == 1, poll == 1))
	}
	ss, _, err := searcher.MakeAll(w.cfg(1, names, rs...))
	verifrt.Assert(err == nil && len(ss) == repos, "startup")
	for _, r := range w.remotes {
		r.rev = "1"
	}
	verifrt.Opt("preempt", preempt)
	verifrt.Delays(1)
	if verifrt.Choose("idle", 2) == 1 {
		verifrt.WaitIdle()
	}
	if updates > 0 {
		go func() {
			for i := 0; i < updates; i++ {
				for _, n := range names {
					ss[n].Update()
				}
			}
		}()
	}
	stopped, asked := 0, updates
	after := make([]int, repos)
	for i := 0; i < stops; i++ {
		first := i == 0
		go func() {
			for k, n := range names {
				ss[n].Stop()
				busy := w.remotes[k].starts > w.remotes[k].ends
				if first {
					after[k] = w.remotes[k].starts
					if !busy {
						after[k]++ // it may just be about to start
					}
				}
			}
			stopped++
		}()
	}
	verifrt.WaitIdle()
	verifrt.Assert(stopped == stops, "a request for shutdown blocks")
	verifrt.Opt("preempt", 0)
	waited := 0
	go func() {
		for _, n := range names {
			ss[n].Wait()
			waited++
		}
	}()
	verifrt.WaitIdle()
	if waited < repos && timers > 0 && poll == 1 {
		verifrt.Bound("the timer did not expire often enough")
	}
	verifrt.Assert(waited == repos, "a searcher does not terminate after a shutdown request")
	for _, n := range names {
		ss[n].Wait() // again
	}
	for k, n := range names {
		r := w.remotes[k]
		// every update has a trigger of its own, and a shutdown is none
		triggers := asked
		if poll == 1 {
			triggers += verifrt.TimerFires()
		}
		verifrt.Assert(r.starts-1 <= triggers, "a shutdown request starts an update")
		verifrt.Assert(r.starts == r.ends, "an update is still running after the shutdown")
		verifrt.Assert(r.starts <= after[k], "a new update is started after the shutdown request")
		rev := served(ss[n], "after the shutdown")
		if r.starts > 1 {
			verifrt.Assert(rev == "1", "an update that was running is not completed by the shutdown")
		}
		ss[n].Update()
		ss[n].Stop()
		verifrt.WaitIdle()
		verifrt.Assert(r.starts <= after[k], "an update is started after the shutdown")
	}
	verifrt.Assert(len(w.indexes()) == repos, "an interrupted update leaves an index behind")
	verifrt.Assert(verifrt.Live() == 0, "a goroutine is left after the shutdown")
	verifrt.Reach("stopped")
}

// C15: one searcher in all four combinations of polling and push updates.
func C15() {
	m := verifrt.Choose("mode", 4)
	c15(1, 1, 1, 1, 2, m&1, m>>1)
}

// C15Twice: two requests for shutdown.
func C15Twice() {
	m := 1 + verifrt.Choose("mode", 2)
	c15(1, 2, 0, 1, 2, m&1, m>>1)
}

// C15Deep: the push-only searcher with more interruptions.
func C15Deep() { c15(1, 1, 1+verifrt.Tier(), 0, 3, 1, 0) }

// C15Two: two searchers.
func C15Two() { c15(2, 1, verifrt.Tier(), 0, 1, 1, 0) }
