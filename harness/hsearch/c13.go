package hsearch

import (
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// c13 runs searches and reads of the excluded files while the index is replaced.
func c13(searches, lists, updates, preempt int) {
	verifrt.Opt("race", 1)
	verifrt.Opt("preempt", 0)
	vmodel.SchedFilter = func(op, p string) bool { return false }
	w := newWorld()
	r := w.add("u", "0")
	s, err := searcher.New(w.db, "a", repo("u", true, false))
	verifrt.Assert(err == nil, "startup")
	verifrt.WaitIdle()
	vmodel.SchedFilter = func(op, p string) bool {
		return inIndex(op, p) && (op == "open" || op == "read" || op == "remove" || op == "removeall")
	}
	verifrt.Opt("preempt", preempt)
	verifrt.Delays(2)
	done := 0
	for i := 0; i < searches; i++ {
		go func() {
			res, err := s.Search("rev|second", &index.SearchOptions{})
			if err != nil {
				verifrt.Fail("a search fails while the index is replaced: " + err.Error())
			}
			checkRes(res, "during an update")
			verifrt.Assert(res.Revision == "0" || res.Revision == "1" || res.Revision == "2", "a search answers from an unknown revision")
			done++
		}()
	}
	for i := 0; i < lists; i++ {
		go func() {
			excludedOK(s, "during an update")
			done++
		}()
	}
	for i := 1; i <= updates; i++ {
		r.rev = digits[i]
		verifrt.Assert(s.Update(), "update refused")
	}
	verifrt.WaitIdle()
	verifrt.Assert(done == searches+lists, "a search or a request for the excluded files never returns")
	verifrt.Opt("preempt", 0)
	verifrt.Assert(served(s, "after the update") == r.rev, "the new index is not served after the update")
	verifrt.Assert(excludedOK(s, "after the update") == r.rev, "the new list of excluded files is not served after the update")
	verifrt.Assert(len(w.indexes()) == 1, "the replaced index is still on disk")
	verifrt.Assert(vmodel.LiveMaps() == 1, "the replaced index is still mapped")
	verifrt.Reach("replaced")
}

// C13: one search and one request for the excluded files.
func C13() { c13(1, 1, 1, 2) }

// C13Two: two searches.
func C13Two() { c13(2, 1, 1, 1+verifrt.Tier()) }

// C13Again: two replacements.
func C13Again() { c13(1, 1, 2, 1+verifrt.Tier()) }
