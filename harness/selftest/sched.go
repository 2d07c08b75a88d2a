package selftest

import (
	"sync"

	"github.com/hound-search/hound/verifh/verifrt"
)

// Orders: every order of three goroutines is explored, whether they run to their end or are preempted.
func Orders() {
	verifrt.Opt("preempt", verifrt.Choose("preempts", 3))
	var mu sync.Mutex
	s := ""
	for i := 0; i < 3; i++ {
		n := string([]byte{byte('a' + i)})
		go func() {
			mu.Lock()
			s += n
			mu.Unlock()
			mu.Lock()
			s += n
			mu.Unlock()
		}()
	}
	verifrt.WaitIdle()
	verifrt.Assert(len(s) == 6, "a goroutine is missing")
	verifrt.Reach(s)
}
