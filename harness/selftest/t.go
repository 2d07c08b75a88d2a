package selftest

import (
	"strings"
	"sync"

	"github.com/hound-search/hound/verifh/verifrt"
	_ "github.com/hound-search/hound/verifh/vmodel"
)

func T1() {
	b := verifrt.Bytes("b", 3)
	s := string(b)
	i := strings.Index(s, "ab")
	if i >= 0 {
		verifrt.Reach("found")
		verifrt.Assert(s[i] == 'a', "first is a")
	}
	n := 0
	for _, r := range s {
		if r == 'é' {
			n++
		}
	}
	verifrt.Assert(n <= 1, "at most one é")
	verifrt.Assert(n <= 0, "none")
}

func T2() {
	x := verifrt.Uint32("x")
	y := verifrt.Uint32("y")
	verifrt.Assume(x < 1000 && y < 1000)
	verifrt.Assert(x*y < 999*999+1, "mul")
	m := map[string]int{}
	m["a"] = 1
	m[verifrt.String("s", 1)] = 2
	if len(m) == 1 {
		verifrt.Reach("same")
		verifrt.Assert(m["a"] == 2, "over")
	} else {
		verifrt.Assert(m["a"] == 1, "keep")
	}
	func() {
		defer func() {
			r := recover()
			verifrt.Assert(r != nil, "rec")
		}()
		var a []int
		_ = a[x]
	}()
}

func T3() {
	verifrt.Opt("race", 1)
	var mu sync.Mutex
	ch := make(chan int)
	n := 0
	for i := 0; i < 2; i++ {
		go func() {
			mu.Lock()
			n++
			mu.Unlock()
			ch <- 1
		}()
	}
	<-ch
	<-ch
	verifrt.Assert(n == 2, "n")
	verifrt.Assert(verifrt.WaitIdle() == 0, "leak")
}

func T4() {
	verifrt.Opt("race", 1)
	ch := make(chan int)
	n := 0
	go func() { n++; ch <- 1 }()
	go func() { n++; ch <- 1 }()
	<-ch
	<-ch
}

func T5() {
	var mu1, mu2 sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { mu1.Lock(); mu2.Lock(); mu2.Unlock(); mu1.Unlock(); wg.Done() }()
	go func() { mu2.Lock(); mu1.Lock(); mu1.Unlock(); mu2.Unlock(); wg.Done() }()
	wg.Wait()
}
