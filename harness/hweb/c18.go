package hweb

import (
	"net/http"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

const query18 = "abc.*xyz"

// world18 has one repository per name, of which each has matches (0), has none (1) or cannot be searched (2).
func world18(names []string, kinds []int) (map[string]*searcher.Searcher, http.Handler) {
	db := setup()
	repos := map[string]*config.Repo{}
	for i, n := range names {
		t := map[string]string{}
		switch kinds[i] {
		case 0:
			for j := 0; j <= i; j++ {
				t[n+itoa(j)] = "abc " + n + " xyz\n"
			}
			t["other"] = "abc\nxyz\n"
		case 1:
			t[n] = "abc\nxyz\n"
		case 2:
			t["broken-"+n] = "abc xyz\n"
		}
		trees["url-"+n] = t
		repos[n] = repo("url-"+n, false)
	}
	ss := start(db, repos)
	for i, n := range names {
		if kinds[i] == 2 {
			breakContent(db, "broken-"+n)
		}
	}
	return ss, handler(ss, 5000)
}

// check18 checks the response to a search of the given repositories.
func check18(ss map[string]*searcher.Searcher, r *resp, names []string, kinds []int, named []bool) {
	got := decode(r)
	fail, opened, n := false, 0, 0
	for i, nm := range names {
		if !named[i] {
			continue
		}
		if kinds[i] == 2 {
			fail = true
			continue
		}
		exp, err := ss[nm].Search(query18, &index.SearchOptions{LinesOfContext: 2, MaxResults: 5000})
		verifrt.Assert(err == nil, "search fails")
		if kinds[i] == 0 {
			n++
			opened += exp.FilesOpened
			if !fail && got.Error == nil {
				x := got.Results[nm]
				verifrt.Assert(x != nil, "the results of a repository are missing")
				verifrt.Assert(sameMatches(x, exp) && x.Revision == "rev-url-"+nm, "the results of a repository are not its own")
			}
		}
	}
	if fail {
		verifrt.Assert(got.Error != nil && *got.Error != "", "the search of a repository fails but the response is not an error")
		verifrt.Reach("error")
		return
	}
	verifrt.Assert(got.Error == nil, "an error although no search fails")
	verifrt.Assert(len(got.Results) == n, "results of a repository that has no matches or is not named")
	verifrt.Assert(got.Stats != nil && got.Stats.FilesOpened == opened, "the number of opened files is not the sum over the returned repositories")
	verifrt.Reach("results")
}

func kinds18(n int) []int {
	k := make([]int, n)
	for i := range k {
		k[i] = verifrt.Choose("kind", 3)
	}
	return k
}

// C18: every set of repositories, spelled in many ways, and every combination of outcomes.
func C18() {
	names := []string{"a", "b", "cd"}
	kinds := kinds18(3)
	ss, h := world18(names, kinds)
	lists := [][]string{{}, {"a"}, {"b"}, {"cd"}, {"a", "b"}, {"cd", "a"}, {"b", "cd"}, {"cd", "b", "a"}, {"a", "a"}, {"b", "a", "b"}, {"*"}}
	l := lists[verifrt.Choose("list", len(lists))]
	param, named := "", make([]bool, 3)
	for i, x := range l {
		if i > 0 {
			param += ","
		}
		param += x
		for j, n := range names {
			if x == n || x == "*" {
				named[j] = true
			}
		}
	}
	switch verifrt.Choose("noise", 5) {
	case 1:
		param = "zz," + param
		if len(l) == 1 && l[0] == "*" {
			named = make([]bool, 3) // a star is special only when alone
		}
	case 2:
		param = " " + param + "\t"
	case 3:
		if len(l) > 0 && l[0] != "*" {
			param += ",,a/b,A,c,cdd,d"
		}
	case 4:
		if len(l) > 0 && l[0] != "*" {
			param += ",*"
		}
	}
	check18(ss, do(h, "GET", "/api/v1/search", map[string]string{"q": query18, "repos": param, "stats": "true"}, nil), names, kinds, named)
}

// C18Names: any short list of names.
func C18Names() {
	names := []string{"a", "b", "ab"}
	kinds := []int{0, 0, verifrt.Choose("kind", 2) * 2}
	ss, h := world18(names, kinds)
	b := make([]byte, verifrt.Choose("len", 4+verifrt.Tier()))
	for i := range b {
		b[i] = verifrt.Byte("repos")
		ok := false
		for _, c := range "ab, *x" {
			ok = verifrt.Or(ok, b[i] == byte(c))
		}
		verifrt.Assume(ok)
	}
	s := string(b)
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	named := make([]bool, 3)
	if s == "*" {
		named = []bool{true, true, true}
	}
	for i := 0; i <= len(s); {
		j := i
		for j < len(s) && s[j] != ',' {
			j++
		}
		for k, n := range names {
			if s[i:j] == n {
				named[k] = true
			}
		}
		i = j + 1
	}
	check18(ss, do(h, "GET", "/api/v1/search", map[string]string{"q": query18, "repos": string(b), "stats": "1"}, nil), names, kinds, named)
}

// C18Sched: every schedule of the workers; none is left behind.
func C18Sched() {
	names := []string{"a", "b", "cd"}
	kinds := kinds18(3)
	ss, h := world18(names, kinds)
	verifrt.WaitIdle()
	before := verifrt.Live()
	verifrt.Opt("race", 1)
	verifrt.Opt("onesched", 0)
	verifrt.Opt("preempt", 1+verifrt.Tier())
	verifrt.Delays(1)
	done := 0
	n := 1 + verifrt.Choose("requests", 1+verifrt.Tier())
	for i := 0; i < n; i++ {
		go func() {
			r := do(h, "GET", "/api/v1/search", map[string]string{"q": query18, "repos": "*", "stats": "1"}, nil)
			check18(ss, r, names, kinds, []bool{true, true, true})
			done++
		}()
	}
	verifrt.WaitIdle()
	verifrt.Assert(done == n, "a search request hangs")
	verifrt.Assert(verifrt.Live() == before, "a worker is left behind")
	vmodel.SchedFilter = nil
}
