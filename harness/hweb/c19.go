package hweb

import (
	"encoding/json"
	"net/http"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/verifh/verifrt"
)

var names19 = []string{"a", "b", "o/c"}

// world19 has three repositories, of which some accept push updates.
func world19(push []bool) (map[string]*searcher.Searcher, http.Handler) {
	setupDb := setup()
	repos := map[string]*config.Repo{}
	for i, n := range names19 {
		trees["url-"+n] = map[string]string{"f-" + itoa(i): "abc\n", "bin-" + itoa(i): "\xff\x00"}
		repos[n] = repo("url-"+n, push[i])
	}
	ss := start(setupDb, repos)
	if verifrt.InEngine() {
		verifrt.WaitIdle()
	}
	return ss, handler(ss, 5000)
}

func push19() []bool {
	p := make([]bool, 3)
	for i := range p {
		p[i] = verifrt.Choose("push", 2) == 1
	}
	return p
}

// updated19 waits for the updates to be done and tells which repositories were pulled since.
func updated19(f func() *resp) (*resp, []bool) {
	before := make([]int, 3)
	for i, n := range names19 {
		before[i] = pulls["url-"+n]
	}
	r := f()
	verifrt.WaitIdle()
	p := make([]bool, 3)
	for i, n := range names19 {
		p[i] = pulls["url-"+n] > before[i]
	}
	return r, p
}

func isError(r *resp) {
	var e struct{ Error string }
	verifrt.Assert(json.Unmarshal(r.body, &e) == nil && e.Error != "", "a failed request is not answered with an error message")
}

func isOk(r *resp) {
	verifrt.Assert(json.Valid(r.body), "a request is not answered with one JSON document")
}

var methods = []string{"POST", "GET", "PUT", "post", "HEAD", "DELETE", "OPTIONS", ""}

// judge checks the outcome of a request that asks for updates of the named repositories.
func judge(r *resp, pulled, named, push []bool) {
	want := 200
	for i := range named {
		if named[i] && !push[i] {
			want = 403
		}
		verifrt.Assert(!pulled[i] || named[i], "a repository is updated that was not named")
		verifrt.Assert(!pulled[i] || push[i], "a repository without push updates is updated")
	}
	verifrt.Assert(r.status == want, "wrong status for an update: "+itoa(r.status))
	if want != 200 {
		verifrt.Reach("forbidden")
		isError(r)
		return
	}
	isOk(r)
	for i := range named {
		verifrt.Assert(!named[i] || pulled[i], "a named repository is not updated")
	}
	verifrt.Reach("updated")
}

// C19Update: the update endpoint.
func C19Update() {
	push := push19()
	_, h := world19(push)
	m := methods[verifrt.Choose("method", len(methods))]
	lists := []string{"", "a", "b", "o/c", "a,b", "b,o/c,a", "*", "zz", "a,zz", "zz,b", "a,a", " a", "A", "*,a"}
	isNamed := [][]int{{}, {0}, {1}, {2}, {0, 1}, {0, 1, 2}, {0, 1, 2}, {}, {0}, {1}, {0}, {0}, {}, {0}}
	k := verifrt.Choose("repos", len(lists))
	if m != "POST" && k > 6 {
		return
	}
	r, pulled := updated19(func() *resp { return do(h, m, "/api/v1/update", map[string]string{"repos": lists[k]}, nil) })
	if m != "POST" {
		verifrt.Assert(r.status == 405, "a request to update that is no POST is not refused")
		isError(r)
		verifrt.Assert(!pulled[0] && !pulled[1] && !pulled[2], "a refused request updates a repository")
		return
	}
	named := make([]bool, 3)
	for _, i := range isNamed[k] {
		named[i] = true
	}
	if lists[k] == " a" {
		// leading white space of a list is ignored by the search; either reading will do here
		if r.status == 200 && !pulled[0] {
			named[0] = false
		}
	}
	judge(r, pulled, named, push)
}

// C19Hook: the webhook.
func C19Hook() {
	push := push19()
	_, h := world19(push)
	m := methods[verifrt.Choose("method", 3)]
	ok, name := true, ""
	var body string
	switch k := verifrt.Choose("body", 4); k {
	case 0: // a well-formed hook with any name
		name = []string{"a", "b", "o/c", "zz", "", "c", "a,b", "*"}[verifrt.Choose("name", 8)]
		body = []string{
			`{"repository":{"name":"x","full_name":"` + name + `"}}`,
			`{"ref":"refs/heads/main","commits":[{"id":1}],"repository":{"id":12,"full_name":"` + name + `","name":"b","owner":{"name":"o"}},"n":null} `,
			`{"REPOSITORY":{"Full_Name":"` + name + `"}}trailing`,
		}[verifrt.Choose("form", 3)]
	case 1: // any name of two characters
		name = verifrt.String("full", 1+verifrt.Choose("len", 2+verifrt.Tier()))
		for i := 0; i < len(name); i++ {
			verifrt.Assume(verifrt.And(name[i] >= ' ', name[i] < 127))
			verifrt.Assume(verifrt.And(name[i] != '"', name[i] != '\\'))
		}
		body = `{"repository":{"full_name":"` + name + `"}}`
	case 2: // not a hook
		type t struct {
			s  string
			ok bool
		}
		l := []t{{"", false}, {"null", true}, {"{}", true}, {"[]", false}, {`"a"`, false}, {"12", false}, {"{", false}, {`{"repository":`, false}, {`{"repository":null}`, true}, {`{"repository":"a"}`, false},
			{`{"repository":{"full_name":1}}`, false}, {`{"repository":{"full_name":["a"]}}`, false}, {`{"repository":{"full_name":null}}`, true}, {`{"repository":{"full_name":"a"}`, false}, {`{"repository":{"name":"a"}}`, true},
			{"<xml/>", false}, {"payload=%7B%7D", false}, {`{"full_name":"a"}`, true}, {`{'repository':{}}`, false}, {`{"repository":{"full_name":"a",}}`, false},
			{`{"repository":{"full_name":"a","full_name":1}}`, false}, {`{"repository":{"full_name":"a"},"repository":[]}`, false}, {`{"repository":{"full_name":"a"}`, false}, {`{"repository":{"full_name":"a"},"x":tru}`, false}}
		x := l[verifrt.Choose("odd", len(l))]
		body, ok = x.s, x.ok
	case 3: // any few bytes
		body = verifrt.String("raw", 1+verifrt.Choose("len", 2+verifrt.Tier()))
		var v struct{ Repository struct{ Full_name string } }
		d := json.NewDecoder(reader(body))
		ok = d.Decode(&v) == nil
	}
	r, pulled := updated19(func() *resp { return do(h, m, "/api/v1/github-webhook", nil, []byte(body)) })
	if m != "POST" {
		verifrt.Assert(r.status == 405, "a webhook that is no POST is not refused")
		isError(r)
		verifrt.Assert(!pulled[0] && !pulled[1] && !pulled[2], "a refused webhook updates a repository")
		return
	}
	if !ok {
		verifrt.Assert(r.status == 400, "a webhook that cannot be decoded is not answered with 400")
		isError(r)
		verifrt.Assert(!pulled[0] && !pulled[1] && !pulled[2], "a refused webhook updates a repository")
		verifrt.Reach("undecodable")
		return
	}
	named := make([]bool, 3)
	known := false
	for i, n := range names19 {
		if n == name {
			named[i] = true
			known = true
		}
	}
	if !known {
		verifrt.Assert(r.status == 404, "a webhook for an unknown repository is not answered with 404")
		isError(r)
		verifrt.Assert(!pulled[0] && !pulled[1] && !pulled[2], "a webhook for an unknown repository updates another one")
		verifrt.Reach("unknown")
		return
	}
	judge(r, pulled, named, push)
}

// C19Read: the endpoints that only read.
func C19Read() {
	_, h := world19([]bool{true, false, false})
	m := methods[verifrt.Choose("method", 4)]
	switch verifrt.Choose("endpoint", 3) {
	case 0:
		name := ""
		if k := verifrt.Choose("name", 6); k < 5 {
			name = []string{"a", "b", "o/c", "*", "a,b"}[k]
		} else {
			name = verifrt.String("repo", verifrt.Choose("len", 3+verifrt.Tier()))
		}
		form := map[string]string{"repo": name}
		if name == "" && verifrt.Choose("absent", 2) == 1 {
			form = nil
		}
		r := do(h, m, "/api/v1/excludes", form, nil)
		isOk(r)
		for i, n := range names19 {
			if n == name {
				verifrt.Assert(r.status == 200, "the excluded files of a repository are not reported")
				var l []struct{ Filename, Reason string }
				verifrt.Assert(json.Unmarshal(r.body, &l) == nil && len(l) == 1 && l[0].Filename == "bin-"+itoa(i) && l[0].Reason != "", "the excluded files are not those of the repository: "+string(r.body))
				verifrt.Reach("excludes")
				return
			}
		}
		verifrt.Reach("no repository")
	case 1:
		r := do(h, m, "/api/v1/repos", nil, nil)
		verifrt.Assert(r.status == 200, "the repositories are not listed")
		var l map[string]*config.Repo
		verifrt.Assert(json.Unmarshal(r.body, &l) == nil && len(l) == 3, "the list of repositories is not complete")
		for _, n := range names19 {
			verifrt.Assert(l[n] != nil && l[n].Url == "url-"+n, "a repository is missing or wrong in the list")
		}
		verifrt.Reach("repos")
	case 2:
		form := map[string]string{}
		for _, k := range []string{"q", "repos", "rng", "files", "stats", "ctx"} {
			if verifrt.Choose(k, 2) == 1 {
				form[k] = map[string]string{"q": "abc", "repos": "*", "rng": ":", "files": "(", "stats": "x", "ctx": "-"}[k]
			}
		}
		decode(do(h, m, "/api/v1/search", form, nil))
		verifrt.Reach("search")
	}
}
