package hweb

import (
	"encoding/json"
	"path/filepath"
	"sort"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

// word is an arbitrary short string without characters that JSON escapes.
func word(name string, n int) string {
	s := verifrt.String(name, n)
	for i := 0; i < n; i++ {
		verifrt.Assume(verifrt.And(s[i] > ' ', s[i] < 127))
		verifrt.Assume(verifrt.And(s[i] != '"', s[i] != '\\'))
		verifrt.Assume(verifrt.And(s[i] != '&', verifrt.And(s[i] != '<', s[i] != '>')))
	}
	return s
}

// num is an arbitrary positive number and its digits.
func num(name string) (int, string) {
	n := verifrt.Choose(name+"len", 2)
	b := make([]byte, n+1)
	v := 0
	for i := range b {
		b[i] = verifrt.Byte(name)
		verifrt.Assume(verifrt.And(b[i] >= '0', b[i] <= '9'))
		v = v*10 + int(b[i]-'0')
	}
	verifrt.Assume(b[0] != '0')
	return v, string(b)
}

// anyNum is num, or a negative or large number.
func anyNum(name string) (int, string) {
	switch verifrt.Choose(name+"kind", 4) {
	case 1:
		v, s := num(name)
		return -v, "-" + s
	case 2:
		return 1<<31 + 5, "2147483653"
	case 3:
		return 1<<53 + 1, "9007199254740993"
	}
	return num(name)
}

func obj(parts []string) string {
	s := "{"
	for i, p := range parts {
		if i > 0 {
			s += ", "
		}
		s += p
	}
	return s + "}"
}

func quoted(s string) string { return `"` + s + `"` }

// given decides whether a setting is present; settings that are not given are sometimes spelled out as the zero value.
func given(name string) bool { return verifrt.Choose(name, 2) == 1 }

func load(text string) (*config.Config, error) {
	p := hx.Dir("conf") + "/config.json"
	hx.Put(p, []byte(text))
	c := new(config.Config)
	err := c.LoadFromFile(p)
	return c, err
}

// plain checks a repository of which only the URL is given.
func plain(r *config.Repo, url string) {
	verifrt.Assert(r != nil && r.Url == url, "a repository is lost or another one")
	verifrt.Assert(r.DisplayName == "" && r.MsBetweenPolls == 30000 && r.Vcs == "git" && !r.ExcludeDotFiles && len(r.AutoGeneratedFiles) == 0, "wrong defaults for a repository")
	verifrt.Assert(r.PollUpdatesEnabled() && !r.PushUpdatesEnabled(), "wrong defaults for updates")
	verifrt.Assert(r.UrlPattern != nil && r.UrlPattern.BaseUrl == "{url}/blob/{rev}/{path}{anchor}" && r.UrlPattern.Anchor == "#L{line}", "wrong default URL pattern")
}

// C21Global: the global settings.
func C21Global() {
	setup()
	var parts []string
	title, uri, indexers, limit := "Hound", "/healthz", 2, 5000
	if given("title") {
		title = word("title", 2)
		parts = append(parts, `"title":`+quoted(title))
	}
	if given("uri") {
		uri = word("uri", 2)
		parts = append(parts, `"health-check-uri":`+quoted(uri))
	}
	if given("indexers") {
		n, s := num("indexers")
		indexers = n
		parts = append(parts, `"max-concurrent-indexers":`+s)
	}
	if given("limit") {
		n, s := anyNum("limit")
		limit = n
		parts = append(parts, `"result-limit":`+s)
	}
	dir := hx.Dir("conf")
	db := ""
	if k := verifrt.Choose("dbpath", 7); k > 0 {
		d := []string{"data", "./a//b/", "../db", "/abs/path", "/abs/../x", "."}[k-1]
		parts = append(parts, `"dbpath":`+quoted(d))
		db = []string{dir + "/data", dir + "/a/b", filepath.Dir(dir) + "/db", "/abs/path", "/abs/../x", dir}[k-1]
	}
	parts = append(parts, `"repos":{"r":{"url":"u"},"s":{"url":"v"}}`)
	c, err := load(obj(parts))
	verifrt.Assert(err == nil, "a valid configuration is refused")
	verifrt.Assert(verifrt.EqStr(c.Title, title), "wrong title")
	verifrt.Assert(verifrt.EqStr(c.HealthCheckURI, uri), "wrong health check URI")
	verifrt.Assert(c.MaxConcurrentIndexers == indexers, "wrong number of indexers")
	verifrt.Assert(c.ResultLimit == limit, "wrong result limit")
	if db != "" {
		verifrt.Assert(filepath.Clean(c.DbPath) == filepath.Clean(db), "wrong database path: "+c.DbPath)
	}
	verifrt.Assert(filepath.IsAbs(c.DbPath), "the database path is not absolute")
	verifrt.Assert(len(c.Repos) == 2, "wrong number of repositories")
	plain(c.Repos["r"], "u")
	plain(c.Repos["s"], "v")
	verifrt.Assert(c.Repos["r"].VcsConfig() == nil, "a driver configuration out of nothing")
	verifrt.Reach("loaded")
}

// C21Repo: the settings of a repository beside another one.
func C21Repo() {
	setup()
	var parts []string
	want := config.Repo{Url: word("url", 2), MsBetweenPolls: 30000, Vcs: "git"}
	parts = append(parts, `"url":`+quoted(want.Url))
	base, anchor := "{url}/blob/{rev}/{path}{anchor}", "#L{line}"
	if given("display") {
		want.DisplayName = word("display", 1)
		parts = append(parts, `"display-name":`+quoted(want.DisplayName))
	}
	if given("ms") {
		n, s := anyNum("ms")
		want.MsBetweenPolls = n
		parts = append(parts, `"ms-between-poll":`+s)
	}
	if given("vcs") {
		want.Vcs = word("vcs", 2)
		parts = append(parts, `"vcs":`+quoted(want.Vcs))
	}
	if given("pattern") {
		var pp []string
		if given("base") {
			base = word("base", 1)
			pp = append(pp, `"base-url":`+quoted(base))
		}
		if given("anchor") {
			anchor = word("anchor", 1)
			pp = append(pp, `"anchor":`+quoted(anchor))
		}
		parts = append(parts, `"url-pattern":`+obj(pp))
	}
	flag := func(name string, def bool) bool {
		k := verifrt.Choose(name, 3)
		if k > 0 {
			parts = append(parts, quoted(name)+":"+[]string{"false", "true"}[k-1])
			return k == 2
		}
		return def
	}
	want.ExcludeDotFiles = flag("exclude-dot-files", false)
	poll := flag("enable-poll-updates", true)
	push := flag("enable-push-updates", false)
	if given("auto") {
		want.AutoGeneratedFiles = []string{word("auto", 1), "x/y"}
		parts = append(parts, `"auto-generated-files":[`+quoted(want.AutoGeneratedFiles[0])+`,"x/y"]`)
	}
	own := ""
	if given("config") {
		own = `{"ref":` + quoted(word("ref", 1)) + `}`
		parts = append(parts, `"vcs-config":`+own)
	}
	c, err := load(`{"repos":{"a":{"url":"first"},"r":` + obj(parts) + `,"z":{"url":"last"}}}`)
	verifrt.Assert(err == nil, "a valid configuration is refused")
	r := c.Repos["r"]
	verifrt.Assert(r != nil && len(c.Repos) == 3, "a repository is lost")
	verifrt.Assert(verifrt.EqStr(r.Url, want.Url) && verifrt.EqStr(r.DisplayName, want.DisplayName) && verifrt.EqStr(r.Vcs, want.Vcs), "a string setting is wrong")
	verifrt.Assert(r.MsBetweenPolls == want.MsBetweenPolls, "the poll interval is wrong")
	verifrt.Assert(r.UrlPattern != nil && verifrt.EqStr(r.UrlPattern.BaseUrl, base) && verifrt.EqStr(r.UrlPattern.Anchor, anchor), "the URL pattern is wrong")
	verifrt.Assert(r.ExcludeDotFiles == want.ExcludeDotFiles && r.PollUpdatesEnabled() == poll && r.PushUpdatesEnabled() == push, "a flag is wrong")
	verifrt.Assert(sameStrings(r.AutoGeneratedFiles, want.AutoGeneratedFiles), "the auto-generated files are wrong")
	if own == "" {
		verifrt.Assert(len(r.VcsConfig()) == 0, "a driver configuration out of nothing")
	} else {
		verifrt.Assert(verifrt.EqBytes(r.VcsConfig(), []byte(own)), "the driver configuration is not kept")
	}
	plain(c.Repos["a"], "first")
	plain(c.Repos["z"], "last")
	verifrt.Reach("loaded")
}

// values of driver settings: text, and what it decodes to
var values21 = []string{`"v"`, `7`, `true`, `false`, `null`, `""`, `0`, `{"x":{"y":1}}`, `[1,"b"]`, `{}`}

type setting struct {
	key string
	val string
}

// render writes settings as an object.
func render(l []setting) string {
	var p []string
	for _, s := range l {
		p = append(p, quoted(s.key)+": "+s.val)
	}
	return obj(p)
}

func lookup(l []setting, k string) (string, bool) {
	for _, s := range l {
		if s.key == k {
			return s.val, true
		}
	}
	return "", false
}

// sameJSON compares decoded values.
func sameJSON(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && verifrt.EqStr(x, y)
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameJSON(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// merged checks the settings that a repository ends up with.
func merged(r *config.Repo, own, global []setting, none bool, tag string) {
	if none {
		verifrt.Assert(len(r.VcsConfig()) == 0, tag+": driver settings out of nothing: "+string(r.VcsConfig()))
		return
	}
	var got map[string]interface{}
	verifrt.Assert(json.Unmarshal(r.VcsConfig(), &got) == nil, tag+": the driver settings are not valid")
	n := 0
	for _, l := range [][]setting{own, global} {
		for _, s := range l {
			v := s.val
			if o, ok := lookup(own, s.key); ok {
				if v != o {
					continue
				}
				v = o
			} else {
				n++
			}
			var exp interface{}
			if json.Unmarshal([]byte(v), &exp) != nil {
				verifrt.Fail("harness: bad value")
			}
			x, ok := got[s.key]
			verifrt.Assert(ok, tag+": a setting is lost")
			verifrt.Assert(sameJSON(x, exp), tag+": a setting has another value")
		}
	}
	verifrt.Assert(len(got) == len(own)+n, tag+": a setting out of nothing")
}

// C21Merge: global driver settings and those of three repositories.
func C21Merge() {
	setup()
	verifrt.Opt("maporder", 2)
	keys := []string{"ref", "user", "Ref"}
	some := func(name string, n int) []setting {
		var l []setting
		for i := 0; i < n; i++ {
			if verifrt.Choose(name, 2) == 1 {
				v := quoted(word(name+"val", 1))
				l = append(l, setting{keys[i], v})
			}
		}
		return l
	}
	git := some("git", 2)
	svn := []setting{{"user", `"svn"`}}
	ownA := some("a", 2)
	var ownB []setting
	emptyA := verifrt.Choose("empty", 2) == 1 && len(ownA) == 0
	a := `"url":"a"`
	if len(ownA) > 0 || emptyA {
		a += `,"vcs-config":` + render(ownA)
	}
	if verifrt.Choose("explicit", 2) == 1 {
		a += `,"vcs":"git"`
	}
	b := `"url":"b"`
	if verifrt.Choose("b", 2) == 1 {
		ownB = []setting{{"ref", `"of-b"`}}
		b += `,"vcs-config":` + render(ownB)
	}
	vb := []string{"git", "svn", "hg"}[verifrt.Choose("vcs", 3)]
	b += `,"vcs":` + quoted(vb)
	glob := []string{`"git":` + render(git), `"svn":` + render(svn)}
	noGit := verifrt.Choose("nogit", 2) == 1
	if noGit {
		verifrt.Assume(len(git) == 0)
		glob = glob[1:]
	}
	c, err := load(`{"vcs-config":` + obj(glob) + `,"repos":{"a":{` + a + `},"b":{` + b + `},"c":{"url":"c"}}}`)
	verifrt.Assert(err == nil, "a valid configuration is refused")
	merged(c.Repos["a"], ownA, git, noGit && len(ownA) == 0 && !emptyA, "a")
	gb := map[string][]setting{"git": git, "svn": svn}[vb]
	merged(c.Repos["b"], ownB, gb, (vb == "hg" || vb == "git" && noGit) && ownB == nil, "b")
	merged(c.Repos["c"], nil, git, noGit, "c")
	verifrt.Reach("merged")
}

// C21Values: every kind of value survives, and the repository's own value wins whatever it is.
func C21Values() {
	setup()
	n := len(values21)
	g := []setting{{"k", values21[verifrt.Choose("global", n)]}, {"other", values21[verifrt.Choose("other", n)]}}
	own := []setting{{"k", values21[verifrt.Choose("own", n)]}}
	k2 := []string{"K", "k ", "kk", "o"}[verifrt.Choose("key", 4)]
	own = append(own, setting{k2, `"mine"`})
	c, err := load(`{"repos":{"a":{"url":"a","vcs-config":` + render(own) + `},"c":{"url":"c"}},"vcs-config":{"git":` + render(g) + `}}`)
	verifrt.Assert(err == nil, "a valid configuration is refused")
	merged(c.Repos["a"], own, g, false, "a")
	merged(c.Repos["c"], nil, g, false, "c")
	verifrt.Reach("merged")
}

// sound checks that whatever was loaded can be used.
func sound(c *config.Config, err error) {
	if err != nil {
		verifrt.Reach("refused")
		return
	}
	verifrt.Reach("accepted")
	var ns []string
	for n := range c.Repos {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		r := c.Repos[n]
		verifrt.Assert(r != nil && r.UrlPattern != nil && r.Vcs != "", "a repository is accepted but not initialised")
		r.VcsConfig()
		r.PollUpdatesEnabled()
		r.PushUpdatesEnabled()
	}
	_, err = c.ToJsonString()
	verifrt.Assert(err == nil, "an accepted configuration cannot be shown")
}

// kinds of values: what a place takes
const (
	vObject = 1 << iota
	vNull
	vString
	vInt
	vBool
	vList
	vNumber  // that is no int
	vScalars // an object whose values are no objects
	vNulls   // an object whose values are null
	vBad
	vTrailing
)

var fills21 = []struct {
	text string
	kind int
}{
	{"null", vNull}, {"{}", vObject}, {"[]", vList}, {`""`, vString}, {"0", vInt}, {"-1", vInt}, {"true", vBool}, {`{"a":null}`, vNulls}, {`[null]`, vList},
	{`{"x":`, vBad}, {"", vBad}, {`"a`, vBad}, {`{"a":{"b":1}}`, vObject}, {"1e400", vNumber}, {"18446744073709551616", vNumber}, {"1.5", vNumber}, {`"\u0000"`, vString}, {`"\ud800"`, vString},
	{"nul", vBad}, {"{}}", vTrailing}, {`{"a":1,"a":2}`, vScalars}, {"\xff", vBad}, {`,{}`, vBad}, {"01", vBad}, {`{a:1}`, vBad},
}

const (
	anyObject = vObject | vScalars | vNulls
	anyValue  = anyObject | vNull | vString | vInt | vBool | vList | vNumber
)

// places of a configuration: the kinds that are taken there, and those that are refused
var holes21 = []struct {
	text     string
	ok, fail int
}{
	{`?`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"repos":?}`, vObject | vNull, vNulls | vScalars | vString | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":?}}`, anyObject, vNull | vString | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":{"url":?}}}`, vString | vNull, anyObject | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":{"url":"u","vcs-config":?}}}`, anyObject | vNull, 0},
	{`{"repos":{"a":{"vcs-config":?}},"vcs-config":{"git":{"x":1}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"vcs-config":?,"repos":{"a":{"url":"u"}}}`, vObject | vNull | vNulls, vScalars | vString | vInt | vBool | vList | vNumber},
	{`{"vcs-config":{"git":?},"repos":{"a":{"url":"u"}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"vcs-config":{"git":?},"repos":{"a":{"url":"u","vcs-config":{"x":1}}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"vcs-config":{"svn":?},"repos":{"a":{"url":"u"}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"vcs-config":{"git":{"x":1},"svn":?},"repos":{"a":{"url":"u"},"b":{"url":"v","vcs":"svn"}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":{"url-pattern":?}}}`, anyObject | vNull, vString | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":{"url-pattern":{"anchor":?}}}}`, vString | vNull, anyObject | vInt | vBool | vList | vNumber},
	{`{"repos":{"a":{"ms-between-poll":?}}}`, vInt | vNull, anyObject | vString | vBool | vList | vNumber},
	{`{"repos":{"a":{"enable-push-updates":?}}}`, vBool | vNull, anyObject | vString | vInt | vList | vNumber},
	{`{"repos":{"a":{"auto-generated-files":?}}}`, vList | vNull, anyObject | vString | vInt | vBool | vNumber},
	{`{"repos":{"a":{"auto-generated-files":["x",?]}}}`, vString | vNull, anyObject | vList | vInt | vBool | vNumber},
	{`{"max-concurrent-indexers":?}`, vNull, anyObject | vString | vBool | vList | vNumber},
	{`{"result-limit":?}`, vInt | vNull, anyObject | vString | vBool | vList | vNumber},
	{`{"title":?}`, vString | vNull, anyObject | vInt | vBool | vList | vNumber},
	{`{"dbpath":?}`, vString | vNull, anyObject | vInt | vBool | vList | vNumber},
	{`{"health-check-uri":?}`, vString | vNull, anyObject | vInt | vBool | vList | vNumber},
}

// C21Odd: odd configurations are accepted, malformed ones refused, and none crashes.
func C21Odd() {
	setup()
	h := holes21[verifrt.Choose("hole", len(holes21))]
	f := fills21[verifrt.Choose("fill", len(fills21))]
	for i := 0; i < len(h.text); i++ {
		if h.text[i] == '?' {
			c, err := load(h.text[:i] + f.text + h.text[i+1:])
			sound(c, err)
			if f.kind&h.ok != 0 {
				verifrt.Assert(err == nil, "a valid configuration is refused")
			}
			if f.kind&(h.fail|vBad) != 0 {
				verifrt.Assert(err != nil, "a malformed configuration is accepted")
			}
		}
	}
}

// C21Bytes: any few bytes instead of a value.
func C21Bytes() {
	setup()
	holes := []string{"", `{"repos":{"a":`, `{"vcs-config":{"git":`, `{"repos":{"a":{"vcs-config":`}
	ends := []string{"", `}}`, `},"repos":{"a":{"url":"u"}}}`, `}},"vcs-config":{"git":{"x":1}}}`}
	k := verifrt.Choose("hole", len(holes))
	sound(load(holes[k] + verifrt.String("raw", verifrt.Choose("len", 3+verifrt.Tier())) + ends[k]))
}

// C21Missing: a file that is not there.
func C21Missing() {
	setup()
	c := new(config.Config)
	verifrt.Assert(c.LoadFromFile(hx.Dir("conf")+"/none.json") != nil, "a missing file is no error")
	hx.Mkdir(hx.Dir("conf") + "/dir")
	verifrt.Assert(c.LoadFromFile(hx.Dir("conf")+"/dir") != nil, "a directory is no error")
	verifrt.Reach("refused")
}
