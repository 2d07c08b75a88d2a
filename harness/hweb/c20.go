package hweb

import (
	"bytes"
	"encoding/json"
	"net/http"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/web"
)

// secret is an arbitrary driver configuration.
func secret(name string, obj bool) string {
	n := 5
	if obj {
		n = 4
	}
	switch verifrt.Choose(name+"shape", n) {
	case 0:
		v := quoted(word(name+"v", verifrt.Choose(name+"n", 3)))
		return `{"username":` + v + `,"password":` + v + `}`
	case 1:
		return `{` + quoted(word(name+"k", 1)) + `:"x","ref":` + quoted(word(name+"w", 1)) + `}`
	case 2:
		b := verifrt.Byte(name + "d")
		verifrt.Assume(verifrt.And(b >= '1', b <= '9'))
		return `{"password":` + string([]byte{b}) + `,"detect":true}`
	case 3:
		return `{}`
	}
	return `["x",` + quoted(word(name+"e", 1)) + `]`
}

// reference is the secret that every other one is compared with: if no secret can be told from it,
// no two can be told apart.
const reference = `{}`

// confText is a configuration with the secret at one of the places where one can be.
func confText(place int, kind, s string) string {
	own, own2, glob, globOther := `{"user":"own"}`, `{"user":"own2"}`, `{"user":"g","password":"h"}`, `{"x":"y"}`
	switch place {
	case 0:
		own = s
	case 1:
		own2 = s
	case 2:
		glob = s
	case 3:
		globOther = s
	}
	return `{"dbpath":"db","repos":{"a":{"url":"u:a","vcs":"` + kind + `","enable-push-updates":true,"vcs-config":` + own + `},"b":{"url":"u:b","vcs":"local","vcs-config":` + own2 + `},"c":{"url":"u:c","vcs":"` + kind + `"}},` +
		`"vcs-config":{"` + kind + `":` + glob + `,"other":` + globOther + `}}`
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	verifrt.Assert(err == nil, "a configuration is not serialised")
	c, err := json.MarshalIndent(v, "", " ")
	verifrt.Assert(err == nil, "a configuration is not serialised")
	var buf bytes.Buffer
	verifrt.Assert(json.NewEncoder(&buf).Encode(v) == nil, "a configuration is not serialised")
	return append(append(b, c...), buf.Bytes()...)
}

// serialised is every serialisation of a configuration.
func serialised(c *config.Config) [][]byte {
	var out [][]byte
	out = append(out, js(c), js(*c), js(c.Repos), js(c.VCSConfigMessages))
	for _, n := range []string{"a", "b", "c"} {
		r := c.Repos[n]
		out = append(out, js(r), js(*r), js([]config.Repo{*r}), js(map[string]config.Repo{n: *r}), js(r.VcsConfigMessage))
		if r.VcsConfigMessage != nil {
			out = append(out, js(struct{ M *config.SecretMessage }{r.VcsConfigMessage}))
		}
	}
	s, err := c.ToJsonString()
	verifrt.Assert(err == nil, "a configuration is not serialised")
	return append(out, []byte(s))
}

// responses is everything that a client can ask.
func responses(c *config.Config, dev bool) [][]byte {
	ss, errs, err := searcher.MakeAll(c)
	verifrt.Assert(err == nil && len(errs) == 0 && len(ss) == 3, "startup fails")
	s := web.Start(c, "127.0.0.1:0", dev)
	out := [][]byte{answer(s, "GET", "/", nil, "")}
	go s.ServeWithIndex(ss)
	verifrt.WaitIdle()
	for _, p := range []string{"/", "/open_search.xml", "/excluded_files.html", "/nothing", "/healthz", "/api/v1/repos", "/js/hound.js"} {
		out = append(out, answer(s, "GET", p, nil, ""))
	}
	for _, q := range []string{"x", "nothing", "("} {
		out = append(out, answer(s, "GET", "/api/v1/search", map[string]string{"q": q, "repos": "*", "rng": "0:5"}, ""))
	}
	for _, r := range []string{"a", "b", "none"} {
		out = append(out, answer(s, "GET", "/api/v1/excludes", map[string]string{"repo": r}, ""))
		out = append(out, answer(s, "POST", "/api/v1/update", map[string]string{"repos": r}, ""))
		out = append(out, answer(s, "POST", "/api/v1/github-webhook", nil, `{"repository":{"full_name":"`+r+`"}}`))
	}
	return append(out, answer(s, "GET", "/api/v1/update", nil, ""), answer(s, "POST", "/api/v1/github-webhook", nil, "{"))
}

func answer(h http.Handler, method, path string, form map[string]string, body string) []byte {
	w := do(h, method, path, form, []byte(body))
	b := []byte(path + itoa(w.status))
	for _, k := range []string{"Content-Type", "Location", "Set-Cookie", "Server"} {
		for _, v := range w.hdr[k] {
			b = append(append(append(b, k...), ':'), v...)
		}
	}
	n := 0
	for range w.hdr {
		n++
	}
	b = append(b, itoa(n)...)
	return append(append(b, '\n'), w.body...)
}

func same(a, b [][]byte, what string) {
	verifrt.Assert(len(a) == len(b), what)
	for i := range a {
		verifrt.Assert(len(a[i]) == len(b[i]) && verifrt.EqBytes(a[i], b[i]), what)
	}
}

func c20world() {
	setup()
	// stand-ins for the real drivers, under their names
	vcs.Register(func(c []byte) (vcs.Driver, error) { return &driver{}, nil }, "svn", "git", "local")
	for _, n := range []string{"a", "b", "c"} {
		trees["u:"+n] = map[string]string{"f": "x " + n + "\n", ".fake/own": "special\n"}
	}
}

// C20Text: no serialisation depends on a secret.
func C20Text() {
	c20world()
	place := verifrt.Choose("place", 4)
	obj := place != 1
	kind := []string{"svn", "git"}[verifrt.Choose("kind", 2)]
	texts := []string{confText(place, kind, secret("a", obj)), confText(place, kind, reference)}
	var raw, merged [2][][]byte
	for i, t := range texts {
		c := new(config.Config)
		verifrt.Assert(json.Unmarshal([]byte(t), c) == nil, "a valid configuration is refused")
		raw[i] = serialised(c)
		c, err := load(t)
		verifrt.Assert(err == nil, "a valid configuration is refused")
		merged[i] = serialised(c)
	}
	same(raw[0], raw[1], "a serialisation of the configuration depends on a driver configuration")
	same(merged[0], merged[1], "a serialisation of the merged configuration depends on a driver configuration")
	verifrt.Reach("serialised")
}

// C20Serve: no response of the server depends on a secret.
func C20Serve() {
	c20world()
	place := verifrt.Choose("place", 4)
	obj := place != 1
	dev := verifrt.Choose("dev", 2) == 1
	var out [2][][]byte
	for i, n := range []string{"a", "b"} {
		sec := reference
		if i == 0 {
			sec = secret(n, obj)
		}
		c, err := load(confText(place, "svn", sec))
		verifrt.Assert(err == nil, "a valid configuration is refused")
		c.DbPath = hx.Dir("db" + n)
		out[i] = responses(c, dev)
	}
	same(out[0], out[1], "a response depends on a driver configuration")
	verifrt.Reach("served")
}
