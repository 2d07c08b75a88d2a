package hvcs

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// other is a model of Subversion, Mercurial and Bazaar: a server and a working directory.
type other struct {
	dir, url string
	user, pw string
	present  bool
	tip      int // of the server
	have     int // of what was pulled (Mercurial)
	rev      int // of the files
	names    [3]string
	pre      string
	post     string

	n, fail  int
	mode     int
	injected bool
	cloned   int
	pulled   int
	stray    string
	noise    string
}

func (m *other) install() {
	vmodel.ExecHook = func(c *vmodel.Cmd) (string, string, error) {
		k := m.n
		m.n++
		if k == m.fail && m.mode < 3 {
			m.injected = true
			if m.mode < 2 {
				return "", "abort: x\n", vmodel.ErrExit
			}
			out, _ := m.do(c)
			return out, "abort: x\n", vmodel.ErrExit
		}
		out, err := m.do(c)
		if err != nil {
			m.stray = err.Error()
			return out, "abort\n", vmodel.ErrExit
		}
		return out, m.noise, nil
	}
	vmodel.StartErr = func(c *vmodel.Cmd) bool {
		if (m.mode == 0 || m.mode == 4) && m.n == m.fail {
			m.n++
			m.injected = true
			return true
		}
		return false
	}
	vmodel.PipeErr = func(c *vmodel.Cmd) bool {
		if m.mode == 4 && m.n == m.fail {
			m.n++
			m.injected = true
			return true
		}
		return false
	}
	vmodel.ReadErr = func(c *vmodel.Cmd) bool { return m.mode == 3 && m.n == m.fail }
	vmodel.OnReadErr = func(c *vmodel.Cmd) { m.injected = true }
}

func (m *other) out(r int) (string, error) { return m.pre + m.names[r] + m.post, nil }

func (m *other) clone(wd string, pos []string) (string, error) {
	if len(pos) != 2 || pos[0] != m.url {
		return "", errors.New("wrong url")
	}
	if join(wd, pos[1]) != m.dir {
		return "", errors.New("wrong directory")
	}
	if m.present {
		return "", errors.New("the directory exists")
	}
	m.present = true
	vmodel.MkdirP(m.dir)
	m.have, m.rev = m.tip, m.tip
	m.cloned++
	return "", nil
}

func (m *other) do(c *vmodel.Cmd) (string, error) {
	a := c.Args
	wd := join("/", c.Dir)
	tool := a[0]
	if k := strings.LastIndexByte(tool, '/'); k >= 0 {
		tool = tool[k+1:]
	}
	a = a[1:]
	if tool == "svnversion" {
		d := wd
		if _, pos := opts(a); len(pos) > 0 {
			d = join(wd, pos[0])
		}
		if d != m.dir || !m.present {
			return "", errors.New("wrong directory")
		}
		return m.out(m.rev)
	}
	if len(a) == 0 {
		return "", errors.New("usage")
	}
	o, pos := opts(a, "--username", "--password", "-r", "--rev", "--revision", "--template", "-T", "-R", "--cwd", "--config-option", "--limit", "-l", "--depth")
	if v, ok := o["-R"]; ok {
		wd = join(wd, v)
	}
	verb := pos[0]
	pos = pos[1:]
	here := wd == m.dir && m.present
	switch tool {
	case "svn":
		switch verb {
		case "checkout", "co", "update", "up":
			u, p, ok := creds(a)
			if !ok || m.user != "" && (u != m.user || p != m.pw) {
				return "", errors.New("authentication failed")
			}
			if verb[0] == 'c' {
				return m.clone(wd, pos)
			}
			if len(pos) > 0 {
				here = m.present && join(wd, pos[0]) == m.dir
			}
			if !here {
				return "", errors.New("wrong directory")
			}
			m.have, m.rev = m.tip, m.tip
			m.pulled++
			return "Updating '.':\n", nil
		case "cleanup", "upgrade":
			return "", nil
		case "info":
			if !here {
				return "", errors.New("wrong directory")
			}
			return m.out(m.rev)
		}
	case "hg":
		if verb == "clone" {
			return m.clone(wd, pos)
		}
		if !here {
			return "", errors.New("wrong directory")
		}
		switch verb {
		case "pull":
			m.have = m.tip
			if has(o, "-u", "--update") {
				m.rev = m.tip
			}
			m.pulled++
			return "", nil
		case "update", "up", "checkout", "co":
			m.rev = m.have
			return "", nil
		case "log", "id", "identify", "parents":
			r := m.rev
			if v := o["-r"] + o["--rev"]; v == "tip" || v == "default" || (verb == "log" && v == "") {
				r = m.have
			}
			return m.out(r)
		}
	case "bzr":
		if verb == "branch" || verb == "clone" || verb == "checkout" {
			return m.clone(wd, pos)
		}
		if !here {
			return "", errors.New("wrong directory")
		}
		switch verb {
		case "pull", "update", "up":
			m.have, m.rev = m.tip, m.tip
			m.pulled++
			return "", nil
		case "revno":
			return m.out(m.rev)
		}
	}
	verifrt.Unsupported("command that is not modelled: " + tool + " " + verb)
	return "", nil
}

// creds finds the options that hold the credentials; the words after them are their values, whatever they are.
func creds(a []string) (user, pw string, ok bool) {
	ok = true
	for i := 0; i < len(a); i++ {
		for _, k := range []string{"--username", "--password"} {
			v := ""
			if a[i] == k {
				if i+1 >= len(a) {
					return "", "", false
				}
				i++
				v = a[i]
			} else if strings.HasPrefix(a[i], k+"=") {
				v = a[i][len(k)+1:]
			} else {
				continue
			}
			if k == "--username" {
				user = v
			} else {
				pw = v
			}
			break
		}
	}
	return
}

var tools = []struct{ name, special string }{{"svn", ".svn"}, {"subversion", ".svn"}, {"hg", ".hg"}, {"mercurial", ".hg"}, {"bzr", ".bzr"}}

func newOther(tag string) *other {
	m := &other{dir: gdir, url: "ssh://host/x", fail: -1}
	m.names = [3]string{"0", graphic("new", 2), graphic("old", 2)}
	m.tip = 1
	m.pre = space("pre", verifrt.Choose("npre", 2))
	m.post = space("post", verifrt.Choose("npost", 3))
	m.install()
	return m
}

func (m *other) judge(got string, err error) {
	if m.injected {
		verifrt.Assert(err != nil, "a command fails and no error is returned")
		verifrt.Reach("failed")
		return
	}
	if m.stray != "" {
		verifrt.Fail("a command is not the right one: " + m.stray)
	}
	verifrt.Assert(err == nil, "no command fails and an error is returned")
	verifrt.Assert(m.rev == m.tip, "the files are not those of the server")
	verifrt.Assert(verifrt.EqStr(got, m.names[m.tip]), "the revision returned is not the one that the tool reports")
}

// C26Tools: clone, pull and revision of Subversion, Mercurial and Bazaar.
func C26Tools() {
	k := verifrt.Choose("tool", len(tools))
	m := newOther("")
	cfg := ""
	if k < 2 {
		switch verifrt.Choose("creds", 4) {
		case 1:
			cfg = "{}"
		case 2:
			m.user, m.pw = "u"+word("user", 1), word("pw", 1+verifrt.Choose("npw", 2))
			cfg = `{"username":"` + m.user + `","password":"` + m.pw + `"}`
		case 3:
			m.user, m.pw = "u", ""
			cfg = `{"username":"u"}`
		}
	}
	m.noise = []string{"", "warning: x\n"}[verifrt.Choose("noise", 2)]
	d := driver(tools[k].name, cfg)
	sf := d.SpecialFiles()
	verifrt.Assert(len(sf) == 1 && sf[0] == tools[k].special, "the metadata directory is not special")
	for i := 0; i < 2; i++ {
		if i == 0 {
			switch verifrt.Choose("dir", 3) {
			case 1:
				m.present = true
				m.rev, m.have = 2, 2
				vmodel.MkdirP(gdir)
			case 2:
				m.present = true
				m.rev, m.have = 2, 1
				vmodel.MkdirP(gdir)
			}
		} else {
			m.names = [3]string{"0", graphic("newer", 3), m.names[1]}
			m.rev, m.have = m.rev*2, m.have*2
		}
		m.fail = verifrt.Choose("fail", 3+i) - 1
		if m.fail >= 0 {
			m.mode = verifrt.Choose("how", 5)
		}
		m.n, m.cloned, m.pulled, m.injected = 0, 0, 0, false
		had := m.present
		got, err := d.PullOrClone(gdir, m.url)
		m.judge(got, err)
		if m.injected {
			return
		}
		if had {
			verifrt.Assert(m.cloned == 0 && m.pulled == 1, "an existing working directory is not pulled")
			verifrt.Reach("pulled")
		} else {
			verifrt.Assert(m.cloned == 1 && m.pulled == 0, "a missing working directory is not cloned")
			verifrt.Reach("cloned")
		}
	}
	m.n, m.injected = 0, false
	m.fail = verifrt.Choose("failhead", 2) - 1
	if m.fail >= 0 {
		m.mode = verifrt.Choose("howhead", 5)
	}
	got, err := d.HeadRev(gdir)
	m.judge(got, err)
}

// word is an arbitrary word of letters, digits and signs that mean nothing to JSON.
func word(name string, n int) string {
	b := verifrt.Bytes(name, n)
	for _, c := range b {
		verifrt.Assume(verifrt.And(c > ' ', verifrt.And(c < 0x7f, verifrt.And(c != '"', c != '\\'))))
	}
	return string(b)
}

// recorder is a driver that notes what it is asked to do.
type recorder struct {
	clones, pulls int
	url           string
}

func (r *recorder) Clone(dir, url string) (string, error) {
	r.clones++
	r.url = url
	vmodel.MkdirP(dir)
	return "c", nil
}
func (r *recorder) Pull(dir string) (string, error)        { r.pulls++; return "p", nil }
func (r *recorder) HeadRev(dir string) (string, error)     { return "h", nil }
func (r *recorder) SpecialFiles() []string                 { return nil }
func (r *recorder) AutoGeneratedFiles(dir string) []string { return nil }

// C26Dir: a repository is cloned when its directory does not exist and pulled when it does.
func C26Dir() {
	rec := &recorder{}
	vcs.Register(func(b []byte) (vcs.Driver, error) { return rec, nil }, "rec")
	w := driver("rec", "")
	present := true
	switch verifrt.Choose("dir", 6) {
	case 0:
		present = false
	case 1:
		vmodel.MkdirP("/db")
		present = false
	case 2:
		vmodel.MkdirP(gdir)
	case 3:
		vmodel.Put(gdir+"/f", []byte("x"))
	case 4:
		vmodel.Put("/other/f", nil)
		vmodel.MkdirP("/db")
		vmodel.PutLink(gdir, "/other")
	case 5:
		vmodel.MkdirP(gdir + "y")
		vmodel.MkdirP("/db/vcs-")
		present = false
	}
	for i := 0; i < 2; i++ {
		got, err := w.PullOrClone(gdir, "u")
		verifrt.Assert(err == nil, "an error is returned")
		if present {
			verifrt.Assert(got == "p" && rec.pulls == 1 && rec.clones == 0, "an existing working directory is not pulled")
			verifrt.Reach("pulled")
		} else {
			verifrt.Assert(got == "c" && rec.clones == 1 && rec.pulls == 0 && rec.url == "u", "a missing working directory is not cloned")
			verifrt.Reach("cloned")
		}
		present = true
		rec.clones, rec.pulls = 0, 0
	}
}

var vcsNames = []string{"git", "svn", "subversion", "hg", "mercurial", "bzr", "local"}

// C26New: which names and settings are accepted.
func C26New() {
	if verifrt.Choose("what", 2) == 0 {
		n := verifrt.Choose("len", 6+verifrt.Tier())
		name := verifrt.String("name", n)
		w, err := vcs.New(name, nil)
		known := false
		for _, k := range vcsNames {
			known = verifrt.Or(known, verifrt.EqStr(name, k))
		}
		if err == nil {
			verifrt.Assert(known, "an unknown name is accepted")
			verifrt.Assert(w != nil && w.Driver != nil, "no driver")
			verifrt.Reach("known")
		} else {
			verifrt.Assert(verifrt.And(!known, w == nil), "a name is refused")
			verifrt.Reach("unknown")
		}
		return
	}
	for _, k := range vcsNames {
		w, err := vcs.New(k, nil)
		verifrt.Assert(err == nil && w != nil, "a name is refused")
	}
	var bad, good []string
	var name string
	switch verifrt.Choose("driver", 4) {
	case 0:
		name = "git"
		bad = []string{`{"ref":1}`, `{"ref":["x"]}`, `{"detect-ref":"yes"}`, `{"detect-ref":1}`}
		good = []string{`{}`, `{"ref":"x"}`, `{"detect-ref":true}`, `{"detect-ref":false,"ref":"x"}`}
	case 1, 2:
		name = []string{"svn", "subversion"}[verifrt.Choose("n", 2)]
		bad = []string{`{"username":1}`, `{"password":{}}`, `{"username":"u","password":true}`}
		good = []string{`{}`, `{"username":"u","password":"p"}`, `{"username":"u"}`}
	case 3:
		name = "local"
		bad = []string{`{"watch-changes":"x"}`, `{"ignored-files":"x"}`, `{"ignored-files":[1]}`, `{"ignored-files":{}}`}
		good = []string{`{}`, `{"watch-changes":true}`, `{"ignored-files":["a"]}`}
	}
	bad = append(bad, `{`, `[]`, `"x"`, `1`, `{"a"}`, `x`, `{} {}`, `{"a":1,}`)
	if verifrt.Choose("valid", 2) == 0 {
		i := verifrt.Choose("bad", len(bad))
		_, err := vcs.New(name, []byte(bad[i]))
		verifrt.Assert(err != nil, "malformed settings are accepted")
		// and through the configuration of a server
		if json.Valid([]byte(bad[i])) {
			sm := config.SecretMessage(bad[i])
			repo := &config.Repo{Url: "u", Vcs: name, VcsConfigMessage: &sm}
			_, err = searcher.New("/db", "x", repo)
			verifrt.Assert(err != nil, "malformed settings are accepted by the server")
		}
		verifrt.Reach("malformed")
		return
	}
	_, err := vcs.New(name, []byte(good[verifrt.Choose("good", len(good))]))
	verifrt.Assert(err == nil, "valid settings are refused")
	verifrt.Reach("valid")
}
