// Package hvcs holds the harnesses of the version control drivers.
package hvcs

import (
	"errors"
	"strings"

	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// A model of git: one remote repository and one shallow working directory. Revisions are numbers;
// what git prints for them is arbitrary.

const dirty = 99 // files that are of no revision

type gitRemote struct {
	branch map[string]int // 0: none
	head   string         // branch the remote HEAD names
	detach bool           // the remote HEAD names a revision
	parent [8]int
}

type gitWork struct {
	present bool
	cur     string // branch, or "" if HEAD is detached
	rev     int    // what HEAD names
	tree    int    // the revision that the files are of
	track   map[string]int
	local   map[string]int
	fetched int // FETCH_HEAD
	spec    string
}

type gitModel struct {
	dir, url string
	r        gitRemote
	w        gitWork
	names    map[int]string

	n           int // commands run
	fail, fail2 int // the ones that fail
	mode        int // how
	injected    bool // a command was made to fail
	detFailed   bool
	lastRev     int
	stray       bool
	files       []gfile
	noise       string // printed on the standard error
	pre, post   string // printed around a revision
}

type gfile struct {
	name string
	val  string
}

func (m *gitModel) install() {
	vmodel.ExecHook = m.exec
	vmodel.StartErr = func(c *vmodel.Cmd) bool {
		if (m.mode == 0 || m.mode == 4) && (m.n == m.fail || m.n == m.fail2) {
			m.n++
			m.failed(c.Args, true)
			return true
		}
		return false
	}
	vmodel.PipeErr = func(c *vmodel.Cmd) bool {
		if m.mode == 4 && (m.n == m.fail || m.n == m.fail2) {
			m.n++
			m.failed(c.Args, true)
			return true
		}
		return false
	}
	vmodel.ReadErr = func(c *vmodel.Cmd) bool { return m.mode == 3 && (m.n == m.fail || m.n == m.fail2) }
	vmodel.OnReadErr = func(c *vmodel.Cmd) { m.failed(c.Args, true) }
}

func detection(a []string) bool {
	for _, x := range a {
		if x == "remote" || x == "symbolic-ref" || x == "ls-remote" || x == "--abbrev-ref" {
			return true
		}
	}
	return false
}

func (m *gitModel) failed(a []string, injected bool) {
	if detection(a) {
		m.detFailed = true
		return
	}
	if injected {
		m.injected = true
	}
}

func (m *gitModel) exec(c *vmodel.Cmd) (string, string, error) {
	k := m.n
	m.n++
	if (k == m.fail || k == m.fail2) && m.mode < 3 {
		m.failed(c.Args, true)
		switch m.mode {
		case 0, 1:
			return "", "fatal: x\n", vmodel.ErrExit
		}
		out, _ := m.do(c)
		return out, "fatal: x\n", vmodel.ErrExit
	}
	out, err := m.do(c)
	if err != nil {
		m.failed(c.Args, false)
		return out, "fatal: " + err.Error() + "\n", vmodel.ErrExit
	}
	return out, m.noise, nil
}

func join(a, b string) string {
	if b == "" || b == "." {
		return a
	}
	if b[0] == '/' {
		return strings.TrimRight(b, "/")
	}
	return strings.TrimRight(a, "/") + "/" + b
}

func (m *gitModel) do(c *vmodel.Cmd) (string, error) {
	a := c.Args
	if len(a) < 2 || a[0] != "git" && !strings.HasSuffix(a[0], "/git") {
		m.stray = true
		return "", errors.New("no such command")
	}
	a = a[1:]
	wd := join("/", c.Dir)
	for len(a) > 0 && strings.HasPrefix(a[0], "-") {
		switch {
		case a[0] == "-C" && len(a) > 1:
			wd = join(wd, a[1])
			a = a[2:]
		case a[0] == "-c" && len(a) > 1:
			a = a[2:]
		default:
			a = a[1:]
		}
	}
	if len(a) == 0 {
		return "", errors.New("usage")
	}
	verb, rest := a[0], a[1:]
	if verb == "clone" {
		return m.clone(wd, rest)
	}
	if verb == "version" || verb == "gc" || verb == "lfs" || verb == "submodule" {
		return "", nil
	}
	if wd != m.dir || !m.w.present {
		return "", errors.New("not a git repository")
	}
	switch verb {
	case "gc", "clean", "prune", "config", "lfs", "submodule", "update-index":
		return "", nil
	case "fetch":
		return m.fetch(rest)
	case "reset":
		return m.reset(rest)
	case "checkout", "switch":
		return m.checkout(rest)
	case "merge":
		return m.merge(rest)
	case "pull":
		return m.pull(rest)
	case "rev-parse":
		return m.revParse(rest)
	case "remote":
		return m.remote(rest)
	case "symbolic-ref":
		return m.symref(rest)
	case "ls-remote":
		return m.lsRemote(rest)
	case "ls-files":
		return m.lsFiles(rest)
	case "check-attr":
		return m.checkAttr(rest, c.Stdin)
	case "log", "show", "rev-list":
		return m.out(m.w.rev)
	}
	verifrt.Unsupported("git command that is not modelled: " + verb)
	return "", nil
}

// opts splits options from arguments; val lists the options that take the next word.
func opts(a []string, val ...string) (map[string]string, []string) {
	o := map[string]string{}
	var pos []string
	for i := 0; i < len(a); i++ {
		if a[i] == "--" {
			pos = append(pos, a[i+1:]...)
			break
		}
		if !strings.HasPrefix(a[i], "-") || a[i] == "-" {
			pos = append(pos, a[i])
			continue
		}
		if k := strings.IndexByte(a[i], '='); k > 0 {
			o[a[i][:k]] = a[i][k+1:]
			continue
		}
		v := ""
		for _, x := range val {
			if x == a[i] && i+1 < len(a) {
				v = a[i+1]
				i++
				o[x] = v
				break
			}
		}
		if _, ok := o[a[i]]; !ok && v == "" {
			o[a[i]] = ""
		}
	}
	return o, pos
}

func has(o map[string]string, names ...string) bool {
	for _, n := range names {
		if _, ok := o[n]; ok {
			return true
		}
	}
	return false
}

func (m *gitModel) clone(wd string, a []string) (string, error) {
	o, pos := opts(a, "--depth", "-b", "--branch", "--origin", "-o", "-c")
	if len(pos) != 2 || pos[0] != m.url {
		return "", errors.New("does not appear to be a git repository")
	}
	if join(wd, pos[1]) != m.dir {
		m.stray = true
		return "", errors.New("cloned to the wrong directory")
	}
	if m.w.present {
		return "", errors.New("destination path already exists")
	}
	b := m.r.head
	if v, ok := o["-b"]; ok {
		o["--branch"] = v
	}
	w := gitWork{present: true, track: map[string]int{}, local: map[string]int{}}
	if v, ok := o["--branch"]; ok {
		b = v
		if m.r.branch[b] == 0 {
			return "", errors.New("remote branch not found")
		}
	} else if m.r.detach {
		w.rev, w.tree = 1, 1
		m.w = w
		vmodel.MkdirP(m.dir)
		return "", nil
	}
	w.cur = b
	if r := m.r.branch[b]; r != 0 {
		w.rev, w.tree = r, r
		w.local[b], w.track[b] = r, r
		w.spec = b
	}
	m.w = w
	vmodel.MkdirP(m.dir)
	return "", nil
}

// remoteRef finds a name at the remote.
func (m *gitModel) remoteRef(n string) int {
	if n == "HEAD" {
		if m.r.detach {
			return 1
		}
		return m.r.branch[m.r.head]
	}
	return m.r.branch[strings.TrimPrefix(n, "refs/heads/")]
}

func (m *gitModel) descends(a, b int) bool {
	for i := 0; i < 8 && a != 0 && a < 8; i++ {
		if a == b {
			return true
		}
		a = m.r.parent[a]
	}
	return false
}

func (m *gitModel) fetch(a []string) (string, error) {
	o, pos := opts(a, "--depth", "-j", "-o")
	if len(pos) > 0 {
		if pos[0] != "origin" && pos[0] != m.url {
			return "", errors.New("no such remote")
		}
		pos = pos[1:]
	}
	if len(pos) == 0 {
		if m.w.spec == "" {
			return "", errors.New("nothing to fetch")
		}
		pos = []string{"+refs/heads/" + m.w.spec + ":refs/remotes/origin/" + m.w.spec}
	}
	rejected := false
	for i, s := range pos {
		force := has(o, "-f", "--force")
		if strings.HasPrefix(s, "+") {
			force = true
			s = s[1:]
		}
		src, dst := s, ""
		if k := strings.IndexByte(s, ':'); k >= 0 {
			src, dst = s[:k], s[k+1:]
		}
		if src == "*" || strings.HasSuffix(src, "/*") {
			if dst != "refs/remotes/origin/*" {
				verifrt.Unsupported("refspec")
			}
			for b, r := range m.r.branch {
				if r != 0 {
					m.w.track[b] = r
				}
			}
			continue
		}
		r := m.remoteRef(src)
		if r == 0 {
			return "", errors.New("couldn't find remote ref")
		}
		if i == 0 {
			m.w.fetched = r
		}
		if b := strings.TrimPrefix(src, "refs/heads/"); b == m.w.spec {
			m.w.track[b] = r
		}
		if dst == "" {
			continue
		}
		d, ok := trackName(dst)
		set, old := m.w.track, 0
		if !ok {
			d = strings.TrimPrefix(dst, "refs/heads/")
			set = m.w.local
			if d == m.w.cur {
				return "", errors.New("refusing to fetch into current branch")
			}
		}
		old = set[d]
		if old != 0 && old != r && !force && (has(o, "--depth") || !m.descends(r, old)) {
			rejected = true
			continue
		}
		set[d] = r
	}
	if rejected {
		return "", errors.New("rejected (non-fast-forward)")
	}
	return "", nil
}

func trackName(n string) (string, bool) {
	for _, p := range []string{"refs/remotes/origin/", "remotes/origin/"} {
		if strings.HasPrefix(n, p) {
			return n[len(p):], true
		}
	}
	return "", false
}

// resolve finds the revision that a name stands for.
func (m *gitModel) resolve(n string) int {
	n = strings.TrimSuffix(n, "^{commit}")
	n = strings.TrimSuffix(n, "^0")
	switch n {
	case "HEAD", "@":
		return m.w.rev
	case "FETCH_HEAD":
		return m.w.fetched
	}
	if r := m.w.local[strings.TrimPrefix(n, "refs/heads/")]; r != 0 {
		return r
	}
	if d, ok := trackName(n); ok {
		return m.w.track[d]
	}
	if strings.HasPrefix(n, "origin/") {
		return m.w.track[n[7:]]
	}
	for r, s := range m.names {
		if verifrt.IsConcrete(verifrt.EqStr(s, n)) && s == n {
			return r
		}
	}
	return 0
}

func (m *gitModel) move(r int) {
	m.w.rev = r
	if m.w.cur != "" {
		m.w.local[m.w.cur] = r
	}
}

func (m *gitModel) reset(a []string) (string, error) {
	o, pos := opts(a)
	t := "HEAD"
	if len(pos) > 0 {
		t = pos[0]
	}
	if len(pos) > 1 {
		return "", nil // of paths
	}
	r := m.resolve(t)
	if r == 0 {
		return "", errors.New("ambiguous argument")
	}
	if has(o, "--merge", "--keep") && m.w.tree == dirty {
		return "", errors.New("entry not uptodate")
	}
	m.move(r)
	if has(o, "--hard", "--merge", "--keep") {
		m.w.tree = r
	}
	return "", nil
}

func (m *gitModel) checkout(a []string) (string, error) {
	o, pos := opts(a, "-b", "-B", "-c", "-C")
	force := has(o, "-f", "--force", "--discard-changes")
	nb := ""
	for _, k := range []string{"-B", "-b", "-c", "-C"} {
		if v := o[k]; v != "" {
			nb = v
		}
	}
	t := "HEAD"
	if len(pos) > 0 {
		t = pos[0]
	}
	if len(pos) > 1 {
		verifrt.Unsupported("git checkout of paths")
	}
	r := m.resolve(t)
	br := nb
	if nb == "" && m.w.local[t] != 0 && !has(o, "--detach") {
		br = t
	} else if r == 0 && m.w.track[t] != 0 {
		r, br = m.w.track[t], t
	}
	if r == 0 {
		return "", errors.New("pathspec did not match")
	}
	if m.w.tree != m.w.rev && !force {
		if r != m.w.rev {
			return "", errors.New("local changes would be overwritten")
		}
	} else {
		m.w.tree = r
	}
	m.w.cur, m.w.rev = br, r
	if br != "" {
		m.w.local[br] = r
	}
	return "", nil
}

func (m *gitModel) ff(r int) (string, error) {
	if r == 0 {
		return "", errors.New("not something we can merge")
	}
	if r == m.w.rev || m.descends(m.w.rev, r) {
		return "Already up to date.\n", nil
	}
	if !m.descends(r, m.w.rev) || m.w.tree != m.w.rev {
		return "", errors.New("not possible to fast-forward, aborting")
	}
	m.move(r)
	m.w.tree = r
	return "", nil
}

func (m *gitModel) merge(a []string) (string, error) {
	_, pos := opts(a)
	t := m.w.cur
	if len(pos) > 0 {
		t = pos[0]
	}
	return m.ff(m.resolve(t))
}

func (m *gitModel) pull(a []string) (string, error) {
	_, pos := opts(a, "--depth")
	if _, err := m.fetch(a); err != nil {
		return "", err
	}
	r := m.w.fetched
	if len(pos) < 2 {
		r = m.w.track[m.w.cur]
	}
	return m.ff(r)
}

func (m *gitModel) out(r int) (string, error) {
	m.lastRev = r
	return m.pre + m.names[r] + m.post, nil
}

func (m *gitModel) revParse(a []string) (string, error) {
	o, pos := opts(a)
	if has(o, "--is-inside-work-tree") {
		return "true\n", nil
	}
	if len(pos) == 0 {
		return "", nil
	}
	if has(o, "--abbrev-ref") {
		if pos[0] == "HEAD" {
			return m.w.cur + "\n", nil
		}
		if pos[0] == "origin/HEAD" && m.w.spec != "" {
			return "origin/" + m.w.spec + "\n", nil
		}
		return "", errors.New("unknown revision")
	}
	r := m.resolve(pos[0])
	if r == 0 {
		if has(o, "--verify", "-q") {
			return "", errors.New("needed a single revision")
		}
		return pos[0] + "\n", errors.New("ambiguous argument")
	}
	return m.out(r)
}

func (m *gitModel) remote(a []string) (string, error) {
	if len(a) > 0 && (a[0] == "prune" || a[0] == "set-url" || a[0] == "update") {
		return "", nil
	}
	if len(a) < 2 || a[0] != "show" || a[len(a)-1] != "origin" {
		verifrt.Unsupported("git remote")
	}
	s := "* remote origin\n  Fetch URL: " + m.url + "\n  Push  URL: " + m.url + "\n"
	if len(a) > 2 { // -n: nothing is asked of the remote
		return s + "  HEAD branch: (not queried)\n", nil
	}
	switch {
	case m.r.detach:
		s += "  HEAD branch (remote HEAD is ambiguous, may be one of the following):\n    main\n    dev\n"
	case m.r.branch[m.r.head] == 0:
		s += "  HEAD branch: (unknown)\n"
	default:
		s += "  HEAD branch: " + m.r.head + "\n"
	}
	return s + "  Remote branch:\n    dev tracked\n  Local branch configured for 'git pull':\n    main merges with remote main\n", nil
}

func (m *gitModel) symref(a []string) (string, error) {
	o, pos := opts(a)
	if len(pos) == 1 && pos[0] == "HEAD" && m.w.cur != "" {
		return "refs/heads/" + m.w.cur + "\n", nil
	}
	if len(pos) != 1 || pos[0] != "refs/remotes/origin/HEAD" || m.w.spec == "" {
		return "", errors.New("not a symbolic ref")
	}
	if has(o, "--short") {
		return "origin/" + m.w.spec + "\n", nil
	}
	return "refs/remotes/origin/" + m.w.spec + "\n", nil
}

func (m *gitModel) lsRemote(a []string) (string, error) {
	o, _ := opts(a)
	s := ""
	if has(o, "--symref") && !m.r.detach && m.r.branch[m.r.head] != 0 {
		s = "ref: refs/heads/" + m.r.head + "\tHEAD\n"
	}
	if r := m.remoteRef("HEAD"); r != 0 {
		s += m.names[r] + "\tHEAD\n"
	}
	return s, nil
}

func (m *gitModel) lsFiles(a []string) (string, error) {
	o, pos := opts(a)
	if len(pos) > 0 {
		verifrt.Unsupported("git ls-files of paths")
	}
	sep := "\n"
	if has(o, "-z") {
		sep = "\x00"
	}
	s := ""
	for _, f := range m.files {
		s += f.name + sep // without -z, git quotes unusual names; here they are wrong in another way
	}
	return s, nil
}

func (m *gitModel) checkAttr(a []string, in []byte) (string, error) {
	o, pos := opts(a)
	isep, z := byte('\n'), has(o, "-z")
	if z {
		isep = 0
	}
	var paths []string
	if has(o, "--stdin") {
		p := []byte{}
		for _, c := range in {
			if c == isep {
				paths = append(paths, string(p))
				p = []byte{}
				continue
			}
			p = append(p, c)
		}
	} else {
		if len(pos) > 1 {
			paths = pos[1:]
		}
		if len(pos) > 0 {
			pos = pos[:1]
		}
	}
	if has(o, "-a") {
		pos = []string{"text", "linguist-generated"}
	}
	s := ""
	for _, p := range paths {
		for _, at := range pos {
			v := "unspecified"
			if at == "linguist-generated" {
				for _, f := range m.files {
					if f.name == p {
						v = f.val
					}
				}
			} else if at == "text" {
				v = "true"
			}
			if z {
				s += p + "\x00" + at + "\x00" + v + "\x00"
			} else {
				s += p + ": " + at + ": " + v + "\n"
			}
		}
	}
	return s, nil
}
