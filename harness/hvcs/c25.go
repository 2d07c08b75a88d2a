package hvcs

import (
	"strconv"

	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

const gdir = "/db/vcs-x"

// space is arbitrary white space.
func space(name string, n int) string {
	b := verifrt.Bytes(name, n)
	for _, c := range b {
		verifrt.Assume(verifrt.Or(c == ' ', verifrt.Or(c == '\n', verifrt.Or(c == '\t', c == '\r'))))
	}
	return string(b)
}

// graphic is an arbitrary word of n visible ASCII characters.
func graphic(name string, n int) string {
	b := verifrt.Bytes(name, n)
	for _, c := range b {
		verifrt.Assume(verifrt.And(c > ' ', c < 0x7f))
	}
	return string(b)
}

// branchWord is an arbitrary name of a branch.
func branchWord(name string, n int) string {
	b := verifrt.Bytes(name, n)
	for i, c := range b {
		ok := verifrt.Or(verifrt.And(c >= 'a', c <= 'z'), verifrt.Or(verifrt.And(c >= '0', c <= '9'), verifrt.And(c >= 'A', c <= 'Z')))
		if i > 0 && i < n-1 {
			ok = verifrt.Or(ok, verifrt.Or(c == '/', verifrt.Or(c == '-', verifrt.Or(c == '_', c == '.'))))
		}
		verifrt.Assume(ok)
	}
	return string(b)
}

func newGit(names bool) *gitModel {
	m := &gitModel{dir: gdir, url: "ssh://host/x.git", fail: -1, fail2: -1, names: map[int]string{}}
	m.r.parent = [8]int{0, 0, 1, 1, 2}
	m.names[0] = "0"
	for r := 1; r <= 6; r++ {
		m.names[r] = "r" + strconv.Itoa(r)
	}
	m.names[dirty] = "zz"
	if names {
		for r := 1; r <= 4; r++ {
			m.names[r] = graphic("rev"+strconv.Itoa(r), 2)
		}
		m.pre = space("pre", verifrt.Choose("npre", 2))
		m.post = space("post", verifrt.Choose("npost", 3))
	}
	m.r.branch = map[string]int{}
	m.w.track = map[string]int{}
	m.w.local = map[string]int{}
	m.install()
	return m
}

// rev is an arbitrary revision, or none.
func rev(name string, none bool) int {
	lo := 0
	if !none {
		lo = 1
	}
	return verifrt.Int(name, lo, 4)
}

var branches = []string{"master", "main", "dev"}

// remoteState gives the remote arbitrary branches and an arbitrary HEAD.
func (m *gitModel) remoteState(tag string, extra string) {
	for _, b := range branches {
		m.r.branch[b] = rev(tag+b, true)
	}
	if extra != "" {
		m.r.branch[extra] = rev(tag+"extra", true)
	}
	k := verifrt.Choose(tag+"head", 4)
	m.r.detach = k == 3
	if k < 2 {
		m.r.head = []string{"main", "dev"}[k]
	} else if extra != "" {
		m.r.head = extra
	} else {
		m.r.head = "master"
	}
}

// settings are arbitrary settings of the driver, and the reference they ask for.
func settings(extra string) (cfg string, ref string, detect bool) {
	switch verifrt.Choose("ref", 4) {
	case 0:
	case 1:
		ref = "dev"
	case 2:
		ref = extra
	case 3:
		ref = "gone"
	}
	detect = verifrt.Choose("detect", 2) == 1
	switch {
	case ref == "" && !detect:
		cfg = []string{"", "{}", `{"ref":"","detect-ref":false}`}[verifrt.Choose("empty", 3)]
	case ref == "":
		cfg = `{"detect-ref":true}`
	case !detect:
		cfg = `{"ref":"` + ref + `"}`
	default:
		cfg = `{"detect-ref":true,"ref":"` + ref + `"}`
	}
	return
}

func (m *gitModel) target(ref string, detect bool) string {
	if ref != "" {
		return ref
	}
	if detect && !m.detFailed && !m.r.detach && m.r.branch[m.r.head] != 0 {
		return m.r.head
	}
	return "master"
}

func driver(name, cfg string) *vcs.WorkDir {
	var b []byte
	if cfg != "" {
		b = []byte(cfg)
	}
	w, err := vcs.New(name, b)
	if err != nil {
		verifrt.Fail("valid settings are refused")
	}
	return w
}

// failures lets up to two commands fail, in one of several ways.
func (m *gitModel) failures(two bool, how int) {
	m.fail = verifrt.Choose("fail", 8) - 1
	if m.fail >= 0 {
		m.mode = verifrt.Choose("how", how)
		if two {
			m.fail2 = verifrt.Int("fail2", 0, 8)
		}
	}
}

func (m *gitModel) judge(got string, err error, ref string, detect bool) {
	verifrt.Assert(!m.stray, "a command is run for the wrong place or is not git")
	if m.injected {
		verifrt.Assert(err != nil, "a git command fails and no error is returned")
		verifrt.Reach("failed")
		return
	}
	t := m.target(ref, detect)
	want := m.r.branch[t]
	if want == 0 {
		verifrt.Assert(err != nil, "the reference does not exist and no error is returned")
		return
	}
	verifrt.Assert(err == nil, "no command fails and an error is returned")
	verifrt.Assert(m.w.tree == want, "the working directory does not hold the revision of the reference")
	verifrt.Assert(m.w.rev == want, "HEAD is not the revision of the reference")
	verifrt.Assert(verifrt.EqStr(got, m.names[want]), "the revision returned is not the one that is checked out")
	verifrt.Reach("updated")
}

// C25Pull: a pull in an arbitrary working directory.
func C25Pull() {
	m := newGit(false)
	m.remoteState("", "")
	cfg, ref, detect := settings("main")
	w := &m.w
	w.present = true
	vmodel.MkdirP(gdir)
	w.cur = []string{"master", "main", ""}[verifrt.Choose("cur", 3)]
	w.rev = rev("rev", true)
	w.tree = w.rev
	if verifrt.Bool("dirty") {
		w.tree = dirty
	}
	if w.cur != "" {
		w.local[w.cur] = w.rev
	}
	w.spec = "main"
	w.fetched = rev("fetched", true)
	for _, b := range branches {
		w.track[b] = rev("track"+b, true)
	}
	m.failures(verifrt.Tier() > 0, 5)
	d := driver("git", cfg)
	got, err := d.PullOrClone(gdir, m.url)
	m.judge(got, err, ref, detect)
}

// C25Names: branches and revisions with arbitrary names.
func C25Names() {
	m := newGit(true)
	extra := branchWord("extra", []int{1, 3, 2, 4}[verifrt.Choose("nextra", 2+2*verifrt.Tier())])
	m.r.head = "main"
	m.r.branch["main"] = 1
	m.r.branch["master"] = 2
	verifrt.Assume(verifrt.And(!verifrt.EqStr(extra, "main"), !verifrt.EqStr(extra, "master")))
	m.r.branch[extra] = 3
	cfg, ref, detect := settings(extra)
	if verifrt.Choose("head", 2) == 1 {
		m.r.head = extra
	}
	if verifrt.Choose("present", 2) == 1 {
		m.w = gitWork{present: true, cur: "main", rev: 1, tree: 1, spec: "main", track: map[string]int{"main": 1}, local: map[string]int{"main": 1}}
		vmodel.MkdirP(gdir)
	}
	m.noise = []string{"", "warning: x\n"}[verifrt.Choose("noise", 2)]
	d := driver("git", cfg)
	got, err := d.PullOrClone(gdir, m.url)
	m.judge(got, err, ref, detect)
}

// C25Clone: a clone, and then pulls after the remote moved.
func C25Clone() {
	m := newGit(false)
	m.remoteState("", "")
	cfg, ref, detect := settings("main")
	m.failures(true, 3)
	d := driver("git", cfg)
	for i := 0; i < 2+verifrt.Tier(); i++ {
		m.injected, m.detFailed = false, false
		had := m.w.present
		got, err := d.PullOrClone(gdir, m.url)
		m.judge(got, err, ref, detect)
		if had != m.w.present {
			verifrt.Reach("cloned")
		}
		if had {
			verifrt.Reach("pulled")
		}
		m.remoteState(strconv.Itoa(i), "")
		m.n = 0
		m.fail = -1
		if i == 0 {
			m.fail = m.fail2
		}
		m.fail2 = -1
	}
}

// C25Head: the revision of a working directory.
func C25Head() {
	m := newGit(true)
	m.w.present = true
	vmodel.MkdirP(gdir)
	m.w.rev = rev("rev", false)
	m.w.tree = m.w.rev
	m.failures(false, 5)
	got, err := driver("git", "").HeadRev(gdir)
	if m.injected {
		verifrt.Assert(err != nil, "git fails and no error is returned")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(err == nil && verifrt.EqStr(got, m.names[m.w.rev]), "the revision is wrong")
	verifrt.Reach("revision")
}

// C25Auto: the files that git says are generated.
func C25Auto() {
	m := newGit(false)
	m.w.present = true
	vmodel.MkdirP(gdir)
	n := verifrt.Choose("files", 3+verifrt.Tier())
	for i := 0; i < n; i++ {
		t := "f" + strconv.Itoa(i)
		var f gfile
		switch verifrt.Choose(t+"name", 4) {
		case 0:
			f.name = "linguist-generated"
		case 1:
			f.name = "true"
		case 2:
			f.name = "d/" + graphic(t, 1)
		case 3:
			b := verifrt.Bytes(t, 1+verifrt.Choose(t+"len", 2))
			for _, c := range b {
				verifrt.Assume(verifrt.And(c != 0, c != '/'))
			}
			f.name = string(b)
		}
		for _, g := range m.files {
			verifrt.Assume(!verifrt.EqStr(g.name, f.name))
		}
		f.val = []string{"true", "unspecified", "set", "unset", "false", "linguist-generated", ""}[verifrt.Choose(t+"val", 7)]
		if f.val == "" {
			f.val = graphic(t+"v", 4)
		}
		m.files = append(m.files, f)
	}
	m.failures(false, 5)
	got := driver("git", "").AutoGeneratedFiles(gdir)
	k := 0
	for _, g := range got {
		ok := false
		for _, f := range m.files {
			ok = verifrt.Or(ok, verifrt.And(verifrt.EqStr(f.name, g), verifrt.EqStr(f.val, "true")))
		}
		verifrt.Assert(ok, "a file that git does not mark is reported")
		for _, h := range got[:k] {
			verifrt.Assert(!verifrt.EqStr(g, h), "a file is reported twice")
		}
		k++
	}
	if m.injected {
		verifrt.Reach("failed")
		return
	}
	for _, f := range m.files {
		ok := false
		for _, g := range got {
			ok = verifrt.Or(ok, verifrt.EqStr(f.name, g))
		}
		verifrt.Assert(verifrt.Or(ok, !verifrt.EqStr(f.val, "true")), "a file that git marks is not reported")
	}
	verifrt.Reach("listed")
}
