package hvcs

import (
	"strconv"
	"strings"

	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

type tfile struct {
	name string
	data []byte
}

func nameByte(c byte) bool {
	return verifrt.And(c != 0, verifrt.And(c != '/', verifrt.And(c != '\n', verifrt.And(c != '.', c < 0x80))))
}

// tree is an arbitrary directory tree.
func tree(tag string, max int) []tfile {
	n := verifrt.Choose(tag+"files", max+1)
	var r []tfile
	for i := 0; i < n; i++ {
		t := tag + strconv.Itoa(i)
		var f tfile
		kinds := 3
		if i == 0 && tag == "b" {
			kinds = 4
		}
		switch verifrt.Choose(t+"name", kinds) {
		case 0:
			f.name = "d/b"
		case 1:
			b := verifrt.Bytes(t+"n", 1+verifrt.Choose(t+"len", 1+verifrt.Tier()))
			for _, c := range b {
				verifrt.Assume(nameByte(c))
			}
			f.name = string(b)
		case 2:
			b := verifrt.Bytes(t+"n", 1)
			verifrt.Assume(nameByte(b[0]))
			f.name = "d/" + string(b)
		case 3:
			f.name = []string{".h", ".d/h"}[verifrt.Choose(t+"hidden", 2)]
		}
		for _, g := range r {
			verifrt.Assume(!verifrt.EqStr(g.name, f.name))
		}
		verifrt.Assume(!verifrt.EqStr(f.name, "d"))
		f.data = verifrt.Bytes(t+"data", verifrt.Choose(t+"size", 2+verifrt.Tier()))
		r = append(r, f)
	}
	return r
}

func (t tfile) put(root string) { vmodel.Put(root+"/"+t.name, t.data) }

func same(a, b []tfile) bool {
	if len(a) != len(b) {
		return false
	}
	all := true
	for _, f := range a {
		ok := false
		for _, g := range b {
			ok = verifrt.Or(ok, verifrt.And(verifrt.EqStr(f.name, g.name), verifrt.EqBytes(f.data, g.data)))
		}
		all = verifrt.And(all, ok)
	}
	return all
}

// C27Watch: the revisions of two directory trees.
func C27Watch() {
	vmodel.IdealHash = true
	d := driver("local", `{"watch-changes":true}`)
	a := tree("a", 2)
	vmodel.MkdirP("/db")
	vmodel.MkdirP("/src")
	for _, f := range a {
		f.put("/src")
	}
	dir, root, url := "/db/vcs-1", "/src", "file:///src"
	k := 0
	if len(a) < 2 {
		k = verifrt.Choose("link", 3)
	}
	switch k {
	case 1: // a link to the directory
		vmodel.PutLink("/link", "/src")
		url = "file:///link"
	case 2:
		vmodel.MkdirP("/x")
		vmodel.PutLink("/x/link", "../src")
		url = "file:///x/link"
	}
	ra, err := d.PullOrClone(dir, url)
	verifrt.Assert(err == nil, "a readable directory has no revision")
	again, err := d.PullOrClone(dir, url)
	verifrt.Assert(err == nil && again == ra, "the revision changes although nothing did")
	b := tree("b", 2)
	if verifrt.Choose("move", 2) == 0 {
		for _, f := range a {
			vmodel.Unlink(root + "/" + f.name)
		}
	} else { // another place, other details
		dir, root = "/db/vcs-2", "/elsewhere/src"
		vmodel.MkdirP(root)
		vmodel.PutLink(dir, root)
		if len(a) < 2 && verifrt.Choose("empty", 2) == 1 {
			vmodel.MkdirP(root + "/empty")
		}
	}
	for i := range b {
		b[len(b)-1-i].put(root)
	}
	rb, err := d.HeadRev(dir)
	verifrt.Assert(err == nil, "a readable directory has no revision")
	if ra == rb {
		verifrt.Assert(same(a, b), "different trees have the same revision")
		verifrt.Reach("same")
	} else {
		verifrt.Assert(!same(a, b), "equal trees have different revisions")
		verifrt.Reach("different")
	}
}

// C27Error: what cannot be read has no revision.
func C27Error() {
	vmodel.IdealHash = true
	d := driver("local", `{"watch-changes":true}`)
	vmodel.Put("/src/a", []byte("x"))
	vmodel.Put("/src/d/b", []byte("yy"))
	vmodel.Put("/src/d/c", nil)
	vmodel.PutLink("/db/vcs-1", "/src")
	want := ""
	if verifrt.Choose("first", 2) == 1 {
		var err error
		want, err = d.HeadRev("/db/vcs-1")
		verifrt.Assert(err == nil, "a readable directory has no revision")
	}
	bad := true
	switch verifrt.Choose("what", 5) {
	case 0:
		vmodel.Lookup("/src/d/b").RdErr = true
	case 1:
		vmodel.PutLink("/src/l", "/missing")
	case 2:
		vmodel.Unlink("/db/vcs-1")
	case 3:
		vmodel.Faults(1, nil)
		bad = false
	case 4:
		vmodel.Unlink("/db/vcs-1")
		vmodel.PutLink("/db/vcs-1", "/missing")
	}
	got, err := d.Pull("/db/vcs-1")
	if bad {
		verifrt.Assert(err != nil, "what cannot be read has a revision")
		verifrt.Reach("error")
	} else if err == nil {
		verifrt.Assert(want == "" || got == want, "the revision is wrong after a failure")
	} else {
		verifrt.Reach("fault")
	}
}

// C27Fixed: without watching, the revision is that of the place.
func C27Fixed() {
	cfg := []string{"", "{}", `{"watch-changes":false}`, `{"ignored-files":["a"]}`}[verifrt.Choose("cfg", 4)]
	d := driver("local", cfg)
	id := word("id", 1+verifrt.Choose("nid", 3))
	verifrt.Assume(!strings.Contains(id, "/"))
	dir := "/db/vcs-" + id
	vmodel.Put("/src/a", []byte("x"))
	vmodel.MkdirP("/db")
	r1, err := d.PullOrClone(dir, "file:///src")
	verifrt.Assert(err == nil, "a directory has no revision")
	verifrt.Assert(vmodel.LLookup(dir) != nil && vmodel.LLookup(dir).Target == "/src", "the directory is not linked")
	vmodel.Put("/src/a", verifrt.Bytes("data", 1))
	vmodel.Put("/src/b", nil)
	r2, err := d.PullOrClone(dir, "file:///src")
	verifrt.Assert(err == nil && verifrt.EqStr(r1, r2), "the revision changes without watching")
	r3, err := d.HeadRev(dir)
	verifrt.Assert(err == nil && verifrt.EqStr(r1, r3), "the revision changes without watching")
	dir2 := "/db/vcs-" + id + "2"
	r4, err := d.PullOrClone(dir2, "file:///src")
	verifrt.Assert(err == nil && !verifrt.EqStr(r1, r4), "two places have the same revision")
	verifrt.Reach("fixed")
}

// C27Url: only file:// URLs are taken.
func C27Url() {
	d := driver("local", []string{"", `{"watch-changes":true}`}[verifrt.Choose("watch", 2)])
	vmodel.IdealHash = true
	vmodel.Put("/src/a", []byte("x"))
	vmodel.MkdirP("/db")
	pre := verifrt.Bytes("pre", verifrt.Choose("n", 9))
	for _, c := range pre {
		verifrt.Assume(verifrt.And(c != 0, c < 0x80))
	}
	_, err := d.PullOrClone("/db/vcs-1", string(pre)+"/src")
	url := string(pre) + "/src"
	switch {
	case !strings.HasPrefix(url, "file://"):
		verifrt.Assert(err != nil, "a URL that is not file:// is taken")
		verifrt.Assert(vmodel.LLookup("/db/vcs-1") == nil, "a URL that is not file:// is linked")
		verifrt.Reach("refused")
	case url == "file:///src":
		verifrt.Assert(err == nil, "a file:// URL is refused")
		verifrt.Reach("taken")
	}
}

// C27Ignored: the files to ignore are those of the settings.
func C27Ignored() {
	n := verifrt.Choose("n", 3)
	var w []string
	cfg := `{"ignored-files":[`
	for i := 0; i < n; i++ {
		w = append(w, word("w"+strconv.Itoa(i), 1))
		if i > 0 {
			cfg += ","
		}
		cfg += `"` + w[i] + `"`
	}
	sf := driver("local", cfg+"]}").SpecialFiles()
	verifrt.Assert(len(sf) == n, "the ignored files are not those of the settings")
	for i := range sf {
		verifrt.Assert(verifrt.EqStr(sf[i], w[i]), "the ignored files are not those of the settings")
	}
}

// C27Large: one byte anywhere in a large file counts.
func C27Large() {
	vmodel.IdealHash = true
	d := driver("local", `{"watch-changes":true}`)
	n := []int{4097, 32769, 65537, 1<<20 + 1, 1<<21 + 3}[verifrt.Choose("size", 4+verifrt.Tier())]
	at := []int{0, n / 2, n - 1}[verifrt.Choose("at", 3)]
	data := make([]byte, n)
	x, y := verifrt.Byte("x"), verifrt.Byte("y")
	data[at] = x
	vmodel.Put("/src/a", data)
	vmodel.PutLink("/db/vcs-1", "/src")
	ra, err := d.Pull("/db/vcs-1")
	verifrt.Assert(err == nil, "a readable directory has no revision")
	data = append([]byte(nil), data...)
	data[at] = y
	vmodel.Put("/src/a", data)
	rb, err := d.Pull("/db/vcs-1")
	verifrt.Assert(err == nil, "a readable directory has no revision")
	if ra == rb {
		verifrt.Assert(x == y, "different trees have the same revision")
		verifrt.Reach("same")
	} else {
		verifrt.Assert(x != y, "equal trees have different revisions")
		verifrt.Reach("different")
	}
	if verifrt.Choose("cut", 2) == 1 {
		vmodel.Put("/src/a", data[:n-1])
		rc, err := d.Pull("/db/vcs-1")
		verifrt.Assert(err == nil && rc != rb && rc != ra, "a shorter file has the same revision")
	}
}
