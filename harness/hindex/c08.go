package hindex

import (
	"compress/gzip"
	"io"
	"os"
	"path/filepath"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

var c08Names = []string{"a", ".b", ".git", "c.go", "..x", "mark.git"}

type c08Entry struct {
	rel  string
	kind int // 0 text 1 binary 2 link to file 3 link to directory 4 empty file
	data []byte
}

// tree fills src with entries and returns those that are regular files or links.
func tree(src string, maxEntries int) []c08Entry {
	var es []c08Entry
	add := func(dir, tag string, names []string) {
		nm := names[verifrt.Choose(tag+"name", len(names))]
		rel := filepath.Join(dir, nm)
		e := c08Entry{rel: rel, kind: verifrt.Choose(tag+"kind", 5)}
		p := filepath.Join(src, rel)
		switch e.kind {
		case 0:
			e.data = []byte("in\nside")
			if tag == "top" {
				e.data = []byte{verifrt.Byte("data"), 'q'}
				verifrt.Assume(e.data[0] < 0x80)
			}
			hx.Put(p, e.data)
		case 1:
			e.data = []byte{0xff, 'x'}
			hx.Put(p, e.data)
		case 2:
			hx.Symlink("/etc/none", p)
		case 3:
			hx.Symlink(src, p)
		case 4:
			hx.Put(p, nil)
		}
		es = append(es, e)
	}
	add("", "top", c08Names)
	dirs := []string{"d", ".e", ".git", "sub"}
	if maxEntries > 1 {
		d := dirs[verifrt.Choose("dir", len(dirs))]
		if d == es[0].rel {
			verifrt.Abort("same name twice")
		}
		hx.Mkdir(filepath.Join(src, d))
		names := c08Names[:3]
		if verifrt.Tier() > 0 {
			names = c08Names
		}
		add(d, "in", names)
	}
	return es
}

func hiddenOrSpecial(rel string, dots, special bool) (ignored, hidden, hiddenDir bool) {
	parts := split(rel)
	for i, p := range parts {
		if special && (p == ".git" || p == "mark.git") {
			ignored = true
			return
		}
		if dots && p[0] == '.' {
			hidden = true
			hiddenDir = i < len(parts)-1
			return
		}
	}
	return
}

func split(p string) []string {
	var r []string
	st := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			r = append(r, p[st:i])
			st = i + 1
		}
	}
	return r
}

func rawCopy(dst, rel string) ([]byte, bool) {
	f, err := os.Open(filepath.Join(dst, "raw", rel))
	if err != nil {
		return nil, false
	}
	defer f.Close()
	g, err := gzip.NewReader(f)
	if err != nil {
		return nil, false
	}
	b, err := io.ReadAll(g)
	return b, err == nil
}

// checkAccount verifies that every entry of the tree is searchable or excluded.
func checkAccount(ref *index.IndexRef, dst string, es []c08Entry, dots, special bool, tag string) {
	ix, err := ref.Open()
	verifrt.Assert(err == nil, "opening a fresh index fails")
	res, err := ix.Search("", &index.SearchOptions{})
	verifrt.Assert(err == nil, tag+"searching a fresh index fails")
	ex := excludedFiles(dst)
	for _, e := range es {
		ignored, hidden, hiddenDir := hiddenOrSpecial(e.rel, dots, special)
		found := 0
		for _, m := range res.Matches {
			if m.Filename != e.rel {
				continue
			}
			found++
			ls := lines(e.data)
			verifrt.Assert(len(m.Matches) == len(ls), tag+"a searchable file does not have its original lines")
			for i := range ls {
				verifrt.Assert(verifrt.EqStr(m.Matches[i].Line, string(ls[i])), tag+"a searchable file does not have its original contents")
			}
		}
		listed := 0
		for _, x := range ex {
			if x.Filename == e.rel {
				listed++
				verifrt.Assert(x.Reason != "", tag+"a file is excluded without a reason")
			}
		}
		switch {
		case ignored:
			verifrt.Assert(found == 0 && listed == 0, tag+"a VCS-special name is not ignored")
		case hiddenDir:
			verifrt.Assert(found == 0, tag+"a file below a dot directory is searchable")
		case hidden:
			verifrt.Assert(found == 0, tag+"a dot file is searchable")
			verifrt.Assert(listed == 1, tag+"a dot file is not listed as excluded")
		case e.kind == 0:
			verifrt.Assert(listed == 0, tag+"a text file is listed as excluded")
			verifrt.Assert(found == 1, tag+"a text file is not searchable")
		case e.kind == 4:
			verifrt.Assert(listed == 0, tag+"an empty file is listed as excluded")
			_, ok := rawCopy(dst, e.rel)
			verifrt.Assert(ok, tag+"an empty file is not in the index")
		default:
			verifrt.Assert(found == 0, tag+"something that is not a text file is searchable")
			verifrt.Assert(listed == 1, tag+"a file that is not searchable is not listed as excluded")
		}
	}
	for _, m := range res.Matches {
		known := false
		for _, e := range es {
			known = known || e.rel == m.Filename
		}
		verifrt.Assert(known, tag+"a file that does not exist is searchable")
	}
}

// C08 builds an index of an arbitrary small tree.
func C08() {
	src, dst := hx.Dir("src"), hx.Dir("db")+"/idx-1"
	dots := verifrt.Choose("dots", 2) == 1
	special := verifrt.Choose("special", 2) == 1
	opt := &index.IndexOptions{ExcludeDotFiles: dots}
	if special {
		opt.SpecialFiles = []string{".git", "mark.git"}
	}
	es := tree(src, 2)
	root := src
	if verifrt.Tier() > 0 && verifrt.Choose("rootlink", 2) == 1 {
		root = hx.Dir("lnk") + "/current"
		hx.Symlink(src, root)
	}
	ref, err := index.Build(opt, dst, root, "url", "rev")
	verifrt.Assert(err == nil, "building an index of a readable tree fails")
	checkAccount(ref, dst, es, dots, special, "")
	verifrt.Reach("built")
}

// C08Root: the name of the root directory itself does not matter.
func C08Root() {
	names := []string{"x", ".hidden", ".git", "..."}
	src := filepath.Join(hx.Dir("src"), names[verifrt.Choose("root", len(names))])
	hx.Mkdir(src)
	dst := hx.Dir("db") + "/idx-1"
	hx.Put(filepath.Join(src, "a"), []byte("one\n"))
	opt := &index.IndexOptions{ExcludeDotFiles: true, SpecialFiles: []string{".git"}}
	root := src
	switch verifrt.Choose("rootlink", 4) {
	case 1:
		root = hx.Dir("lnk") + "/current"
		hx.Symlink(src, root)
	case 2: // a link to a link
		l := hx.Dir("lnk")
		hx.Symlink(src, l+"/to")
		root = l + "/current"
		hx.Symlink(l+"/to", root)
	case 3: // a relative one
		l := hx.Dir("lnk")
		hx.Symlink(src, l+"/to")
		root = l + "/current"
		hx.Symlink("to", root)
	}
	ref, err := index.Build(opt, dst, root, "url", "rev")
	verifrt.Assert(err == nil, "building an index of a readable tree fails")
	checkAccount(ref, dst, []c08Entry{{rel: "a", data: []byte("one\n")}}, true, true, "root directory with a dot or special name: ")
}

// C08Fault: one file-system operation of the build fails.
func C08Fault() {
	src, db := hx.Dir("src"), hx.Dir("db")
	dst := db + "/idx-1"
	hx.Mkdir(filepath.Join(src, "d"))
	es := []c08Entry{
		{rel: "a", data: []byte("one\ntwo\n")},
		{rel: "d/b", data: []byte("three")},
		{rel: "x", kind: 1, data: []byte{0xff, 'x'}},
		{rel: ".h", kind: 0, data: []byte("hid")},
		{rel: "l", kind: 2},
	}
	for _, e := range es {
		if e.kind == 2 {
			hx.Symlink("/etc/none", filepath.Join(src, e.rel))
		} else {
			hx.Put(filepath.Join(src, e.rel), e.data)
		}
	}
	vmodel.ExitOK = true
	vmodel.Faults(1, func(op, path string) bool { return op != "seek" })
	ref, ok := buildMayExit(&index.IndexOptions{ExcludeDotFiles: true}, dst, src)
	vmodel.Faults(0, nil)
	if !ok {
		verifrt.Reach("failed")
		return
	}
	verifrt.Reach("succeeded")
	checkAccount(ref, dst, es, true, false, "after an I/O failure that the build did not report: ")
}

func buildMayExit(opt *index.IndexOptions, dst, src string) (ref *index.IndexRef, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, x := e.(vmodel.ExitSentinel); x {
				ref, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	ref, err := index.Build(opt, dst, src, "url", "rev")
	return ref, err == nil
}

// C08Names: one file of arbitrary name, possibly in a directory of arbitrary name.
func C08Names() {
	n, dn := 3, 1
	if verifrt.Tier() > 0 {
		n, dn = 3, 2
	}
	verifrt.Opt("skipfn:github.com/hound-search/hound/codesearch/index.sortPost", 1)
	src, dst := hx.Dir("src"), hx.Dir("db")+"/idx-1"
	name := func(tag string, max int) string {
		s := verifrt.String(tag, 1+verifrt.Choose(tag+"len", max))
		for i := 0; i < len(s); i++ {
			verifrt.Assume(s[i] != '/' && s[i] != 0 && s[i] < 0x80)
		}
		verifrt.Assume(s != "." && s != "..")
		return s
	}
	rel := name("file", n)
	dots := verifrt.Choose("dots", 2) == 1
	special := []string{}
	if verifrt.Choose("special", 2) == 1 {
		special = []string{".g", "CVS"}
	}
	dir := ""
	if verifrt.Choose("indir", 2) == 1 {
		dir = name("dir", dn)
		hx.Mkdir(filepath.Join(src, dir))
		rel = dir + "/" + rel
	}
	hx.Put(filepath.Join(src, rel), []byte("text\n"))
	ref, err := index.Build(&index.IndexOptions{ExcludeDotFiles: dots, SpecialFiles: special}, dst, src, "url", "rev")
	verifrt.Assert(err == nil, "building an index of a readable tree fails")
	ignored, hidden := false, false
	parts := split(rel)
	for _, p := range parts {
		sp := false
		for _, s := range special {
			sp = sp || p == s
		}
		if sp {
			ignored = true
			break
		}
		if dots && p[0] == '.' {
			hidden = true
			break
		}
	}
	ix, err := ref.Open()
	verifrt.Assert(err == nil, "opening a fresh index fails")
	res, err := ix.Search("", &index.SearchOptions{})
	verifrt.Assert(err == nil, "searching a fresh index fails")
	ex := excludedFiles(dst)
	if ignored || hidden {
		verifrt.Assert(len(res.Matches) == 0, "a file that is to be left out is searchable")
		if ignored {
			verifrt.Assert(len(ex) == 0, "a VCS-special name is not ignored")
		}
		return
	}
	verifrt.Assert(len(ex) == 0, "a text file is listed as excluded")
	verifrt.Assert(len(res.Matches) == 1, "a text file is not searchable")
	verifrt.Assert(verifrt.EqStr(res.Matches[0].Filename, rel), "a file is indexed under another name")
	verifrt.Reach("searchable")
}
