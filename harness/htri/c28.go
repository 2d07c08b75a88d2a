package htri

import (
	"github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func inPaths(name string, paths []string) bool {
	for _, p := range paths {
		if hasPrefix(name, p) {
			return true
		}
	}
	return false
}

// C28 merges two small indexes and reads arbitrary posting lists of the result.
func C28() {
	names := []string{"a/x", "a/y", "ab", "b/x", "z\xff", "é/a", "ê/b"}
	pathSets := [][]string{{}, {"a"}, {"a/"}, {"b/"}, {"é"}, {"a/", "b/"}, {"a/x", "z\xff"}, {"\x01", "c", "~"}, {"ab", "b", "é/"}, {"a", "a/"}}
	data := []string{"abc", "bcd", "abcd", "zz"}
	nn := 4
	start := 0
	if verifrt.Tier() > 0 {
		nn = 5
	}
	start = verifrt.Choose("start", len(names)-nn+1)
	universe := names[start : start+nn]
	paths := pathSets[verifrt.Choose("paths", len(pathSets))]
	var fa, fb []file
	for i, n := range universe {
		if verifrt.Choose("inA", 2) == 1 {
			fa = append(fa, file{n, []byte(data[i%2])})
		}
		if inPaths(n, paths) && verifrt.Choose("inB", 2) == 1 {
			fb = append(fb, file{n, []byte(data[1+i%3])})
		}
	}
	d := hx.Dir("ix")
	pa := []string{"a"}
	write(d+"/a", pa, fa)
	write(d+"/b", paths, fb)
	index.Merge(d+"/c", d+"/a", d+"/b")
	ix := index.Open(d + "/c")
	// the expected files, in name order
	var want []file
	for _, n := range universe {
		for _, f := range fb {
			if f.name == n {
				want = append(want, f)
			}
		}
		for _, f := range fa {
			if f.name == n && !inPaths(n, paths) {
				want = append(want, f)
			}
		}
	}
	all := ix.PostingQuery(&index.Query{Op: index.QAll})
	verifrt.Assert(len(all) == len(want), "the merged index has the wrong number of files")
	for i := range want {
		verifrt.Assert(ix.Name(uint32(i)) == want[i].name, "the merged index has the wrong files or the wrong order")
	}
	t := trigram("t")
	tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
	checkSet(ix.PostingList(tri), len(want), func(i int) bool { return occurs(t, want[i].data) }, "posting list of the merged index")
	// paths are the sorted union without paths inside of others
	ps := ix.Paths()
	for i := range ps {
		verifrt.Assert(i == 0 || ps[i-1] < ps[i], "the paths of the merged index are not sorted")
		verifrt.Assert(inPaths(ps[i], append(append([]string{}, pa...), paths...)), "the merged index has an unknown path")
	}
	for _, p := range append(append([]string{}, pa...), paths...) {
		verifrt.Assert(inPaths(p, ps), "the merged index loses a path")
	}
	verifrt.Reach("merged")
}

// C28Ranges: files of the newer index between many files of the older one.
func C28Ranges() {
	n := 3
	if verifrt.Tier() > 0 {
		n = 4
	}
	words := []string{"abc", "zz"}
	paths := []string{}
	var fa, fb, want []file
	for i := 0; i < n; i++ {
		p := string([]byte{'b' + byte(2*i)})
		k := string([]byte{'a' + byte(2*i)})
		if c := verifrt.Choose("kept", 3); c > 0 {
			f := file{k, []byte(words[c-1])}
			fa, want = append(fa, f), append(want, f)
		}
		paths = append(paths, p+"/")
		if i > 0 || verifrt.Choose("old", 2) == 1 {
			fa = append(fa, file{p + "/1", []byte("abc")})
		}
		if verifrt.Choose("new", 2) == 1 {
			f := file{p + "/1", []byte(words[i%2])}
			fb, want = append(fb, f), append(want, f)
		}
	}
	if verifrt.Choose("last", 2) == 1 {
		f := file{"z", []byte("abc")}
		fa, want = append(fa, f), append(want, f)
	}
	d := hx.Dir("ix")
	write(d+"/a", []string{"/"}, fa)
	write(d+"/b", paths, fb)
	index.Merge(d+"/c", d+"/a", d+"/b")
	ix := index.Open(d + "/c")
	all := ix.PostingQuery(&index.Query{Op: index.QAll})
	verifrt.Assert(len(all) == len(want), "the merged index has the wrong number of files")
	for i := range want {
		verifrt.Assert(ix.Name(uint32(i)) == want[i].name, "the merged index has the wrong files or the wrong order")
	}
	t := trigram("t")
	tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
	checkSet(ix.PostingList(tri), len(want), func(i int) bool { return occurs(t, want[i].data) }, "posting list of the merged index")
	verifrt.Reach("merged")
}
