// Package hindex checks index building and searching.
package hindex

import (
	"compress/gzip"
	"os"
	"path/filepath"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/verifh/hx"
	"github.com/hound-search/hound/verifh/verifrt"
)

// buildIndex indexes the given files (concrete contents) into a fresh directory.
func buildIndex(opt *index.IndexOptions, files []string, contents [][]byte) (string, *index.Index) {
	src, dst := hx.Dir("src"), hx.Dir("db")+"/idx-1"
	for i, f := range files {
		hx.Put(filepath.Join(src, f), contents[i])
	}
	ref, err := index.Build(opt, dst, src, "url", "rev")
	verifrt.Assert(err == nil, "building an index of readable files fails")
	ix, err := ref.Open()
	verifrt.Assert(err == nil, "opening a fresh index fails")
	return dst, ix
}

// setContent replaces the stored contents of an indexed file.
func setContent(dst, name string, data []byte) {
	p := filepath.Join(dst, "raw", name)
	if !hx.Exists(p) {
		verifrt.Unsupported("stored contents are not at raw/<name>")
	}
	f, err := os.Create(p)
	if err != nil {
		verifrt.Unsupported("cannot replace stored contents")
	}
	g := gzip.NewWriter(f)
	g.Write(data)
	g.Close()
	f.Close()
}

// lines splits a text into its lines.
func lines(b []byte) [][]byte {
	var r [][]byte
	st := 0
	for i := 0; i < len(b); i++ {
		if b[i] == '\n' {
			r = append(r, b[st:i])
			st = i + 1
		}
	}
	if st < len(b) {
		r = append(r, b[st:])
	}
	return r
}
