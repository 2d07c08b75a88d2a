// Package hx gives harnesses one way to set up the world that works in the engine (on the modelled
// environment) and natively (on the real one, in a scratch directory) when a counterexample is replayed.
package hx

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/hound-search/hound/verifh/verifrt"
	"github.com/hound-search/hound/verifh/vmodel"
)

// Output is a file to print to, and what was printed so far.
func Output(tty bool) (*os.File, func() []byte) {
	if verifrt.InEngine() {
		f, n := vmodel.Capture(tty)
		return f, func() []byte { return n.Data }
	}
	if tty {
		verifrt.Abort("terminal output is not replayed natively")
	}
	f, err := ioutil.TempFile("", "verif-out")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	return f, func() []byte {
		f.Seek(0, 0)
		b, _ := ioutil.ReadAll(f)
		return b
	}
}

var scratch string

// Dir is a fresh empty directory.
func Dir(name string) string {
	if verifrt.InEngine() {
		vmodel.MkdirP("/w/" + name)
		return "/w/" + name
	}
	if scratch == "" {
		d, err := ioutil.TempDir(os.Getenv("VERIF_SCRATCH"), "verif-replay")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	p := filepath.Join(scratch, name)
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	return p
}

// Put writes a file.
func Put(path string, data []byte) {
	if verifrt.InEngine() {
		vmodel.Put(path, data)
		return
	}
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := ioutil.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
}

// Mkdir makes a directory.
func Mkdir(path string) {
	if verifrt.InEngine() {
		vmodel.MkdirP(path)
		return
	}
	if err := os.MkdirAll(path, 0755); err != nil {
		panic(err)
	}
}

// Symlink makes a symbolic link.
func Symlink(target, path string) {
	if verifrt.InEngine() {
		vmodel.PutLink(path, target)
		return
	}
	if err := os.Symlink(target, path); err != nil {
		panic(err)
	}
}

// Exists reports whether a path exists.
func Exists(path string) bool {
	if verifrt.InEngine() {
		return vmodel.LLookup(path) != nil
	}
	_, err := os.Lstat(path)
	return err == nil
}

// Names lists a directory.
func Names(path string) []string {
	if verifrt.InEngine() {
		n := vmodel.Lookup(path)
		if n == nil {
			return nil
		}
		return n.Names()
	}
	fis, _ := ioutil.ReadDir(path)
	var r []string
	for _, fi := range fis {
		r = append(r, fi.Name())
	}
	return r
}
