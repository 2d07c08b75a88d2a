package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	hdir := flag.String("harness", "/verif/harness", "harness root: each subdirectory becomes <repo>/verifh/<dir>")
	inpkg := flag.String("inpkg", "", "directory of in-package files: <dir>/<repo-pkg-path>/*.go are overlaid into the repository package")
	run := flag.String("run", "", "comma separated pkg.Func to explore")
	out := flag.String("out", "", "result file (JSON)")
	workers := flag.Int("workers", 8, "")
	secs := flag.Int("seconds", 300, "time budget per harness function")
	steps := flag.Int64("steps", 20000000, "instruction limit per path")
	pre := flag.Int("preempt", 2, "preemption bound")
	solver := flag.String("solver", "z3-new -in", "")
	tmo := flag.Int("qtimeout", 60000, "solver timeout per query (ms)")
	trace := flag.Bool("trace", false, "")
	tier := flag.Int("tier", 0, "0 quick, 1 thorough")
	xc := flag.String("xcheck", "", "second solver for assertions")
	known := flag.String("known", "", "file with one substring per line: violations that do not stop the exploration")
	rep := flag.String("replay", "", "file with recorded variable values: re-execute that single path")
	nsamp := flag.Int("samples", 8, "completed paths to record")
	seed := flag.Int64("seed", 1, "")
	flag.Parse()

	t0 := time.Now()
	names := strings.Split(*run, ",")
	prog, harn, err := load(*repo, *hdir, *inpkg, names)
	if err != nil {
		fatalf("%v", err)
	}
	loadSec := time.Since(t0).Seconds()
	var results []*Result
	for _, n := range names {
		fn := harn[n]
		if fn == nil {
			fatalf("no harness function %s", n)
		}
		opt := &Options{maxSteps: *steps, preempt: *pre, workers: *workers, solver: strings.Fields(*solver), timeoutMs: *tmo, trace: *trace, tierN: *tier,
			deadline: time.Now().Add(time.Duration(*secs) * time.Second)}
		opt.nsamples, opt.seed = *nsamp, *seed
		if *rep != "" {
			var rv struct {
				Vars []VarVal `json:"vars"`
				Tier int      `json:"tier"`
			}
			b, err := os.ReadFile(*rep)
			if err == nil {
				err = json.Unmarshal(b, &rv)
			}
			if err != nil {
				fatalf("%v", err)
			}
			opt.replay = append([]VarVal{}, rv.Vars...)
			opt.tierN = rv.Tier
		}
		if *xc != "" {
			opt.xcheck = strings.Fields(*xc)
		}
		if *known != "" {
			b, _ := os.ReadFile(*known)
			for _, l := range strings.Split(string(b), "\n") {
				if l = strings.TrimSpace(l); l != "" {
					opt.known = append(opt.known, l)
				}
			}
		}
		s := newShared(prog, opt, prog.fn(fn))
		t1 := time.Now()
		s.explore()
		r := s.result(n, time.Since(t1).Seconds())
		results = append(results, r)
		printForks()
		fmt.Fprintf(os.Stderr, "%s: paths=%d done=%d assumed=%d bounded=%d unsupported=%d asserts=%d(q %d) queries=%d sat=%d unsat=%d unknown=%d solver=%.1fs total=%.1fs steps=%d viol=%d incomplete=%d timeout=%v\n",
			n, r.Stats.Paths, r.Stats.Done, r.Stats.Assumed, r.Stats.Bounded, r.Stats.Unsupported, r.Stats.Asserts, r.Stats.AssertQ, r.Queries, r.Sat, r.Unsat, r.Unknown, r.SolverSec, r.Seconds, r.Stats.Steps, len(r.Violations), len(r.Incomplete), r.TimedOut)
		for k, v := range r.Incomplete {
			fmt.Fprintf(os.Stderr, "   incomplete x%d: %s\n", v, k)
		}
		for k, v := range r.Bounds {
			fmt.Fprintf(os.Stderr, "   bound x%d: %s\n", v, k)
		}
		for _, v := range r.Violations {
			fmt.Fprintf(os.Stderr, "   counterexample %s\n", v.Msg)
			for _, x := range v.Vars {
				fmt.Fprintf(os.Stderr, "      %s = %d\n", x.Name, x.V)
			}
			for _, st := range v.Stack {
				fmt.Fprintf(os.Stderr, "      at %s\n", st)
			}
			for _, st := range v.Sched {
				fmt.Fprintf(os.Stderr, "      sched %s\n", st)
			}
		}
	}
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]any{"results": results, "load_seconds": loadSec}, "", " ")
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fatalf("%v", err)
		}
	}
}

// overlayFiles maps virtual paths under the repository to file contents.
func overlayFiles(repo, hdir, inpkg string) map[string][]byte {
	ov := map[string][]byte{}
	add := func(root, dst string) {
		filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			b, err := os.ReadFile(p)
			if err == nil {
				ov[filepath.Join(dst, rel)] = b
			}
			return nil
		})
	}
	add(hdir, filepath.Join(repo, "verifh"))
	// commands become packages that harnesses can import
	dirs, _ := filepath.Glob(filepath.Join(hdir, "cmd_*"))
	for _, d := range dirs {
		name := filepath.Base(d)
		files, _ := filepath.Glob(filepath.Join(repo, "cmds", strings.TrimPrefix(name, "cmd_"), "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if b, err := os.ReadFile(f); err == nil {
				ov[filepath.Join(repo, "verifh", name, filepath.Base(f))] = mainClause.ReplaceAll(b, []byte("${1}package "+name))
			}
		}
	}
	if inpkg != "" {
		add(inpkg, repo)
	}
	return ov
}

var mainClause = regexp.MustCompile(`(?m)(\A|^)package main\b`)

const modPath = "github.com/hound-search/hound"

func load(repo, hdir, inpkg string, names []string) (*Program, map[string]*ssa.Function, error) {
	ov := overlayFiles(repo, hdir, inpkg)
	pats := map[string]bool{modPath + "/verifh/vmodel": true}
	for _, n := range names {
		i := strings.LastIndex(n, ".")
		pats[modPath+"/verifh/"+n[:i]] = true
	}
	var list []string
	for p := range pats {
		list = append(list, p)
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, list...)
	if err != nil {
		return nil, nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(e.Error(), "no matching files found") {
				continue // files to embed that have not been built
			}
			if strings.HasPrefix(p.PkgPath, modPath) || nerr == 0 {
				fmt.Fprintf(os.Stderr, "load: %s: %v\n", p.PkgPath, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, nil, fmt.Errorf("packages contain errors")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := newProgram(prog)
	p.repo = repo
	p.modPath = modPath
	p.hpath = modPath + "/verifh"
	harn := map[string]*ssa.Function{}
	for _, n := range names {
		i := strings.LastIndex(n, ".")
		sp := prog.ImportedPackage(modPath + "/verifh/" + n[:i])
		if sp != nil {
			harn[n] = sp.Func(n[i+1:])
		}
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, p.hpath) {
			return
		}
		sp := prog.Package(pk.Types)
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//gosym:model ") {
						target := strings.TrimSpace(strings.TrimPrefix(c.Text, "//gosym:model "))
						p.models[target] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	if vm := prog.ImportedPackage(modPath + "/verifh/vmodel"); vm != nil {
		if t := vm.Type("RuntimeError"); t != nil {
			p.rtErr = t.Type()
		}
	}
	return p, harn, nil
}
