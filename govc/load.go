package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/Breeze0806/gobinlog"

// World is the loaded program, shared by the workers.
type World struct {
	mu        sync.Mutex
	prog      *ssa.Program
	pkgs      []*ssa.Package // repository packages, dependency order
	specFiles map[string]bool
	built     map[*ssa.Package]bool
	isSpecFn  map[*ssa.Function]bool
	repl      map[string]*ssa.Function
	harness   []*Harness
	dropped   []string                   // spec files left out: they do not fit the tree
	vars      map[string]map[string]bool // and which variables
	shapes    map[string]int             // functions with loop invariants: how many loops they had
}

type Harness struct {
	fn     *ssa.Function
	name   string
	props  []string
	shards int
	bound  string // non-empty: a bounded check, with its stated bound
}

// loadWorld loads the repository with the specification overlaid. Spec files
// that no longer type-check against the repository (because something they
// name is gone) are left out and reported in World.dropped.
func loadWorld(repo, specDir, modfile string, env []string) (*World, error) {
	overlay := map[string][]byte{}
	spec := map[string]bool{}
	err := overlayFiles(repo, specDir, false, func(dst, src string, b []byte) error {
		overlay[dst] = b
		spec[dst] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	var pk []*packages.Package
	var dropped []string
	for {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
				packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:        repo,
			Overlay:    overlay,
			Env:        env,
			BuildFlags: []string{"-mod=mod", "-modfile=" + modfile, "-tags=verif,purego"},
		}
		pk, err = packages.Load(cfg, ".", "./replication")
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string]string{}
		packages.Visit(pk, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i >= 0 {
					file = file[:i]
				}
				if spec[file] && !strings.Contains(file, "intrinsics") {
					bad[file] = e.Error()
				} else {
					errs = append(errs, e.Error())
				}
			}
		})
		if len(bad) == 0 {
			if len(errs) > 0 {
				return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
			}
			break
		}
		for f, e := range bad {
			delete(overlay, f)
			delete(spec, f)
			dropped = append(dropped, e)
		}
	}
	prog, spk := ssautil.AllPackages(pk, ssa.NaiveForm|ssa.InstantiateGenerics)
	w := &World{prog: prog, specFiles: spec, built: map[*ssa.Package]bool{}, isSpecFn: map[*ssa.Function]bool{}, repl: map[string]*ssa.Function{}, dropped: dropped, shapes: map[string]int{}, vars: map[string]map[string]bool{}}
	if b, err := os.ReadFile(filepath.Join(specDir, "loops.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if p := strings.Split(l, "\t"); len(p) > 1 && l[0] != '#' {
				if n, err := strconv.Atoi(p[1]); err == nil {
					w.shapes[p[0]] = n
					w.vars[p[0]] = map[string]bool{}
					for _, v := range p[2:] {
						w.vars[p[0]][v] = true
					}
				}
			}
		}
	}
	for i := len(spk) - 1; i >= 0; i-- {
		w.pkgs = append(w.pkgs, spk[i])
	}
	// replication before root
	if w.pkgs[0].Pkg.Path() == repoPath {
		w.pkgs[0], w.pkgs[1] = w.pkgs[1], w.pkgs[0]
	}
	for _, p := range w.pkgs {
		p.Build()
		w.built[p] = true
	}
	for _, p := range w.pkgs {
		var pp *packages.Package
		for _, q := range pk {
			if q.PkgPath == p.Pkg.Path() {
				pp = q
			}
		}
		for _, file := range pp.Syntax {
			fname := prog.Fset.Position(file.Pos()).Filename
			if !spec[fname] {
				continue
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := p.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				n := fd.Name.Name
				switch {
				case strings.HasPrefix(n, "prove_"):
					h := &Harness{fn: fn, name: n, shards: 1}
					for _, part := range strings.Split(n, "_")[1:] {
						if len(part) == 3 && part[0] == 'C' {
							h.props = append(h.props, part)
						} else {
							break
						}
					}
					if fd.Doc != nil {
						for _, c := range fd.Doc.List {
							if strings.HasPrefix(c.Text, "//shards:") {
								fmt.Sscanf(c.Text, "//shards:%d", &h.shards)
							}
							if strings.HasPrefix(c.Text, "//bounded:") {
								h.bound = strings.TrimSpace(strings.TrimPrefix(c.Text, "//bounded:"))
							}
						}
					}
					w.harness = append(w.harness, h)
				case strings.HasPrefix(n, "vmodel_"):
					if fd.Doc != nil {
						for _, c := range fd.Doc.List {
							if strings.HasPrefix(c.Text, "//model:") {
								w.repl[strings.TrimSpace(strings.TrimPrefix(c.Text, "//model:"))] = fn
							}
						}
					}
				}
			}
		}
	}
	return w, nil
}

// overlayFiles visits the spec files: <specDir>/{root,replication}/*.go, and
// <specDir>/common/*.go, which goes into both packages ("package PKG").
// Files named native_*.go belong to the native harness only, files named
// sym_*.go to the symbolic one only.
func overlayFiles(repo, specDir string, native bool, f func(dst, src string, content []byte) error) error {
	one := func(dir, sub, pkg string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") {
				continue
			}
			if native && strings.HasPrefix(n, "sym_") || !native && strings.HasPrefix(n, "native_") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				return err
			}
			if pkg != "" {
				b = []byte(strings.Replace(string(b), "package PKG", "package "+pkg, 1))
			}
			// the repository's module asks for an older language version
			b = append([]byte("//go:build go1.22\n\n"), b...)
			dst := repo
			if sub != "root" {
				dst = filepath.Join(repo, sub)
			}
			// in-package test files natively, ordinary files symbolically
			name := "zz_verif_" + strings.TrimSuffix(n, ".go")
			if native {
				name += "_test.go"
			} else {
				name += ".go"
			}
			if err := f(filepath.Join(dst, name), filepath.Join(dir, n), b); err != nil {
				return err
			}
		}
		return nil
	}
	for _, sub := range []string{"root", "replication"} {
		pkg := "gobinlog"
		if sub == "replication" {
			pkg = sub
		}
		if err := one(filepath.Join(specDir, "common"), sub, pkg); err != nil {
			return err
		}
		if err := one(filepath.Join(specDir, sub), sub, ""); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) isRepoPkg(p *ssa.Package) bool {
	return p != nil && (p.Pkg.Path() == repoPath || strings.HasPrefix(p.Pkg.Path(), repoPath+"/"))
}

// isRepo: a function of the repository itself (not of the spec overlay).
func (w *World) isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return w.isRepoPkg(fn.Pkg) && !w.isSpec(fn)
}

// isSpec: a function of the spec overlay.
func (w *World) isSpec(fn *ssa.Function) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.isSpecFn[fn]; ok {
		return r
	}
	g := fn
	for g.Parent() != nil {
		g = g.Parent()
	}
	pos := g.Pos()
	if pos == 0 && g.Syntax() != nil {
		pos = g.Syntax().Pos()
	}
	r := false
	if pos != 0 {
		r = w.specFiles[w.prog.Fset.Position(pos).Filename]
	} else if g.Signature.Recv() != nil {
		// wrapper method of a spec type
		t := g.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			r = w.specFiles[w.prog.Fset.Position(n.Obj().Pos()).Filename]
		}
	}
	w.isSpecFn[fn] = r
	return r
}

func (w *World) replacement(name string) *ssa.Function { return w.repl[name] }

func (w *World) build(fn *ssa.Function) {
	if len(fn.Blocks) > 0 {
		return
	}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		p = w.prog.Package(fn.Object().Pkg())
	}
	if p == nil {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.built[p] {
		p.Build()
		w.built[p] = true
	}
}
