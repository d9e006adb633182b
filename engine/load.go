package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Directive is a //verif: line on a specification function.
type Directive struct {
	Kind string // prop, lemma, spec, uf, abs, model, opt
	Args []string
}

// SpecFunc is a function of a specification file.
type SpecFunc struct {
	Name  string
	Pkg   string // package path
	File  string
	Line  int
	Dirs  []Directive
	Props []string
	Fn    *ssa.Function
	Opts  map[string]string
	Lemma string
}

func (f *SpecFunc) has(kind string) bool {
	for _, d := range f.Dirs {
		if d.Kind == kind {
			return true
		}
	}
	return false
}

// Program is the loaded repository with specifications overlaid.
type Program struct {
	Repo    string
	SSA     *ssa.Program
	Pkgs    []*ssa.Package
	Fset    *token.FileSet
	Specs   []*SpecFunc
	ByFn    map[*ssa.Function]*SpecFunc
	Dropped []string // specification functions that no longer type-check
	Immut   map[string]bool
	Keeps   map[string]bool // assumed unchanged by abstract code, not scanned
	ImmutV  []string        // violations of declared immutability
	Abs     map[string]*SpecFunc
	Models  map[string][]*SpecFunc
	Lemmas  map[*ssa.Function]*SpecFunc
	module  string
	mutOnce sync.Once
	mutG    map[string]bool
}

func moduleOf(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:])
		}
	}
	return ""
}

// overlayFiles maps repository paths to specification file contents.
func overlayFiles(repo, specs string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(specs, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(specs, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, rel)] = b
		return nil
	})
	return ov, err
}

// blank removes a declaration from a source text, keeping line numbers.
func blank(src []byte, from, to int) {
	for i := from; i < to; i++ {
		if src[i] != '\n' {
			src[i] = ' '
		}
	}
}

// Load type-checks /repo with the overlay and builds SSA.
func Load(repo, specs string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(repo, specs)
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, ByFn: map[*ssa.Function]*SpecFunc{}, Immut: map[string]bool{}, Keeps: map[string]bool{},
		Abs: map[string]*SpecFunc{}, Models: map[string][]*SpecFunc{}, Lemmas: map[*ssa.Function]*SpecFunc{}, module: moduleOf(repo)}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		p.Fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Fset: p.Fset, Overlay: ov,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod")}
		pkgs, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := false
		var fatal []string
		drop := map[string][]int{} // file -> offsets
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				file, line := splitPos(e.Pos)
				if strings.HasPrefix(filepath.Base(file), "zz_verif") {
					drop[file] = append(drop[file], line)
					bad = true
				} else {
					fatal = append(fatal, e.Error())
				}
			}
		}
		if len(fatal) > 0 && !bad {
			return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(fatal, "; "))
		}
		if !bad {
			break
		}
		if try > 8 {
			return nil, fmt.Errorf("specifications do not type-check: %v", drop)
		}
		for file, lines := range drop {
			src := append([]byte(nil), ov[file]...)
			fs := token.NewFileSet()
			af, perr := parser.ParseFile(fs, file, src, parser.ParseComments)
			if perr != nil {
				return nil, fmt.Errorf("specification %s: %v", file, perr)
			}
			n := 0
			for _, d := range af.Decls {
				a, b := fs.Position(d.Pos()), fs.Position(d.End())
				hit := false
				for _, l := range lines {
					if l >= a.Line && l <= b.Line {
						hit = true
						if os.Getenv("GOCV_DEBUG") != "" {
							for _, pk := range pkgs {
								for _, e := range pk.Errors {
									fmt.Fprintln(os.Stderr, "spec error:", e)
								}
							}
						}
					}
				}
				if !hit {
					continue
				}
				n++
				name := "declaration"
				if fd, ok := d.(*ast.FuncDecl); ok {
					name = fd.Name.Name
					blankFrom := a.Offset
					if fd.Doc != nil {
						blankFrom = fs.Position(fd.Doc.Pos()).Offset
					}
					blank(src, blankFrom, b.Offset)
				} else {
					blank(src, a.Offset, b.Offset)
				}
				p.Dropped = append(p.Dropped, filepath.Base(file)+":"+name)
			}
			if n == 0 {
				return nil, fmt.Errorf("specification %s: error outside a declaration (%v): %v", file, lines, pkgs)
			}
			ov[file] = src
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, sp := range spkgs {
		if sp != nil {
			p.Pkgs = append(p.Pkgs, sp)
		}
	}
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			continue
		}
		for _, af := range pk.Syntax {
			file := p.Fset.Position(af.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(file), "zz_verif") {
				continue
			}
			for _, cg := range af.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//verif:immutable ") {
						for _, k := range strings.Fields(c.Text)[1:] {
							p.Immut[k] = true
						}
					}
					if strings.HasPrefix(c.Text, "//verif:keeps ") {
						for _, k := range strings.Fields(c.Text)[1:] {
							p.Immut[k] = true
							p.Keeps[k] = true
						}
					}
				}
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sf := &SpecFunc{Name: fd.Name.Name, Pkg: pk.PkgPath, File: file, Line: p.Fset.Position(fd.Pos()).Line, Opts: map[string]string{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//verif:") {
							f := strings.Fields(c.Text[len("//verif:"):])
							dir := Directive{Kind: f[0], Args: f[1:]}
							sf.Dirs = append(sf.Dirs, dir)
							switch f[0] {
							case "prop":
								sf.Props = append(sf.Props, strings.FieldsFunc(strings.Join(f[1:], " "), func(r rune) bool { return r == 0x2c || r == 0x20 })...)
							case "opt":
								for _, a := range f[1:] {
									k, val, _ := strings.Cut(a, "=")
									sf.Opts[k] = val
								}
							case "lemma":
								sf.Lemma = strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:lemma"))
							}
						}
					}
				}
				fn := spkgs[i].Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				sf.Fn = fn
				p.Specs = append(p.Specs, sf)
				p.ByFn[fn] = sf
				for _, dir := range sf.Dirs {
					arg := strings.Join(dir.Args, " ")
					switch dir.Kind {
					case "abs":
						p.Abs[arg] = sf
					case "model":
						p.Models[arg] = append(p.Models[arg], sf)
					}
				}
			}
		}
	}
	for _, sf := range p.Specs {
		if sf.Lemma != "" {
			fn := p.findFunc(sf.Fn.Pkg, sf.Lemma)
			if fn == nil {
				p.Dropped = append(p.Dropped, "lemma target missing: "+sf.Lemma)
				continue
			}
			p.Lemmas[fn] = sf
		}
	}
	for _, ms := range p.Models { // a file's own models come first
		sort.SliceStable(ms, func(i, j int) bool { return ms[i].Opts["scope"] == "file" && ms[j].Opts["scope"] != "file" })
	}
	sort.Strings(p.Dropped)
	return p, nil
}

func splitPos(s string) (string, int) {
	parts := strings.Split(s, ":")
	if len(parts) < 2 {
		return s, 0
	}
	n := 0
	fmt.Sscan(parts[1], &n)
	return parts[0], n
}

// findFunc finds "name", "(T).m" or "(*T).m" in a package.
func (p *Program) findFunc(pkg *ssa.Package, name string) *ssa.Function {
	if !strings.HasPrefix(name, "(") {
		return pkg.Func(name)
	}
	recv, m, _ := strings.Cut(name[1:], ").")
	ptr := strings.HasPrefix(recv, "*")
	tn, ok := pkg.Members[strings.TrimPrefix(recv, "*")].(*ssa.Type)
	if !ok {
		return nil
	}
	t := tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// inRepo reports whether a function is repository code (not specification).
func (p *Program) isSpecFile(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	file := p.Fset.Position(f.Pos()).Filename
	return strings.HasPrefix(filepath.Base(file), "zz_verif") || strings.Contains(file, "/zzverif/")
}

// checkImmut verifies that declared-immutable fields are only written on
// objects allocated in the writing function.
func (p *Program) checkImmut() {
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Blocks == nil || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), p.module) || p.isSpecFile(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					pt := a.X.Type().Underlying().(*types.Pointer).Elem()
					key := "F:" + shortKey(pt) + "." + pt.Underlying().(*types.Struct).Field(a.Field).Name()
					if !p.Immut[key] || p.Keeps[key] {
						continue
					}
					if !freshBase(a.X) {
						p.ImmutV = append(p.ImmutV, key+" written in "+fn.String())
					}
				case *ssa.IndexAddr:
					key := "E:" + shortKey(st.Val.Type())
					if p.Immut[key] && !p.Keeps[key] && !freshSlice(a.X) {
						p.ImmutV = append(p.ImmutV, key+" written in "+fn.String())
					}
				default:
					// whole-struct store
					if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok {
						if u := structOf(pt.Elem()); u != nil && !freshBase(st.Addr) {
							for i := 0; i < u.NumFields(); i++ {
								key := "F:" + shortKey(pt.Elem()) + "." + u.Field(i).Name()
								if p.Immut[key] && !p.Keeps[key] {
									p.ImmutV = append(p.ImmutV, key+" written in "+fn.String())
								}
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(p.ImmutV)
}

func freshBase(x ssa.Value) bool {
	switch a := x.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(a.X)
	case *ssa.Phi:
		return false
	}
	return false
}

func freshSlice(x ssa.Value) bool {
	switch a := x.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return freshSlice(a.X)
	}
	return false
}
