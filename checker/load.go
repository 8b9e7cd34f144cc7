package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath  = "github.com/si3nloong/sqlgen"
	genPath  = modPath + "/cmd/sqlgen/codegen"
	compPath = modPath + "/cmd/sqlgen/internal/compiler"
	diaPath  = genPath + "/dialect"
	poolPath = modPath + "/sequel/strpool"
	seqPath  = modPath + "/sequel"
	encPath  = modPath + "/sequel/encoding"
	virtPath = modPath + "/zz_verif_"
	dbSuffix = "db"
)

type Loaded struct {
	stmtRun  *stmtRun
	fset     *token.FileSet
	pkgs     map[string]*packages.Package
	order    []string
	prog     *ssa.Program
	ssaPkgs  map[string]*ssa.Package
	funcs    []*ssa.Function // every source function with a body, closures included
	overlay  map[string][]byte
	virtual  map[string]string // virtual file -> the template it came from
	dialect  map[string]dialectConsts
	problems []string
	declOf   map[types.Object]declSite
}

type declSite struct {
	fd  *ast.FuncDecl
	pkg *packages.Package
}

func (l *Loaded) pkgCount() int {
	if l == nil {
		return 0
	}
	return len(l.pkgs)
}

func (l *Loaded) pos(p token.Pos) string {
	q := l.fset.Position(p)
	if t, ok := l.virtual[q.Filename]; ok {
		return fmt.Sprintf("%s (expansion line %d of %s)", t, q.Line, filepath.Base(filepath.Dir(q.Filename)))
	}
	rel, err := filepath.Rel(repoDir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

var specDialects = []dialectConsts{
	{"mysql", '?', '`', false},
	{"postgres", '$', '"', true},
	{"sqlite", '?', '"', false},
}

func helperPkgPath(d string) string { return virtPath + d }

// load type-checks the workspace's current sources and the helper templates
// expanded once per dialect, and builds SSA for all of it.
func load(withExamples bool) (*Loaded, error) {
	l := &Loaded{overlay: map[string][]byte{}, virtual: map[string]string{}, pkgs: map[string]*packages.Package{}, ssaPkgs: map[string]*ssa.Package{}, declOf: map[types.Object]declSite{}}
	l.fset = token.NewFileSet()
	patterns := []string{"./sequel/...", "./cmd/sqlgen/..."}
	if withExamples {
		patterns = append(patterns, "./examples/...")
	}
	tdir := filepath.Join(repoDir, "cmd/sqlgen/codegen/templates")
	ents, err := os.ReadDir(tdir)
	if err != nil {
		return nil, err
	}
	for _, d := range specDialects {
		dir := filepath.Join(repoDir, "zz_verif_"+d.Name)
		patterns = append(patterns, "./zz_verif_"+d.Name)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go.tpl") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(tdir, e.Name()))
			if err != nil {
				return nil, err
			}
			out, err := expandTemplate(e.Name(), string(src), d, "db")
			if err != nil {
				l.problems = append(l.problems, fmt.Sprintf("template %s does not expand for %s: %v", e.Name(), d.Name, err))
				continue
			}
			fn := filepath.Join(dir, strings.TrimSuffix(e.Name(), ".tpl"))
			l.overlay[fn] = out
			l.virtual[fn] = "cmd/sqlgen/codegen/templates/" + e.Name()
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile | packages.NeedEmbedFiles,
		Dir:     repoDir,
		Fset:    l.fset,
		Overlay: l.overlay,
		Env:     os.Environ(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, "struct-field/pk/uuid") {
				continue
			}
			l.problems = append(l.problems, p.PkgPath+": "+e.Error())
		}
		l.pkgs[p.PkgPath] = p
		l.order = append(l.order, p.PkgPath)
	}
	sort.Strings(l.order)
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	l.prog = prog
	for i, sp := range spkgs {
		if sp != nil {
			l.ssaPkgs[pkgs[i].PkgPath] = sp
		}
	}
	for _, path := range l.order {
		p := l.pkgs[path]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					if o := p.TypesInfo.Defs[fd.Name]; o != nil {
						l.declOf[o] = declSite{fd, p}
						if tf, ok := o.(*types.Func); ok {
							if fn := prog.FuncValue(tf); fn != nil && fn.Blocks != nil {
								l.addFunc(fn)
							}
						}
					}
				}
			}
		}
		if sp := l.ssaPkgs[path]; sp != nil {
			if init := sp.Func("init"); init != nil {
				l.addFunc(init)
			}
		}
	}
	return l, nil
}

func (l *Loaded) addFunc(fn *ssa.Function) {
	untag(fn)
	l.funcs = append(l.funcs, fn)
	for _, a := range fn.AnonFuncs {
		l.addFunc(a)
	}
}

// pkgOf is the package a function (or the function it is nested in) belongs to.
func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// fname names a function stably: pkg-relative, without type arguments or lines.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if p := fn.Parent(); p != nil {
		return fname(p) + "$lit"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	name := fn.Name()
	path := strings.TrimPrefix(strings.TrimPrefix(pkgOf(fn), modPath), "/")
	path = strings.TrimPrefix(path, "cmd/sqlgen/")
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	return path + "." + name
}

func (l *Loaded) funcsIn(prefixes ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range l.funcs {
		p := pkgOf(f)
		for _, pre := range prefixes {
			if p == pre || strings.HasPrefix(p, pre+"/") || strings.HasSuffix(pre, "_") && strings.HasPrefix(p, pre) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// function looks a source function up: "pkg/path", "Name" or "Type.Name".
func (l *Loaded) function(pkg, name string) *ssa.Function {
	for _, f := range l.funcs {
		if f.Parent() == nil && pkgOf(f) == pkg {
			n := fname(f)
			if n[strings.LastIndex(n, "/")+1:] == n {
			}
			if i := strings.LastIndex(n, "/"); i >= 0 {
				n = n[i+1:]
			}
			if j := strings.Index(n, "."); j >= 0 {
				n = n[j+1:]
			}
			if n == name {
				return f
			}
		}
	}
	return nil
}

// origin maps an instantiation to its generic source function.
func origin(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// callee resolves a static callee to its source function; nil if dynamic.
func callee(c ssa.CallInstruction) *ssa.Function {
	return origin(c.Common().StaticCallee())
}

// calleeObj resolves the called function or method object, interface methods
// included, through type information.
func calleeObj(c ssa.CallInstruction) *types.Func {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method
	}
	if f := cc.StaticCallee(); f != nil {
		if o := origin(f); o.Object() != nil {
			if tf, ok := o.Object().(*types.Func); ok {
				return tf
			}
		}
	}
	return nil
}

// fullName is "pkg/path.Func" or "(pkg/path.Type).Method", pointers dropped.
func fullName(o *types.Func) string {
	if o == nil {
		return ""
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return "(" + pk + n.Obj().Name() + ")." + o.Name()
		}
		return "(" + t.String() + ")." + o.Name()
	}
	if o.Pkg() != nil {
		return o.Pkg().Path() + "." + o.Name()
	}
	return o.Name()
}

func callName(c ssa.CallInstruction) string { return fullName(calleeObj(c)) }

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// untag makes a switch without a tag look like the if statements it stands
// for: its cases are compiled to "true == condition".
func untag(fn *ssa.Function) {
	isTrue := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			v := bo.Y
			if isTrue(bo.Y) {
				v = bo.X
			} else if !isTrue(bo.X) {
				continue
			}
			for _, r := range *bo.Referrers() {
				for _, op := range r.Operands(nil) {
					if *op == ssa.Value(bo) {
						*op = v
					}
				}
				if vr := v.Referrers(); vr != nil {
					*vr = append(*vr, r)
				}
			}
			*bo.Referrers() = nil
		}
	}
}
