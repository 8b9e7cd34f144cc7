package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P28", "the set-up command is interpreted path by path: every write of the configuration file happens with --force or after the same file was found absent, and after a confirmed question; its errors are followed to the exit status", checkP28)
}

// cobraRuns lists the functions cobra runs, by their signature.
func (l *Loaded) cobraRuns() (out []cobraRun) {
	p := l.pkgs[cliPath]
	if p == nil {
		return nil
	}
	isRun := func(ft *ast.FuncType) bool {
		if ft.Params == nil {
			return false
		}
		var ts []types.Type
		for _, f := range ft.Params.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				ts = append(ts, p.TypesInfo.TypeOf(f.Type))
			}
		}
		return len(ts) == 2 && namedIs(ts[0], "github.com/spf13/cobra", "Command") && isListOfString(ts[1])
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil && isRun(x.Type) {
					out = append(out, cobraRun{x.Name.Name, x.Type, x.Body})
				}
			case *ast.FuncLit:
				if isRun(x.Type) {
					out = append(out, cobraRun{"function of a command", x.Type, x.Body})
				}
			}
			return true
		})
	}
	return
}

type cobraRun struct {
	name string
	ft   *ast.FuncType
	body *ast.BlockStmt
}

// reaches says the body calls a function for which f holds, directly or
// through functions of the module.
func (l *Loaded) bodyReaches(info *types.Info, body ast.Node, f func(*types.Func) bool, seen map[types.Object]bool) bool {
	hit := false
	ast.Inspect(body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || hit {
			return !hit
		}
		o, ok := info.Uses[id].(*types.Func)
		if !ok {
			return true
		}
		o = o.Origin()
		if f(o) {
			hit = true
			return false
		}
		if d, ok := l.declOf[o]; ok && !seen[o] && strings.HasPrefix(d.pkg.PkgPath, cliPath) {
			seen[o] = true
			if l.bodyReaches(d.pkg.TypesInfo, d.fd.Body, f, seen) {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

func checkP28(c *Ctx) {
	l := c.L
	n := 0
	for _, r := range l.cobraRuns() {
		p := l.pkgs[cliPath]
		is := func(name string) func(*types.Func) bool {
			return func(f *types.Func) bool {
				return f.Pkg() != nil && f.Pkg().Path() == genPath && f.Name() == name && f.Type().(*types.Signature).Recv() == nil
			}
		}
		if !l.bodyReaches(p.TypesInfo, r.body, is("Init"), map[types.Object]bool{}) {
			continue
		}
		n++
		c.Analysed(r.name)
		l.initCommand(c, r)
	}
	c.Check(n >= 1, "command-found", "init", token.NoPos, "the command setting up a configuration is found")
	// failures and the exit status
	f := l.runFacts()
	e := l.runEngine(f)
	m := 0
	for _, fn := range l.funcsIn(cliPath) {
		p := pkgOf(fn)
		if p != cliPath && !(p == genPath && fn.Name() == "Init" && fn.Signature.Recv() == nil) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || errIndex(call) < 0 || cannotFail(call) {
					continue
				}
				lbl := callLabel(call)
				if _, isCall := call.(*ssa.Call); !isCall {
					c.Bad("error-flow", fname(fn)+"/"+lbl, call.Pos(), "the error of a deferred or spawned call is lost")
					continue
				}
				m++
				c.report(e.follow(fn, call), "error-flow", fname(fn)+"/"+lbl, call.Pos(), "the error of %s reaches the user on every path", lbl)
			}
		}
	}
	c.Check(m >= 5, "errors-found", "init", token.NoPos, "%d error sources", m)
}

var fileWriters = map[string]int{
	"os.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0, "os.Remove": 0, "os.RemoveAll": 0, "os.Rename": 1, "os.Truncate": 0,
	"syscall.Unlink": 0, "os.Mkdir": 0, "os.MkdirAll": 0, "os.Chmod": 0, "os.Symlink": 1, "os.Link": 1, "os.CreateTemp": 0, "os.MkdirTemp": 0,
	"syscall.Open": 0, "syscall.Rename": 1, "syscall.Mkdir": 0, "syscall.Truncate": 0, "io/ioutil.WriteFile": 0,
}

func (l *Loaded) initCommand(c *Ctx, r cobraRun) {
	p := l.pkgs[cliPath]
	e := newAbs(l)
	e.limit = 400000
	e.peel = true
	cfgName := ""
	if gp := l.pkgs[genPath]; gp != nil {
		if k, ok := gp.Types.Scope().Lookup("DefaultConfigFile").(*types.Const); ok {
			cfgName = constant.StringVal(k.Val())
		}
	}
	c.Check(cfgName == "sqlgen.yml", "name", "DefaultConfigFile", token.NoPos, "the configuration file is sqlgen.yml")
	asks, writes := 0, 0
	forceFlags := l.forceFlags(c)
	e.opaque = func(fn *vFunc) bool {
		return !strings.HasPrefix(fn.decl.pkg.PkgPath, cliPath) || fn.name == genPath+".DefaultConfig"
	}
	boolT, errT := types.Typ[types.Bool], types.Universe.Lookup("error").Type()
	path := func(v val) string {
		var s string
		for _, p := range toDoc(v) {
			switch p.kind {
			case pLit:
				s += p.s
			case pHole:
				s += "<" + p.v.key() + ">"
			default:
				s += "<?>"
			}
		}
		return s
	}
	e.external = func(e *absEngine, cx *ctx, x *ast.CallExpr, fn *vFunc, args []val, st *state, k func(*state, []val)) bool {
		switch fn.name {
		case "os.Getwd":
			k(st, []val{mkSym("pwd", types.Typ[types.String]), vNil{}})
			return true
		case "path/filepath.Join", "path.Join":
			var d doc
			ls, ok := args[len(args)-1].(*vList)
			if !ok || len(args) != 1 || !allOnes(ls.segs) {
				return false
			}
			for i, s := range ls.segs {
				if i > 0 {
					d = d.cat(lit("/"))
				}
				d = d.cat(toDoc(s.v))
			}
			k(st, []val{vStr{d}})
			return true
		case "os.Stat", "os.Lstat":
			k(st, []val{mkSym("stat:"+path(args[0]), nil), mkSym("staterr:"+path(args[0]), errT)})
			return true
		case "os.IsNotExist":
			if st.atoms["nil:"+args[0].key()] {
				k(st, []val{vBool(false)})
				return true
			}
			k(st, []val{mkSym("notexist", boolT, args[0])})
			return true
		case "(github.com/spf13/pflag.FlagSet).GetBool":
			if name, ok := constText(args[0]); ok {
				k(st, []val{mkSym("flag:"+name, boolT), mkSym("err:flag", errT)})
				return true
			}
		case "errors.Is":
			if len(args) == 2 && strings.Contains(args[1].key(), "ErrNotExist") {
				if st.atoms["nil:"+args[0].key()] {
					k(st, []val{vBool(false)})
					return true
				}
				k(st, []val{mkSym("notexist", boolT, args[0])})
				return true
			}
		case "github.com/AlecAivazis/survey/v2.Ask", "github.com/AlecAivazis/survey/v2.AskOne":
			asks++
			name := fmt.Sprintf("ask%d", asks)
			if ptr, ok := args[1].(vPtr); ok {
				if fn.name[len(fn.name)-3:] == "One" && namedIs(typeOfVal(args[0]), "github.com/AlecAivazis/survey/v2", "Confirm") || isConfirm(cx, x) {
					name = fmt.Sprintf("confirm%d", asks)
					e.store(st, ptr, mkSym(name, boolT))
				} else {
					e.store(st, ptr, mkSym(name, typeOfVal(e.load(st, ptr))))
				}
			}
			k(st, []val{mkSym("err:"+name, errT)})
			return true
		}
		if i, ok := fileWriters[fn.name]; ok && i < len(args) {
			writes++
			target := path(args[i])
			if fn.name != "os.WriteFile" {
				c.Bad("effect", r.name+"/"+lastName(fn.name), x.Pos(), "the set-up changes %s with %s", target, fn.name)
				k(st, nil)
				return true
			}
			c.Check(target == cfgName || target == "<pwd>/"+cfgName, "target", r.name, x.Pos(), "only %s of the working directory is written (%s)", cfgName, target)
			absent, force, confirmed := false, "", false
			var facts []string
			for a, v := range st.atoms {
				facts = append(facts, fmt.Sprint(a, "=", v))
			}
			sort.Strings(facts)
			for a, v := range st.atoms {
				switch {
				case v && strings.HasPrefix(a, "notexist("):
					if a == "notexist(staterr:"+cfgName+")" || a == "notexist(staterr:<pwd>/"+cfgName+")" {
						absent = true
					}
				case v && forceFlags[a]:
					force = a
				case v && strings.HasPrefix(a, "confirm"):
					if st.atoms["nil:err:"+a] {
						confirmed = true
					}
				}
			}
			if debugInit {
				fmt.Println("WRITE", target, facts)
			}
			c.Check(absent || force != "", "overwrite", r.name, x.Pos(), "the file is written only with --force or after it was found absent (facts on the path: %s)", strings.Join(facts, ", "))
			c.Check(confirmed, "confirm", r.name, x.Pos(), "the file is written only after the user confirmed (facts on the path: %s)", strings.Join(facts, ", "))
			k(st, []val{mkSym("err:write", errT)})
			return true
		}
		return false
	}
	st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
	args, _ := paramVals(e, p.TypesInfo, r.ft, "p:", st, map[string]types.Type{}, nil)
	paths := 0
	e.enter(&frame{pkg: p, name: r.name}, r.ft, nil, nil, r.body, args, st, func(*state, []val) { paths++ })
	for _, pr := range e.problems {
		c.Bad("interpretation", r.name, r.body.Pos(), "%s", pr)
	}
	c.Check(writes > 0, "writes", r.name, r.body.Pos(), "the write of the configuration is found (%d)", writes)
	c.Check(paths >= 3, "paths", r.name, r.body.Pos(), "%d paths end the command", paths)
}

// forceFlags names the facts "the user passed --force": variables bound to a
// flag of that name which is off by default, and which nothing else sets.
func (l *Loaded) forceFlags(c *Ctx) map[string]bool {
	out := map[string]bool{}
	name := func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.Global:
			return "global:" + x.Pkg.Pkg.Name() + "." + x.Name()
		case *ssa.FieldAddr:
			if g, ok := x.X.(*ssa.Global); ok && fieldVar(x) != nil {
				return "." + fieldVar(x).Name() + "(global:" + g.Pkg.Pkg.Name() + "." + g.Name() + ")"
			}
		}
		return ""
	}
	stored := map[string]token.Pos{}
	for _, fn := range l.funcsIn(cliPath) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if n := name(st.Addr); n != "" {
						stored[n] = st.Pos()
					}
				}
				call, ok := ins.(*ssa.Call)
				if !ok || !strings.HasPrefix(callName(call), "(github.com/spf13/pflag.FlagSet).Bool") {
					continue
				}
				a := call.Call.Args[1:]
				target := ""
				if len(a) > 0 && strings.Contains(callLabel(call), "Var") {
					target = name(a[0])
					a = a[1:]
				}
				if len(a) < 3 {
					continue
				}
				flag, ok := a[0].(*ssa.Const)
				if !ok || flag.Value == nil || flag.Value.Kind() != constant.String || constant.StringVal(flag.Value) != "force" {
					continue
				}
				def := a[1]
				if strings.HasSuffix(callLabel(call), "P") {
					def = a[2]
				}
				k, ok := def.(*ssa.Const)
				off := ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value)
				c.Check(off, "force-default", fname(fn), call.Pos(), "--force is off unless the user passes it")
				if off {
					if target == "" {
						target = "flag:force"
					}
					out[target] = true
				}
			}
		}
	}
	for n := range out {
		if p, ok := stored[n]; ok {
			c.Bad("force-set", n, p, "the variable of the --force flag is set by the program")
			delete(out, n)
		}
	}
	return out
}

var debugInit = os.Getenv("DBG") != ""

func isConfirm(cx *ctx, x *ast.CallExpr) bool {
	return len(x.Args) > 0 && namedIs(cx.typeOf(x.Args[0]), "github.com/AlecAivazis/survey/v2", "Confirm")
}
