package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P27", "ownership analysis (SSA, interprocedural over the helper package): every slice, map or pointer that may belong to the caller or to a model is tracked through phis, cells, struct fields and helper functions; no append without a copy, element store, sort, delete, copy or clear may reach it", checkP27)
	register("P29", "effect analysis (SSA) of the runtime library and the expanded helper templates: no package-level variable other than synchronised pools is written (directly or through a pointer, map or slice it holds) outside package initialisation, no shared helper object is written by its methods, and no goroutine is started", checkP29)
}

type own uint8

const (
	ownFresh own = 1 << iota
	ownCaller
	ownModel
)

func (o own) foreign() bool { return o&(ownCaller|ownModel) != 0 }

func (o own) String() string {
	switch {
	case o&ownCaller != 0:
		return "the caller"
	case o&ownModel != 0:
		return "the model"
	}
	return "the helper"
}

type ownership struct {
	l        *Loaded
	fns      []*ssa.Function
	memo     map[ssa.Value]own
	busy     map[ssa.Value]bool
	retMemo  map[*ssa.Function][]own
	retBusy  map[*ssa.Function]bool
	stores   map[*types.Var][]ssa.Value // struct field -> values stored
	sites    map[*ssa.Function][]ssa.CallInstruction
	escapes  map[*ssa.Function]bool // used as a value
	unsolved bool
}

func newOwnership(l *Loaded, fns []*ssa.Function) *ownership {
	o := &ownership{l: l, fns: fns, memo: map[ssa.Value]own{}, busy: map[ssa.Value]bool{}, retMemo: map[*ssa.Function][]own{}, retBusy: map[*ssa.Function]bool{},
		stores: map[*types.Var][]ssa.Value{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
						if f := fieldVar(fa); f != nil {
							o.stores[f.Origin()] = append(o.stores[f.Origin()], ins.Val)
						}
					}
				case ssa.CallInstruction:
					if c := callee(ins); c != nil {
						o.sites[c] = append(o.sites[c], ins)
					}
					for _, a := range ins.Common().Args {
						if f, ok := a.(*ssa.Function); ok {
							o.escapes[origin(f)] = true
						}
					}
				}
			}
		}
	}
	return o
}

func refType(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// of computes who may own the memory a slice, map or pointer refers to.
func (o *ownership) of(v ssa.Value) own {
	if m, ok := o.memo[v]; ok {
		return m
	}
	if o.busy[v] {
		return 0
	}
	o.busy[v] = true
	r := o.compute(v)
	delete(o.busy, v)
	if len(o.busy) == 0 {
		o.memo[v] = r
	}
	return r
}

func (o *ownership) compute(v ssa.Value) own {
	switch x := v.(type) {
	case *ssa.Const:
		return 0
	case *ssa.Parameter:
		return o.param(x)
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return o.of(b)
		}
		return ownCaller
	case *ssa.Phi:
		var r own
		for _, e := range x.Edges {
			r |= o.of(e)
		}
		return r
	case *ssa.ChangeType:
		return o.of(x.X)
	case *ssa.ChangeInterface:
		return o.of(x.X)
	case *ssa.MakeInterface:
		return o.of(x.X)
	case *ssa.Convert:
		return ownFresh
	case *ssa.MultiConvert:
		return o.of(x.X)
	case *ssa.TypeAssert:
		return o.of(x.X)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return ownFresh
	case *ssa.Alloc:
		return ownFresh
	case *ssa.Global:
		return ownFresh
	case *ssa.Slice:
		if x.Max != nil && x.High != nil && x.Max == x.High {
			return ownFresh // no spare capacity: append copies
		}
		return o.of(x.X)
	case *ssa.SliceToArrayPointer:
		return o.of(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return o.result(t, x.Index)
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return o.of(t.X)
			}
		case *ssa.Lookup:
			return o.of(t.X)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return o.of(rg.X)
			}
		}
		return ownFresh
	case *ssa.Call:
		return o.result(x, 0)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ownFresh
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return o.field(fieldVar(a), a.X)
		case *ssa.IndexAddr:
			return o.of(a.X)
		case *ssa.Global:
			return ownFresh
		case *ssa.Alloc, *ssa.FreeVar:
			var r own
			for _, s := range cellStores(a) {
				if s == nil {
					// only field-wise initialised, or out of sight
					if _, ok := a.(*ssa.FreeVar); ok && bindingOf(a.(*ssa.FreeVar)) == nil {
						r |= ownCaller
					}
					continue
				}
				r |= o.of(s)
			}
			return r
		default:
			return o.of(x.X)
		}
	case *ssa.Field:
		st, ok := x.X.Type().Underlying().(*types.Struct)
		if ok && x.Field < st.NumFields() {
			return o.field(st.Field(x.Field), x.X)
		}
		return o.of(x.X)
	case *ssa.FieldAddr:
		return o.field(fieldVar(x), x.X)
	case *ssa.IndexAddr:
		return o.of(x.X)
	case *ssa.Index:
		return o.of(x.X)
	case *ssa.Lookup:
		return o.of(x.X)
	case *ssa.BinOp:
		return ownFresh
	}
	return ownFresh
}

// field is the ownership of what a struct field refers to. Exported fields of
// exported types are filled by the caller.
func (o *ownership) field(f *types.Var, base ssa.Value) own {
	if f == nil {
		return ownFresh
	}
	f = f.Origin()
	if !refType(f.Type()) {
		if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
			if _, ok := f.Type().Underlying().(*types.Interface); !ok {
				return o.of(base)
			}
		}
	}
	if f.Exported() {
		return ownCaller
	}
	var r own
	for _, s := range o.stores[f] {
		r |= o.of(s)
	}
	return r
}

func (o *ownership) param(p *ssa.Parameter) own {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	of := origin(fn)
	exported := fn.Parent() == nil && ast.IsExported(fn.Name())
	if !exported && fn.Parent() == nil && !o.escapes[of] && len(o.sites[of]) > 0 {
		var r own
		for _, s := range o.sites[of] {
			args := s.Common().Args
			if idx < len(args) {
				r |= o.of(args[idx])
			}
		}
		return r
	}
	return ownCaller
}

var modelLists = map[string]bool{"Columns": true, "SQLColumns": true, "InsertColumns": true, "Values": true, "CompositeKey": true,
	"DuplicateKeys": true, "OnUpsertOmitColumns": true, "Addrs": true, "PK": true, "FindOneByPKStmt": true, "UpdateOneByPKStmt": true, "DeleteOneByPKStmt": true, "InsertOneStmt": true}

func (o *ownership) result(c *ssa.Call, idx int) own {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return o.of(c.Call.Args[0]) | ownFresh
		}
		return ownFresh
	}
	t := c.Call.Signature().Results()
	if idx < t.Len() && !refType(t.At(idx).Type()) {
		switch t.At(idx).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			return ownFresh
		}
	}
	if c.Call.IsInvoke() {
		if modelLists[c.Call.Method.Name()] {
			return ownModel
		}
		return ownFresh
	}
	if fn := callee(c); fn != nil {
		if fn.Blocks != nil && strings.HasPrefix(pkgOf(fn), modPath) {
			return o.returned(fn, c, idx)
		}
		switch pkgOf(fn) {
		case "slices", "maps":
			switch fn.Name() {
			case "Clone", "Collect", "Sorted", "Concat", "Repeat":
				return ownFresh
			case "Clip":
				return ownFresh
			}
			if len(c.Call.Args) > 0 {
				return o.of(c.Call.Args[0]) | ownFresh
			}
		}
		return ownFresh
	}
	// a call through a function value given by the caller
	if idx < t.Len() && refType(t.At(idx).Type()) {
		return ownCaller
	}
	return ownFresh
}

func (o *ownership) returned(fn *ssa.Function, c *ssa.Call, idx int) own {
	fn = origin(fn)
	if o.retBusy[fn] {
		return 0
	}
	o.retBusy[fn] = true
	defer delete(o.retBusy, fn)
	var r own
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ret, ok := ins.(*ssa.Return); ok && idx < len(ret.Results) {
				for _, leaf := range origins(ret.Results[idx]) {
					if p, ok := leaf.(*ssa.Parameter); ok && c != nil {
						for i, q := range fn.Params {
							if q == p && i < len(c.Call.Args) {
								r |= o.of(c.Call.Args[i])
							}
						}
						continue
					}
					r |= o.of(leaf)
				}
			}
		}
	}
	return r
}

var sliceMutators = map[string]bool{
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.DeleteFunc": true,
	"slices.Compact": true, "slices.CompactFunc": true, "slices.Insert": true, "slices.Replace": true, "slices.AppendSeq": true,
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Reverse": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true,
	"golang.org/x/exp/slices.Sort": true, "golang.org/x/exp/slices.SortFunc": true, "golang.org/x/exp/slices.Delete": true,
	"github.com/samber/lo.Reverse": true, "github.com/samber/lo.Shuffle": true,
}

func checkP27(c *Ctx) {
	fns := dbFuncs(c.L)
	o := newOwnership(c.L, fns)
	for _, fn := range fns {
		if isInit(fn) {
			continue
		}
		c.Analysed(dname(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case ssa.CallInstruction:
					cc := ins.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if len(cc.Args) == 2 && nilConst(cc.Args[1]) {
								continue
							}
							w := o.of(cc.Args[0])
							c.Check(!w.foreign(), "append", dname(fn), ins.Pos(), "append into a slice of %s", w)
						case "copy", "clear", "delete":
							w := o.of(cc.Args[0])
							c.Check(!w.foreign(), bi.Name(), dname(fn), ins.Pos(), "%s on memory of %s", bi.Name(), w)
						}
						continue
					}
					if f := callee(ins); f != nil && f.Pkg != nil || f != nil && f.Object() != nil {
						name := fullName(calleeObj(ins))
						if sliceMutators[name] && len(cc.Args) > 0 {
							w := o.of(cc.Args[0])
							c.Check(!w.foreign(), "mutator", dname(fn)+"/"+name, ins.Pos(), "%s on memory of %s", name, w)
						}
						// the address of an element of the caller's slice handed to another helper
						if strings.HasPrefix(pkgOf(f), virtPath) && f.Parent() == nil && ast.IsExported(f.Name()) {
							for _, a := range cc.Args {
								for _, leaf := range elementAddrs(a) {
									w := o.of(leaf.X)
									c.Check(!w.foreign(), "element", dname(fn)+"/"+f.Name(), ins.Pos(), "helper %s writes into an element of a slice of %s", f.Name(), w)
								}
							}
						}
					}
				case *ssa.Store:
					switch a := ins.Addr.(type) {
					case *ssa.IndexAddr:
						if _, isArr := deref(a.X.Type()).Underlying().(*types.Array); isArr {
							if _, ok := a.X.(*ssa.Alloc); ok {
								continue
							}
						}
						w := o.of(a.X)
						c.Check(!w.foreign(), "element-store", dname(fn), ins.Pos(), "store into an element of a slice of %s", w)
					case *ssa.FieldAddr:
						c.fieldStore(o, fn, a, ins.Pos())
					}
				case *ssa.MapUpdate:
					w := o.of(ins.Map)
					c.Check(!w.foreign(), "map-store", dname(fn), ins.Pos(), "store into a map of %s", w)
				}
			}
		}
	}
	c.Min("append", 4)
	c.Min("element-store", 1)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// elementAddrs lists the slice-element addresses a value may be.
func elementAddrs(v ssa.Value) []*ssa.IndexAddr {
	var out []*ssa.IndexAddr
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.IndexAddr:
			out = append(out, x)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.MultiConvert:
			visit(x.X)
		case *ssa.Convert:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		}
	}
	visit(v)
	return out
}

// fieldStore judges a write to a struct field through a pointer: only objects
// local to the call, statement writers and option structs may be written.
func (c *Ctx) fieldStore(o *ownership, fn *ssa.Function, a *ssa.FieldAddr, p token.Pos) {
	base := a.X
	for {
		if fa, ok := base.(*ssa.FieldAddr); ok {
			base = fa.X
			continue
		}
		break
	}
	if _, ok := base.(*ssa.Alloc); ok {
		return
	}
	n, ok := types.Unalias(deref(base.Type())).(*types.Named)
	if ok && !n.Obj().Exported() {
		return
	}
	if ok && stmtWriter(n) {
		return
	}
	local := true
	for _, leaf := range origins(base) {
		if _, ok := leaf.(*ssa.Alloc); !ok {
			local = false
		}
	}
	c.Check(local, "field-store", dname(fn), p, "field of an object that outlives the call is written")
}

// stmtWriter says the type is the statement writer: it has Var and Args.
func stmtWriter(n *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(n.Obj().Pkg(), "Var") != nil && ms.Lookup(n.Obj().Pkg(), "Args") != nil
}

// ---- P29 ----

func isSyncType(t types.Type) bool {
	t = types.Unalias(deref(t))
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// safeShared lists types whose methods may be called concurrently.
func safeShared(t types.Type) bool {
	if isSyncType(t) {
		return true
	}
	d := types.Unalias(deref(t))
	if n, ok := d.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() + "." + n.Obj().Name() {
			case "regexp.Regexp", "strings.Replacer", "time.Location", "encoding/base64.Encoding", "encoding/hex.Encoding", "reflect.rtype":
				return true
			}
		}
		if isErrorType(n) {
			return true
		}
	}
	switch d.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return false
	}
	return false
}

// rootGlobal finds the package-level variable an address or value belongs to.
func rootGlobal(v ssa.Value) *ssa.Global {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) *ssa.Global
	visit = func(v ssa.Value) *ssa.Global {
		if v == nil || seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return visit(x.X)
		case *ssa.IndexAddr:
			return visit(x.X)
		case *ssa.Field:
			return visit(x.X)
		case *ssa.Slice:
			return visit(x.X)
		case *ssa.ChangeType:
			return visit(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// only follow loads of references
				return visit(x.X)
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if g := visit(e); g != nil {
					return g
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return visit(x.Call.Args[0])
			}
		case *ssa.Lookup:
			return visit(x.X)
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				return visit(l.X)
			}
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				return visit(ta.X)
			}
		case *ssa.TypeAssert:
			return visit(x.X)
		}
		return nil
	}
	return visit(v)
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) && fn.Signature.Recv() == nil
}

func ourGlobal(g *ssa.Global) bool {
	return g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
}

func checkP29(c *Ctx) {
	fns := append(c.L.funcsIn(seqPath), dbFuncs(c.L)...)
	o := newOwnership(c.L, dbFuncs(c.L))
	globals := map[*ssa.Global]bool{}
	nWrites := 0
	for _, fn := range fns {
		c.Analysed(dname(fn))
		if isInit(fn) {
			continue
		}
		virt := strings.HasPrefix(pkgOf(fn), virtPath)
		bad := func(g *ssa.Global, p token.Pos, how string) {
			c.Bad("shared-state", dname(fn)+"/"+g.Name(), p, "package-level variable %s is %s outside initialisation: concurrent calls race", g.Name(), how)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Go:
					c.Bad("goroutine", dname(fn), ins.Pos(), "the runtime starts a goroutine")
				case *ssa.Store:
					nWrites++
					if g := rootGlobal(ins.Addr); g != nil {
						globals[g] = true
						bad(g, ins.Pos(), "written")
					}
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && virt {
						c.fieldStore(o, fn, fa, ins.Pos())
					}
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && pkgOf(fn) == seqPath && len(fn.Params) > 0 && fn.Signature.Recv() != nil {
						for _, leaf := range origins(fa.X) {
							c.Check(leaf != ssa.Value(fn.Params[0]), "receiver-store", dname(fn), ins.Pos(), "a clause or result object is not written by its own methods")
						}
					}
				case *ssa.MapUpdate:
					nWrites++
					if g := rootGlobal(ins.Map); g != nil {
						globals[g] = true
						bad(g, ins.Pos(), "written through")
					}
				case ssa.CallInstruction:
					cc := ins.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear", "delete":
							nWrites++
							if g := rootGlobal(cc.Args[0]); g != nil {
								globals[g] = true
								bad(g, ins.Pos(), "modified by "+bi.Name())
							}
						}
						continue
					}
					// methods on, or addresses of, package-level variables
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for _, a := range args {
						g := directGlobal(a)
						if g == nil || !ourGlobal(g) {
							continue
						}
						globals[g] = true
						t := g.Type().(*types.Pointer).Elem()
						if safeShared(t) || safeShared(a.Type()) {
							c.OK("shared-use", dname(fn)+"/"+g.Name(), "%s is safe for concurrent use", t)
							continue
						}
						switch t.Underlying().(type) {
						case *types.Slice, *types.Map, *types.Array, *types.Struct, *types.Interface:
							if a != ssa.Value(g) && !sliceMutators[callName(ins)] {
								// a value handed out for reading; writes through it are found above
								if _, isStruct := t.Underlying().(*types.Struct); isStruct {
									continue
								}
								continue
							}
						}
						c.Bad("shared-state", dname(fn)+"/"+g.Name(), ins.Pos(), "package-level variable %s of type %s is handed to %s without synchronisation", g.Name(), t, callLabel(ins))
					}
				}
			}
		}
		c.OK("no-shared-write", dname(fn), "no package-level variable is written")
	}
	c.Min("no-shared-write", 40)
	c.Min("shared-use", 1)
	c.Check(nWrites > 50, "writes-found", "runtime", token.NoPos, "%d writes examined", nWrites)
}

// directGlobal is the package-level variable whose address or content v is.
func directGlobal(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return g
			}
		}
	case *ssa.FieldAddr:
		return directGlobal(x.X)
	}
	return nil
}
