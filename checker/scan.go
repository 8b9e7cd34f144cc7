package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is the abstract interpreter for "Scan(any) error" methods. The
// abstract state at a program point is a set of tuples
//
//	(dynamic kind of the driver value, what was stored in the destination, known nil-ness of error values)
//
// propagated over the SSA control-flow graph, with in-repository callees
// analysed in the caller's context. Nothing is executed and no path is handed
// to a solver: it is a finite forward dataflow problem.

// driver value kinds a database/sql driver may hand to Scan.
var driverKinds = []string{"nil", "int64", "float64", "bool", "[]byte", "string", "time.Time", "other"}

func kindOfType(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int64, types.Float64, types.Bool, types.String:
			return u.Name()
		}
	case *types.Slice:
		if b, ok := u.Elem().(*types.Basic); ok && b.Kind() == types.Byte {
			return "[]byte"
		}
	case *types.Named:
		if u.Obj().Pkg() != nil && u.Obj().Pkg().Path() == "time" && u.Obj().Name() == "Time" {
			return "time.Time"
		}
	}
	return ""
}

const (
	stNone = "none" // destination untouched
	stZero = "zero" // destination set to its zero value
	stVal  = "value"
	stDel  = "delegated" // a decoder of the destination's own type was called
)

type tuple struct {
	kind   string
	stored string
	errs   string // "name=nil;name=err" sorted
}

func (t tuple) err(name string) string {
	for _, p := range strings.Split(t.errs, ";") {
		if k, v, ok := strings.Cut(p, "="); ok && k == name {
			return v
		}
	}
	return ""
}

func (t tuple) withErr(name, val string) tuple {
	var ps []string
	for _, p := range strings.Split(t.errs, ";") {
		if k, _, ok := strings.Cut(p, "="); ok && k != name {
			ps = append(ps, p)
		}
	}
	ps = append(ps, name+"="+val)
	sort.Strings(ps)
	t.errs = strings.Join(ps, ";")
	return t
}

// forget drops what is known about a value that is computed anew.
func (t tuple) forget(name string) tuple {
	if t.err(name) == "" {
		return t
	}
	var ps []string
	for _, p := range strings.Split(t.errs, ";") {
		if k, _, ok := strings.Cut(p, "="); ok && k != name {
			ps = append(ps, p)
		}
	}
	t.errs = strings.Join(ps, ";")
	return t
}

type outcome struct {
	kind, stored, err string // err: "nil" | "err" | "?"
	pos               token.Pos
	retVals           []string
}

type roles struct {
	src   map[ssa.Value]bool // the driver value itself (any)
	tgt   map[ssa.Value]int  // destination-derived; level 0 = the scanner struct itself, 1 = the destination
	taint map[ssa.Value]bool // shares memory with the driver value
	hold  map[*ssa.Alloc]int // local variables holding a destination pointer: level+1
}

func newRoles() roles {
	return roles{src: map[ssa.Value]bool{}, tgt: map[ssa.Value]int{}, taint: map[ssa.Value]bool{}, hold: map[*ssa.Alloc]int{}}
}

type scanAnalysis struct {
	l         *Loaded
	stack     []*ssa.Function
	funcs     map[string]bool
	alias     map[string]token.Pos // aliasing stores found: construct -> pos
	unsafeW   map[string]token.Pos
	undecided []string
	selfSt    map[string]token.Pos // stores that replace the scanner's own field
	panics    map[string]token.Pos // driver kinds for which a panic is reached
	options   map[int]bool         // bool fields of the scanner assumed false (the default)
}

func newScanAnalysis(l *Loaded) *scanAnalysis {
	return &scanAnalysis{l: l, funcs: map[string]bool{}, alias: map[string]token.Pos{}, selfSt: map[string]token.Pos{}, panics: map[string]token.Pos{}, options: map[int]bool{}}
}

// scanMethods finds every Scan(any) error method of the runtime packages.
func scanMethods(l *Loaded) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range l.funcsIn(seqPath) {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Name() != "Scan" {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
			continue
		}
		if i, ok := s.Params().At(0).Type().Underlying().(*types.Interface); !ok || i.NumMethods() != 0 {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func (a *scanAnalysis) run(fn *ssa.Function) []outcome {
	r := newRoles()
	recv := fn.Params[0]
	lvl := 0
	t := recv.Type()
	_, isPtr := t.Underlying().(*types.Pointer)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Struct); !ok && isPtr {
		lvl = 1 // the receiver is itself the destination (slice types)
	}
	r.tgt[recv] = lvl
	r.src[fn.Params[1]] = true
	var init []tuple
	for _, k := range driverKinds {
		init = append(init, tuple{kind: k, stored: stNone})
	}
	return a.fn(fn, r, init)
}

// derive extends roles over fn's values to a fixpoint.
func (a *scanAnalysis) derive(fn *ssa.Function, r roles) {
	for changed := true; changed; {
		changed = false
		setT := func(v ssa.Value, lvl int) {
			if old, ok := r.tgt[v]; !ok || lvl > old {
				r.tgt[v] = lvl
				changed = true
			}
		}
		set := func(m map[ssa.Value]bool, v ssa.Value) {
			if !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					// memory that receives shared memory shares it, whatever it was made by
					if r.taint[st.Val] && carriesRef(st.Val.Type()) {
						for _, c := range containers(st.Addr) {
							set(r.taint, c)
						}
					}
					// a local variable holding shared memory, or the driver value
					if al, ok := baseAlloc(st.Addr); ok {
						if r.taint[st.Val] && carriesRef(st.Val.Type()) {
							set(r.taint, al)
						}
						if r.src[st.Val] && st.Addr == ssa.Value(al) {
							set(r.src, al)
						}
						if lvl, ok := r.tgt[st.Val]; ok && st.Addr == ssa.Value(al) {
							if _, isS := st.Val.Type().Underlying().(*types.Struct); isS && lvl == 0 {
								setT(al, 0) // a copy of the scanner struct
							} else if couldPoint(st.Val.Type()) && r.hold[al] < lvl+1 {
								r.hold[al] = lvl + 1 // a local variable holding the destination pointer
								changed = true
							}
						}
					}
					continue
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if r.taint[mu.Value] && carriesRef(mu.Value.Type()) || r.taint[mu.Key] && carriesRef(mu.Key.Type()) {
						set(r.taint, mu.Map)
					}
					continue
				}
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				switch x := in.(type) {
				case *ssa.Lookup:
					if r.taint[x.X] && carriesRef(v.Type()) {
						set(r.taint, v)
					}
				case *ssa.FieldAddr:
					if lvl, ok := r.tgt[x.X]; ok {
						setT(v, lvl)
					}
					if r.taint[x.X] {
						set(r.taint, v)
					}
				case *ssa.Field:
					if _, ok := r.tgt[x.X]; ok {
						setT(v, 1)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if lvl, ok := r.tgt[x.X]; ok {
							if lvl == 0 {
								// loading a field of the scanner gives the destination; loading the whole struct stays at 0
								if _, isS := v.Type().Underlying().(*types.Struct); !isS {
									lvl = 1
								}
							}
							if couldPoint(v.Type()) {
								setT(v, lvl)
							}
						}
						if al, ok := x.X.(*ssa.Alloc); ok && r.hold[al] > 0 && couldPoint(v.Type()) {
							setT(v, r.hold[al]-1)
						}
						if r.src[x.X] {
							set(r.src, v)
						}
						if r.taint[x.X] && carriesRef(v.Type()) {
							set(r.taint, v)
						}
					}
				case *ssa.ChangeType:
					a.flow(r, x.X, v, setT, set)
				case *ssa.Convert:
					a.flowConv(r, x.X, v, setT, set)
				case *ssa.MultiConvert:
					a.flowConv(r, x.X, v, setT, set)
				case *ssa.ChangeInterface:
					a.flow(r, x.X, v, setT, set)
				case *ssa.MakeInterface:
					a.flow(r, x.X, v, setT, set)
				case *ssa.SliceToArrayPointer:
					a.flow(r, x.X, v, setT, set)
				case *ssa.Slice:
					a.flow(r, x.X, v, setT, set)
				case *ssa.IndexAddr:
					a.flow(r, x.X, v, setT, set)
				case *ssa.Index:
					if r.taint[x.X] && carriesRef(v.Type()) {
						set(r.taint, v)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						a.flow(r, e, v, setT, set)
					}
				case *ssa.Extract:
					a.flowExtract(r, x, setT, set)
				case *ssa.TypeAssert:
					if !x.CommaOk {
						a.flowAssert(r, x, v, setT, set)
					}
				case *ssa.Range:
					if r.taint[x.X] {
						set(r.taint, v)
					}
				case *ssa.Call:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if r.taint[cc.Args[0]] {
								set(r.taint, v)
							}
							if _, ok := r.tgt[cc.Args[0]]; ok {
								setT(v, 1)
							}
							// append copies elements: memory is shared only if the elements themselves carry references
							if len(cc.Args) > 1 && r.taint[cc.Args[1]] {
								if s, ok := coreSlice(v.Type()); ok && carriesRef(s.Elem()) {
									set(r.taint, v)
								}
							}
						case "String", "Slice", "SliceData", "StringData", "Add":
							if len(cc.Args) > 0 && r.taint[cc.Args[0]] {
								set(r.taint, v)
							}
							if bi.Name() == "StringData" {
								// bytes reached through a string must never become mutable destination memory
								set(r.taint, v)
							}
						}
						continue
					}
					if cal := callee(x); cal != nil && a.inRepo(cal) && cal.Blocks != nil {
						if a.returnsTaint(cal, cc.Args, r) {
							set(r.taint, v)
						}
						continue
					}
					if aliasingStd(callName(x)) && len(cc.Args) > 0 && r.taint[cc.Args[0]] {
						set(r.taint, v)
					}
				}
			}
		}
	}
}

func (a *scanAnalysis) inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(pkgOf(fn), modPath)
}

func couldPoint(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return true
}

// carriesRef: a value of this type can share mutable memory.
func carriesRef(t types.Type) bool {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		for _, u := range typeSet(tp) {
			if carriesRef(u) {
				return true
			}
		}
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesRef(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return carriesRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesRef(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func typeSet(t types.Type) []types.Type {
	tp, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return []types.Type{t}
	}
	var out []types.Type
	var walk func(i *types.Interface)
	walk = func(i *types.Interface) {
		for k := 0; k < i.NumEmbeddeds(); k++ {
			switch e := types.Unalias(i.EmbeddedType(k)).(type) {
			case *types.Union:
				for j := 0; j < e.Len(); j++ {
					if ii, ok := e.Term(j).Type().Underlying().(*types.Interface); ok {
						walk(ii)
					} else {
						out = append(out, e.Term(j).Type())
					}
				}
			default:
				if ii, ok := e.Underlying().(*types.Interface); ok {
					walk(ii)
				} else {
					out = append(out, e)
				}
			}
		}
	}
	if i, ok := tp.Constraint().Underlying().(*types.Interface); ok {
		walk(i)
	}
	return out
}

func coreSlice(t types.Type) (*types.Slice, bool) {
	for _, u := range typeSet(t) {
		if s, ok := u.Underlying().(*types.Slice); ok {
			return s, true
		}
	}
	return nil, false
}

func aliasingStd(name string) bool {
	switch name {
	case "slices.Clip", "slices.Grow", "slices.Compact", "slices.Insert", "slices.Delete":
		return true
	case "bytes.Clone", "bytes.Join", "bytes.Repeat", "bytes.ReplaceAll", "bytes.Replace", "bytes.ToLower", "bytes.ToUpper", "bytes.Map", "bytes.Title", "bytes.ToValidUTF8":
		return false
	}
	return strings.HasPrefix(name, "bytes.")
}

func (a *scanAnalysis) flow(r roles, from, to ssa.Value, setT func(ssa.Value, int), set func(map[ssa.Value]bool, ssa.Value)) {
	if lvl, ok := r.tgt[from]; ok {
		setT(to, lvl)
	}
	if r.taint[from] && carriesRef(to.Type()) {
		set(r.taint, to)
	}
	if r.src[from] {
		set(r.src, to)
	}
}

// flowConv: conversions that copy (bytes to string and back) end the sharing.
func (a *scanAnalysis) flowConv(r roles, from, to ssa.Value, setT func(ssa.Value, int), set func(map[ssa.Value]bool, ssa.Value)) {
	if lvl, ok := r.tgt[from]; ok && couldPoint(to.Type()) {
		setT(to, lvl)
	}
	if r.taint[from] {
		for _, f := range typeSet(from.Type()) {
			for _, t := range typeSet(to.Type()) {
				_, fs := f.Underlying().(*types.Slice)
				_, ts := t.Underlying().(*types.Slice)
				fb, _ := f.Underlying().(*types.Basic)
				tb, _ := t.Underlying().(*types.Basic)
				fstr := fb != nil && fb.Info()&types.IsString != 0
				tstr := tb != nil && tb.Info()&types.IsString != 0
				switch {
				case fs && tstr, fstr && ts:
					continue // copies
				}
				if carriesRef(t) {
					set(r.taint, to)
				}
			}
		}
	}
}

func (a *scanAnalysis) flowExtract(r roles, x *ssa.Extract, setT func(ssa.Value, int), set func(map[ssa.Value]bool, ssa.Value)) {
	switch t := x.Tuple.(type) {
	case *ssa.TypeAssert:
		if x.Index == 0 {
			a.flowAssert(r, t, x, setT, set)
		}
	case *ssa.Next:
		if r.taint[t.Iter] && carriesRef(x.Type()) {
			set(r.taint, x)
		}
	case *ssa.Call:
		if r.taint[t] && carriesRef(x.Type()) && !isErrorType(x.Type()) {
			set(r.taint, x)
		}
	}
}

func (a *scanAnalysis) flowAssert(r roles, ta *ssa.TypeAssert, res ssa.Value, setT func(ssa.Value, int), set func(map[ssa.Value]bool, ssa.Value)) {
	if lvl, ok := r.tgt[ta.X]; ok {
		setT(res, lvl)
	}
	if r.src[ta.X] {
		if types.IsInterface(ta.AssertedType) {
			if _, isTP := types.Unalias(ta.AssertedType).(*types.TypeParam); !isTP {
				set(r.src, res)
			}
		}
		if sl, ok := ta.AssertedType.Underlying().(*types.Slice); ok {
			_ = sl
			set(r.taint, res) // driver-owned bytes
		}
	}
	if r.taint[ta.X] && carriesRef(res.Type()) {
		set(r.taint, res)
	}
}

func baseAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			switch y := x.X.(type) {
			case *ssa.MakeSlice:
				_ = y
				return nil, false
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil, false
		}
	}
}

// containers finds the slices, maps and variables an address lies in.
func containers(addr ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Slice:
			out = append(out, x)
			walk(x.X)
		case *ssa.ChangeType:
			out = append(out, x)
			walk(x.X)
		case *ssa.Convert:
			out = append(out, x)
			walk(x.X)
		case *ssa.Phi:
			out = append(out, x)
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			out = append(out, x)
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				walk(x.Common().Args[0])
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				out = append(out, x)
				walk(x.X)
			}
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
			out = append(out, v)
		}
	}
	walk(addr)
	return out
}

// returnsTaint: does the callee return memory shared with its tainted arguments?
func (a *scanAnalysis) returnsTaint(fn *ssa.Function, args []ssa.Value, r roles) bool {
	if len(a.stack) > 8 {
		return true
	}
	sub := newRoles()
	any := false
	for i, p := range fn.Params {
		if i < len(args) {
			if r.taint[args[i]] {
				sub.taint[p] = true
				any = true
			}
			if r.src[args[i]] {
				sub.src[p] = true
				any = true
			}
		}
	}
	if !any {
		return false
	}
	for _, f := range a.stack {
		if f == fn {
			return false
		}
	}
	a.stack = append(a.stack, fn)
	a.derive(fn, sub)
	a.stack = a.stack[:len(a.stack)-1]
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if sub.taint[v] && !isErrorType(v.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func isZeroValue(v ssa.Value) bool { return isZeroVal(v, 0) }

// emptyNotNil: converting "" to a byte slice gives an empty, non-nil slice.
func emptyNotNil(from ssa.Value, to types.Type) bool {
	if b, ok := from.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	for _, t := range typeSet(to) {
		if _, ok := t.Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

func isZeroVal(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return true
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return !constant.BoolVal(x.Value)
		case constant.String:
			return constant.StringVal(x.Value) == ""
		case constant.Int, constant.Float, constant.Complex:
			return constant.Sign(x.Value) == 0
		}
	case *ssa.Convert:
		return isZeroVal(x.X, depth+1) && !emptyNotNil(x.X, x.Type())
	case *ssa.MultiConvert:
		return isZeroVal(x.X, depth+1) && !emptyNotNil(x.X, x.Type())
	case *ssa.ChangeType:
		return isZeroVal(x.X, depth+1)
	case *ssa.MakeInterface:
		return false
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isZeroVal(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return allocNeverWritten(al, depth)
		}
	case *ssa.Call:
		if cal := callee(x); cal != nil && cal.Blocks != nil && depth < 4 {
			ok := false
			for _, b := range cal.Blocks {
				if ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
					if len(ret.Results) != 1 || !isZeroVal(ret.Results[0], depth+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
	}
	return false
}

func allocNeverWritten(al *ssa.Alloc, depth int) bool {
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr != ssa.Value(al) || !isZeroVal(y.Val, depth+1) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (a *scanAnalysis) note(m map[string]token.Pos, k string, p token.Pos) {
	if _, ok := m[k]; !ok {
		m[k] = p
	}
}

// errName names an error-typed SSA value inside one function activation.
func errName(depth int, v ssa.Value) string { return fmt.Sprintf("%d.%s", depth, v.Name()) }

// fn interprets one function from the given entry tuples.
func (a *scanAnalysis) fn(fn *ssa.Function, r roles, entry []tuple) []outcome {
	// a function which calls itself again for another kind of value is followed once more
	again := 0
	for _, f := range a.stack {
		if f == fn {
			again++
		}
	}
	if again > 1 {
		a.undecided = append(a.undecided, "recursion through "+fname(fn))
		return nil
	}
	a.funcs[fname(fn)] = true
	a.derive(fn, r)
	a.stack = append(a.stack, fn)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	depth := len(a.stack)
	in := map[*ssa.BasicBlock]map[tuple]bool{}
	add := func(b *ssa.BasicBlock, t tuple) bool {
		if in[b] == nil {
			in[b] = map[tuple]bool{}
		}
		if in[b][t] {
			return false
		}
		in[b][t] = true
		return true
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for _, t := range entry {
		add(fn.Blocks[0], t)
	}
	outs := map[string]outcome{}
	done := map[*ssa.BasicBlock]map[tuple]bool{}
	phiTag := func(from, to *ssa.BasicBlock, t tuple) tuple {
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				idx = i
			}
		}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isErrorType(phi.Type()) && idx >= 0 {
				if c := a.errClass(phi.Edges[idx], t, depth); c != "?" {
					t = t.withErr(errName(depth, phi), c)
				} else {
					t = t.forget(errName(depth, phi))
				}
			} else if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && idx >= 0 {
				if c, ok := phi.Edges[idx].(*ssa.Const); ok {
					t = t.withErr(errName(depth, phi), fmt.Sprint(constant.BoolVal(c.Value)))
				} else {
					t = t.forget(errName(depth, phi))
				}
			} else if types.IsInterface(phi.Type()) && idx >= 0 {
				if d := dynType(phi.Edges[idx], t, depth); d != "" {
					t = t.withErr(errName(depth, phi), d)
				} else {
					t = t.forget(errName(depth, phi))
				}
			}
		}
		return t
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if done[b] == nil {
			done[b] = map[tuple]bool{}
		}
		var cur []tuple
		for t := range in[b] {
			if !done[b][t] {
				done[b][t] = true
				cur = append(cur, t)
			}
		}
		if len(cur) == 0 {
			continue
		}
		sort.Slice(cur, func(i, j int) bool { return fmt.Sprint(cur[i]) < fmt.Sprint(cur[j]) })
		for _, ins := range b.Instrs {
			cur = a.step(fn, ins, r, cur, depth)
		}
		push := func(to *ssa.BasicBlock, t tuple) {
			if add(to, phiTag(b, to, t)) {
				work = append(work, to)
			}
		}
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			for _, t := range cur {
				e := "nil"
				if n := len(last.Results); n > 0 && isErrorType(last.Results[n-1].Type()) {
					e = a.errClass(last.Results[n-1], t, depth)
				}
				classes := []string{e}
				if e == "?" {
					classes = []string{"nil", "err"}
				}
				for _, c := range classes {
					o := outcome{kind: t.kind, stored: t.stored, err: c, pos: last.Pos()}
					outs[fmt.Sprint(o)] = o
				}
			}
		case *ssa.Panic:
			for _, t := range cur {
				a.note(a.panics, t.kind, last.Pos())
			}
		case *ssa.Jump:
			for _, t := range cur {
				push(b.Succs[0], t)
			}
		case *ssa.If:
			cover := a.coveringLoop(b, last, r)
			for _, t := range cur {
				for i, s := range b.Succs {
					for _, t2 := range a.assume(last.Cond, i == 0, r, t, depth, 0) {
						if i == 1 && cover != "" && t2.stored == stNone {
							t2.stored = cover // every element of the destination was written
						}
						push(s, t2)
					}
				}
			}
		}
	}
	var res []outcome
	for _, o := range outs {
		res = append(res, o)
	}
	sort.Slice(res, func(i, j int) bool { return fmt.Sprint(res[i]) < fmt.Sprint(res[j]) })
	return res
}

// coveringLoop: the block heads a loop that visits every element of the
// destination and stores to it; leaving the loop means the destination was
// written (an empty destination has nothing to write).
func (a *scanAnalysis) coveringLoop(b *ssa.BasicBlock, iff *ssa.If, r roles) string {
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return ""
	}
	bound := false
	switch y := bo.Y.(type) {
	case *ssa.Call:
		if bi, ok := y.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			_, bound = r.tgt[y.Common().Args[0]]
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			lvl, isT := r.tgt[fa.X]
			bound = isT && lvl == 0
		}
	}
	if !bound {
		return ""
	}
	body, done := b.Succs[0], b.Succs[1]
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{body}
	cls := ""
	back := false
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if seen[c] || c == done {
			continue
		}
		seen[c] = true
		for _, s := range c.Succs {
			if s == body {
				back = true
			}
		}
		for _, in := range c.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, isIdx := st.Addr.(*ssa.IndexAddr); !isIdx {
				continue
			}
			if lvl, ok := r.tgt[st.Addr]; ok && lvl > 0 {
				cls = stVal
				if isZeroValue(st.Val) {
					cls = stZero
				}
			}
		}
		work = append(work, c.Succs...)
	}
	if !back {
		return ""
	}
	return cls
}

// errClass classifies an error value: nil, err (certainly non-nil) or ?.
func (a *scanAnalysis) errClass(v ssa.Value, t tuple, depth int) string {
	if tag := t.err(errName(depth, v)); tag == "nil" || tag == "err" {
		return tag
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "nil"
	case *ssa.MakeInterface:
		return "err"
	case *ssa.Call:
		switch callName(x) {
		case "fmt.Errorf", "errors.New":
			return "err"
		}
		if cal := callee(x); cal != nil && cal.Blocks != nil && a.inRepo(cal) {
			return retErrClass(cal, 0)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			_ = g
			return "err" // package-level sentinel
		}
	case *ssa.Phi:
		first := ""
		for _, e := range x.Edges {
			if e == v {
				return "?"
			}
			c := "?"
			if _, isPhi := e.(*ssa.Phi); !isPhi {
				c = a.errClass(e, t, depth)
			}
			if first != "" && c != first {
				return "?"
			}
			first = c
		}
		return first
	case *ssa.ChangeInterface:
		return a.errClass(x.X, t, depth)
	}
	return "?"
}

// retErrClass: does an in-repository error constructor always return non-nil?
func retErrClass(fn *ssa.Function, depth int) string {
	cls := ""
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		c := "?"
		switch x := ret.Results[0].(type) {
		case *ssa.Const:
			c = "nil"
		case *ssa.MakeInterface:
			c = "err"
		case *ssa.Call:
			switch callName(x) {
			case "fmt.Errorf", "errors.New":
				c = "err"
			default:
				if cal := callee(x); cal != nil && cal.Blocks != nil && depth < 4 {
					c = retErrClass(cal, depth+1)
				}
			}
		}
		if cls != "" && cls != c {
			return "?"
		}
		cls = c
	}
	if cls == "" {
		return "?"
	}
	return cls
}

// assume refines a tuple by one branch condition.
func (a *scanAnalysis) assume(cond ssa.Value, want bool, r roles, t tuple, depth, nest int) []tuple {
	if nest > 5 {
		return []tuple{t}
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.assume(x.X, !want, r, t, depth, nest+1)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if lvl, ok := r.tgt[fa.X]; ok && lvl == 0 {
				a.options[fa.Field] = true
				if want {
					return nil
				}
			}
		}
	case *ssa.Const:
		if constant.BoolVal(x.Value) != want {
			return nil
		}
	case *ssa.Phi:
		if tag := t.err(errName(depth, x)); tag == "true" || tag == "false" {
			if (tag == "true") != want {
				return nil
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && !types.IsInterface(ta.AssertedType) {
			if d := dynType(ta.X, t, depth); d != "" {
				if (d == "type:"+canonType(ta.AssertedType)) != want {
					return nil
				}
				return []tuple{t}
			}
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && r.src[ta.X] {
			return a.assumeType(t, ta.AssertedType, want)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			return assumeForm(t, ta, want)
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return []tuple{t}
		}
		eq := (x.Op == token.EQL) == want
		l, rr := x.X, x.Y
		if c, ok := l.(*ssa.Const); ok && c.Value == nil {
			l, rr = rr, l
		}
		if c, ok := rr.(*ssa.Const); ok && c.Value == nil {
			if d := dynType(l, t, depth); d != "" {
				if eq != (d == "type:nil") {
					return nil
				}
				return []tuple{t}
			}
			if r.src[l] {
				if eq != (t.kind == "nil") {
					return nil
				}
				return []tuple{t}
			}
			if isErrorType(l.Type()) {
				cls := a.errClass(l, t, depth)
				w := "err"
				if eq {
					w = "nil"
				}
				if cls != "?" && cls != w {
					return nil
				}
				return []tuple{t.withErr(errName(depth, l), w)}
			}
		}
	}
	return []tuple{t}
}

// dynType: the dynamic type of an interface value that was made on this path
// from a concrete one ("" when it came from elsewhere).
func dynType(v ssa.Value, t tuple, depth int) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if _, ok := types.Unalias(x.X.Type()).(*types.TypeParam); !ok && !isErrorType(x.Type()) {
			return "type:" + canonType(x.X.Type())
		}
	case *ssa.Phi:
		if d := t.err(errName(depth, x)); strings.HasPrefix(d, "type:") {
			return d
		}
	}
	return ""
}

// canonType spells a type with single-term type parameters replaced by their
// term, so that "*Ptr" with Ptr ~ *T is the same as "**T".
func canonType(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + canonType(u.Elem())
	case *types.TypeParam:
		if ts := typeSet(u); len(ts) == 1 {
			return canonType(ts[0])
		}
		return u.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// assumeForm: a type switch over the destination pointer. Its type parameter
// admits finitely many forms; a path that excludes them all does not exist.
func assumeForm(t tuple, ta *ssa.TypeAssert, want bool) []tuple {
	mi, ok := ta.X.(*ssa.MakeInterface)
	if !ok {
		return []tuple{t}
	}
	tp, ok := types.Unalias(mi.X.Type()).(*types.TypeParam)
	if !ok {
		return []tuple{t}
	}
	forms := map[string]bool{}
	for _, u := range typeSet(tp) {
		forms[canonType(u)] = true
	}
	as := canonType(ta.AssertedType)
	if _, isTP := types.Unalias(ta.AssertedType).(*types.TypeParam); types.IsInterface(ta.AssertedType) && !isTP || len(forms) == 0 {
		return []tuple{t}
	}
	key := "form " + tp.Obj().Name() + " " + as
	if prev := t.err(key); prev != "" && (prev == "yes") != want {
		return nil
	}
	n := t
	if want {
		if !forms[as] {
			return nil
		}
		for f := range forms {
			v := "no"
			if f == as {
				v = "yes"
			}
			k := "form " + tp.Obj().Name() + " " + f
			if p := t.err(k); p != "" && p != v {
				return nil
			}
			n = n.withErr(k, v)
		}
		return []tuple{n}
	}
	n = n.withErr(key, "no")
	for f := range forms {
		if n.err("form "+tp.Obj().Name()+" "+f) != "no" {
			return []tuple{n}
		}
	}
	return nil
}

func (a *scanAnalysis) assumeType(t tuple, asserted types.Type, want bool) []tuple {
	k := kindOfType(asserted)
	if k == "" {
		if types.IsInterface(asserted) {
			// e.g. any(v).(fmt.Stringer): may or may not hold
			if t.kind == "nil" && want {
				return nil
			}
			return []tuple{t}
		}
		// a concrete type outside the driver kinds: only "other" values match
		if t.kind != "other" && !strings.HasPrefix(t.kind, "other:") {
			if want {
				return nil
			}
			return []tuple{t}
		}
		if want {
			t.kind = "other:" + types.TypeString(asserted, nil)
		}
		return []tuple{t}
	}
	if (t.kind == k) != want {
		return nil
	}
	return []tuple{t}
}

// step applies one instruction's effect to every tuple.
func (a *scanAnalysis) step(fn *ssa.Function, ins ssa.Instruction, r roles, cur []tuple, depth int) []tuple {
	mark := func(val ssa.Value, addrLvl int, pos token.Pos) {
		st := stVal
		if isZeroValue(val) {
			st = stZero
		}
		for i := range cur {
			cur[i].stored = st
		}
	}
	switch x := ins.(type) {
	case *ssa.Store:
		lvl, ok := r.tgt[x.Addr]
		if !ok {
			return cur
		}
		if _, spill := r.tgt[x.Val]; spill && lvl == 0 {
			return cur
		}
		if lvl == 0 {
			a.note(a.selfSt, fname(fn), x.Pos())
			return cur
		}
		mark(x.Val, lvl, x.Pos())
		if r.taint[x.Val] {
			for _, t := range cur {
				a.note(a.alias, fname(fn)+" ["+t.kind+"]", x.Pos())
			}
		}
	case *ssa.MapUpdate:
		if _, ok := r.tgt[x.Map]; ok {
			mark(x.Value, 1, x.Pos())
		}
	case *ssa.Call:
		// an earlier result of this call (in a loop) says nothing about this one
		if ev := errResult(x); ev != nil {
			cur = forgetAll(cur, errName(depth, ev))
		}
		return a.call(fn, x, r, cur, depth)
	case *ssa.UnOp, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.ChangeInterface:
		if v := ins.(ssa.Value); isErrorType(v.Type()) {
			cur = forgetAll(cur, errName(depth, v))
		}
	}
	return cur
}

func forgetAll(cur []tuple, name string) []tuple {
	out := make([]tuple, len(cur))
	for i, t := range cur {
		out[i] = t.forget(name)
	}
	return out
}

func (a *scanAnalysis) call(fn *ssa.Function, x *ssa.Call, r roles, cur []tuple, depth int) []tuple {
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			if lvl, ok := r.tgt[cc.Args[0]]; ok && lvl > 0 {
				for i := range cur {
					cur[i].stored = stVal
				}
				if s, ok := coreSlice(cc.Args[0].Type()); ok && r.taint[cc.Args[1]] && carriesRef(s.Elem()) {
					a.note(a.alias, fname(fn)+" [copy]", x.Pos())
				}
			}
		case "clear":
			if lvl, ok := r.tgt[cc.Args[0]]; ok && lvl > 0 {
				for i := range cur {
					if cur[i].stored == stNone {
						cur[i].stored = stZero
					}
				}
			}
		}
		return cur
	}
	// which arguments are the destination / driver value / shared memory?
	args := cc.Args
	tgtArg := false
	recv := []ssa.Value{}
	if cc.IsInvoke() {
		recv = append(recv, cc.Value)
	}
	for _, v := range append(recv, args...) {
		if lvl, ok := r.tgt[v]; ok && lvl > 0 && couldPoint(v.Type()) {
			tgtArg = true
		}
		if lvl, ok := r.tgt[v]; ok && lvl == 0 {
			tgtArg = true
		}
	}
	cal := callee(x)
	if cal != nil && a.inRepo(cal) && cal.Blocks != nil {
		srcArg := false
		for _, v := range args {
			if r.src[v] {
				srcArg = true
			}
		}
		if tgtArg || srcArg {
			sub := newRoles()
			boxed := "" // the callee is handed a value of this kind, whatever the driver gave
			for i, p := range cal.Params {
				if i >= len(args) {
					break
				}
				if mi, ok := args[i].(*ssa.MakeInterface); ok && !r.src[args[i]] && tgtArg {
					if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
						if k := kindOfType(mi.X.Type()); k != "" {
							boxed = k
							sub.src[p] = true
						}
					}
				}
				if r.src[args[i]] {
					sub.src[p] = true
				}
				if lvl, ok := r.tgt[args[i]]; ok {
					sub.tgt[p] = lvl
				}
				if r.taint[args[i]] {
					sub.taint[p] = true
				}
			}
			var out []tuple
			seen := map[tuple]bool{}
			errVal := errResult(x)
			for _, t := range cur {
				e := t
				e.errs = ""
				if boxed != "" {
					e.kind = boxed
				}
				for _, o := range a.fn(cal, sub, []tuple{e}) {
					n := t
					n.kind, n.stored = o.kind, o.stored
					if boxed != "" {
						n.kind = t.kind
					}
					if errVal != nil {
						n = n.withErr(errName(depth, errVal), o.err)
					}
					if !seen[n] {
						seen[n] = true
						out = append(out, n)
					}
				}
			}
			return out
		}
		return cur
	}
	if cal == nil && !cc.IsInvoke() {
		// a function value: closures created here are analysed like callees
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			_ = mc
			a.undecided = append(a.undecided, "closure call in "+fname(fn))
		}
	}
	if tgtArg && !a.pureOnTarget(callName(x)) {
		errVal := errResult(x)
		var out []tuple
		for _, t := range cur {
			t.stored = stDel
			if errVal != nil {
				out = append(out, t.withErr(errName(depth, errVal), "nil"), t.withErr(errName(depth, errVal), "err"))
			} else {
				out = append(out, t)
			}
		}
		return out
	}
	return cur
}

// pureOnTarget: standard-library calls that only look at the destination.
func (a *scanAnalysis) pureOnTarget(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "errors.") || strings.HasPrefix(name, "strconv.")
}

// errResult is the error-typed result value of a call, if it has one.
func errResult(c *ssa.Call) ssa.Value {
	if isErrorType(c.Type()) {
		return c
	}
	if tup, ok := c.Type().(*types.Tuple); ok && tup.Len() > 0 && isErrorType(tup.At(tup.Len()-1).Type()) {
		for _, ref := range *c.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == tup.Len()-1 {
				return e
			}
		}
	}
	return nil
}
