package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", "Every iteration over a map in the command, generator and parser must have effects that do not depend on its order; values that differ from run to run (time, randomness, environment, process, unordered listings) are tracked through SSA and must not reach generated text, file names or decisions; nothing runs concurrently and no package-level state is carried from one run to the next.", checkP13)
}

// volatileCalls yield something else on every run (or machine).
func volatileCall(name string) string {
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker":
		return "time"
	case "os.Getpid", "os.Getppid", "os.Getuid", "os.Geteuid", "os.Getgid", "os.Hostname", "os.MkdirTemp", "os.CreateTemp", "os.Executable", "(os.File).Name", "os.Getpagesize":
		if name == "(os.File).Name" {
			return ""
		}
		return "process"
	case "os.Getenv", "os.LookupEnv", "os.Environ", "os.UserHomeDir", "os.UserCacheDir", "os.UserConfigDir", "os.TempDir", "os.ExpandEnv", "os.Expand", "syscall.Getenv", "os/user.Current", "runtime.NumCPU", "runtime.NumGoroutine", "runtime.GOMAXPROCS", "runtime.Version", "runtime.Caller", "runtime.Callers", "runtime.Stack", "runtime/debug.Stack", "runtime/debug.ReadBuildInfo":
		return "environment"
	case "(io/fs.FileInfo).ModTime", "(os.FileInfo).ModTime":
		return "time"
	case "(os.File).Readdir", "(os.File).ReadDir", "(os.File).Readdirnames":
		return "order of the directory"
	case "(sync.Map).Range":
		return "map order"
	case "github.com/samber/lo.Shuffle", "github.com/samber/lo.Sample", "github.com/samber/lo.Samples", "github.com/samber/lo.RandomString", "github.com/samber/lo.SampleBy", "github.com/samber/lo.SamplesBy":
		return "randomness"
	}
	for _, p := range []string{"math/rand.", "(math/rand.", "math/rand/v2.", "(math/rand/v2.", "crypto/rand.", "hash/maphash.", "(hash/maphash.", "github.com/google/uuid.New", "github.com/gofrs/uuid"} {
		if strings.HasPrefix(name, p) {
			return "randomness"
		}
	}
	return ""
}

// orderFromMap lists library calls whose result has the order of a map.
func orderFromMap(name string) bool {
	switch name {
	case "maps.Keys", "maps.Values", "maps.All", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values",
		"(reflect.Value).MapKeys", "(reflect.Value).MapRange",
		"github.com/samber/lo.Keys", "github.com/samber/lo.Values", "github.com/samber/lo.Entries", "github.com/samber/lo.ToPairs", "github.com/samber/lo.UniqKeys", "github.com/samber/lo.UniqValues",
		"github.com/samber/lo.MapToSlice", "github.com/samber/lo.FilterMapToSlice", "github.com/samber/lo.FindKey", "github.com/samber/lo.FindKeyBy", "github.com/samber/lo.ValueOr":
		return name != "github.com/samber/lo.ValueOr"
	}
	return false
}

var sorters = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true,
	"golang.org/x/exp/slices.Sort": true, "golang.org/x/exp/slices.SortFunc": true, "golang.org/x/exp/slices.SortStableFunc": true,
}

// orderFree are calls whose result does not depend on the order of their
// argument (a list or an iterator).
func orderFree(name string) bool {
	switch name {
	case "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "maps.Collect", "maps.Insert",
		"slices.Contains", "slices.ContainsFunc", "github.com/samber/lo.Contains", "github.com/samber/lo.Every", "github.com/samber/lo.Some", "github.com/samber/lo.None", "github.com/samber/lo.Sum", "slices.Max", "slices.Min", "github.com/samber/lo.Max", "github.com/samber/lo.Min":
		return true
	}
	return false
}

// sortedUse says every use of an unordered list is order independent: it is
// counted, searched, or sorted before anything else sees it.
func sortedUse(v ssa.Value) (bool, token.Pos) {
	all := map[ssa.Value]bool{}
	var grow func(v ssa.Value)
	var uses []ssa.Instruction
	grow = func(v ssa.Value) {
		if all[v] || v.Referrers() == nil {
			return
		}
		all[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Phi:
				grow(x.(ssa.Value))
			case *ssa.Slice:
				if x.Low == nil && x.High == nil {
					grow(x)
				} else {
					uses = append(uses, r)
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						switch y := r2.(type) {
						case *ssa.UnOp:
							grow(y)
						case *ssa.MakeClosure:
						}
					}
					continue
				}
				uses = append(uses, r)
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					if b.Name() == "append" {
						grow(x)
						continue
					}
				}
				if callName(x) == "slices.Collect" || callName(x) == "slices.Compact" {
					grow(x)
					continue
				}
				if orderFree(callName(x)) {
					continue
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	grow(v)
	var sorts []ssa.Instruction
	for _, u := range uses {
		if call, ok := u.(*ssa.Call); ok && sorters[callName(call)] && totalOrder(call) {
			sorts = append(sorts, u)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s == u || dominatesIns(s, u) {
				ok = true
			}
			// the comparison closure
		}
		if !ok {
			return false, u.Pos()
		}
	}
	return true, token.NoPos
}

func dominatesIns(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, ins := range a.Block().Instrs {
		if ins == a {
			return true
		}
		if ins == b {
			return false
		}
	}
	return false
}

// totalOrder accepts a sort whose comparison looks at whole elements or at one
// property of them; a comparison of lengths or of constants leaves ties.
func totalOrder(call *ssa.Call) bool {
	for _, a := range call.Call.Args {
		lit := callbackOf(a)
		if lit == nil {
			continue
		}
		ties := false
		for _, b := range lit.Blocks {
			for _, ins := range b.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok {
					switch bo.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if c, ok := bo.X.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								ties = true
							}
						}
					}
				}
			}
		}
		if ties {
			return false
		}
	}
	return true
}

// effects: functions of the module that write to something beyond their own
// locals (directly or through calls).
type effectSum struct {
	l    *Loaded
	memo map[*ssa.Function]string
}

// of says what order-dependent effect calling fn may have ("" when none).
func (e *effectSum) of(fn *ssa.Function) string {
	if s, ok := e.memo[fn]; ok {
		return s
	}
	e.memo[fn] = ""
	why := ""
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					why = "stores to memory of others"
				}
			case *ssa.MapUpdate:
				if !localRef(x.Map) {
					why = "updates a map of others"
				}
			case *ssa.Send, *ssa.Go:
				why = "communicates"
			case ssa.CallInstruction:
				if w := e.call(x); w != "" {
					why = w
				}
			}
			if why != "" {
				e.memo[fn] = fname(fn) + " " + why
				return e.memo[fn]
			}
		}
	}
	return ""
}

func (e *effectSum) call(x ssa.CallInstruction) string {
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "print", "println", "copy", "close":
			return "calls " + bi.Name()
		}
		return ""
	}
	name := callName(x)
	if strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "log.") {
		return ""
	}
	if g := callee(x); g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), modPath) {
		return e.of(g)
	}
	if g := callbackOf(cc.Value); g != nil && g.Blocks != nil && !cc.IsInvoke() {
		return e.of(g)
	}
	if pureCall(name) {
		return ""
	}
	// methods of a local builder are local effects only when the builder is
	// made inside the loop; the caller decides
	if name == "" {
		name = "a function value"
	}
	return "calls " + name
}

func pureCall(name string) bool {
	for _, p := range []string{"strings.", "(strings.Replacer).", "strconv.", "path.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean", "fmt.Sprint", "fmt.Errorf", "errors.", "unicode", "go/types.", "(go/types.", "go/ast.", "(go/ast.", "go/token.", "(go/token.", "reflect.", "(reflect.", "regexp.", "(regexp.Regexp).", "os.Stat", "os.Lstat", "github.com/samber/lo.", "slices.Contains", "slices.Index", "cmp.Compare", "bytes.Equal", "bytes.Contains", "(error).Error", "(github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect.Dialect)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ").String")
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	case *ssa.Slice:
		return localAddr(x.X)
	case *ssa.MakeSlice:
		return true
	}
	return false
}

func localRef(v ssa.Value) bool {
	for _, o := range origins(v) {
		if _, ok := o.(*ssa.MakeMap); !ok {
			return false
		}
	}
	return true
}

// mapLoop is a range over a map: its header block (with the Next) and body.
type mapLoop struct {
	rng  *ssa.Range
	next *ssa.Next
	in   map[*ssa.BasicBlock]bool
}

func mapLoops(fn *ssa.Function) []mapLoop {
	var out []mapLoop
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			nx, ok := ins.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			// natural loop of the header
			in := map[*ssa.BasicBlock]bool{b: true}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if in[x] {
					return
				}
				in[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			for _, p := range b.Preds {
				if b.Dominates(p) {
					up(p)
				}
			}
			out = append(out, mapLoop{rg, nx, in})
		}
	}
	return out
}

// dependsOn says v is computed from root within a loop.
func dependsOn(v ssa.Value, root func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if root(v) {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, s := range cellStores(al) {
			if s != nil && dependsOn(s, root, seen) {
				return true
			}
		}
		// variadic argument arrays
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && dependsOn(st.Val, root, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && dependsOn(*op, root, seen) {
			return true
		}
	}
	return false
}

// orderEffect says how a loop over a map depends on its order.
func (e *effectSum) orderEffect(fn *ssa.Function, lp mapLoop) (string, token.Pos) {
	isKey := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Tuple == lp.next && ex.Index == 1
	}
	element := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		return ok && ex.Tuple == lp.next && ex.Index > 0
	}
	var keyOnly func(v ssa.Value) bool
	keyOnly = func(v ssa.Value) bool {
		if isKey(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return keyOnly(x.X)
		case *ssa.ChangeType:
			return keyOnly(x.X)
		case *ssa.MakeInterface:
			return keyOnly(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for _, s := range cellStores(x.X) {
					if s == nil || !keyOnly(s) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	inLoop := func(v ssa.Value) bool {
		ins, ok := v.(ssa.Instruction)
		return ok && lp.in[ins.Block()]
	}
	var rootIn func(v ssa.Value) bool
	rootIn = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return inLoop(x)
		case *ssa.FieldAddr:
			return rootIn(x.X)
		case *ssa.IndexAddr:
			return rootIn(x.X)
		case *ssa.Slice:
			return rootIn(x.X)
		case *ssa.MakeSlice, *ssa.MakeMap:
			return inLoop(v)
		case *ssa.MakeInterface:
			return rootIn(x.X)
		case *ssa.Call:
			return inLoop(x)
		case *ssa.UnOp:
			// what the element of the map points to
			return false
		}
		return false
	}
	elementMem := func(addr ssa.Value) bool {
		for {
			switch x := addr.(type) {
			case *ssa.FieldAddr:
				addr = x.X
			case *ssa.IndexAddr:
				return false
			default:
				return element(addr)
			}
		}
	}
	for b := range lp.in {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if rootIn(x.Addr) || elementMem(x.Addr) {
					continue
				}
				if _, ok := x.Val.(*ssa.Const); ok {
					continue // sets a flag
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if ap, ok := x.Val.(*ssa.Call); ok && isAppend(ap) {
						if okS, p := cellSorted(al, lp); okS {
							continue
						} else {
							return "a list collected from a map is used in its order", p
						}
					}
					if bo, ok := x.Val.(*ssa.BinOp); ok && commutative(bo) {
						continue
					}
				}
				return "a store depends on the order of a map", x.Pos()
			case *ssa.MapUpdate:
				if rootIn(x.Map) || keyOnly(x.Key) {
					continue
				}
				if _, ok := x.Value.(*ssa.Const); ok {
					continue
				}
				if _, ok := x.Value.(*ssa.UnOp); ok && types.Identical(x.Value.Type().Underlying(), types.NewStruct(nil, nil)) {
					continue
				}
				return "entries of a map may overwrite each other in the order of another map", x.Pos()
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "work is started in the order of a map", ins.Pos()
			case *ssa.Phi:
				if b != lp.next.Block() {
					continue
				}
				if why, p := e.carried(x, lp); why != "" {
					return why, p
				}
			case *ssa.Return:
				// leaving with a value of the element found first
				for i, r := range x.Results {
					rv := resultValue(r)
					if _, ok := rv.(*ssa.Const); ok {
						continue
					}
					if isErrorType(fn.Signature.Results().At(i).Type()) {
						continue
					}
					if dependsOn(rv, element, map[ssa.Value]bool{}) {
						return "the element met first is returned", x.Pos()
					}
				}
			case *ssa.Call:
				name := callName(x)
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" {
						return "copy in the order of a map", x.Pos()
					}
					continue
				}
				if len(x.Call.Args) > 0 && !x.Call.IsInvoke() && (strings.HasPrefix(name, "(strings.Builder).") || strings.HasPrefix(name, "(bytes.Buffer).") || strings.HasPrefix(name, "fmt.Fprint") || strings.HasPrefix(name, "io.WriteString")) && rootIn(x.Call.Args[0]) {
					continue
				}
				if w := e.call(x); w != "" {
					return "the loop " + w + " in the order of a map", x.Pos()
				}
			}
		}
	}
	// blocks outside the natural loop that leave it early (break, return)
	for b := range lp.in {
		for _, s := range b.Succs {
			if lp.in[s] || b == lp.next.Block() {
				continue
			}
			// exit through a test inside the body: what leaves with it
			for _, d := range fn.Blocks {
				if !(s == d || s.Dominates(d)) {
					continue
				}
				for _, ins := range d.Instrs {
					switch x := ins.(type) {
					case *ssa.Return:
						for i, r := range x.Results {
							rv := resultValue(r)
							if _, ok := rv.(*ssa.Const); ok {
								continue
							}
							if i < fn.Signature.Results().Len() && isErrorType(fn.Signature.Results().At(i).Type()) {
								continue
							}
							if dependsOn(rv, element, map[ssa.Value]bool{}) {
								return "the element met first is returned", x.Pos()
							}
						}
					case *ssa.Store:
						if dependsOn(x.Val, element, map[ssa.Value]bool{}) {
							return "the element met first is used", ins.Pos()
						}
					}
				}
			}
			for _, ins := range s.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					for i, p := range s.Preds {
						if lp.in[p] && p != lp.next.Block() && i < len(ph.Edges) && dependsOn(ph.Edges[i], element, map[ssa.Value]bool{}) {
							return "the element met first is used", ph.Pos()
						}
					}
				}
			}
		}
	}
	return "", token.NoPos
}

func isAppend(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func commutative(bo *ssa.BinOp) bool {
	b, ok := bo.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch bo.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return b.Info()&types.IsInteger != 0
	}
	return false
}

// cellSorted: the local list in a cell is sorted after the loop before use.
func cellSorted(al *ssa.Alloc, lp mapLoop) (bool, token.Pos) {
	var loads []ssa.Value
	for _, r := range *al.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && !lp.in[u.Block()] && lp.next.Block().Dominates(u.Block()) {
			loads = append(loads, u)
		}
	}
	return listSorted(loads)
}

// listSorted says a sort of one of the values dominates every other use.
func listSorted(vals []ssa.Value) (bool, token.Pos) {
	var sorts, uses []ssa.Instruction
	for _, v := range vals {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeInterface:
				for _, r2 := range *x.Referrers() {
					if c, ok := r2.(*ssa.Call); ok && sorters[callName(c)] && totalOrder(c) {
						sorts = append(sorts, c)
					} else {
						uses = append(uses, r2)
					}
				}
				continue
			case *ssa.MakeClosure:
				continue // the comparison of the sort
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if sorters[callName(x)] && totalOrder(x) {
					sorts = append(sorts, x)
					continue
				}
				if orderFree(callName(x)) {
					continue
				}
			}
			uses = append(uses, r)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if dominatesIns(s, u) {
				ok = true
			}
		}
		if !ok {
			return false, u.Pos()
		}
	}
	return true, token.NoPos
}

// carried says how a value carried round the loop depends on the order.
func (e *effectSum) carried(ph *ssa.Phi, lp mapLoop) (string, token.Pos) {
	var bad func(v ssa.Value, seen map[ssa.Value]bool) bool
	list := false
	bad = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] || v == ph {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return false
		case *ssa.Phi:
			if !lp.in[x.Block()] {
				return false
			}
			for _, ed := range x.Edges {
				if bad(ed, seen) {
					return true
				}
			}
			return false
		case *ssa.BinOp:
			if commutative(x) {
				return bad(x.X, seen) && bad(x.Y, seen)
			}
			return true
		case *ssa.Call:
			if isAppend(x) {
				list = true
				return bad(x.Call.Args[0], seen)
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
				return false
			}
			return true
		}
		if ins, ok := v.(ssa.Instruction); ok && lp.in[ins.Block()] {
			return true
		}
		return false
	}
	for i, ed := range ph.Edges {
		if i < len(ph.Block().Preds) && lp.in[ph.Block().Preds[i]] && bad(ed, map[ssa.Value]bool{}) {
			return "a value accumulated over a map depends on its order", ph.Pos()
		}
	}
	if !list {
		return "", token.NoPos
	}
	// the list must be sorted before it is used outside the loop
	vals := []ssa.Value{}
	seen := map[ssa.Value]bool{}
	var grow func(v ssa.Value)
	outside := []ssa.Instruction{}
	grow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if lp.in[r.Block()] {
				continue
			}
			if p, ok := r.(*ssa.Phi); ok {
				grow(p)
				continue
			}
			outside = append(outside, r)
		}
		vals = append(vals, v)
	}
	grow(ph)
	_ = outside
	var keep []ssa.Value
	for _, v := range vals {
		keep = append(keep, v)
	}
	ok, p := listSortedOutside(keep, lp)
	if !ok {
		return "a list collected from a map is used in its order", p
	}
	return "", token.NoPos
}

func listSortedOutside(vals []ssa.Value, lp mapLoop) (bool, token.Pos) {
	var sorts, uses []ssa.Instruction
	for _, v := range vals {
		for _, r := range *v.Referrers() {
			if lp.in[r.Block()] {
				continue
			}
			note := func(c ssa.Instruction) {
				if call, ok := c.(*ssa.Call); ok {
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						return
					}
					if sorters[callName(call)] && totalOrder(call) {
						sorts = append(sorts, c)
						return
					}
					if orderFree(callName(call)) {
						return
					}
				}
				uses = append(uses, c)
			}
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.Phi, *ssa.MakeClosure:
			case *ssa.MakeInterface:
				for _, r2 := range *x.Referrers() {
					note(r2)
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok {
							for _, r3 := range *u.Referrers() {
								if mi, ok := r3.(*ssa.MakeInterface); ok {
									for _, r4 := range *mi.Referrers() {
										note(r4)
									}
									continue
								}
								note(r3)
							}
						}
					}
					continue
				}
				note(r)
			default:
				note(r)
			}
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if dominatesIns(s, u) {
				ok = true
			}
		}
		if !ok {
			return false, u.Pos()
		}
	}
	return true, token.NoPos
}

// reachableFrom lists the functions that can run below fn: static calls,
// closures, functions used as values and methods called through interfaces.
func (l *Loaded) reachableFrom(fns []*ssa.Function, roots ...*ssa.Function) map[*ssa.Function]bool {
	byName := map[string][]*ssa.Function{}
	for _, fn := range fns {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
	}
	in := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		fn = origin(fn)
		if fn == nil || in[fn] || fn.Blocks == nil || !strings.HasPrefix(pkgOf(fn), modPath) {
			return
		}
		in[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := callee(call); g != nil {
						visit(g)
					}
					if call.Common().IsInvoke() {
						for _, g := range byName[call.Common().Method.Name()] {
							visit(g)
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return in
}

type volatile struct {
	l      *Loaded
	fns    []*ssa.Function
	val    map[ssa.Value]string
	field  map[*types.Var]string
	global map[*ssa.Global]string
	ret    map[*ssa.Function]map[int]string
	dirty  bool
}

func (v *volatile) mark(x ssa.Value, kind string) {
	if kind == "" || x == nil || v.val[x] != "" {
		return
	}
	if isErrorType(x.Type()) {
		return
	}
	if _, ok := x.(*ssa.Const); ok {
		return
	}
	v.val[x] = kind
	v.dirty = true
}

// textual: results through which a path travels on.
func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Info()&types.IsString != 0 || b.Kind() == types.Byte)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if textual(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (v *volatile) run() {
	for v.dirty = true; v.dirty; {
		v.dirty = false
		for _, fn := range v.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					v.step(fn, ins)
				}
			}
		}
	}
}

func (v *volatile) step(fn *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case ssa.CallInstruction:
		cv, _ := x.(*ssa.Call)
		name := callName(x)
		cc := x.Common()
		if name == "os.Getwd" && cv != nil {
			v.mark(cv, "path")
			return
		}
		if k := volatileCall(name); k != "" && cv != nil {
			v.mark(cv, k)
			return
		}
		g := callee(x)
		if g == nil && !cc.IsInvoke() {
			g = callbackOf(cc.Value)
		}
		if g != nil && g.Blocks != nil && strings.HasPrefix(pkgOf(g), modPath) {
			for i, a := range cc.Args {
				if i < len(g.Params) {
					v.mark(g.Params[i], v.val[a])
				}
			}
			if cv != nil {
				for i, k := range v.ret[g] {
					if g.Signature.Results().Len() == 1 {
						v.mark(cv, k)
					} else if e := extractOf(cv, i); e != nil {
						v.mark(e, k)
					}
				}
			}
			return
		}
		if cv == nil {
			return
		}
		kind := ""
		if cc.IsInvoke() {
			kind = v.val[cc.Value]
		}
		for _, a := range cc.Args {
			if v.val[a] != "" {
				kind = v.val[a]
			}
			// the variadic array
			if sl, ok := a.(*ssa.Slice); ok && v.val[sl.X] != "" {
				kind = v.val[sl.X]
			}
		}
		if kind == "path" && !textual(cv.Type()) || name == "runtime.FuncForPC" || name == "path/filepath.Rel" {
			return
		}
		if bi, ok := cc.Value.(*ssa.Builtin); ok && kind == "path" && bi.Name() == "len" {
			return
		}
		v.mark(cv, kind)
	case *ssa.Store:
		k := v.val[x.Val]
		if k == "" {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.Alloc:
			v.mark(a, k)
		case *ssa.FreeVar:
			v.mark(a, k)
			if b := bindingOf(a); b != nil {
				v.mark(b, k)
			}
		case *ssa.FieldAddr:
			if f := fieldVar(a); f != nil && v.field[f] == "" {
				v.field[f] = k
				v.dirty = true
			}
		case *ssa.IndexAddr:
			v.mark(a.X, k)
			if u, ok := a.X.(*ssa.UnOp); ok {
				v.mark(u.X, k)
			}
		case *ssa.Global:
			if v.global[a] == "" {
				v.global[a] = k
				v.dirty = true
			}
		}
	case *ssa.MapUpdate:
		if v.val[x.Value] != "" {
			v.mark(x.Map, v.val[x.Value])
		}
		if v.val[x.Key] != "" {
			v.mark(x.Map, v.val[x.Key])
		}
	case *ssa.Return:
		for i, r := range x.Results {
			k := v.val[r]
			if k == "" {
				k = v.val[resultValue(r)]
			}
			if k != "" && !isErrorType(r.Type()) {
				if v.ret[fn] == nil {
					v.ret[fn] = map[int]string{}
				}
				if v.ret[fn][i] == "" {
					v.ret[fn][i] = k
					v.dirty = true
				}
			}
		}
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if f, ok := x.Fn.(*ssa.Function); ok {
				v.mark(f.FreeVars[i], v.val[b])
			}
		}
	case *ssa.UnOp:
		k := v.val[x.X]
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if f := fieldVar(a); f != nil && v.field[f] != "" {
				k = v.field[f]
			}
		case *ssa.Global:
			k = v.global[a]
		}
		v.mark(x, k)
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			v.mark(x, v.field[st.Field(x.Field)])
		}
	case *ssa.FieldAddr:
	case *ssa.BinOp:
		k := v.val[x.X]
		if k == "" {
			k = v.val[x.Y]
		}
		switch x.Op {
		case token.ADD:
			v.mark(x, k)
		default:
			if k != "path" {
				v.mark(x, k)
			}
		}
	case ssa.Value:
		for _, op := range ins.Operands(nil) {
			if *op != nil && v.val[*op] != "" {
				v.mark(x, v.val[*op])
			}
		}
	}
}

func checkP13(c *Ctx) {
	l := c.L
	fns := append(append([]*ssa.Function{}, l.funcsIn(cliPath)...), l.funcsIn(poolPath)...)
	gen := l.function(genPath, "Generate")
	if !c.Check(gen != nil, "anchor", "Generate", token.NoPos, "the entry of the generator is found") {
		return
	}
	run := l.reachableFrom(fns, gen)
	c.Check(len(run) > 60, "reachable", "Generate", gen.Pos(), "%d functions can run below Generate", len(run))
	eff := &effectSum{l, map[*ssa.Function]string{}}
	v := &volatile{l: l, fns: fns, val: map[ssa.Value]string{}, field: map[*types.Var]string{}, global: map[*ssa.Global]string{}, ret: map[*ssa.Function]map[int]string{}}
	v.run()
	for _, fn := range fns {
		if !run[origin(fn)] {
			continue
		}
		c.Analysed(fname(fn))
		for _, lp := range mapLoops(fn) {
			if _, ok := lp.rng.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			why, p := eff.orderEffect(fn, lp)
			c.Check(why == "", "map-order", fname(fn), p, "the effects of the loop over a map do not depend on its order (%s)", orNone(why))
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					c.Bad("concurrency", fname(fn), x.Pos(), "a goroutine is started: the order of its effects is not determined")
				case *ssa.Select:
					c.Bad("concurrency", fname(fn), x.Pos(), "select chooses at random among ready channels")
				case *ssa.If:
					if k := v.val[x.Cond]; k != "" && k != "path" {
						c.Bad("volatile", fname(fn), condPos(x), "a decision depends on %s", k)
					}
				case *ssa.Store:
					if g := rootGlobal(x.Addr); g != nil && ourGlobal(g) && !isInit(fn) {
						c.Bad("state", fname(fn)+"/"+g.Name(), x.Pos(), "package-level variable %s carries state from one run to the next", g.Name())
					}
				case *ssa.MapUpdate:
					if g := rootGlobal(x.Map); g != nil && ourGlobal(g) && !isInit(fn) {
						c.Bad("state", fname(fn)+"/"+g.Name(), x.Pos(), "package-level map %s carries state from one run to the next", g.Name())
					}
				case ssa.CallInstruction:
					l.detCall(c, v, fn, x)
				}
			}
		}
		c.OK("order", fname(fn), "no effect depends on map order, time, randomness, environment or concurrency")
	}
	c.Min("order", 60)
}

func condPos(i *ssa.If) token.Pos {
	if p := i.Cond.Pos(); p.IsValid() {
		return p
	}
	for _, ins := range i.Block().Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	return token.NoPos
}

func (l *Loaded) detCall(c *Ctx, v *volatile, fn *ssa.Function, x ssa.CallInstruction) {
	name := callName(x)
	cc := x.Common()
	if orderFromMap(name) {
		if cv, ok := x.(*ssa.Call); ok {
			okUse, p := sortedUse(cv)
			if p == token.NoPos {
				p = x.Pos()
			}
			c.Check(okUse, "map-order", fname(fn)+"/"+callLabel(x), p, "a list in map order is sorted before it is used")
		}
		return
	}
	if volatileCall(name) == "randomness" && strings.Contains(name, "Shuffle") {
		c.Bad("volatile", fname(fn)+"/"+callLabel(x), x.Pos(), "a list is shuffled")
	}
	if name == "(sync.Map).Range" {
		c.Bad("map-order", fname(fn)+"/"+callLabel(x), x.Pos(), "sync.Map is visited in no order")
	}
	kindOf := func(a ssa.Value) string {
		if k := v.val[a]; k != "" {
			return k
		}
		if sl, ok := a.(*ssa.Slice); ok {
			if k := v.val[sl.X]; k != "" {
				return k
			}
		}
		return ""
	}
	writer := ssa.Value(nil)
	var data []ssa.Value
	switch {
	case strings.HasPrefix(name, "fmt.Fprint"), name == "io.WriteString":
		writer, data = cc.Args[0], cc.Args[1:]
	case strings.HasPrefix(name, "(bytes.Buffer).Write"), strings.HasPrefix(name, "(strings.Builder).Write"), strings.HasPrefix(name, "(bufio.Writer).Write"), strings.HasPrefix(name, "(text/template.Template).Execute"):
		writer, data = cc.Args[0], cc.Args[1:]
		if strings.Contains(name, "Execute") {
			writer = cc.Args[1]
		}
	case cc.IsInvoke() && strings.HasPrefix(cc.Method.Name(), "Write"):
		writer, data = cc.Value, cc.Args
	case fileOps[name] == "write":
		data = cc.Args[1:2]
		if k := kindOf(cc.Args[0]); k != "" && k != "path" {
			c.Bad("volatile", fname(fn)+"/"+callLabel(x), x.Pos(), "the name of a file depends on %s", k)
		}
	}
	if writer == nil && data == nil {
		return
	}
	if writer != nil {
		if mi, ok := writer.(*ssa.MakeInterface); ok && namedIs(deref(mi.X.Type()), "os", "File") {
			return // messages for the user
		}
	}
	for _, a := range data {
		k := kindOf(a)
		c.Check(k == "", "volatile", fname(fn)+"/"+callLabel(x), x.Pos(), "what is written does not depend on %s", orNone(k))
	}
	// addresses of values differ from run to run
	for _, a := range data {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			c.Bad("volatile", fname(fn)+"/"+callLabel(x), x.Pos(), "an address is written")
		}
		for _, el := range sliceElems(a) {
			mi, ok := el.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if printsAddress(mi.X.Type()) {
				c.Bad("volatile", fname(fn)+"/"+callLabel(x), x.Pos(), "a value of type %s is written as an address", mi.X.Type())
			}
		}
	}
}

// printsAddress says fmt writes the value as a memory address.
func printsAddress(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if ms.Lookup(nil, m) != nil {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Map, *types.Array:
			return false
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Slice:
		_, isPtr := u.Elem().Underlying().(*types.Pointer)
		return isPtr && printsElement(u.Elem())
	}
	return false
}

func printsElement(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, m := range []string{"String", "Error", "Format"} {
		if ms.Lookup(nil, m) != nil {
			return false
		}
	}
	return true
}
