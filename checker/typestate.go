package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tsState is the state of one tracked object on one path: the values that are
// the object, the cells that hold it, the error returned with it, and up to
// four small counters owned by the client.
type tsState struct {
	alias, cells, errs map[ssa.Value]bool
	n                  [4]int
}

func newTS() tsState {
	return tsState{map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}, [4]int{}}
}

func (s tsState) clone() tsState {
	n := newTS()
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	for k := range s.errs {
		n.errs[k] = true
	}
	n.n = s.n
	return n
}

func (s tsState) key(b, pred *ssa.BasicBlock) string {
	var n []string
	for k := range s.alias {
		n = append(n, k.Name())
	}
	for k := range s.cells {
		n = append(n, "*"+k.Name())
	}
	for k := range s.errs {
		n = append(n, "e"+k.Name())
	}
	sort.Strings(n)
	p := -1
	if pred != nil {
		p = pred.Index
	}
	return fmt.Sprint(b.Index, " ", p, " ", s.n, " ", strings.Join(n, ","))
}

// tsClient reacts to the instructions of a path.
type tsClient interface {
	// instr is shown every instruction with the state before it; true ends the path.
	instr(w *tsWalk, ins ssa.Instruction, st *tsState) bool
	ret(w *tsWalk, ret *ssa.Return, st *tsState)
	// edge lets the client refine the state along one side of a branch.
	edge(w *tsWalk, i *ssa.If, taken bool, st *tsState) bool
}

type tsWalk struct {
	fn       *ssa.Function
	src      ssa.Instruction
	srcVal   ssa.Value
	valIdx   int // tuple index of the object, -1 when the call value is the object
	errIdx   int
	c        tsClient
	seen     map[string]bool
	steps    int
	problems []errProblem
}

func (w *tsWalk) complain(p token.Pos, format string, a ...any) {
	w.problems = append(w.problems, errProblem{p, fmt.Sprintf(format, a...)})
}

func (w *tsWalk) start() {
	w.seen = map[string]bool{}
	st := newTS()
	if w.src == nil { // a parameter
		st.alias[w.srcVal] = true
		w.walk(w.fn.Blocks[0], 0, nil, st)
		return
	}
	if w.valIdx < 0 {
		st.alias[w.srcVal] = true
	}
	b := w.src.Block()
	for i, ins := range b.Instrs {
		if ins == w.src {
			w.walk(b, i+1, nil, st)
			return
		}
	}
}

func (w *tsWalk) walk(b *ssa.BasicBlock, idx int, pred *ssa.BasicBlock, st tsState) {
	if idx == 0 {
		k := st.key(b, pred)
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		if w.steps++; w.steps > 20000 {
			if w.steps == 20001 {
				w.complain(b.Instrs[0].Pos(), "too many paths")
			}
			return
		}
		pi := -1
		for i, p := range b.Preds {
			if p == pred {
				pi = i
			}
		}
		type upd struct {
			v    ssa.Value
			a, e bool
		}
		var us []upd
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if pi >= 0 {
				us = append(us, upd{ph, st.alias[ph.Edges[pi]], st.errs[ph.Edges[pi]]})
			}
		}
		for _, u := range us {
			delete(st.alias, u.v)
			delete(st.errs, u.v)
			if u.a {
				st.alias[u.v] = true
			}
			if u.e {
				st.errs[u.v] = true
			}
		}
	}
	for i := idx; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		if w.c.instr(w, ins, &st) {
			return
		}
		switch ins := ins.(type) {
		case *ssa.Extract:
			if w.srcVal != nil && ins.Tuple == w.srcVal && w.valIdx >= 0 {
				if ins.Index == w.valIdx {
					st.alias[ins] = true
				}
				if ins.Index == w.errIdx {
					st.errs[ins] = true
				}
			} else if ta, ok := ins.Tuple.(*ssa.TypeAssert); ok && ins.Index == 0 && st.alias[ta.X] {
				st.alias[ins] = true
			} else {
				delete(st.alias, ins)
			}
		case *ssa.ChangeInterface:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.MakeInterface:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.ChangeType:
			if st.alias[ins.X] {
				st.alias[ins] = true
			}
		case *ssa.TypeAssert:
			if st.alias[ins.X] && !ins.CommaOk {
				st.alias[ins] = true
			}
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				if st.cells[ins.X] {
					st.alias[ins] = true
				} else {
					delete(st.alias, ins)
				}
			}
		case *ssa.Store:
			switch ins.Addr.(type) {
			case *ssa.Alloc, *ssa.FreeVar:
				if st.alias[ins.Val] {
					st.cells[ins.Addr] = true
				} else {
					delete(st.cells, ins.Addr)
				}
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			w.c.ret(w, ins, &st)
			return
		case *ssa.Jump:
			w.walk(b.Succs[0], 0, b, st.clone())
			return
		case *ssa.If:
			for k := 0; k < 2; k++ {
				n := st.clone()
				if eqNil, yes := nilTest(ins, st.errs); yes {
					// a non-nil error means there is no object
					if (k == 0) != eqNil {
						continue
					}
				}
				if eqNil, yes := nilTest(ins, st.alias); yes {
					if (k == 0) == eqNil {
						continue
					}
				}
				if w.c.edge(w, ins, k == 0, &n) {
					w.walk(b.Succs[k], 0, b, n)
				}
			}
			return
		}
	}
}

// nilTest recognises `x == nil` / `x != nil` for a value of the set; eqNil
// says the true side is the nil side.
func nilTest(i *ssa.If, set map[ssa.Value]bool) (eqNil, ok bool) {
	cond, neg := i.Cond, false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, !neg
			continue
		}
		break
	}
	bo, isBin := cond.(*ssa.BinOp)
	if !isBin || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return false, false
	}
	x, y := bo.X, bo.Y
	if set[y] {
		x, y = y, x
	}
	if !set[x] {
		return false, false
	}
	if k, isC := y.(*ssa.Const); !isC || k.Value != nil {
		return false, false
	}
	return (bo.Op == token.EQL) != neg, true
}

// usesAlias lists the operands of an instruction that are the object.
func usesAlias(ins ssa.Instruction, st *tsState) bool {
	var ops [12]*ssa.Value
	for _, o := range ins.Operands(ops[:0]) {
		if o != nil && *o != nil && st.alias[*o] {
			return true
		}
	}
	return false
}

// closureOf returns the closure body when v is a closure made on the spot.
func closureOf(v ssa.Value) (*ssa.MakeClosure, *ssa.Function) {
	if m, ok := v.(*ssa.MakeClosure); ok {
		return m, m.Fn.(*ssa.Function)
	}
	if f, ok := v.(*ssa.Function); ok && f.Parent() != nil {
		return nil, f
	}
	return nil, nil
}
