package main

import (
	"go/token"
	"go/types"
)

// checkColumns interprets the constructors of the runtime's column clauses and
// every method of what they return: each must give back what it was made from.
func checkColumns(c *Ctx) {
	sp := c.L.pkgs[seqPath]
	if sp == nil {
		c.Bad("column-clause", "sequel", token.NoPos, "the runtime library is not loaded")
		return
	}
	n := 0
	for _, name := range sp.Types.Scope().Names() {
		o, ok := sp.Types.Scope().Lookup(name).(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Results().Len() != 1 {
			continue
		}
		nt, ok := derefNamed(sig.Results().At(0).Type())
		if !ok || nt.Obj().Pkg() != sp.Types {
			continue
		}
		it, ok := nt.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		has := false
		for i := 0; i < it.NumMethods(); i++ {
			has = has || it.Method(i).Name() == "ColumnName"
		}
		if !has {
			continue
		}
		d, ok := c.L.declOf[o]
		if !ok {
			continue
		}
		e := newAbs(c.L)
		e.peel = true
		st := &state{heap: map[loc]val{}, atoms: map[string]bool{}}
		params := map[string]types.Type{}
		args, _ := paramVals(e, d.pkg.TypesInfo, d.fd.Type, "p:", st, params, nil)
		// what each method must return
		var colName, value, convert, sqlValue, asc string
		for i := range args {
			t := sig.Params().At(i).Type()
			k := "p:" + sig.Params().At(i).Name()
			switch {
			case isStringType(t) && colName == "":
				colName = k
			case types.Identical(t.Underlying(), types.Typ[types.Bool]):
				asc = k
			default:
				if f, ok := t.Underlying().(*types.Signature); ok {
					if f.Params().Len() == 1 && isStringType(f.Params().At(0).Type()) {
						sqlValue = k
					} else {
						convert = k
					}
				} else {
					value = k
				}
			}
		}
		checkMethod := func(st *state, v val, m *types.Func) string {
			if p, ok := v.(vPtr); ok {
				v = e.load(st, p)
			}
			ds, recv, found := e.dispatch(v, m.Name(), st)
			if !found {
				return "the method is not found"
			}
			margs, _ := paramVals(e, ds.pkg.TypesInfo, ds.fd.Type, "a:", st, params, nil)
			ak := ""
			if msig := ds.pkg.TypesInfo.Defs[ds.fd.Name].Type().(*types.Signature); msig.Params().Len() == 1 {
				ak = "a:" + msig.Params().At(0).Name()
			}
			var ro types.Object
			if ds.fd.Recv != nil && len(ds.fd.Recv.List[0].Names) > 0 {
				ro = ds.pkg.TypesInfo.Defs[ds.fd.Recv.List[0].Names[0]]
			}
			bad, got := "", 0
			s2 := st.clone()
			e.enter(&frame{pkg: ds.pkg, name: m.Name()}, ds.fd.Type, ro, recv, ds.fd.Body, margs, s2, func(st *state, vs []val) {
				got++
				if len(vs) != 1 {
					bad = "it returns nothing"
					return
				}
				k := keyOf(plainHole(vs[0]))
				s, _ := plainHole(vs[0]).(*sym)
				called := func(fn string) bool {
					return s != nil && s.op == "call" && len(s.args) == 2 && s.args[0].key() == fn && s.args[1].key() == ak
				}
				ok := true
				switch m.Name() {
				case "ColumnName":
					ok = k == colName
				case "Value":
					ok = k == value
				case "Convert":
					ok = called(convert)
				case "SQLColumn":
					ok = called(sqlValue)
				case "Asc", "Desc":
					b, known := st.atoms[asc]
					r, isB := vs[0].(vBool)
					switch {
					case isB && known:
						ok = bool(r) == (b == (m.Name() == "Asc"))
					case m.Name() == "Asc":
						ok = k == asc
					default:
						ok = k == "!"+asc || k == "not("+asc+")"
					}
				}
				if !ok {
					bad = "it returns " + short(k)
				}
			})
			if got == 0 {
				return "it does not return"
			}
			return bad
		}
		made := 0
		e.enter(&frame{pkg: d.pkg, name: name}, d.fd.Type, nil, nil, d.fd.Body, args, st, func(st *state, vs []val) {
			made++
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				n++
				b := checkMethod(st, vs[0], m)
				c.Check(b == "", "column-clause", name+"."+m.Name(), d.fd.Pos(), "%s", okOr(b, "gives back what the clause was made from"))
			}
		})
		c.Check(made > 0 && len(e.problems) == 0, "column-made", name, d.fd.Pos(), "the constructor returns on %d paths", made)
		c.Analysed("sequel." + name)
	}
	c.Min("column-made", 4)
	c.Min("column-clause", 12)
}
