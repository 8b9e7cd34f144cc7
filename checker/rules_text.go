package main

import (
	"go/types"
	"sort"
)

func init() {
	register("P06", "The writers and readers of the list types are followed over every list, and their quoting and splitting functions over every text, by abstract interpretation of their SSA form.", checkP06)
}

const sqltypePath = modPath + "/sequel/sqltype"
const pgtypePath = modPath + "/sequel/driver/postgres/pgtype"

// listType is a list type of the runtime library which is written with Value
// and read with Scan.
type listType struct {
	name  string
	named *types.Named
	value *types.Func
	scan  *types.Func
}

func (l *Loaded) listTypes() []listType {
	var out []listType
	for _, p := range []string{sqltypePath, pgtypePath} {
		sp := l.pkgs[p]
		if sp == nil {
			continue
		}
		for _, n := range sp.Types.Scope().Names() {
			o, ok := sp.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}
			nt, ok := o.Type().(*types.Named)
			if !ok {
				continue
			}
			lt := listType{name: o.Pkg().Name() + "." + n, named: nt}
			for i := 0; i < nt.NumMethods(); i++ {
				m := nt.Method(i)
				sig := m.Type().(*types.Signature)
				switch {
				case m.Name() == "Value" && sig.Params().Len() == 0 && sig.Results().Len() == 2:
					lt.value = m
				case m.Name() == "Scan" && sig.Params().Len() == 1 && sig.Results().Len() == 1:
					lt.scan = m
				}
			}
			if lt.value != nil {
				out = append(out, lt)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}
