package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/imports"
)

// dialectConsts are the facts of one SQL dialect the templates depend on.
type dialectConsts struct {
	Name      string
	VarRune   rune
	QuoteRune rune
	Numbered  bool // $1,$2 ... instead of a fixed marker
}

func (d dialectConsts) quoteVar(n int) string {
	if d.Numbered {
		return string(d.VarRune) + strconv.Itoa(n)
	}
	return string(d.VarRune)
}

// expandTemplate macro-expands one text/template source for one dialect, the
// way a preprocessor would; no repository code runs.
func expandTemplate(name, src string, d dialectConsts, pkg string) ([]byte, error) {
	type imp struct{ path, alias string }
	var imps []imp
	strQuote := "\""
	if d.QuoteRune == '"' {
		strQuote = "`"
	}
	fm := template.FuncMap{
		"driver":      func() string { return d.Name },
		"quote":       func(s string) string { return strQuote + s + strQuote },
		"quoteVar":    d.quoteVar,
		"isStaticVar": func() bool { return !d.Numbered },
		"varRune":     func() string { return string(d.VarRune) },
		"reserveImport": func(path string, alias ...string) string {
			a := ""
			if len(alias) > 0 {
				a = alias[0]
			}
			for _, i := range imps {
				if i.path == path {
					return ""
				}
			}
			imps = append(imps, imp{path, a})
			return ""
		},
	}
	t, err := template.New(name).Funcs(fm).Parse(src)
	if err != nil {
		return nil, err
	}
	var body bytes.Buffer
	if err := t.Execute(&body, struct{}{}); err != nil {
		return nil, err
	}
	var out strings.Builder
	fmt.Fprintf(&out, "package %s\n\nimport (\n", pkg)
	for _, i := range imps {
		if i.alias != "" && i.alias != filepath.Base(i.path) {
			fmt.Fprintf(&out, "\t%s %q\n", i.alias, i.path)
		} else {
			fmt.Fprintf(&out, "\t%q\n", i.path)
		}
	}
	out.WriteString(")\n")
	out.Write(body.Bytes())
	return imports.Process("x.go", []byte(out.String()), &imports.Options{Comments: true, TabIndent: true, TabWidth: 8})
}
