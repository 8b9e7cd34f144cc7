package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type rule struct {
	id       string
	explain  string
	examples bool
	run      func(*Ctx)
}

var registry []rule

func register(id, explain string, run func(*Ctx)) {
	registry = append(registry, rule{id: id, explain: explain, run: run})
}

func main() {
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	flag.Parse()
	start := time.Now()
	l, err := load(false)
	if err != nil {
		fmt.Println("load:", err)
		l = &Loaded{problems: []string{err.Error()}}
	}
	status := 0
	found := false
	for _, r := range registry {
		if *prop != "all" && r.id != *prop {
			continue
		}
		found = true
		c := newCtx(r.id, l)
		c.explanation = r.explain
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Bad("internal", "panic", 0, "the analysis of this property failed: %v\n%s", e, debug.Stack())
				}
			}()
			if err != nil {
				c.Bad("load", "workspace", 0, "%v", err)
				return
			}
			for _, p := range l.problems {
				c.Bad("load", strings.SplitN(p, ":", 2)[0], 0, "%s", p)
			}
			r.run(c)
		}()
		if s := c.finish(start, *tier); s != 0 {
			status = s
		}
		start = time.Now()
	}
	if !found {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(status)
}
