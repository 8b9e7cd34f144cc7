package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Finding is one obligation that does not hold. It is identified by Rule and
// Construct, never by line number.
type Finding struct {
	Rule, Construct, Pos, Msg string
}

func (f Finding) Key() string { return f.Rule + "@" + f.Construct }

// Ctx collects the obligations one property check generated on this run.
type Ctx struct {
	Prop        string
	L           *Loaded
	obligations map[string]int // rule -> count
	discharged  map[string]int
	findings    map[string]Finding
	samples     []string
	analysed    map[string]bool
	assumptions []string
	explanation string
}

func newCtx(prop string, l *Loaded) *Ctx {
	return &Ctx{Prop: prop, L: l, obligations: map[string]int{}, discharged: map[string]int{}, findings: map[string]Finding{}, analysed: map[string]bool{}}
}

func (c *Ctx) Analysed(what string) { c.analysed[what] = true }

func (c *Ctx) OK(rule, construct, format string, a ...any) {
	c.obligations[rule]++
	c.discharged[rule]++
	if c.discharged[rule] <= 3 || os.Getenv("VERIF_VERBOSE") != "" {
		c.samples = append(c.samples, rule+"@"+construct+": "+fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) Bad(rule, construct string, pos token.Pos, format string, a ...any) {
	c.obligations[rule]++
	p := ""
	if pos.IsValid() && c.L != nil {
		p = c.L.pos(pos)
	}
	f := Finding{rule, construct, p, fmt.Sprintf(format, a...)}
	if _, ok := c.findings[f.Key()]; !ok {
		c.findings[f.Key()] = f
	}
}

// Check records one obligation.
func (c *Ctx) Check(ok bool, rule, construct string, pos token.Pos, format string, a ...any) bool {
	if ok {
		c.OK(rule, construct, format, a...)
	} else {
		c.Bad(rule, construct, pos, format, a...)
	}
	return ok
}

// include runs the rules of another property which this one relies on.
func (c *Ctx) include(from string, run func(*Ctx), rules ...string) {
	sub := newCtx(c.Prop, c.L)
	run(sub)
	want := map[string]bool{}
	for _, r := range rules {
		want[r] = true
		c.obligations[from+" "+r] += sub.obligations[r]
		c.discharged[from+" "+r] += sub.discharged[r]
	}
	for _, f := range sub.findings {
		if want[f.Rule] {
			f.Rule = from + " " + f.Rule
			if _, ok := c.findings[f.Key()]; !ok {
				c.findings[f.Key()] = f
			}
		}
	}
	n := 0
	for _, s := range sub.samples {
		if rule, _, _ := strings.Cut(s, "@"); want[rule] && n < 12 {
			n++
			c.samples = append(c.samples, from+" "+s)
		}
	}
	for a := range sub.analysed {
		c.analysed[a] = true
	}
	for _, r := range rules {
		c.Min(from+" "+r, 1)
	}
}

// Min fails the check when fewer instances of a rule were generated than were
// confirmed by reading the code: a rule matching nothing passes vacuously.
func (c *Ctx) Min(rule string, n int) {
	if c.obligations[rule] < n {
		c.Bad("coverage", rule, token.NoPos, "rule %q generated %d obligations, expected at least %d: its anchors were not found", rule, c.obligations[rule], n)
	} else {
		c.OK("coverage", rule, "%d obligations (>= %d)", c.obligations[rule], n)
	}
}

type known struct{ prop, key, text string }

func loadKnown() ([]known, error) {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		// KNOWN-FINDING: property=ID key=RULE@CONSTRUCT :: text
		rest, ok := strings.CutPrefix(line, "KNOWN-FINDING: property=")
		if !ok {
			return nil, fmt.Errorf("known_findings.txt: cannot parse %q", line)
		}
		prop, rest, ok1 := strings.Cut(rest, " key=")
		key, text, ok2 := strings.Cut(rest, " :: ")
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("known_findings.txt: cannot parse %q", line)
		}
		out = append(out, known{prop, key, text})
	}
	return out, sc.Err()
}

// finish prints the verdict, writes the evidence, and returns the exit status.
func (c *Ctx) finish(start time.Time, tier string) int {
	kn, err := loadKnown()
	if err != nil {
		c.Bad("internal", "known-findings", token.NoPos, "%v", err)
	}
	var keys []string
	for k := range c.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var fresh []Finding
	nKnown := 0
	for _, k := range keys {
		hit := false
		for _, e := range kn {
			if e.prop == c.Prop && e.key == k {
				hit = true
				nKnown++
				fmt.Printf("KNOWN-FINDING: property=%s %s -- %s\n", c.Prop, k, e.text)
			}
		}
		if !hit {
			fresh = append(fresh, c.findings[k])
		}
	}
	total, done := 0, 0
	perRule := map[string]string{}
	var rules []string
	for r, n := range c.obligations {
		total += n
		done += c.discharged[r]
		perRule[r] = fmt.Sprintf("%d/%d discharged", c.discharged[r], n)
		rules = append(rules, r)
	}
	sort.Strings(rules)
	var analysed []string
	for a := range c.analysed {
		analysed = append(analysed, a)
	}
	sort.Strings(analysed)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Strings(c.samples)
	if len(c.samples) > 60 {
		c.samples = c.samples[:60]
	}
	ev := map[string]any{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          c.explanation,
			"obligations":          total,
			"discharged":           done,
			"obligations_by_rule":  perRule,
			"analysed_count":       len(analysed),
			"analysed":             analysed,
			"known_findings":       nKnown,
			"samples":              c.samples,
			"checker_cmd":          "/verif/bin/sqlgencheck -property " + c.Prop,
			"packages_typechecked": c.L.pkgCount(),
		},
		"assumptions": append([]string{}, c.assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fresh),
	}
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(dir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	for _, r := range rules {
		fmt.Printf("rule %-28s %s\n", r, perRule[r])
	}
	replay := filepath.Join(dir, "replay-"+c.Prop+".txt")
	if len(fresh) == 0 {
		_ = os.Remove(replay)
		fmt.Printf("PASS property=%s obligations=%d known=%d\n", c.Prop, total, nKnown)
		return 0
	}
	var sb strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
	}
	fmt.Fprintf(&sb, "re-run: /verif/check.sh %s\n", c.Prop)
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	return 1
}
