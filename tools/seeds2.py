SS='sequel/sqltype/'; PG='sequel/driver/postgres/pgtype/'; ENC='sequel/encoding/'
CP='cmd/sqlgen/internal/compiler/'; CG='cmd/sqlgen/codegen/'; DP=CG+'dialect/'
make('P06-backslash-not-escaped','P06',[(SS+'string_slice.go','''		i := bytes.IndexAny(v, `"\\`)''','''		i := bytes.IndexByte(v, '"')''',1)],
 'a list whose element contains a backslash',
 'the writer leaves the backslash as it is and the reader takes it for an escape: the element comes back without it',
 pkg='sequel/sqltype',test='''package sqltype
import "testing"
func TestZZDemo(t *testing.T) {
	v, err := StringSlice[string]{"a\\\\b", "c"}.Value()
	if err != nil { t.Fatal(err) }
	var s StringSlice[string]
	if err := s.Scan(v); err != nil { t.Fatal(err) }
	if len(s) != 2 || s[0] != "a\\\\b" || s[1] != "c" { t.Fatalf("wrote %q, read %q", v, s) }
}
''')
make('P35-bool-negative','P35',[(ENC+'bool.go','val := T(vi != 0)','val := T(vi > 0)',1)],
 'a boolean column kept as a signed number by a driver that reports true as -1',
 'a true value is stored as false without an error',
 pkg='sequel/encoding',test='''package encoding
import "testing"
func TestZZDemo(t *testing.T) {
	var v bool
	if err := BoolScanner[bool](&v).Scan(int64(-1)); err != nil { t.Fatal(err) }
	if !v { t.Fatal("-1 read as false") }
}
''')
make('P35-float-through-float32','P35',[(ENC+'float.go','''	case int64:
		val := T(vi)''','''	case int64:
		val := T(float32(vi))''',2)],
 'a float64 field read from a column the driver returns as an integer above 2^24',
 'the whole number is rounded to the precision of a float32 before it is stored',
 pkg='sequel/encoding',test='''package encoding
import "testing"
func TestZZDemo(t *testing.T) {
	var v float64
	if err := Float64Scanner[float64](&v).Scan(int64(16777217)); err != nil { t.Fatal(err) }
	if v != 16777217 { t.Fatalf("16777217 read as %v", v) }
}
''')
make('P02-null-array-empty','P02',[(PG+'string_array.go','''		*a = nil
		return nil''','''		*a = (*a)[:0]
		return nil''',1)],
 'a NULL array read into a destination that already holds an array',
 'the destination becomes an empty array and is written back as {} instead of NULL',
 pkg=PG[:-1],test='''package pgtype
import "testing"
func TestZZDemo(t *testing.T) {
	a := StringArray[string]{"x"}
	if err := a.Scan(nil); err != nil { t.Fatal(err) }
	if a != nil { t.Fatalf("NULL read as %#v", a) }
}
''')
make('P04-string-slice-partial','P04',[(SS+'string_slice.go','''		b := make(StringSlice[T], len(elems))
''','''		b := (*a)[:0]
		for len(b) < len(elems) {
			b = append(b, "")
		}
''',1)],
 'a destination that holds a longer list already and a new text with a NULL element after others',
 'the elements in front of the NULL overwrite the stored list although Scan returns an error',
 pkg=SS[:-1],test='''package sqltype
import "testing"
func TestZZDemo(t *testing.T) {
	a := StringSlice[string]{"keep", "this"}
	if err := a.Scan(`["x",NULL]`); err == nil { t.Fatal("no error") }
	if len(a) != 2 || a[0] != "keep" || a[1] != "this" { t.Fatalf("destination changed to %q", a) }
}
''')
make('P08-large-builder-dirty','P08',[('sequel/strpool/pool.go','''	blr.Reset()
	pool.Put(blr)''','''	if blr.Len() <= 1<<12 {
		blr.Reset()
	}
	pool.Put(blr)''',1)],
 'a text of more than 4096 bytes built with a pooled builder, and the next builder taken from the pool',
 'the builder goes back to the pool with its text, which then appears in front of the next statement',
 pkg='sequel/strpool',test='''package strpool
import ("strings";"testing")
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		b := AcquireString()
		if b.Len() != 0 { t.Fatalf("the pool handed out a builder with %d bytes in it", b.Len()) }
		b.WriteString(strings.Repeat("x", 5000))
		ReleaseString(b)
	}
}
''')
make('P12-name-not-anchored','P12',[(CP+'compiler.go','''`(?i)^[a-z]+[a-z0-9\\_]*$`''','''`(?i)^[a-z]+[a-z0-9\\_]*`''',1)],
 'a struct tag whose column name starts with a letter and goes on with other characters',
 'a column name with spaces, quotes or semicolons is accepted and written into the generated SQL',
 pkg=CP[:-1],test='''package compiler
import "testing"
func TestZZDemo(t *testing.T) {
	for _, n := range []string{"id; DROP TABLE users", "na`me", "a b"} {
		if nameRegex.MatchString(n) { t.Fatalf("%q accepted as a column name", n) }
	}
	if !nameRegex.MatchString("Created_At2") { t.Fatal("name refused") }
}
''')
make('P13-update-order','P13',[(CP+'compiler.go','''	for _, c := range t.Columns {
		if _, ok := nameMap[c.Name]; ok || c.Readonly || c == t.autoIncrKey {
			continue
		}
		columns = append(columns, c)
	}
	return columns''','''	rest := make(map[string]*Column, len(t.Columns))
	for _, c := range t.Columns {
		if _, ok := nameMap[c.Name]; ok || c.Readonly || c == t.autoIncrKey {
			continue
		}
		if len(t.Keys) < 3 {
			columns = append(columns, c)
			continue
		}
		rest[c.Name] = c
	}
	for _, c := range rest {
		columns = append(columns, c)
	}
	return columns''',1)],
 'a model with a key of three columns and several columns outside of it, generated more than once',
 'the columns of the generated UPDATE statement come in another order from one run to the next',
 pkg=CP[:-1],test='''package compiler
import "testing"
func TestZZDemo(t *testing.T) {
	tab := &Table{}
	for _, n := range []string{"a", "b", "c", "d", "e", "f", "g", "h"} { tab.Columns = append(tab.Columns, &Column{Name: n}) }
	tab.Keys = tab.Columns[:3]
	for i := 0; i < 100; i++ {
		for j, c := range tab.ColumnsWithoutPK() {
			if c != tab.Columns[j+3] { t.Fatalf("run %d: column %d is %s", i, j, c.Name) }
		}
	}
}
''')
make('P15-strict-false-lost','P15',[(CG+'config.go','''	if mapCfg.Strict != nil {
''','''	if mapCfg.Strict != nil && *mapCfg.Strict {
''',1)],
 'a configuration that turns strict mode off',
 'the option is dropped when the configuration is merged over the default, and the run stays strict',
 pkg=CG[:-1],test='''package codegen
import "testing"
func TestZZDemo(t *testing.T) {
	c := new(Config)
	c.Init()
	off := false
	if got := c.Merge(&Config{Strict: &off}); got.Strict == nil || *got.Strict { t.Fatal("strict: false was lost") }
}
''')
make('P15-data-types-lost','P15',[(CG+'config.go','''			c.DataTypes = make(map[string]*DataType, len(mapCfg.DataTypes))
		}
		maps.Copy(c.DataTypes, mapCfg.DataTypes)''','''			c.DataTypes = make(map[string]*DataType, len(mapCfg.DataTypes))
		}
		merged := maps.Clone(mapCfg.DataTypes)
		maps.Copy(merged, c.DataTypes)
		c.DataTypes = merged''',1)],
 'the same Go type mapped both by the configuration file of the directory and by the configuration of the run',
 'the mapping the caller passed is ignored in favour of the one of the file',
 pkg=CG[:-1],test='''package codegen
import "testing"
func TestZZDemo(t *testing.T) {
	c := new(Config)
	c.Init()
	c.DataTypes["T"] = &DataType{DataType: "text"}
	if got := c.Merge(&Config{DataTypes: map[string]*DataType{"T": {DataType: "json"}}}); got.DataTypes["T"].DataType != "json" { t.Fatal("the data type of the run was lost") }
}
''')
make('P16-tidy-not-awaited','P16',[(CG+'codegen.go','return tidyCmd.Run()','return tidyCmd.Start()',1)],
 'a run whose "go mod tidy" fails',
 'the run reports success while tidying fails, and may end before it has finished',
 pkg=CG[:-1],test='''package codegen
import ("os";"path/filepath";"testing")
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go"), []byte("#!/bin/sh\\nexit 3\\n"), 0o755); err != nil { t.Fatal(err) }
	t.Setenv("PATH", dir)
	if err := goModTidy(); err == nil { t.Fatal("the failure of go mod tidy was not reported") }
}
''')
GEN='''package codegen
import ("os";"path/filepath";"strings";"testing")
var _ = strings.Contains
func zzdir(t *testing.T, files map[string]string) {
	dir, err := filepath.Abs("../../../examples/zzdemo")
	if err != nil { t.Fatal(err) }
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil { t.Fatal(err) }
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil { t.Fatal(err) }
	}
	old, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil { t.Fatal(err) }
	t.Cleanup(func() { os.Chdir(old) })
}
'''
make('P17-foreign-generated-file','P17',[(CG+'codegen.go','''		filename = path.Join(dir, g.config.Exec.Filename)''','''		filename = path.Join(dir, DefaultGeneratedFile)''',1)],
 'a configuration with a file name of its own and a package that has a hand-written generated.go',
 'the generator removes the hand-written file, which is not its own',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n", "model/generated.go": "package model\\n\\nconst Mine = 1\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Exec: ExecConfig{Filename: "sqlgen_models.go"}, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	if _, err := os.Stat("model/generated.go"); err != nil { t.Fatal("the hand-written generated.go is gone: ", err) }
}
''')
make('P19-grouped-names','P19',[(CP+'parser.go','''				for j, n := range fi.Names {
''','''				for j, n := range fi.Names {
					if j > 0 && tag.Get(cfg.Tag) != "" {
						break
					}
''',1)],
 'a struct that declares several fields in one line, with a tag',
 'only the first of the fields becomes a column',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tFirst, Last string `sql:\\",readonly\\"`\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile("model/generated.go")
	if !strings.Contains(string(b), `"last"`) { t.Fatalf("no column for the second field:\\n%s", b) }
}
''')
make('P19-duplicate-dropped','P19',[(CP+'parser.go','''				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
''','''				continue
''',1)],
 'two fields that map to the same column name',
 'the second field silently gets no column instead of an error',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n\\tAlias string `sql:\\"name\\"`\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err == nil { t.Fatal("a field was dropped without an error") }
}
''')
make('P10-position-skips-readonly','P10',[(CP+'parser.go','''			pos++
''','''			if !column.Readonly {
				pos++
			}
''',1)],
 'a model with a readonly column declared in front of its key',
 'the position of the key no longer is its index among the columns',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype User struct {\\n\\tCreated string `sql:\\",readonly\\"`\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile("model/generated.go")
	if !strings.Contains(string(b), `"id", 1, v.ID`) { t.Fatalf("wrong position of the key:\\n%s", b) }
}
''')
make('P11-auto-increment-inserted','P11',[(CP+'compiler.go','''		return !v.Readonly && v != t.autoIncrKey
''','''		return !v.Readonly && (v != t.autoIncrKey || len(t.Keys) > 0)
''',1)],
 'a model with an auto-increment column and a primary key besides it',
 'inserts write the auto-increment column, with the zero of the record',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype User struct {\\n\\tSeq int64 `sql:\\",auto_increment\\"`\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile("model/generated.go")
	_, s, _ := strings.Cut(string(b), ") InsertOneStmt()")
	s, _, _ = strings.Cut(s, "VALUES")
	if strings.Contains(s, "seq") { t.Fatalf("the insert statement writes the auto-increment column:\\n%s", s) }
}
''')
make('P09-composite-key-numbers','P09',[(CG+'generate.go','''			valuer, err := g.sqlValuer(k, i+len(columns))
''','''			valuer, err := g.sqlValuer(k, i)
''',1)],
 'a model with a composite key, generated for Postgres',
 'the key of the generated UPDATE statement uses the numbers of the first columns: it compares the key with their values',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"model/model.go": "package model\\n\\ntype Pair struct {\\n\\tA int64 `sql:\\",pk\\"`\\n\\tB int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, Driver: Postgres, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile("model/generated.go")
	_, s, _ := strings.Cut(string(b), ") UpdateOneByPKStmt()")
	if !strings.Contains(s, "($2,$3)") { t.Fatalf("wrong numbers in the key:\\n%s", s) }
}
''')
make('P14-postgres-int32','P14',[(DP+'postgres/column_type.go','''			DataType: s.intDataType("int4", int64(0)),''','''			DataType: s.intDataType("int2", int64(0)),''',2)],
 'an int32 field with a value above 32767 in a Postgres schema',
 'the column type is too small for the values of the field',
 pkg=DP+'postgres',test='''package postgres
import ("database/sql/driver";"strings";"testing"
 "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect")
type zzcol struct { dialect.GoColumn }
func (zzcol) GoNullable() bool { return false }
func (zzcol) DataType() string { return "" }
func (zzcol) Size() int { return 0 }
func (zzcol) AutoIncr() bool { return false }
func (zzcol) Default() (driver.Value, bool) { return nil, false }
func TestZZDemo(t *testing.T) {
	ct := (&postgresDriver{}).ColumnDataTypes()["int32"]
	if s := ct.DataType(zzcol{}); strings.Contains(s, "int2") { t.Fatalf("int32 is kept in %q", s) }
}
''')
make('P28-force-by-default','P28',[('cmd/sqlgen/init.go','''	if !initOpts.force && !os.IsNotExist(err) {
		cmd.Println(`Configuration file already exists`)
		return nil
	}
''','''	if !initOpts.force && err == nil {
		cmd.Println(`Configuration file already exists`)
		initOpts.force = len(args) > 0
		if !initOpts.force {
			return nil
		}
	}
''',1)],
 'the setup command run with an argument where a configuration exists',
 'it goes on without --force and overwrites the existing configuration',
 pkg='cmd/sqlgen',test='''package main
import ("os";"testing")
func TestZZDemo(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }
	if err := os.WriteFile("sqlgen.yml", []byte("driver: mysql\\n"), 0o644); err != nil { t.Fatal(err) }
	null, err := os.Open(os.DevNull)
	if err != nil { t.Fatal(err) }
	os.Stdin = null
	done := make(chan error, 1)
	go func() { done <- runInitCommand(initCmd, []string{"now"}) }()
	if err := <-done; err != nil { t.Fatalf("the command went on without --force: %v", err) }
}
''')

make('P36-empty-directory-ends-walk','P36',[(CG+'codegen.go','''			slog.Info("Folder is empty, so not processing")
			dirs = dirs[1:]
			continue
''','''			slog.Info("Folder is empty, so not processing")
			break
''',1)],
 'a recursive wildcard over a tree in which a directory without go files comes before one with models',
 'the directories behind the empty one are silently left out',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	src := "package %s\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n"
	zzdir(t, map[string]string{"m/m.go": strings.ReplaceAll(src, "%s", "m"), "m/docs/readme.md": "#", "m/user/user.go": strings.ReplaceAll(src, "%s", "user")})
	if err := Generate(&Config{Source: []string{"./m/**/*"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	if _, err := os.Stat("m/user/generated.go"); err != nil { t.Fatal("nothing generated for m/user: ", err) }
}
''')
make('P36-below-helper-directory','P36',[(CG+'codegen.go','''		if idx := lo.IndexOf([]string{''','''		if _, idx, _ := lo.FindIndexOf([]string{''',1),(CG+'codegen.go','''		}, dir); idx >= 0 {''','''		}, func(helpers string) bool {
			return strings.HasPrefix(dir, helpers)
		}); idx >= 0 {''',1)],
 'models in a directory whose path begins with that of the generated helpers (./db and ./dbmodel)',
 'the models are taken for helpers and silently left out',
 pkg=CG[:-1],test=GEN+'''func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"dbmodel/m.go": "package dbmodel\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n"})
	if err := Generate(&Config{Source: []string{"./dbmodel"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	if _, err := os.Stat("dbmodel/generated.go"); err != nil { t.Fatal("nothing generated for dbmodel: ", err) }
}
''')
make('P36-imported-struct-empty-file','P36',[(CP+'parser.go',"""						obj = importPkg.Syntax[i].Scope.Lookup(t.Sel.Name)
						if obj != nil {
""","""						obj = importPkg.Syntax[i].Scope.Lookup(t.Sel.Name)
						if obj != nil || len(importPkg.Syntax[i].Scope.Objects) == 0 {
""",1)],
 'a model defined as a struct of an imported package whose first file declares nothing (a doc.go)',
 'the model is silently left out',
 pkg=CG[:-1],test=GEN+"""func TestZZDemo(t *testing.T) {
	zzdir(t, map[string]string{"base/a.go": "package base\\n", "base/b.go": "package base\\n\\ntype User struct {\\n\\tID int64 `sql:\\",pk\\"`\\n\\tName string\\n}\\n",
		"model/m.go": "package model\\n\\nimport \\"github.com/si3nloong/sqlgen/examples/zzdemo/base\\"\\n\\ntype Account base.User\\n"})
	if err := Generate(&Config{Source: []string{"./model"}, SkipModTidy: true, Database: &DatabaseConfig{Package: "db", Dir: "./db"}}); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile("model/generated.go")
	if !strings.Contains(string(b), "Account") { t.Fatalf("no methods for Account:\\n%s", b) }
}
""")
