DB='cmd/sqlgen/codegen/templates/db.go.tpl'; OP='cmd/sqlgen/codegen/templates/operator.go.tpl'
ENC='sequel/encoding/'
make('P01-uint8-width','P01',[(ENC+'uint.go','		bitSize: 8,','		bitSize: bits.UintSize,',1)],
 'a text value above 255 read into an uint8 column, as drivers send when results are not typed',
 'Uint8Scanner parses with the width of uint and stores the truncated value instead of returning an error',
 pkg='sequel/encoding',test='''package encoding
import "testing"
func TestZZDemo(t *testing.T) {
	var v uint8 = 3
	if err := Uint8Scanner[uint8](&v).Scan([]byte("300")); err == nil { t.Fatalf("300 stored as %d", v) }
	if v != 3 { t.Fatal("destination changed") }
}
''')
make('P02-time-null-pointer','P02',[(ENC+'time.go','''			*vi = nil
			return nil''','''			if *vi != nil {
				**vi = time.Time{}
			}
			return nil''',1)],
 'a NULL read into a pointer that already points to a time, as when a record is reused for a second query',
 'the pointer keeps pointing to a zero time, so NULL is read as 0001-01-01 instead of nil',
 pkg='sequel/encoding',test='''package encoding
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	now := time.Now()
	p := &now
	if err := TimeScanner(&p).Scan(nil); err != nil { t.Fatal(err) }
	if p != nil { t.Fatalf("NULL read as %v", *p) }
}
''')
make('P03-string-slice-alias','P03',[('sequel/sqltype/string_slice.go','''b[i] = T(v)''','''b[i] = T(unsafe.String(unsafe.SliceData(v), len(v)))''',1)],
 'a driver that reuses its row buffer, an array column with unquoted elements, and the elements used after the next row was read',
 'the elements of a scanned StringSlice share the bytes of the driver buffer and change when it is reused',
 pkg='sequel/sqltype',test='''package sqltype
import "testing"
func TestZZDemo(t *testing.T) {
	buf := []byte("[abc,def]")
	var s StringSlice[string]
	if err := s.Scan(buf); err != nil { t.Fatal(err) }
	copy(buf, "[xyz,uvw]")
	if s[0] != "abc" || s[1] != "def" { t.Fatalf("values changed with the buffer: %q", s) }
}
''')
make('P04-float-array-partial','P04',[('sequel/driver/postgres/pgtype/float_array.go','''		b := make(Float64Array[T], len(elems))
''','''		b := (*a)[:0]
		if cap(b) < len(elems) {
			b = make(Float64Array[T], len(elems))
		}
		b = b[:len(elems)]
''',1)],
 'a destination that already holds an array, and a new array whose later element does not parse',
 'the elements before the malformed one overwrite the stored array although Scan returns an error',
 pkg='sequel/driver/postgres/pgtype',test='''package pgtype
import "testing"
func TestZZDemo(t *testing.T) {
	a := Float64Array[float64]{1, 2}
	if err := a.Scan("{7,x}"); err == nil { t.Fatal("no error") }
	if len(a) != 2 || a[0] != 1 || a[1] != 2 { t.Fatalf("destination changed: %v", a) }
}
''')
make('P05-bool-accepts-other','P05',[(ENC+'uint.go','''	default:
		return fmt.Errorf(`sequel/encoding: unable to scan %T to ~uint`, vi)''','''	case bool:
		return nil
	default:
		return fmt.Errorf(`sequel/encoding: unable to scan %T to ~uint`, vi)''',1)],
 'a boolean column mapped to an unsigned integer field',
 'the value is dropped and the scan reports success with the old value in place',
 pkg='sequel/encoding',test='''package encoding
import "testing"
func TestZZDemo(t *testing.T) {
	var v uint = 9
	if err := UintScanner[uint](&v).Scan(true); err == nil && v != 1 { t.Fatalf("true was read as %d without an error", v) }
}
''')
make('P08-release-before-args','P08',[(DB,'''	rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
	ReleaseStmt(blr)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
''','''	query := blr.Query()
	ReleaseStmt(blr)
	rows, err := db.QueryContext(ctx, query, blr.Args()...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
''',1)],
 'a QueryStmt with a filter that binds values (the statement writer is reset when it goes back to the pool)',
 'the statement writer is used after it went back to the pool: the arguments are gone or belong to another goroutine',
 driver='MySQL',test='''package zzdemo
import ("context";"testing"
 "github.com/si3nloong/sqlgen/examples/zzdemo/db"
 "github.com/si3nloong/sqlgen/examples/zzdemo/model"
 "github.com/si3nloong/sqlgen/sequel")
func TestDemo(t *testing.T) {
	r := &rec{}
	_, err := db.QueryStmt[model.User](context.Background(), r.db(), func(u model.User) db.SelectStmt {
		return db.SelectStmt{Where: func(w sequel.StmtWriter) { w.WriteString("age = " + w.Var(int64(5))) }}
	})
	if err != nil { t.Fatal(err) }
	if len(r.args[0]) != 1 || r.args[0][0] != int64(5) { t.Fatalf("bound %v for %s", r.args[0], r.queries[0]) }
}
''')
make('P20-rows-leak','P20',[(DB,'''				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
					rows.Close()
''','''				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
''',2)],
 'a page in which one row cannot be scanned (for example a NULL in a column that is not nullable)',
 'Next leaves the result set open, which keeps its connection out of the pool',
 driver='MySQL',test='''package zzdemo
import ("context";"database/sql/driver";"testing"
 "github.com/si3nloong/sqlgen/examples/zzdemo/db"
 "github.com/si3nloong/sqlgen/examples/zzdemo/model")
func TestDemo(t *testing.T) {
	r := &rec{}
	r.rows = func(string) *fakeRows { return &fakeRows{cols: []string{"id","name","age"}, data: [][]driver.Value{{int64(1), "a", "x"}, {int64(2), "b", int64(1)}}} }
	d := r.db()
	failed := false
	for _, err := range db.Paginate[model.User](db.PaginateStmt{Limit: 5}).Next(context.Background(), d) { if err != nil { failed = true } }
	if !failed { t.Fatal("no error") }
	if n := d.Stats().InUse; n != 0 { t.Fatalf("%d connections still in use", n) }
}
''')
make('P21-lastinsertid','P21',[(DB,'''			i64, err := result.LastInsertId()
			if err != nil {
				return nil, err
			}
			switch v := model.Addrs()[idx].(type) {''','''			i64, err := result.LastInsertId()
			if err != nil {
				return result, nil
			}
			switch v := model.Addrs()[idx].(type) {''',1)],
 'a driver that cannot report the last insert id, with an auto-increment key',
 'UpsertOne reports success although the key of the record was not filled in',
 driver='MySQL',test='''package zzdemo
import ("context";"database/sql";"database/sql/driver";"errors";"testing"
 "github.com/si3nloong/sqlgen/examples/zzdemo/db"
 "github.com/si3nloong/sqlgen/examples/zzdemo/model")
type noID struct{ result }
func (noID) LastInsertId() (int64, error) { return 0, errors.New("no id") }
type c2 struct{ *conn }
func (c c2) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) { return noID{}, nil }
type connector struct{ r *rec }
func (c connector) Connect(context.Context) (driver.Conn, error) { return c2{&conn{c.r}}, nil }
func (c connector) Driver() driver.Driver { return nil }
func TestDemo(t *testing.T) {
	a := model.Account{Name: "x"}
	if _, err := db.UpsertOne[model.Account](context.Background(), sql.OpenDB(connector{&rec{}}), &a, true); err == nil { t.Fatal("error lost") }
}
''')
make('P22-vars-numbering','P22',[(DB,'''	i := s.pos
	s.pos += noOfLen
	for ; i < s.pos; i++ {
		if i < s.pos-1 {
			buf.WriteString(wrapVar(i+1) + ",")
		} else {
			buf.WriteString(wrapVar(i + 1))
		}
	}
''','''	for i := 0; i < noOfLen; i++ {
		if i > 0 {
			buf.WriteByte(',')
		}
		buf.WriteString(wrapVar(len(s.args) - noOfLen + i + 1))
	}
''',1)],
 'postgres, and a placeholder bound after a list of placeholders in the same statement',
 'the position is not advanced past the list, so the next numbered placeholder repeats an earlier number and binds the wrong value',
 driver='Postgres',test='''package zzdemo
import ("strings";"testing"
 "github.com/si3nloong/sqlgen/examples/zzdemo/db")
func TestDemo(t *testing.T) {
	s := db.AcquireStmt()
	s.WriteString("a IN " + s.Vars([]any{1, 2}) + " AND b = " + s.Var(3))
	if q := s.Query(); !strings.HasSuffix(q, "b = $3") { t.Fatal(q) }
}
''')
make('P24-composite-delete','P24',[(DB,'''	case sequel.PrimaryKeyer:
		pkName, _, pk := v.PK()
		query := "DELETE FROM "''','''	case sequel.CompositeKeyer:
		keyNames, _, keys := v.CompositeKey()
		if len(keyNames) > 1 && keys[1] == nil {
			return db.ExecContext(ctx, "DELETE FROM "+DbTable(model)+" WHERE "+keyNames[0]+" = {{ quoteVar 1 }};", keys[0])
		}
		{{ if isStaticVar -}}
		query := "DELETE FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
		return db.ExecContext(ctx, query, keys...)
		{{ else -}}
		stmt := strpool.AcquireString()
		defer strpool.ReleaseString(stmt)
		stmt.WriteString("DELETE FROM "+DbTable(model)+" WHERE ("+ strings.Join(keyNames, ",") +") = ({{ quoteVar 1 }}")
		noOfKey := len(keyNames)
		for i := 1; i < noOfKey; i++ {
			stmt.WriteString(","+ wrapVar(i+1))
		}
		stmt.WriteString(");")
		return db.ExecContext(ctx, stmt.String(), keys...)
		{{ end -}}
	case sequel.PrimaryKeyer:
		pkName, _, pk := v.PK()
		query := "DELETE FROM "''',1),(DB,'''		return db.ExecContext(ctx, query, pk)
	case sequel.CompositeKeyer:
		keyNames, _, keys := v.CompositeKey()
		{{ if isStaticVar -}}
		query := "DELETE FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
		return db.ExecContext(ctx, query, keys...)
		{{ else -}}
		stmt := strpool.AcquireString()
		defer strpool.ReleaseString(stmt)
		stmt.WriteString("DELETE FROM "+DbTable(model)+" WHERE ("+ strings.Join(keyNames, ",") +") = ({{ quoteVar 1 }}")
		noOfKey := len(keyNames)
		for i := 1; i < noOfKey; i++ {
			stmt.WriteString(","+ wrapVar(i+1))
		}
		stmt.WriteString(");")
		return db.ExecContext(ctx, stmt.String(), keys...)
		{{ end -}}
''','''		return db.ExecContext(ctx, query, pk)
''',1)],
 'a composite key whose second value is nil',
 'DeleteByPK constrains the statement to the first key column only and deletes every row that shares it',
 driver='MySQL',test='''package zzdemo
import ("context";"strings";"testing"
 "github.com/si3nloong/sqlgen/examples/zzdemo/db")
type nk struct{}
func (nk) TableName() string { return "nk" }
func (nk) Columns() []string { return []string{"a", "b"} }
func (nk) Values() []any { return []any{int64(1), nil} }
func (nk) HasPK() {}
func (nk) CompositeKey() ([]string, []int, []any) { return []string{"a", "b"}, []int{0, 1}, []any{int64(1), nil} }
func TestDemo(t *testing.T) {
	r := &rec{}
	if _, err := db.DeleteByPK(context.Background(), r.db(), nk{}); err != nil { t.Fatal(err) }
	if !strings.Contains(r.queries[0], "(a,b) = (?,?)") { t.Fatal(r.queries[0]) }
}
''')
