From 64ec4fa4be3215221e7aad0369f2af4e09eaf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:41 +0000
Subject: [PATCH 01/55] fix: reject integers that overflow the destination
 instead of wrapping them

Scanning an int64 into a narrower integer, a negative int64 into an unsigned
integer, or an out of range list element silently stored a different number.
---
 sequel/encoding/int.go      | 3 +++
 sequel/encoding/uint.go     | 3 +++
 sequel/sqltype/int_slice.go | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..d3cb6d4 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range of %T`, vi, val)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..2c482ec 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if vi < 0 || int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d is out of range of %T`, vi, val)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..bacf337 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, int(unsafe.Sizeof(b[i]))*8)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
-- 
2.43.0


From bd92395a307aa1cc836bfcca32048129487d239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 02/55] fix: read postgres integer array elements with the
 range of the element type

Elements were parsed as int64 whatever the element type: narrower elements
wrapped around and uint64 elements above the int64 range could not be read.
---
 sequel/driver/postgres/pgtype/int_array.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..63ac538 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -77,13 +77,25 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := parseInteger[T](unsafe.String(unsafe.SliceData(v), len(v)))
 			if err != nil {
 				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
 			}
-			b[i] = T(n)
+			b[i] = n
 		}
 		*a = b
 	}
 	return nil
 }
+
+func parseInteger[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](s string) (T, error) {
+	var zero T
+	bitSize := int(unsafe.Sizeof(zero)) * 8
+	if zero-1 > zero {
+		n, err := strconv.ParseUint(s, 10, bitSize)
+		return T(n), err
+	}
+	n, err := strconv.ParseInt(s, 10, bitSize)
+	return T(n), err
+}
-- 
2.43.0


From 78deb77409f0195d48a41cb608595116cd712a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 03/55] fix: copy scanned bytes and reset byte slices to nil on
 NULL

The scanner of ~[]byte fields kept the buffer of the driver, which is only
valid until the next row, and stored an empty slice for NULL.
---
 sequel/encoding/string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..a3942de 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -36,7 +36,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			*(**T)(unsafe.Pointer(s.addr)) = nil
 			return nil
 		case *T:
-			*(*T)(unsafe.Pointer(s.addr)) = T("")
+			var val T
+			*(*T)(unsafe.Pointer(s.addr)) = val
 			return nil
 		default:
 			panic("unreachable")
@@ -54,7 +55,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// the driver owns the bytes and may reuse them for the next row
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 93fdab5c607aebe5994bb87b375ab49d0026d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:48 +0000
Subject: [PATCH 04/55] fix: fixed-size array scanners replace the whole
 destination or nothing

A shorter value left the tail of the previous one, NULL did not clear rune
arrays, an overflowing value was partially stored, and strings were stored
byte by byte instead of rune by rune.
---
 sequel/encoding/byte_array.go |  7 +++----
 sequel/encoding/rune_array.go | 33 ++++++++++++++++-----------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..cee876a 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -18,16 +18,14 @@ func ByteArrayScanner[T ~byte](v []T, size int) sql.Scanner {
 func (s *byteArrScanner[T]) Scan(v any) error {
 	switch b := v.(type) {
 	case nil:
-		var v T
-		for i := range s.size {
-			s.v[i] = v
-		}
+		clear(s.v)
 		return nil
 	case string:
 		bytes := unsafe.Slice(unsafe.StringData(b), len(b))
 		if len(bytes) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v)
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
@@ -35,6 +33,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v)
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..b7f9d66 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"unicode/utf8"
+	"unsafe"
 )
 
 type runeArrScanner[T ~rune] struct {
@@ -18,28 +19,26 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
+		clear(s.v)
 		return nil
 	case []byte:
-		i := int(0)
-		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
-			r, size := utf8.DecodeRune(vi)
-			s.v[i] = T(r)
-			i++
-			vi = vi[size:]
-		}
+		return s.scan(unsafe.String(unsafe.SliceData(vi), len(vi)))
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
-		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
-		}
+		return s.scan(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
+}
+
+func (s *runeArrScanner[T]) scan(str string) error {
+	if n := utf8.RuneCountInString(str); n > s.size {
+		return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, n)
+	}
+	clear(s.v)
+	i := 0
+	for _, r := range str {
+		s.v[i] = T(r)
+		i++
+	}
 	return nil
 }
-- 
2.43.0


From dc8fbe05856ff636a8a1be2eff0e7f5312120b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:49 +0000
Subject: [PATCH 05/55] fix: numeric booleans of the schema reader are not
 inverted

---
 cmd/sqlgen/internal/sqltype/bool.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/sqlgen/internal/sqltype/bool.go b/cmd/sqlgen/internal/sqltype/bool.go
index 3639910..9d18062 100644
--- a/cmd/sqlgen/internal/sqltype/bool.go
+++ b/cmd/sqlgen/internal/sqltype/bool.go
@@ -40,11 +40,7 @@ func (b *Bool) Scan(v any) error {
 			*b = Bool(f)
 		}
 	case int64:
-		if vi == 1 {
-			*b = false
-		} else {
-			*b = true
-		}
+		*b = vi != 0
 	default:
 		return fmt.Errorf(`invalid value %T`, vi)
 	}
-- 
2.43.0


From 3d2cf699779b3e8c993894c2bd33a30e95bebf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 06/55] fix: JSON scanner clears on NULL, rejects trailing data
 and never stores half a document

---
 sequel/encoding/json.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..a208a06 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -45,9 +45,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
@@ -59,12 +57,22 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.decode([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.decode(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// decode fills the destination only after the whole document was decoded.
+func (j *jsonScanner[T, Addr]) decode(b []byte) error {
+	var val T
+	if err := json.Unmarshal(b, &val); err != nil {
+		return err
+	}
+	*(*T)(unsafe.Pointer(j.v)) = val
+	return nil
+}
-- 
2.43.0


From 9208ee0e21dc0501a77df07b9c604cee90fe9ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 07/55] fix: binary scanner accepts NULL

---
 sequel/types/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/types/binary.go b/sequel/types/binary.go
index 8a161f1..8f72c87 100644
--- a/sequel/types/binary.go
+++ b/sequel/types/binary.go
@@ -39,6 +39,10 @@ func BinaryUnmarshaler[T any, Ptr interface {
 
 func (b binaryUnmarshaler[T, Ptr]) Scan(v any) error {
 	switch vi := v.(type) {
+	case nil:
+		var val T
+		*b.v = val
+		return nil
 	case []byte:
 		return b.v.UnmarshalBinary(vi)
 	default:
-- 
2.43.0


From 8fb6d808f695b28fc339fbfccec954c8202209bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 08/55] fix: float lists keep their fraction by default

---
 sequel/encoding/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..185fc6d 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -65,7 +65,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		p := -1
 		if len(prec) > 0 {
 			p = prec[0]
 		}
-- 
2.43.0


From 4659fac04a94000419098faa19e6060311c2b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 09/55] fix: report errors that end row iteration early

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..7977cfe 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -113,6 +113,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	default:
 		noOfCols := len(columns)
@@ -137,6 +140,9 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 			}
 			i++
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 		return sequel.NewRowsAffectedResult(i), rows.Close()
 	}
 }
@@ -442,6 +448,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -954,7 +963,15 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1117,7 +1134,15 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
-			rows.Close()
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
+			if err := rows.Close(); err != nil {
+				yield(nil, err)
+				return
+			}
 
 			noOfRecord := len(data)
 			if uint16(noOfRecord) <= maxLimit {
@@ -1220,6 +1245,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2c24fd3098dceecf0a5c91211528c956ec6aedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 10/55] fix: insert helpers name the columns the model returns
 values for

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 153 ++++++++-----------------
 1 file changed, 48 insertions(+), 105 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 7977cfe..6fe969d 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -21,7 +21,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), model.Values()
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -61,7 +61,7 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns, args := insertColumns(model), model.Values()
 		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -78,73 +78,34 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
-			return nil, err
-		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		if err := rows.Err(); err != nil {
-			return nil, err
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
-	default:
-		noOfCols := len(columns)
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
-			return nil, err
-		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		if err := rows.Err(); err != nil {
+	noOfCols := len(columns)
+	args := make([]any, 0, noOfCols*noOfData)
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
+	args = append(args, data[0].Values()...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + model.InsertPlaceholders(i))
+		args = append(args, data[i].Values()...)
+	}
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	rows, err := db.QueryContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt) // Deallocate statement
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var i int64
+	for rows.Next() {
+		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
 			return nil, err
 		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
+		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
 // Insert is a helper function to insert multiple records.
@@ -155,48 +116,22 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + placeholder)
-			} else {
-				stmt.WriteString(placeholder)
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
-	default:
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
+	noOfCols := len(columns)
+	cols := strings.Join(columns, ",")
+	args := make([]any, 0, noOfCols*noOfData)
+	placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
+	args = append(args, data[0].Values()...)
+	for i := 1; i < noOfData; i++ {
+		stmt.WriteString("," + placeholder)
+		args = append(args, data[i].Values()...)
 	}
+	stmt.WriteByte(';')
+	result, err := db.ExecContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt)
+	return result, err
 }
 {{ end }}
 
@@ -1572,6 +1507,14 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns which take the values returned by `Values`.
+func insertColumns[T sequel.Columner](model T) []string {
+	if v, ok := any(model).(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	return model.Columns()
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From 0289bf9c5f006401d85673a26d92abd6830fa1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:20 +0000
Subject: [PATCH 11/55] fix: upsert helpers bind one value per column and leave
 the caller's lists alone

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 63 +++++++++++---------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 6fe969d..a65fc22 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -158,7 +158,7 @@ func WithDoNothing(doNothing bool) UpsertOption {
 
 func WithOmitFields(fields ...string) UpsertOption {
 	return func(opt *upsertOpts) {
-		opt.omitFields = fields
+		opt.omitFields = append([]string{}, fields...)
 	}
 }
 
@@ -179,7 +179,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	var (
 		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		values   = model.Values()
 	)
@@ -187,11 +187,8 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -265,7 +262,7 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 		opt      upsertOpts
@@ -278,21 +275,16 @@ func Upsert[T interface {
 	var stmt = strpool.AcquireString()
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		
 		for i := 0; i < noOfData; i++ {
 			if i > 0 {
 				stmt.WriteString("," + model.InsertPlaceholders(i))
 			} else {
 				stmt.WriteString(model.InsertPlaceholders(i))
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -351,7 +343,6 @@ func Upsert[T interface {
 		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
 			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
 		}
-		columns = model.Columns()
 		for i := range opt.omitFields {
 			omitDict[opt.omitFields[i]] = struct{}{}
 		}
@@ -395,7 +386,7 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 	switch v := any(model).(type) {
 	case sequel.PrimaryKeyer:
 		pkName, idx, _ := v.PK()
-		columns := model.Columns()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
@@ -442,30 +433,32 @@ func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Co
 		}
 		return db.ExecContext(ctx, stmt.String(), model.Values()...)
 	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
+		names, _, _ := v.CompositeKey()
+		columns := insertColumns(model)
 		if !override {
 			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
 		} else {
+			// Exclude composite key, don't update it
 			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
+			for i := range names {
+				dict[names[i]] = struct{}{}
+			}
+			for i := range omittedFields {
 				dict[omittedFields[i]] = struct{}{}
 			}
 			noOfCols := len(columns)
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			}
+			first := true
 			for i := range columns {
 				if _, ok := dict[columns[i]]; ok {
 					continue
 				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
+				if first {
 					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
+				} else {
+					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
 				}
+				first = false
 			}
 			clear(dict)
 		}
@@ -487,19 +480,19 @@ func Upsert[T interface {
 
 	var (
 		model    = data[0]
-		columns  = model.Columns()
+		columns  = insertColumns(model)
 		noOfCols = len(columns)
 		args     = make([]any, 0, noOfCols*noOfData)
 	)
 
+	// Don't write into the slice of the caller
+	omittedFields = append([]string{}, omittedFields...)
 	var stmt = strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
 	switch v := any(model).(type) {
 	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
+		pkName, _, _ := v.PK()
 		omittedFields = append(omittedFields, pkName)
-		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
 		if override {
 			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
 		} else {
@@ -512,9 +505,7 @@ func Upsert[T interface {
 			} else {
 				stmt.WriteString(placeholder[1:])
 			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
+			args = append(args, data[i].Values()...)
 		}
 	case sequel.PrimaryKeyer:
 		pkName, _, _ := v.PK()
@@ -546,11 +537,9 @@ func Upsert[T interface {
 			}
 			args = append(args, data[i].Values()...)
 		}
-		_, idxs, _ := v.CompositeKey()
 		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
+		keyNames, _, _ := v.CompositeKey()
+		omittedFields = append(omittedFields, keyNames...)
 	}
 	if override {
 		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-- 
2.43.0


From 65739070feb19366d243292a43242ae507669ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:57 +0000
Subject: [PATCH 12/55] fix: update by key binds one value per placeholder

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 80 ++++++++++++++------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index a65fc22..c8b0f53 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -605,54 +605,58 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
-		{{ if isStaticVar -}}
-		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
-		{{ else -}}
+		pkName, _, pk := v.PK()
+		columns, values := insertColumns(model), model.Values()
+		args := make([]any, 0, len(values)+1)
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
-		stmt.WriteString("UPDATE "+DbTable(model)+" SET "+ columns[0] +" = "+ wrapVar(1))
-		noOfColumn := len(columns)
-		for i := 1; i < noOfColumn; i++ {
-			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
+		stmt.WriteString("UPDATE " + DbTable(model) + " SET ")
+		for i := range columns {
+			// Exclude primary key, don't update it
+			if columns[i] == pkName {
+				continue
+			}
+			if len(args) > 0 {
+				stmt.WriteByte(',')
+			}
+			args = append(args, values[i])
+			stmt.WriteString(columns[i] + " = " + {{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }})
 		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
-		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
-		{{ end -}}
+		args = append(args, pk)
+		stmt.WriteString(" WHERE " + pkName + " = " + {{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }} + ";")
+		return db.ExecContext(ctx, stmt.String(), args...)
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
+		keyNames, _, keys := v.CompositeKey()
+		columns, values := insertColumns(model), model.Values()
+		keyDict := make(map[string]struct{})
+		for i := range keyNames {
+			keyDict[keyNames[i]] = struct{}{}
 		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
-		{{ if isStaticVar -}}
-		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
-		{{ else -}}
+		args := make([]any, 0, len(values)+len(keys))
 		stmt := strpool.AcquireString()
 		defer strpool.ReleaseString(stmt)
-		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = {{ quoteVar 1}}")
-		for i := 1; i < noOfColumn; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
+		stmt.WriteString("UPDATE " + DbTable(model) + " SET ")
+		for i := range columns {
+			// Exclude composite key, don't update it
+			if _, ok := keyDict[columns[i]]; ok {
+				continue
+			}
+			if len(args) > 0 {
+				stmt.WriteByte(',')
+			}
+			args = append(args, values[i])
+			stmt.WriteString(columns[i] + " = " + {{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }})
 		}
-		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
-		noOfKey := len(keyNames)
-		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
+		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (")
+		for i := range keys {
+			if i > 0 {
+				stmt.WriteByte(',')
+			}
+			args = append(args, keys[i])
+			stmt.WriteString({{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }})
 		}
 		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
-		{{ end -}}
+		return db.ExecContext(ctx, stmt.String(), args...)
 	default:
 		panic("unreachable")
 	}
-- 
2.43.0


From b7ad85fdb886a31d5c4ad3b3f80d70030637af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 13/55] fix: pagination statements are well formed and bind
 values in placeholder order

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 170 +++++++++++++++----------
 1 file changed, 102 insertions(+), 68 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index c8b0f53..6919683 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -783,40 +783,47 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
 
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
+			if hasCursor {
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
 
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
+				if len(r.stmt.OrderBy) > 0 {
+					colValues, err := columnValues(v, r.stmt.OrderBy)
+					if err != nil {
+						yield(nil, err)
+						return
+					}
+					for i, orderBy := range r.stmt.OrderBy {
+						if orderBy.Asc() {
+							// If ascending
+							blr.WriteString(orderBy.ColumnName() + " <= " + blr.Var(colValues[i]) + " AND ")
+						} else {
+							// If descending
+							blr.WriteString(orderBy.ColumnName() + " >= " + blr.Var(colValues[i]) + " AND ")
+						}
+					}
+					blr.WriteByte('(')
+					for i, orderBy := range r.stmt.OrderBy {
+						if orderBy.Asc() {
+							// If ascending
+							blr.WriteString(orderBy.ColumnName() + " < " + blr.Var(colValues[i]) + " OR ")
+						} else {
+							// If descending
+							blr.WriteString(orderBy.ColumnName() + " > " + blr.Var(colValues[i]) + " OR ")
+						}
 					}
 				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
 
-			if hasCursor {
 				// Check the primary key and compare value
 				switch vi := any(v).(type) {
 				case sequel.CompositeKeyer:
@@ -828,8 +835,10 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				default:
 					panic("unreachable")
 				}
+				if len(r.stmt.OrderBy) > 0 {
+					blr.WriteByte(')')
+				}
 			}
-			
 
 			blr.WriteString(" ORDER BY ")
 			if len(r.stmt.OrderBy) > 0 {
@@ -872,7 +881,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit)+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -881,7 +890,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, (int)(r.stmt.Limit)+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -902,7 +911,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 			}
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
+			if noOfRecord <= (int)(maxLimit) {
 				if !yield(data, nil) {
 					return
 				}
@@ -942,53 +951,47 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v))
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
 
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
+			if hasCursor {
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
 
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
+				if len(r.stmt.OrderBy) > 0 {
+					colValues, err := columnValues(v, r.stmt.OrderBy)
+					if err != nil {
+						yield(nil, err)
+						return
 					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
+					for i, orderBy := range r.stmt.OrderBy {
+						if orderBy.Asc() {
+							// If ascending
+							blr.WriteString(orderBy.ColumnName() + " >= " + blr.Var(colValues[i]) + " AND ")
+						} else {
+							// If descending
+							blr.WriteString(orderBy.ColumnName() + " <= " + blr.Var(colValues[i]) + " AND ")
+						}
 					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
+					blr.WriteByte('(')
+					for i, orderBy := range r.stmt.OrderBy {
+						if orderBy.Asc() {
+							// If ascending
+							blr.WriteString(orderBy.ColumnName() + " > " + blr.Var(colValues[i]) + " OR ")
+						} else {
+							// If descending
+							blr.WriteString(orderBy.ColumnName() + " < " + blr.Var(colValues[i]) + " OR ")
+						}
 					}
 				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
 
-			if hasCursor {
 				// Check the primary key and compare value
 				switch vi := any(v).(type) {
 				case sequel.CompositeKeyer:
@@ -1000,6 +1003,9 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				default:
 					panic("unreachable")
 				}
+				if len(r.stmt.OrderBy) > 0 {
+					blr.WriteByte(')')
+				}
 			}
 
 			blr.WriteString(" ORDER BY ")
@@ -1043,7 +1049,7 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 			}
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit)+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -1052,7 +1058,7 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, (int)(r.stmt.Limit)+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -1073,7 +1079,7 @@ func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.
 			}
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
+			if noOfRecord <= (int)(maxLimit) {
 				if !yield(data, nil) {
 					return
 				}
@@ -1508,6 +1514,34 @@ func insertColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// columnValues returns the value the model has in each of the ordered columns.
+func columnValues[T sequel.KeyValuer](model T, orderBy []sequel.OrderByClause) ([]any, error) {
+	columns, values := insertColumns(model), model.Values()
+	colDict := make(map[string]any)
+	for i := range columns {
+		colDict[columns[i]] = values[i]
+	}
+	switch v := any(model).(type) {
+	case sequel.CompositeKeyer:
+		keyNames, _, keys := v.CompositeKey()
+		for i := range keyNames {
+			colDict[keyNames[i]] = keys[i]
+		}
+	case sequel.PrimaryKeyer:
+		pkName, _, pk := v.PK()
+		colDict[pkName] = pk
+	}
+	result := make([]any, len(orderBy))
+	for i := range orderBy {
+		value, ok := colDict[orderBy[i].ColumnName()]
+		if !ok {
+			return nil, fmt.Errorf("sqlgen: cannot paginate by column %q of model %T", orderBy[i].ColumnName(), model)
+		}
+		result[i] = value
+	}
+	return result, nil
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From a680309739a7f061ce32bc43bbf111bc141a662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 14/55] fix: give the statement back when the table name is
 missing

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 6919683..ca06133 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1218,6 +1218,7 @@ func QueryOneStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.
 		case sequel.Tabler:
 			blr.WriteString(" FROM " + DbTable(vj))
 		default:
+			ReleaseStmt(blr)
 			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 	}
-- 
2.43.0


From 44b416a51f717fbe1d5e377d77043666d6ae6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:14 +0000
Subject: [PATCH 15/55] fix: empty value lists and literal question marks do
 not panic

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index ca06133..1354b38 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1401,6 +1401,9 @@ func (s *SqlStmt) Var(value any) string {
 
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
+	if noOfLen == 0 {
+		return "()"
+	}
 	s.args = append(s.args, values...)
 	{{ if isStaticVar -}}
 	return "(" + strings.Repeat(",{{ varRune }}", noOfLen)[1:] + ")"
@@ -1469,7 +1472,7 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 		placeholder := wrapVar(i)
 		idx = strings.Index(str, placeholder)
 		{{ end -}}
-		if idx < 0 {
+		if idx < 0 || len(args) == 0 {
 			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
 			break
 		}
-- 
2.43.0


From 11bc69fd0e7859822f1f10e5304ba007925613bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 16/55] fix: give the update statement builder back once

---
 cmd/sqlgen/codegen/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..3be6428 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -665,7 +665,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From cbf4426b0832647053a5b38c1353a43fa6d029ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 17/55] fix: number the key placeholder of an update after the
 assigned columns

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 3be6428..915252f 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -628,11 +628,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0


From 320cd7e687c92807ddbf9ad05835c8908b47015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 18/55] fix: quote composite key names like other column names

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 915252f..2cefcc4 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -388,7 +388,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
-- 
2.43.0


From ae54cd48c52dee16c3162c9d7eb7bc0443135fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 19/55] fix: report the errors met while building models

---
 cmd/sqlgen/codegen/codegen.go  |  5 +++++
 cmd/sqlgen/codegen/generate.go | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..9291777 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -185,6 +185,11 @@ func Generate(c *Config) error {
 		}
 	}
 
+	// Report the errors which did not stop the generation
+	if err := errors.Join(generator.errs...); err != nil {
+		return err
+	}
+
 	if cfg.SkipModTidy {
 		return nil
 	}
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 2cefcc4..25227fe 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -176,7 +176,9 @@ func (g *Generator) generateModels(
 		if method, isWrongType := t.Implements(sqlQueryColumner); isWrongType {
 			g.LogError(fmt.Errorf(`sqlgen: struct %q has function "SQLColumns" but wrong footprint`, t.Name))
 		} else if method != nil && !isWrongType {
-			g.buildSqlColumns(w, t)
+			if err := g.buildSqlColumns(w, t); err != nil {
+				return err
+			}
 		}
 
 		// Build the "Columns" function which return the column names
@@ -245,14 +247,20 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				g.buildInsertOne(w, importPkgs, t)
+				if err := g.buildInsertOne(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
 		if t.HasPK() {
-			g.buildFindByPK(w, importPkgs, t)
+			if err := g.buildFindByPK(w, importPkgs, t); err != nil {
+				return err
+			}
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
-				g.buildUpdateByPK(w, importPkgs, t)
+				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
-- 
2.43.0


From ca344926fb10b935f789a3b92cd34c451c9de655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 20/55] fix: auto increment keys of an imported or local named
 type

---
 cmd/sqlgen/codegen/generate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 25227fe..83fb6a4 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -159,7 +159,7 @@ func (g *Generator) generateModels(
 				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
 	v.%s = %s(val)
 	return nil
-}`, t.GoName, pk.GoName, pk.Type)
+}`, t.GoName, pk.GoName, g.typeExpr(importPkgs, pk.Type))
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
@@ -676,6 +676,15 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	return nil
 }
 
+// typeExpr returns the type the way the generated file has to spell it
+func (g *Generator) typeExpr(importPkgs *Package, t types.Type) string {
+	typeStr := t.String()
+	if idx := strings.Index(typeStr, "."); idx > 0 {
+		typeStr = Expr(typeStr).Format(importPkgs)
+	}
+	return typeStr
+}
+
 func (g *Generator) getOrValue(importPkgs *Package, obj string, f *compiler.Column) string {
 	goPath := obj + f.GoPath
 	if f.IsUnderlyingPtr() {
-- 
2.43.0


From d64fa6a20149a559c3617bc1bd74c88f1c917373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:48 +0000
Subject: [PATCH 21/55] fix: keep every byte of a quoted string

---
 cmd/sqlgen/codegen/generate.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 83fb6a4..fcdeefa 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -13,7 +13,6 @@ import (
 	"strings"
 	"text/template"
 	"time"
-	"unsafe"
 
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen"
@@ -93,13 +92,7 @@ func (g *Generator) LogError(err error) {
 }
 
 func (g *Generator) Quote(str string) string {
-	buf := make([]byte, 0, len(str))
-	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
-	}
-	buf = append(buf, byte(g.quoteRune))
-	return unsafe.String(unsafe.SliceData(buf), len(buf))
+	return string(g.quoteRune) + str + string(g.quoteRune)
 }
 
 func (g *Generator) MustQuoteIdentifier(str string) string {
-- 
2.43.0


From cd5a2f9f9515407cf16220463b598e2f21346761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 22/55] fix: do not delete the database helpers before the new
 ones are ready

---
 cmd/sqlgen/codegen/codegen.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 9291777..4ef37dc 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -158,7 +158,6 @@ func Generate(c *Config) error {
 
 	if cfg.Database != nil {
 		// Generate db code
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
 		if err := renderTemplate(
 			generator,
 			"db.go.tpl",
@@ -172,7 +171,6 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
-- 
2.43.0


From 1af37c801a83e02131f2a629a0b8d74af57135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 23/55] fix: write files only once their content is complete

---
 cmd/sqlgen/codegen/generate.go | 17 ++++-------------
 cmd/sqlgen/codegen/init.go     | 11 +++--------
 2 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index fcdeefa..2c4da98 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -338,16 +338,6 @@ func (g *Generator) generateModels(
 		schema.Tables = schema.Tables[1:]
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
-	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -373,9 +363,10 @@ func (g *Generator) generateModels(
 		return err
 	}
 
-	mustNoError(f.Write(formatted))
-
-	return f.Close()
+	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
+		return err
+	}
+	return os.WriteFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted, os.ModePerm)
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..2bb069b 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -16,13 +16,8 @@ import (
 )
 
 func Init(cfg *Config) error {
-	f, err := os.OpenFile(DefaultConfigFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
-	if err := yaml.NewEncoder(f, yaml.WithComment(yaml.CommentMap{
+	buf := new(bytes.Buffer)
+	if err := yaml.NewEncoder(buf, yaml.WithComment(yaml.CommentMap{
 		"$.src":               []*yaml.Comment{yaml.HeadComment(" Where are all the model files located? Globs are supported eg: src/**/*.go")},
 		"$.driver":            []*yaml.Comment{yaml.HeadComment(` Optional: possibly values : "mysql", "postgres" or "sqlite". Default value is "mysql".`)},
 		"$.naming_convention": []*yaml.Comment{yaml.HeadComment(` Optional: possibly values : "snake_case", "camelCase" or "PascalCase". Default value is "snake_case".`)},
@@ -40,7 +35,7 @@ func Init(cfg *Config) error {
 		return err
 	}
 
-	return f.Close()
+	return os.WriteFile(DefaultConfigFile, buf.Bytes(), os.ModePerm)
 }
 
 func renderTemplate(
-- 
2.43.0


From f2bb43ac0fbce20e9544e162955cc2e3019f6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 24/55] fix: skip_empty skips only files without a model

---
 cmd/sqlgen/codegen/codegen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 4ef37dc..1d2aefd 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -244,16 +244,16 @@ func parseGoPackage(
 			return err
 		}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
-		}
-
 		// If the `skip_empty` is true,
 		// we do not generate the go file
-		if g.config.Exec.SkipEmpty {
+		if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
 			goto nextDir
 		}
 
+		if err := g.generateModels(dir, schema); err != nil {
+			return err
+		}
+
 		// if g.config.Migration != nil {
 		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
 		// 		return err
-- 
2.43.0


From f77903f14178b9a9d702b8c95c4792930be0f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 25/55] fix: report directories which cannot be read

---
 cmd/sqlgen/codegen/codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 1d2aefd..bc69c71 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -110,6 +110,9 @@ func Generate(c *Config) error {
 				suffix = path2Regex.Replace(paths[1])
 			}
 			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+				if err != nil && !os.IsNotExist(err) {
+					return err
+				}
 				// If the directory is not exists, the "d" will be nil
 				if d == nil || !d.IsDir() {
 					// If it's not a folder, we skip!
-- 
2.43.0


From ae81dc26876ac83ef6fc9886be201bbccdab951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:44 +0000
Subject: [PATCH 26/55] fix: merge read_only, omit_getters and source_map

---
 cmd/sqlgen/codegen/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..7fede3d 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -203,6 +203,15 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 	if mapCfg.Getter.Prefix != "" {
 		c.Getter.Prefix = mapCfg.Getter.Prefix
 	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
+	}
 	if mapCfg.Exec.SkipEmpty {
 		c.Exec.SkipEmpty = true
 	}
-- 
2.43.0


From 7415c20d79017dd3889bc6b16ccc2c8c60f3bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 27/55] fix: read annotations from the struct, not from its
 last embedded struct

---
 cmd/sqlgen/internal/compiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..12406f7 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -356,7 +356,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
-- 
2.43.0


From e3cd889f0cd4019f3b8b2823f427ec3c49578fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 28/55] fix: keep the declaration order of fields sharing a
 type and of deeply embedded structs

---
 cmd/sqlgen/internal/compiler/parser.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 12406f7..8177f3f 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -222,7 +222,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:  types.ExprString(vi),
 								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
+								index: childIndex(f.idx, i),
 								// paths:    append(f.paths, path),
 								exported: vi.IsExported(),
 								embedded: true,
@@ -232,7 +232,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							structFields = append(structFields, ft)
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  childIndex(f.idx, i),
 								prev: ft,
 								t:    t.Type.(*ast.StructType),
 								pkg:  f.pkg,
@@ -274,7 +274,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							ft := &structField{
 								name:     types.ExprString(vi.Sel),
 								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
+								index:    childIndex(f.idx, i),
 								exported: vi.Sel.IsExported(),
 								embedded: true,
 								parent:   f.prev,
@@ -282,7 +282,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 							}
 
 							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
+								idx:  childIndex(f.idx, i),
 								t:    st,
 								prev: ft,
 								pkg:  importPkg,
@@ -321,7 +321,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					structFields = append(structFields, &structField{
 						name:     types.ExprString(n),
 						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
+						index:    childIndex(f.idx, i, j),
 						exported: n.IsExported(),
 						parent:   f.prev,
 						tag:      tag,
@@ -462,6 +462,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// childIndex returns the position of a field below its parent. It always
+// returns a new slice because the siblings share the position of the parent.
+func childIndex(parent []int, pos ...int) []int {
+	return append(append(make([]int, 0, len(parent)+len(pos)), parent...), pos...)
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
-- 
2.43.0


From b653cd98dc1a837783ac38a03b0f3a1af57d2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 29/55] fix: read the annotations of a struct declared in a
 group

---
 cmd/sqlgen/internal/compiler/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 8177f3f..d2af6d0 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -87,6 +87,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
+				// The comment of a group only applies to the types without their own
+				doc := typeSpec.Doc
+				if doc == nil {
+					doc = genDecl.Doc
+				}
+
 				objType := pkg.TypesInfo.ObjectOf(typeSpec.Name)
 				// We're not interested in the unexported type
 				if !objType.Exported() {
@@ -102,7 +108,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```
 				switch t := typeSpec.Type.(type) {
 				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: t, pkg: pkg})
 
 				case *ast.SelectorExpr:
 					var (
@@ -129,7 +135,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: v, pkg: importPkg})
 					}
 
 				default:
-- 
2.43.0


From 122d4bd22bb6280809d291c0df0f103c0ebee786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 30/55] fix: exclude the fields of an excluded embedded struct

---
 cmd/sqlgen/internal/compiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index d2af6d0..318a152 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -194,6 +194,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// If the field is embedded struct
 				// `Type` can be either *ast.Ident or *ast.SelectorExpr
 				if fi.Names == nil {
+					// Nothing inside an excluded struct is a column
+					if name, _, _ := strings.Cut(tag.Get(cfg.Tag), ","); strings.TrimSpace(name) == "-" {
+						continue
+					}
+
 					t := fi.Type
 
 					// If it's an embedded struct with pointer
-- 
2.43.0


From d1872dce775f0dc70f6c1cd65448e450b9aaa617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:17 +0000
Subject: [PATCH 31/55] fix: ExecStmt ignored the Table / FromTable option when
 the model has a table name

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 1354b38..259e8cd 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1286,7 +1286,7 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.Table == "" {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
 			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
@@ -1325,7 +1325,7 @@ func ExecStmt[T any, Stmt interface {
 		{{ end -}}
 
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vt, ok := any(v).(sequel.Tabler); ok && vi.FromTable == "" {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
 			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
-- 
2.43.0


From a809491e30d54bed97de063b2ae542e1870b0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 32/55] fix: merging data types into a configuration without
 any does not panic

---
 cmd/sqlgen/codegen/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 7fede3d..b62970a 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -248,6 +248,9 @@ func (c *Config) Merge(mapCfg *Config) *Config {
 		}
 	}
 	if mapCfg.DataTypes != nil {
+		if c.DataTypes == nil {
+			c.DataTypes = make(map[string]*DataType, len(mapCfg.DataTypes))
+		}
 		maps.Copy(c.DataTypes, mapCfg.DataTypes)
 	}
 	c.initIfEmpty()
-- 
2.43.0


From 2e83beb28e3f909d508a9036623896b2402c3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 33/55] fix: a working directory that cannot be determined was
 taken for the root directory

---
 cmd/sqlgen/internal/fileutil/fileutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index ab0804a..771ce06 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -10,7 +10,10 @@ import (
 )
 
 func Getpwd() string {
-	pwd, _ := os.Getwd()
+	pwd, err := os.Getwd()
+	if err != nil {
+		panic(err)
+	}
 	return pwd
 }
 
-- 
2.43.0


From 2646f4099aa9c1c37160c867306ef422b1f6f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 34/55] fix: a configuration file that cannot be examined was
 silently ignored

---
 cmd/sqlgen/internal/fileutil/fileutil.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index 771ce06..8e6a649 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -19,7 +19,8 @@ func Getpwd() string {
 
 func IsFileExists(path string) bool {
 	_, err := os.Stat(path)
-	return err == nil
+	// When the file cannot be examined, the caller finds out why by opening it
+	return err == nil || !os.IsNotExist(err)
 }
 
 func CurDir() string {
-- 
2.43.0


From 6a576b94facdfac98ab0e26125518026f5e3165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:34 +0000
Subject: [PATCH 35/55] fix: a source directory that cannot be read was
 silently skipped as empty

---
 cmd/sqlgen/internal/fileutil/fileutil.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/cmd/sqlgen/internal/fileutil/fileutil.go b/cmd/sqlgen/internal/fileutil/fileutil.go
index 8e6a649..648ce0f 100644
--- a/cmd/sqlgen/internal/fileutil/fileutil.go
+++ b/cmd/sqlgen/internal/fileutil/fileutil.go
@@ -1,7 +1,6 @@
 package fileutil
 
 import (
-	"io/fs"
 	"os"
 	"path/filepath"
 	"runtime"
@@ -29,20 +28,16 @@ func CurDir() string {
 }
 
 func IsDirEmptyFiles(dir string, excluded ...string) bool {
-	var found bool
-	// var found = errors.New("file is found")
-	if err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
-		if d == nil || d.IsDir() ||
-			dir != filepath.Dir(path) ||
-			lo.Contains(excluded, filepath.Base(path)) ||
-			filepath.Ext(path) != ".go" {
-			return nil
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		// When the directory cannot be read, the caller finds out why by loading it
+		return os.IsNotExist(err)
+	}
+	for _, d := range entries {
+		if d.IsDir() || lo.Contains(excluded, d.Name()) || filepath.Ext(d.Name()) != ".go" {
+			continue
 		}
-		found = true
-		return filepath.SkipAll
-	}); err != nil {
 		return false
-	} else {
-		return !found
 	}
+	return true
 }
-- 
2.43.0


From b03f03dfe05491651c3205de91c94c682059f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 36/55] fix: an import that cannot be resolved was silently
 left out of the generated file

---
 cmd/sqlgen/codegen/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..a2703bf 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -38,7 +38,7 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		Mode: packages.NeedName,
 	}, pkg.Path())
 	if err != nil {
-		return pkg, false
+		panic(err)
 	}
 
 	// If the import path is this package, skip to import
-- 
2.43.0


From 271e30438c11ae1c312b98c5016bd1e98e04dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 37/55] fix: a failure to examine the configuration file was
 reported as an existing file

---
 cmd/sqlgen/init.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sqlgen/init.go b/cmd/sqlgen/init.go
index cac3ed2..09ec8e6 100644
--- a/cmd/sqlgen/init.go
+++ b/cmd/sqlgen/init.go
@@ -70,6 +70,9 @@ func runInitCommand(cmd *cobra.Command, args []string) error {
 	}
 
 	_, err := os.Stat(fileDest)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	if !initOpts.force && !os.IsNotExist(err) {
 		cmd.Println(`Configuration file already exists`)
 		return nil
-- 
2.43.0


From e7fee68f1e5f196c1ccdd892619b123ec9569268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:43 +0000
Subject: [PATCH 38/55] fix: the structs behind a syntax error were silently
 left out

---
 cmd/sqlgen/internal/compiler/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 318a152..dd871d6 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -43,6 +43,13 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	}
 
 	pkg := pkgs[0]
+	// The syntax tree of a file with syntax errors is incomplete, the errors of
+	// other kinds are expected because the generated code is not there yet
+	for _, err := range pkg.Errors {
+		if err.Kind == packages.ParseError {
+			return nil, err
+		}
+	}
 	structCaches := make([]structCache, 0)
 
 	// Loop thru every go files
-- 
2.43.0


From 958e6dc7b84eaf18914b1d83e97fe617aed3de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 39/55] fix: mysql column types hold every value of wide
 integers and doubles

---
 cmd/sqlgen/codegen/dialect/mysql/column_type.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..cdb17a5 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -42,7 +42,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.BoolScanner[bool, *bool], "{{elemType}}", "{{addr}}"),
 		},
 		"int": {
-			DataType: s.columnDataType("INTEGER", false),
+			DataType: s.columnDataType("BIGINT", false),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.IntScanner[int, *int], "{{elemType}}", "{{addr}}"),
 		},
@@ -62,12 +62,12 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.Int32Scanner[int32, *int32], "{{elemType}}", "{{addr}}"),
 		},
 		"int64": {
-			DataType: s.columnDataType("INTEGER", false),
+			DataType: s.columnDataType("BIGINT", false),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Int64Scanner[int64, *int64], "{{elemType}}", "{{addr}}"),
 		},
 		"uint": {
-			DataType: s.columnDataType("INTEGER", false),
+			DataType: s.columnDataType("BIGINT UNSIGNED", false),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
@@ -82,12 +82,12 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.Uint16Scanner[uint16, *uint16], "{{elemType}}", "{{addr}}"),
 		},
 		"uint32": {
-			DataType: s.columnDataType("INTEGER", false),
+			DataType: s.columnDataType("INTEGER UNSIGNED", false),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Uint32Scanner[uint32, *uint32], "{{elemType}}", "{{addr}}"),
 		},
 		"uint64": {
-			DataType: s.columnDataType("INTEGER", false),
+			DataType: s.columnDataType("BIGINT UNSIGNED", false),
 			Valuer:   "{{goPath}}",
 			Scanner:  goutil.GenericFuncName(encoding.Uint64Scanner[uint64, *uint64], "{{elemType}}", "{{addr}}"),
 		},
@@ -97,7 +97,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.Float32Scanner[float32, *float32], "{{elemType}}", "{{addr}}"),
 		},
 		"float64": {
-			DataType: s.columnDataType("FLOAT", int64(0)),
+			DataType: s.columnDataType("DOUBLE", int64(0)),
 			Valuer:   "(float64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Float64Scanner[float64, *float64], "{{elemType}}", "{{addr}}"),
 		},
-- 
2.43.0


From c70534472d7e33cd178a94e3a01b160e305a9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 40/55] fix: postgres column types hold every value of int and
 the unsigned integers

---
 .../codegen/dialect/postgres/column_type.go   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..38ffff3 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -43,7 +43,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.BoolScanner[bool, *bool], "{{elemType}}", "{{addr}}"),
 		},
 		"int": {
-			DataType: s.intDataType("int4", int64(0)),
+			DataType: s.intDataType("int8", int64(0)),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.IntScanner[int, *int], "{{elemType}}", "{{addr}}"),
 		},
@@ -68,7 +68,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.Int64Scanner[int64, *int64], "{{elemType}}", "{{addr}}"),
 		},
 		"uint": {
-			DataType: s.intDataType("int4", uint64(0)),
+			DataType: s.uint64DataType(uint64(0)),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
@@ -78,17 +78,17 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{elemType}}", "{{addr}}"),
 		},
 		"uint16": {
-			DataType: s.intDataType("int2", uint64(0)),
+			DataType: s.intDataType("int4", uint64(0)),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Uint16Scanner[uint16, *uint16], "{{elemType}}", "{{addr}}"),
 		},
 		"uint32": {
-			DataType: s.intDataType("int4", uint64(0)),
+			DataType: s.intDataType("int8", uint64(0)),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Uint32Scanner[uint32, *uint32], "{{elemType}}", "{{addr}}"),
 		},
 		"uint64": {
-			DataType: s.intDataType("bigint", uint64(0)),
+			DataType: s.uint64DataType(uint64(0)),
 			Valuer:   "(int64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.Uint64Scanner[uint64, *uint64], "{{elemType}}", "{{addr}}"),
 		},
@@ -266,6 +266,17 @@ func (s *postgresDriver) intDataType(dataType string, defaultValue ...any) func(
 	}
 }
 
+// No integer type of postgres holds the upper half of a 64 bits unsigned
+// integer. A key counted up by a sequence never gets there.
+func (s *postgresDriver) uint64DataType(defaultValue ...any) func(dialect.GoColumn) string {
+	return func(column dialect.GoColumn) string {
+		if column.AutoIncr() {
+			return s.intDataType("bigint", defaultValue...)(column)
+		}
+		return s.columnDataType("numeric(20)", defaultValue...)(column)
+	}
+}
+
 func (*postgresDriver) columnDataType(dataType string, defaultValue ...any) func(dialect.GoColumn) string {
 	return func(column dialect.GoColumn) string {
 		str := dataType
-- 
2.43.0


From 3beb51907ad23083ad51185bbb96de5a6a607336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 41/55] fix: postgres array types hold every value of their
 elements

---
 cmd/sqlgen/codegen/dialect/postgres/column_type.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 38ffff3..38ddfd7 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -167,7 +167,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
 		},
 		"[]int": {
-			DataType: s.columnDataType("int4[]"),
+			DataType: s.columnDataType("int8[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.IntArray[int]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.IntArray[int]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
@@ -192,7 +192,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Int64Array[int64]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]uint": {
-			DataType: s.columnDataType("int4[]"),
+			DataType: s.columnDataType("numeric(20)[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.UintArray[uint]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.UintArray[uint]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
@@ -202,27 +202,27 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Uint8Array[uint8]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]uint16": {
-			DataType: s.columnDataType("int2[]"),
+			DataType: s.columnDataType("int4[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.Uint16Array[uint16]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Uint16Array[uint16]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]uint32": {
-			DataType: s.columnDataType("int4[]"),
+			DataType: s.columnDataType("int8[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.Uint32Array[uint32]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Uint32Array[uint32]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]uint64": {
-			DataType: s.columnDataType("int8[]"),
+			DataType: s.columnDataType("numeric(20)[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.Uint64Array[uint64]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Uint64Array[uint64]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]float32": {
-			DataType: s.columnDataType("double[]"),
+			DataType: s.columnDataType("real[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.Float32Array[float32]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Float32Array[float32]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]float64": {
-			DataType: s.columnDataType("double[]"),
+			DataType: s.columnDataType("double precision[]"),
 			Valuer:   "(" + goutil.GetTypeName(pgtype.Float64Array[float64]{}) + "[{{elemType}}])({{goPath}})",
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.Float64Array[float64]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
-- 
2.43.0


From 83e5a47df9d16630dd90dbe8a25ca1941d0e34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 42/55] fix: a pointer to a named type is not taken for the
 wildcard

---
 cmd/sqlgen/codegen/tool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..e79b0cd 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -48,7 +48,8 @@ loop:
 		default:
 			break loop
 		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
+		// A pointer alone is not the wildcard "*"
+		if v, ok := g.defaultColumnTypes[typeStr]; ok && typeStr != "*" {
 			return v, true
 		}
 		if prev == t {
-- 
2.43.0


From cb3fd66a8c4d3146712c8e37da44ec502bff89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:41 +0000
Subject: [PATCH 43/55] fix: the element type of named lists and of pointers to
 lists

---
 cmd/sqlgen/codegen/expr.go     | 25 +++++++++++++++----------
 cmd/sqlgen/codegen/generate.go |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..15c73c8 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -54,16 +54,7 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 			return params.GoPath
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
-			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
-			}
+			return importPkgIfNeeded(pkg, elemType(params.Type).String())
 		},
 		"addrOfGoPath": func() string {
 			if params.IsPtr {
@@ -106,6 +97,20 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	return str
 }
 
+// elemType returns the element type of a list, named or not. Other types are
+// their own element. It looks through pointers.
+func elemType(t types.Type) types.Type {
+	t, _ = underlyingType(t)
+	switch ut := t.Underlying().(type) {
+	case *types.Array:
+		return ut.Elem()
+	case *types.Slice:
+		return ut.Elem()
+	default:
+		return t
+	}
+}
+
 func importPkgIfNeeded(pkg *Package, importPath string) string {
 	matches := pkgRegexp.FindStringSubmatch(importPath)
 	if len(matches) > 0 {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 2c4da98..8408fe0 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -738,7 +738,7 @@ func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) st
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
 		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
 	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 	}
 	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
 }
-- 
2.43.0


From c2a9f2c7b6943a20e58db65272d71acf9440580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:27 +0000
Subject: [PATCH 44/55] fix: pointers to arrays and named arrays are written
 and read as arrays

---
 cmd/sqlgen/codegen/expr.go |  4 ++++
 cmd/sqlgen/codegen/tool.go | 15 +++++----------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index 15c73c8..d114eac 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -51,6 +51,10 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 
 	funcMap := template.FuncMap{
 		"goPath": func() string {
+			// Slicing binds stronger than the dereference of a pointer to an array
+			if strings.HasPrefix(params.GoPath, "*") && arraySize(params.Type) >= 0 {
+				return "(" + params.GoPath + ")"
+			}
 			return params.GoPath
 		},
 		"elemType": func() string {
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index e79b0cd..91e233a 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/types"
 	"regexp"
+	"strings"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 )
@@ -66,7 +67,7 @@ loop:
 		}
 	}
 	// Find fixed size array mapper
-	if matches := arrayRegexp.FindStringSubmatch(typeStr); len(matches) > 0 {
+	if matches := arrayRegexp.FindStringSubmatch(strings.TrimPrefix(typeStr, "*")); len(matches) > 0 {
 		if v, ok := g.defaultColumnTypes["[...]"+matches[2]]; ok {
 			// len, _ := strconv.Atoi(matches[1])
 			return v, true
@@ -84,15 +85,9 @@ func assertAsPtr[T any](v any) *T {
 }
 
 func arraySize(t types.Type) int64 {
-	for t != nil {
-		switch vt := t.(type) {
-		case *types.Pointer:
-			t = vt.Elem()
-		case *types.Array:
-			return vt.Len()
-		default:
-			return -1
-		}
+	t, _ = underlyingType(t)
+	if vt, ok := t.Underlying().(*types.Array); ok {
+		return vt.Len()
 	}
 	return -1
 }
-- 
2.43.0


From 8bad8acfd926bed05f3307f27c12a402918178d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 45/55] fix: postgres: [n]string, []rune and [][]byte are read
 by scanners which exist

---
 .../codegen/dialect/postgres/column_type.go   | 12 +++----
 sequel/driver/postgres/pgtype/string_array.go | 25 +++++++++++++++
 sequel/encoding/rune_array.go                 | 31 +++++++++++++++++++
 3 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 38ddfd7..a267cf2 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -134,7 +134,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[...]string": {
 			DataType: s.columnDataType("text[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
+			Scanner:  goutil.GenericFunc(pgtype.StringArrayScanner[string], "{{goPath}}[:]", "{{len}}"),
 		},
 		"[...]bool": {
 			DataType: s.columnDataType("bool[{{len}}]"),
@@ -148,8 +148,8 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[]rune": {
 			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
+			Valuer:   "string({{goPath}})",
+			Scanner:  goutil.GenericFunc(encoding.RuneSliceScanner[[]rune], "{{addrOfGoPath}}"),
 		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
@@ -162,9 +162,9 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 			Scanner:  "(*" + goutil.GetTypeName(pgtype.BoolArray[bool]{}) + "[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[][]byte": {
-			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
+			DataType: s.columnDataType("bytea[]"),
+			Valuer:   "(github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{goPath}})",
+			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]int": {
 			DataType: s.columnDataType("int8[]"),
diff --git a/sequel/driver/postgres/pgtype/string_array.go b/sequel/driver/postgres/pgtype/string_array.go
index 627d69d..c48ab0d 100644
--- a/sequel/driver/postgres/pgtype/string_array.go
+++ b/sequel/driver/postgres/pgtype/string_array.go
@@ -1,6 +1,7 @@
 package pgtype
 
 import (
+	"database/sql"
 	"database/sql/driver"
 	"fmt"
 	"unsafe"
@@ -65,3 +66,27 @@ func (a *StringArray[T]) scanBytes(src []byte) error {
 	}
 	return nil
 }
+
+type stringArrScanner[T ~string] struct {
+	v    []T
+	size int
+}
+
+// StringArrayScanner returns a scanner which fills a fixed size array.
+func StringArrayScanner[T ~string](v []T, size int) sql.Scanner {
+	return &stringArrScanner[T]{v: v, size: size}
+}
+
+// Scan implements the sql.Scanner interface.
+func (s *stringArrScanner[T]) Scan(src any) error {
+	var list StringArray[T]
+	if err := list.Scan(src); err != nil {
+		return err
+	}
+	if n := len(list); n > s.size {
+		return fmt.Errorf("pgtype: string array overflow, should be %d, but it is %d", s.size, n)
+	}
+	clear(s.v)
+	copy(s.v, list)
+	return nil
+}
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index b7f9d66..c6f1c5d 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -42,3 +42,34 @@ func (s *runeArrScanner[T]) scan(str string) error {
 	}
 	return nil
 }
+
+type runeSliceScanner[S ~[]E, E ~rune] struct {
+	addr *S
+}
+
+func RuneSliceScanner[S ~[]E, E ~rune](addr *S) sql.Scanner {
+	return &runeSliceScanner[S, E]{addr: addr}
+}
+
+func (s *runeSliceScanner[S, E]) Scan(v any) error {
+	switch vi := v.(type) {
+	case nil:
+		*s.addr = nil
+		return nil
+	case []byte:
+		return s.scan(unsafe.String(unsafe.SliceData(vi), len(vi)))
+	case string:
+		return s.scan(vi)
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for []~rune`, vi)
+	}
+}
+
+func (s *runeSliceScanner[S, E]) scan(str string) error {
+	runes := make(S, 0, utf8.RuneCountInString(str))
+	for _, r := range str {
+		runes = append(runes, E(r))
+	}
+	*s.addr = runes
+	return nil
+}
-- 
2.43.0


From b00032231e5bc364b71dca5c42fc3b802c44d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 46/55] fix: rune and byte map like int32 and uint8, which they
 are

---
 cmd/sqlgen/codegen/dialect/mysql/column_type.go    | 12 ++++++------
 cmd/sqlgen/codegen/dialect/postgres/column_type.go | 12 ++++++------
 cmd/sqlgen/codegen/dialect/sqlite/column_type.go   | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index cdb17a5..4fc2a01 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -16,14 +16,14 @@ import (
 func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 	dataTypes := map[string]*dialect.ColumnType{
 		"rune": {
-			DataType: s.columnDataType("CHAR(1)"),
-			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.columnDataType("INTEGER", false),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Int32Scanner[int32, *int32], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
-			DataType: s.columnDataType("CHAR(1)"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.columnDataType("INTEGER", false),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index a267cf2..dec23a4 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -17,14 +17,14 @@ import (
 func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 	dataTypes := map[string]*dialect.ColumnType{
 		"rune": {
-			DataType: s.columnDataType("char(1)"),
-			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.intDataType("int4", int64(0)),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Int32Scanner[int32, *int32], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
-			DataType: s.columnDataType("char(1)"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.intDataType("int2", uint64(0)),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: func(col dialect.GoColumn) string {
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..f1d5464 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -16,14 +16,14 @@ import (
 func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 	dataTypes := map[string]*dialect.ColumnType{
 		"rune": {
-			DataType: s.columnDataType("TEXT"),
-			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.columnDataType("INTEGER", false),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Int32Scanner[int32, *int32], "{{elemType}}", "{{addr}}"),
 		},
 		"byte": {
-			DataType: s.columnDataType("BLOB"),
-			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			DataType: s.columnDataType("INTEGER", false),
+			Valuer:   "(int64)({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.Uint8Scanner[uint8, *uint8], "{{elemType}}", "{{addr}}"),
 		},
 		"string": {
 			DataType: s.columnDataType("TEXT", ""),
-- 
2.43.0


From 101852b357d15dacaa6908cefc4d417bfa92d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:48 +0000
Subject: [PATCH 47/55] fix: postgres: NULL clears a fixed size array of
 strings

---
 sequel/driver/postgres/pgtype/string_array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/driver/postgres/pgtype/string_array.go b/sequel/driver/postgres/pgtype/string_array.go
index c48ab0d..134d6fd 100644
--- a/sequel/driver/postgres/pgtype/string_array.go
+++ b/sequel/driver/postgres/pgtype/string_array.go
@@ -79,6 +79,10 @@ func StringArrayScanner[T ~string](v []T, size int) sql.Scanner {
 
 // Scan implements the sql.Scanner interface.
 func (s *stringArrScanner[T]) Scan(src any) error {
+	if src == nil {
+		clear(s.v)
+		return nil
+	}
 	var list StringArray[T]
 	if err := list.Scan(src); err != nil {
 		return err
-- 
2.43.0


From 0f4a06a3a51883f01fd12e50ac36309d771cc477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:48 +0000
Subject: [PATCH 48/55] fix: postgres: uint and uint64 keep their upper half

---
 .../codegen/dialect/postgres/column_type.go      |  4 ++--
 sequel/encoding/uint.go                          | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index dec23a4..8058e12 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -69,7 +69,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint": {
 			DataType: s.uint64DataType(uint64(0)),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "strconv.FormatUint((uint64)({{goPath}}), 10)",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
 		"uint8": {
@@ -89,7 +89,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint64": {
 			DataType: s.uint64DataType(uint64(0)),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "strconv.FormatUint((uint64)({{goPath}}), 10)",
 			Scanner:  goutil.GenericFuncName(encoding.Uint64Scanner[uint64, *uint64], "{{elemType}}", "{{addr}}"),
 		},
 		"float32": {
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 2c482ec..fa393b0 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -78,6 +78,22 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		default:
 			panic("unreachable")
 		}
+	case string:
+		m, err := strconv.ParseUint(vi, 10, u.bitSize)
+		if err != nil {
+			return err
+		}
+		val := T(m)
+		switch any(u.addr).(type) {
+		case **T:
+			*(**T)(unsafe.Pointer(u.addr)) = &val
+			return nil
+		case *T:
+			*(*T)(unsafe.Pointer(u.addr)) = val
+			return nil
+		default:
+			panic("unreachable")
+		}
 	case int64:
 		val := T(vi)
 		if vi < 0 || int64(val) != vi {
-- 
2.43.0


From cc5874c8ab0dfbe6a5866598150d08b6b1993841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:13 +0000
Subject: [PATCH 49/55] fix: sqlite: a uint above the int64 range is refused
 instead of stored as a negative number

---
 cmd/sqlgen/codegen/dialect/sqlite/column_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index f1d5464..2121849 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -62,7 +62,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"uint": {
 			DataType: s.columnDataType("INTEGER", false),
-			Valuer:   "(int64)({{goPath}})",
+			Valuer:   "(uint64)({{goPath}})",
 			Scanner:  goutil.GenericFuncName(encoding.UintScanner[uint, *uint], "{{elemType}}", "{{addr}}"),
 		},
 		"uint8": {
-- 
2.43.0


From cbd6ab0c0f6d799dfa3363d8b83f24d5c4afde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:21 +0000
Subject: [PATCH 50/55] fix: TextScanner hands a boolean on as its text, like
 the pointer scanner does

---
 sequel/encoding/text.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..1198932 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -69,15 +69,12 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case bool:
-		b := []byte{0}
-		if vt {
-			b = []byte{1}
-		}
+		val := strconv.FormatBool(vt)
 		switch vi := any(t.v).(type) {
 		case *Ptr:
-			return (*vi).UnmarshalText(b)
+			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		case Ptr:
-			return vi.UnmarshalText(b)
+			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
 		default:
 			panic("unreachable")
 		}
-- 
2.43.0


From bd478db8b9441a4d80b8e08f79d9f8acf41fac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:46 +0000
Subject: [PATCH 51/55] fix: generate the models declared after another type of
 the same group

---
 cmd/sqlgen/internal/compiler/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index dd871d6..74e5605 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -146,7 +146,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					}
 
 				default:
-					return true
+					// The other types of the group may still be models
+					continue
 				}
 			}
 			return true
-- 
2.43.0


From 2274de1db6788536a3b0eb0b08e5872f90d986c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:22 +0000
Subject: [PATCH 52/55] fix: leave out the types which generated methods cannot
 be declared on

---
 cmd/sqlgen/internal/compiler/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 74e5605..2a0a17f 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -72,6 +72,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				return true
 			}
 
+			// The types declared inside of a function cannot have methods
+			switch node.(type) {
+			case *ast.FuncDecl, *ast.FuncLit:
+				return false
+			}
+
 			genDecl := assertAsPtr[ast.GenDecl](node)
 			if genDecl == nil || genDecl.Tok != token.TYPE {
 				return true
@@ -89,6 +95,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
+				// The generated methods cannot name the type parameters
+				if typeSpec.TypeParams != nil {
+					continue
+				}
+
 				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
 				if !cfg.Matcher.Match(filename) {
 					continue
-- 
2.43.0


From 8a0b001844fb7d368643c2fc48bb74c68493d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:47 +0000
Subject: [PATCH 53/55] fix: match sources whose path has characters the
 patterns took for something else

---
 cmd/sqlgen/codegen/codegen.go | 37 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index bc69c71..f09babb 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -27,13 +27,6 @@ var (
 	//go:embed templates/*.go.tpl
 	codegenTemplates embed.FS
 
-	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
-	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
-		`/`, `[\\/]`,
-	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	go121     = lo.Must1(semver.NewConstraint(">= 1.2.1"))
 	// goTagRegexp   = regexp.MustCompile(`(?i)^([a-z][a-z_]*[a-z])(\:(\w+))?$`)
@@ -95,11 +88,9 @@ func Generate(c *Config) error {
 		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
 		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
 		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
+			rootDir string
+			matcher Matcher = new(EmptyMatcher)
+			dirs            = make([]string, 0)
 		)
 
 		if strings.Contains(srcDir, "**") {
@@ -107,7 +98,7 @@ func Generate(c *Config) error {
 			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
 			suffix := `(?:[\\/]\w+\.\w+)`
 			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
+				suffix = path2Regex(paths[1])
 			}
 			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
 				if err != nil && !os.IsNotExist(err) {
@@ -123,12 +114,12 @@ func Generate(c *Config) error {
 			}); err != nil {
 				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
 			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
+			matcher = &RegexMatcher{regexp.MustCompile(path2Regex(rootDir) + `([\\/][^\\/]+)*` + suffix)}
+		} else if strings.Contains(filepath.Base(srcDir), "*") {
+			rootDir = filepath.Dir(srcDir)
 			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
+			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex(srcDir))
+			matcher = &RegexMatcher{regexp.MustCompile(path2Regex(srcDir))}
 		} else {
 			fi, err := os.Stat(srcDir)
 			// If the file or folder not exists, we skip!
@@ -197,6 +188,16 @@ func Generate(c *Config) error {
 	return goModTidy()
 }
 
+// path2Regex returns the regular expression of a path in which "*" is a
+// wildcard, the other characters of the path stand for themselves.
+func path2Regex(path string) string {
+	return strings.NewReplacer(
+		`\*`, `.*`,
+		`\\`, `[\\/]`,
+		`/`, `[\\/]`,
+	).Replace(regexp.QuoteMeta(path))
+}
+
 func parseGoPackage(
 	g *Generator,
 	rootDir string,
-- 
2.43.0


From 92a644fc7695f36d38db69053cb6148165aa3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:17 +0000
Subject: [PATCH 54/55] fix: resolve sources in the parent directory

---
 cmd/sqlgen/codegen/codegen.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index f09babb..fa59af4 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -67,12 +67,8 @@ func Generate(c *Config) error {
 			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
 		}
 
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
+		// A relative path refers to current directory
+		if !filepath.IsAbs(srcDir) {
 			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
 		}
 
-- 
2.43.0


From 8a2b94d6ee411435d2e132e9884095caaebb573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:35 +0000
Subject: [PATCH 55/55] fix: a wildcard within a name does not match across
 directories

---
 cmd/sqlgen/codegen/codegen.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index fa59af4..ecb2548 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -185,10 +185,12 @@ func Generate(c *Config) error {
 }
 
 // path2Regex returns the regular expression of a path in which "*" is a
-// wildcard, the other characters of the path stand for themselves.
+// wildcard within a name and "**" one across directories, the other characters
+// of the path stand for themselves.
 func path2Regex(path string) string {
 	return strings.NewReplacer(
-		`\*`, `.*`,
+		`\*\*`, `.*`,
+		`\*`, `[^\\/]*`,
 		`\\`, `[\\/]`,
 		`/`, `[\\/]`,
 	).Replace(regexp.QuoteMeta(path))
-- 
2.43.0

