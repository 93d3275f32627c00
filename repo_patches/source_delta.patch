From a9713a280f795a74bf8423164df3ef889fcec9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 01/45] fix: reject integers that do not fit the destination
 instead of wrapping them

---
 sequel/encoding/int.go  | 3 +++
 sequel/encoding/uint.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sequel/encoding/int.go b/sequel/encoding/int.go
index a9120bc..47b7e36 100644
--- a/sequel/encoding/int.go
+++ b/sequel/encoding/int.go
@@ -79,6 +79,9 @@ func (i *signedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if int64(val) != vi {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(i.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(i.addr)) = &val
diff --git a/sequel/encoding/uint.go b/sequel/encoding/uint.go
index 472420d..e714907 100644
--- a/sequel/encoding/uint.go
+++ b/sequel/encoding/uint.go
@@ -80,6 +80,9 @@ func (u *unsignedIntScanner[T, Addr]) Scan(v any) error {
 		}
 	case int64:
 		val := T(vi)
+		if vi < 0 || uint64(val) != uint64(vi) {
+			return fmt.Errorf(`sequel/encoding: value %d overflows %T`, vi, val)
+		}
 		switch any(u.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(u.addr)) = &val
-- 
2.43.0


From c8527a9b2adbfb32e227893db31df5a2355a066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:28 +0000
Subject: [PATCH 02/45] fix: do not retain the driver's buffer when scanning
 into a byte slice

---
 sequel/encoding/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sequel/encoding/string.go b/sequel/encoding/string.go
index 572406e..1b4f3db 100644
--- a/sequel/encoding/string.go
+++ b/sequel/encoding/string.go
@@ -54,7 +54,8 @@ func (s *strScanner[T, Ptr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case []byte:
-		val := T(vi)
+		// the driver owns vi, it must not be retained
+		val := T(string(vi))
 		switch any(s.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(s.addr)) = &val
-- 
2.43.0


From 0449e0e78abdc645792352711dd7d015241d3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:30 +0000
Subject: [PATCH 03/45] fix: byte and rune array scanners leave exactly the
 scanned content

---
 sequel/encoding/byte_array.go |  2 ++
 sequel/encoding/rune_array.go | 34 +++++++++++++++-------------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/sequel/encoding/byte_array.go b/sequel/encoding/byte_array.go
index 594943c..459b668 100644
--- a/sequel/encoding/byte_array.go
+++ b/sequel/encoding/byte_array.go
@@ -28,6 +28,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		if len(bytes) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v[:s.size])
 		for i := range bytes {
 			s.v[i] = T(bytes[i])
 		}
@@ -35,6 +36,7 @@ func (s *byteArrScanner[T]) Scan(v any) error {
 		if len(b) > s.size {
 			return fmt.Errorf(`sequel/encoding: byte array overflow, should be %d, but it is %d`, s.size, len(b))
 		}
+		clear(s.v[:s.size])
 		for i := range b {
 			s.v[i] = T(b[i])
 		}
diff --git a/sequel/encoding/rune_array.go b/sequel/encoding/rune_array.go
index 46b75f8..25515c6 100644
--- a/sequel/encoding/rune_array.go
+++ b/sequel/encoding/rune_array.go
@@ -3,7 +3,6 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
-	"unicode/utf8"
 )
 
 type runeArrScanner[T ~rune] struct {
@@ -18,28 +17,25 @@ func RuneArrayScanner[T ~rune](v []T, size int) sql.Scanner {
 func (s *runeArrScanner[T]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		s.v = make([]T, s.size)
-		return nil
+		return s.set(nil)
 	case []byte:
-		i := int(0)
-		for len(vi) > 0 {
-			if i >= s.size {
-				return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, i)
-			}
-			r, size := utf8.DecodeRune(vi)
-			s.v[i] = T(r)
-			i++
-			vi = vi[size:]
-		}
+		return s.set([]rune(string(vi)))
 	case string:
-		if len(vi) > s.size {
-			return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(vi))
-		}
-		for i := range vi {
-			s.v[i] = T(vi[i])
-		}
+		return s.set([]rune(vi))
 	default:
 		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for [%d]~rune`, vi, s.size)
 	}
+}
+
+// set stores the runes and clears the remaining elements, the
+// array is left untouched if the runes don't fit.
+func (s *runeArrScanner[T]) set(runes []rune) error {
+	if len(runes) > s.size {
+		return fmt.Errorf(`sequel/encoding: rune array overflow, should be %d, but it is %d`, s.size, len(runes))
+	}
+	clear(s.v[:s.size])
+	for i, r := range runes {
+		s.v[i] = T(r)
+	}
 	return nil
 }
-- 
2.43.0


From 47e1168166ec037d1251086c4d9135ac7bf71eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 04/45] fix: scan text-marshaled values into a fresh value, nil
 pointers included

---
 sequel/encoding/text.go | 81 +++++++++++++----------------------------
 1 file changed, 26 insertions(+), 55 deletions(-)

diff --git a/sequel/encoding/text.go b/sequel/encoding/text.go
index 28afc43..9e8ef6d 100644
--- a/sequel/encoding/text.go
+++ b/sequel/encoding/text.go
@@ -51,71 +51,42 @@ func (t *textScanner[T, Ptr, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(vt), len(vt)))
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal([]byte(vt))
 	case []byte:
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(vt)
-		case Ptr:
-			return vi.UnmarshalText(vt)
-		default:
-			panic("unreachable")
-		}
+		// UnmarshalText may retain its input, but the driver owns vt
+		return t.unmarshal(append([]byte{}, vt...))
 	case bool:
-		b := []byte{0}
-		if vt {
-			b = []byte{1}
-		}
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
-		case Ptr:
-			return vi.UnmarshalText(b)
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendBool(nil, vt))
 	case int64:
-		val := strconv.FormatInt(vt, 10)
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendInt(nil, vt, 10))
 	case float64:
-		val := strconv.FormatFloat(vt, 'f', -1, 64)
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-		case Ptr:
-			return vi.UnmarshalText(unsafe.Slice(unsafe.StringData(val), len(val)))
-
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(strconv.AppendFloat(nil, vt, 'f', -1, 64))
 	case time.Time:
 		b, err := vt.MarshalText()
 		if err != nil {
 			return err
 		}
-		switch vi := any(t.v).(type) {
-		case *Ptr:
-			return (*vi).UnmarshalText(b)
-		case Ptr:
-			return vi.UnmarshalText(b)
-		default:
-			panic("unreachable")
-		}
+		return t.unmarshal(b)
 	default:
 		return fmt.Errorf(`sequel/encoding: unable to TextUnmarshal %T`, vt)
 	}
 }
+
+// unmarshal decodes the text into a fresh value, so neither the previous
+// value nor a nil pointer in the destination matters.
+func (t *textScanner[T, Ptr, Addr]) unmarshal(text []byte) error {
+	val := new(T)
+	if err := Ptr(val).UnmarshalText(text); err != nil {
+		return err
+	}
+	switch any(t.v).(type) {
+	case **T:
+		*(**T)(unsafe.Pointer(t.v)) = val
+		return nil
+	case *T:
+		*(*T)(unsafe.Pointer(t.v)) = *val
+		return nil
+	default:
+		panic("unreachable")
+	}
+}
-- 
2.43.0


From 340d9208b2f43584e4759da86a52cfb61b53142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:13 +0000
Subject: [PATCH 05/45] fix: allocate the destination when scanning into a
 pointer to a sql.Scanner

---
 sequel/encoding/pointer.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 5359745..279b5da 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -26,12 +26,23 @@ type addrOfPtr[T any, Ptr interface {
 }
 
 func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
-	switch vt := v.(type) {
-	case nil:
-		*(*Ptr)(unsafe.Pointer(p.v)) = nil
+	if v == nil {
+		*p.v = nil
 		return nil
+	}
+	// the pointer may be nil or shared, always scan into a fresh value
+	dest := Ptr(new(T))
+	if err := p.scan(dest, v); err != nil {
+		return err
+	}
+	*p.v = dest
+	return nil
+}
+
+func (p *addrOfPtr[T, Ptr, Addr]) scan(dest Ptr, v any) error {
+	switch vt := v.(type) {
 	case string:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -42,7 +53,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case []byte:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -53,7 +64,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case bool:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -68,7 +79,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case int64:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -82,7 +93,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case float64:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
@@ -97,7 +108,7 @@ func (p *addrOfPtr[T, Ptr, Addr]) Scan(v any) error {
 			return fmt.Errorf(`sql/encoding: unsupported %T`, vi)
 		}
 	case time.Time:
-		switch vi := any(*p.v).(type) {
+		switch vi := any(dest).(type) {
 		case sql.Scanner:
 			return vi.Scan(vt)
 		case encoding.TextUnmarshaler:
-- 
2.43.0


From 9afd5f5ecfc0eb1b6ede288fcde7b6d6942cf509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:45 +0000
Subject: [PATCH 06/45] fix: decode JSON columns completely and into a fresh
 value

---
 sequel/encoding/json.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/sequel/encoding/json.go b/sequel/encoding/json.go
index f887a95..bc5813b 100644
--- a/sequel/encoding/json.go
+++ b/sequel/encoding/json.go
@@ -1,7 +1,6 @@
 package encoding
 
 import (
-	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"encoding/json"
@@ -23,14 +22,13 @@ func (j jsonValuer[T]) Value() (driver.Value, error) {
 		return nil, nil
 	case json.RawMessage:
 		return []byte(vj)[:], nil
-	case json.Marshaler:
-		return vj.MarshalJSON()
 	default:
-		buf := new(bytes.Buffer)
-		if err := json.NewEncoder(buf).Encode(j.v); err != nil {
+		// json.Marshal takes care of nil pointers with a MarshalJSON method
+		b, err := json.Marshal(j.v)
+		if err != nil {
 			return nil, err
 		}
-		return buf.Bytes(), nil
+		return b, nil
 	}
 }
 
@@ -45,9 +43,7 @@ func JSONScanner[T any, Addr interface{ *T }](addr Addr) sql.Scanner {
 func (j *jsonScanner[T, Addr]) Scan(v any) error {
 	switch vi := v.(type) {
 	case nil:
-		switch vj := any(j.v).(type) {
-		case json.Unmarshaler:
-			return vj.UnmarshalJSON(nil)
+		switch any(j.v).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(j.v)) = nil
 			return nil
@@ -59,12 +55,31 @@ func (j *jsonScanner[T, Addr]) Scan(v any) error {
 			panic("unreachable")
 		}
 	case string:
-		return json.NewDecoder(bytes.NewBufferString(vi)).Decode(j.v)
+		return j.unmarshal([]byte(vi))
 	case []byte:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.unmarshal(vi)
 	case json.RawMessage:
-		return json.NewDecoder(bytes.NewBuffer(vi)).Decode(j.v)
+		return j.unmarshal(vi)
 	default:
 		return fmt.Errorf(`sequel/encoding: invalid scan type for JSON, %T`, v)
 	}
 }
+
+// unmarshal decodes exactly one document into a fresh value, so nothing of
+// the previous value remains or is shared.
+func (j *jsonScanner[T, Addr]) unmarshal(data []byte) error {
+	var val T
+	if err := json.Unmarshal(data, &val); err != nil {
+		return err
+	}
+	switch any(j.v).(type) {
+	case **T:
+		*(**T)(unsafe.Pointer(j.v)) = &val
+		return nil
+	case *T:
+		*(*T)(unsafe.Pointer(j.v)) = val
+		return nil
+	default:
+		panic("unreachable")
+	}
+}
-- 
2.43.0


From 98f5a1dcd60fd766933b7ecfd09c97d1e9275e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:45 +0000
Subject: [PATCH 07/45] fix: reject floats that overflow float32 instead of
 storing infinity

---
 sequel/encoding/float.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sequel/encoding/float.go b/sequel/encoding/float.go
index 5cadbb5..44e0ff2 100644
--- a/sequel/encoding/float.go
+++ b/sequel/encoding/float.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"database/sql"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -52,6 +53,9 @@ func (f *float32Scanner[T, Addr]) Scan(v any) error {
 		}
 	case float64:
 		val := T(vi)
+		if math.IsInf(float64(val), 0) && !math.IsInf(vi, 0) {
+			return fmt.Errorf(`sequel/encoding: value %g overflows %T`, vi, val)
+		}
 		switch any(f.addr).(type) {
 		case **T:
 			*(**T)(unsafe.Pointer(f.addr)) = &val
-- 
2.43.0


From 2007e474ebf026a7ccdcc654d0de4142a818fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:45 +0000
Subject: [PATCH 08/45] fix: binary columns accept NULL and text from the
 driver

---
 sequel/encoding/time.go | 2 ++
 sequel/types/binary.go  | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/sequel/encoding/time.go b/sequel/encoding/time.go
index 97efc8e..5e3517d 100644
--- a/sequel/encoding/time.go
+++ b/sequel/encoding/time.go
@@ -103,6 +103,8 @@ func parseTime(str string) (time.Time, error) {
 		return time.Parse("2006-01-02 15:04:05", str)
 	case ddmmyyyyhhmmsstz.MatchString(str):
 		return time.Parse("2006-01-02 15:04:05.999999", str)
+	case len(str) > 10 && str[10] == ' ':
+		return time.Parse("2006-01-02 15:04:05.999999999Z07:00", str)
 	default:
 		return time.Parse(time.RFC3339Nano, str)
 	}
diff --git a/sequel/types/binary.go b/sequel/types/binary.go
index 8a161f1..f589ba1 100644
--- a/sequel/types/binary.go
+++ b/sequel/types/binary.go
@@ -39,8 +39,14 @@ func BinaryUnmarshaler[T any, Ptr interface {
 
 func (b binaryUnmarshaler[T, Ptr]) Scan(v any) error {
 	switch vi := v.(type) {
+	case nil:
+		var zero T
+		*b.v = zero
+		return nil
 	case []byte:
 		return b.v.UnmarshalBinary(vi)
+	case string:
+		return b.v.UnmarshalBinary([]byte(vi))
 	default:
 		return fmt.Errorf(`sequel/types: binary must be []byte`)
 	}
-- 
2.43.0


From 16722d4cf20a3cf8fa8d7bb7cf70eca32d11a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 09/45] fix: reject stray quotes and braces in PostgreSQL array
 elements

---
 sequel/driver/postgres/pgtype/array.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sequel/driver/postgres/pgtype/array.go b/sequel/driver/postgres/pgtype/array.go
index 69715f2..23dbcd2 100644
--- a/sequel/driver/postgres/pgtype/array.go
+++ b/sequel/driver/postgres/pgtype/array.go
@@ -126,6 +126,9 @@ Element:
 			}
 		default:
 			for start := i; i < len(src); i++ {
+				if src[i] == '"' || src[i] == '{' {
+					return nil, nil, fmt.Errorf("pgtype: unable to parse array; unexpected %q at offset %d", src[i], i)
+				}
 				if bytes.HasPrefix(src[i:], del) || src[i] == '}' {
 					elem := src[start:i]
 					if len(elem) == 0 {
-- 
2.43.0


From 97dc1412618f291ac46f005ffc4d25879cf6a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 10/45] fix: parse PostgreSQL integer array elements within the
 element type's range

---
 sequel/driver/postgres/pgtype/int_array.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sequel/driver/postgres/pgtype/int_array.go b/sequel/driver/postgres/pgtype/int_array.go
index d0593aa..56077a0 100644
--- a/sequel/driver/postgres/pgtype/int_array.go
+++ b/sequel/driver/postgres/pgtype/int_array.go
@@ -77,13 +77,26 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := parseInteger[T](unsafe.String(unsafe.SliceData(v), len(v)))
 			if err != nil {
 				return fmt.Errorf("pgtype: parsing array element index %d: %v", i, err)
 			}
-			b[i] = T(n)
+			b[i] = n
 		}
 		*a = b
 	}
 	return nil
 }
+
+// parseInteger parses the text within the range of T.
+func parseInteger[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
+	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](s string) (T, error) {
+	var zero T
+	bitSize := int(unsafe.Sizeof(zero)) * 8
+	if zero-1 > zero {
+		n, err := strconv.ParseUint(s, 10, bitSize)
+		return T(n), err
+	}
+	n, err := strconv.ParseInt(s, 10, bitSize)
+	return T(n), err
+}
-- 
2.43.0


From 873b78fe1149be5337096c4df00c3a8092cb86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:49 +0000
Subject: [PATCH 11/45] fix: read and write list columns as JSON

---
 sequel/sqltype/bool_slice.go   |  32 +++----
 sequel/sqltype/float_slice.go  |  15 +++-
 sequel/sqltype/int_slice.go    |   4 +-
 sequel/sqltype/string_slice.go | 157 +++++----------------------------
 sequel/sqltype/uint_slice.go   |   2 +-
 5 files changed, 52 insertions(+), 158 deletions(-)

diff --git a/sequel/sqltype/bool_slice.go b/sequel/sqltype/bool_slice.go
index 79c22d5..e04ee72 100644
--- a/sequel/sqltype/bool_slice.go
+++ b/sequel/sqltype/bool_slice.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"fmt"
+	"strconv"
 	"unsafe"
 )
 
@@ -22,21 +23,17 @@ func (a BoolSlice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
-		// There will be exactly two curly brackets, N bytes of values,
+		// There will be at most two square brackets, 5*N bytes of values,
 		// and N-1 bytes of delimiters.
-		b := make([]byte, 1+2*n)
+		b := make([]byte, 1, 1+6*n)
+		b[0] = '['
 
-		for i := 0; i < n; i++ {
-			b[2*i] = ','
-			if a[i] {
-				b[1+2*i] = 't'
-			} else {
-				b[1+2*i] = 'f'
-			}
+		b = strconv.AppendBool(b, (bool)(a[0]))
+		for i := 1; i < n; i++ {
+			b = append(b, ',')
+			b = strconv.AppendBool(b, (bool)(a[i]))
 		}
-
-		b[0] = '['
-		b[2*n] = ']'
+		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
 	}
 	return "[]", nil
@@ -57,7 +54,7 @@ func (a *BoolSlice[T]) Scan(src interface{}) error {
 }
 
 func (a *BoolSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "BoolSlice")
+	elems, err := scanLinearArray(src, "BoolSlice")
 	if err != nil {
 		return err
 	}
@@ -66,13 +63,10 @@ func (a *BoolSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(BoolSlice[T], len(elems))
 		for i, v := range elems {
-			if len(v) != 1 {
-				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
-			}
-			switch v[0] {
-			case 't':
+			switch string(v) {
+			case "true":
 				b[i] = true
-			case 'f':
+			case "false":
 				b[i] = false
 			default:
 				return fmt.Errorf("sqltype: could not parse boolean array index %d: invalid boolean %q", i, v)
diff --git a/sequel/sqltype/float_slice.go b/sequel/sqltype/float_slice.go
index 0595fbe..83181cd 100644
--- a/sequel/sqltype/float_slice.go
+++ b/sequel/sqltype/float_slice.go
@@ -3,6 +3,7 @@ package sqltype
 import (
 	"database/sql/driver"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -18,6 +19,11 @@ func (a Float32Slice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
+		for i, v := range a {
+			if f := (float64)(v); math.IsNaN(f) || math.IsInf(f, 0) {
+				return nil, fmt.Errorf("sqltype: array element index %d: %v is not a JSON number", i, f)
+			}
+		}
 		// There will be at least two curly brackets, N bytes of values,
 		// and N-1 bytes of delimiters.
 		b := make([]byte, 1, 1+2*n)
@@ -49,7 +55,7 @@ func (a *Float32Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float32Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float32Slice")
+	elems, err := scanLinearArray(src, "Float32Slice")
 	if err != nil {
 		return err
 	}
@@ -80,6 +86,11 @@ func (a Float64Slice[T]) Value() (driver.Value, error) {
 	}
 
 	if n := len(a); n > 0 {
+		for i, v := range a {
+			if f := (float64)(v); math.IsNaN(f) || math.IsInf(f, 0) {
+				return nil, fmt.Errorf("sqltype: array element index %d: %v is not a JSON number", i, f)
+			}
+		}
 		// There will be at least two curly brackets, N bytes of values,
 		// and N-1 bytes of delimiters.
 		b := make([]byte, 1, 1+2*n)
@@ -112,7 +123,7 @@ func (a *Float64Slice[T]) Scan(src interface{}) error {
 }
 
 func (a *Float64Slice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "Float64Slice")
+	elems, err := scanLinearArray(src, "Float64Slice")
 	if err != nil {
 		return err
 	}
diff --git a/sequel/sqltype/int_slice.go b/sequel/sqltype/int_slice.go
index 932de30..e7843c6 100644
--- a/sequel/sqltype/int_slice.go
+++ b/sequel/sqltype/int_slice.go
@@ -68,7 +68,7 @@ func (a *Int64Slice[T]) Scan(src any) error {
 
 func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
@@ -77,7 +77,7 @@ func scanBytes[T ~int | ~int8 | ~int16 | ~int32 | ~int64 |
 	} else {
 		b := make([]T, len(elems))
 		for i, v := range elems {
-			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, 64)
+			n, err := strconv.ParseInt(unsafe.String(unsafe.SliceData(v), len(v)), 10, int(unsafe.Sizeof(b[i]))*8)
 			if err != nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
 			}
diff --git a/sequel/sqltype/string_slice.go b/sequel/sqltype/string_slice.go
index 38544e1..ea8180a 100644
--- a/sequel/sqltype/string_slice.go
+++ b/sequel/sqltype/string_slice.go
@@ -3,8 +3,8 @@ package sqltype
 import (
 	"bytes"
 	"database/sql/driver"
+	"encoding/json"
 	"fmt"
-	"strings"
 	"unsafe"
 )
 
@@ -23,10 +23,10 @@ func (a StringSlice[T]) Value() (driver.Value, error) {
 		b := make([]byte, 1, 1+3*n)
 		b[0] = '['
 
-		b = appendArrayQuotedBytes(b, []byte(a[0]))
+		b = appendJSONString(b, string(a[0]))
 		for i := 1; i < n; i++ {
 			b = append(b, ',')
-			b = appendArrayQuotedBytes(b, []byte(a[i]))
+			b = appendJSONString(b, string(a[i]))
 		}
 		b = append(b, ']')
 		return unsafe.String(unsafe.SliceData(b), len(b)), nil
@@ -49,7 +49,7 @@ func (a *StringSlice[T]) Scan(src any) error {
 }
 
 func (a *StringSlice[T]) scanBytes(src []byte) error {
-	elems, err := scanLinearArray(src, []byte{','}, "StringArray")
+	elems, err := scanLinearArray(src, "StringArray")
 	if err != nil {
 		return err
 	}
@@ -58,145 +58,34 @@ func (a *StringSlice[T]) scanBytes(src []byte) error {
 	} else {
 		b := make(StringSlice[T], len(elems))
 		for i, v := range elems {
-			if v == nil {
+			var str *string
+			if err := json.Unmarshal(v, &str); err != nil {
+				return fmt.Errorf("sqltype: parsing array element index %d: %v", i, err)
+			}
+			if str == nil {
 				return fmt.Errorf("sqltype: parsing array element index %d: cannot convert nil to string", i)
 			}
-			b[i] = T(v)
+			b[i] = T(*str)
 		}
 		*a = b
 	}
 	return nil
 }
 
-func parseArray(src, del []byte) (dims []int, elems [][]byte, err error) {
-	var depth, i int
-
-	if len(src) < 1 || src[0] != '[' {
-		return nil, nil, fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', 0)
-	}
-
-Open:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			depth++
-			i++
-		case ']':
-			elems = make([][]byte, 0)
-			goto Close
-		default:
-			break Open
-		}
+// scanLinearArray splits a one-dimensional JSON array into its elements.
+func scanLinearArray(src []byte, typ string) (elems []json.RawMessage, err error) {
+	if err := json.Unmarshal(src, &elems); err != nil {
+		return nil, fmt.Errorf("sqltype: cannot convert JSON to %s: %w", typ, err)
 	}
-	dims = make([]int, i)
-
-Element:
-	for i < len(src) {
-		switch src[i] {
-		case '[':
-			if depth == len(dims) {
-				break Element
-			}
-			depth++
-			dims[depth-1] = 0
-			i++
-		case '"':
-			var elem = []byte{}
-			var escape bool
-			for i++; i < len(src); i++ {
-				if escape {
-					elem = append(elem, src[i])
-					escape = false
-				} else {
-					switch src[i] {
-					default:
-						elem = append(elem, src[i])
-					case '\\':
-						escape = true
-					case '"':
-						elems = append(elems, elem)
-						i++
-						break Element
-					}
-				}
-			}
-		default:
-			for start := i; i < len(src); i++ {
-				if bytes.HasPrefix(src[i:], del) || src[i] == ']' {
-					elem := src[start:i]
-					if len(elem) == 0 {
-						return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-					}
-					if bytes.Equal(elem, []byte("NULL")) {
-						elem = nil
-					}
-					elems = append(elems, elem)
-					break Element
-				}
-			}
-		}
-	}
-
-	for i < len(src) {
-		if bytes.HasPrefix(src[i:], del) && depth > 0 {
-			dims[depth-1]++
-			i += len(del)
-			goto Element
-		} else if src[i] == ']' && depth > 0 {
-			dims[depth-1]++
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-
-Close:
-	for i < len(src) {
-		if src[i] == ']' && depth > 0 {
-			depth--
-			i++
-		} else {
-			return nil, nil, fmt.Errorf("sqltype: unable to parse array; unexpected %q at offset %d", src[i], i)
-		}
-	}
-	if depth > 0 {
-		err = fmt.Errorf("sqltype: unable to parse array; expected %q at offset %d", ']', i)
-	}
-	if err == nil {
-		for _, d := range dims {
-			if (len(elems) % d) != 0 {
-				err = fmt.Errorf("sqltype: multidimensional arrays must have elements with matching dimensions")
-			}
-		}
-	}
-	return
-}
-
-func scanLinearArray(src, del []byte, typ string) (elems [][]byte, err error) {
-	dims, elems, err := parseArray(src, del)
-	if err != nil {
-		return nil, err
-	}
-	if len(dims) > 1 {
-		return nil, fmt.Errorf("pgtype: cannot convert ARRAY%s to %s", strings.Replace(fmt.Sprint(dims), " ", "][", -1), typ)
-	}
-	return elems, err
+	return elems, nil
 }
 
-func appendArrayQuotedBytes(b, v []byte) []byte {
-	b = append(b, '"')
-	for {
-		i := bytes.IndexAny(v, `"\`)
-		if i < 0 {
-			b = append(b, v...)
-			break
-		}
-		if i > 0 {
-			b = append(b, v[:i]...)
-		}
-		b = append(b, '\\', v[i])
-		v = v[i+1:]
-	}
-	return append(b, '"')
+// appendJSONString appends s as a JSON string.
+func appendJSONString(b []byte, s string) []byte {
+	buf := bytes.NewBuffer(b)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	// encoding a string never fails
+	_ = enc.Encode(s)
+	return bytes.TrimSuffix(buf.Bytes(), []byte{'\n'})
 }
diff --git a/sequel/sqltype/uint_slice.go b/sequel/sqltype/uint_slice.go
index f3bc999..a534542 100644
--- a/sequel/sqltype/uint_slice.go
+++ b/sequel/sqltype/uint_slice.go
@@ -68,7 +68,7 @@ func (a *Uint64Slice[T]) Scan(src any) error {
 }
 
 func scanUBytes[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr, Arr interface{ ~[]T }](bitSize int, a *Arr, src []byte, t string) error {
-	elems, err := scanLinearArray(src, []byte{','}, t)
+	elems, err := scanLinearArray(src, t)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 52f2557928cdafaeb870f384cfad144dc7b0060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:49 +0000
Subject: [PATCH 12/45] fix: escape strings the JSON way in MarshalStringSlice

---
 sequel/encoding/marshaler.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index b7932bf..27c6ffa 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"encoding/json"
 	"strconv"
 	"time"
 
@@ -11,9 +12,9 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
 		defer strpool.ReleaseString(blr)
-		blr.WriteString("[" + strconv.Quote((string)(list[0])))
+		blr.WriteString("[" + quoteJSON((string)(list[0])))
 		for i := 1; i < n; i++ {
-			blr.WriteString("," + strconv.Quote((string)(list[i])))
+			blr.WriteString("," + quoteJSON((string)(list[i])))
 		}
 		blr.WriteByte(']')
 		return blr.String()
@@ -21,6 +22,12 @@ func MarshalStringSlice[V ~[]byte | ~string](list []V) string {
 	return "[]"
 }
 
+// quoteJSON quotes the string for JSON, which unlike Go has no \x escapes.
+func quoteJSON(s string) string {
+	b, _ := json.Marshal(s) // never fails for a string
+	return string(b)
+}
+
 func MarshalIntSlice[V ~int | ~int8 | ~int16 | ~int32 | ~int64](list []V) string {
 	if n := len(list); n > 0 {
 		blr := strpool.AcquireString()
-- 
2.43.0


From 1c7d99eb2f4593a876468b9ce9cb11ecea17bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:50 +0000
Subject: [PATCH 13/45] fix: MarshalFloat64List keeps the fraction unless a
 precision is given

---
 sequel/encoding/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sequel/encoding/marshaler.go b/sequel/encoding/marshaler.go
index 27c6ffa..b091490 100644
--- a/sequel/encoding/marshaler.go
+++ b/sequel/encoding/marshaler.go
@@ -72,7 +72,7 @@ func MarshalBoolSlice[V ~bool](list []V) string {
 
 func MarshalFloat64List[V ~float64](list []V, prec ...int) string {
 	if n := len(list); n > 0 {
-		var p int
+		p := -1 // as many digits as necessary
 		if len(prec) > 0 {
 			p = prec[0]
 		}
-- 
2.43.0


From 514d0e0b20a078c20b081a5c9d51a0f1944ec276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:39 +0000
Subject: [PATCH 14/45] fix: escape the quote character inside quoted
 identifiers

---
 cmd/sqlgen/codegen/dialect/mysql/mysql.go       | 8 ++++++--
 cmd/sqlgen/codegen/dialect/postgres/postgres.go | 3 ++-
 cmd/sqlgen/codegen/dialect/sqlite/sqlite.go     | 4 ++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/mysql/mysql.go b/cmd/sqlgen/codegen/dialect/mysql/mysql.go
index fa47f2e..7b94f0d 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/mysql.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/mysql.go
@@ -1,6 +1,10 @@
 package mysql
 
-import "github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
+import (
+	"strings"
+
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
+)
 
 type mysqlDriver struct{}
 
@@ -29,7 +33,7 @@ func (*mysqlDriver) QuoteVar(_ int) string {
 }
 
 func (*mysqlDriver) QuoteIdentifier(v string) string {
-	return "`" + v + "`"
+	return "`" + strings.ReplaceAll(v, "`", "``") + "`"
 }
 
 func (*mysqlDriver) QuoteRune() rune {
diff --git a/cmd/sqlgen/codegen/dialect/postgres/postgres.go b/cmd/sqlgen/codegen/dialect/postgres/postgres.go
index 23ab54c..63b4708 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/postgres.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/postgres.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"strconv"
+	"strings"
 
 	_ "github.com/jackc/pgx/v5/stdlib"
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
@@ -34,7 +35,7 @@ func (s postgresDriver) QuoteVar(n int) string {
 }
 
 func (*postgresDriver) QuoteIdentifier(v string) string {
-	return strconv.Quote(v)
+	return `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
 }
 
 func (*postgresDriver) QuoteRune() rune {
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/sqlite.go b/cmd/sqlgen/codegen/dialect/sqlite/sqlite.go
index 14a49dd..7e6312e 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/sqlite.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/sqlite.go
@@ -1,7 +1,7 @@
 package sqlite
 
 import (
-	"strconv"
+	"strings"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
 )
@@ -33,7 +33,7 @@ func (*sqliteDriver) QuoteVar(_ int) string {
 }
 
 func (*sqliteDriver) QuoteIdentifier(v string) string {
-	return strconv.Quote(v)
+	return `"` + strings.ReplaceAll(v, `"`, `""`) + `"`
 }
 
 func (*sqliteDriver) QuoteRune() rune {
-- 
2.43.0


From b34d139dc3d65d7220a85ab6d8ee76c1c2bf1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:06 +0000
Subject: [PATCH 15/45] fix: release the update statement's buffer only once

---
 cmd/sqlgen/codegen/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6b8f4a..3be6428 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -665,7 +665,6 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	fprintfln(w, "}")
 	fprintfln(w, "}")
-	strpool.ReleaseString(buf)
 	return nil
 }
 
-- 
2.43.0


From 0bb01c4f83dca639d8a25c3ca15b27b7c34faa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:20 +0000
Subject: [PATCH 16/45] fix: insert only the columns whose values are sent,
 without changing the model's slices

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 173 +++++++++++--------------
 1 file changed, 76 insertions(+), 97 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9d68c69..449c3fb 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1,6 +1,7 @@
 {{- reserveImport "context" }}
 {{- reserveImport "database/sql" }}
 {{- reserveImport "database/sql/driver" }}
+{{- reserveImport "slices" }}
 {{- reserveImport "strings" }}
 {{- reserveImport "strconv" }}
 {{- reserveImport "fmt" }}
@@ -21,7 +22,8 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.QueryRowContext(ctx, query, args...).Scan(model.Addrs()...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns := insertColumns(model)
+		args := insertValues(model, columns)
 		stmt := strpool.AcquireString()
 		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ({{ quoteVar 1 }}")
 		noOfArgs := len(args)
@@ -61,7 +63,8 @@ func InsertOne[T sequel.ColumnValuer, Ptr interface {
 		query, args := v.InsertOneStmt()
 		return db.ExecContext(ctx, query, args...)
 	default:
-		columns, args := model.Columns(), model.Values()
+		columns := insertColumns(model)
+		args := insertValues(model, columns)
 		query := "INSERT INTO "+DbTable(model)+" ("+strings.Join(columns, ",")+") VALUES ("+strings.Repeat("{{ quoteVar 1 }},", len(columns) - 1)+"{{ quoteVar 1 }});"
 		return db.ExecContext(ctx, query, args...)
 	}
@@ -78,67 +81,35 @@ func Insert[T sequel.Inserter, Ptr sequel.PtrScanner[T]](ctx context.Context, db
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
-			return nil, err
-		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	for i := range data {
+		if i > 0 {
+			stmt.WriteByte(',')
 		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
-	default:
-		noOfCols := len(columns)
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES "+ model.InsertPlaceholders(0))
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + model.InsertPlaceholders(i))
-			args = append(args, data[i].Values()...)
-		}
-		stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-		rows, err := db.QueryContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt) // Deallocate statement
-		if err != nil {
+		stmt.WriteString(model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], columns)...)
+	}
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	rows, err := db.QueryContext(ctx, stmt.String(), args...)
+	strpool.ReleaseString(stmt) // Deallocate statement
+	if err != nil {
+		return nil, err
+	}
+	defer rows.Close()
+	var i int64
+	for rows.Next() {
+		if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
 			return nil, err
 		}
-		defer rows.Close()
-		var i int64
-		for rows.Next() {
-			if err := rows.Scan(Ptr(&data[i]).Addrs()...); err != nil {
-				return nil, err
-			}
-			i++
-		}
-		return sequel.NewRowsAffectedResult(i), rows.Close()
+		i++
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
 	}
+	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
 // Insert is a helper function to insert multiple records.
@@ -149,48 +120,25 @@ func Insert[T sequel.ColumnValuer](ctx context.Context, db *sql.DB, data []T) (s
 	}
 
 	model := data[0]
-	columns := model.Columns()
+	columns := insertColumns(model)
+	noOfCols := len(columns)
+	args := make([]any, 0, noOfCols*noOfData)
+	placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
+	if v, ok := any(model).(sequel.Inserter); ok {
+		placeholder = v.InsertPlaceholders(0)
+	}
 	stmt := strpool.AcquireString()
-
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		_, idx, _ := v.PK()
-		columns = append(columns[:idx], columns[idx+1:]...)
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES ")
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		for i := range data {
-			if i > 0 {
-				stmt.WriteString("," + placeholder)
-			} else {
-				stmt.WriteString(placeholder)
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
-	default:
-		noOfCols := len(columns)
-		cols := strings.Join(columns, ",")
-		args := make([]any, 0, noOfCols*noOfData)
-		placeholder := "(" + strings.Repeat(",{{ quoteVar 1 }}", noOfCols)[1:] + ")"
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + cols + ") VALUES "+ placeholder)
-		args = append(args, data[0].Values()...)
-		for i := 1; i < noOfData; i++ {
-			stmt.WriteString("," + placeholder)
-			args = append(args, data[i].Values()...)
+	defer strpool.ReleaseString(stmt)
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	for i := range data {
+		if i > 0 {
+			stmt.WriteByte(',')
 		}
-		stmt.WriteByte(';')
-		result, err := db.ExecContext(ctx, stmt.String(), args...)
-		strpool.ReleaseString(stmt)
-		return result, err
+		stmt.WriteString(placeholder)
+		args = append(args, insertValues(data[i], columns)...)
 	}
+	stmt.WriteByte(';')
+	return db.ExecContext(ctx, stmt.String(), args...)
 }
 {{ end }}
 
@@ -1544,6 +1492,37 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// insertColumns returns the columns to insert, those which are
+// filled by the database are excluded.
+func insertColumns(model sequel.Columner) []string {
+	if v, ok := model.(sequel.InsertColumner); ok {
+		return v.InsertColumns()
+	}
+	columns := model.Columns()
+	if v, ok := model.(sequel.AutoIncrKeyer); ok {
+		_, idx, _ := v.PK()
+		return slices.Concat(columns[:idx], columns[idx+1:])
+	}
+	return columns
+}
+
+// insertValues returns the values of the columns to insert.
+func insertValues(model sequel.ColumnValuer, columns []string) []any {
+	values := model.Values()
+	tableColumns := model.Columns()
+	if len(values) == len(columns) || len(values) != len(tableColumns) {
+		return values
+	}
+	// The model returns the values of every column, pick what we need
+	args := make([]any, len(columns))
+	for i := range columns {
+		if idx := slices.Index(tableColumns, columns[i]); idx >= 0 {
+			args[i] = values[idx]
+		}
+	}
+	return args
+}
+
 func dbName(model any) string {
 	if v, ok := model.(sequel.Databaser); ok {
 		return v.DatabaseName() + "."
-- 
2.43.0


From d624ee30d3a9ff2db2475fe28e1112ac9328087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 17/45] fix: generated statements address the table in the
 model's database

---
 cmd/sqlgen/codegen/generate.go | 49 +++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 3be6428..d1f6c3a 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -473,6 +473,25 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "}")
 }
 
+// buildTableName appends the table name to the statement. The part of it which is only known
+// at runtime is moved out of the buffer, and returned as the leading go expression.
+func (g *Generator) buildTableName(buf *strings.Builder, t *compiler.Table) (query string) {
+	if method, isWrongType := t.Implements(sqlDatabaser); method == nil && !isWrongType {
+		query = g.Quote(buf.String()) + "+ v.DatabaseName() +"
+		buf.Reset()
+		buf.WriteByte('.')
+	}
+	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
+		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
+	} else if method != nil {
+		buf.WriteString(g.MustQuoteIdentifier(t.Name))
+	} else {
+		query += g.Quote(buf.String()) + "+ v.TableName() +"
+		buf.Reset()
+	}
+	return query
+}
+
 func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
 	buf.WriteString("SELECT ")
@@ -487,15 +506,7 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.WriteString(scanner)
 	}
 	buf.WriteString(" FROM ")
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString(g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote(buf.String()) + "+ v.TableName() +"
-		buf.Reset()
-	}
+	query := g.buildTableName(buf, t)
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
 		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
@@ -540,15 +551,9 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 }
 
 func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler.Table) error {
-	var query string
 	buf := strpool.AcquireString()
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString("INSERT INTO " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("INSERT INTO ") + "+ v.TableName() +"
-	}
+	buf.WriteString("INSERT INTO ")
+	query := g.buildTableName(buf, t)
 	buf.WriteString(" (")
 	columns := t.InsertColumns()
 	for i, f := range columns {
@@ -606,14 +611,8 @@ func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler
 
 func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
-	var query string
-	if method, isWrongType := t.Implements(sqlTabler); isWrongType {
-		g.LogError(fmt.Errorf(`sqlgen: struct %q has function "TableName" but wrong footprint`, t.GoName))
-	} else if method != nil {
-		buf.WriteString("UPDATE " + g.MustQuoteIdentifier(t.Name))
-	} else {
-		query = g.Quote("UPDATE ") + "+ v.TableName() +"
-	}
+	buf.WriteString("UPDATE ")
+	query := g.buildTableName(buf, t)
 	buf.WriteString(" SET ")
 	columns := t.ColumnsWithoutPK()
 	for i, f := range columns {
-- 
2.43.0


From d131a49c95822a240e6ef0beb7fb10e17dc31935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 18/45] fix: quote the composite key columns when
 quote_identifier is enabled

---
 cmd/sqlgen/codegen/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index d1f6c3a..dc2c156 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -388,7 +388,7 @@ func (g *Generator) buildCompositeKeys(w io.Writer, importPkgs *Package, table *
 		if i > 0 {
 			fmt.Fprint(w, `,`)
 		}
-		fmt.Fprint(w, g.Quote(f.Name))
+		fmt.Fprint(w, g.Quote(g.QuoteIdentifier(f.Name)))
 	}
 	fmt.Fprint(w, `}, []int{`)
 	for i, f := range table.Keys {
-- 
2.43.0


From 10462d8d2394a35fd43f8a9eb416c92ce36b690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 19/45] fix: number the key's placeholder after the updated
 columns in UpdateOneByPKStmt

---
 cmd/sqlgen/codegen/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index dc2c156..6a33788 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -627,11 +627,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 	}
 	buf.WriteString(" WHERE ")
 	if pk, ok := t.AutoIncrKey(); ok {
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(t.Columns)))
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
-- 
2.43.0


From c13f8e5ed97414f16eb0abb22256c6b9886a68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:50 +0000
Subject: [PATCH 20/45] fix: apply the custom SQL value expression in bulk
 inserts and key lookups

---
 cmd/sqlgen/codegen/generate.go | 90 ++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 6a33788..d941923 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -227,22 +227,8 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				if g.staticVar {
-					fprintfln(w, `func (%s) InsertPlaceholders(row int) string {
-	return "(%s)" // %d
-}`, t.GoName, strings.Repeat(","+g.dialect.QuoteVar(0), len(insertColumns))[1:], len(insertColumns))
-				} else {
-					fprintfln(w, "func (%s) InsertPlaceholders(row int) string {", t.GoName)
-					fprintfln(w, "const noOfColumn = %d", len(insertColumns))
-					fmt.Fprint(w, `return "("+`)
-					for i := range insertColumns {
-						if i > 0 {
-							fmt.Fprint(w, `+","+`)
-						}
-						fmt.Fprintf(w, `%q+ strconv.Itoa((row * noOfColumn) + %d)`, string(g.dialect.VarRune()), i+1)
-					}
-					fmt.Fprint(w, `+")"`)
-					fprintfln(w, "}")
+				if err := g.buildInsertPlaceholders(w, t, insertColumns); err != nil {
+					return err
 				}
 
 				g.buildInsertOne(w, importPkgs, t)
@@ -492,6 +478,37 @@ func (g *Generator) buildTableName(buf *strings.Builder, t *compiler.Table) (que
 	return query
 }
 
+func (g *Generator) buildInsertPlaceholders(w io.Writer, t *compiler.Table, columns []*compiler.Column) error {
+	fprintfln(w, "func (%s) InsertPlaceholders(row int) string {", t.GoName)
+	if g.staticVar {
+		fprintfln(w, `return "(%s)" // %d`, strings.Repeat(","+g.dialect.QuoteVar(0), len(columns))[1:], len(columns))
+	} else {
+		fprintfln(w, "const noOfColumn = %d", len(columns))
+		fmt.Fprint(w, `return "("+`)
+		for i, f := range columns {
+			if i > 0 {
+				fmt.Fprint(w, `+","+`)
+			}
+			// The position of the variable depends on the row
+			const pos = "\x00"
+			valuer, err := g.sqlValue(f, string(g.dialect.VarRune())+pos)
+			if err != nil {
+				return err
+			}
+			for j, str := range strings.Split(valuer, pos) {
+				if j > 0 {
+					fmt.Fprintf(w, `+ strconv.Itoa((row * noOfColumn) + %d)+`, i+1)
+				}
+				fmt.Fprint(w, g.Quote(str))
+			}
+		}
+		fmt.Fprint(w, `+")"`)
+		fprintfln(w, "")
+	}
+	fprintfln(w, "}")
+	return nil
+}
+
 func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
 	buf.WriteString("SELECT ")
@@ -512,7 +529,11 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(1))
+		valuer, err := g.sqlValuer(pk, 0)
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
 			return g.MustQuoteIdentifier(v.Name)
@@ -631,7 +652,11 @@ func (g *Generator) buildUpdateByPK(w io.Writer, importPkgs *Package, t *compile
 		columns = append(columns, pk)
 	} else if len(t.Keys) == 1 {
 		pk := t.Keys[0]
-		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + g.dialect.QuoteVar(len(columns)+1))
+		valuer, err := g.sqlValuer(pk, len(columns))
+		if err != nil {
+			return err
+		}
+		buf.WriteString(g.MustQuoteIdentifier(pk.Name) + " = " + valuer)
 		columns = append(columns, pk)
 	} else {
 		keyNames := lo.Map(t.Keys, func(v *compiler.Column, _ int) string {
@@ -756,17 +781,28 @@ func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
 }
 
 func (g *Generator) sqlValuer(column *compiler.Column, idx int) (string, error) {
+	return g.sqlValue(column, g.dialect.QuoteVar(idx+1))
+}
+
+// sqlValue wraps the placeholder with the SQL expression of the column, if any.
+func (g *Generator) sqlValue(column *compiler.Column, placeholder string) (string, error) {
+	if !g.hasSQLValuer(column) {
+		return placeholder, nil
+	}
 	t, _ := underlyingType(column.Type)
-	if typeMapper, ok := g.config.DataTypes[t.String()]; ok && typeMapper.SQLValuer != nil {
-		t := template.Must(template.New("valuer").Parse(*typeMapper.SQLValuer))
-		buf := strpool.AcquireString()
-		defer strpool.ReleaseString(buf)
-		if err := t.Execute(buf, g.dialect.QuoteVar(idx+1)); err != nil {
-			return "", err
-		}
-		return buf.String(), nil
+	tmpl := template.Must(template.New("valuer").Parse(*g.config.DataTypes[t.String()].SQLValuer))
+	buf := strpool.AcquireString()
+	defer strpool.ReleaseString(buf)
+	if err := tmpl.Execute(buf, placeholder); err != nil {
+		return "", err
 	}
-	return g.dialect.QuoteVar(idx + 1), nil
+	return buf.String(), nil
+}
+
+func (g *Generator) hasSQLValuer(column *compiler.Column) bool {
+	t, _ := underlyingType(column.Type)
+	typeMapper, ok := g.config.DataTypes[t.String()]
+	return ok && typeMapper.SQLValuer != nil
 }
 
 func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
-- 
2.43.0


From c0bc40f560c7d303cf8f6d840e64b6a51bc939ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:08 +0000
Subject: [PATCH 21/45] fix: UpdateByPK of models without UpdateOneByPKStmt
 updates the non-key columns of the right row

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 85 ++++++++++++--------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 449c3fb..4de79f5 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -620,59 +620,50 @@ func UpdateByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (s
 		query, args := v.UpdateOneByPKStmt()
 		return db.ExecContext(ctx, query, args...)
 	case sequel.PrimaryKeyer:
-		pkName, pkIdx, pk := v.PK()
-		columns := model.Columns()
-		columns = append(columns[:pkIdx], columns[pkIdx+1:]...)
-		values := model.Values()
-		values = append(values[:pkIdx], append(values[pkIdx+1:], pk)...)
-		{{ if isStaticVar -}}
-		return db.ExecContext(ctx, "UPDATE "+DbTable(model)+" SET "+strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE "+pkName+" = {{ quoteVar 1 }};", append(values, pk)...)
-		{{ else -}}
-		stmt := strpool.AcquireString()
-		defer strpool.ReleaseString(stmt)
-		stmt.WriteString("UPDATE "+DbTable(model)+" SET "+ columns[0] +" = "+ wrapVar(1))
-		noOfColumn := len(columns)
-		for i := 1; i < noOfColumn; i++ {
-			stmt.WriteString(","+ columns[i] +" = "+ wrapVar(i + 1))
-		}
-		stmt.WriteString(" WHERE "+ pkName +" = "+ wrapVar(noOfColumn + 2)+ ";")
-		return db.ExecContext(ctx, stmt.String(), append(values, pk)...)
-		{{ end -}}
+		pkName, _, pk := v.PK()
+		return updateByKeys(ctx, db, model, []string{pkName}, []any{pk})
 	case sequel.CompositeKeyer:
-		columns := model.Columns()
-		keyNames, keyIdxs, keys := v.CompositeKey()
-		values := model.Values()
-		sort.Ints(keyIdxs)
-		for i := len(keyIdxs) - 1; i >= 0; i-- {
-			columns = append(columns[:keyIdxs[i]], columns[keyIdxs[i]+1:]...)
-			values = append(values[:keyIdxs[i]], values[keyIdxs[i]+1:]...)
-		}
-		noOfColumn := len(columns)
-		args := make([]any, 0, noOfColumn+len(keys))
-		{{ if isStaticVar -}}
-		query := "UPDATE " + DbTable(model) + " SET " +strings.Join(columns, " = {{ quoteVar 1 }},")+" = {{ quoteVar 1 }} WHERE (" + strings.Join(keyNames, ",") + ") = ({{ quoteVar 1 }}" + strings.Repeat(",{{ quoteVar 1 }}", len(keyNames)-1)+");"
-		return db.ExecContext(ctx, query, append(args, keys...)...)
-		{{ else -}}
-		stmt := strpool.AcquireString()
-		defer strpool.ReleaseString(stmt)
-		stmt.WriteString("UPDATE " + DbTable(model) + " SET " + columns[0] + " = {{ quoteVar 1}}")
-		for i := 1; i < noOfColumn; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(i+1))
-		}
-		stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + wrapVar(noOfColumn+1))
-		noOfKey := len(keyNames)
-		for i := 1; i < noOfKey; i++ {
-			stmt.WriteString("," + columns[i] + " = " + wrapVar(noOfColumn+i+1))
-		}
-		stmt.WriteString(");")
-		args = append(args, values...)
-		return db.ExecContext(ctx, stmt.String(), append(args, keys...)...)
-		{{ end -}}
+		keyNames, _, keys := v.CompositeKey()
+		return updateByKeys(ctx, db, model, keyNames, keys)
 	default:
 		panic("unreachable")
 	}
 }
 
+// updateByKeys is to update the columns which are neither part of the key nor readonly.
+func updateByKeys[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T, keyNames []string, keys []any) (sql.Result, error) {
+	columns := insertColumns(model)
+	values := insertValues(model, columns)
+	args := make([]any, 0, len(columns)+len(keys))
+	stmt := strpool.AcquireString()
+	defer strpool.ReleaseString(stmt)
+	stmt.WriteString("UPDATE " + DbTable(model) + " SET ")
+	for i := range columns {
+		if slices.Contains(keyNames, columns[i]) {
+			continue
+		}
+		if len(args) > 0 {
+			stmt.WriteByte(',')
+		}
+		args = append(args, values[i])
+		stmt.WriteString(columns[i] + " = " + {{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }})
+	}
+	if len(args) == 0 {
+		// Every column is part of the key, there is nothing to update
+		return new(sequel.EmptyResult), nil
+	}
+	stmt.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (")
+	for i := range keys {
+		if i > 0 {
+			stmt.WriteByte(',')
+		}
+		args = append(args, keys[i])
+		stmt.WriteString({{ if isStaticVar }}"{{ quoteVar 1 }}"{{ else }}wrapVar(len(args)){{ end }})
+	}
+	stmt.WriteString(");")
+	return db.ExecContext(ctx, stmt.String(), args...)
+}
+
 // DeleteByPK is to update single record using primary key.
 func DeleteByPK[T sequel.KeyValuer](ctx context.Context, db *sql.DB, model T) (sql.Result, error) {
 	switch v := any(model).(type) {
-- 
2.43.0


From 84ee3be5e9ec3db142caa1267605e8b41a9fcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:03 +0000
Subject: [PATCH 22/45] fix: DeleteByPK sends the key through its custom SQL
 value expression

---
 cmd/sqlgen/codegen/generate.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index d941923..e8b53f8 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -240,6 +240,12 @@ func (g *Generator) generateModels(
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
 				g.buildUpdateByPK(w, importPkgs, t)
 			}
+			// The key must be sent the way it was stored
+			if _, ok := t.AutoIncrKey(); !ok && !t.Readonly && lo.SomeBy(t.Keys, g.hasSQLValuer) {
+				if err := g.buildDeleteByPK(w, importPkgs, t); err != nil {
+					return err
+				}
+			}
 		}
 
 		// Build getter
@@ -571,6 +577,30 @@ func (g *Generator) buildFindByPK(w io.Writer, importPkgs *Package, t *compiler.
 	return nil
 }
 
+func (g *Generator) buildDeleteByPK(w io.Writer, importPkgs *Package, t *compiler.Table) error {
+	buf := strpool.AcquireString()
+	defer strpool.ReleaseString(buf)
+	buf.WriteString("DELETE FROM ")
+	query := g.buildTableName(buf, t)
+	values := make([]string, len(t.Keys))
+	args := make([]string, len(t.Keys))
+	keyNames := make([]string, len(t.Keys))
+	for i, k := range t.Keys {
+		valuer, err := g.sqlValuer(k, i)
+		if err != nil {
+			return err
+		}
+		keyNames[i] = g.MustQuoteIdentifier(k.Name)
+		values[i] = valuer
+		args[i] = g.getOrValue(importPkgs, "v", k)
+	}
+	buf.WriteString(" WHERE (" + strings.Join(keyNames, ",") + ") = (" + strings.Join(values, ",") + ");")
+	fprintfln(w, "func (v "+t.GoName+") DeleteOneByPKStmt() (string, []any) {")
+	fprintfln(w, "return %s, []any{%s}", query+g.Quote(buf.String()), strings.Join(args, ","))
+	fprintfln(w, "}")
+	return nil
+}
+
 func (g *Generator) buildInsertOne(w io.Writer, importPkgs *Package, t *compiler.Table) error {
 	buf := strpool.AcquireString()
 	buf.WriteString("INSERT INTO ")
-- 
2.43.0


From 3708210808c72b5b022ecbf6da11ffb7caa2ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:03 +0000
Subject: [PATCH 23/45] fix: LockByPK looks the row up like FindByPK, and
 without row locks on sqlite

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 4de79f5..4f9a076 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -715,15 +715,28 @@ const (
 )
 {{- end }}
 
+// lockClause returns the row level lock of the statement.
+func lockClause(locker sequel.RowLevelLocker) string {
+{{- if eq driver "sqlite" }}
+	// sqlite has no row level lock, the transaction locks the whole database
+	return ""
+{{- else }}
+	return " " + locker.LockMode()
+{{- end }}
+}
+
 func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, tx *sql.Tx, model Ptr, locker sequel.RowLevelLocker) error {
 	switch v := any(model).(type) {
+	case sequel.KeyFinder:
+		query, args := v.FindOneByPKStmt()
+		return tx.QueryRowContext(ctx, strings.TrimSuffix(query, ";")+lockClause(locker)+";", args...).Scan(model.Addrs()...)
 	case sequel.PrimaryKeyer:
 		pkName, _, pk := v.PK()
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1 "+ locker.LockMode() +";", pk).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE "+pkName+" = {{ quoteVar 1 }} LIMIT 1"+lockClause(locker)+";", pk).Scan(model.Addrs()...)
 	case sequel.CompositeKeyer:
 		keyNames, _, keys := v.CompositeKey()
 		{{ if isStaticVar -}}
-		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1 "+ locker.LockMode() +";", keys...).Scan(model.Addrs()...)
+		return tx.QueryRowContext(ctx, "SELECT "+strings.Join(TableColumns(model), ",")+" FROM "+DbTable(model)+" WHERE ("+strings.Join(keyNames, ",")+") = ({{ quoteVar 1 }}"+strings.Repeat(",{{ quoteVar 1 }}", len(keyNames) - 1)+") LIMIT 1"+lockClause(locker)+";", keys...).Scan(model.Addrs()...)
 		{{ else -}}
 		stmt := strpool.AcquireString()
 		stmt.WriteString("SELECT " + strings.Join(TableColumns(model), ",") + " FROM " + DbTable(model) + " WHERE ("+ strings.Join(keyNames, ",") +") = ({{ quoteVar 1 }}")
@@ -731,7 +744,7 @@ func LockByPK[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Con
 		for i := 1; i < noOfKey; i++ {
 			stmt.WriteString(","+ wrapVar(i+1))
 		}
-		stmt.WriteString(") LIMIT 1 "+ locker.LockMode() +";")
+		stmt.WriteString(") LIMIT 1"+lockClause(locker)+";")
 		row := tx.QueryRowContext(ctx, stmt.String(), keys...)
 		strpool.ReleaseString(stmt)
 		return row.Scan(model.Addrs()...)
-- 
2.43.0


From dbf9549e0b40bc1c75772df388ce5dc07b4062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 24/45] fix: upserts send matching columns and values, and
 resolve conflicts on every database

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 526 ++++++++++---------------
 1 file changed, 199 insertions(+), 327 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 4f9a076..231b149 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1,7 +1,9 @@
 {{- reserveImport "context" }}
 {{- reserveImport "database/sql" }}
 {{- reserveImport "database/sql/driver" }}
+{{- reserveImport "errors" }}
 {{- reserveImport "slices" }}
+{{- reserveImport "reflect" }}
 {{- reserveImport "strings" }}
 {{- reserveImport "strconv" }}
 {{- reserveImport "fmt" }}
@@ -184,80 +186,59 @@ func UpsertOne[T sequel.KeyValuer, Ptr interface{
 		opts[i](&opt)
 	}
 
-	var (
-		stmt     = strpool.AcquireString()
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		values   = model.Values()
-	)
+	columns := insertColumns(model)
+	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
+	// Don't include auto increment primary key on INSERT
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES " + model.InsertPlaceholders(0))
+	opt.writeOnConflict(stmt, model, columns)
+	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
+	record := *model
+	err := db.QueryRowContext(ctx, stmt.String(), insertValues(model, columns)...).Scan(model.Addrs()...)
+	if opt.doNothing && errors.Is(err, sql.ErrNoRows) {
+		// The record exists, neither it nor the model changes
+		*model = record
+		return nil
+	}
+	return err
+}
 
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		values = append(values[:idx], values[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-	default:
-		panic("unreachable")
-	}
-	stmt.WriteString(model.InsertPlaceholders(0))
-	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
+// writeOnConflict appends what to do when the record exists.
+func (opt *upsertOpts) writeOnConflict(stmt *strings.Builder, model sequel.Keyer, columns []string) {
+	var (
+		keys         = keyColumns(model)
+		conflictKeys = opt.duplicateKeys
+		omitFields   = slices.Concat(opt.omitFields, keys)
+	)
+	if len(conflictKeys) == 0 {
+		conflictKeys = keys
+		if v, ok := model.(duplicateKeyer); ok {
+			conflictKeys = v.DuplicateKeys()
+			omitFields = append(omitFields, conflictKeys...)
 		}
 	}
+	stmt.WriteString(" ON CONFLICT(" + strings.Join(conflictKeys, ",") + ")")
 	if opt.doNothing {
 		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		noOfCols = len(columns)
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
-		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
+		return
+	}
+	if v, ok := model.(setOnUpsertOmitter); ok {
+		omitFields = append(omitFields, v.OnUpsertOmitColumns()...)
+	}
+	columns = slices.DeleteFunc(slices.Clone(columns), func(column string) bool {
+		return slices.Contains(omitFields, column)
+	})
+	if len(columns) == 0 {
+		// There is nothing to overwrite, but the record has to be returned
+		columns = conflictKeys[:1]
+	}
+	stmt.WriteString(" DO UPDATE SET ")
+	for i, column := range columns {
+		if i > 0 {
+			stmt.WriteByte(',')
 		}
-		clear(omitDict)
+		stmt.WriteString(column + " = EXCLUDED." + column)
 	}
-	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
-	return db.QueryRowContext(ctx, stmt.String(), values...).Scan(model.Addrs()...)
 }
 
 // Upsert is a helper function to upsert multiple records.
@@ -270,111 +251,32 @@ func Upsert[T interface {
 		return new(sequel.EmptyResult), nil
 	}
 
-	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
-		opt      upsertOpts
-	)
-
+	var opt upsertOpts
 	for i := range opts {
 		opts[i](&opt)
 	}
 
-	var stmt = strpool.AcquireString()
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		columns = append(columns[:idx], columns[idx+1:]...)
-		// Don't include auto increment primary key on INSERT
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		opt.omitFields = append(opt.omitFields, pkName)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	case sequel.CompositeKeyer:
-		keyNames, _, _ := v.CompositeKey()
-		opt.omitFields = append(opt.omitFields, keyNames...)
-		stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	default:
-		panic("unreachable")
-	}
-	if len(opt.duplicateKeys) > 0 {
-		stmt.WriteString(" ON CONFLICT(" + strings.Join(opt.duplicateKeys, ",") + ")")
-	} else {
-		switch vi := any(model).(type) {
-		case duplicateKeyer:
-			keys := vi.DuplicateKeys()
-			opt.omitFields = append(opt.omitFields, keys...)
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(keys, ",") + ")")
-		case sequel.PrimaryKeyer:
-			pkName, _, _ := vi.PK()
-			stmt.WriteString(" ON CONFLICT(" + pkName + ")")
-		case sequel.CompositeKeyer:
-			names, _, _ := vi.CompositeKey()
-			// // Exclude primary key, don't update it
-			// for i := len(idxs) - 1; i >= 0; i-- {
-			// 	columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-			// }
-			stmt.WriteString(" ON CONFLICT(" + strings.Join(names, ",") + ")")
-		default:
-			panic("unreachable")
+	model := data[0]
+	columns := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
+	stmt := strpool.AcquireString()
+	// Don't include auto increment primary key on INSERT
+	stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+	for i := range data {
+		if i > 0 {
+			stmt.WriteByte(',')
 		}
+		stmt.WriteString(model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], columns)...)
 	}
+	opt.writeOnConflict(stmt, model, columns)
 	if opt.doNothing {
-		stmt.WriteString(" DO NOTHING")
-	} else {
-		stmt.WriteString(" DO UPDATE SET ")
-		omitDict := make(map[string]struct{})
-		if omitter, ok := any(model).(setOnUpsertOmitter); ok {
-			opt.omitFields = append(opt.omitFields, omitter.OnUpsertOmitColumns()...)
-		}
-		columns = model.Columns()
-		for i := range opt.omitFields {
-			omitDict[opt.omitFields[i]] = struct{}{}
-		}
-		first := true
-		for i := 0; i < noOfCols; i++ {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + " = EXCLUDED." + columns[i])
-			} else {
-				stmt.WriteString(","+ columns[i] + " = EXCLUDED." + columns[i])
-			}
-			first = false
-		}
-		clear(omitDict)
+		// Only the inserted records would be returned, there is
+		// no way to tell which ones of the data they are
+		stmt.WriteByte(';')
+		query := stmt.String()
+		strpool.ReleaseString(stmt)
+		return db.ExecContext(ctx, query, args...)
 	}
 	stmt.WriteString(" RETURNING " + strings.Join(TableColumns(model), ",") + ";")
 	rows, err := db.QueryContext(ctx, stmt.String(), args...)
@@ -394,88 +296,118 @@ func Upsert[T interface {
 }
 {{ else }}
 func UpsertOne[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]](ctx context.Context, db *sql.DB, model Ptr, override bool, omittedFields ...string) (sql.Result, error) {
+	columns := insertColumns(model)
+	values := insertValues(model, columns)
+	autoIncr, isAutoIncr := any(model).(sequel.AutoIncrKeyer)
+	if isAutoIncr {
+		// Look for the record if the key is known
+		pkName, _, pk := autoIncr.PK()
+		if v := reflect.ValueOf(pk); v.IsValid() && !v.IsZero() && !slices.Contains(columns, pkName) {
+			columns = slices.Concat([]string{pkName}, columns)
+			values = slices.Concat([]any{pk}, values)
+		}
+	}
 	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.PrimaryKeyer:
-		pkName, idx, _ := v.PK()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			omitDict := map[string]struct{}{pkName: {}}
-			for i := range omittedFields {
-				omitDict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			first := true
-			for i := range columns {
-				if _, ok := omitDict[columns[i]]; ok {
-					continue
-				}
-				if first {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				} else {
-					stmt.WriteString(","+ columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-				first = false
-			}
-			clear(omitDict)
-		}
-		if _, ok := any(model).(sequel.AutoIncrKeyer); ok {
-			result, err := db.ExecContext(ctx, stmt.String(), model.Values()...)
-			if err != nil {
-				return nil, err
-			}
-			i64, err := result.LastInsertId()
-			if err != nil {
-				return nil, err
-			}
-			switch v := model.Addrs()[idx].(type) {
-			case *int64:
-				*v = i64
-			case sql.Scanner:
-				if err := v.Scan(i64); err != nil {
-					return nil, err
-				}
-			default:
-				return nil, fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
-			}
-			return result, nil
-		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
-	case sequel.CompositeKeyer:
-		names, idxs, _ := v.CompositeKey()
-		columns := model.Columns()
-		if !override {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", len(columns))[1:] + ");")
-		} else {
-			dict := make(map[string]struct{})
-			for i := range append(names, omittedFields...) {
-				dict[omittedFields[i]] = struct{}{}
-			}
-			noOfCols := len(columns)
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES (" + strings.Repeat(",?", noOfCols)[1:] + ") ON DUPLICATE KEY UPDATE ")
-			// Exclude composite key, don't update it
-			for i := len(idxs) - 1; i >= 0; i-- {
-				columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
+	writeInsertInto(stmt, model, columns, override)
+	stmt.WriteString("(" + strings.Repeat(",{{ quoteVar 1 }}", len(columns))[1:] + ")")
+	writeOnConflict(stmt, model, columns, override, omittedFields)
+	{{ if eq driver "sqlite" -}}
+	if isAutoIncr {
+		// The last insert id is unknown when the record exists
+		pkName, _, _ := autoIncr.PK()
+		stmt.WriteString(" RETURNING " + pkName + ";")
+		var i64 int64
+		if err := db.QueryRowContext(ctx, stmt.String(), values...).Scan(&i64); err != nil {
+			if !override && errors.Is(err, sql.ErrNoRows) {
+				return new(sequel.EmptyResult), nil
 			}
-			for i := range columns {
-				if _, ok := dict[columns[i]]; ok {
-					continue
-				}
-				if i < noOfCols-1 {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + "),")
-				} else {
-					stmt.WriteString(columns[i] + " =VALUES(" + columns[i] + ")")
-				}
-			}
-			clear(dict)
+			return nil, err
 		}
-		return db.ExecContext(ctx, stmt.String(), model.Values()...)
+		return sequel.NewRowsAffectedResult(1), scanAutoIncr(model, autoIncr, i64)
+	}
+	stmt.WriteByte(';')
+	return db.ExecContext(ctx, stmt.String(), values...)
+	{{ else -}}
+	stmt.WriteByte(';')
+	result, err := db.ExecContext(ctx, stmt.String(), values...)
+	if err != nil || !isAutoIncr {
+		return result, err
+	}
+	i64, err := result.LastInsertId()
+	if err != nil {
+		return nil, err
+	}
+	if i64 == 0 {
+		// The record exists, and it remains unchanged
+		return result, nil
+	}
+	return result, scanAutoIncr(model, autoIncr, i64)
+	{{ end -}}
+}
+
+// scanAutoIncr sets the auto increment key of the model, and nothing else.
+func scanAutoIncr(model sequel.Scanner, autoIncr sequel.AutoIncrKeyer, i64 int64) error {
+	if v, ok := model.(interface{ ScanAutoIncr(int64) error }); ok {
+		return v.ScanAutoIncr(i64)
+	}
+	_, idx, _ := autoIncr.PK()
+	switch v := model.Addrs()[idx].(type) {
+	case *int64:
+		*v = i64
+		return nil
+	case sql.Scanner:
+		return v.Scan(i64)
 	default:
-		panic("unreachable")
+		return fmt.Errorf(`sqlgen: invalid auto increment data type %T`, v)
+	}
+}
+
+func writeInsertInto(stmt *strings.Builder, model sequel.Tabler, columns []string, override bool) {
+	{{ if eq driver "sqlite" -}}
+	stmt.WriteString("INSERT INTO ")
+	{{ else -}}
+	if override {
+		stmt.WriteString("INSERT INTO ")
+	} else {
+		stmt.WriteString("INSERT IGNORE INTO ")
+	}
+	{{ end -}}
+	stmt.WriteString(DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
+}
+
+// writeOnConflict appends what to do when the record exists.
+func writeOnConflict(stmt *strings.Builder, model sequel.Keyer, columns []string, override bool, omittedFields []string) {
+	if !override {
+		{{ if eq driver "sqlite" -}}
+		stmt.WriteString(" ON CONFLICT DO NOTHING")
+		{{ end -}}
+		return
+	}
+	// Don't update primary key when we do upsert
+	keys := keyColumns(model)
+	columns = slices.DeleteFunc(slices.Clone(columns), func(column string) bool {
+		return slices.Contains(keys, column) || slices.Contains(omittedFields, column)
+	})
+	{{ if eq driver "sqlite" -}}
+	stmt.WriteString(" ON CONFLICT DO UPDATE SET ")
+	{{ else -}}
+	stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
+	{{ end -}}
+	if len(columns) == 0 {
+		// There is nothing to overwrite
+		stmt.WriteString(keys[0] + "=" + keys[0])
+		return
+	}
+	for i, column := range columns {
+		if i > 0 {
+			stmt.WriteByte(',')
+		}
+		{{ if eq driver "sqlite" -}}
+		stmt.WriteString(column + "=excluded." + column)
+		{{ else -}}
+		stmt.WriteString(column + "=VALUES(" + column + ")")
+		{{ end -}}
 	}
 }
 
@@ -489,95 +421,21 @@ func Upsert[T interface {
 		return new(sequel.EmptyResult), nil
 	}
 
-	var (
-		model    = data[0]
-		columns  = model.Columns()
-		noOfCols = len(columns)
-		args     = make([]any, 0, noOfCols*noOfData)
-	)
-
-	var stmt = strpool.AcquireString()
+	model := data[0]
+	columns := insertColumns(model)
+	args := make([]any, 0, len(columns)*noOfData)
+	stmt := strpool.AcquireString()
 	defer strpool.ReleaseString(stmt)
-	switch v := any(model).(type) {
-	case sequel.AutoIncrKeyer:
-		pkName, idx, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		// Don't include auto increment primary key on INSERT
-		columns = append(columns[:idx], columns[idx+1:]...)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		placeholder := ",(" + strings.Repeat(",?", noOfCols)[1:] + ")"
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString(placeholder)
-			} else {
-				stmt.WriteString(placeholder[1:])
-			}
-			values := data[i].Values()
-			values = append(values[:idx], values[idx+1:]...)
-			args = append(args, values...)
-		}
-	case sequel.PrimaryKeyer:
-		pkName, _, _ := v.PK()
-		omittedFields = append(omittedFields, pkName)
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-	case sequel.CompositeKeyer:
-		if override {
-			stmt.WriteString("INSERT INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		} else {
-			stmt.WriteString("INSERT IGNORE INTO " + DbTable(model) + " (" + strings.Join(columns, ",") + ") VALUES ")
-		}
-		for i := 0; i < noOfData; i++ {
-			if i > 0 {
-				stmt.WriteString("," + model.InsertPlaceholders(i))
-			} else {
-				stmt.WriteString(model.InsertPlaceholders(i))
-			}
-			args = append(args, data[i].Values()...)
-		}
-		_, idxs, _ := v.CompositeKey()
-		// Exclude primary key, don't update it
-		for i := len(idxs) - 1; i >= 0; i-- {
-			columns = append(columns[:idxs[i]], columns[idxs[i]+1:]...)
-		}
-	}
-	if override {
-		stmt.WriteString(" ON DUPLICATE KEY UPDATE ")
-		// Don't update primary key when we do upsert
-		omitDict := map[string]struct{}{}
-		for i := range omittedFields {
-			omitDict[omittedFields[i]] = struct{}{}
-		}
-		noOfCols = len(columns)
-		first := true
-		for i := range columns {
-			if _, ok := omitDict[columns[i]]; ok {
-				continue
-			}
-			if first {
-				stmt.WriteString(columns[i] + "=VALUES(" + columns[i] + ")")
-			} else {
-				stmt.WriteString(","+ columns[i] + "=VALUES(" + columns[i] + ")")
-			}
-			first = false
+	// Don't include auto increment primary key on INSERT
+	writeInsertInto(stmt, model, columns, override)
+	for i := range data {
+		if i > 0 {
+			stmt.WriteByte(',')
 		}
-		clear(omitDict)
+		stmt.WriteString(model.InsertPlaceholders(i))
+		args = append(args, insertValues(data[i], columns)...)
 	}
+	writeOnConflict(stmt, model, columns, override, omittedFields)
 	stmt.WriteByte(';')
 	return db.ExecContext(ctx, stmt.String(), args...)
 }
@@ -1496,6 +1354,20 @@ func TableColumns[T sequel.Columner](model T) []string {
 	return model.Columns()
 }
 
+// keyColumns returns the columns of the primary key.
+func keyColumns(model sequel.Keyer) []string {
+	switch v := model.(type) {
+	case sequel.PrimaryKeyer:
+		pkName, _, _ := v.PK()
+		return []string{pkName}
+	case sequel.CompositeKeyer:
+		keyNames, _, _ := v.CompositeKey()
+		return keyNames
+	default:
+		panic("unreachable")
+	}
+}
+
 // insertColumns returns the columns to insert, those which are
 // filled by the database are excluded.
 func insertColumns(model sequel.Columner) []string {
-- 
2.43.0


From 7ce2636b8f8ddf0d3624f68438c2131ba157459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:23 +0000
Subject: [PATCH 25/45] fix: paginate visits every record once in the requested
 order

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 344 +++++++------------------
 1 file changed, 98 insertions(+), 246 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 231b149..4a4d9ff 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -634,12 +634,22 @@ type Pager[T sequel.KeyValuer, Ptr sequel.KeyValueScanner[T]] struct {
 	stmt *PaginateStmt
 }
 
+// Prev iterates backward, from the cursor (or the last record) to the first record.
 func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, cursor, true)
+}
+
+// Next iterates forward, from the cursor (or the first record) to the last record.
+func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
+	return r.paginate(ctx, db, cursor, false)
+}
+
+func (r *Pager[T, Ptr]) paginate(ctx context.Context, db *sql.DB, cursor []T, reverse bool) iter.Seq2[[]T, error] {
 	return func(yield func([]T, error) bool) {
 		var (
 			v         T
 			hasCursor bool
-			maxLimit  = r.stmt.Limit
+			maxLimit  = int(r.stmt.Limit)
 		)
 		if len(cursor) > 0 {
 			v = cursor[0]
@@ -649,103 +659,45 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 		defer ReleaseStmt(blr)
 
 		for {
-			if hasCursor {
+			if hasCursor && r.stmt.FromTable == "" {
 				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
 					yield(nil, err)
 					return
 				}
 			}
 
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
+			columns := r.stmt.Select
+			if len(columns) == 0 {
+				columns = TableColumns(v)
+			}
+			table := DbTable(v)
+			if r.stmt.FromTable != "" {
+				table = dbName(v) + r.stmt.FromTable
+			}
+			blr.WriteString("SELECT " + strings.Join(columns, ",") + " FROM " + table)
 			if r.stmt.Where != nil {
+				blr.WriteString(" WHERE (")
 				r.stmt.Where(blr)
+				blr.WriteByte(')')
 			}
-
-			if n := len(r.stmt.OrderBy); n > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				buf := strpool.AcquireString()
-				for i := 0; i < n; i++ {
-					orderedColumn := r.stmt.OrderBy[i]
-					columnName := orderedColumn.ColumnName()
-					value := values[colDict[columnName]]
-					if orderedColumn.Asc() {
-						// If ascending
-						blr.WriteString(columnName + " <= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " < " + blr.Var(value) + " OR ")
-					} else {
-						// If descending
-						blr.WriteString(columnName + " >= " + blr.Var(value) + " AND ")
-						buf.WriteString(columnName + " > " + blr.Var(value) + " OR ")
-					}
-				}
-				clear(colDict)
-				blr.WriteString("("+ buf.String())
-				strpool.ReleaseString(buf)
-			}
-
 			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") <= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " <= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
+				if r.stmt.Where != nil {
+					blr.WriteString(" AND ")
+				} else {
+					blr.WriteString(" WHERE ")
 				}
+				r.writeCursor(blr, v, table, reverse)
 			}
-			
 
 			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " DESC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if lastCol.Asc() {
-					suffix = " ASC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// descending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") DESC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + " DESC")
-				default:
-					panic("unreachable")
-				}
+			for _, orderBy := range r.stmt.OrderBy {
+				blr.WriteString(orderBy.ColumnName() + direction(orderBy.Asc() != reverse) + ",")
 			}
+			// The primary key breaks the ties
+			suffix := direction(r.isAsc() != reverse)
+			blr.WriteString(strings.Join(keyColumns(v), suffix+",") + suffix)
 			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
+			blr.WriteString(" LIMIT " + strconv.Itoa(maxLimit+1) + ";")
 
 			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
 			blr.Reset()
@@ -754,7 +706,7 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				return
 			}
 
-			data := make([]T, 0, r.stmt.Limit+1)
+			data := make([]T, 0, maxLimit+1)
 			for rows.Next() {
 				var v T
 				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
@@ -764,17 +716,20 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 				}
 				data = append(data, v)
 			}
+			if err := rows.Err(); err != nil {
+				rows.Close()
+				yield(nil, err)
+				return
+			}
 			rows.Close()
 
 			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
+			if noOfRecord <= maxLimit {
+				yield(data, nil)
 				return
 			}
 
-			if !yield(data[:noOfRecord-1], nil) {
+			if !yield(data[:noOfRecord-1:noOfRecord-1], nil) {
 				return
 			}
 
@@ -785,167 +740,50 @@ func (r *Pager[T, Ptr]) Prev(ctx context.Context, db *sql.DB, cursor ...T) iter.
 	}
 }
 
-func (r *Pager[T, Ptr]) Next(ctx context.Context, db *sql.DB, cursor ...T) iter.Seq2[[]T, error] {
-	return func(yield func([]T, error) bool) {
-		var (
-			v         T
-			hasCursor bool
-			maxLimit  = r.stmt.Limit
-		)
-		if len(cursor) > 0 {
-			v = cursor[0]
-			hasCursor = true
-		}
-		blr := AcquireStmt()
-		defer ReleaseStmt(blr)
-
-		for {
-			if hasCursor {
-				if err := FindByPK(ctx, db, Ptr(&v)); err != nil {
-					yield(nil, err)
-					return
-				}
-			}
-
-			blr.WriteString("SELECT " + strings.Join(TableColumns(v), ",") + " FROM " + DbTable(v) + " WHERE ")
-			if r.stmt.Where != nil {
-				r.stmt.Where(blr)
-			}
-
-			if len(r.stmt.OrderBy) > 0 {
-				colDict := make(map[string]int)
-				columns := v.Columns()
-				values := v.Values()
-				for i := range columns {
-					colDict[columns[i]] = i
-				}
-
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" AND ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " >= " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " <= " + blr.Var(val))
-					}
-				}
-				blr.WriteString(" AND (")
-				for i, orderBy := range r.stmt.OrderBy {
-					colName := orderBy.ColumnName()
-					val := values[colDict[colName]]
-					if i > 0 {
-						blr.WriteString(" OR ")
-					}
-					if orderBy.Asc() {
-						// If ascending
-						blr.WriteString(colName + " > " + blr.Var(val))
-					} else {
-						// If descending
-						blr.WriteString(colName + " < " + blr.Var(val))
-					}
-				}
-				clear(colDict)
-				blr.WriteString(" OR ")
-			}
-
-			if hasCursor {
-				// Check the primary key and compare value
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, vals := vi.CompositeKey()
-					blr.WriteString("((" + strings.Join(pkNames, ",") + ") >= " + blr.Vars(vals)+")")
-				case sequel.PrimaryKeyer:
-					pkName, _, val := vi.PK()
-					blr.WriteString("("+pkName + " >= " + blr.Var(val)+")")
-				default:
-					panic("unreachable")
-				}
-			}
-
-			blr.WriteString(" ORDER BY ")
-			if len(r.stmt.OrderBy) > 0 {
-				for i := range r.stmt.OrderBy {
-					if r.stmt.OrderBy[i].Asc() {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " ASC,")
-					} else {
-						blr.WriteString(r.stmt.OrderBy[i].ColumnName() + " DESC,")
-					}
-				}
-				var (
-					suffix  = " ASC"
-					lastCol = r.stmt.OrderBy[len(r.stmt.OrderBy)-1]
-				)
-				if !lastCol.Asc() {
-					suffix = " DESC"
-				}
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +")"+ suffix)
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName + suffix)
-				default:
-					panic("unreachable")
-				}
-			} else {
-				// If there is no order by clause,
-				// ascending is the default order
-				switch vi := any(v).(type) {
-				case sequel.CompositeKeyer:
-					pkNames, _, _ := vi.CompositeKey()
-					blr.WriteString("("+ strings.Join(pkNames, ",") +") ASC")
-				case sequel.PrimaryKeyer:
-					pkName, _, _ := vi.PK()
-					blr.WriteString(pkName)
-				default:
-					panic("unreachable")
-				}
-			}
-			// Add one to limit to find next cursor
-			blr.WriteString(" LIMIT " + strconv.Itoa((int)(r.stmt.Limit+1)) + ";")
-
-			rows, err := db.QueryContext(ctx, blr.Query(), blr.Args()...)
-			blr.Reset()
-			if err != nil {
-				yield(nil, err)
-				return
-			}
-
-			data := make([]T, 0, r.stmt.Limit+1)
-			for rows.Next() {
-				var v T
-				if err := rows.Scan(Ptr(&v).Addrs()...); err != nil {
-					rows.Close()
-					yield(nil, err)
-					return
-				}
-				data = append(data, v)
-			}
-			rows.Close()
-
-			noOfRecord := len(data)
-			if uint16(noOfRecord) <= maxLimit {
-				if !yield(data, nil) {
-					return
-				}
-				return
-			}
-
-			if !yield(data[:noOfRecord-1], nil) {
-				return
-			}
+// isAsc is the direction of the primary key, that of the last order.
+func (r *Pager[T, Ptr]) isAsc() bool {
+	if n := len(r.stmt.OrderBy); n > 0 {
+		return r.stmt.OrderBy[n-1].Asc()
+	}
+	return true
+}
 
-			v = data[noOfRecord-1] // Set next cursor
-			data = nil // Reset result
-			hasCursor = true
+// writeCursor appends the condition of the records at or after the cursor.
+func (r *Pager[T, Ptr]) writeCursor(blr *SqlStmt, v T, table string, reverse bool) {
+	keyNames, keys := keyColumns(v), keyValues(v)
+	for _, orderBy := range r.stmt.OrderBy {
+		column := orderBy.ColumnName()
+		// The database knows the exact value of the column
+		value := func() string {
+			return "(SELECT " + column + " FROM " + table + " WHERE (" + strings.Join(keyNames, ",") + ") = " + blr.Vars(keys) + ")"
+		}
+		asc := orderBy.Asc() != reverse
+		if asc {
+			blr.WriteString("(" + column + " > " + value())
+		} else {
+			blr.WriteString("(" + column + " < " + value())
 		}
+		// NULL values come {{ if eq driver "postgres" }}after{{ else }}before{{ end }} the others in ascending order
+		if {{ if eq driver "postgres" }}!{{ end }}asc {
+			blr.WriteString(" OR (" + column + " IS NOT NULL AND " + value() + " IS NULL)")
+		} else {
+			blr.WriteString(" OR (" + column + " IS NULL AND " + value() + " IS NOT NULL)")
+		}
+		blr.WriteString(" OR ((" + column + " = " + value() + " OR (" + column + " IS NULL AND " + value() + " IS NULL)) AND ")
 	}
+	operator := " <= "
+	if r.isAsc() != reverse {
+		operator = " >= "
+	}
+	blr.WriteString("(" + strings.Join(keyNames, ",") + ")" + operator + blr.Vars(keys))
+	blr.WriteString(strings.Repeat("))", len(r.stmt.OrderBy)))
+}
+
+func direction(asc bool) string {
+	if asc {
+		return " ASC"
+	}
+	return " DESC"
 }
 
 type SelectStmt struct {
@@ -1368,6 +1206,20 @@ func keyColumns(model sequel.Keyer) []string {
 	}
 }
 
+// keyValues returns the values of the primary key.
+func keyValues(model sequel.Keyer) []any {
+	switch v := model.(type) {
+	case sequel.PrimaryKeyer:
+		_, _, pk := v.PK()
+		return []any{pk}
+	case sequel.CompositeKeyer:
+		_, _, keys := v.CompositeKey()
+		return keys
+	default:
+		panic("unreachable")
+	}
+}
+
 // insertColumns returns the columns to insert, those which are
 // filled by the database are excluded.
 func insertColumns(model sequel.Columner) []string {
-- 
2.43.0


From b8de1fde33d54104d4b56e4e057266bd12bf2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 26/45] fix: operators on empty lists, empty groups and columns
 with an SQL value

---
 cmd/sqlgen/codegen/templates/operator.go.tpl | 50 +++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/operator.go.tpl b/cmd/sqlgen/codegen/templates/operator.go.tpl
index de50d7b..cef0741 100644
--- a/cmd/sqlgen/codegen/templates/operator.go.tpl
+++ b/cmd/sqlgen/codegen/templates/operator.go.tpl
@@ -10,6 +10,8 @@ func And(clauses ...sequel.WhereClause) sequel.WhereClause {
 				clauses[i](w)
 			}
 			w.WriteByte(')')
+		} else {
+			w.WriteString("1 = 1")
 		}
 	}
 }
@@ -24,6 +26,8 @@ func Or(clauses ...sequel.WhereClause) sequel.WhereClause {
 				clauses[i](w)
 			}
 			w.WriteByte(')')
+		} else {
+			w.WriteString("1 = 0")
 		}
 	}
 }
@@ -32,7 +36,7 @@ func Equal[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereCla
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
@@ -45,7 +49,7 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <> " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <> " + w.Var(vi.Convert(value)))
 		default:
@@ -56,12 +60,22 @@ func NotEqual[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 
 func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 0")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
+			w.WriteString(column.ColumnName() + " IN (")
 			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+				if idx > 0 {
+					w.WriteByte(',')
+				}
+				w.WriteString(vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -77,12 +91,22 @@ func In[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 
 func NotIn[T any](column sequel.ColumnClause[T], values []T) sequel.WhereClause {
 	return func(w sequel.StmtWriter) {
+		if len(values) == 0 {
+			w.WriteString("1 = 1")
+			return
+		}
 		args := make([]any, len(values))
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
+			w.WriteString(column.ColumnName() + " NOT IN (")
 			for idx := range values {
-				args[idx] = vi.Convert(values[idx])
+				if idx > 0 {
+					w.WriteByte(',')
+				}
+				w.WriteString(vi.SQLColumn(w.Var(vi.Convert(values[idx]))))
 			}
+			w.WriteByte(')')
+			return
 		case sequel.ColumnConvertClause[T]:
 			for idx := range values {
 				args[idx] = vi.Convert(values[idx])
@@ -100,7 +124,7 @@ func GreaterThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Wh
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " > " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " > " + w.Var(vi.Convert(value)))
 		default:
@@ -113,7 +137,7 @@ func GreaterThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) se
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " >= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " >= " + w.Var(vi.Convert(value)))
 		default:
@@ -126,7 +150,7 @@ func LessThan[T comparable](column sequel.ColumnClause[T], value T) sequel.Where
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " < " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " < " + w.Var(vi.Convert(value)))
 		default:
@@ -139,7 +163,7 @@ func LessThanOrEqual[T comparable](column sequel.ColumnClause[T], value T) seque
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " <= " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " <= " + w.Var(vi.Convert(value)))
 		default:
@@ -152,7 +176,7 @@ func Like[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereClau
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -165,7 +189,7 @@ func NotLike[T comparable](column sequel.ColumnClause[T], value T) sequel.WhereC
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
+			w.WriteString(vi.ColumnName() + " NOT LIKE " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT LIKE " + w.Var(vi.Convert(value)))
 		default:
@@ -190,7 +214,7 @@ func Between[T comparable](column sequel.ColumnClause[T], from, to T) sequel.Whe
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -203,7 +227,7 @@ func NotBetween[T comparable](column sequel.ColumnClause[T], from, to T) sequel.
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
+			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + vi.SQLColumn(w.Var(vi.Convert(from))) + " AND " + vi.SQLColumn(w.Var(vi.Convert(to))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(vi.ColumnName() + " NOT BETWEEN " + w.Var(vi.Convert(from)) + " AND " + w.Var(vi.Convert(to)))
 		default:
@@ -216,7 +240,7 @@ func Set[T any](column sequel.ColumnClause[T], value T) sequel.SetClause {
 	return func(w sequel.StmtWriter) {
 		switch vi := column.(type) {
 		case sequel.SQLColumnClause[T]:
-			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
+			w.WriteString(column.ColumnName() + " = " + vi.SQLColumn(w.Var(vi.Convert(value))))
 		case sequel.ColumnConvertClause[T]:
 			w.WriteString(column.ColumnName() + " = " + w.Var(vi.Convert(value)))
 		default:
-- 
2.43.0


From 5f4b384d91713de05fb81f3dcc8b74aea647f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 27/45] fix: Vars of an empty list does not panic

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 4a4d9ff..9642038 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1086,6 +1086,9 @@ func (s *SqlStmt) Var(value any) string {
 
 func (s *SqlStmt) Vars(values []any) string {
 	noOfLen := len(values)
+	if noOfLen == 0 {
+		return "()"
+	}
 	s.args = append(s.args, values...)
 	{{ if isStaticVar -}}
 	return "(" + strings.Repeat(",{{ varRune }}", noOfLen)[1:] + ")"
-- 
2.43.0


From 24f68e71f72114a8e0a700fcdcd64825827d00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 28/45] fix: select with an offset but no limit

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 9642038..1376841 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -848,7 +848,10 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 	}
 	if stmt.Limit > 0 {
 		blr.WriteString(" LIMIT " + strconv.Itoa((int)(stmt.Limit)))
-	}
+	}{{ if ne driver "postgres" }} else if stmt.Offset > 0 {
+		// OFFSET is only allowed after LIMIT
+		blr.WriteString(" LIMIT {{ if eq driver "mysql" }}18446744073709551615{{ else }}-1{{ end }}")
+	}{{ end }}
 	if stmt.Offset > 0 {
 		blr.WriteString(" OFFSET " + strconv.FormatUint(stmt.Offset, 10))
 	}
-- 
2.43.0


From bb95d6d5e3a54ff58517723eb678616accd8f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 29/45] fix: update and delete statements honour the table they
 are given

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 1376841..093e7eb 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -974,10 +974,12 @@ func ExecStmt[T any, Stmt interface {
 
 	switch vi := any(stmt).(type) {
 	case UpdateStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vi.Table != "" {
+			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
+		} else if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("UPDATE " + DbTable(vt))
 		} else {
-			blr.WriteString("UPDATE " + dbName(v) + vi.Table)
+			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 		if len(vi.Set) > 0 {
 			blr.WriteString(" SET ")
@@ -1013,10 +1015,12 @@ func ExecStmt[T any, Stmt interface {
 		{{ end -}}
 
 	case DeleteStmt:
-		if vt, ok := any(v).(sequel.Tabler); ok {
+		if vi.FromTable != "" {
+			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
+		} else if vt, ok := any(v).(sequel.Tabler); ok {
 			blr.WriteString("DELETE FROM " + DbTable(vt))
 		} else {
-			blr.WriteString("DELETE FROM " + dbName(v) + vi.FromTable)
+			return nil, fmt.Errorf("missing table name for model %T", v)
 		}
 		if vi.Where != nil {
 			blr.WriteString(" WHERE ")
-- 
2.43.0


From 70ad37a315383b805f4bff441604e668e6ab20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 30/45] fix: update and delete statements only order where the
 database allows it

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 093e7eb..77f8786 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -993,7 +993,9 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" WHERE ")
 			vi.Where(blr)
 		}
-		if n := len(vi.OrderBy); n > 0 {
+		{{ if ne driver "postgres" -}}
+		{{- /* postgres */ -}}
+		if n := len(vi.OrderBy); n > 0{{ if eq driver "sqlite" }} && vi.Limit > 0{{ end }} {
 			if vi.OrderBy[0].Asc() {
 				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
 			} else {
@@ -1007,8 +1009,6 @@ func ExecStmt[T any, Stmt interface {
 				}
 			}
 		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
 		if vi.Limit > 0 {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
@@ -1026,7 +1026,9 @@ func ExecStmt[T any, Stmt interface {
 			blr.WriteString(" WHERE ")
 			vi.Where(blr)
 		}
-		if n := len(vi.OrderBy); n > 0 {
+		{{ if ne driver "postgres" -}}
+		{{- /* postgres */ -}}
+		if n := len(vi.OrderBy); n > 0{{ if eq driver "sqlite" }} && vi.Limit > 0{{ end }} {
 			if vi.OrderBy[0].Asc() {
 				blr.WriteString(" ORDER BY "+vi.OrderBy[0].ColumnName())
 			} else {
@@ -1040,8 +1042,6 @@ func ExecStmt[T any, Stmt interface {
 				}
 			}
 		}
-		{{ if ne driver "postgres" -}}
-		{{- /* postgres */ -}}
 		if vi.Limit > 0 {
 			blr.WriteString(" LIMIT " + strconv.Itoa((int)(vi.Limit)))
 		}
-- 
2.43.0


From 191b6bd1e043b5cecb78909b76f2456d93729da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 31/45] fix: report errors while reading the result of queries
 and upserts

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 77f8786..40eb48a 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -292,6 +292,9 @@ func Upsert[T interface {
 		}
 		i++
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return sequel.NewRowsAffectedResult(i), rows.Close()
 }
 {{ else }}
@@ -871,6 +874,9 @@ func QueryStmt[T any, Ptr sequel.PtrScanner[T]](ctx context.Context, db *sql.DB,
 		}
 		result = append(result, v)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	if err := rows.Close(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d142d2a586a59aff1dd7074fcead79be90186c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:56 +0000
Subject: [PATCH 32/45] fix: formatting a statement renders every argument as a
 literal and leaves quoted text alone

---
 cmd/sqlgen/codegen/templates/db.go.tpl | 111 +++++++++++++++----------
 1 file changed, 67 insertions(+), 44 deletions(-)

diff --git a/cmd/sqlgen/codegen/templates/db.go.tpl b/cmd/sqlgen/codegen/templates/db.go.tpl
index 40eb48a..c468fb5 100644
--- a/cmd/sqlgen/codegen/templates/db.go.tpl
+++ b/cmd/sqlgen/codegen/templates/db.go.tpl
@@ -1156,35 +1156,45 @@ func (s *SqlStmt) Format(f fmt.State, verb rune) {
 	}
 
 	var (
-		args = make([]any, len(s.args))
-		idx  int
-		i    = 1
+		args  = s.args
+		quote byte
 	)
-
-	copy(args, s.args)
-
-	for {
+	for i := 0; i < len(str); i++ {
+		c := str[i]
+		switch {
+		case quote != 0:
+			// Placeholders inside quotes are plain text
+			{{ if eq driver "mysql" -}}
+			if c == '\\' && quote != '`' && i+1 < len(str) {
+				f.Write([]byte(str[i : i+2]))
+				i++
+				continue
+			}
+			{{ end -}}
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"'{{ if ne driver "postgres" }} || c == '`'{{ end }}:
+			quote = c
 		{{ if isStaticVar -}}
-		idx = strings.Index(str, "?")
+		case c == '?' && len(args) > 0:
+			f.Write([]byte(strf(args[0])))
+			args = args[1:]
+			continue
 		{{ else -}}
-		placeholder := wrapVar(i)
-		idx = strings.Index(str, placeholder)
+		case strings.HasPrefix(str[i:], {{ quote varRune }}):
+			end := i + 1
+			for end < len(str) && str[end] >= '0' && str[end] <= '9' {
+				end++
+			}
+			if n, err := strconv.Atoi(str[i+1 : end]); err == nil && n > 0 && n <= len(args) {
+				f.Write([]byte(strf(args[n-1])))
+				i = end - 1
+				continue
+			}
 		{{ end -}}
-		if idx < 0 {
-			f.Write(unsafe.Slice(unsafe.StringData(str), len(str)))
-			break
 		}
-
-		f.Write([]byte(str[:idx]))
-		v := strf(args[0])
-		f.Write(unsafe.Slice(unsafe.StringData(v), len(v)))
-		{{ if isStaticVar -}}
-		str = str[idx+1:]
-		{{ else -}}
-		str = str[idx+len(placeholder):]
-		{{ end -}}
-		args = args[1:]
-		i++
+		f.Write([]byte{c})
 	}
 }
 
@@ -1280,44 +1290,47 @@ func wrapVar(i int) string {
 }
 {{ end }}
 
+// quoteStr returns the string literal.
+func quoteStr(v string) string {
+	{{ if eq driver "postgres" -}}
+	return pgutil.Quote(v)
+	{{ else -}}
+	{{ if eq driver "mysql" -}}
+	v = strings.ReplaceAll(v, "\\", "\\\\")
+	{{ end -}}
+	return "'" + strings.ReplaceAll(v, "'", "''") + "'"
+	{{ end -}}
+}
+
 func strf(v any) string {
 	switch vi := v.(type) {
 	case nil:
 		return "NULL"
 	case string:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(vi)
-	{{ else -}}
-		return strconv.Quote(vi)
-	{{ end -}}
+		return quoteStr(vi)
 	case []byte:
-	{{ if eq driver "postgres" -}}
-		return pgutil.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ else -}}
-		return strconv.Quote(unsafe.String(unsafe.SliceData(vi), len(vi)))
-	{{ end -}}
+		return quoteStr(string(vi))
 	case bool:
 		return strconv.FormatBool(vi)
 	case int64:
 		return strconv.FormatInt(vi, 10)
 	case float64:
-		return strconv.FormatFloat(vi, 'f', 10, 64)
+		return strconv.FormatFloat(vi, 'f', -1, 64)
 	case time.Time:
-		return strconv.Quote(vi.Format(time.RFC3339))
+		return quoteStr(vi.Format(time.RFC3339Nano))
 	case sql.RawBytes:
-		return unsafe.String(unsafe.SliceData(vi), len(vi))
+		return quoteStr(string(vi))
 	case driver.Valuer:
+		if vt := reflect.ValueOf(v); vt.Kind() == reflect.Pointer && vt.IsNil() {
+			return "NULL"
+		}
 		val, _ := vi.Value()
 		return strf(val)
 	default:
 		vt := reflect.ValueOf(v)
 		switch vt.Kind() {
 		case reflect.String:
-		{{ if eq driver "postgres" -}}
-			return pgutil.Quote(vt.String())
-		{{ else -}}
-			return strconv.Quote(vt.String())
-		{{ end -}}
+			return quoteStr(vt.String())
 		case reflect.Bool:
 			return strconv.FormatBool(vt.Bool())
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -1325,9 +1338,19 @@ func strf(v any) string {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			return strconv.FormatUint(vt.Uint(), 10)
 		case reflect.Float32, reflect.Float64:
-			return strconv.FormatFloat(vt.Float(), 'f', 10, 64)
+			return strconv.FormatFloat(vt.Float(), 'f', -1, 64)
+		case reflect.Pointer:
+			if vt.IsNil() {
+				return "NULL"
+			}
+			return strf(vt.Elem().Interface())
+		case reflect.Slice:
+			if vt.Type().Elem().Kind() == reflect.Uint8 {
+				return quoteStr(string(vt.Bytes()))
+			}
+			return quoteStr(fmt.Sprint(v))
 		default:
-			panic("unreachable")
+			return quoteStr(fmt.Sprint(v))
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 95982db131e7dfca6d8d89ad0e3807e48ab0f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 33/45] fix: value and scan expressions of pointers, named
 lists, runes and imported types

---
 .../codegen/dialect/mysql/column_type.go      |   2 +-
 .../codegen/dialect/sqlite/column_type.go     |   2 +-
 cmd/sqlgen/codegen/expr.go                    |  96 ++++++++-----
 cmd/sqlgen/codegen/generate.go                | 127 ++++++++++--------
 cmd/sqlgen/codegen/interface.go               |   5 +-
 cmd/sqlgen/codegen/package.go                 |  31 ++++-
 cmd/sqlgen/codegen/tool.go                    |  99 ++++++++------
 sequel/encoding/pointer.go                    |  35 +++++
 sequel/encoding/rune.go                       |  85 ++++++++++++
 9 files changed, 343 insertions(+), 139 deletions(-)
 create mode 100644 sequel/encoding/rune.go

diff --git a/cmd/sqlgen/codegen/dialect/mysql/column_type.go b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
index b188fb9..c6e1aaa 100644
--- a/cmd/sqlgen/codegen/dialect/mysql/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/mysql/column_type.go
@@ -18,7 +18,7 @@ func (s *mysqlDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("CHAR(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("CHAR(1)"),
diff --git a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
index fa29e97..869be10 100644
--- a/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/sqlite/column_type.go
@@ -18,7 +18,7 @@ func (s *sqliteDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("TEXT"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("BLOB"),
diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e6468be..e0aaa75 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -10,7 +10,10 @@ import (
 )
 
 var (
-	pkgRegexp = regexp.MustCompile(`(?i)((?:[a-z][a-z0-9_.-]*/)*[a-z][a-z0-9_.-]*)\.[a-z]\w*`)
+	// Either a template action, a literal or an identifier qualified with its import path
+	tokenRegexp = regexp.MustCompile("(?i){{.*?}}|\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`|'(?:[^'\\\\]|\\\\.)+'|" +
+		`((?:[a-z][a-z0-9_.-]*/)*[a-z][a-z0-9_.-]*)\.[a-z]\w*`)
+	operandRegexp = regexp.MustCompile(`({{\s*(?:goPath|\.)\s*}})([.\[])`)
 )
 
 // Currently this template is support following expression:
@@ -48,51 +51,53 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	if len(params.GoPath) > 0 && params.GoPath[0] == '&' {
 		params.GoPath = params.GoPath[1:]
 	}
+	addr := "&" + params.GoPath
+	// The address of the dereferenced pointer is the pointer
+	if ptr, ok := strings.CutPrefix(params.GoPath, "*"); ok {
+		addr = ptr
+		if actualGoPath != params.GoPath {
+			actualGoPath = addr
+		}
+	}
 
 	funcMap := template.FuncMap{
 		"goPath": func() string {
 			return params.GoPath
 		},
 		"elemType": func() string {
-			switch t := params.Type.(type) {
+			t := baseType(params.Type)
+			switch vt := t.Underlying().(type) {
 			case *types.Array:
-				return importPkgIfNeeded(pkg, t.Elem().String())
+				t = vt.Elem()
 			case *types.Slice:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			case *types.Pointer:
-				return importPkgIfNeeded(pkg, t.Elem().String())
-			default:
-				return importPkgIfNeeded(pkg, params.Type.String())
+				t = vt.Elem()
 			}
+			return typeString(pkg, t)
 		},
 		"addrOfGoPath": func() string {
 			if params.IsPtr {
 				return params.GoPath
 			}
-			return "&" + params.GoPath
+			return addr
 		},
 		"baseType": func() string {
-			t := params.Type
-			for t != nil {
-				nt, ok := t.(*types.Pointer)
-				if !ok {
-					break
-				}
-				t = nt.Elem()
-			}
-			return importPkgIfNeeded(pkg, t.String())
+			return typeString(pkg, baseType(params.Type))
 		},
 		"addr": func() string {
-			return "&" + params.GoPath
+			return addr
 		},
 	}
-	if params.Len > 0 {
+	if params.Len >= 0 {
 		funcMap["len"] = func() int64 {
 			return params.Len
 		}
 	}
 
-	str := string(e)
+	str := importPkgIfNeeded(pkg, string(e))
+	if strings.HasPrefix(params.GoPath, "*") {
+		// The dereference binds weaker than a selector or an index
+		str = operandRegexp.ReplaceAllString(str, "(${1})${2}")
+	}
 	tmpl, err := template.New("expression").Funcs(funcMap).Parse(str)
 	if err != nil {
 		panic(err)
@@ -101,20 +106,47 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	if err := tmpl.Execute(buf, actualGoPath); err != nil {
 		panic(err)
 	}
-	str = buf.String()
-	str = importPkgIfNeeded(pkg, str)
-	return str
+	return buf.String()
+}
+
+// baseType returns the type the pointers refer to.
+func baseType(t types.Type) types.Type {
+	for {
+		ptr, ok := types.Unalias(t).(*types.Pointer)
+		if !ok {
+			return t
+		}
+		t = ptr.Elem()
+	}
+}
+
+// typeString returns the go expression of the type, and imports the packages it refers to.
+func typeString(pkg *Package, t types.Type) string {
+	return types.TypeString(t, pkg.Qualify)
 }
 
-func importPkgIfNeeded(pkg *Package, importPath string) string {
-	matches := pkgRegexp.FindStringSubmatch(importPath)
-	if len(matches) > 0 {
-		p, _ := pkg.Import(types.NewPackage(matches[1], filepath.Base(matches[1])))
-		if p != nil {
-			importPath = strings.Replace(importPath, matches[1], p.Name(), -1)
+// importPkgIfNeeded imports the packages which the go expression refers to by their import path,
+// template actions and literals are left as they are.
+func importPkgIfNeeded(pkg *Package, expr string) string {
+	var blr strings.Builder
+	for len(expr) > 0 {
+		m := tokenRegexp.FindStringSubmatchIndex(expr)
+		if m == nil {
+			break
+		}
+		start, end := m[0], m[1]
+		if path := m[2:4]; path[0] >= 0 && (start == 0 || expr[start-1] != '.') {
+			importPath := expr[path[0]:path[1]]
+			name := ""
+			if p, _ := pkg.Import(types.NewPackage(importPath, filepath.Base(importPath))); p != nil {
+				name = p.Name() + "."
+			}
+			blr.WriteString(expr[:start] + name)
+			end = path[1] + 1
 		} else {
-			importPath = strings.Replace(importPath, matches[1]+".", "", -1)
+			blr.WriteString(expr[:end])
 		}
+		expr = expr[end:]
 	}
-	return importPath
+	return blr.String() + expr
 }
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index e8b53f8..727b228 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -119,10 +119,18 @@ func (g *Generator) generateModels(
 	schema *compiler.Package,
 ) error {
 	importPkgs := NewPackage(schema.Pkg.PkgPath, schema.Pkg.Name)
+	// The imports must not be named after what the package declares, or what the generated code uses
+	importPkgs.reserved = func(name string) bool {
+		switch name {
+		case "v", "val", "ptr", "row", "noOfColumn":
+			return true
+		}
+		return types.Universe.Lookup(name) != nil || (schema.Pkg.Types != nil && schema.Pkg.Types.Scope().Lookup(name) != nil)
+	}
 	importPkgs.Import(types.NewPackage("strings", ""))
-	importPkgs.Import(types.NewPackage("strconv", ""))
+	strconvPkg, _ := importPkgs.Import(types.NewPackage("strconv", ""))
 	importPkgs.Import(types.NewPackage("database/sql/driver", ""))
-	importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
+	sequelPkg, _ := importPkgs.Import(types.NewPackage("github.com/si3nloong/sqlgen/sequel", ""))
 
 	bw := bytes.NewBufferString(``)
 	w := bufio.NewWriter(bw)
@@ -227,7 +235,7 @@ func (g *Generator) generateModels(
 					fprintfln(w, "}")
 				}
 
-				if err := g.buildInsertPlaceholders(w, t, insertColumns); err != nil {
+				if err := g.buildInsertPlaceholders(w, strconvPkg, t, insertColumns); err != nil {
 					return err
 				}
 
@@ -277,7 +285,7 @@ func (g *Generator) generateModels(
 
 		for _, f := range t.Columns {
 			var typeStr string
-			isBasic := g.isBasicType(f.Type)
+			isBasic := g.isBasicType(f.Type) && !g.hasValuer(f.Type)
 			switch vt := f.Type.(type) {
 			// First level struct data type
 			case *types.Struct:
@@ -287,26 +295,23 @@ func (g *Generator) generateModels(
 				fprintfln(w, "type %s = %s", aliasname, buf)
 				strpool.ReleaseString(buf)
 
-				fprintfln(w, "func (v %s) %s() sequel.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, aliasname)
-				// fprintfln(w, "return sequel.Column(%s, v%s, func(val %s) any {", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, aliasname)
+				fprintfln(w, "func (v %s) %s() %s.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), aliasname)
+				// fprintfln(w, "return %s.Column(%s, v%s, func(val %s) any {", sequelPkg.Name(), g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, aliasname)
 				typeStr = aliasname
 
 			default:
-				typeStr = f.Type.String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr = typeString(importPkgs, f.Type)
 				if isBasic {
-					fprintfln(w, "func (v %s) %s() sequel.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
+					fprintfln(w, "func (v %s) %s() %s.ColumnClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), typeStr)
 				} else {
-					fprintfln(w, "func (v %s) %s() sequel.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, typeStr)
+					fprintfln(w, "func (v %s) %s() %s.ColumnConvertClause[%s] {", t.GoName, g.config.Getter.Prefix+f.GoName, sequelPkg.Name(), typeStr)
 				}
 			}
 
 			if isBasic {
-				fprintfln(w, "return sequel.BasicColumn(%s, v%s)", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath)
+				fprintfln(w, "return %s.BasicColumn(%s, v%s)", sequelPkg.Name(), g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath)
 			} else {
-				fprintfln(w, "return sequel.Column(%s, v%s, func(val %s) any {", g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, typeStr)
+				fprintfln(w, "return %s.Column(%s, v%s, func(val %s) any {", sequelPkg.Name(), g.Quote(g.QuoteIdentifier(f.Name)), f.GoPath, typeStr)
 				// fprintfln(w, "if val != nil {")
 				// fprintfln(w, "return %s", g.valuer(importPkgs, "*val", assertAsPtr[types.Pointer](f.Type).Elem()))
 				if f.IsPtr() {
@@ -453,7 +458,7 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
 	for _, f := range table.GoPtrPaths() {
 		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, Expr(strings.TrimPrefix(f.Type.String(), "*")).Format(importPkgs, ExprParams{}))
+		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, typeString(importPkgs, baseType(f.Type)))
 		fprintfln(w, "}")
 	}
 	fprintfln(w, "return []any{")
@@ -484,7 +489,7 @@ func (g *Generator) buildTableName(buf *strings.Builder, t *compiler.Table) (que
 	return query
 }
 
-func (g *Generator) buildInsertPlaceholders(w io.Writer, t *compiler.Table, columns []*compiler.Column) error {
+func (g *Generator) buildInsertPlaceholders(w io.Writer, strconvPkg *types.Package, t *compiler.Table, columns []*compiler.Column) error {
 	fprintfln(w, "func (%s) InsertPlaceholders(row int) string {", t.GoName)
 	if g.staticVar {
 		fprintfln(w, `return "(%s)" // %d`, strings.Repeat(","+g.dialect.QuoteVar(0), len(columns))[1:], len(columns))
@@ -503,7 +508,7 @@ func (g *Generator) buildInsertPlaceholders(w io.Writer, t *compiler.Table, colu
 			}
 			for j, str := range strings.Split(valuer, pos) {
 				if j > 0 {
-					fmt.Fprintf(w, `+ strconv.Itoa((row * noOfColumn) + %d)+`, i+1)
+					fmt.Fprintf(w, `+ %s.Itoa((row * noOfColumn) + %d)+`, strconvPkg.Name(), i+1)
 				}
 				fmt.Fprint(w, g.Quote(str))
 			}
@@ -746,54 +751,76 @@ func (g *Generator) isBasicType(t types.Type) bool {
 	return false
 }
 
+// hasValuer reports whether a valuer is configured for the type.
+func (g *Generator) hasValuer(t types.Type) bool {
+	utype, _ := underlyingType(t)
+	columnType, ok := g.columnTypes[utype.String()]
+	return ok && columnType.Valuer != ""
+}
+
 func (g *Generator) valuer(importPkgs *Package, goPath string, t types.Type) string {
+	utype, isPtr := underlyingType(t)
+	params := ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)}
+	if columnType, ok := g.columnTypes[utype.String()]; ok && columnType.Valuer != "" {
+		return Expr(columnType.Valuer).Format(importPkgs, params)
+	}
 	// This is to prevent auto cast if the value is driver.Value
 	if g.isBasicType(t) {
 		return goPath
 	}
-	utype, isPtr := underlyingType(t)
-	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Valuer != "" {
-		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if _, wrong := types.MissingMethod(utype, goSqlValuer, true); wrong {
+	if implementsSqlValuer(utype) {
 		if isPtr {
-			return Expr("(database/sql/driver.Valuer)({{goPath}})").Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+			return Expr("(database/sql/driver.Valuer)({{goPath}})").Format(importPkgs, params)
 		}
 		return goPath
+	} else if !isPtr && implementsSqlValuer(types.NewPointer(utype)) {
+		return Expr("{{addr}}").Format(importPkgs, params)
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Valuer != "" {
-		return Expr(columnType.Valuer).Format(importPkgs, ExprParams{GoPath: goPath, IsPtr: isPtr, Type: t, Len: arraySize(t)})
-	} else if isImplemented(utype, textMarshaler) {
-		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{goPath}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return Expr(columnType.Valuer).Format(importPkgs, params)
+	} else if isTextType(utype) {
+		if !isPtr && !isImplemented(utype, textMarshaler) {
+			return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{addr}}")).Format(importPkgs, params)
+		}
+		return Expr(goutil.GenericFunc(encoding.TextValue[time.Time], "{{goPath}}")).Format(importPkgs, params)
 	}
-	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	return Expr(g.defaultColumnTypes["*"].Valuer).Format(importPkgs, params)
 }
 
 func (g *Generator) scanner(importPkgs *Package, goPath string, t types.Type) string {
+	utype, isPtr := underlyingType(t)
+	ptr, params := types.NewPointer(utype), ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)}
+	// The scanner which takes `{{.}}` expects the address of a value
+	if columnType, ok := g.columnTypes[utype.String()]; ok && columnType.Scanner != "" && !(isPtr && dotRegexp.MatchString(columnType.Scanner)) {
+		return g.scannerExpr(importPkgs, columnType.Scanner, params, isPtr)
+	}
 	// This is to prevent auto cast if the value is driver.Value
-	switch tv := t.(type) {
-	case *types.Basic:
-		switch tv.Kind() {
-		case types.String, types.Bool, types.Int64, types.Float64:
-			return goPath
-		}
-	case *types.Named:
-		if tv.String() == typeOfTime {
-			return goPath
-		}
+	if g.isBasicType(t) {
+		return goPath
 	}
-	ptr, isPtr := pointerType(t)
-	if columnType, ok := g.columnTypes[t.String()]; ok && columnType.Scanner != "" {
-		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
-	} else if isImplemented(ptr, goSqlScanner) {
+	if isImplemented(ptr, goSqlScanner) {
 		if isPtr {
-			return Expr(goutil.GenericFunc(encoding.PtrScanner[sql.NullString], "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+			return Expr(goutil.GenericFunc(encoding.PtrScanner[sql.NullString], "{{addr}}")).Format(importPkgs, params)
 		}
 		return goPath
 	} else if columnType, ok := g.columnDataType(t); ok && columnType.Scanner != "" {
-		return Expr(columnType.Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr, Len: arraySize(t)})
-	} else if isImplemented(ptr, textUnmarshaler) {
-		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{elemType}}", "{{addr}}")).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+		return g.scannerExpr(importPkgs, columnType.Scanner, params, isPtr && !addrRegexp.MatchString(columnType.Scanner))
+	} else if isTextType(utype) {
+		return Expr(goutil.GenericFuncName(encoding.TextScanner[time.Time, *time.Time, *time.Time], "{{baseType}}", "{{addr}}")).Format(importPkgs, params)
+	}
+	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, params)
+}
+
+// scannerExpr returns the scanner of the field, the scanners which only
+// take the address of a value scan pointers into an allocated value.
+func (g *Generator) scannerExpr(importPkgs *Package, expr string, params ExprParams, alloc bool) string {
+	if !alloc {
+		return Expr(expr).Format(importPkgs, params)
 	}
-	return Expr(g.defaultColumnTypes["*"].Scanner).Format(importPkgs, ExprParams{GoPath: goPath, Type: t, IsPtr: isPtr})
+	elem := params
+	elem.GoPath, elem.IsPtr, elem.Type = "&*ptr", false, baseType(params.Type)
+	scan := "func(ptr *" + typeString(importPkgs, elem.Type) + ") any { return " + Expr(expr).Format(importPkgs, elem) + " }"
+	name := strings.TrimSuffix(goutil.GenericFunc(encoding.PtrFuncScanner[any], "{{addr}}"), ")")
+	return Expr(name).Format(importPkgs, params) + ", " + scan + ")"
 }
 
 func (g *Generator) sqlScanner(column *compiler.Column) (string, error) {
@@ -845,10 +872,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprint(w, f.Name()+" ")
 				printStruct(w, importPkgs, ft)
 			} else {
-				typeStr := f.Type().String()
-				if idx := strings.Index(typeStr, "."); idx > 0 {
-					typeStr = Expr(typeStr).Format(importPkgs)
-				}
+				typeStr := typeString(importPkgs, f.Type())
 				fmt.Fprint(w, f.Name()+" "+typeStr)
 				if tag := s.Tag(i); len(tag) > 0 {
 					fmt.Fprintf(w, " `%s`", s.Tag(i))
@@ -856,10 +880,7 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 				fmt.Fprintln(w)
 			}
 		default:
-			typeStr := f.Type().String()
-			if idx := strings.Index(typeStr, "."); idx > 0 {
-				typeStr = Expr(typeStr).Format(importPkgs)
-			}
+			typeStr := typeString(importPkgs, f.Type())
 			if f.Embedded() {
 				fmt.Fprint(w, typeStr)
 			} else {
diff --git a/cmd/sqlgen/codegen/interface.go b/cmd/sqlgen/codegen/interface.go
index 7a66af4..eadb22c 100644
--- a/cmd/sqlgen/codegen/interface.go
+++ b/cmd/sqlgen/codegen/interface.go
@@ -21,7 +21,7 @@ var (
 	binaryMarshaler, binaryUnmarshaler,
 	textMarshaler, textUnmarshaler *types.Interface
 
-	typeOfTime string
+	typeOfTime, typeOfTimeStruct string
 
 	//go:embed sequel.go.tpl
 	sqlBytes []byte
@@ -47,7 +47,8 @@ func init() {
 			textMarshaler = p.Types.Scope().Lookup("TextMarshaler").Type().Underlying().(*types.Interface)
 			textUnmarshaler = p.Types.Scope().Lookup("TextUnmarshaler").Type().Underlying().(*types.Interface)
 		case "time":
-			typeOfTime = p.Types.Scope().Lookup("Time").Type().(*types.Named).String()
+			named := p.Types.Scope().Lookup("Time").Type().(*types.Named)
+			typeOfTime, typeOfTimeStruct = named.String(), named.Underlying().String()
 		}
 	}
 
diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index cf312f3..f150c06 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -13,6 +13,8 @@ type Package struct {
 	name    string
 	cache   map[string]*types.Package
 	imports []*types.Package
+	// Names which the imports cannot have
+	reserved func(name string) bool
 }
 
 func NewPackage(path, name string) *Package {
@@ -34,30 +36,47 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 		return p.imports[i], false
 	}
 
+	// If the import path is this package, skip to import
+	if pkg.Path() == p.PkgPath() {
+		return nil, false
+	}
+
 	pkgs, err := packages.Load(&packages.Config{
 		Mode: packages.NeedName,
 	}, pkg.Path())
 	if err != nil {
 		return pkg, false
+	} else if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
+		pkg.SetName(pkgs[0].Name)
 	}
+	return p.add(pkg), true
+}
 
-	// If the import path is this package, skip to import
+// Qualify returns the name which refers to the package, it imports the package if needed.
+func (p *Package) Qualify(pkg *types.Package) string {
 	if pkg.Path() == p.PkgPath() {
-		return nil, false
-	} else if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
-		pkg.SetName(pkgs[0].Name)
+		return ""
 	}
+	for _, item := range p.imports {
+		if item.Path() == pkg.Path() {
+			return item.Name()
+		}
+	}
+	return p.add(types.NewPackage(pkg.Path(), pkg.Name())).Name()
+}
+
+func (p *Package) add(pkg *types.Package) *types.Package {
 	alias := p.newAliasIfExists(pkg)
 	pkg.SetName(alias)
 	p.cache[alias] = pkg
 	p.imports = append(p.imports, pkg)
-	return pkg, true
+	return pkg
 }
 
 func (p *Package) newAliasIfExists(pkg *types.Package) string {
 	pkgName, newPkgName := pkg.Name(), pkg.Name()
 	for i := 1; ; i++ {
-		if _, ok := p.cache[newPkgName]; ok {
+		if _, ok := p.cache[newPkgName]; ok || (p.reserved != nil && p.reserved(newPkgName)) {
 			newPkgName = pkgName + strconv.Itoa(i)
 			continue
 		}
diff --git a/cmd/sqlgen/codegen/tool.go b/cmd/sqlgen/codegen/tool.go
index 3ac4fdc..5bbdf1e 100644
--- a/cmd/sqlgen/codegen/tool.go
+++ b/cmd/sqlgen/codegen/tool.go
@@ -4,22 +4,33 @@ import (
 	"fmt"
 	"go/types"
 	"regexp"
+	"time"
 
 	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen/dialect"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/goutil"
+	"github.com/si3nloong/sqlgen/sequel/encoding"
 )
 
 var (
-	arrayRegexp = regexp.MustCompile(`^\[(\d+)\](rune|string|byte)$`)
+	addrRegexp  = regexp.MustCompile(`{{\s*addr\s*}}`)
+	dotRegexp   = regexp.MustCompile(`{{\s*\.\s*}}`)
+	arrayRegexp = regexp.MustCompile(`^\[(\d+)\](rune|string|byte|bool)$`)
 )
 
 func (g *Generator) columnDataType(t types.Type) (*dialect.ColumnType, bool) {
-	var (
-		prev    = t
-		typeStr string
-	)
+	// Pointers are stored like the value they refer to
+	prev := baseType(t)
+	if isTimeDefinition(prev) {
+		return &dialect.ColumnType{
+			DataType: g.defaultColumnTypes["time.Time"].DataType,
+			Valuer:   "(time.Time)({{goPath}})",
+			Scanner:  goutil.GenericFunc(encoding.TimeScanner[*time.Time], "(*time.Time)({{addrOfGoPath}})"),
+		}, true
+	}
 
+	typeStr := ""
 loop:
-	for prev != nil {
+	for {
 		switch v := prev.(type) {
 		case *types.Basic:
 			typeStr += v.String()
@@ -33,47 +44,45 @@ loop:
 		case *types.Pointer:
 			typeStr += "*"
 			prev = v.Elem()
-			continue
 		case *types.Slice:
 			typeStr += "[]"
 			prev = v.Elem()
-			continue
 		case *types.Array:
 			typeStr += fmt.Sprintf("[%d]", v.Len())
 			prev = v.Elem()
-			continue
 		case *types.Alias:
 			prev = v.Rhs()
-			continue
 		default:
-			break loop
-		}
-		if v, ok := g.defaultColumnTypes[typeStr]; ok {
-			return v, true
+			return nil, false
 		}
-		if prev == t {
-			break loop
-		}
-		t = prev
 	}
 	if v, ok := g.defaultColumnTypes[typeStr]; ok {
 		return v, true
 	}
-	if len(typeStr) > 0 && typeStr[0] == '*' {
-		if v, ok := g.defaultColumnTypes[typeStr[1:]]; ok {
-			return v, true
-		}
-	}
 	// Find fixed size array mapper
 	if matches := arrayRegexp.FindStringSubmatch(typeStr); len(matches) > 0 {
 		if v, ok := g.defaultColumnTypes["[...]"+matches[2]]; ok {
-			// len, _ := strconv.Atoi(matches[1])
 			return v, true
 		}
 	}
 	return nil, false
 }
 
+// isTimeDefinition reports whether the type is defined as `type T time.Time` and doesn't have
+// its own text or JSON form.
+func isTimeDefinition(t types.Type) bool {
+	named, ok := types.Unalias(t).(*types.Named)
+	if !ok || named.String() == typeOfTime || named.Underlying().String() != typeOfTimeStruct {
+		return false
+	}
+	for _, method := range []string{"MarshalJSON", "MarshalText"} {
+		if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), false, nil, method); obj != nil {
+			return false
+		}
+	}
+	return true
+}
+
 func assertAsPtr[T any](v any) *T {
 	t, ok := v.(*T)
 	if ok {
@@ -83,15 +92,8 @@ func assertAsPtr[T any](v any) *T {
 }
 
 func arraySize(t types.Type) int64 {
-	for t != nil {
-		switch vt := t.(type) {
-		case *types.Pointer:
-			t = vt.Elem()
-		case *types.Array:
-			return vt.Len()
-		default:
-			return -1
-		}
+	if vt, ok := baseType(t).Underlying().(*types.Array); ok {
+		return vt.Len()
 	}
 	return -1
 }
@@ -101,21 +103,30 @@ func isImplemented(t types.Type, iv *types.Interface) bool {
 	return method == nil && !wrongType
 }
 
-func pointerType(t types.Type) (*types.Pointer, bool) {
-	v, ok := t.(*types.Pointer)
-	if ok {
-		return v, true
+// implementsSqlValuer reports whether the type has the method `Value() (driver.Value, error)`.
+func implementsSqlValuer(t types.Type) bool {
+	obj, _, _ := types.LookupFieldOrMethod(t, false, nil, "Value")
+	fn, ok := obj.(*types.Func)
+	if !ok {
+		return false
+	}
+	sig := fn.Signature()
+	if sig.Params().Len() != 0 || sig.Results().Len() != 2 {
+		return false
 	}
-	return types.NewPointer(t), false
+	return sig.Results().At(0).Type().String() == "database/sql/driver.Value" &&
+		types.Identical(sig.Results().At(1).Type(), types.Universe.Lookup("error").Type())
+}
+
+// isTextType reports whether the values of the type can be written and read as text.
+func isTextType(t types.Type) bool {
+	ptr := types.NewPointer(t)
+	return isImplemented(ptr, textMarshaler) && isImplemented(ptr, textUnmarshaler)
 }
 
 func underlyingType(t types.Type) (ut types.Type, isNull bool) {
-	v, ok := t.(*types.Pointer)
-	if ok {
-		t, _ = underlyingType(v.Elem())
-		return t, true
-	}
-	return t, false
+	_, isNull = types.Unalias(t).(*types.Pointer)
+	return types.Unalias(baseType(t)), isNull
 }
 
 func mustNoError[T any](_ T, err error) {
diff --git a/sequel/encoding/pointer.go b/sequel/encoding/pointer.go
index 279b5da..902106f 100644
--- a/sequel/encoding/pointer.go
+++ b/sequel/encoding/pointer.go
@@ -130,3 +130,38 @@ func (p *addrOfPtr[T, Ptr, Addr]) scan(dest Ptr, v any) error {
 		return fmt.Errorf(`sql/encoding: unsupported %T`, vt)
 	}
 }
+
+// PtrFuncScanner scans into a value allocated for the pointer, using the destination
+// the function returns for that value. The pointer is nil when the column is NULL.
+func PtrFuncScanner[T any](addr **T, dest func(*T) any) sql.Scanner {
+	return &ptrFuncScanner[T]{v: addr, dest: dest}
+}
+
+type ptrFuncScanner[T any] struct {
+	v    **T
+	dest func(*T) any
+}
+
+func (p *ptrFuncScanner[T]) Scan(v any) error {
+	if v == nil {
+		*p.v = nil
+		return nil
+	}
+	ptr := new(T)
+	switch dest := p.dest(ptr).(type) {
+	case sql.Scanner:
+		if err := dest.Scan(v); err != nil {
+			return err
+		}
+	case *T:
+		var null sql.Null[T]
+		if err := null.Scan(v); err != nil {
+			return err
+		}
+		*dest = null.V
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan destination %T`, dest)
+	}
+	*p.v = ptr
+	return nil
+}
diff --git a/sequel/encoding/rune.go b/sequel/encoding/rune.go
new file mode 100644
index 0000000..11bf475
--- /dev/null
+++ b/sequel/encoding/rune.go
@@ -0,0 +1,85 @@
+package encoding
+
+import (
+	"database/sql"
+	"fmt"
+	"unicode/utf8"
+)
+
+// RuneScanner scans a text of a single character, an empty text and NULL are the zero rune.
+func RuneScanner[T ~rune, Ptr addrOrPtr[T]](addr Ptr) sql.Scanner {
+	return &runeScanner[T, Ptr]{addr: addr}
+}
+
+type runeScanner[T ~rune, Ptr addrOrPtr[T]] struct {
+	addr Ptr
+}
+
+func (r *runeScanner[T, Ptr]) Scan(v any) error {
+	var text string
+	switch vi := v.(type) {
+	case nil:
+		switch addr := any(r.addr).(type) {
+		case **T:
+			*addr = nil
+		case *T:
+			*addr = 0
+		}
+		return nil
+	case string:
+		text = vi
+	case []byte:
+		text = string(vi)
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for ~rune`, vi)
+	}
+
+	var val T
+	if text != "" {
+		char, size := utf8.DecodeRuneInString(text)
+		if size != len(text) || (char == utf8.RuneError && size == 1) {
+			return fmt.Errorf(`sequel/encoding: unable to scan %q as a single character`, text)
+		}
+		val = T(char)
+	}
+	switch addr := any(r.addr).(type) {
+	case **T:
+		*addr = &val
+	case *T:
+		*addr = val
+	}
+	return nil
+}
+
+// RunesScanner scans the characters of a text.
+func RunesScanner[T ~rune, S ~[]T](addr *S) sql.Scanner {
+	return &runesScanner[T, S]{addr: addr}
+}
+
+type runesScanner[T ~rune, S ~[]T] struct {
+	addr *S
+}
+
+func (r *runesScanner[T, S]) Scan(v any) error {
+	var text string
+	switch vi := v.(type) {
+	case nil:
+		*r.addr = nil
+		return nil
+	case string:
+		text = vi
+	case []byte:
+		text = string(vi)
+	default:
+		return fmt.Errorf(`sequel/encoding: unsupported scan type %T for []~rune`, vi)
+	}
+	if !utf8.ValidString(text) {
+		return fmt.Errorf(`sequel/encoding: unable to scan %q as characters`, text)
+	}
+	runes := make(S, 0, utf8.RuneCountInString(text))
+	for _, char := range text {
+		runes = append(runes, T(char))
+	}
+	*r.addr = runes
+	return nil
+}
-- 
2.43.0


From 3af556925643852a4ae785d80fe78bc0276ad375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 34/45] fix: scan PostgreSQL fixed arrays, rune lists and bytea
 arrays

---
 .../codegen/dialect/postgres/column_type.go   | 16 +++++------
 sequel/driver/postgres/pgtype/array.go        | 28 +++++++++++++++++++
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/cmd/sqlgen/codegen/dialect/postgres/column_type.go b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
index 49ab708..fafdab2 100644
--- a/cmd/sqlgen/codegen/dialect/postgres/column_type.go
+++ b/cmd/sqlgen/codegen/dialect/postgres/column_type.go
@@ -19,7 +19,7 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"rune": {
 			DataType: s.columnDataType("char(1)"),
 			Valuer:   "(string)({{goPath}})",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.RuneScanner[rune, *rune], "{{baseType}}", "{{addr}}"),
 		},
 		"byte": {
 			DataType: s.columnDataType("char(1)"),
@@ -134,12 +134,12 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		"[...]string": {
 			DataType: s.columnDataType("text[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.StringArray[{{elemType}}]({{goPath}}[:])",
+			Scanner:  goutil.GenericFuncName(pgtype.FixedArrayScanner[string, pgtype.StringArray[string], *pgtype.StringArray[string]], "{{elemType}}, "+goutil.GetTypeName(pgtype.StringArray[string]{})+"[{{elemType}}]", "{{goPath}}[:]"),
 		},
 		"[...]bool": {
 			DataType: s.columnDataType("bool[{{len}}]"),
 			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}]({{goPath}}[:])",
-			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.BoolArray[{{elemType}}])({{addrOfGoPath}}[:])",
+			Scanner:  goutil.GenericFuncName(pgtype.FixedArrayScanner[bool, pgtype.BoolArray[bool], *pgtype.BoolArray[bool]], "{{elemType}}, "+goutil.GetTypeName(pgtype.BoolArray[bool]{})+"[{{elemType}}]", "{{goPath}}[:]"),
 		},
 		"[]string": {
 			DataType: s.columnDataType("text[]"),
@@ -148,13 +148,13 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[]rune": {
 			DataType: s.columnDataType("text"),
-			Valuer:   "string({{goPath}}[:])",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/types.FixedSizeRunes({{goPath}})",
+			Valuer:   "string({{goPath}})",
+			Scanner:  goutil.GenericFuncName(encoding.RunesScanner[rune, []rune], "{{elemType}}, {{baseType}}", "{{addrOfGoPath}}"),
 		},
 		"[]byte": {
 			DataType: s.columnDataType("blob"),
 			Valuer:   "{{goPath}}",
-			Scanner:  "{{addrOfGoPath}}",
+			Scanner:  goutil.GenericFuncName(encoding.StringScanner[[]byte, *[]byte], "{{baseType}}", "{{addr}}"),
 		},
 		"[]bool": {
 			DataType: s.columnDataType("bool[]"),
@@ -163,8 +163,8 @@ func (s *postgresDriver) ColumnDataTypes() map[string]*dialect.ColumnType {
 		},
 		"[][]byte": {
 			DataType: s.columnDataType("bytea"),
-			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
-			Scanner:  "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteArray({{goPath}})",
+			Valuer:   "github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}]({{goPath}})",
+			Scanner:  "(*github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype.ByteaArray[{{elemType}}])({{addrOfGoPath}})",
 		},
 		"[]int": {
 			DataType: s.columnDataType("int4[]"),
diff --git a/sequel/driver/postgres/pgtype/array.go b/sequel/driver/postgres/pgtype/array.go
index 23dbcd2..b1e151d 100644
--- a/sequel/driver/postgres/pgtype/array.go
+++ b/sequel/driver/postgres/pgtype/array.go
@@ -2,6 +2,7 @@ package pgtype
 
 import (
 	"bytes"
+	"database/sql"
 	"database/sql/driver"
 	"fmt"
 	"strconv"
@@ -211,3 +212,30 @@ func appendArrayQuotedBytes(b, v []byte) []byte {
 // func appendValue(b []byte, v driver.Value) ([]byte, error) {
 // 	return append(b, encode(nil, v, 0)...), nil
 // }
+
+// FixedArrayScanner scans an array into dest, the remaining elements of dest are cleared.
+func FixedArrayScanner[T any, S ~[]T, Ptr interface {
+	*S
+	sql.Scanner
+}](dest []T) sql.Scanner {
+	return &fixedArrayScanner[T, S, Ptr]{dest: dest}
+}
+
+type fixedArrayScanner[T any, S ~[]T, Ptr interface {
+	*S
+	sql.Scanner
+}] struct {
+	dest []T
+}
+
+func (a *fixedArrayScanner[T, S, Ptr]) Scan(src any) error {
+	var elems S
+	if err := Ptr(&elems).Scan(src); err != nil {
+		return err
+	}
+	if len(elems) > len(a.dest) {
+		return fmt.Errorf("pgtype: array of %d elements does not fit in [%d]%T", len(elems), len(a.dest), *new(T))
+	}
+	clear(a.dest[copy(a.dest, elems):])
+	return nil
+}
-- 
2.43.0


From 082fe70db5eff2ff02489fdfa93cb530a931a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:01 +0000
Subject: [PATCH 35/45] fix: map the fields of embedded structs the way Go
 promotes them

---
 cmd/sqlgen/internal/compiler/compiler.go |  21 +-
 cmd/sqlgen/internal/compiler/parser.go   | 365 +++++++++--------------
 cmd/sqlgen/internal/compiler/tag.go      |   2 +-
 3 files changed, 149 insertions(+), 239 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 629a7b8..77987f0 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -115,6 +115,9 @@ func (c *Column) GoPtrPaths() []*FieldPath {
 	paths := make([]*FieldPath, 0, len(fieldPaths))
 	var goPath string
 	for _, f := range fieldPaths {
+		if f.hidden {
+			continue
+		}
 		goPath += "." + f.name
 		if f.IsPtr() {
 			paths = append(paths, &FieldPath{
@@ -163,16 +166,16 @@ func (c *Column) Size() uint8 {
 type structCache struct {
 	name *ast.Ident
 	doc  *ast.CommentGroup
-	t    *ast.StructType
-	pkg  *packages.Package
+	t    *types.Struct
 }
 
 type structField struct {
 	name string
 	t    types.Type
 
-	index    []int
 	exported bool
+	// Whether the field cannot be accessed from the package of the model
+	hidden   bool
 	embedded bool
 	parent   *structField
 	tag      reflect.StructTag
@@ -190,6 +193,10 @@ func (s *structField) FullGoPath() string {
 	defer strpool.ReleaseString(blr)
 	paths := s.fieldPaths()
 	for i := 0; i < len(paths); i++ {
+		// The fields of it are promoted
+		if paths[i].hidden {
+			continue
+		}
 		blr.WriteString("." + paths[i].name)
 	}
 	return blr.String()
@@ -231,14 +238,6 @@ func (s *structField) fieldPaths() []*structField {
 	return s.paths
 }
 
-type typeQueue struct {
-	idx  []int
-	prev *structField
-	doc  *ast.CommentGroup
-	t    *ast.StructType
-	pkg  *packages.Package
-}
-
 func reverse[S ~[]E, E any](s S) {
 	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
 		s[i], s[j] = s[j], s[i]
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1ff95d0..cdb0e39 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -5,7 +5,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
-	"log"
+	"math"
 	"reflect"
 	"regexp"
 	"sort"
@@ -43,6 +43,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	}
 
 	pkg := pkgs[0]
+	for _, err := range pkg.Errors {
+		// The rest are the errors caused by the code which is not generated yet
+		if err.Kind == packages.ParseError {
+			return nil, fmt.Errorf(`sqlgen: unable to parse the package in directory %q: %w`, dir, err)
+		}
+	}
 	structCaches := make([]structCache, 0)
 
 	// Loop thru every go files
@@ -88,8 +94,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				}
 
 				objType := pkg.TypesInfo.ObjectOf(typeSpec.Name)
-				// We're not interested in the unexported type
-				if !objType.Exported() {
+				// We're not interested in the unexported type, nor in the type declared inside a function
+				if !objType.Exported() || objType.Parent() != pkg.Types.Scope() {
 					continue
 				}
 				// There are 2 types we're interested in
@@ -100,40 +106,18 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				// ```go
 				// type A = time.Time
 				// ```
-				switch t := typeSpec.Type.(type) {
-				case *ast.StructType:
-					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: t, pkg: pkg})
-
-				case *ast.SelectorExpr:
-					var (
-						pkgPath   = pkg.TypesInfo.ObjectOf(t.Sel).Pkg()
-						importPkg = pkg.Imports[pkgPath.Path()]
-						obj       *ast.Object
-					)
-
-					for i := range importPkg.Syntax {
-						obj = importPkg.Syntax[i].Scope.Lookup(t.Sel.Name)
-						if obj != nil {
-							break
-						}
-					}
-
-					// Skip if unable to find the specific object
-					if obj == nil {
+				switch typeSpec.Type.(type) {
+				case *ast.StructType, *ast.SelectorExpr:
+					st, ok := objType.Type().Underlying().(*types.Struct)
+					// Skip generic type, it's not a model until it's instantiated
+					if !ok || typeSpec.TypeParams != nil {
 						continue
 					}
-
-					decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-					if decl == nil {
-						continue
-					}
-
-					if v := assertAsPtr[ast.StructType](decl.Type); v != nil {
-						structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: genDecl.Doc, t: v, pkg: importPkg})
+					doc := typeSpec.Doc
+					if doc == nil {
+						doc = genDecl.Doc
 					}
-
-				default:
-					return true
+					structCaches = append(structCaches, structCache{name: typeSpec.Name, doc: doc, t: st})
 				}
 			}
 			return true
@@ -160,190 +144,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	for len(structCaches) > 0 {
 		// Pop the first item for further inspection
 		s := structCaches[0]
-		// Struct queue, this is useful when handling embedded struct
-		q := []typeQueue{{t: s.t, doc: s.doc, pkg: s.pkg}}
-		structFields := make([]*structField, 0)
-
-		var f typeQueue
-		// Resolve every field on the struct, including nested struct
-		for len(q) > 0 {
-			f = q[0]
-
-			// If the struct has empty field, just skip
-			if len(f.t.Fields.List) == 0 {
-				goto nextQueue
-			}
-
-			// Loop every struct field
-			for i := range f.t.Fields.List {
-				var tag reflect.StructTag
-				fi := f.t.Fields.List[i]
-				if fi.Tag != nil {
-					// Trim backtick
-					tag = reflect.StructTag(strings.TrimFunc(fi.Tag.Value, func(r rune) bool {
-						return r == '`'
-					}))
-				}
-
-				// If the field is embedded struct
-				// `Type` can be either *ast.Ident or *ast.SelectorExpr
-				if fi.Names == nil {
-					t := fi.Type
-
-					// If it's an embedded struct with pointer
-					// we need to get the underlying type
-					if ut := assertAsPtr[ast.StarExpr](fi.Type); ut != nil {
-						t = ut.X
-					}
-
-					switch vi := t.(type) {
-					// Local struct
-					case *ast.Ident:
-						// Object is nil when it's not found in current scope (different file)
-						obj := vi.Obj
-						if vi.Obj == nil {
-							// Since it's a local struct, we will find it in the local module files
-							for i := range f.pkg.Syntax {
-								obj = f.pkg.Syntax[i].Scope.Lookup(vi.Name)
-								// exit when found the struct
-								if obj != nil {
-									break
-								}
-							}
-						}
-						// After lookup still cannot find the type, then skip
-						if obj == nil {
-							continue
-						}
-
-						t := obj.Decl.(*ast.TypeSpec)
-						switch t.Type.(type) {
-						case *ast.StructType:
-							ft := &structField{
-								name:  types.ExprString(vi),
-								t:     f.pkg.TypesInfo.TypeOf(fi.Type),
-								index: append(f.idx, i),
-								// paths:    append(f.paths, path),
-								exported: vi.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-							structFields = append(structFields, ft)
-
-							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
-								prev: ft,
-								t:    t.Type.(*ast.StructType),
-								pkg:  f.pkg,
-							})
-							continue
-						case *ast.ArrayType:
-							continue
-						}
-
-					// Embedded with imported struct
-					case *ast.SelectorExpr:
-						var (
-							t         = f.pkg.TypesInfo.TypeOf(vi)
-							pkgPath   = t.String()
-							idx       = strings.LastIndex(pkgPath, ".")
-							importPkg = f.pkg.Imports[pkgPath[:idx]]
-							obj       *ast.Object
-						)
-
-						for i := range importPkg.Syntax {
-							obj = importPkg.Syntax[i].Scope.Lookup(vi.Sel.Name)
-							if obj != nil {
-								break
-							}
-						}
-
-						// Skip if unable to find the specific object
-						if obj == nil {
-							continue
-						}
-
-						decl := assertAsPtr[ast.TypeSpec](obj.Decl)
-						if decl == nil {
-							continue
-						}
-
-						// If it's a embedded struct, we continue on next loop
-						if st := assertAsPtr[ast.StructType](decl.Type); st != nil {
-							ft := &structField{
-								name:     types.ExprString(vi.Sel),
-								t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-								index:    append(f.idx, i),
-								exported: vi.Sel.IsExported(),
-								embedded: true,
-								parent:   f.prev,
-								tag:      tag,
-							}
-
-							q = append(q, typeQueue{
-								idx:  append(f.idx, i),
-								t:    st,
-								prev: ft,
-								pkg:  importPkg,
-							})
-							structFields = append(structFields, ft)
-						}
-						continue
-					}
-				}
-
-				// Every struct field
-				switch fv := fi.Type.(type) {
-				// Imported types
-				case *ast.SelectorExpr:
-					// If the field type is a Go imported enum,
-					// we will inspect it
-					importPkg, ok := f.pkg.Imports[types.ExprString(fv.X)]
-					if ok {
-						log.Println(importPkg)
-						// 	for _, file := range importPkg.Syntax {
-						// 		ast.Inspect(file, func(n ast.Node) bool {
-						// 			mapEnumIfExists(importPkg, n, enumMap)
-						// 			return true
-						// 		})
-						// 	}
-					}
-
-				// Local types
-				case *ast.Ident:
-					if fv.Obj != nil {
-
-					}
-				}
-
-				for j, n := range fi.Names {
-					structFields = append(structFields, &structField{
-						name:     types.ExprString(n),
-						t:        f.pkg.TypesInfo.TypeOf(fi.Type),
-						index:    append(f.idx, i+j),
-						exported: n.IsExported(),
-						parent:   f.prev,
-						tag:      tag,
-					})
-				}
-			}
-
-		nextQueue:
-			q = q[1:]
-		}
-
-		sort.Slice(structFields, func(i, j int) bool {
-			for k, f := range structFields[i].index {
-				if k >= len(structFields[j].index) {
-					return false
-				}
-				if f != structFields[j].index[k] {
-					return f < structFields[j].index[k]
-				}
-			}
-			return len(structFields[i].index) < len(structFields[j].index)
-		})
+		structFields := flattenFields(pkg.Types, s.t, nil)
 
 		table := &Table{
 			GoName: types.ExprString(s.name),
@@ -353,15 +154,18 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		// To store struct fields, to prevent field name collision
 		nameMap := make(map[string]struct{})
+		goNameMap := make(map[string]struct{})
+		ignored := make(map[*structField]bool)
+		tableNameDepth := math.MaxInt
 		pos := 0
 
 		if s.doc != nil {
-			comment := f.doc.Text()
+			comment := s.doc.Text()
 			if annotationRegexp.MatchString(comment) {
 				annotations := annotationRegexp.FindStringSubmatch(comment)
 				flags := strings.Split(annotations[1], ",")
 				for len(flags) > 0 {
-					switch flags[0] {
+					switch strings.TrimSpace(flags[0]) {
 					case "readonly":
 						table.Readonly = true
 					case "ignore":
@@ -374,37 +178,42 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		}
 
 		for _, f := range structFields {
-			if ptrCount(f.t) > 1 {
-				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			// The fields of an ignored embedded struct are ignored as well
+			if f.parent != nil && ignored[f.parent] {
+				ignored[f] = true
+				continue
 			}
 
 			var tagPaths []string
 			tagVal := f.tag.Get(cfg.Tag)
 			name := cfg.RenameFunc(f.name)
+			tagName := ""
 			if tagVal != "" {
 				tagPaths = strings.Split(tagVal, ",")
 				if len(tagPaths) > 0 {
 					n := strings.TrimSpace(tagPaths[0])
 					tagPaths = tagPaths[1:]
 					if n == "-" {
+						ignored[f] = true
 						continue
 					} else if n != "" {
 						if !nameRegex.MatchString(n) {
 							return nil, fmt.Errorf(`sqlgen: invalid column name %q in struct %q`, n, s.name)
 						}
-						name = n
+						name, tagName = n, n
 					}
 				}
 			}
 
-			switch f.t.String() {
+			switch types.Unalias(f.t).String() {
 			// If the type is table name, then we replace table name
 			// and continue on next property
 			//
 			// Check type is sequel.Name, then override name
 			case tableTypeName:
-				if name != "" {
-					table.Name = name
+				// The struct itself takes precedence over the embedded structs
+				if depth := len(f.fieldPaths()); tagName != "" && depth < tableNameDepth {
+					table.Name, tableNameDepth = tagName, depth
 				}
 				continue
 			}
@@ -417,6 +226,18 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				continue
 			}
 
+			if ptrCount(f.t) > 1 {
+				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
+			}
+			if hasInvalidType(f.t) {
+				return nil, fmt.Errorf(`sqlgen: unknown type of field %q in struct %q in directory %q`, f.name, s.name, dir)
+			}
+
+			if _, ok := goNameMap[f.name]; ok {
+				return nil, fmt.Errorf("sqlgen: struct %q has duplicate field %q in directory %q", s.name, f.name, dir)
+			}
+			goNameMap[f.name] = struct{}{}
+
 			if _, ok := nameMap[name]; ok {
 				return nil, fmt.Errorf("sqlgen: struct %q has duplicate column name %q in directory %q", s.name, name, dir)
 			}
@@ -437,6 +258,9 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					if table.autoIncrKey != nil {
 						return nil, fmt.Errorf(`sqlgen: you cannot have multiple auto increment key`)
 					}
+					if b, ok := f.t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
+						return nil, fmt.Errorf(`sqlgen: auto increment key %q in struct %q is not an integer`, f.name, s.name)
+					}
 					table.autoIncrKey = column
 				} else {
 					table.Keys = append(table.Keys, column)
@@ -462,12 +286,99 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	return goPkg, nil
 }
 
+// flattenFields returns the fields of the struct in the order of declaration, an embedded struct
+// is followed by the fields it promotes.
+func flattenFields(pkg *types.Package, st *types.Struct, parent *structField) []*structField {
+	fields := make([]*structField, 0, st.NumFields())
+	for i := range st.NumFields() {
+		v := st.Field(i)
+		f := &structField{
+			name:     v.Name(),
+			t:        v.Type(),
+			exported: v.Exported(),
+			embedded: v.Embedded(),
+			parent:   parent,
+			tag:      reflect.StructTag(st.Tag(i)),
+			hidden:   !v.Exported() && v.Pkg() != pkg,
+		}
+		// The pointer is what matters, not the alias of it
+		if ptr, ok := types.Unalias(f.t).(*types.Pointer); ok {
+			f.t = ptr
+		}
+		fields = append(fields, f)
+		if !f.embedded {
+			continue
+		}
+
+		elem := f.t
+		if ptr, ok := elem.(*types.Pointer); ok {
+			// The pointer can never be allocated
+			if f.hidden {
+				continue
+			}
+			elem = ptr.Elem()
+		}
+		embedded, ok := elem.Underlying().(*types.Struct)
+		if !ok || isRecursive(parent, elem) {
+			continue
+		}
+		fields = append(fields, flattenFields(pkg, embedded, f)...)
+	}
+	return fields
+}
+
+// isRecursive reports whether the type is embedded, directly or not, by itself.
+func isRecursive(parent *structField, t types.Type) bool {
+	for ; parent != nil; parent = parent.parent {
+		elem := parent.t
+		if ptr, ok := elem.(*types.Pointer); ok {
+			elem = ptr.Elem()
+		}
+		if types.Identical(elem, t) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasInvalidType reports whether the type, or any type it's composed of, is unknown.
+func hasInvalidType(t types.Type) bool {
+	switch vt := types.Unalias(t).(type) {
+	case *types.Basic:
+		return vt.Kind() == types.Invalid
+	case *types.Pointer:
+		return hasInvalidType(vt.Elem())
+	case *types.Slice:
+		return hasInvalidType(vt.Elem())
+	case *types.Array:
+		return hasInvalidType(vt.Elem())
+	case *types.Map:
+		return hasInvalidType(vt.Key()) || hasInvalidType(vt.Elem())
+	case *types.Struct:
+		for i := range vt.NumFields() {
+			if hasInvalidType(vt.Field(i).Type()) {
+				return true
+			}
+		}
+	case *types.Named:
+		for i := range vt.TypeArgs().Len() {
+			if hasInvalidType(vt.TypeArgs().At(i)) {
+				return true
+			}
+		}
+		// The definition itself might be unknown
+		b, ok := vt.Underlying().(*types.Basic)
+		return ok && b.Kind() == types.Invalid
+	}
+	return false
+}
+
 // This is to count the underlying pointer of a type
 func ptrCount(t types.Type) int {
 	var total int
 loop:
 	for t != nil {
-		if v, ok := t.(*types.Pointer); ok {
+		if v, ok := types.Unalias(t).(*types.Pointer); ok {
 			total++
 			t = v.Elem()
 		} else {
diff --git a/cmd/sqlgen/internal/compiler/tag.go b/cmd/sqlgen/internal/compiler/tag.go
index af3bfa8..fb41242 100644
--- a/cmd/sqlgen/internal/compiler/tag.go
+++ b/cmd/sqlgen/internal/compiler/tag.go
@@ -37,7 +37,7 @@ func parseTag(tagVal []string) *structTag {
 			continue
 		}
 		paths := strings.SplitN(v, ":", 2)
-		tag.pos[paths[0]] = 0
+		tag.pos[strings.ToLower(strings.TrimSpace(paths[0]))] = 0
 	}
 	return &tag
 }
-- 
2.43.0


From 16f80b1879a6b6a01796b5fad407894ec3e33379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 36/45] fix: write generated files only once everything is
 generated, select sources by anchored patterns

---
 cmd/sqlgen/codegen/codegen.go            | 283 ++++++++++-------------
 cmd/sqlgen/codegen/generate.go           |  17 +-
 cmd/sqlgen/codegen/init.go               |   9 +-
 cmd/sqlgen/codegen/output.go             | 106 +++++++++
 cmd/sqlgen/codegen/path_matcher.go       |  18 +-
 cmd/sqlgen/internal/compiler/compiler.go |   3 +
 cmd/sqlgen/internal/compiler/parser.go   |  34 ++-
 7 files changed, 278 insertions(+), 192 deletions(-)
 create mode 100644 cmd/sqlgen/codegen/output.go

diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index 7ca3d3a..c6a96b7 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -8,11 +8,9 @@ import (
 	"log/slog"
 	"os"
 	"os/exec"
-	"path"
 	"path/filepath"
 	"regexp"
 	"strings"
-	"syscall"
 
 	"github.com/Masterminds/semver/v3"
 
@@ -27,13 +25,6 @@ var (
 	//go:embed templates/*.go.tpl
 	codegenTemplates embed.FS
 
-	// https://pkg.go.dev/cmd/go#hdr-Generate_Go_files_by_processing_source
-	path2Regex = strings.NewReplacer(
-		`.`, `\.`,
-		`*`, `.*`,
-		`\`, `[\\/]`,
-		`/`, `[\\/]`,
-	)
 	nameRegex = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	go121     = lo.Must1(semver.NewConstraint(">= 1.2.1"))
 	// goTagRegexp   = regexp.MustCompile(`(?i)^([a-z][a-z_]*[a-z])(\:(\w+))?$`)
@@ -61,104 +52,29 @@ func Generate(c *Config) error {
 		return err
 	}
 
-	var (
-		srcDir  string
-		sources = make([]string, 0, len(cfg.Source))
-	)
-	sources = append(sources, cfg.Source...)
-
-	// Resolve every source provided
-	for len(sources) > 0 {
-		srcDir = strings.TrimSpace(sources[0])
-		if srcDir == "" {
-			return fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
-		}
-
-		if srcDir == "." {
-			srcDir = fileutil.Getpwd()
-			// If the prefix is ".", mean it's refer to current directory
-		} else if srcDir[0] == '.' {
-			srcDir = fileutil.Getpwd() + srcDir[1:]
-		} else if srcDir[0] != '/' {
-			srcDir = filepath.Join(fileutil.Getpwd(), srcDir)
-		}
-
-		// If suffix is *, we will add go extension to it
-		if srcDir[len(srcDir)-1] == '*' {
-			srcDir = srcDir + ".go"
+	// A directory might be selected by more than one source
+	dirs, matchers := make([]string, 0), make(map[string]anyMatcher)
+	for _, src := range cfg.Source {
+		srcDirs, matcher, err := resolveSource(src)
+		if err != nil {
+			return err
 		}
-
-		slog.Info("Processing", "dir", srcDir)
-
-		// File: examples/testdata/test.go
-		// Folder: examples/testdata
-		// Wildcard: [examples/**, examples/testdata/**/*.go,  examples/testdata/**/*]
-		// File wildcard: [examples/testdata/*model.go, examples/testdata/*_model.go]
-		var (
-			rootDir    string
-			r                  = regexp.MustCompile(`(?i)((?:\/)([a-z][a-z0-9-_.]+\/)*)\w*\*\w*(?:\.go)`)
-			subMatches         = r.FindStringSubmatch(srcDir)
-			matcher    Matcher = new(EmptyMatcher)
-			dirs               = make([]string, 0)
-		)
-
-		if strings.Contains(srcDir, "**") {
-			paths := strings.SplitN(srcDir, "**", 2)
-			rootDir = strings.TrimSuffix(strings.TrimSpace(paths[0]), "/")
-			suffix := `(?:[\\/]\w+\.\w+)`
-			if paths[1] != "" {
-				suffix = path2Regex.Replace(paths[1])
+		for _, dir := range srcDirs {
+			if _, ok := matchers[dir]; !ok {
+				dirs = append(dirs, dir)
 			}
-			if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
-				// If the directory is not exists, the "d" will be nil
-				if d == nil || !d.IsDir() {
-					// If it's not a folder, we skip!
-					return nil
-				}
-				dirs = append(dirs, strings.TrimPrefix(path, rootDir))
-				return nil
-			}); err != nil {
-				return fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, paths[0], err)
-			}
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(rootDir) + `([\\/][a-z0-9_-]+)*` + suffix)}
-		} else if len(subMatches) > 0 {
-			rootDir = strings.TrimSuffix(subMatches[1], "/")
-			dirs = append(dirs, "")
-			slog.Info("Submatch", "rootDir", rootDir, "dir", path2Regex.Replace(srcDir))
-			matcher = &RegexMatcher{regexp.MustCompile(path2Regex.Replace(srcDir))}
-		} else {
-			fi, err := os.Stat(srcDir)
-			// If the file or folder not exists, we skip!
-			if os.IsNotExist(err) {
-				goto nextSrc
-			} else if err != nil {
-				return err
-			}
-
-			if fi.IsDir() {
-				// If it's just a folder
-				matcher = FolderMatcher(srcDir)
-			} else {
-				// If it's just a file
-				srcDir = filepath.Dir(srcDir)
-				matcher = FileMatcher{filepath.Join(srcDir, fi.Name()): struct{}{}}
-			}
-
-			rootDir = srcDir
-			dirs = append(dirs, "")
+			matchers[dir] = append(matchers[dir], matcher)
 		}
+	}
 
-		if err := parseGoPackage(generator, rootDir, dirs, matcher); err != nil {
+	for _, dir := range dirs {
+		if err := parseGoPackage(generator, dir, matchers[dir]); err != nil {
 			return err
 		}
-
-	nextSrc:
-		sources = sources[1:]
 	}
 
 	if cfg.Database != nil {
 		// Generate db code
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Filename))
 		if err := renderTemplate(
 			generator,
 			"db.go.tpl",
@@ -172,7 +88,6 @@ func Generate(c *Config) error {
 	}
 
 	if cfg.Database.Operator != nil {
-		_ = syscall.Unlink(filepath.Join(cfg.Database.Dir, cfg.Database.Operator.Filename))
 		if err := renderTemplate(
 			generator,
 			"operator.go.tpl",
@@ -185,86 +100,134 @@ func Generate(c *Config) error {
 		}
 	}
 
+	// Nothing is written until everything is generated
+	if err := generator.writeFiles(); err != nil {
+		return err
+	}
+
 	if cfg.SkipModTidy {
 		return nil
 	}
 	return goModTidy()
 }
 
-func parseGoPackage(
-	g *Generator,
-	rootDir string,
-	dirs []string,
-	matcher Matcher,
-) error {
-	var dir string
-	var filename string
-	rename := g.config.RenameFunc()
-
-	for len(dirs) > 0 {
-		dir = path.Join(rootDir, dirs[0])
-
-		// Sometimes user might place db destination in the source as well
-		// In this situation, we're not process the folder, we will skip it
-		// if the file is exists in db folder
-		pwd := fileutil.Getpwd()
-		if idx := lo.IndexOf([]string{
-			path.Join(pwd, g.config.Database.Dir),
-			path.Join(pwd, g.config.Database.Operator.Dir),
-		}, dir); idx >= 0 {
-			dirs = dirs[1:]
-			continue
-		}
+// resolveSource returns the directories which might have the files selected by the source.
+//
+//   - File: examples/testdata/test.go
+//   - Folder: examples/testdata
+//   - Wildcard: examples/**, examples/testdata/**/*.go, examples/testdata/**/*
+//   - File wildcard: examples/testdata/*model.go, examples/testdata/*_model.go
+func resolveSource(src string) ([]string, Matcher, error) {
+	srcDir := strings.TrimSpace(src)
+	if srcDir == "" {
+		return nil, nil, fmt.Errorf("sqlgen: source directory %q is empty path", srcDir)
+	}
 
-		slog.Info("Process", "dir", dir)
-		if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
-			slog.Info("Folder is empty, so not processing")
-			dirs = dirs[1:]
-			continue
-		}
+	srcDir, err := filepath.Abs(srcDir)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	// If suffix is *, we will add go extension to it
+	if srcDir[len(srcDir)-1] == '*' {
+		srcDir = srcDir + ".go"
+	}
+
+	slog.Info("Processing", "dir", srcDir)
 
-		filename = path.Join(dir, g.config.Exec.Filename)
-		// Unlink the generated file, ignore the error
-		_ = syscall.Unlink(filename)
-
-		slog.Info("Parse go package", "dir", dir)
-		// Since we're loading one directory at a time,
-		// the return results will only return one package back
-		schema, err := compiler.Parse(dir, &compiler.Config{
-			Tag:        g.config.Tag,
-			RenameFunc: rename,
-			Matcher:    matcher,
-		})
-		if errors.Is(err, compiler.ErrSkip) {
-			goto nextDir
+	idx := strings.IndexByte(srcDir, '*')
+	if idx < 0 {
+		fi, err := os.Stat(srcDir)
+		// If the file or folder not exists, we skip!
+		if os.IsNotExist(err) {
+			return nil, nil, nil
 		} else if err != nil {
-			return err
+			return nil, nil, err
 		}
+		// If it's just a folder
+		if fi.IsDir() {
+			return []string{srcDir}, FolderMatcher(srcDir), nil
+		}
+		// If it's just a file
+		return []string{filepath.Dir(srcDir)}, FileMatcher{srcDir: struct{}{}}, nil
+	}
 
-		if err := g.generateModels(dir, schema); err != nil {
-			return err
+	matcher := &RegexMatcher{regexp.MustCompile(globToRegex(srcDir))}
+	rootDir := filepath.Dir(srcDir[:idx] + "x")
+	if !strings.ContainsRune(srcDir[idx:], filepath.Separator) && !strings.Contains(srcDir, "**") {
+		return []string{rootDir}, matcher, nil
+	}
+
+	dirs := make([]string, 0)
+	if err := filepath.WalkDir(rootDir, func(path string, d fs.DirEntry, err error) error {
+		// If the directory is not exists, the "d" will be nil
+		if d == nil || !d.IsDir() {
+			// If it's not a folder, we skip!
+			return nil
 		}
+		dirs = append(dirs, path)
+		return nil
+	}); err != nil {
+		return nil, nil, fmt.Errorf(`sqlgen: failed to walk schema %s: %w`, rootDir, err)
+	}
+	return dirs, matcher, nil
+}
 
-		// If the `skip_empty` is true,
-		// we do not generate the go file
-		if g.config.Exec.SkipEmpty {
-			goto nextDir
+// globToRegex converts the wildcard path to regular expression, `*` matches any characters
+// of a name and `**` matches any directories.
+func globToRegex(glob string) string {
+	glob = regexp.QuoteMeta(filepath.ToSlash(glob))
+	return "^" + strings.NewReplacer(
+		`/\*\*/`, `/(?:.*/)?`,
+		`\*\*`, `.*`,
+		`\*`, `[^/]*`,
+	).Replace(glob) + "$"
+}
+
+func parseGoPackage(g *Generator, dir string, matcher Matcher) error {
+	// Sometimes user might place db destination in the source as well
+	// In this situation, we're not process the folder, we will skip it
+	// if the file is exists in db folder
+	for _, dbDir := range []string{g.config.Database.Dir, g.config.Database.Operator.Dir} {
+		if absDir, err := filepath.Abs(dbDir); err != nil {
+			return err
+		} else if absDir == dir {
+			return nil
 		}
+	}
 
-		// if g.config.Migration != nil {
-		// 	if err := os.MkdirAll(g.config.Migration.Dir, os.ModePerm); err != nil {
-		// 		return err
-		// 	}
+	slog.Info("Process", "dir", dir)
+	if fileutil.IsDirEmptyFiles(dir, g.config.Exec.Filename) {
+		slog.Info("Folder is empty, so not processing")
+		return nil
+	}
 
-		// 	if err := g.genMigrations(schema); err != nil {
-		// 		return err
-		// 	}
-		// }
+	filename := filepath.Join(dir, g.config.Exec.Filename)
+	slog.Info("Parse go package", "dir", dir)
+	// Since we're loading one directory at a time,
+	// the return results will only return one package back
+	schema, err := compiler.Parse(dir, &compiler.Config{
+		Tag:        g.config.Tag,
+		RenameFunc: g.config.RenameFunc(),
+		Matcher:    matcher,
+		Output:     filename,
+	})
+	if errors.Is(err, compiler.ErrNoModel) {
+		g.removeGenerated(filename)
+		return nil
+	} else if errors.Is(err, compiler.ErrSkip) {
+		return nil
+	} else if err != nil {
+		return err
+	}
 
-	nextDir:
-		dirs = dirs[1:]
+	// If the `skip_empty` is true,
+	// we do not generate the go file
+	if g.config.Exec.SkipEmpty && len(schema.Tables) == 0 {
+		g.removeGenerated(filename)
+		return nil
 	}
-	return nil
+	return g.generateModels(dir, schema)
 }
 
 func goModTidy() error {
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 727b228..f6db625 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"go/types"
 	"io"
-	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -46,6 +45,7 @@ type Generator struct {
 	columnTypes        map[string]*dialect.ColumnType
 	defaultColumnTypes map[string]*dialect.ColumnType
 	errs               []error
+	outputs            []*outputFile
 }
 
 func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
@@ -334,16 +334,6 @@ func (g *Generator) generateModels(
 		schema.Tables = schema.Tables[1:]
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
-	fileDest := filepath.Join(dstDir, g.config.Exec.Filename)
-	f, err := os.OpenFile(fileDest, os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
 	rw := bytes.NewBufferString(``)
 	g.buildHeader(rw)
 	fprintfln(rw, "package %s", schema.Pkg.Name)
@@ -369,9 +359,8 @@ func (g *Generator) generateModels(
 		return err
 	}
 
-	mustNoError(f.Write(formatted))
-
-	return f.Close()
+	g.addFile(filepath.Join(dstDir, g.config.Exec.Filename), formatted)
+	return nil
 }
 
 func (g *Generator) buildHeader(w io.Writer) {
diff --git a/cmd/sqlgen/codegen/init.go b/cmd/sqlgen/codegen/init.go
index 3c2abba..5e8456b 100644
--- a/cmd/sqlgen/codegen/init.go
+++ b/cmd/sqlgen/codegen/init.go
@@ -85,7 +85,7 @@ func renderTemplate(
 			if filepath.Base(pkg.Path()) == pkg.Name() {
 				fprintfln(w, strconv.Quote(pkg.Path()))
 			} else {
-				fprintfln(w, pkg.Name()+strconv.Quote(pkg.Path()))
+				fprintfln(w, pkg.Name()+" "+strconv.Quote(pkg.Path()))
 			}
 		}
 		fprintfln(w, ")")
@@ -95,9 +95,6 @@ func renderTemplate(
 		return err
 	}
 
-	if err := os.MkdirAll(dstDir, os.ModePerm); err != nil {
-		return err
-	}
 	fileDest := filepath.Join(dstDir, dstFilename)
 	// formatted, err := format.Source([]byte(w.String()))
 	// if err != nil {
@@ -109,9 +106,7 @@ func renderTemplate(
 	}
 
 	slog.Info("Creating " + fileDest)
-	if err := os.WriteFile(fileDest, formatted, os.ModePerm); err != nil {
-		return err
-	}
+	g.addFile(fileDest, formatted)
 	return nil
 }
 
diff --git a/cmd/sqlgen/codegen/output.go b/cmd/sqlgen/codegen/output.go
new file mode 100644
index 0000000..2e5cf68
--- /dev/null
+++ b/cmd/sqlgen/codegen/output.go
@@ -0,0 +1,106 @@
+package codegen
+
+import (
+	"bytes"
+	"os"
+	"path/filepath"
+)
+
+// The first line of every generated file
+const headerPrefix = "// Code generated by sqlgen"
+
+// outputFile is a file to be written once the generation is completed.
+type outputFile struct {
+	path    string
+	content []byte
+	// To remove the file instead
+	remove bool
+
+	temp    string
+	mode    os.FileMode
+	existed bool
+	old     []byte
+}
+
+func (g *Generator) addFile(path string, content []byte) {
+	g.outputs = append(g.outputs, &outputFile{path: path, content: content})
+}
+
+// removeGenerated removes the file which was generated earlier.
+func (g *Generator) removeGenerated(path string) {
+	if content, err := os.ReadFile(path); err == nil && bytes.HasPrefix(content, []byte(headerPrefix)) {
+		g.outputs = append(g.outputs, &outputFile{path: path, remove: true})
+	}
+}
+
+// writeFiles writes every generated file, or none of them if any of it fails.
+func (g *Generator) writeFiles() (err error) {
+	defer func() {
+		for _, f := range g.outputs {
+			if f.temp != "" {
+				_ = os.Remove(f.temp)
+			}
+		}
+	}()
+	for _, f := range g.outputs {
+		if err := f.prepare(); err != nil {
+			return err
+		}
+	}
+	for i, f := range g.outputs {
+		if err := f.commit(); err != nil {
+			for ; i > 0; i-- {
+				g.outputs[i-1].rollback()
+			}
+			return err
+		}
+	}
+	return nil
+}
+
+// prepare writes the content beside the file.
+func (f *outputFile) prepare() error {
+	f.mode = os.ModePerm
+	if fi, err := os.Stat(f.path); err == nil {
+		if f.old, err = os.ReadFile(f.path); err != nil {
+			return err
+		}
+		f.existed, f.mode = true, fi.Mode().Perm()
+	}
+	if f.remove {
+		return nil
+	}
+	dir := filepath.Dir(f.path)
+	if err := os.MkdirAll(dir, os.ModePerm); err != nil {
+		return err
+	}
+	w, err := os.OpenFile(filepath.Join(dir, "."+filepath.Base(f.path)+".tmp"), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.mode)
+	if err != nil {
+		return err
+	}
+	f.temp = w.Name()
+	if _, err := w.Write(f.content); err != nil {
+		_ = w.Close()
+		return err
+	}
+	return w.Close()
+}
+
+func (f *outputFile) commit() error {
+	if f.remove {
+		return os.Remove(f.path)
+	}
+	if err := os.Rename(f.temp, f.path); err != nil {
+		return err
+	}
+	f.temp = ""
+	return nil
+}
+
+func (f *outputFile) rollback() {
+	if f.existed {
+		_ = os.WriteFile(f.path, f.old, f.mode)
+	} else {
+		_ = os.Remove(f.path)
+	}
+}
diff --git a/cmd/sqlgen/codegen/path_matcher.go b/cmd/sqlgen/codegen/path_matcher.go
index bc5a0d5..cde2e38 100644
--- a/cmd/sqlgen/codegen/path_matcher.go
+++ b/cmd/sqlgen/codegen/path_matcher.go
@@ -1,8 +1,8 @@
 package codegen
 
 import (
+	"path/filepath"
 	"regexp"
-	"strings"
 )
 
 type Matcher interface {
@@ -25,7 +25,7 @@ func (f FileMatcher) Match(v string) bool {
 type FolderMatcher string
 
 func (f FolderMatcher) Match(v string) bool {
-	return strings.HasPrefix(v, (string)(f))
+	return filepath.Dir(v) == (string)(f)
 }
 
 type RegexMatcher struct {
@@ -33,5 +33,17 @@ type RegexMatcher struct {
 }
 
 func (r *RegexMatcher) Match(v string) bool {
-	return r.MatchString(v)
+	return r.MatchString(filepath.ToSlash(v))
+}
+
+// anyMatcher matches whatever any of the matchers does
+type anyMatcher []Matcher
+
+func (a anyMatcher) Match(v string) bool {
+	for _, m := range a {
+		if m.Match(v) {
+			return true
+		}
+	}
+	return false
 }
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 77987f0..9233baf 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"errors"
+	"fmt"
 	"go/ast"
 	"go/types"
 	"reflect"
@@ -15,6 +16,8 @@ import (
 
 var (
 	ErrSkip = errors.New(`compiler: skip code generation`)
+	// The files are matched but none of it has a model
+	ErrNoModel = fmt.Errorf(`%w: no model is found`, ErrSkip)
 
 	nameRegex     = regexp.MustCompile(`(?i)^[a-z]+[a-z0-9\_]*$`)
 	typeOfTable   = reflect.TypeOf(sequel.TableName{})
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index cdb0e39..480f0a2 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"go/types"
 	"math"
+	"os"
 	"reflect"
 	"regexp"
 	"sort"
@@ -26,15 +27,29 @@ type Config struct {
 	Tag        string
 	RenameFunc func(string) string
 	Matcher    Matcher
+	// The file to be generated, whatever it has now is ignored
+	Output string
 }
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 
+// overlay hides the generated file from the package.
+func (cfg *Config) overlay() map[string][]byte {
+	if cfg.Output == "" {
+		return nil
+	}
+	if _, err := os.Stat(cfg.Output); err != nil {
+		return nil
+	}
+	return map[string][]byte{cfg.Output: []byte("//go:build sqlgen_ignore\n\npackage ignored\n")}
+}
+
 func Parse(dir string, cfg *Config) (*Package, error) {
 	// Load single go package and inspect the structs
 	pkgs, err := packages.Load(&packages.Config{
-		Dir:  dir,
-		Mode: pkgMode,
+		Dir:     dir,
+		Mode:    pkgMode,
+		Overlay: cfg.overlay(),
 	})
 	if err != nil {
 		return nil, err
@@ -50,6 +65,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		}
 	}
 	structCaches := make([]structCache, 0)
+	fileMatched := false
 
 	// Loop thru every go files
 	for _, file := range pkg.Syntax {
@@ -57,6 +73,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 		if ast.IsGenerated(file) {
 			continue
 		}
+		if !cfg.Matcher.Match(pkg.Fset.Position(file.Package).Filename) {
+			continue
+		}
+		fileMatched = true
 
 		// if pkg.Module != nil {
 		// 	// If go version is 1.21, then it don't have infer type
@@ -88,11 +108,6 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 					continue
 				}
 
-				filename := pkg.Fset.Position(typeSpec.Name.NamePos).Filename
-				if !cfg.Matcher.Match(filename) {
-					continue
-				}
-
 				objType := pkg.TypesInfo.ObjectOf(typeSpec.Name)
 				// We're not interested in the unexported type, nor in the type declared inside a function
 				if !objType.Exported() || objType.Parent() != pkg.Types.Scope() {
@@ -125,9 +140,12 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	}
 
 	// If no files matched the pattern, skip it
-	if len(structCaches) == 0 {
+	if !fileMatched {
 		return nil, ErrSkip
 	}
+	if len(structCaches) == 0 {
+		return nil, ErrNoModel
+	}
 
 	// Sort the struct inside the package by ascending order
 	// Why do we need to sort the order because the output will look identical
-- 
2.43.0


From 8799aaef9eb36cedca728b408900a5ed7edb270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 37/45] fix: methods declared by the user take precedence,
 report what cannot be generated

---
 cmd/sqlgen/codegen/declared.go           | 132 +++++++++++++++++++++++
 cmd/sqlgen/codegen/expr.go               |   7 +-
 cmd/sqlgen/codegen/generate.go           | 127 +++++++++++++---------
 cmd/sqlgen/internal/compiler/compiler.go |  44 +++++++-
 cmd/sqlgen/internal/compiler/parser.go   |  40 ++++---
 5 files changed, 277 insertions(+), 73 deletions(-)
 create mode 100644 cmd/sqlgen/codegen/declared.go

diff --git a/cmd/sqlgen/codegen/declared.go b/cmd/sqlgen/codegen/declared.go
new file mode 100644
index 0000000..1d90b24
--- /dev/null
+++ b/cmd/sqlgen/codegen/declared.go
@@ -0,0 +1,132 @@
+package codegen
+
+import (
+	"bytes"
+	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
+	"go/types"
+	"regexp"
+	"strings"
+
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
+)
+
+var (
+	anyRegexp  = regexp.MustCompile(`interface ?{}`)
+	byteRegexp = regexp.MustCompile(`\bbyte\b`)
+	runeRegexp = regexp.MustCompile(`\brune\b`)
+)
+
+// omitDeclared omits the generated methods which the user declares.
+func (g *Generator) omitDeclared(src []byte, importPkgs *Package, schema *compiler.Package) ([]byte, error) {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
+	if err != nil {
+		return nil, err
+	}
+	buf := new(bytes.Buffer)
+	scope := schema.Pkg.Types.Scope()
+	generated := make(map[string]struct{})
+	offset := 0
+	for _, decl := range file.Decls {
+		switch d := decl.(type) {
+		case *ast.GenDecl:
+			if d.Tok != token.TYPE {
+				continue
+			}
+			for _, spec := range d.Specs {
+				name := spec.(*ast.TypeSpec).Name.Name
+				if _, ok := generated[name]; ok || scope.Lookup(name) != nil {
+					return nil, fmt.Errorf(`sqlgen: type %q is declared already`, name)
+				}
+				generated[name] = struct{}{}
+			}
+
+		case *ast.FuncDecl:
+			recv, isPtr := d.Recv.List[0].Type, false
+			if ptr, ok := recv.(*ast.StarExpr); ok {
+				recv, isPtr = ptr.X, true
+			}
+			typeName, name := types.ExprString(recv), d.Name.Name
+			if _, ok := generated[typeName+"."+name]; ok {
+				return nil, fmt.Errorf(`sqlgen: struct %q has more than one generated method %q`, typeName, name)
+			}
+			generated[typeName+"."+name] = struct{}{}
+
+			named, ok := scope.Lookup(typeName).Type().(*types.Named)
+			if !ok {
+				continue
+			}
+			st := named.Underlying().(*types.Struct)
+			for i := range st.NumFields() {
+				if st.Field(i).Name() == name {
+					return nil, fmt.Errorf(`sqlgen: struct %q has field %q which has the same name with the generated method`, typeName, name)
+				}
+			}
+			fn := declaredMethod(named, name)
+			if fn == nil {
+				continue
+			}
+			_, ptrRecv := fn.Signature().Recv().Type().(*types.Pointer)
+			if (ptrRecv && !isPtr) || signatureOf(importPkgs, fn) != signatureString(d.Type) {
+				g.LogError(fmt.Errorf(`sqlgen: struct %q has function %q but wrong footprint`, typeName, name))
+			}
+			buf.Write(src[offset:fset.Position(d.Pos()).Offset])
+			offset = fset.Position(d.End()).Offset
+		}
+	}
+	buf.Write(src[offset:])
+	return buf.Bytes(), nil
+}
+
+func declaredMethod(named *types.Named, name string) *types.Func {
+	for i := range named.NumMethods() {
+		if fn := named.Method(i); fn.Name() == name {
+			return fn
+		}
+	}
+	return nil
+}
+
+func signatureOf(pkg *Package, fn *types.Func) string {
+	var blr strings.Builder
+	for _, tuple := range []*types.Tuple{fn.Signature().Params(), fn.Signature().Results()} {
+		for i := range tuple.Len() {
+			blr.WriteString(types.TypeString(tuple.At(i).Type(), func(p *types.Package) string {
+				if p.Path() == pkg.PkgPath() {
+					return ""
+				}
+				for _, item := range pkg.imports {
+					if item.Path() == p.Path() {
+						return item.Name()
+					}
+				}
+				return p.Name()
+			}) + ",")
+		}
+		blr.WriteByte(';')
+	}
+	return normaliseType(blr.String())
+}
+
+func signatureString(f *ast.FuncType) string {
+	var blr strings.Builder
+	for _, list := range []*ast.FieldList{f.Params, f.Results} {
+		if list != nil {
+			for _, field := range list.List {
+				blr.WriteString(strings.Repeat(types.ExprString(field.Type)+",", max(1, len(field.Names))))
+			}
+		}
+		blr.WriteByte(';')
+	}
+	return normaliseType(blr.String())
+}
+
+// normaliseType gives the identical types the same name.
+func normaliseType(str string) string {
+	str = anyRegexp.ReplaceAllString(str, "any")
+	str = byteRegexp.ReplaceAllString(str, "uint8")
+	return runeRegexp.ReplaceAllString(str, "int32")
+}
diff --git a/cmd/sqlgen/codegen/expr.go b/cmd/sqlgen/codegen/expr.go
index e0aaa75..dd30070 100644
--- a/cmd/sqlgen/codegen/expr.go
+++ b/cmd/sqlgen/codegen/expr.go
@@ -24,6 +24,9 @@ var (
 //   - {{len}} - go array size
 type Expr string
 
+// exprError is the error of an invalid expression
+type exprError struct{ error }
+
 // Possible values:
 // (database/sql/driver.Valuer)(v)
 // (*time.Time)(v)
@@ -100,11 +103,11 @@ func (e Expr) Format(pkg *Package, args ...ExprParams) string {
 	}
 	tmpl, err := template.New("expression").Funcs(funcMap).Parse(str)
 	if err != nil {
-		panic(err)
+		panic(exprError{err})
 	}
 	buf := new(bytes.Buffer)
 	if err := tmpl.Execute(buf, actualGoPath); err != nil {
-		panic(err)
+		panic(exprError{err})
 	}
 	return buf.String()
 }
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index f6db625..156a9ee 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -12,7 +12,6 @@ import (
 	"strings"
 	"text/template"
 	"time"
-	"unsafe"
 
 	"github.com/samber/lo"
 	"github.com/si3nloong/sqlgen"
@@ -84,22 +83,24 @@ func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
 }
 
 func (g *Generator) LogError(err error) {
-	// When it's strict mode, the program will stop once
-	// it encounter any error
-	if g.config.Strict != nil && *g.config.Strict {
-		panic(err)
-	}
 	g.errs = append(g.errs, err)
 }
 
+// Err returns the first error, when it's strict mode, the program
+// will stop once it encounter any error.
+func (g *Generator) Err() error {
+	if len(g.errs) > 0 && g.config.Strict != nil && *g.config.Strict {
+		return g.errs[0]
+	}
+	return nil
+}
+
+// Quote returns the go string literal of the string.
 func (g *Generator) Quote(str string) string {
-	buf := make([]byte, 0, len(str))
-	buf = append(buf, byte(g.quoteRune))
-	for i := range str {
-		buf = append(buf, byte(str[i]))
+	if g.quoteRune == '`' && strconv.CanBackquote(str) {
+		return "`" + str + "`"
 	}
-	buf = append(buf, byte(g.quoteRune))
-	return unsafe.String(unsafe.SliceData(buf), len(buf))
+	return strconv.Quote(str)
 }
 
 func (g *Generator) MustQuoteIdentifier(str string) string {
@@ -117,7 +118,18 @@ func (g *Generator) QuoteIdentifier(str string) string {
 func (g *Generator) generateModels(
 	dstDir string,
 	schema *compiler.Package,
-) error {
+) (err error) {
+	defer func() {
+		// The expressions are given by the user
+		switch v := recover().(type) {
+		case nil:
+		case exprError:
+			err = v
+		default:
+			panic(v)
+		}
+	}()
+
 	importPkgs := NewPackage(schema.Pkg.PkgPath, schema.Pkg.Name)
 	// The imports must not be named after what the package declares, or what the generated code uses
 	importPkgs.reserved = func(name string) bool {
@@ -164,10 +176,11 @@ func (g *Generator) generateModels(
 			pk, ok := t.AutoIncrKey()
 			if ok {
 				fprintfln(w, "func (%s) IsAutoIncr() {}", t.GoName)
-				fprintfln(w, `func (v *%s) ScanAutoIncr(val int64) error {
-	v.%s = %s(val)
-	return nil
-}`, t.GoName, pk.GoName, pk.Type)
+				fprintfln(w, "func (v *%s) ScanAutoIncr(val int64) error {", t.GoName)
+				initPtrPaths(w, importPkgs, pk.GoPtrPaths())
+				fprintfln(w, "v%s = %s(val)", pk.GoPath, typeString(importPkgs, pk.Type))
+				fprintfln(w, "return nil")
+				fprintfln(w, "}")
 			} else if len(t.Keys) == 1 {
 				pk = t.Keys[0]
 			}
@@ -184,7 +197,9 @@ func (g *Generator) generateModels(
 		if method, isWrongType := t.Implements(sqlQueryColumner); isWrongType {
 			g.LogError(fmt.Errorf(`sqlgen: struct %q has function "SQLColumns" but wrong footprint`, t.Name))
 		} else if method != nil && !isWrongType {
-			g.buildSqlColumns(w, t)
+			if err := g.buildSqlColumns(w, t); err != nil {
+				return err
+			}
 		}
 
 		// Build the "Columns" function which return the column names
@@ -239,14 +254,20 @@ func (g *Generator) generateModels(
 					return err
 				}
 
-				g.buildInsertOne(w, importPkgs, t)
+				if err := g.buildInsertOne(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 		}
 
 		if t.HasPK() {
-			g.buildFindByPK(w, importPkgs, t)
+			if err := g.buildFindByPK(w, importPkgs, t); err != nil {
+				return err
+			}
 			if !t.Readonly && len(t.ColumnsWithoutPK()) > 0 {
-				g.buildUpdateByPK(w, importPkgs, t)
+				if err := g.buildUpdateByPK(w, importPkgs, t); err != nil {
+					return err
+				}
 			}
 			// The key must be sent the way it was stored
 			if _, ok := t.AutoIncrKey(); !ok && !t.Readonly && lo.SomeBy(t.Keys, g.hasSQLValuer) {
@@ -354,7 +375,15 @@ func (g *Generator) generateModels(
 	mustNoError(rw.Write(bw.Bytes()))
 	bw.Reset()
 
-	formatted, err := imports.Process("", rw.Bytes(), &imports.Options{Comments: true})
+	src, err := g.omitDeclared(rw.Bytes(), importPkgs, schema)
+	if err != nil {
+		return err
+	}
+	if err := g.Err(); err != nil {
+		return err
+	}
+
+	formatted, err := imports.Process("", src, &imports.Options{Comments: true})
 	if err != nil {
 		return err
 	}
@@ -445,11 +474,7 @@ func (g *Generator) buildValuer(w io.Writer, importPkgs *Package, table *compile
 
 func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compiler.Table) {
 	fprintfln(w, "func (v *%s) %s() []any {", table.GoName, methodName(sqlScanner))
-	for _, f := range table.GoPtrPaths() {
-		fprintfln(w, "if v%s == nil {", f.GoPath)
-		fmt.Fprintf(w, `v%s = new(%s)`, f.GoPath, typeString(importPkgs, baseType(f.Type)))
-		fprintfln(w, "}")
-	}
+	initPtrPaths(w, importPkgs, table.GoPtrPaths())
 	fprintfln(w, "return []any{")
 	tmpl := "%s, // %" + strwidth(len(table.Columns)) + "d - %s"
 	for _, f := range table.Columns {
@@ -459,6 +484,15 @@ func (g *Generator) buildScanner(w io.Writer, importPkgs *Package, table *compil
 	fprintfln(w, "}")
 }
 
+// initPtrPaths allocates the embedded structs.
+func initPtrPaths(w io.Writer, importPkgs *Package, paths []*compiler.FieldPath) {
+	for _, f := range paths {
+		fprintfln(w, "if v%s == nil {", f.GoPath)
+		fprintfln(w, "v%s = new(%s)", f.GoPath, typeString(importPkgs, baseType(f.Type)))
+		fprintfln(w, "}")
+	}
+}
+
 // buildTableName appends the table name to the statement. The part of it which is only known
 // at runtime is moved out of the buffer, and returned as the leading go expression.
 func (g *Generator) buildTableName(buf *strings.Builder, t *compiler.Table) (query string) {
@@ -855,33 +889,22 @@ func printStruct(w io.Writer, importPkgs *Package, s *types.Struct) {
 	fmt.Fprintln(w, "struct{")
 	for i := 0; i < s.NumFields(); i++ {
 		f := s.Field(i)
-		switch ft := f.Type().(type) {
-		case *types.Struct:
-			if !f.Embedded() {
-				fmt.Fprint(w, f.Name()+" ")
-				printStruct(w, importPkgs, ft)
-			} else {
-				typeStr := typeString(importPkgs, f.Type())
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-				if tag := s.Tag(i); len(tag) > 0 {
-					fmt.Fprintf(w, " `%s`", s.Tag(i))
-				}
-				fmt.Fprintln(w)
-			}
-		default:
-			typeStr := typeString(importPkgs, f.Type())
-			if f.Embedded() {
-				fmt.Fprint(w, typeStr)
-			} else {
-				fmt.Fprint(w, f.Name()+" "+typeStr)
-			}
-			if tag := s.Tag(i); len(tag) > 0 {
-				fmt.Fprintf(w, " `%s`", s.Tag(i))
-			}
-			fmt.Fprintln(w)
+		if !f.Embedded() {
+			fmt.Fprint(w, f.Name()+" ")
+		}
+		if ft, ok := f.Type().(*types.Struct); ok {
+			printStruct(w, importPkgs, ft)
+		} else {
+			fmt.Fprint(w, typeString(importPkgs, f.Type()))
 		}
+		if tag := s.Tag(i); strings.Contains(tag, "`") {
+			fmt.Fprint(w, " "+strconv.Quote(tag))
+		} else if len(tag) > 0 {
+			fmt.Fprintf(w, " `%s`", tag)
+		}
+		fmt.Fprintln(w)
 	}
-	fmt.Fprintln(w, "}")
+	fmt.Fprint(w, "}")
 }
 
 func methodName(i *types.Interface) string {
diff --git a/cmd/sqlgen/internal/compiler/compiler.go b/cmd/sqlgen/internal/compiler/compiler.go
index 9233baf..05dfec8 100644
--- a/cmd/sqlgen/internal/compiler/compiler.go
+++ b/cmd/sqlgen/internal/compiler/compiler.go
@@ -4,6 +4,8 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/parser"
+	"go/token"
 	"go/types"
 	"reflect"
 	"regexp"
@@ -42,7 +44,8 @@ type Table struct {
 	Keys    []*Column
 	Columns []*Column
 
-	t types.Type
+	t   types.Type
+	pkg *packages.Package
 	// +sqlgen:readonly
 	Readonly    bool
 	autoIncrKey *Column
@@ -93,12 +96,47 @@ func (t *Table) InsertColumns() []*Column {
 	})
 }
 
+// Implements reports whether the method of the interface is declared by the user, it returns
+// the method if it's missing. The methods of the embedded structs only count for the names
+// of the table, the rest of it are about the columns of the embedded struct.
 func (t *Table) Implements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(t.t, T, true)
+	return t.implements(T, false)
 }
 
 func (t *Table) PtrImplements(T *types.Interface) (*types.Func, bool) {
-	return types.MissingMethod(types.NewPointer(t.t), T, true)
+	return t.implements(T, true)
+}
+
+func (t *Table) implements(T *types.Interface, ptr bool) (*types.Func, bool) {
+	method := T.Method(0)
+	obj, index, _ := types.LookupFieldOrMethod(types.NewPointer(t.t), true, t.pkg.Types, method.Name())
+	fn, ok := obj.(*types.Func)
+	if !ok || (fn.Pkg() != t.pkg.Types && isGenerated(t.pkg.Fset.Position(fn.Pos()).Filename)) {
+		return method, false
+	}
+	if len(index) > 1 {
+		switch method.Name() {
+		case "DatabaseName", "TableName":
+		default:
+			return method, false
+		}
+	}
+	if !types.Identical(fn.Type(), method.Type()) {
+		return method, true
+	}
+	if !ptr {
+		// The method of a pointer is not the method of the value
+		if obj, _, _ := types.LookupFieldOrMethod(t.t, false, t.pkg.Types, method.Name()); obj != fn {
+			return method, true
+		}
+	}
+	return nil, false
+}
+
+// isGenerated reports whether the file is generated by a tool.
+func isGenerated(filename string) bool {
+	file, err := parser.ParseFile(token.NewFileSet(), filename, nil, parser.PackageClauseOnly|parser.ParseComments)
+	return err == nil && ast.IsGenerated(file)
 }
 
 type Column struct {
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 480f0a2..29bc5cf 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -168,6 +168,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			GoName: types.ExprString(s.name),
 			Name:   cfg.RenameFunc(types.ExprString(s.name)),
 			t:      pkg.TypesInfo.TypeOf(s.name),
+			pkg:    pkg,
 		}
 
 		// To store struct fields, to prevent field name collision
@@ -247,8 +248,8 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			if ptrCount(f.t) > 1 {
 				return nil, fmt.Errorf(`sqlgen: pointer of pointer is not supported`)
 			}
-			if hasInvalidType(f.t) {
-				return nil, fmt.Errorf(`sqlgen: unknown type of field %q in struct %q in directory %q`, f.name, s.name, dir)
+			if !isAccessible(pkg.Types, f.t) {
+				return nil, fmt.Errorf(`sqlgen: unknown or unexported type of field %q in struct %q in directory %q`, f.name, s.name, dir)
 			}
 
 			if _, ok := goNameMap[f.name]; ok {
@@ -359,36 +360,43 @@ func isRecursive(parent *structField, t types.Type) bool {
 	return false
 }
 
-// hasInvalidType reports whether the type, or any type it's composed of, is unknown.
-func hasInvalidType(t types.Type) bool {
-	switch vt := types.Unalias(t).(type) {
+// isAccessible reports whether the package is able to refer to the type, and every type it's composed of.
+func isAccessible(pkg *types.Package, t types.Type) bool {
+	isNameAccessible := func(obj types.Object) bool {
+		return obj.Pkg() == nil || obj.Pkg() == pkg || obj.Exported()
+	}
+	switch vt := t.(type) {
 	case *types.Basic:
-		return vt.Kind() == types.Invalid
+		return vt.Kind() != types.Invalid
+	case *types.Alias:
+		return isNameAccessible(vt.Obj()) && (vt.Obj().Pkg() != pkg || isAccessible(pkg, vt.Rhs()))
 	case *types.Pointer:
-		return hasInvalidType(vt.Elem())
+		return isAccessible(pkg, vt.Elem())
 	case *types.Slice:
-		return hasInvalidType(vt.Elem())
+		return isAccessible(pkg, vt.Elem())
 	case *types.Array:
-		return hasInvalidType(vt.Elem())
+		return isAccessible(pkg, vt.Elem())
+	case *types.Chan:
+		return isAccessible(pkg, vt.Elem())
 	case *types.Map:
-		return hasInvalidType(vt.Key()) || hasInvalidType(vt.Elem())
+		return isAccessible(pkg, vt.Key()) && isAccessible(pkg, vt.Elem())
 	case *types.Struct:
 		for i := range vt.NumFields() {
-			if hasInvalidType(vt.Field(i).Type()) {
-				return true
+			if f := vt.Field(i); !isNameAccessible(f) || !isAccessible(pkg, f.Type()) {
+				return false
 			}
 		}
 	case *types.Named:
 		for i := range vt.TypeArgs().Len() {
-			if hasInvalidType(vt.TypeArgs().At(i)) {
-				return true
+			if !isAccessible(pkg, vt.TypeArgs().At(i)) {
+				return false
 			}
 		}
 		// The definition itself might be unknown
 		b, ok := vt.Underlying().(*types.Basic)
-		return ok && b.Kind() == types.Invalid
+		return isNameAccessible(vt.Obj()) && (!ok || b.Kind() != types.Invalid)
 	}
-	return false
+	return true
 }
 
 // This is to count the underlying pointer of a type
-- 
2.43.0


From 9967503df0a307c46fdc0b8c54fdfbce174401d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 38/45] fix: config file options take their documented
 defaults, invalid ones are errors

---
 cmd/sqlgen/cmd.go              | 10 +++--
 cmd/sqlgen/codegen/codegen.go  | 18 +++++++--
 cmd/sqlgen/codegen/config.go   | 67 +++++++++++++++++++++-------------
 cmd/sqlgen/codegen/generate.go |  4 ++
 cmd/sqlgen/generate.go         |  7 ++--
 cmd/sqlgen/init.go             |  5 ++-
 6 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/cmd/sqlgen/cmd.go b/cmd/sqlgen/cmd.go
index 1120145..0761e86 100644
--- a/cmd/sqlgen/cmd.go
+++ b/cmd/sqlgen/cmd.go
@@ -28,16 +28,18 @@ var (
 		},
 		RunE: func(cmd *cobra.Command, args []string) error {
 			var (
-				cfg = codegen.DefaultConfig()
+				cfg *codegen.Config
 				err error
 			)
 
 			// If user passing config file, then we load from it.
 			if rootOpts.config != "" {
 				cfg, err = codegen.LoadConfigFrom(rootOpts.config)
-				if err != nil {
-					return err
-				}
+			} else {
+				cfg, err = codegen.LoadConfig()
+			}
+			if err != nil {
+				return err
 			}
 			return codegen.Generate(cfg)
 		},
diff --git a/cmd/sqlgen/codegen/codegen.go b/cmd/sqlgen/codegen/codegen.go
index c6a96b7..32f06c9 100644
--- a/cmd/sqlgen/codegen/codegen.go
+++ b/cmd/sqlgen/codegen/codegen.go
@@ -37,9 +37,21 @@ func Generate(c *Config) error {
 		return err
 	}
 
-	cfg := DefaultConfig()
-	if c != nil {
-		cfg = cfg.Merge(c)
+	cfg := new(Config)
+	cfg.Init()
+	// The config file is not needed if the config comes from a config file
+	if !c.loaded {
+		var err error
+		if cfg, err = LoadConfig(); err != nil {
+			return err
+		}
+	}
+	cfg = cfg.Merge(c)
+
+	switch cfg.NamingConvention {
+	case SnakeCase, CamelCase, PascalCase:
+	default:
+		return fmt.Errorf("sqlgen: unknown naming convention %q", cfg.NamingConvention)
 	}
 
 	dialect, ok := dialect.GetDialect((string)(cfg.Driver))
diff --git a/cmd/sqlgen/codegen/config.go b/cmd/sqlgen/codegen/config.go
index 4ac3c22..3c06b87 100644
--- a/cmd/sqlgen/codegen/config.go
+++ b/cmd/sqlgen/codegen/config.go
@@ -1,6 +1,8 @@
 package codegen
 
 import (
+	"errors"
+	"io"
 	"maps"
 	"os"
 	"path/filepath"
@@ -61,6 +63,9 @@ type Config struct {
 	SkipHeader      bool                 `yaml:"skip_header"`
 	SkipModTidy     bool                 `yaml:"skip_mod_tidy"`
 	DataTypes       map[string]*DataType `yaml:"data_types"`
+
+	// Whether the config has been loaded from the config file
+	loaded bool
 }
 
 type DataType struct {
@@ -103,23 +108,8 @@ type DatabaseOperatorConfig struct {
 }
 
 func (c *Config) Init() {
-	strict := true
-	c.Source = []string{"./**/*"}
-	c.NamingConvention = SnakeCase
-	c.Tag = DefaultStructTag
-	c.Driver = MySQL
-	c.Strict = &strict
-	c.Exec.Filename = DefaultGeneratedFile
-	c.Getter.Prefix = "Column"
-	c.Database = new(DatabaseConfig)
-	c.Database.Package = "db"
-	c.Database.Dir = "db"
-	c.Database.Filename = "db.go"
-	c.Database.Operator = new(DatabaseOperatorConfig)
-	c.Database.Operator.Package = c.Database.Package
-	c.Database.Operator.Dir = c.Database.Dir
-	c.Database.Operator.Filename = "operator.go"
-	c.DataTypes = make(map[string]*DataType)
+	*c = Config{}
+	c.initIfEmpty()
 }
 
 func (c *Config) initIfEmpty() {
@@ -135,6 +125,10 @@ func (c *Config) initIfEmpty() {
 	if c.Tag == "" {
 		c.Tag = DefaultStructTag
 	}
+	if c.Strict == nil {
+		strict := true
+		c.Strict = &strict
+	}
 	if c.Getter.Prefix == "" {
 		c.Getter.Prefix = "Column"
 	}
@@ -183,7 +177,18 @@ func (c *Config) initIfEmpty() {
 }
 
 func (c *Config) Merge(mapCfg *Config) *Config {
-	c.QuoteIdentifier = mapCfg.QuoteIdentifier
+	if mapCfg.QuoteIdentifier {
+		c.QuoteIdentifier = true
+	}
+	if mapCfg.ReadOnly {
+		c.ReadOnly = true
+	}
+	if mapCfg.OmitGetters {
+		c.OmitGetters = true
+	}
+	if mapCfg.SourceMap {
+		c.SourceMap = true
+	}
 	if mapCfg.Source != nil {
 		c.Source = append([]string{}, mapCfg.Source...)
 	}
@@ -258,23 +263,32 @@ func (c Config) RenameFunc() func(string) string {
 	}
 }
 
+// LoadConfigFrom returns the config of the file, whatever is absent in the file has the default value.
 func LoadConfigFrom(src string) (*Config, error) {
 	cfg := new(Config)
-	cfg.Init()
 	if err := decodeToFile(src, cfg); err != nil {
 		return nil, err
 	}
+	cfg.initIfEmpty()
+	cfg.loaded = true
 	return cfg, nil
 }
 
-func DefaultConfig() *Config {
+// LoadConfig returns the config of the current directory, or the default config if there is none.
+func LoadConfig() (*Config, error) {
+	if file, exists := findCfgInDir(fileutil.Getpwd()); exists {
+		return LoadConfigFrom(file)
+	}
 	cfg := new(Config)
 	cfg.Init()
-	file, exists := findCfgInDir(fileutil.Getpwd())
-	if !exists {
-		return cfg
-	}
-	if err := decodeToFile(file, cfg); err != nil {
+	cfg.loaded = true
+	return cfg, nil
+}
+
+// DefaultConfig is like LoadConfig, but it panics if the file is invalid.
+func DefaultConfig() *Config {
+	cfg, err := LoadConfig()
+	if err != nil {
 		panic(err)
 	}
 	return cfg
@@ -287,7 +301,8 @@ func decodeToFile(src string, cfg *Config) error {
 	}
 	defer f.Close()
 	dec := yaml.NewDecoder(f)
-	if err := dec.Decode(cfg); err != nil {
+	// Nothing is set if the file is empty
+	if err := dec.Decode(cfg); err != nil && !errors.Is(err, io.EOF) {
 		return err
 	}
 	return nil
diff --git a/cmd/sqlgen/codegen/generate.go b/cmd/sqlgen/codegen/generate.go
index 156a9ee..7674be1 100644
--- a/cmd/sqlgen/codegen/generate.go
+++ b/cmd/sqlgen/codegen/generate.go
@@ -69,6 +69,10 @@ func newGenerator(cfg *Config, d dialect.Dialect) (*Generator, error) {
 	}
 	gen.columnTypes = make(map[string]*dialect.ColumnType)
 	for k, decl := range cfg.DataTypes {
+		if decl == nil {
+			delete(cfg.DataTypes, k)
+			continue
+		}
 		gen.columnTypes[k] = &dialect.ColumnType{
 			DataType: func(c dialect.GoColumn) string {
 				return decl.DataType
diff --git a/cmd/sqlgen/generate.go b/cmd/sqlgen/generate.go
index e77c417..ddcd2c2 100644
--- a/cmd/sqlgen/generate.go
+++ b/cmd/sqlgen/generate.go
@@ -16,9 +16,10 @@ var (
 		Short: "Generate boilerplate code based on go struct",
 		Args:  cobra.ExactArgs(1),
 		RunE: func(cmd *cobra.Command, args []string) error {
-			var (
-				cfg = codegen.DefaultConfig()
-			)
+			cfg, err := codegen.LoadConfig()
+			if err != nil {
+				return err
+			}
 
 			// // Create new watcher.
 			// watcher, err := fsnotify.NewWatcher()
diff --git a/cmd/sqlgen/init.go b/cmd/sqlgen/init.go
index cac3ed2..47dedbf 100644
--- a/cmd/sqlgen/init.go
+++ b/cmd/sqlgen/init.go
@@ -79,7 +79,10 @@ func runInitCommand(cmd *cobra.Command, args []string) error {
 		return noInterruptError(err)
 	}
 
-	cfg := codegen.DefaultConfig()
+	cfg, err := codegen.LoadConfig()
+	if err != nil {
+		return err
+	}
 	switch answer.SqlDriver {
 	case string(codegen.MySQL):
 		cfg.Driver = codegen.MySQL
-- 
2.43.0


From f380083c8ec856aaaf7826b7334c5b188c56775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 39/45] fix: camelCase and PascalCase names keep the letters
 outside ASCII

---
 cmd/sqlgen/internal/strfmt/strfmt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/strfmt/strfmt.go b/cmd/sqlgen/internal/strfmt/strfmt.go
index 37d624f..1f3c0ab 100644
--- a/cmd/sqlgen/internal/strfmt/strfmt.go
+++ b/cmd/sqlgen/internal/strfmt/strfmt.go
@@ -1,6 +1,9 @@
 package strfmt
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf8"
+)
 
 var uppercaseAcronym = map[string]string{
 	"ID": "id",
@@ -40,7 +43,7 @@ func toCamelInitCase(s string, initCase bool) string {
 		}
 		prevIsCap = vIsCap
 
-		if vIsCap || vIsLow {
+		if vIsCap || vIsLow || v >= utf8.RuneSelf {
 			n.WriteByte(v)
 			capNext = false
 		} else if vIsNum := v >= '0' && v <= '9'; vIsNum {
-- 
2.43.0


From 98a3e0a3c363035b9c08e433cec880a7a5164637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 40/45] fix: a table name may be embedded, structs may embed
 themselves

---
 cmd/sqlgen/internal/compiler/parser.go | 8 ++++----
 sequel/sequel.go                       | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 29bc5cf..1d088af 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -162,7 +162,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 	for len(structCaches) > 0 {
 		// Pop the first item for further inspection
 		s := structCaches[0]
-		structFields := flattenFields(pkg.Types, s.t, nil)
+		structFields := flattenFields(pkg.Types, pkg.TypesInfo.TypeOf(s.name), s.t, nil)
 
 		table := &Table{
 			GoName: types.ExprString(s.name),
@@ -307,7 +307,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 // flattenFields returns the fields of the struct in the order of declaration, an embedded struct
 // is followed by the fields it promotes.
-func flattenFields(pkg *types.Package, st *types.Struct, parent *structField) []*structField {
+func flattenFields(pkg *types.Package, root types.Type, st *types.Struct, parent *structField) []*structField {
 	fields := make([]*structField, 0, st.NumFields())
 	for i := range st.NumFields() {
 		v := st.Field(i)
@@ -338,10 +338,10 @@ func flattenFields(pkg *types.Package, st *types.Struct, parent *structField) []
 			elem = ptr.Elem()
 		}
 		embedded, ok := elem.Underlying().(*types.Struct)
-		if !ok || isRecursive(parent, elem) {
+		if !ok || types.Identical(root, elem) || isRecursive(parent, elem) {
 			continue
 		}
-		fields = append(fields, flattenFields(pkg, embedded, f)...)
+		fields = append(fields, flattenFields(pkg, root, embedded, f)...)
 	}
 	return fields
 }
diff --git a/sequel/sequel.go b/sequel/sequel.go
index 5b5653f..6798ace 100644
--- a/sequel/sequel.go
+++ b/sequel/sequel.go
@@ -10,6 +10,10 @@ import (
 // For rename table name
 type TableName struct{}
 
+// Table is for embedding into a model, unlike [TableName] its name
+// doesn't collide with the method of the model.
+type Table = TableName
+
 type (
 	ConvertFunc[T any] func(T) any
 	QueryFunc          func(placeholder string) string
-- 
2.43.0


From e83456765afd8599f2a84923c088f161eec7a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 41/45] fix: packages of modules not required yet are imported
 by the last element of their path

---
 cmd/sqlgen/codegen/package.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/sqlgen/codegen/package.go b/cmd/sqlgen/codegen/package.go
index f150c06..cf36568 100644
--- a/cmd/sqlgen/codegen/package.go
+++ b/cmd/sqlgen/codegen/package.go
@@ -2,6 +2,7 @@ package codegen
 
 import (
 	"go/types"
+	"path"
 	"strconv"
 
 	"golang.org/x/exp/slices"
@@ -17,8 +18,8 @@ type Package struct {
 	reserved func(name string) bool
 }
 
-func NewPackage(path, name string) *Package {
-	return &Package{pkgPath: path, name: name, cache: make(map[string]*types.Package)}
+func NewPackage(pkgPath, name string) *Package {
+	return &Package{pkgPath: pkgPath, name: name, cache: make(map[string]*types.Package)}
 }
 
 func (p Package) PkgPath() string {
@@ -46,6 +47,9 @@ func (p *Package) Import(pkg *types.Package) (*types.Package, bool) {
 	}, pkg.Path())
 	if err != nil {
 		return pkg, false
+	} else if pkgs[0].Name == "" && pkg.Name() == "" {
+		// The module is not required yet
+		pkg.SetName(path.Base(pkg.Path()))
 	} else if pkgs[0].Name != "" && pkgs[0].Name != pkg.Name() {
 		pkg.SetName(pkgs[0].Name)
 	}
-- 
2.43.0


From e05a82d4b1a8798f3498094f0f7e413d4674ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 42/45] fix: files generated with another filename do not count
 as the code of the user

---
 cmd/sqlgen/codegen/output.go           |  7 +++----
 cmd/sqlgen/internal/compiler/parser.go | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/cmd/sqlgen/codegen/output.go b/cmd/sqlgen/codegen/output.go
index 2e5cf68..e3ccf13 100644
--- a/cmd/sqlgen/codegen/output.go
+++ b/cmd/sqlgen/codegen/output.go
@@ -4,10 +4,9 @@ import (
 	"bytes"
 	"os"
 	"path/filepath"
-)
 
-// The first line of every generated file
-const headerPrefix = "// Code generated by sqlgen"
+	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
+)
 
 // outputFile is a file to be written once the generation is completed.
 type outputFile struct {
@@ -28,7 +27,7 @@ func (g *Generator) addFile(path string, content []byte) {
 
 // removeGenerated removes the file which was generated earlier.
 func (g *Generator) removeGenerated(path string) {
-	if content, err := os.ReadFile(path); err == nil && bytes.HasPrefix(content, []byte(headerPrefix)) {
+	if content, err := os.ReadFile(path); err == nil && bytes.HasPrefix(content, []byte(compiler.HeaderPrefix)) {
 		g.outputs = append(g.outputs, &outputFile{path: path, remove: true})
 	}
 }
diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index 1d088af..c232780 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -1,12 +1,14 @@
 package compiler
 
 import (
+	"bytes"
 	"fmt"
 	"go/ast"
 	"go/token"
 	"go/types"
 	"math"
 	"os"
+	"path/filepath"
 	"reflect"
 	"regexp"
 	"sort"
@@ -23,6 +25,9 @@ const pkgMode = packages.NeedName |
 	packages.NeedModule |
 	packages.NeedDeps
 
+// The first line of every generated file
+const HeaderPrefix = "// Code generated by sqlgen"
+
 type Config struct {
 	Tag        string
 	RenameFunc func(string) string
@@ -33,15 +38,28 @@ type Config struct {
 
 var annotationRegexp = regexp.MustCompile(`(?i)\s*\+sql\:(.*)`)
 
-// overlay hides the generated file from the package.
+// overlay hides the generated files from the package, it might have been generated
+// with another filename earlier.
 func (cfg *Config) overlay() map[string][]byte {
 	if cfg.Output == "" {
 		return nil
 	}
-	if _, err := os.Stat(cfg.Output); err != nil {
+	dir := filepath.Dir(cfg.Output)
+	entries, err := os.ReadDir(dir)
+	if err != nil {
 		return nil
 	}
-	return map[string][]byte{cfg.Output: []byte("//go:build sqlgen_ignore\n\npackage ignored\n")}
+	overlay := make(map[string][]byte)
+	for _, entry := range entries {
+		if entry.IsDir() || filepath.Ext(entry.Name()) != ".go" {
+			continue
+		}
+		file := filepath.Join(dir, entry.Name())
+		if content, err := os.ReadFile(file); file == cfg.Output || (err == nil && bytes.HasPrefix(content, []byte(HeaderPrefix))) {
+			overlay[file] = []byte("//go:build sqlgen_ignore\n\npackage ignored\n")
+		}
+	}
+	return overlay
 }
 
 func Parse(dir string, cfg *Config) (*Package, error) {
-- 
2.43.0


From 72d1b049a2c217598f3ca5e88d7cc20118decc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 43/45] fix: a directory with more than one package is an error
 instead of a panic

---
 cmd/sqlgen/internal/compiler/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index c232780..f2e148a 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -82,6 +82,11 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 			return nil, fmt.Errorf(`sqlgen: unable to parse the package in directory %q: %w`, dir, err)
 		}
 	}
+	for _, file := range pkg.Syntax {
+		if file.Name.Name != pkg.Name {
+			return nil, fmt.Errorf(`sqlgen: more than one package in directory %q, package %q and %q`, dir, pkg.Name, file.Name.Name)
+		}
+	}
 	structCaches := make([]structCache, 0)
 	fileMatched := false
 
-- 
2.43.0


From ffaba8fb99fcc6351fc2a54ac5a16f6ea76dc712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 44/45] fix: an embedded field of unknown type is an error

---
 cmd/sqlgen/internal/compiler/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index f2e148a..fb28acb 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -260,6 +260,10 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 				continue
 			}
 
+			if f.embedded && isUnknown(f.t) {
+				return nil, fmt.Errorf(`sqlgen: unknown type of embedded field %q in struct %q in directory %q`, f.name, s.name, dir)
+			}
+
 			// If it's a unexported field, skip!
 			if !f.exported {
 				continue
@@ -383,6 +387,15 @@ func isRecursive(parent *structField, t types.Type) bool {
 	return false
 }
 
+// isUnknown reports whether the type, or what the pointer points to, isn't declared.
+func isUnknown(t types.Type) bool {
+	if ptr, ok := t.(*types.Pointer); ok {
+		t = ptr.Elem()
+	}
+	b, ok := t.Underlying().(*types.Basic)
+	return ok && b.Kind() == types.Invalid
+}
+
 // isAccessible reports whether the package is able to refer to the type, and every type it's composed of.
 func isAccessible(pkg *types.Package, t types.Type) bool {
 	isNameAccessible := func(obj types.Object) bool {
-- 
2.43.0


From 32842b63ee6eaca2b7004cabce3b88c42752a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 45/45] fix: every annotation of a struct counts, not only the
 first

---
 cmd/sqlgen/internal/compiler/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/sqlgen/internal/compiler/parser.go b/cmd/sqlgen/internal/compiler/parser.go
index fb28acb..bc1ca6f 100644
--- a/cmd/sqlgen/internal/compiler/parser.go
+++ b/cmd/sqlgen/internal/compiler/parser.go
@@ -203,8 +203,7 @@ func Parse(dir string, cfg *Config) (*Package, error) {
 
 		if s.doc != nil {
 			comment := s.doc.Text()
-			if annotationRegexp.MatchString(comment) {
-				annotations := annotationRegexp.FindStringSubmatch(comment)
+			for _, annotations := range annotationRegexp.FindAllStringSubmatch(comment, -1) {
 				flags := strings.Split(annotations[1], ",")
 				for len(flags) > 0 {
 					switch strings.TrimSpace(flags[0]) {
-- 
2.43.0

