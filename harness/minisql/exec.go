package minisql

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

type blob string

type Kind int

const (
	KAny Kind = iota
	KInt
	KFloat
	KText
	KBlob
	KBool
	KTime
)

func (k Kind) String() string {
	return [...]string{"any", "integer", "float", "text", "blob", "boolean", "timestamp"}[k]
}

type Column struct {
	Name     string
	Kind     Kind
	NotNull  bool
	Unique   bool
	AutoIncr bool
	// Generated columns are filled by the database; naming one in INSERT or
	// UPDATE is an error in every dialect.
	Generated func(n int64) any
}

type Table struct {
	DB   string // "" is the default database
	Name string
	Cols []Column
	PK   []int
	Rows [][]any
	Auto int64 // last automatic key
	Seq  int64 // rows ever inserted (generated columns)
}

func (t *Table) clone() *Table {
	c := *t
	c.Rows = append([][]any(nil), t.Rows...)
	return &c
}

type execError struct {
	msg string
	dup bool
}

func (e *execError) Unwrap() error {
	if e.dup {
		return ErrDuplicate
	}
	return nil
}

func (e *execError) Error() string { return e.msg }

// ErrDuplicate is wrapped by key violations.
var ErrDuplicate = errors.New("duplicate key")

func (e *Engine) fail(f string, a ...any) {
	panic(&execError{msg: e.Dialect.String() + ": " + fmt.Sprintf(f, a...)})
}

func (e *Engine) same(id ident, name string) bool {
	if e.Dialect == Postgres {
		if id.quoted {
			return id.name == name
		}
		return strings.ToLower(id.name) == name
	}
	return strings.EqualFold(id.name, name)
}

func (e *Engine) find(db, t *ident) *Table {
	for _, x := range e.Tables {
		if !e.same(*t, x.Name) {
			continue
		}
		if db == nil && x.DB == "" || db != nil && x.DB != "" && e.same(*db, x.DB) {
			return x
		}
	}
	n := t.name
	if db != nil {
		n = db.name + "." + n
	}
	e.fail("table %q does not exist", n)
	return nil
}

func (e *Engine) colIdx(t *Table, id ident) int {
	for i := range t.Cols {
		if e.same(id, t.Cols[i].Name) {
			return i
		}
	}
	e.fail("column %q of table %q does not exist", id.name, t.Name)
	return -1
}

type binding struct {
	names  []string // alias, or table name
	db     string
	alias  bool
	cols   []Column
	row    []any
	hidden bool // reachable only when qualified (excluded)
}

type env struct {
	e      *Engine
	b      []*binding
	parent *env
	args   []any
	group  []*env    // rows of the current group
	vals   *binding  // mysql VALUES()
	alias  []selItem // output aliases usable in ORDER BY / GROUP BY / HAVING
	out    []any
}

func (v *env) lookup(c *eCol) (*binding, int) {
	for s := v; s != nil; s = s.parent {
		var fb *binding
		fi, n := -1, 0
		for _, b := range s.b {
			if c.qual == nil && b.hidden {
				continue
			}
			if c.qual != nil {
				ok := false
				for _, nm := range b.names {
					if s.e.same(*c.qual, nm) {
						ok = true
					}
				}
				if !ok || c.qdb != nil && !s.e.same(*c.qdb, b.db) {
					continue
				}
			}
			for i := range b.cols {
				if s.e.same(c.name, b.cols[i].Name) {
					fb, fi = b, i
					n++
				}
			}
		}
		if n > 1 {
			v.e.fail("column reference %q is ambiguous", c.name.name)
		}
		if n == 1 {
			return fb, fi
		}
	}
	return nil, -1
}

func (v *env) col(c *eCol) (*binding, int) {
	b, i := v.lookup(c)
	if b == nil {
		v.e.fail("column %q does not exist", c.name.name)
	}
	return b, i
}

func kindOf(v *env, x expr) Kind {
	if c, ok := x.(*eCol); ok {
		if b, i := v.lookup(c); b != nil {
			return b.cols[i].Kind
		}
	}
	if s, ok := x.(*eSub); ok && len(s.s.items) == 1 && len(s.s.from) == 1 && s.s.from[0].table != nil {
		if c, ok := s.s.items[0].e.(*eCol); ok {
			t := v.e.find(s.s.from[0].db, s.s.from[0].table)
			for i := range t.Cols {
				if v.e.same(c.name, t.Cols[i].Name) {
					return t.Cols[i].Kind
				}
			}
		}
	}
	return KAny
}

func (e *Engine) num(v any) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case bool:
		if e.Dialect == Postgres {
			return 0, false
		}
		if x {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// coerce prepares a value for comparison with a column of kind k.
func (e *Engine) coerce(k Kind, v any) any {
	switch k {
	case KInt, KFloat:
		var s string
		switch x := v.(type) {
		case string:
			s = x
		case blob:
			s = string(x)
		case bool:
			if e.Dialect == Postgres {
				e.fail("operator does not exist: %s = boolean", k)
			}
			if x {
				return int64(1)
			}
			return int64(0)
		case time.Time:
			e.fail("cannot compare %s with a timestamp", k)
		default:
			return v
		}
		s = strings.TrimSpace(s)
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
		if e.Dialect == Postgres {
			e.fail("invalid input syntax for type %s: %q", k, s)
		}
		return v
	case KText:
		switch x := v.(type) {
		case blob:
			return string(x)
		case int64:
			if e.Dialect == Postgres {
				e.fail("operator does not exist: text = integer")
			}
			return strconv.FormatInt(x, 10)
		case bool:
			e.fail("operator does not exist: text = boolean")
		}
	case KBlob:
		if x, ok := v.(string); ok {
			return blob(x)
		}
	case KBool:
		switch x := v.(type) {
		case bool:
			if e.Dialect != Postgres {
				if x {
					return int64(1)
				}
				return int64(0)
			}
		case int64:
			if e.Dialect == Postgres {
				e.fail("operator does not exist: boolean = integer")
			}
		}
	case KTime:
		switch x := v.(type) {
		case string:
			for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999", "2006-01-02"} {
				if t, err := time.Parse(l, x); err == nil {
					return t
				}
			}
			e.fail("invalid timestamp %q", x)
		}
	}
	return v
}

// cmp compares two non-NULL scalars.
func (e *Engine) cmp(a, b any) int {
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	x, xn := e.num(a)
	y, yn := e.num(b)
	if xn && yn {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	if ta, ok := a.(time.Time); ok {
		if tb, ok := b.(time.Time); ok {
			return ta.Compare(tb)
		}
		e.fail("cannot compare timestamp with %T", b)
	}
	if ba, ok := a.(bool); ok {
		if bb, ok := b.(bool); ok {
			switch {
			case ba == bb:
				return 0
			case !ba:
				return -1
			}
			return 1
		}
	}
	sa, oka := str(a)
	sb, okb := str(b)
	if oka && okb {
		return strings.Compare(sa, sb)
	}
	// a number against text
	if e.Dialect == Postgres {
		e.fail("operator does not exist: %T and %T", a, b)
	}
	if e.Dialect == SQLite {
		if xn {
			return -1
		}
		return 1
	}
	pre := func(s string) float64 {
		for n := len(s); n > 0; n-- {
			if f, err := strconv.ParseFloat(s[:n], 64); err == nil {
				return f
			}
		}
		return 0
	}
	if oka {
		x = pre(sa)
	}
	if okb {
		y = pre(sb)
	}
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func str(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case blob:
		return string(x), true
	}
	return "", false
}

type row []any

// tri: nil unknown, else bool
func (v *env) truth(x any) (val, known bool) {
	switch t := x.(type) {
	case nil:
		return false, false
	case bool:
		return t, true
	case int64:
		if v.e.Dialect == Postgres {
			v.e.fail("argument of condition must be type boolean, not integer")
		}
		return t != 0, true
	case float64:
		if v.e.Dialect == Postgres {
			v.e.fail("argument of condition must be type boolean, not float")
		}
		return t != 0, true
	case string:
		if v.e.Dialect == Postgres {
			v.e.fail("argument of condition must be type boolean, not text")
		}
		f, _ := strconv.ParseFloat(t, 64)
		return f != 0, true
	}
	v.e.fail("bad condition value %T", x)
	return
}

func (v *env) boolean(b bool) any {
	if v.e.Dialect == Postgres {
		return b
	}
	if b {
		return int64(1)
	}
	return int64(0)
}

func (v *env) eval(x expr) any {
	e := v.e
	switch t := x.(type) {
	case *eLit:
		return t.v
	case *eParam:
		return v.args[t.n]
	case *eCol:
		if len(v.alias) > 0 && t.qual == nil && v.out != nil {
			for i, a := range v.alias {
				if a.alias != nil && sameIdent(e, t.name, *a.alias) {
					return v.out[i]
				}
			}
		}
		b, i := v.col(t)
		if b.row == nil {
			return nil
		}
		return b.row[i]
	case *eRow:
		r := make(row, len(t.items))
		for i := range t.items {
			r[i] = v.eval(t.items[i])
		}
		return r
	case *eUn:
		a := v.eval(t.x)
		if t.op == "NOT" {
			b, k := v.truth(a)
			if !k {
				return nil
			}
			return v.boolean(!b)
		}
		switch n := a.(type) {
		case nil:
			return nil
		case int64:
			return -n
		case float64:
			return -n
		}
		e.fail("cannot negate %T", a)
	case *eBin:
		switch t.op {
		case "AND", "OR":
			lv, lk := v.truth(v.eval(t.l))
			rv, rk := v.truth(v.eval(t.r))
			if t.op == "AND" {
				if lk && !lv || rk && !rv {
					return v.boolean(false)
				}
				if lk && rk {
					return v.boolean(true)
				}
				return nil
			}
			if lk && lv || rk && rv {
				return v.boolean(true)
			}
			if lk && rk {
				return v.boolean(false)
			}
			return nil
		case "=", "<>", "<", "<=", ">", ">=", "<=>":
			r := v.compareExpr(t.op, t.l, t.r)
			return r
		case "||":
			a, b := v.eval(t.l), v.eval(t.r)
			if a == nil || b == nil {
				return nil
			}
			return fmt.Sprint(a) + fmt.Sprint(b)
		}
		a, b := v.eval(t.l), v.eval(t.r)
		if a == nil || b == nil {
			return nil
		}
		ai, aok := a.(int64)
		bi, bok := b.(int64)
		if aok && bok {
			switch t.op {
			case "+":
				return ai + bi
			case "-":
				return ai - bi
			case "*":
				return ai * bi
			case "%":
				if bi == 0 {
					return nil
				}
				return ai % bi
			case "/":
				if bi == 0 {
					if e.Dialect == Postgres {
						e.fail("division by zero")
					}
					return nil
				}
				if e.Dialect == MySQL {
					return float64(ai) / float64(bi)
				}
				return ai / bi
			}
		}
		af, aok := e.num(a)
		bf, bok := e.num(b)
		if !aok || !bok {
			e.fail("operator %s on %T and %T", t.op, a, b)
		}
		switch t.op {
		case "+":
			return af + bf
		case "-":
			return af - bf
		case "*":
			return af * bf
		case "/":
			return af / bf
		case "%":
			return math.Mod(af, bf)
		}
	case *eIs:
		a := v.eval(t.x)
		var r bool
		switch t.what {
		case "NULL":
			if rr, ok := a.(row); ok {
				r = true
				for _, q := range rr {
					if q != nil {
						r = false
					}
				}
			} else {
				r = a == nil
			}
		case "DISTINCT":
			b := v.eval(t.y)
			b = e.coerce(kindOf(v, t.x), b)
			if a == nil || b == nil {
				r = !(a == nil && b == nil)
			} else {
				r = e.cmp(a, b) != 0
			}
		default:
			b, k := v.truth(a)
			r = k && b == (t.what == "TRUE")
		}
		return v.boolean(r != t.not)
	case *eIn:
		var res any
		if t.sub != nil {
			cols, rows := e.runSelect(t.sub, v)
			_ = cols
			a := v.eval(t.x)
			found, unk := false, false
			for _, rw := range rows {
				var rv any = row(rw)
				if len(rw) == 1 {
					rv = rw[0]
				}
				c := v.cmpVals("=", a, rv)
				if c == nil {
					unk = true
				} else if b, _ := v.truth(c); b {
					found = true
				}
			}
			res = inRes(v, found, unk)
		} else {
			found, unk := false, false
			for _, it := range t.list {
				c := v.compareExpr("=", t.x, it)
				if c == nil {
					unk = true
				} else if b, _ := v.truth(c); b {
					found = true
				}
			}
			if len(t.list) == 0 {
				v.eval(t.x)
			}
			res = inRes(v, found, unk)
		}
		if t.not {
			b, k := v.truth(res)
			if !k {
				return nil
			}
			return v.boolean(!b)
		}
		return res
	case *eBetween:
		l, lk := v.truth(v.compareExpr(">=", t.x, t.lo))
		h, hk := v.truth(v.compareExpr("<=", t.x, t.hi))
		if lk && !l || hk && !h {
			return v.boolean(t.not)
		}
		if lk && hk {
			return v.boolean(!t.not)
		}
		return nil
	case *eLike:
		a, b := v.eval(t.x), v.eval(t.pat)
		var esc any
		if t.esc != nil {
			esc = v.eval(t.esc)
		} else if e.Dialect != SQLite {
			esc = `\`
		}
		if a == nil || b == nil {
			return nil
		}
		as, ok1 := str(a)
		bs, ok2 := str(b)
		if !ok1 || !ok2 {
			if e.Dialect == Postgres {
				e.fail("operator does not exist: %T LIKE %T", a, b)
			}
			as, bs = fmt.Sprint(a), fmt.Sprint(b)
		}
		es, _ := esc.(string)
		if t.ci {
			as, bs = strings.ToLower(as), strings.ToLower(bs)
		}
		return v.boolean(like(as, bs, es) != t.not)
	case *eFunc:
		return v.fn(t)
	case *eCase:
		for _, w := range t.whens {
			var c any
			if t.op != nil {
				c = v.compareExpr("=", t.op, w[0])
			} else {
				c = v.eval(w[0])
			}
			if b, k := v.truth(c); k && b {
				return v.eval(w[1])
			}
		}
		if t.els != nil {
			return v.eval(t.els)
		}
		return nil
	case *eSub:
		_, rows := e.runSelect(t.s, v)
		if len(rows) == 0 {
			return nil
		}
		if len(rows) > 1 && e.Dialect != SQLite {
			e.fail("subquery returns more than one row")
		}
		if len(rows[0]) == 1 {
			return rows[0][0]
		}
		return row(rows[0])
	case *eExists:
		_, rows := e.runSelect(t.s, v)
		return v.boolean(len(rows) > 0)
	case *eCast:
		a := v.eval(t.x)
		if a == nil {
			return nil
		}
		switch {
		case strings.Contains(t.ty, "INT") || t.ty == "SIGNED" || t.ty == "UNSIGNED":
			return e.coerce(KInt, a)
		case strings.Contains(t.ty, "CHAR") || t.ty == "TEXT":
			return fmt.Sprint(a)
		case strings.Contains(t.ty, "FLOAT") || strings.Contains(t.ty, "DOUBLE") || t.ty == "REAL" || t.ty == "DECIMAL" || t.ty == "NUMERIC":
			return e.coerce(KFloat, a)
		}
		return a
	case *eDefault:
		e.fail("DEFAULT is not allowed here")
	case *eStar:
		e.fail("* is not allowed here")
	}
	e.fail("cannot evaluate %T", x)
	return nil
}

func sameIdent(e *Engine, a, b ident) bool {
	n := b.name
	if e.Dialect == Postgres && !b.quoted {
		n = strings.ToLower(n)
	}
	return e.same(a, n)
}

func inRes(v *env, found, unk bool) any {
	if found {
		return v.boolean(true)
	}
	if unk {
		return nil
	}
	return v.boolean(false)
}

func like(s, p, esc string) bool {
	if p == "" {
		return s == ""
	}
	pr := []rune(p)
	switch {
	case esc != "" && string(pr[0]) == esc && len(pr) > 1:
		q := string(pr[1])
		return strings.HasPrefix(s, q) && like(s[len(q):], string(pr[2:]), esc)
	case pr[0] == '%':
		rest := string(pr[1:])
		for i := 0; i <= len(s); i++ {
			if like(s[i:], rest, esc) {
				return true
			}
		}
		return false
	case pr[0] == '_':
		if s == "" {
			return false
		}
		n := len(string([]rune(s)[0]))
		return like(s[n:], string(pr[1:]), esc)
	}
	q := string(pr[0])
	return strings.HasPrefix(s, q) && like(s[len(q):], string(pr[1:]), esc)
}

func (v *env) compareExpr(op string, l, r expr) any {
	lr, lok := l.(*eRow)
	rr, rok := r.(*eRow)
	if lok && rok {
		if len(lr.items) != len(rr.items) {
			v.e.fail("row size mismatch: %d and %d", len(lr.items), len(rr.items))
		}
		a, b := make(row, len(lr.items)), make(row, len(lr.items))
		for i := range lr.items {
			a[i], b[i] = v.pair(lr.items[i], rr.items[i])
		}
		return v.cmpVals(op, a, b)
	}
	if lok || rok {
		a, b := v.eval(l), v.eval(r)
		if lok && isRowSub(r) || rok && isRowSub(l) {
			if a == nil || b == nil {
				return nil
			}
			return v.cmpVals(op, a, b)
		}
		v.e.fail("row value compared with a scalar")
	}
	a, b := v.pair(l, r)
	return v.cmpVals(op, a, b)
}

func isRowSub(x expr) bool {
	s, ok := x.(*eSub)
	return ok && len(s.s.items) > 1
}

func (v *env) pair(l, r expr) (any, any) {
	a, b := v.eval(l), v.eval(r)
	kl, kr := kindOf(v, l), kindOf(v, r)
	if kl != KAny && kr == KAny && b != nil {
		b = v.e.coerce(kl, b)
	}
	if kr != KAny && kl == KAny && a != nil {
		a = v.e.coerce(kr, a)
	}
	return a, b
}

func (v *env) cmpVals(op string, a, b any) any {
	ar, aok := a.(row)
	br, bok := b.(row)
	if aok != bok {
		v.e.fail("row value compared with a scalar")
	}
	if aok {
		if len(ar) != len(br) {
			v.e.fail("row size mismatch")
		}
		switch op {
		case "=", "<>":
			unk := false
			for i := range ar {
				if ar[i] == nil || br[i] == nil {
					unk = true
				} else if v.e.cmp(ar[i], br[i]) != 0 {
					return v.boolean(op == "<>")
				}
			}
			if unk {
				return nil
			}
			return v.boolean(op == "=")
		}
		for i := range ar {
			if ar[i] == nil || br[i] == nil {
				return nil
			}
			c := v.e.cmp(ar[i], br[i])
			if c != 0 {
				return v.boolean(opHolds(op, c))
			}
		}
		return v.boolean(op == "<=" || op == ">=")
	}
	if op == "<=>" {
		if a == nil || b == nil {
			return v.boolean(a == nil && b == nil)
		}
		return v.boolean(v.e.cmp(a, b) == 0)
	}
	if a == nil || b == nil {
		return nil
	}
	return v.boolean(opHolds(op, v.e.cmp(a, b)))
}

func opHolds(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	}
	return c >= 0
}

func isAgg(n string) bool {
	switch n {
	case "COUNT", "SUM", "MIN", "MAX", "AVG":
		return true
	}
	return false
}

func (v *env) fn(f *eFunc) any {
	e := v.e
	if isAgg(f.name) {
		if v.group == nil {
			e.fail("aggregate %s is not allowed here", f.name)
		}
		var vals []any
		for _, g := range v.group {
			if f.star {
				vals = append(vals, int64(1))
				continue
			}
			if x := g.eval(f.args[0]); x != nil {
				dup := false
				if f.distinct {
					for _, o := range vals {
						if e.cmp(o, x) == 0 {
							dup = true
						}
					}
				}
				if !dup {
					vals = append(vals, x)
				}
			}
		}
		switch f.name {
		case "COUNT":
			return int64(len(vals))
		case "MIN", "MAX":
			var m any
			for _, x := range vals {
				if m == nil || f.name == "MIN" && e.cmp(x, m) < 0 || f.name == "MAX" && e.cmp(x, m) > 0 {
					m = x
				}
			}
			return m
		}
		if len(vals) == 0 {
			return nil
		}
		var fs float64
		var is int64
		allInt := true
		for _, x := range vals {
			n, ok := e.num(x)
			if !ok {
				e.fail("%s(%T)", f.name, x)
			}
			fs += n
			if i, ok := x.(int64); ok {
				is += i
			} else {
				allInt = false
			}
		}
		if f.name == "AVG" {
			return fs / float64(len(vals))
		}
		if allInt {
			return is
		}
		return fs
	}
	if f.name == "VALUES" {
		c, ok := f.args[0].(*eCol)
		if !ok || v.vals == nil {
			return nil
		}
		for i := range v.vals.cols {
			if e.same(c.name, v.vals.cols[i].Name) {
				return v.vals.row[i]
			}
		}
		e.fail("unknown column %q in VALUES()", c.name.name)
	}
	var a []any
	for _, x := range f.args {
		a = append(a, v.eval(x))
	}
	switch f.name {
	case "COALESCE", "IFNULL":
		for _, x := range a {
			if x != nil {
				return x
			}
		}
		return nil
	case "NULLIF":
		if len(a) == 2 && a[0] != nil && a[1] != nil && e.cmp(a[0], a[1]) == 0 {
			return nil
		}
		return a[0]
	case "ISNULL":
		return v.boolean(a[0] == nil)
	case "CONCAT":
		s := ""
		for _, x := range a {
			if x == nil {
				return nil
			}
			s += fmt.Sprint(x)
		}
		return s
	}
	if a[0] == nil {
		return nil
	}
	switch f.name {
	case "LOWER":
		return strings.ToLower(fmt.Sprint(a[0]))
	case "UPPER":
		return strings.ToUpper(fmt.Sprint(a[0]))
	case "LENGTH":
		return int64(len(fmt.Sprint(a[0])))
	case "ABS":
		switch n := a[0].(type) {
		case int64:
			if n < 0 {
				return -n
			}
			return n
		case float64:
			return math.Abs(n)
		}
	}
	e.fail("function %s(%T)", f.name, a[0])
	return nil
}

func hasAgg(x expr) bool {
	found := false
	walk(x, func(q expr) bool {
		if f, ok := q.(*eFunc); ok && isAgg(f.name) {
			found = true
		}
		return !found
	})
	return found
}

func walk(x expr, f func(expr) bool) {
	if x == nil || !f(x) {
		return
	}
	switch t := x.(type) {
	case *eRow:
		for _, i := range t.items {
			walk(i, f)
		}
	case *eUn:
		walk(t.x, f)
	case *eBin:
		walk(t.l, f)
		walk(t.r, f)
	case *eIs:
		walk(t.x, f)
		if t.y != nil {
			walk(t.y, f)
		}
	case *eIn:
		walk(t.x, f)
		for _, i := range t.list {
			walk(i, f)
		}
	case *eBetween:
		walk(t.x, f)
		walk(t.lo, f)
		walk(t.hi, f)
	case *eLike:
		walk(t.x, f)
		walk(t.pat, f)
	case *eFunc:
		for _, i := range t.args {
			walk(i, f)
		}
	case *eCase:
		if t.op != nil {
			walk(t.op, f)
		}
		for _, w := range t.whens {
			walk(w[0], f)
			walk(w[1], f)
		}
		if t.els != nil {
			walk(t.els, f)
		}
	case *eCast:
		walk(t.x, f)
	}
}

func (e *Engine) scanOrder(n int) []int {
	o := make([]int, n)
	for i := range o {
		if e.Reverse {
			o[i] = n - 1 - i
		} else {
			o[i] = i
		}
	}
	return o
}

func (e *Engine) tableBinding(t *Table, alias *ident) *binding {
	b := &binding{cols: t.Cols, names: []string{t.Name}, db: t.DB}
	if alias != nil {
		n := alias.name
		if e.Dialect == Postgres && !alias.quoted {
			n = strings.ToLower(n)
		}
		b.names = []string{n}
		b.db = ""
		b.alias = true
	}
	return b
}

// check resolves every column of an expression even if no row is evaluated.
func (v *env) check(x expr) {
	if x == nil {
		return
	}
	walk(x, func(q expr) bool {
		switch t := q.(type) {
		case *eCol:
			if t.qual == nil {
				for _, a := range v.alias {
					if a.alias != nil && sameIdent(v.e, t.name, *a.alias) {
						return true
					}
				}
			}
			v.col(t)
		case *eFunc:
			if t.name == "VALUES" {
				return false
			}
		case *eBin:
			lr, lok := t.l.(*eRow)
			rr, rok := t.r.(*eRow)
			if lok && rok && len(lr.items) != len(rr.items) {
				v.e.fail("row size mismatch: %d and %d", len(lr.items), len(rr.items))
			}
		}
		return true
	})
}

func (e *Engine) runSelect(s *selectStmt, parent *env) ([]string, [][]any) {
	base := &env{e: e, parent: parent, args: parent.args}
	type src struct {
		b    *binding
		rows [][]any
		it   fromItem
	}
	var srcs []src
	for _, it := range s.from {
		if it.sub != nil {
			names, rows := e.runSelect(it.sub, parent)
			b := &binding{alias: true}
			if it.alias != nil {
				b.names = []string{it.alias.name}
			}
			for _, n := range names {
				b.cols = append(b.cols, Column{Name: n})
			}
			srcs = append(srcs, src{b, rows, it})
			continue
		}
		t := e.find(it.db, it.table)
		rows := make([][]any, 0, len(t.Rows))
		for _, i := range e.scanOrder(len(t.Rows)) {
			rows = append(rows, t.Rows[i])
		}
		srcs = append(srcs, src{e.tableBinding(t, it.alias), rows, it})
	}
	// expand *
	var items []selItem
	for _, it := range s.items {
		st, ok := it.e.(*eStar)
		if !ok {
			items = append(items, it)
			continue
		}
		if len(srcs) == 0 {
			e.fail("SELECT * with no tables")
		}
		n := 0
		for _, sr := range srcs {
			if st.qual != nil {
				ok := false
				for _, nm := range sr.b.names {
					ok = ok || e.same(*st.qual, nm)
				}
				if !ok {
					continue
				}
			}
			n++
			for _, c := range sr.b.cols {
				q := ident{name: c.Name, quoted: true}
				col := &eCol{name: q}
				if len(sr.b.names) > 0 {
					col.qual = &ident{sr.b.names[0], true}
				}
				items = append(items, selItem{e: col})
			}
		}
		if n == 0 {
			e.fail("missing FROM-clause entry for %q", st.qual.name)
		}
	}
	probe := &env{e: e, parent: parent, args: parent.args}
	for _, sr := range srcs {
		probe.b = append(probe.b, sr.b)
	}
	names := make([]string, len(items))
	for i, it := range items {
		probe.check(it.e)
		switch {
		case it.alias != nil:
			names[i] = it.alias.name
			if e.Dialect == Postgres && !it.alias.quoted {
				names[i] = strings.ToLower(names[i])
			}
		default:
			if c, ok := it.e.(*eCol); ok {
				b, k := probe.col(c)
				names[i] = b.cols[k].Name
			} else {
				names[i] = "?column?"
			}
		}
		if r, ok := it.e.(*eRow); ok && len(r.items) > 1 && e.Dialect != Postgres {
			e.fail("operand should contain 1 column")
		}
	}
	probe.check(s.where)
	if s.where != nil && hasAgg(s.where) {
		e.fail("aggregate functions are not allowed in WHERE")
	}
	probe.alias = items
	for _, g := range s.group {
		probe.check(g)
	}
	if s.having != nil {
		probe.check(s.having)
	}
	for _, o := range s.order {
		probe.check(o.e)
	}
	probe.alias = nil

	// join
	envs := []*env{base}
	for _, sr := range srcs {
		var next []*env
		for _, v := range envs {
			matched := false
			for _, r := range sr.rows {
				b := *sr.b
				b.row = r
				n := &env{e: e, parent: parent, args: parent.args, b: append(append([]*binding(nil), v.b...), &b)}
				if sr.it.on != nil {
					if ok, k := n.truth(n.eval(sr.it.on)); !k || !ok {
						continue
					}
				}
				matched = true
				next = append(next, n)
			}
			if sr.it.join == "LEFT" && !matched {
				b := *sr.b
				b.row = make([]any, len(sr.b.cols))
				next = append(next, &env{e: e, parent: parent, args: parent.args, b: append(append([]*binding(nil), v.b...), &b)})
			}
		}
		envs = next
	}
	if s.where != nil {
		var keep []*env
		for _, v := range envs {
			if ok, k := v.truth(v.eval(s.where)); k && ok {
				keep = append(keep, v)
			}
		}
		envs = keep
	}
	agg := len(s.group) > 0 || s.having != nil
	for _, it := range items {
		agg = agg || hasAgg(it.e)
	}
	for _, o := range s.order {
		agg = agg || hasAgg(o.e)
	}
	if agg {
		e.checkGroup(s, items, probe)
		var groups []*env
		keys := map[string]*env{}
		for _, v := range envs {
			k := ""
			for _, g := range s.group {
				k += fmt.Sprintf("%T:%v|", v.evalGroup(g, items), v.evalGroup(g, items))
			}
			if g, ok := keys[k]; ok {
				g.group = append(g.group, v)
				continue
			}
			g := &env{e: e, parent: v.parent, args: v.args, b: v.b, group: []*env{v}}
			keys[k] = g
			groups = append(groups, g)
		}
		if len(s.group) == 0 && len(groups) == 0 {
			g := &env{e: e, parent: parent, args: parent.args, group: []*env{}}
			for _, sr := range srcs {
				b := *sr.b
				b.row = nil
				g.b = append(g.b, &b)
			}
			groups = append(groups, g)
		}
		envs = groups
		if s.having != nil {
			var keep []*env
			for _, v := range envs {
				if ok, k := v.truth(v.eval(s.having)); k && ok {
					keep = append(keep, v)
				}
			}
			envs = keep
		}
	}
	type res struct {
		out  []any
		keys []any
	}
	results := make([]res, 0, len(envs))
	for _, v := range envs {
		out := make([]any, len(items))
		for i, it := range items {
			out[i] = v.eval(it.e)
		}
		r := res{out: out}
		for _, o := range s.order {
			if l, ok := o.e.(*eLit); ok {
				if n, ok := l.v.(int64); ok {
					if n < 1 || int(n) > len(out) {
						e.fail("ORDER BY position %d is not in select list", n)
					}
					r.keys = append(r.keys, out[n-1])
					continue
				}
			}
			v.alias, v.out = items, out
			r.keys = append(r.keys, v.eval(o.e))
			v.alias, v.out = nil, nil
		}
		results = append(results, r)
	}
	if s.distinct {
		seen := map[string]bool{}
		var keep []res
		for _, r := range results {
			k := fmt.Sprintf("%#v", r.out)
			if !seen[k] {
				seen[k] = true
				keep = append(keep, r)
			}
		}
		results = keep
	}
	if len(s.order) > 0 {
		sort.SliceStable(results, func(i, j int) bool {
			return e.orderLess(s.order, results[i].keys, results[j].keys)
		})
	}
	lo, hi := e.limits(s.limit, s.offset, parent, len(results))
	var rows [][]any
	for _, r := range results[lo:hi] {
		rows = append(rows, r.out)
	}
	return names, rows
}

func (v *env) evalGroup(g expr, items []selItem) any {
	if l, ok := g.(*eLit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(items) {
			return v.eval(items[n-1].e)
		}
	}
	if c, ok := g.(*eCol); ok && c.qual == nil {
		if b, _ := v.lookup(c); b == nil {
			for _, it := range items {
				if it.alias != nil && sameIdent(v.e, c.name, *it.alias) {
					return v.eval(it.e)
				}
			}
		}
	}
	return v.eval(g)
}

func (e *Engine) limits(limit, offset expr, v *env, n int) (int, int) {
	get := func(x expr, what string) (int, bool) {
		if x == nil {
			return 0, false
		}
		val := v.eval(x)
		switch t := val.(type) {
		case nil:
			if e.Dialect == Postgres {
				return 0, false
			}
		case int64:
			if t < 0 {
				if e.Dialect == SQLite {
					return 0, false
				}
				e.fail("%s must not be negative", what)
			}
			if t > int64(n) {
				t = int64(n)
			}
			return int(t), true
		case float64:
			if t > float64(n) {
				return n, true
			}
		}
		e.fail("bad %s %v", what, val)
		return 0, false
	}
	lo, _ := get(offset, "OFFSET")
	if lo > n {
		lo = n
	}
	hi := n
	if l, ok := get(limit, "LIMIT"); ok && lo+l < hi {
		hi = lo + l
	}
	return lo, hi
}

func (e *Engine) orderLess(order []orderItem, a, b []any) bool {
	for i, o := range order {
		c := e.orderCmp(a[i], b[i], o)
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func (e *Engine) orderCmp(a, b any, o orderItem) int {
	if ar, ok := a.(row); ok {
		br := b.(row)
		for i := range ar {
			if c := e.orderCmp(ar[i], br[i], o); c != 0 {
				return c
			}
		}
		return 0
	}
	c := 0
	switch {
	case a == nil && b == nil:
		return 0
	case a == nil || b == nil:
		small := e.Dialect != Postgres // NULL sorts first ascending
		switch o.nulls {
		case "FIRST":
			small = !o.desc
		case "LAST":
			small = o.desc
		}
		c = 1
		if (a == nil) == small {
			c = -1
		}
	default:
		c = e.cmp(a, b)
	}
	if o.desc {
		c = -c
	}
	return c
}

// checkGroup applies the only-full-group-by rule of MySQL and PostgreSQL.
func (e *Engine) checkGroup(s *selectStmt, items []selItem, v *env) {
	if e.Dialect == SQLite {
		return
	}
	type ck struct {
		b *binding
		i int
	}
	in := map[ck]bool{}
	for _, g := range s.group {
		if l, ok := g.(*eLit); ok {
			if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(items) {
				g = items[n-1].e
			}
		}
		if c, ok := g.(*eCol); ok {
			if b, i := v.lookup(c); b != nil {
				in[ck{b, i}] = true
			}
		}
	}
	// functional dependence on the primary key
	for _, it := range s.from {
		if it.table == nil {
			continue
		}
		t := e.find(it.db, it.table)
		for _, b := range v.b {
			if len(b.cols) == 0 || &b.cols[0] != &t.Cols[0] || len(t.PK) == 0 {
				continue
			}
			all := true
			for _, k := range t.PK {
				all = all && in[ck{b, k}]
			}
			if all {
				for i := range b.cols {
					in[ck{b, i}] = true
				}
			}
		}
	}
	verify := func(x expr) {
		walk(x, func(q expr) bool {
			switch t := q.(type) {
			case *eFunc:
				return !isAgg(t.name)
			case *eCol:
				b, i := v.lookup(t)
				if b != nil && !in[ck{b, i}] {
					e.fail("column %q must appear in the GROUP BY clause or be used in an aggregate function", t.name.name)
				}
			}
			return true
		})
	}
	for _, it := range items {
		verify(it.e)
	}
	for _, o := range s.order {
		if l, ok := o.e.(*eLit); ok {
			_ = l
			continue
		}
		verify(o.e)
	}
	if s.having != nil {
		verify(s.having)
	}
}

// ---- writing ----

// store converts a bound value to the column's type; a value of another type
// is an error (the checks never store one).
func (e *Engine) store(c *Column, v any) any {
	if v == nil {
		if c.NotNull {
			e.fail("null value in column %q violates not-null constraint", c.Name)
		}
		return nil
	}
	bad := func() any {
		e.fail("column %q is of type %s but the value is %T(%v)", c.Name, c.Kind, v, v)
		return nil
	}
	switch c.Kind {
	case KInt:
		switch x := v.(type) {
		case int64:
			return x
		case float64:
			if x == math.Trunc(x) {
				return int64(x)
			}
		case string, blob:
			s, _ := str(x)
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				return i
			}
		}
		return bad()
	case KFloat:
		switch x := v.(type) {
		case float64:
			return x
		case int64:
			return float64(x)
		}
		return bad()
	case KText:
		switch x := v.(type) {
		case string:
			return x
		case blob:
			return string(x)
		}
		return bad()
	case KBlob:
		switch x := v.(type) {
		case string:
			return blob(x)
		case blob:
			return x
		}
		return bad()
	case KBool:
		switch x := v.(type) {
		case bool:
			if e.Dialect == Postgres {
				return x
			}
			if x {
				return int64(1)
			}
			return int64(0)
		case int64:
			if e.Dialect != Postgres && (x == 0 || x == 1) {
				return x
			}
		}
		return bad()
	case KTime:
		if t, ok := v.(time.Time); ok {
			return t.UTC()
		}
		if _, ok := v.(string); ok {
			return e.coerce(KTime, v)
		}
		return bad()
	}
	return v
}

func (e *Engine) keySets(t *Table) [][]int {
	var out [][]int
	if len(t.PK) > 0 {
		out = append(out, t.PK)
	}
	for i := range t.Cols {
		if t.Cols[i].Unique {
			out = append(out, []int{i})
		}
	}
	return out
}

// conflict finds a row (other than skip) that shares a key with r.
func (e *Engine) conflict(t *Table, keys [][]int, r []any, skip int) int {
	for _, ks := range keys {
	next:
		for i, o := range t.Rows {
			if i == skip {
				continue
			}
			for _, k := range ks {
				if r[k] == nil || o[k] == nil || e.cmp(r[k], o[k]) != 0 {
					continue next
				}
			}
			return i
		}
	}
	return -1
}

type result struct {
	cols     []string
	rows     [][]any
	affected int64
	lastID   int64
	hasID    bool
	lock     string
	write    bool
}

func (e *Engine) run(p *parsed, args []any) (res *result, err error) {
	saved := make([]*Table, len(e.Tables))
	for i, t := range e.Tables {
		saved[i] = t.clone()
	}
	defer func() {
		if r := recover(); r != nil {
			ee, ok := r.(*execError)
			if !ok {
				panic(r)
			}
			for i, t := range saved {
				*e.Tables[i] = *t
			}
			res, err = nil, ee
		}
	}()
	if len(args) != p.nparams {
		e.fail("statement has %d parameters but %d arguments were given", p.nparams, len(args))
	}
	root := &env{e: e, args: args}
	switch s := p.stmt.(type) {
	case *selectStmt:
		c, r := e.runSelect(s, root)
		return &result{cols: c, rows: r, lock: s.lock}, nil
	case *insertStmt:
		return e.runInsert(s, root), nil
	case *updateStmt:
		return e.runUpdate(s, root), nil
	case *deleteStmt:
		return e.runDelete(s, root), nil
	}
	e.fail("unknown statement")
	return
}

func (e *Engine) returning(items []selItem, t *Table, alias *ident, rows [][]any, root *env, res *result) {
	if items == nil {
		return
	}
	res.cols = nil
	b := e.tableBinding(t, alias)
	var exp []selItem
	for _, it := range items {
		if _, ok := it.e.(*eStar); ok {
			for _, c := range t.Cols {
				exp = append(exp, selItem{e: &eCol{name: ident{c.Name, true}}})
			}
			continue
		}
		exp = append(exp, it)
	}
	probe := &env{e: e, args: root.args, b: []*binding{b}}
	for _, it := range exp {
		probe.check(it.e)
		n := "?column?"
		if it.alias != nil {
			n = it.alias.name
		} else if c, ok := it.e.(*eCol); ok {
			bb, k := probe.col(c)
			n = bb.cols[k].Name
		}
		res.cols = append(res.cols, n)
	}
	for _, r := range rows {
		bb := *b
		bb.row = r
		v := &env{e: e, args: root.args, b: []*binding{&bb}}
		var out []any
		for _, it := range exp {
			out = append(out, v.eval(it.e))
		}
		res.rows = append(res.rows, out)
	}
}

func (e *Engine) assign(t *Table, set []setItem, v *env, old []any) []any {
	n := append([]any(nil), old...)
	seen := map[int]bool{}
	for _, s := range set {
		i := e.colIdx(t, s.col)
		if seen[i] && e.Dialect == Postgres {
			e.fail("multiple assignments to same column %q", s.col.name)
		}
		seen[i] = true
		c := &t.Cols[i]
		if c.Generated != nil {
			e.fail("column %q is generated and cannot be assigned", c.Name)
		}
		if _, ok := s.e.(*eDefault); ok {
			n[i] = e.store(c, nil)
			continue
		}
		// MySQL evaluates assignments left to right on the updated row
		if e.Dialect == MySQL {
			v.b[0].row = n
		}
		val := v.eval(s.e)
		if _, ok := val.(row); ok {
			e.fail("row value assigned to a column")
		}
		n[i] = e.store(c, val)
	}
	return n
}

func (e *Engine) runInsert(s *insertStmt, root *env) *result {
	t := e.find(s.db, s.table)
	res := &result{write: true}
	var cols []int
	if s.cols == nil {
		if !s.defaults {
			for i := range t.Cols {
				if t.Cols[i].Generated == nil {
					cols = append(cols, i)
				}
			}
		}
	} else {
		seen := map[int]bool{}
		for _, c := range s.cols {
			i := e.colIdx(t, c)
			if seen[i] {
				e.fail("column %q specified more than once", c.name)
			}
			seen[i] = true
			if t.Cols[i].Generated != nil {
				e.fail("column %q is generated and cannot be inserted", c.name)
			}
			cols = append(cols, i)
		}
	}
	for _, c := range s.conflicts {
		if c.target != nil {
			e.matchTarget(t, c.target)
		}
		probe := &env{e: e, args: root.args, b: []*binding{e.tableBinding(t, s.alias), {names: []string{"excluded"}, hidden: true, cols: t.Cols, alias: true}}}
		for _, st := range c.update {
			e.colIdx(t, st.col)
			probe.check(st.e)
		}
	}
	for _, st := range s.onDup {
		e.colIdx(t, st.col)
	}
	touched := map[int]bool{}
	var ret [][]any
	var retIdx []int
	for _, vals := range s.rows {
		if len(vals) != len(cols) {
			e.fail("INSERT has %d target columns but %d values", len(cols), len(vals))
		}
		r := make([]any, len(t.Cols))
		given := make([]bool, len(t.Cols))
		for i, x := range vals {
			if _, ok := x.(*eDefault); ok {
				continue
			}
			val := root.eval(x)
			if _, ok := val.(row); ok {
				e.fail("row value in VALUES")
			}
			c := &t.Cols[cols[i]]
			if c.AutoIncr && (val == nil && e.Dialect != Postgres || e.Dialect == MySQL && val == int64(0)) {
				continue
			}
			r[cols[i]] = e.store(c, val)
			given[cols[i]] = true
		}
		t.Seq++
		autoCol, oldAuto := -1, t.Auto
		for i := range t.Cols {
			c := &t.Cols[i]
			switch {
			case c.Generated != nil:
				r[i] = c.Generated(t.Seq)
			case c.AutoIncr && !given[i]:
				t.Auto++
				r[i] = t.Auto
				autoCol = i
			case c.AutoIncr:
				if n, ok := r[i].(int64); ok && n > t.Auto && e.Dialect != Postgres {
					t.Auto = n
				}
				if e.Dialect != Postgres {
					autoCol = i
				}
			case !given[i] && c.NotNull:
				e.fail("column %q has no default value and none was given", c.Name)
			}
		}
		keys := e.keySets(t)
		done := false
		// which conflict clause applies
		hit := -1
		var cl *conflictClause
		if len(s.conflicts) > 0 {
			for ci := range s.conflicts {
				c := &s.conflicts[ci]
				var ks [][]int
				if c.target == nil {
					ks = keys
				} else {
					ks = [][]int{e.matchTarget(t, c.target)}
				}
				if h := e.conflict(t, ks, r, -1); h >= 0 {
					hit, cl = h, c
					break
				}
			}
		}
		upd := func(set []setItem, where expr, h int) {
			if touched[h] && e.Dialect == Postgres {
				e.fail("ON CONFLICT DO UPDATE command cannot affect row a second time")
			}
			ex := &binding{names: []string{"excluded"}, hidden: true, cols: t.Cols, row: r, alias: true}
			b := e.tableBinding(t, s.alias)
			b.row = t.Rows[h]
			v := &env{e: e, args: root.args, b: []*binding{b}}
			if e.Dialect == MySQL {
				v.vals = ex
				if s.rowAlias != nil {
					ex.names = []string{s.rowAlias.name}
					v.b = append(v.b, ex)
				}
			} else {
				v.b = append(v.b, ex)
			}
			if where != nil {
				if ok, k := v.truth(v.eval(where)); !k || !ok {
					return
				}
			}
			n := e.assign(t, set, v, t.Rows[h])
			if c := e.conflict(t, keys, n, h); c >= 0 {
				panic(&execError{msg: fmt.Sprintf("%s: duplicate key in table %q on update", e.Dialect, t.Name), dup: true})
			}
			changed := fmt.Sprint(n) != fmt.Sprint(t.Rows[h])
			t.Rows[h] = n
			touched[h] = true
			retIdx = append(retIdx, h)
			switch {
			case e.Dialect != MySQL:
				res.affected++
			case changed:
				res.affected += 2
			}
			if e.Dialect == MySQL {
				for i := range t.Cols {
					if t.Cols[i].AutoIncr {
						res.lastID, res.hasID = n[i].(int64), true
					}
				}
			}
		}
		switch {
		case cl != nil && cl.nothng:
			done = true
		case cl != nil:
			upd(cl.update, cl.where, hit)
			done = true
		default:
			if h := e.conflict(t, keys, r, -1); h >= 0 {
				switch {
				case s.onDup != nil:
					upd(s.onDup, nil, h)
					done = true
				case s.ignore:
					done = true
				case s.replace:
					for h >= 0 {
						t.Rows = append(append([][]any(nil), t.Rows[:h]...), t.Rows[h+1:]...)
						h = e.conflict(t, keys, r, -1)
						res.affected++
					}
				default:
					panic(&execError{msg: fmt.Sprintf("%s: duplicate key in table %q", e.Dialect, t.Name), dup: true})
				}
			}
		}
		if done {
			if autoCol >= 0 && e.Dialect == SQLite {
				t.Auto = oldAuto // AUTOINCREMENT values are not consumed by ignored rows
			}
			continue
		}
		t.Rows = append(t.Rows, r)
		retIdx = append(retIdx, len(t.Rows)-1)
		touched[len(t.Rows)-1] = true
		res.affected++
		if autoCol >= 0 {
			if e.Dialect == SQLite || !res.hasID {
				res.lastID, res.hasID = r[autoCol].(int64), true
			}
		}
	}
	if s.returning != nil {
		for _, i := range retIdx {
			ret = append(ret, t.Rows[i])
		}
		e.returning(s.returning, t, s.alias, ret, root, res)
	}
	if res.hasID {
		e.lastID = res.lastID
	} else if e.Dialect == SQLite {
		res.lastID, res.hasID = e.lastID, true // last_insert_rowid() is sticky
	}
	return res
}

func (e *Engine) matchTarget(t *Table, target []ident) []int {
	want := map[int]bool{}
	for _, c := range target {
		want[e.colIdx(t, c)] = true
	}
	for _, ks := range e.keySets(t) {
		if len(ks) != len(want) {
			continue
		}
		ok := true
		for _, k := range ks {
			ok = ok && want[k]
		}
		if ok {
			return ks
		}
	}
	e.fail("there is no unique or exclusion constraint matching the ON CONFLICT specification")
	return nil
}

// target rows of UPDATE/DELETE, in statement order.
func (e *Engine) targets(t *Table, alias *ident, where expr, order []orderItem, limit expr, root *env) []int {
	b := e.tableBinding(t, alias)
	probe := &env{e: e, args: root.args, b: []*binding{b}}
	probe.check(where)
	for _, o := range order {
		probe.check(o.e)
	}
	type hit struct {
		i    int
		keys []any
	}
	var hits []hit
	for _, i := range e.scanOrder(len(t.Rows)) {
		bb := *b
		bb.row = t.Rows[i]
		v := &env{e: e, args: root.args, b: []*binding{&bb}}
		if where != nil {
			if ok, k := v.truth(v.eval(where)); !k || !ok {
				continue
			}
		}
		h := hit{i: i}
		for _, o := range order {
			h.keys = append(h.keys, v.eval(o.e))
		}
		hits = append(hits, h)
	}
	sort.SliceStable(hits, func(a, b int) bool { return e.orderLess(order, hits[a].keys, hits[b].keys) })
	_, hi := e.limits(limit, nil, root, len(hits))
	var out []int
	for _, h := range hits[:hi] {
		out = append(out, h.i)
	}
	return out
}

func (e *Engine) runUpdate(s *updateStmt, root *env) *result {
	t := e.find(s.db, s.table)
	res := &result{write: true}
	idx := e.targets(t, s.alias, s.where, s.order, s.limit, root)
	probe := &env{e: e, args: root.args, b: []*binding{e.tableBinding(t, s.alias)}}
	for _, st := range s.set {
		i := e.colIdx(t, st.col)
		if t.Cols[i].Generated != nil {
			e.fail("column %q is generated and cannot be assigned", t.Cols[i].Name)
		}
		probe.check(st.e)
	}
	keys := e.keySets(t)
	var ret [][]any
	news := map[int][]any{}
	for _, i := range idx {
		b := e.tableBinding(t, s.alias)
		b.row = t.Rows[i]
		v := &env{e: e, args: root.args, b: []*binding{b}}
		n := e.assign(t, s.set, v, t.Rows[i])
		if fmt.Sprint(n) != fmt.Sprint(t.Rows[i]) || e.Dialect != MySQL {
			res.affected++
		}
		news[i] = n
	}
	for _, i := range idx {
		t.Rows[i] = news[i]
		ret = append(ret, news[i])
	}
	for _, i := range idx {
		if c := e.conflict(t, keys, t.Rows[i], i); c >= 0 {
			panic(&execError{msg: fmt.Sprintf("%s: duplicate key in table %q on update", e.Dialect, t.Name), dup: true})
		}
	}
	e.returning(s.returning, t, s.alias, ret, root, res)
	return res
}

func (e *Engine) runDelete(s *deleteStmt, root *env) *result {
	t := e.find(s.db, s.table)
	res := &result{write: true}
	idx := e.targets(t, s.alias, s.where, s.order, s.limit, root)
	del := map[int]bool{}
	var ret [][]any
	for _, i := range idx {
		del[i] = true
		ret = append(ret, t.Rows[i])
	}
	var keep [][]any
	for i, r := range t.Rows {
		if !del[i] {
			keep = append(keep, r)
		}
	}
	t.Rows = keep
	res.affected = int64(len(idx))
	e.returning(s.returning, t, s.alias, ret, root, res)
	return res
}
