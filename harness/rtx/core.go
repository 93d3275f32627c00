package rtx

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"iter"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"

	"vh/minisql"
	"vh/report"
)

// Ups are the options of an upsert.
type Ups struct {
	Override bool
	Omit     []string
	Keys     []string // PostgreSQL WithDuplicateKeys
}

// SelSpec is a select (or pagination) statement.
type SelSpec struct {
	Select  []string
	From    string
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	GroupBy []string
	Offset  uint64
	Limit   uint16
}

// ExSpec is an update or delete statement.
type ExSpec struct {
	Table   string
	Set     []sequel.SetClause
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

// Pages is one direction of a pager; pages hold *T.
type Pages func(ctx context.Context, db *sql.DB, cursor ...any) iter.Seq2[[]any, error]

// Getter makes clauses from one generated column getter.
type Getter struct {
	Where     func(op string, vals []any) sequel.WhereClause
	Set       func(v any) sequel.SetClause
	Asc, Desc func() sequel.OrderByClause
	Name      func() string
	Zero      func()            // calls the getter of a zero model
	Value     func(ptr any) any // value through the getter of a *T
	Arg       func(ptr any) any // driver value through the XxxValue() method
}

// Stmt is the generated statement builder.
type Stmt interface {
	sequel.Stmt
}

// Ops are the generated operations of one model in one configuration.
type Ops struct {
	Shape *Shape
	Cfg   *Cfg
	New   func() any
	Slice func(ptrs []any) any  // []T holding copies
	Elems func(slice any) []any // pointers to the elements

	InsertOne       func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Insert          func(ctx context.Context, db *sql.DB, s any) (sql.Result, error)
	UpsertOne       func(ctx context.Context, db *sql.DB, m any, o Ups) (sql.Result, error)
	Upsert          func(ctx context.Context, db *sql.DB, s any, o Ups) (sql.Result, error)
	Find            func(ctx context.Context, db *sql.DB, m any) error
	Update, Delete  func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Lock            func(ctx context.Context, tx *sql.Tx, m any, mode string) error
	Page            func(s SelSpec) (next, prev Pages)
	Query           func(ctx context.Context, db *sql.DB, s SelSpec) ([]any, error)
	QueryOne        func(ctx context.Context, db *sql.DB, s SelSpec) (any, error)
	ExUpdate, ExDel func(ctx context.Context, db *sql.DB, s ExSpec) (sql.Result, error)
	Get_            map[string]Getter
	Methods         func(ptr any) Meta
}

// Meta is what the model's own methods say.
type Meta struct {
	Columns []string
	Values  []any
}

// Cfg is one generated configuration.
type Cfg struct {
	Name    string
	Dialect minisql.Dialect
	Quote   bool
	Ops     map[string]*Ops
	Acquire func() sequel.Stmt
	Release func(sequel.Stmt)
	And, Or func(...sequel.WhereClause) sequel.WhereClause
	Locks   []string
	Own     func(ident string) map[string]Getter // getters for columns the caller describes
	Anon    *Ops                                 // a row type that only scans; rows are []any
	Shared  func() []any                         // copies of the slices hand-written models share
}

var cfgs = map[string]*Cfg{}

// Register is called by each configuration's adapter.
func Register(c *Cfg) { cfgs[c.Name] = c }

// Add registers the operations of a model.
func (c *Cfg) Add(name string, o *Ops) {
	o.Shape, o.Cfg = Named(name), c
	if c.Ops == nil {
		c.Ops = map[string]*Ops{}
	}
	c.Ops[name] = o
}

// Cfgs lists the configurations in a fixed order.
func Cfgs() []*Cfg {
	var n []string
	for k := range cfgs {
		n = append(n, k)
	}
	sort.Strings(n)
	out := make([]*Cfg, len(n))
	for i, k := range n {
		out[i] = cfgs[k]
	}
	return out
}

func (c *Cfg) models(keep func(*Shape) bool) (out []*Ops) {
	for _, s := range Shapes {
		if o := c.Ops[s.Name]; o != nil && keep(s) {
			out = append(out, o)
		}
	}
	return
}

func each(keep func(*Shape) bool) (out []*Ops) {
	for _, c := range Cfgs() {
		out = append(out, c.models(keep)...)
	}
	return
}

func keyed(s *Shape) bool  { return len(s.Keys()) > 0 }
func anyShape(*Shape) bool { return true }

var bg = context.Background()

// World is a database holding the model's table plus decoys.
type World struct {
	E   *minisql.Engine
	DB  *sql.DB
	Ops *Ops
	T   *minisql.Table

	Guarding bool
	guards   []guard
}

// NewWorld makes an empty database for a model.
func (o *Ops) NewWorld() *World {
	e := &minisql.Engine{Dialect: o.Cfg.Dialect}
	t := o.Shape.NewTable()
	e.Tables = []*minisql.Table{t}
	if o.Shape.DB != "" {
		// a table of the same name in the default database must stay untouched
		d := o.Shape.NewTable()
		d.DB = ""
		d.Rows = [][]any{o.Shape.Stored(o.Shape.Row(3, 1), o.Cfg.Dialect)}
		e.Tables = append(e.Tables, d)
	}
	return &World{E: e, DB: e.DB(), Ops: o, T: t}
}

// Load replaces the table's content by copies of rows.
func (w *World) Load(rows [][]any, auto, seq int64) {
	w.T.Rows = nil
	for _, r := range rows {
		w.T.Rows = append(w.T.Rows, append([]any(nil), r...))
	}
	w.T.Auto, w.T.Seq = auto, seq
	w.E.Reset()
}

// Rows copies the table, sorted by key.
func (w *World) Rows() [][]any {
	out := make([][]any, 0, len(w.T.Rows))
	for _, r := range w.T.Rows {
		out = append(out, append([]any(nil), r...))
	}
	w.Ops.Shape.Sort(out)
	return out
}

// Decoys renders every other table.
func (w *World) Decoys() string {
	s := ""
	for _, t := range w.E.Tables {
		if t != w.T {
			s += t.DB + "." + t.Name + ShowRows(t.Rows)
		}
	}
	return s
}

// Queries renders the statements sent since the last reset.
func (w *World) Queries() string {
	var p []string
	for _, c := range w.E.Log {
		p = append(p, fmt.Sprintf("%s %s", c.Query, Show(c.Args)))
	}
	return strings.Join(p, " ;; ")
}

// Less orders rows by key, then by everything.
func (s *Shape) Less(a, b []any) bool {
	for _, k := range s.Keys() {
		if c := Cmp(a[k], b[k]); c != 0 {
			return c < 0
		}
	}
	return Show(a) < Show(b)
}

// Sort sorts rows by key.
func (s *Shape) Sort(r [][]any) {
	sort.SliceStable(r, func(i, j int) bool { return s.Less(r[i], r[j]) })
}

// Same compares rows.
func Same(a, b []any) bool { return Show(a) == Show(b) }

// SameKey compares the key columns.
func (s *Shape) SameKey(a, b []any) bool {
	for _, k := range s.Keys() {
		if Cmp(a[k], b[k]) != 0 {
			return false
		}
	}
	return true
}

func catch(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panicked = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

func affected(r sql.Result) int64 {
	if r == nil || reflect.ValueOf(r).Kind() == reflect.Ptr && reflect.ValueOf(r).IsNil() {
		return -1
	}
	n, err := r.RowsAffected()
	if err != nil {
		return -2
	}
	return n
}

// deref follows pointers.
func deref(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return nil
		}
		return plain(rv.Elem().Interface())
	}
	return plain(v)
}

func noRows(err error) bool { return errors.Is(err, sql.ErrNoRows) }
func dup(err error) bool    { return errors.Is(err, minisql.ErrDuplicate) }

// Main runs one property.
func Main() {
	prop := os.Args[1]
	r := report.New(prop)
	props := map[string]func(*report.Run){"R01": R01, "R02": R02, "R03": R03, "R04": R04, "R05": R05, "R06": R06, "R07": R07, "R08": R08, "R09": R09, "R10": R10}
	props[prop](r)
	r.Finish()
}
