package minisql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"
)

// Call is one statement as the database received it.
type Call struct {
	Query string
	Args  []any
	Lock  string
	InTx  bool
	Err   error
}

// Engine is one database.
type Engine struct {
	Dialect Dialect
	Tables  []*Table
	// Reverse makes unordered scans return rows in the opposite order.
	Reverse bool
	// Fault is asked before every driver call; a non-nil error is injected.
	Fault func(point string) error
	// Mangle may change row i before it is delivered.
	Mangle func(i int, dest []driver.Value)
	// Yield is called before a statement executes (scheduler hook).
	Yield func(point string)
	// NoText: accept statements without executing (recording only).
	Record bool

	mu       sync.Mutex
	Log      []Call
	OpenRows int // result sets not yet closed
	Opened   int
	lastID   int64
	inTx     *[]*Table
	txOpen   int
}

var (
	cacheMu sync.RWMutex
	cache   = map[string]*parsed{}
)

func parseCached(d Dialect, q string) (*parsed, error) {
	k := d.String() + "\x00" + q
	cacheMu.RLock()
	p := cache[k]
	cacheMu.RUnlock()
	if p != nil {
		return p, nil
	}
	p, err := parseSQL(d, q)
	if err != nil {
		return nil, err
	}
	cacheMu.Lock()
	if len(cache) > 20000 {
		cache = map[string]*parsed{}
	}
	cache[k] = p
	cacheMu.Unlock()
	return p, nil
}

// Parse checks a statement's syntax and returns its number of parameters.
func Parse(d Dialect, q string) (int, error) {
	p, err := parseCached(d, q)
	if err != nil {
		return 0, err
	}
	return p.nparams, nil
}

// DB opens a database/sql handle on the engine.
func (e *Engine) DB() *sql.DB { return sql.OpenDB(connector{e}) }

// TableNamed returns a table.
func (e *Engine) TableNamed(n string) *Table {
	for _, t := range e.Tables {
		if t.Name == n {
			return t
		}
	}
	return nil
}

// Reset forgets the log and the counters (not the tables).
func (e *Engine) Reset() { e.Log, e.Opened = nil, 0 }

func (e *Engine) fault(point string) error {
	if e.Fault != nil {
		return e.Fault(point)
	}
	return nil
}

type connector struct{ e *Engine }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{e: c.e}, nil }
func (c connector) Driver() driver.Driver                        { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

type conn struct {
	e  *Engine
	tx bool
}

func (c *conn) Close() error { return nil }
func (c *conn) Begin() (driver.Tx, error) {
	if err := c.e.fault("begin"); err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	c.tx = true
	snap := make([]*Table, len(c.e.Tables))
	for i, t := range c.e.Tables {
		snap[i] = t.clone()
	}
	return &tx{c, snap}, nil
}
func (c *conn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) { return c.Begin() }

type tx struct {
	c    *conn
	snap []*Table
}

func (t *tx) Commit() error {
	t.c.tx = false
	return t.c.e.fault("commit")
}
func (t *tx) Rollback() error {
	t.c.e.mu.Lock()
	defer t.c.e.mu.Unlock()
	for i := range t.snap {
		*t.c.e.Tables[i] = *t.snap[i]
	}
	t.c.tx = false
	return nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	if err := c.e.fault("prepare"); err != nil {
		return nil, err
	}
	p, err := parseCached(c.e.Dialect, q)
	if err != nil {
		c.e.mu.Lock()
		c.e.Log = append(c.e.Log, Call{Query: q, Err: err})
		c.e.mu.Unlock()
		return nil, err
	}
	return &stmt{c, q, p.nparams}, nil
}

type stmt struct {
	c *conn
	q string
	n int
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return s.n }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.exec(s.q, a)
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) { return s.c.query(s.q, a) }

func vals(nv []driver.NamedValue) []driver.Value {
	out := make([]driver.Value, len(nv))
	for i := range nv {
		out[i] = nv[i].Value
	}
	return out
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	return c.exec(q, vals(a))
}
func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	return c.query(q, vals(a))
}

func (c *conn) do(point, q string, a []driver.Value) (*result, error) {
	e := c.e
	if e.Yield != nil {
		e.Yield(point)
	}
	if err := e.fault(point); err != nil {
		return nil, err
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	args := make([]any, len(a))
	logged := make([]any, len(a))
	for i, v := range a {
		switch x := v.(type) {
		case []byte:
			logged[i] = append([]byte(nil), x...)
			if x == nil {
				args[i] = nil
			} else {
				args[i] = blob(x)
			}
		default:
			args[i], logged[i] = v, v
		}
	}
	call := Call{Query: q, Args: logged, InTx: c.tx}
	if e.Record {
		e.Log = append(e.Log, call)
		return &result{}, nil
	}
	p, err := parseCached(e.Dialect, q)
	var r *result
	if err == nil {
		r, err = e.run(p, args)
	}
	call.Err = err
	if r != nil {
		call.Lock = r.lock
	}
	e.Log = append(e.Log, call)
	return r, err
}

func (c *conn) exec(q string, a []driver.Value) (driver.Result, error) {
	r, err := c.do("exec", q, a)
	if err != nil {
		return nil, err
	}
	return res{c.e, r}, nil
}

type res struct {
	e *Engine
	r *result
}

func (r res) LastInsertId() (int64, error) {
	if err := r.e.fault("lastinsertid"); err != nil {
		return 0, err
	}
	if r.e.Dialect == Postgres {
		return 0, errors.New("LastInsertId is not supported by this driver")
	}
	return r.r.lastID, nil
}
func (r res) RowsAffected() (int64, error) {
	if err := r.e.fault("rowsaffected"); err != nil {
		return 0, err
	}
	return r.r.affected, nil
}

func (c *conn) query(q string, a []driver.Value) (driver.Rows, error) {
	r, err := c.do("query", q, a)
	if err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	c.e.OpenRows++
	c.e.Opened++
	c.e.mu.Unlock()
	return &rows{e: c.e, r: r}, nil
}

type rows struct {
	e      *Engine
	r      *result
	i      int
	closed bool
	bufs   [][]byte
}

func (r *rows) Columns() []string { return r.r.cols }

func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.e.mu.Lock()
	r.e.OpenRows--
	r.e.mu.Unlock()
	return r.e.fault("rowsclose")
}

func (r *rows) Next(dest []driver.Value) error {
	// memory handed out for the previous row is not the caller's any more
	for _, b := range r.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
	r.bufs = r.bufs[:0]
	if r.i >= len(r.r.rows) {
		if err := r.e.fault("next-end"); err != nil {
			return err
		}
		return io.EOF
	}
	if err := r.e.fault(fmt.Sprintf("next-%d", r.i)); err != nil {
		return err
	}
	row := r.r.rows[r.i]
	r.i++
	for i, v := range row {
		dest[i] = r.wire(v)
	}
	if r.e.Mangle != nil {
		r.e.Mangle(r.i-1, dest)
	}
	return nil
}

func (r *rows) wire(v any) driver.Value {
	switch x := v.(type) {
	case string:
		if r.e.Dialect == MySQL {
			b := []byte(x)
			r.bufs = append(r.bufs, b)
			return b
		}
		return x
	case blob:
		b := []byte(x)
		r.bufs = append(r.bufs, b)
		return b
	case time.Time:
		return x
	}
	if _, ok := v.(row); ok {
		return "(row)"
	}
	return v
}
