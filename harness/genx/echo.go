package genx

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
	"strconv"
	"time"
)

// Echo is a database/sql driver that keeps the arguments of the last statement
// and returns whatever row it is told to: the conversions on both sides are
// database/sql's own.
type Echo struct {
	MySQL bool
	Args  []driver.Value
	Query string
	Row   []driver.Value
}

func (e *Echo) DB() *sql.DB {
	db := sql.OpenDB(echoConn{e})
	return db
}

type echoConn struct{ e *Echo }

func (c echoConn) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c echoConn) Driver() driver.Driver                        { return nil }
func (c echoConn) Prepare(string) (driver.Stmt, error)          { panic("prepare") }
func (c echoConn) Close() error                                 { return nil }
func (c echoConn) Begin() (driver.Tx, error)                    { panic("begin") }

// CheckNamedValue: the mysql and the sqlite drivers convert like database/sql,
// mysql's accepting the whole of uint64.
func (c echoConn) CheckNamedValue(nv *driver.NamedValue) error {
	if c.e.MySQL {
		if u, ok := nv.Value.(uint64); ok {
			nv.Value = u
			return nil
		}
	}
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	nv.Value = v
	return err
}

func (c echoConn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.e.Query, c.e.Args = q, nil
	for _, a := range args {
		v := a.Value
		if b, ok := v.([]byte); ok && b != nil {
			v = append([]byte{}, b...)
		}
		c.e.Args = append(c.e.Args, v)
	}
	return driver.RowsAffected(1), nil
}

func (c echoConn) QueryContext(context.Context, string, []driver.NamedValue) (driver.Rows, error) {
	return &echoRows{e: c.e}, nil
}

type echoRows struct {
	e    *Echo
	done bool
}

func (r *echoRows) Columns() []string { return make([]string, len(r.e.Row)) }
func (r *echoRows) Close() error      { return nil }
func (r *echoRows) Next(dest []driver.Value) error {
	if r.done {
		return io.EOF
	}
	r.done = true
	copy(dest, r.e.Row)
	return nil
}

// Wires lists the forms in which a driver hands back a stored value.
func Wires(drv string, v driver.Value) (out []driver.Value) {
	txt := func() []byte {
		switch x := v.(type) {
		case int64:
			return strconv.AppendInt(nil, x, 10)
		case uint64:
			return strconv.AppendUint(nil, x, 10)
		case float64:
			return strconv.AppendFloat(nil, x, 'g', -1, 64)
		case string:
			return []byte(x)
		case []byte:
			return append([]byte{}, x...)
		}
		return nil
	}
	switch drv {
	case "mysql":
		if b, ok := v.(bool); ok {
			v = int64(0)
			if b {
				v = int64(1)
			}
		}
		if t := txt(); t != nil {
			out = append(out, t)
		}
		switch v.(type) {
		case int64, float64:
			out = append(out, v)
		case time.Time, nil:
			out = append(out, v)
		}
	case "postgres":
		out = append(out, v)
		if s, ok := v.(string); ok {
			out = append(out, []byte(s))
		}
	case "sqlite":
		out = append(out, v)
		switch x := v.(type) {
		case bool:
			n := int64(0)
			if x {
				n = 1
			}
			out = append(out, n)
		case string:
			out = append(out, []byte(x))
		}
	}
	return
}
