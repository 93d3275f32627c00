package minisql

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- syntax trees ----

type ident struct {
	name   string
	quoted bool
}

type expr interface{}

type (
	eLit   struct{ v any }
	eParam struct{ n int } // 0-based argument index
	eCol   struct {
		qual *ident
		qdb  *ident
		name ident
	}
	eStar struct{ qual *ident }
	eRow  struct{ items []expr }
	eUn   struct {
		op string
		x  expr
	}
	eBin struct {
		op   string
		l, r expr
	}
	eIs struct {
		not  bool
		what string // NULL TRUE FALSE UNKNOWN or DISTINCT
		x, y expr
	}
	eIn struct {
		not  bool
		x    expr
		list []expr
		sub  *selectStmt
	}
	eBetween struct {
		not       bool
		x, lo, hi expr
	}
	eLike struct {
		not, ci bool
		x, pat  expr
		esc     expr
	}
	eFunc struct {
		name     string
		star     bool
		distinct bool
		args     []expr
	}
	eCase struct {
		op    expr
		whens [][2]expr
		els   expr
	}
	eSub    struct{ s *selectStmt }
	eExists struct{ s *selectStmt }
	eCast   struct {
		x  expr
		ty string
	}
	eDefault struct{}
)

type selItem struct {
	e     expr
	alias *ident
}

type fromItem struct {
	db, table *ident
	alias     *ident
	sub       *selectStmt
	join      string // "", "INNER", "LEFT"
	on        expr
}

type orderItem struct {
	e     expr
	desc  bool
	nulls string // "", FIRST, LAST
}

type selectStmt struct {
	distinct bool
	items    []selItem
	from     []fromItem
	where    expr
	group    []expr
	having   expr
	order    []orderItem
	limit    expr
	offset   expr
	lock     string
}

type setItem struct {
	col ident
	e   expr
}

type insertStmt struct {
	ignore    bool
	replace   bool
	db, table *ident
	alias     *ident
	cols      []ident
	rows      [][]expr
	defaults  bool
	rowAlias  *ident
	onDup     []setItem // mysql
	conflicts []conflictClause
	returning []selItem
}

type conflictClause struct {
	target []ident // nil: any
	update []setItem
	where  expr
	nothng bool
}

type updateStmt struct {
	db, table *ident
	alias     *ident
	set       []setItem
	rowSets   []rowSet
	where     expr
	order     []orderItem
	limit     expr
	returning []selItem
}

type rowSet struct {
	cols []ident
	e    expr
}

type deleteStmt struct {
	db, table *ident
	alias     *ident
	where     expr
	order     []orderItem
	limit     expr
	returning []selItem
}

type parsed struct {
	stmt    any
	nparams int
	empty   bool
}

type parser struct {
	d     Dialect
	src   string
	toks  []token
	p     int
	npos  int // positional parameters seen
	maxn  int
	usedn map[int]bool
}

type syntaxError struct{ msg string }

func (e *syntaxError) Error() string { return e.msg }

func (p *parser) fail(f string, a ...any) {
	panic(&syntaxError{fmt.Sprintf("%s: syntax error near byte %d of %q: %s", p.d, p.cur().pos, p.src, fmt.Sprintf(f, a...))})
}

func (p *parser) cur() token { return p.toks[p.p] }
func (p *parser) peek(n int) token {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser) isKw(w string) bool { t := p.cur(); return t.kind == tIdent && t.up == w }
func (p *parser) isOp(o string) bool { t := p.cur(); return t.kind == tOp && t.text == o }
func (p *parser) kw(w string) bool {
	if p.isKw(w) {
		p.p++
		return true
	}
	return false
}
func (p *parser) op(o string) bool {
	if p.isOp(o) {
		p.p++
		return true
	}
	return false
}
func (p *parser) needKw(w string) {
	if !p.kw(w) {
		p.fail("expected %s, found %q", w, p.curText())
	}
}
func (p *parser) needOp(o string) {
	if !p.op(o) {
		p.fail("expected %q, found %q", o, p.curText())
	}
}
func (p *parser) curText() string {
	t := p.cur()
	switch t.kind {
	case tEOF:
		return "end of statement"
	case tParam:
		return "parameter"
	}
	return t.text
}

func (p *parser) isIdent() bool {
	t := p.cur()
	return t.kind == tQuoted || t.kind == tIdent && !reserved[p.d][t.up]
}

func (p *parser) ident() ident {
	t := p.cur()
	switch t.kind {
	case tQuoted:
		p.p++
		return ident{t.text, true}
	case tIdent:
		if reserved[p.d][t.up] {
			p.fail("%q is a reserved word", t.text)
		}
		p.p++
		return ident{t.text, false}
	}
	p.fail("expected an identifier, found %q", p.curText())
	panic(0)
}

// column names after a qualifier may be reserved words in mysql; be strict everywhere.
func parseSQL(d Dialect, src string) (res *parsed, err error) {
	toks, err := lex(d, src)
	if err != nil {
		return nil, err
	}
	p := &parser{d: d, src: src, toks: toks, usedn: map[int]bool{}}
	defer func() {
		if e := recover(); e != nil {
			se, ok := e.(*syntaxError)
			if !ok {
				panic(e)
			}
			res, err = nil, se
		}
	}()
	var st any
	if p.cur().kind == tEOF || p.isOp(";") {
		p.fail("empty statement")
	}
	switch {
	case p.isKw("SELECT"):
		st = p.selectStmt(true)
	case p.isKw("INSERT") || p.isKw("REPLACE") && d != Postgres:
		st = p.insertStmt()
	case p.isKw("UPDATE"):
		st = p.updateStmt()
	case p.isKw("DELETE"):
		st = p.deleteStmt()
	default:
		p.fail("unknown statement %q", p.curText())
	}
	p.op(";")
	if p.cur().kind != tEOF {
		p.fail("unexpected %q", p.curText())
	}
	n := p.npos
	if p.maxn > n {
		n = p.maxn
	}
	if d == Postgres {
		for i := 1; i <= p.maxn; i++ {
			if !p.usedn[i] {
				p.fail("could not determine data type of parameter $%d", i)
			}
		}
	}
	return &parsed{stmt: st, nparams: n}, nil
}

func (p *parser) tableName() (db, t *ident) {
	a := p.ident()
	if p.op(".") {
		b := p.ident()
		return &a, &b
	}
	return nil, &a
}

func (p *parser) optAlias(stop ...string) *ident {
	if p.kw("AS") {
		a := p.ident()
		return &a
	}
	t := p.cur()
	if t.kind == tQuoted {
		a := p.ident()
		return &a
	}
	if t.kind == tIdent && !reserved[p.d][t.up] {
		for _, s := range append(stop, "FOR", "LIMIT", "OFFSET", "FETCH", "ON", "SET", "WHERE", "RETURNING", "LOCK", "VALUES", "DEFAULT", "ORDER", "GROUP", "HAVING", "JOIN", "INNER", "LEFT", "CROSS", "END") {
			if t.up == s {
				return nil
			}
		}
		a := p.ident()
		return &a
	}
	return nil
}

func (p *parser) selectStmt(top bool) *selectStmt {
	p.needKw("SELECT")
	s := &selectStmt{}
	if p.kw("DISTINCT") {
		s.distinct = true
	} else {
		p.kw("ALL")
	}
	s.items = p.selItems()
	if p.kw("FROM") {
		for {
			join := ""
			if len(s.from) > 0 {
				switch {
				case p.op(","):
				case p.kw("CROSS"):
					p.needKw("JOIN")
				case p.kw("INNER"):
					p.needKw("JOIN")
					join = "INNER"
				case p.kw("JOIN"):
					join = "INNER"
				case p.kw("LEFT"):
					p.kw("OUTER")
					p.needKw("JOIN")
					join = "LEFT"
				default:
					goto done
				}
			}
			it := fromItem{join: join}
			if p.op("(") {
				it.sub = p.selectStmt(false)
				p.needOp(")")
				it.alias = p.optAlias()
				if it.alias == nil && p.d != SQLite {
					p.fail("derived table needs an alias")
				}
			} else {
				it.db, it.table = p.tableName()
				it.alias = p.optAlias()
			}
			if join != "" {
				p.needKw("ON")
				it.on = p.expr()
			}
			s.from = append(s.from, it)
		}
	}
done:
	if p.kw("WHERE") {
		s.where = p.expr()
	}
	if p.kw("GROUP") {
		p.needKw("BY")
		for {
			s.group = append(s.group, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("HAVING") {
		s.having = p.expr()
	}
	s.order = p.orderBy()
	if p.kw("LIMIT") {
		s.limit = p.expr()
		if p.d != Postgres && p.op(",") {
			s.offset = s.limit
			s.limit = p.expr()
		}
	}
	if p.isKw("OFFSET") {
		if s.limit == nil && p.d != Postgres {
			p.fail("OFFSET without LIMIT")
		}
		if s.offset != nil {
			p.fail("duplicate OFFSET")
		}
		p.p++
		s.offset = p.expr()
		if p.d == Postgres {
			if !p.kw("ROWS") {
				p.kw("ROW")
			}
			if s.limit == nil && p.kw("LIMIT") {
				s.limit = p.expr()
			}
		}
	}
	if p.isKw("FOR") {
		if p.d == SQLite {
			p.fail("near \"FOR\"")
		}
		p.p++
		switch {
		case p.kw("UPDATE"):
			s.lock = "FOR UPDATE"
		case p.kw("SHARE"):
			s.lock = "FOR SHARE"
		case p.d == Postgres && p.kw("NO"):
			p.needKw("KEY")
			p.needKw("UPDATE")
			s.lock = "FOR NO KEY UPDATE"
		case p.d == Postgres && p.kw("KEY"):
			p.needKw("SHARE")
			s.lock = "FOR KEY SHARE"
		default:
			p.fail("bad locking clause")
		}
		if p.kw("NOWAIT") {
		} else if p.kw("SKIP") {
			p.needKw("LOCKED")
		}
	}
	return s
}

func (p *parser) selItems() []selItem {
	var out []selItem
	for {
		if p.op("*") {
			out = append(out, selItem{e: &eStar{}})
		} else if p.isIdent() && p.peek(1).kind == tOp && p.peek(1).text == "." && p.peek(2).kind == tOp && p.peek(2).text == "*" {
			q := p.ident()
			p.p += 2
			out = append(out, selItem{e: &eStar{qual: &q}})
		} else {
			it := selItem{e: p.expr()}
			it.alias = p.optAlias("FROM")
			out = append(out, it)
		}
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) orderBy() []orderItem {
	var out []orderItem
	if !p.kw("ORDER") {
		return nil
	}
	p.needKw("BY")
	for {
		o := orderItem{e: p.expr()}
		if p.kw("DESC") {
			o.desc = true
		} else {
			p.kw("ASC")
		}
		if p.d != MySQL && p.kw("NULLS") {
			switch {
			case p.kw("FIRST"):
				o.nulls = "FIRST"
			case p.kw("LAST"):
				o.nulls = "LAST"
			default:
				p.fail("NULLS what")
			}
		}
		if r, ok := o.e.(*eRow); ok && len(r.items) > 1 && p.d != Postgres {
			p.fail("row value misused in ORDER BY")
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) identList() []ident {
	p.needOp("(")
	var out []ident
	for {
		out = append(out, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.needOp(")")
	return out
}

func (p *parser) insertStmt() *insertStmt {
	s := &insertStmt{}
	if p.kw("REPLACE") {
		s.replace = true
	} else {
		p.needKw("INSERT")
		if p.d == MySQL && p.kw("IGNORE") {
			s.ignore = true
		}
		if p.d == SQLite && p.kw("OR") {
			switch {
			case p.kw("IGNORE"):
				s.ignore = true
			case p.kw("REPLACE"):
				s.replace = true
			case p.kw("ABORT"), p.kw("FAIL"), p.kw("ROLLBACK"):
			default:
				p.fail("INSERT OR what")
			}
		}
	}
	if p.d == MySQL {
		p.kw("INTO")
	} else {
		p.needKw("INTO")
	}
	s.db, s.table = p.tableName()
	if p.kw("AS") {
		if p.d == MySQL {
			p.fail("alias")
		}
		a := p.ident()
		s.alias = &a
	}
	if p.isOp("(") {
		if p.d == MySQL && p.peek(1).kind == tOp && p.peek(1).text == ")" {
			p.p += 2
			s.cols = []ident{}
		} else {
			s.cols = p.identList()
		}
	}
	if p.d != MySQL && p.kw("DEFAULT") {
		p.needKw("VALUES")
		s.defaults = true
		s.rows = [][]expr{nil}
	} else {
		if !(p.d == MySQL && p.kw("VALUE")) {
			p.needKw("VALUES")
		}
		for {
			p.needOp("(")
			var row []expr
			if !(p.d == MySQL && p.isOp(")")) {
				for {
					if p.kw("DEFAULT") {
						if p.d == SQLite {
							p.fail("DEFAULT in VALUES")
						}
						row = append(row, &eDefault{})
					} else {
						row = append(row, p.expr())
					}
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			s.rows = append(s.rows, row)
			if !p.op(",") {
				break
			}
		}
		if p.d == MySQL && p.kw("AS") {
			a := p.ident()
			s.rowAlias = &a
		}
	}
	for p.kw("ON") {
		if p.d == MySQL {
			p.needKw("DUPLICATE")
			p.needKw("KEY")
			p.needKw("UPDATE")
			s.onDup = p.setList()
			break
		}
		p.needKw("CONFLICT")
		c := conflictClause{}
		if p.isOp("(") {
			c.target = p.identList()
		} else if p.d == Postgres && p.isKw("ON") {
			p.fail("ON CONFLICT ON CONSTRAINT is not modelled")
		}
		p.needKw("DO")
		if p.kw("NOTHING") {
			c.nothng = true
		} else {
			p.needKw("UPDATE")
			p.needKw("SET")
			c.update = p.setListRow()
			if p.kw("WHERE") {
				c.where = p.expr()
			}
			if c.target == nil && p.d == Postgres {
				p.fail("ON CONFLICT DO UPDATE requires inference specification")
			}
		}
		s.conflicts = append(s.conflicts, c)
		if p.d == Postgres {
			break
		}
	}
	s.returning = p.returning()
	return s
}

func (p *parser) returning() []selItem {
	if p.d != MySQL && p.kw("RETURNING") {
		return p.selItems()
	}
	return nil
}

func (p *parser) setTarget() ident {
	a := p.ident()
	if p.op(".") {
		if p.d == Postgres {
			p.fail("qualified column in SET")
		}
		a = p.ident()
	}
	return a
}

func (p *parser) setList() []setItem {
	var out []setItem
	for {
		c := p.setTarget()
		p.needOp("=")
		if p.kw("DEFAULT") {
			out = append(out, setItem{c, &eDefault{}})
		} else {
			out = append(out, setItem{c, p.expr()})
		}
		if !p.op(",") {
			return out
		}
	}
}

// setListRow also accepts (a,b) = (x,y)
func (p *parser) setListRow() []setItem {
	var out []setItem
	for {
		if p.isOp("(") && p.d != MySQL {
			cols := p.identList()
			p.needOp("=")
			p.kw("ROW")
			e := p.expr()
			r, ok := e.(*eRow)
			if !ok {
				r = &eRow{items: []expr{e}}
			}
			if len(r.items) != len(cols) {
				p.fail("%d columns assigned %d values", len(cols), len(r.items))
			}
			for i := range cols {
				out = append(out, setItem{cols[i], r.items[i]})
			}
		} else {
			c := p.setTarget()
			p.needOp("=")
			if p.d != SQLite && p.kw("DEFAULT") {
				out = append(out, setItem{c, &eDefault{}})
			} else {
				out = append(out, setItem{c, p.expr()})
			}
		}
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) updateStmt() *updateStmt {
	p.needKw("UPDATE")
	s := &updateStmt{}
	s.db, s.table = p.tableName()
	s.alias = p.optAlias()
	p.needKw("SET")
	s.set = p.setListRow()
	if p.kw("WHERE") {
		s.where = p.expr()
	}
	if p.isKw("ORDER") || p.isKw("LIMIT") {
		if p.d == Postgres {
			p.fail("%s in UPDATE", p.cur().up)
		}
		if p.d == SQLite && p.isKw("ORDER") {
			// ORDER BY without LIMIT on UPDATE
			q := p.p
			p.orderBy()
			if !p.isKw("LIMIT") {
				p.fail("ORDER BY without LIMIT on UPDATE")
			}
			p.resetTo(q)
		}
		s.order = p.orderBy()
		if p.kw("LIMIT") {
			s.limit = p.expr()
		}
	}
	s.returning = p.returning()
	return s
}

func (p *parser) resetTo(q int) {
	// parameters counted twice would be wrong: recount from the start
	n := 0
	for i := 0; i < q; i++ {
		if p.toks[i].kind == tParam && p.toks[i].n == 0 {
			n++
		}
	}
	p.npos = n
	p.p = q
}

func (p *parser) deleteStmt() *deleteStmt {
	p.needKw("DELETE")
	p.needKw("FROM")
	s := &deleteStmt{}
	s.db, s.table = p.tableName()
	s.alias = p.optAlias()
	if p.kw("WHERE") {
		s.where = p.expr()
	}
	if p.isKw("ORDER") || p.isKw("LIMIT") {
		if p.d == Postgres {
			p.fail("%s in DELETE", p.cur().up)
		}
		if p.d == SQLite && p.isKw("ORDER") {
			q := p.p
			p.orderBy()
			if !p.isKw("LIMIT") {
				p.fail("ORDER BY without LIMIT on DELETE")
			}
			p.resetTo(q)
		}
		s.order = p.orderBy()
		if p.kw("LIMIT") {
			s.limit = p.expr()
		}
	}
	s.returning = p.returning()
	return s
}

// ---- expressions ----

func (p *parser) expr() expr { return p.orExpr() }

func (p *parser) orExpr() expr {
	l := p.andExpr()
	for {
		if p.kw("OR") {
			l = &eBin{"OR", l, p.andExpr()}
		} else if p.d == MySQL && p.isOp("||") {
			p.p++
			l = &eBin{"OR", l, p.andExpr()}
		} else {
			return l
		}
	}
}

func (p *parser) andExpr() expr {
	l := p.notExpr()
	for p.kw("AND") {
		l = &eBin{"AND", l, p.notExpr()}
	}
	return l
}

func (p *parser) notExpr() expr {
	if p.kw("NOT") {
		return &eUn{"NOT", p.notExpr()}
	}
	return p.cmpExpr()
}

func (p *parser) cmpExpr() expr {
	l := p.addExpr()
	for {
		t := p.cur()
		if t.kind == tOp {
			switch t.text {
			case "=", "<>", "!=", "<", "<=", ">", ">=", "<=>", "==":
				if t.text == "<=>" && p.d != MySQL || t.text == "==" && p.d != SQLite {
					p.fail("operator %s", t.text)
				}
				p.p++
				op := t.text
				switch op {
				case "!=":
					op = "<>"
				case "==":
					op = "="
				}
				r := p.addExpr()
				l = &eBin{op, l, r}
				if p.d == Postgres {
					if n := p.cur(); n.kind == tOp {
						switch n.text {
						case "=", "<>", "!=", "<", "<=", ">", ">=":
							p.fail("comparison operators are not associative")
						}
					}
				}
				continue
			}
			return l
		}
		if t.kind != tIdent {
			return l
		}
		switch t.up {
		case "IS":
			p.p++
			e := &eIs{x: l}
			e.not = p.kw("NOT")
			switch {
			case p.kw("NULL"):
				e.what = "NULL"
			case p.kw("TRUE"):
				e.what = "TRUE"
			case p.kw("FALSE"):
				e.what = "FALSE"
			case p.d != SQLite && p.kw("UNKNOWN"):
				e.what = "NULL"
			case p.d != MySQL && p.kw("DISTINCT"):
				p.needKw("FROM")
				e.what = "DISTINCT"
				e.y = p.addExpr()
			case p.d == SQLite:
				e.what = "DISTINCT"
				e.y = p.addExpr()
				e.not = !e.not
			default:
				p.fail("IS what")
			}
			l = e
			continue
		case "ISNULL", "NOTNULL":
			if p.d == MySQL {
				return l
			}
			p.p++
			l = &eIs{x: l, what: "NULL", not: t.up == "NOTNULL"}
			continue
		case "NOT", "IN", "BETWEEN", "LIKE", "ILIKE":
			not := false
			if t.up == "NOT" {
				n := p.peek(1)
				if n.kind != tIdent || n.up != "IN" && n.up != "BETWEEN" && n.up != "LIKE" && n.up != "ILIKE" {
					return l
				}
				p.p++
				not = true
			}
			switch {
			case p.kw("IN"):
				p.needOp("(")
				e := &eIn{not: not, x: l}
				if p.isKw("SELECT") {
					e.sub = p.selectStmt(false)
				} else if !(p.d == SQLite && p.isOp(")")) {
					for {
						e.list = append(e.list, p.expr())
						if !p.op(",") {
							break
						}
					}
				}
				p.needOp(")")
				l = e
			case p.kw("BETWEEN"):
				lo := p.addExpr()
				p.needKw("AND")
				l = &eBetween{not, l, lo, p.addExpr()}
			default:
				ci := p.d != Postgres
				if p.isKw("ILIKE") {
					if p.d != Postgres {
						p.fail("ILIKE")
					}
					ci = true
				}
				p.p++
				e := &eLike{not: not, ci: ci, x: l, pat: p.addExpr()}
				if p.kw("ESCAPE") {
					e.esc = p.addExpr()
				}
				l = e
			}
			continue
		}
		return l
	}
}

func (p *parser) addExpr() expr {
	l := p.mulExpr()
	for {
		t := p.cur()
		if t.kind == tOp && (t.text == "+" || t.text == "-" || t.text == "||" && p.d != MySQL) {
			p.p++
			l = &eBin{t.text, l, p.mulExpr()}
			continue
		}
		return l
	}
}

func (p *parser) mulExpr() expr {
	l := p.unary()
	for {
		t := p.cur()
		if t.kind == tOp && (t.text == "*" || t.text == "/" || t.text == "%") {
			p.p++
			l = &eBin{t.text, l, p.unary()}
			continue
		}
		return l
	}
}

func (p *parser) unary() expr {
	if p.op("-") {
		return &eUn{"-", p.unary()}
	}
	if p.op("+") {
		return p.unary()
	}
	if p.d == MySQL && p.op("!") {
		return &eUn{"NOT", p.unary()}
	}
	e := p.primary()
	for p.d == Postgres && p.op("::") {
		e = &eCast{e, p.typeName()}
	}
	if p.kw("COLLATE") {
		p.ident()
	}
	return e
}

func (p *parser) typeName() string {
	t := p.cur()
	if t.kind != tIdent {
		p.fail("type name")
	}
	p.p++
	n := strings.ToUpper(t.text)
	for p.cur().kind == tIdent && (p.cur().up == "PRECISION" || p.cur().up == "VARYING" || p.cur().up == "INTEGER" && n == "SIGNED") {
		p.p++
	}
	if p.op("(") {
		for !p.op(")") {
			if p.cur().kind == tEOF {
				p.fail("type")
			}
			p.p++
		}
	}
	return n
}

func (p *parser) primary() expr {
	t := p.cur()
	switch t.kind {
	case tNumber:
		p.p++
		if !strings.ContainsAny(t.text, ".eE") {
			if v, err := strconv.ParseInt(t.text, 10, 64); err == nil {
				return &eLit{v}
			}
			if v, err := strconv.ParseUint(t.text, 10, 64); err == nil && p.d == MySQL {
				return &eLit{float64(v)}
			}
		}
		v, err := strconv.ParseFloat(t.text, 64)
		if err != nil {
			p.fail("number %q", t.text)
		}
		return &eLit{v}
	case tString:
		p.p++
		return &eLit{t.text}
	case tBlob:
		p.p++
		return &eLit{blob(t.text)}
	case tParam:
		p.p++
		n := t.n
		if n == 0 {
			p.npos++
			n = p.npos
		}
		if n > p.maxn {
			p.maxn = n
		}
		p.usedn[n] = true
		return &eParam{n - 1}
	case tOp:
		if t.text == "(" {
			p.p++
			if p.isKw("SELECT") {
				s := p.selectStmt(false)
				p.needOp(")")
				return &eSub{s}
			}
			items := []expr{p.expr()}
			for p.op(",") {
				items = append(items, p.expr())
			}
			p.needOp(")")
			if len(items) == 1 {
				return items[0]
			}
			return &eRow{items}
		}
		p.fail("unexpected %q", t.text)
	case tIdent:
		switch t.up {
		case "NULL":
			p.p++
			return &eLit{nil}
		case "TRUE", "FALSE":
			p.p++
			if p.d == Postgres {
				return &eLit{t.up == "TRUE"}
			}
			if t.up == "TRUE" {
				return &eLit{int64(1)}
			}
			return &eLit{int64(0)}
		case "EXISTS":
			p.p++
			p.needOp("(")
			s := p.selectStmt(false)
			p.needOp(")")
			return &eExists{s}
		case "CASE":
			return p.caseExpr()
		case "CAST":
			p.p++
			p.needOp("(")
			x := p.expr()
			p.needKw("AS")
			ty := p.typeName()
			p.needOp(")")
			return &eCast{x, ty}
		case "ROW":
			if n := p.peek(1); n.kind == tOp && n.text == "(" && p.d != SQLite {
				p.p += 2
				items := []expr{p.expr()}
				for p.op(",") {
					items = append(items, p.expr())
				}
				p.needOp(")")
				return &eRow{items}
			}
		}
		if n := p.peek(1); n.kind == tOp && n.text == "(" {
			switch t.up {
			case "COUNT", "SUM", "MIN", "MAX", "AVG", "COALESCE", "IFNULL", "LOWER", "UPPER", "LENGTH", "ABS", "NULLIF", "CONCAT":
			case "VALUES":
				if p.d != MySQL {
					p.fail("VALUES()")
				}
			case "ISNULL":
				if p.d != MySQL {
					p.fail("ISNULL()")
				}
			default:
				p.fail("function %s does not exist", t.text)
			}
			p.p += 2
			f := &eFunc{name: t.up}
			if t.up == "COUNT" && p.op("*") {
				f.star = true
			} else {
				if p.kw("DISTINCT") {
					f.distinct = true
				}
				for {
					f.args = append(f.args, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.needOp(")")
			return f
		}
	case tQuoted:
	default:
		p.fail("unexpected %q", p.curText())
	}
	a := p.ident()
	if p.op(".") {
		b := p.ident()
		if p.op(".") {
			c := p.ident()
			return &eCol{qdb: &a, qual: &b, name: c}
		}
		return &eCol{qual: &a, name: b}
	}
	return &eCol{name: a}
}

func (p *parser) caseExpr() expr {
	p.needKw("CASE")
	e := &eCase{}
	if !p.isKw("WHEN") {
		e.op = p.expr()
	}
	for p.kw("WHEN") {
		c := p.expr()
		p.needKw("THEN")
		e.whens = append(e.whens, [2]expr{c, p.expr()})
	}
	if len(e.whens) == 0 {
		p.fail("CASE without WHEN")
	}
	if p.kw("ELSE") {
		e.els = p.expr()
	}
	p.needKw("END")
	return e
}
