package vm

import (
	"time"
	"context"
	"database/sql"
	"errors"
	"strings"
	"syscall"

	"github.com/bobg/fab/zzverif/nd"
)

// A small SQL engine: one database file is a set of tables; statements are
// atomic. Unknown syntax abandons the path.

type sqlVal struct {
	kind int // 0 NULL, 1 integer, 2 blob or text
	i    int64
	b    string
}

type sqlTable struct {
	name string
	cols []string
	notn []bool
	pk   int
	uniq []int
	rows [][]sqlVal
}

type sqlFile struct {
	path   string
	tables []*sqlTable
}

type sqlDB struct {
	db     *sql.DB
	path   string
	closed bool
}

type sqlTx struct {
	tx   *sql.Tx
	s    *sqlDB
	save []*sqlTable
	done bool
}

type sqlRows struct {
	row  *sql.Row
	rows *sql.Rows
	err  error
	cols int
	data [][]sqlVal
	pos  int
}

var (
	sqlFiles []*sqlFile
	sqlDBs   []*sqlDB
	sqlTxs   []*sqlTx
	sqlRes   []*sqlRows
)

type sqlResult struct{ aff int64 }

func (r sqlResult) LastInsertId() (int64, error) { return 0, nil }
func (r sqlResult) RowsAffected() (int64, error) { return r.aff, nil }

var errSQLClosed = errors.New("sql: database is closed")

//model: database/sql.Register
func SQLRegister(name string, d any) {}

//model: database/sql.Open
func SQLOpen(driver, path string) (*sql.DB, error) {
	if driver != "sqlite3" {
		return nil, errors.New("sql: unknown driver " + driver)
	}
	d := new(sql.DB)
	sqlDBs = append(sqlDBs, &sqlDB{db: d, path: path})
	return d, nil
}

func sqlHandle(d *sql.DB) *sqlDB {
	for i := len(sqlDBs) - 1; i >= 0; i-- {
		if sqlDBs[i].db == d {
			return sqlDBs[i]
		}
	}
	nd.Unsupported("unknown *sql.DB")
	return nil
}

func (s *sqlDB) file() (*sqlFile, error) {
	if s.closed {
		return nil, errSQLClosed
	}
	path := s.path
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	path = strings.TrimPrefix(path, "file:")
	if path == "" || path == ":memory:" {
		nd.Unsupported("in-memory database")
	}
	dir, name, n, e := find(path, true)
	if e != 0 {
		return nil, errors.New("unable to open database file: " + e.Error())
	}
	if n == nil {
		if dir.mode&0300 != 0300 {
			return nil, errors.New("unable to open database file: " + syscall.EACCES.Error())
		}
		n = &node{kind: kFile, mode: 0644}
		dir.put(name, n)
	}
	if n.kind == kDir {
		return nil, errors.New("unable to open database file: is a directory")
	}
	if n.mode&0400 == 0 {
		return nil, errors.New("unable to open database file: " + syscall.EACCES.Error())
	}
	if len(n.data) != 0 {
		return nil, errors.New("file is not a database")
	}
	abs := path
	for _, f := range sqlFiles {
		if f.path == abs {
			return f, nil
		}
	}
	f := &sqlFile{path: abs}
	sqlFiles = append(sqlFiles, f)
	return f, nil
}

//model: (*database/sql.DB).Close
func SQLClose(d *sql.DB) error { sqlHandle(d).closed = true; return nil }

//model: (*database/sql.DB).Ping
func SQLPing(d *sql.DB) error { _, err := sqlHandle(d).file(); return err }

//model: (*database/sql.DB).PingContext
func SQLPingContext(d *sql.DB, ctx context.Context) error { return SQLPing(d) }

//model: (*database/sql.DB).SetMaxOpenConns
func SQLSetMaxOpenConns(d *sql.DB, n int) {}

//model: (*database/sql.DB).SetMaxIdleConns
func SQLSetMaxIdleConns(d *sql.DB, n int) {}

//model: (*database/sql.DB).ExecContext
func SQLExecContext(d *sql.DB, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return sqlHandle(d).exec(ctx, q, args)
}

//model: (*database/sql.DB).Exec
func SQLExec(d *sql.DB, q string, args ...any) (sql.Result, error) {
	return sqlHandle(d).exec(context.Background(), q, args)
}

func (s *sqlDB) exec(ctx context.Context, q string, args []any) (sql.Result, error) {
	nd.Yield("sql")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	f, err := s.file()
	if err != nil {
		return nil, err
	}
	aff := int64(0)
	p := &sqlParser{q: q, f: f, args: args}
	p.next()
	for p.tok != "" {
		if p.tok == ";" {
			p.next()
			continue
		}
		aff = p.stmt()
		if p.err != nil {
			return nil, p.err
		}
	}
	return sqlResult{aff}, nil
}

func (s *sqlDB) query(ctx context.Context, q string, args []any) *sqlRows {
	nd.Yield("sql")
	r := &sqlRows{}
	if err := ctx.Err(); err != nil {
		r.err = err
		return r
	}
	f, err := s.file()
	if err != nil {
		r.err = err
		return r
	}
	p := &sqlParser{q: q, f: f, args: args}
	p.next()
	r.data = p.sel()
	r.err = p.err
	return r
}

//model: (*database/sql.DB).QueryRowContext
func SQLQueryRowContext(d *sql.DB, ctx context.Context, q string, args ...any) *sql.Row {
	r := sqlHandle(d).query(ctx, q, args)
	r.row = new(sql.Row)
	sqlRes = append(sqlRes, r)
	return r.row
}

//model: (*database/sql.DB).QueryRow
func SQLQueryRow(d *sql.DB, q string, args ...any) *sql.Row {
	return SQLQueryRowContext(d, context.Background(), q, args...)
}

//model: (*database/sql.DB).QueryContext
func SQLQueryContext(d *sql.DB, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	r := sqlHandle(d).query(ctx, q, args)
	if r.err != nil {
		return nil, r.err
	}
	r.rows = new(sql.Rows)
	sqlRes = append(sqlRes, r)
	return r.rows, nil
}

//model: (*database/sql.DB).Query
func SQLQuery(d *sql.DB, q string, args ...any) (*sql.Rows, error) {
	return SQLQueryContext(d, context.Background(), q, args...)
}

func sqlRowsOf(rs *sql.Rows) *sqlRows {
	for i := len(sqlRes) - 1; i >= 0; i-- {
		if sqlRes[i].rows == rs {
			return sqlRes[i]
		}
	}
	nd.Unsupported("unknown *sql.Rows")
	return nil
}

//model: (*database/sql.Row).Err
func SQLRowErr(r *sql.Row) error {
	for i := len(sqlRes) - 1; i >= 0; i-- {
		if sqlRes[i].row == r {
			return sqlRes[i].err
		}
	}
	return nil
}

//model: (*database/sql.Row).Scan
func SQLRowScan(r *sql.Row, dest ...any) error {
	for i := len(sqlRes) - 1; i >= 0; i-- {
		x := sqlRes[i]
		if x.row != r {
			continue
		}
		if x.err != nil {
			return x.err
		}
		if len(x.data) == 0 {
			return sql.ErrNoRows
		}
		return sqlScan(x.data[0], dest)
	}
	nd.Unsupported("unknown *sql.Row")
	return nil
}

//model: (*database/sql.Rows).Next
func SQLRowsNext(rs *sql.Rows) bool {
	r := sqlRowsOf(rs)
	if r.pos >= len(r.data) {
		return false
	}
	r.pos++
	return true
}

//model: (*database/sql.Rows).Scan
func SQLRowsScan(rs *sql.Rows, dest ...any) error {
	r := sqlRowsOf(rs)
	return sqlScan(r.data[r.pos-1], dest)
}

//model: (*database/sql.Rows).Err
func SQLRowsErr(rs *sql.Rows) error { return nil }

//model: (*database/sql.Rows).Close
func SQLRowsClose(rs *sql.Rows) error { r := sqlRowsOf(rs); r.pos = len(r.data); return nil }

func sqlScan(row []sqlVal, dest []any) error {
	if len(row) != len(dest) {
		return errors.New("sql: wrong number of destination arguments in Scan")
	}
	for i, d := range dest {
		v := row[i]
		switch d := d.(type) {
		case *int:
			if v.kind != 1 {
				return errors.New("sql: Scan error: converting to int")
			}
			*d = int(v.i)
		case *int64:
			if v.kind != 1 {
				return errors.New("sql: Scan error: converting to int64")
			}
			*d = v.i
		case *bool:
			if v.kind != 1 {
				return errors.New("sql: Scan error: converting to bool")
			}
			*d = v.i != 0
		case *[]byte:
			*d = []byte(v.b)
		case *string:
			*d = v.b
		default:
			nd.Unsupported("Scan destination")
		}
	}
	return nil
}

// --- transactions

//model: (*database/sql.DB).BeginTx
func SQLBeginTx(d *sql.DB, ctx context.Context, o *sql.TxOptions) (*sql.Tx, error) {
	s := sqlHandle(d)
	f, err := s.file()
	if err != nil {
		return nil, err
	}
	t := &sqlTx{tx: new(sql.Tx), s: s}
	for _, tb := range f.tables {
		c := *tb
		c.rows = nil
		for _, r := range tb.rows {
			c.rows = append(c.rows, append([]sqlVal(nil), r...))
		}
		t.save = append(t.save, &c)
	}
	sqlTxs = append(sqlTxs, t)
	return t.tx, nil
}

//model: (*database/sql.DB).Begin
func SQLBegin(d *sql.DB) (*sql.Tx, error) { return SQLBeginTx(d, context.Background(), nil) }

func sqlTxOf(x *sql.Tx) *sqlTx {
	for _, t := range sqlTxs {
		if t.tx == x {
			return t
		}
	}
	nd.Unsupported("unknown *sql.Tx")
	return nil
}

//model: (*database/sql.Tx).ExecContext
func SQLTxExecContext(x *sql.Tx, ctx context.Context, q string, args ...any) (sql.Result, error) {
	t := sqlTxOf(x)
	if t.done {
		return nil, sql.ErrTxDone
	}
	return t.s.exec(ctx, q, args)
}

//model: (*database/sql.Tx).Exec
func SQLTxExec(x *sql.Tx, q string, args ...any) (sql.Result, error) {
	return SQLTxExecContext(x, context.Background(), q, args...)
}

//model: (*database/sql.Tx).QueryRowContext
func SQLTxQueryRowContext(x *sql.Tx, ctx context.Context, q string, args ...any) *sql.Row {
	r := sqlTxOf(x).s.query(ctx, q, args)
	r.row = new(sql.Row)
	sqlRes = append(sqlRes, r)
	return r.row
}

//model: (*database/sql.Tx).QueryRow
func SQLTxQueryRow(x *sql.Tx, q string, args ...any) *sql.Row {
	return SQLTxQueryRowContext(x, context.Background(), q, args...)
}

//model: (*database/sql.Tx).QueryContext
func SQLTxQueryContext(x *sql.Tx, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	t := sqlTxOf(x)
	if t.done {
		return nil, sql.ErrTxDone
	}
	return t.s.rows(ctx, q, args)
}

//model: (*database/sql.Tx).Query
func SQLTxQuery(x *sql.Tx, q string, args ...any) (*sql.Rows, error) {
	return SQLTxQueryContext(x, context.Background(), q, args...)
}

func (s *sqlDB) rows(ctx context.Context, q string, args []any) (*sql.Rows, error) {
	r := s.query(ctx, q, args)
	if r.err != nil {
		return nil, r.err
	}
	r.rows = new(sql.Rows)
	sqlRes = append(sqlRes, r)
	return r.rows, nil
}

// --- prepared statements and connections

type sqlStmt struct {
	st *sql.Stmt
	s  *sqlDB
	q  string
}

type sqlConn struct {
	c *sql.Conn
	s *sqlDB
}

var (
	sqlStmts []*sqlStmt
	sqlConns []*sqlConn
)

func (s *sqlDB) prepare(ctx context.Context, q string) (*sql.Stmt, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if _, err := s.file(); err != nil {
		return nil, err
	}
	st := &sqlStmt{st: new(sql.Stmt), s: s, q: q}
	sqlStmts = append(sqlStmts, st)
	return st.st, nil
}

func sqlStmtOf(x *sql.Stmt) *sqlStmt {
	for _, t := range sqlStmts {
		if t.st == x {
			return t
		}
	}
	nd.Unsupported("unknown *sql.Stmt")
	return nil
}

//model: (*database/sql.DB).PrepareContext
func SQLPrepareContext(d *sql.DB, ctx context.Context, q string) (*sql.Stmt, error) {
	return sqlHandle(d).prepare(ctx, q)
}

//model: (*database/sql.DB).Prepare
func SQLPrepare(d *sql.DB, q string) (*sql.Stmt, error) {
	return sqlHandle(d).prepare(context.Background(), q)
}

//model: (*database/sql.Tx).PrepareContext
func SQLTxPrepareContext(x *sql.Tx, ctx context.Context, q string) (*sql.Stmt, error) {
	return sqlTxOf(x).s.prepare(ctx, q)
}

//model: (*database/sql.Tx).Prepare
func SQLTxPrepare(x *sql.Tx, q string) (*sql.Stmt, error) {
	return sqlTxOf(x).s.prepare(context.Background(), q)
}

//model: (*database/sql.Tx).Stmt
func SQLTxStmt(x *sql.Tx, st *sql.Stmt) *sql.Stmt { return st }

//model: (*database/sql.Tx).StmtContext
func SQLTxStmtContext(x *sql.Tx, ctx context.Context, st *sql.Stmt) *sql.Stmt { return st }

//model: (*database/sql.Stmt).ExecContext
func SQLStmtExecContext(x *sql.Stmt, ctx context.Context, args ...any) (sql.Result, error) {
	t := sqlStmtOf(x)
	return t.s.exec(ctx, t.q, args)
}

//model: (*database/sql.Stmt).Exec
func SQLStmtExec(x *sql.Stmt, args ...any) (sql.Result, error) {
	return SQLStmtExecContext(x, context.Background(), args...)
}

//model: (*database/sql.Stmt).QueryContext
func SQLStmtQueryContext(x *sql.Stmt, ctx context.Context, args ...any) (*sql.Rows, error) {
	t := sqlStmtOf(x)
	return t.s.rows(ctx, t.q, args)
}

//model: (*database/sql.Stmt).Query
func SQLStmtQuery(x *sql.Stmt, args ...any) (*sql.Rows, error) {
	return SQLStmtQueryContext(x, context.Background(), args...)
}

//model: (*database/sql.Stmt).QueryRowContext
func SQLStmtQueryRowContext(x *sql.Stmt, ctx context.Context, args ...any) *sql.Row {
	t := sqlStmtOf(x)
	r := t.s.query(ctx, t.q, args)
	r.row = new(sql.Row)
	sqlRes = append(sqlRes, r)
	return r.row
}

//model: (*database/sql.Stmt).QueryRow
func SQLStmtQueryRow(x *sql.Stmt, args ...any) *sql.Row {
	return SQLStmtQueryRowContext(x, context.Background(), args...)
}

//model: (*database/sql.Stmt).Close
func SQLStmtClose(x *sql.Stmt) error { return nil }

//model: (*database/sql.DB).Conn
func SQLDBConn(d *sql.DB, ctx context.Context) (*sql.Conn, error) {
	s := sqlHandle(d)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if _, err := s.file(); err != nil {
		return nil, err
	}
	c := &sqlConn{c: new(sql.Conn), s: s}
	sqlConns = append(sqlConns, c)
	return c.c, nil
}

func sqlConnOf(x *sql.Conn) *sqlDB {
	for _, t := range sqlConns {
		if t.c == x {
			return t.s
		}
	}
	nd.Unsupported("unknown *sql.Conn")
	return nil
}

//model: (*database/sql.Conn).ExecContext
func SQLConnExecContext(x *sql.Conn, ctx context.Context, q string, args ...any) (sql.Result, error) {
	return sqlConnOf(x).exec(ctx, q, args)
}

//model: (*database/sql.Conn).QueryContext
func SQLConnQueryContext(x *sql.Conn, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return sqlConnOf(x).rows(ctx, q, args)
}

//model: (*database/sql.Conn).QueryRowContext
func SQLConnQueryRowContext(x *sql.Conn, ctx context.Context, q string, args ...any) *sql.Row {
	r := sqlConnOf(x).query(ctx, q, args)
	r.row = new(sql.Row)
	sqlRes = append(sqlRes, r)
	return r.row
}

//model: (*database/sql.Conn).PrepareContext
func SQLConnPrepareContext(x *sql.Conn, ctx context.Context, q string) (*sql.Stmt, error) {
	return sqlConnOf(x).prepare(ctx, q)
}

//model: (*database/sql.Conn).BeginTx
func SQLConnBeginTx(x *sql.Conn, ctx context.Context, o *sql.TxOptions) (*sql.Tx, error) {
	return SQLBeginTx(sqlConnOf(x).db, ctx, o)
}

//model: (*database/sql.Conn).PingContext
func SQLConnPing(x *sql.Conn, ctx context.Context) error { _, err := sqlConnOf(x).file(); return err }

//model: (*database/sql.Conn).Close
func SQLConnClose(x *sql.Conn) error { return nil }

//model: (*database/sql.DB).SetConnMaxLifetime
func SQLSetConnMaxLifetime(d *sql.DB, n time.Duration) {}

//model: (*database/sql.DB).SetConnMaxIdleTime
func SQLSetConnMaxIdleTime(d *sql.DB, n time.Duration) {}

//model: (*database/sql.Tx).Commit
func SQLTxCommit(x *sql.Tx) error {
	t := sqlTxOf(x)
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	return nil
}

//model: (*database/sql.Tx).Rollback
func SQLTxRollback(x *sql.Tx) error {
	t := sqlTxOf(x)
	if t.done {
		return sql.ErrTxDone
	}
	t.done = true
	f, err := t.s.file()
	if err != nil {
		return err
	}
	f.tables = t.save
	return nil
}

// --- the SQL language

type sqlParser struct {
	q    string
	i    int
	tok  string // current token, keywords in upper case; "" at the end
	raw  string
	str  bool // tok is a string literal
	f    *sqlFile
	args []any
	argn int
	err  error
	// the row that column names refer to, and the conflicting insertion
	t    *sqlTable
	row  []sqlVal
	excl []sqlVal
}

func sqlWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func (p *sqlParser) next() {
	q := p.q
	for p.i < len(q) {
		if q[p.i] == ' ' || q[p.i] == '\n' || q[p.i] == '\t' || q[p.i] == '\r' {
			p.i++
			continue
		}
		if q[p.i] == '-' && p.i+1 < len(q) && q[p.i+1] == '-' {
			for p.i < len(q) && q[p.i] != '\n' {
				p.i++
			}
			continue
		}
		break
	}
	p.str = false
	if p.i >= len(q) {
		p.tok, p.raw = "", ""
		return
	}
	j := p.i
	c := q[j]
	switch {
	case sqlWord(c) || c == '$':
		j++
		for j < len(q) && sqlWord(q[j]) {
			j++
		}
	case c == '\'' || c == '"' || c == '`':
		j++
		for j < len(q) && q[j] != c {
			j++
		}
		p.raw = q[p.i+1 : j]
		p.tok = p.raw
		p.str = c == '\''
		p.i = j + 1
		return
	case (c == '<' || c == '>' || c == '!' || c == '=') && j+1 < len(q) && (q[j+1] == '=' || c == '<' && q[j+1] == '>'):
		j += 2
	default:
		j++
	}
	p.raw = q[p.i:j]
	p.tok = strings.ToUpper(p.raw)
	p.i = j
}

func (p *sqlParser) is(words ...string) bool {
	s := *p
	for _, w := range words {
		if p.str || p.tok != w {
			*p = s
			return false
		}
		p.next()
	}
	return true
}

func (p *sqlParser) must(words ...string) {
	if !p.is(words...) {
		nd.Unsupported("SQL: " + p.q)
	}
}

func (p *sqlParser) ident() string {
	s := p.raw
	if s == "" {
		nd.Unsupported("SQL: " + p.q)
	}
	p.next()
	return s
}

func (p *sqlParser) fail(msg string) {
	if p.err == nil {
		p.err = errors.New(msg)
	}
}

func (p *sqlParser) table(name string) *sqlTable {
	for _, t := range p.f.tables {
		if strings.EqualFold(t.name, name) {
			return t
		}
	}
	p.fail("no such table: " + name)
	return nil
}

func (t *sqlTable) col(name string) int {
	for i, c := range t.cols {
		if strings.EqualFold(c, name) {
			return i
		}
	}
	return -1
}

func (p *sqlParser) stmt() int64 {
	switch {
	case p.is("CREATE", "TABLE"):
		p.create()
	case p.is("CREATE", "INDEX"), p.is("CREATE", "UNIQUE", "INDEX"), p.is("PRAGMA"), p.is("ANALYZE"):
		if strings.Contains(strings.ToUpper(p.q), "UNIQUE INDEX") {
			nd.Unsupported("SQL: " + p.q)
		}
		for p.tok != "" && p.tok != ";" {
			p.next()
		}
	case p.is("INSERT"):
		return p.insert()
	case p.is("REPLACE"):
		return p.insertInto("REPLACE")
	case p.is("UPDATE"):
		return p.update()
	case p.is("DELETE"):
		return p.del()
	case p.tok == "SELECT":
		p.sel()
	case p.is("BEGIN"), p.is("COMMIT"), p.is("END"):
		for p.tok != "" && p.tok != ";" {
			p.next()
		}
	default:
		nd.Unsupported("SQL: " + p.q)
	}
	return 0
}

func (p *sqlParser) create() {
	ine := p.is("IF", "NOT", "EXISTS")
	name := p.ident()
	t := &sqlTable{name: name, pk: -1}
	p.must("(")
	for {
		if p.is("PRIMARY", "KEY") || p.is("UNIQUE") || p.is("FOREIGN") || p.is("CHECK") {
			nd.Unsupported("SQL table constraint")
		}
		t.cols = append(t.cols, p.ident())
		t.notn = append(t.notn, false)
		k := len(t.cols) - 1
		for p.tok != "," && p.tok != ")" {
			switch {
			case p.tok == "":
				nd.Unsupported("SQL: " + p.q)
			case p.is("NOT", "NULL"):
				t.notn[k] = true
			case p.is("PRIMARY", "KEY"), p.is("UNIQUE"):
				t.uniq = append(t.uniq, k)
			case p.is("DEFAULT"), p.is("CHECK"), p.is("REFERENCES"):
				nd.Unsupported("SQL column constraint")
			default:
				p.next()
			}
		}
		if p.is(",") {
			continue
		}
		p.must(")")
		break
	}
	p.is("WITHOUT", "ROWID")
	for _, x := range p.f.tables {
		if strings.EqualFold(x.name, name) {
			if !ine {
				p.fail("table " + name + " already exists")
			}
			return
		}
	}
	p.f.tables = append(p.f.tables, t)
}

func (p *sqlParser) insert() int64 {
	mode := ""
	if p.is("OR") {
		mode = p.tok
		p.next()
	}
	return p.insertInto(mode)
}

func (p *sqlParser) insertInto(mode string) int64 {
	p.must("INTO")
	t := p.table(p.ident())
	if t == nil {
		return 0
	}
	var cols []int
	if p.is("(") {
		for {
			c := t.col(p.ident())
			if c < 0 {
				p.fail("no such column")
				return 0
			}
			cols = append(cols, c)
			if !p.is(",") {
				break
			}
		}
		p.must(")")
	} else {
		for i := range t.cols {
			cols = append(cols, i)
		}
	}
	p.must("VALUES", "(")
	row := make([]sqlVal, len(t.cols))
	for i, c := range cols {
		if i > 0 {
			p.must(",")
		}
		row[c] = p.expr()
	}
	p.must(")")
	for i, n := range t.notn {
		if n && row[i].kind == 0 {
			if mode == "IGNORE" {
				p.skip()
				return 0
			}
			p.fail("NOT NULL constraint failed: " + t.name + "." + t.cols[i])
			return 0
		}
	}
	conflict := -1
	for i, r := range t.rows {
		for _, u := range t.uniq {
			if row[u].kind != 0 && sqlCmp(r[u], row[u]) == 0 {
				conflict = i
			}
		}
	}
	if conflict < 0 {
		t.rows = append(t.rows, row)
		p.skip()
		return 1
	}
	switch mode {
	case "IGNORE":
		p.skip()
		return 0
	case "REPLACE":
		t.rows = append(append([][]sqlVal(nil), t.rows[:conflict]...), t.rows[conflict+1:]...)
		t.rows = append(t.rows, row)
		p.skip()
		return 1
	}
	if !p.is("ON", "CONFLICT") {
		p.fail("UNIQUE constraint failed: " + t.name)
		return 0
	}
	if p.is("(") {
		if c := t.col(p.ident()); len(t.uniq) != 1 || c != t.uniq[0] {
			nd.Unsupported("SQL conflict target")
		}
		p.must(")")
	}
	if p.is("DO", "NOTHING") {
		return 0
	}
	p.must("DO", "UPDATE", "SET")
	p.t, p.row, p.excl = t, t.rows[conflict], row
	return p.set([]int{conflict})
}

// skip skips the rest of the statement.
func (p *sqlParser) skip() {
	for p.tok != "" && p.tok != ";" {
		p.next()
	}
}

// set parses assignments and a WHERE clause and applies them to those rows of p.t that match.
func (p *sqlParser) set(rows []int) int64 {
	save := *p
	aff := int64(0)
	if len(rows) == 0 {
		p.skip()
		return 0
	}
	for _, ri := range rows {
		*p = save
		p.row = p.t.rows[ri]
		nrow := append([]sqlVal(nil), p.row...)
		for {
			c := p.t.col(p.ident())
			if c < 0 {
				p.fail("no such column")
				return 0
			}
			p.must("=")
			nrow[c] = p.expr()
			if p.t.notn[c] && nrow[c].kind == 0 {
				p.fail("NOT NULL constraint failed")
				return 0
			}
			if !p.is(",") {
				break
			}
		}
		if p.where() {
			p.t.rows[ri] = nrow
			aff++
		}
		if p.err != nil {
			return 0
		}
	}
	return aff
}

func (p *sqlParser) where() bool {
	if !p.is("WHERE") {
		return true
	}
	v := p.expr()
	return v.kind == 1 && v.i != 0
}

func (p *sqlParser) update() int64 {
	p.t = p.table(p.ident())
	if p.t == nil {
		return 0
	}
	p.must("SET")
	all := make([]int, len(p.t.rows))
	for i := range all {
		all[i] = i
	}
	return p.set(all)
}

func (p *sqlParser) del() int64 {
	p.must("FROM")
	p.t = p.table(p.ident())
	if p.t == nil {
		return 0
	}
	save := *p
	var keep [][]sqlVal
	aff := int64(0)
	for _, r := range save.t.rows {
		*p = save
		p.row = r
		if p.where() {
			aff++
		} else {
			keep = append(keep, r)
		}
		if p.err != nil {
			return 0
		}
	}
	if len(save.t.rows) == 0 {
		p.skip()
	}
	p.t.rows = keep
	return aff
}

func (p *sqlParser) sel() [][]sqlVal {
	p.must("SELECT")
	if p.is("EXISTS", "(") {
		in := p.sel()
		p.must(")")
		v := sqlVal{kind: 1}
		if len(in) > 0 {
			v.i = 1
		}
		return [][]sqlVal{{v}}
	}
	count := p.is("COUNT", "(")
	if count {
		if !p.is("*") && !p.is("1") {
			p.expr2ident()
		}
		p.must(")")
		if p.is("AS") {
			p.next()
		}
		if p.is(">") {
			nd.Unsupported("SQL: " + p.q)
		}
	}
	list := *p
	if !count {
		for p.tok != "FROM" {
			if p.tok == "" {
				nd.Unsupported("SQL: " + p.q)
			}
			p.next()
		}
	}
	p.must("FROM")
	t := p.table(p.ident())
	if t == nil {
		return nil
	}
	from := *p
	var out [][]sqlVal
	n := int64(0)
	for _, r := range t.rows {
		*p = from
		p.t, p.row = t, r
		if !p.where() {
			continue
		}
		n++
		if count {
			continue
		}
		q := list
		q.t, q.row = t, r
		var row []sqlVal
		for {
			if q.is("*") {
				row = append(row, r...)
			} else {
				row = append(row, q.expr())
			}
			if !q.is(",") {
				break
			}
		}
		out = append(out, row)
	}
	if len(t.rows) == 0 {
		for p.tok != "" && p.tok != ";" && p.tok != ")" {
			p.next()
		}
	}
	if p.is("LIMIT") {
		k := int(p.expr().i)
		if len(out) > k {
			out = out[:k]
		}
	}
	if p.tok != "" && p.tok != ";" && p.tok != ")" {
		nd.Unsupported("SQL: " + p.q)
	}
	if count {
		return [][]sqlVal{{{kind: 1, i: n}}}
	}
	return out
}

func (p *sqlParser) expr2ident() { p.ident() }

func sqlBool(b bool) sqlVal {
	if b {
		return sqlVal{kind: 1, i: 1}
	}
	return sqlVal{kind: 1}
}

func (p *sqlParser) expr() sqlVal {
	v := p.and()
	for p.is("OR") {
		w := p.and()
		v = sqlBool(v.kind == 1 && v.i != 0 || w.kind == 1 && w.i != 0)
	}
	return v
}

func (p *sqlParser) and() sqlVal {
	v := p.not()
	for p.is("AND") {
		w := p.not()
		v = sqlBool(v.kind == 1 && v.i != 0 && w.kind == 1 && w.i != 0)
	}
	return v
}

func (p *sqlParser) not() sqlVal {
	if p.is("NOT") {
		v := p.not()
		if v.kind == 0 {
			return v
		}
		return sqlBool(v.i == 0)
	}
	return p.cmp()
}

func (p *sqlParser) cmp() sqlVal {
	v := p.sum()
	for {
		op := p.tok
		if p.str {
			return v
		}
		switch op {
		case "=", "==", "<", "<=", ">", ">=", "!=", "<>":
			p.next()
			w := p.sum()
			if v.kind == 0 || w.kind == 0 {
				v = sqlVal{}
				continue
			}
			if op == "=" || op == "==" || op == "!=" || op == "<>" {
				eq := sqlEq(v, w)
				v = sqlBool(eq == (op == "=" || op == "=="))
				continue
			}
			c := sqlCmp(v, w)
			switch op {
			case "<":
				v = sqlBool(c < 0)
			case "<=":
				v = sqlBool(c <= 0)
			case ">":
				v = sqlBool(c > 0)
			case ">=":
				v = sqlBool(c >= 0)
			}
		default:
			return v
		}
	}
}

func sqlEq(a, b sqlVal) bool {
	if a.kind != b.kind {
		return false
	}
	if a.kind == 1 {
		return a.i == b.i
	}
	return a.b == b.b
}

func sqlCmp(a, b sqlVal) int {
	if a.kind != b.kind {
		return a.kind - b.kind
	}
	if a.kind == 1 {
		if a.i < b.i {
			return -1
		}
		if a.i > b.i {
			return 1
		}
		return 0
	}
	if a.b == b.b {
		return 0
	}
	if a.b < b.b {
		return -1
	}
	return 1
}

func (p *sqlParser) sum() sqlVal {
	v := p.atom()
	for {
		switch {
		case p.is("+"):
			w := p.atom()
			if v.kind == 0 || w.kind == 0 {
				v = sqlVal{}
			} else {
				v = sqlVal{kind: 1, i: v.i + w.i}
			}
		case p.is("-"):
			w := p.atom()
			if v.kind == 0 || w.kind == 0 {
				v = sqlVal{}
			} else {
				v = sqlVal{kind: 1, i: v.i - w.i}
			}
		default:
			return v
		}
	}
}

func (p *sqlParser) arg(n int) sqlVal {
	if n < 1 || n > len(p.args) {
		p.fail("not enough args to execute query")
		return sqlVal{}
	}
	switch a := p.args[n-1].(type) {
	case nil:
		return sqlVal{}
	case int:
		return sqlVal{kind: 1, i: int64(a)}
	case int64:
		return sqlVal{kind: 1, i: a}
	case bool:
		return sqlBool(a)
	case []byte:
		if a == nil {
			return sqlVal{}
		}
		return sqlVal{kind: 2, b: string(a)}
	case string:
		return sqlVal{kind: 3, b: a}
	}
	nd.Unsupported("SQL argument type")
	return sqlVal{}
}

func (p *sqlParser) atom() sqlVal {
	if p.str {
		v := sqlVal{kind: 3, b: p.raw}
		p.next()
		return v
	}
	switch {
	case p.is("("):
		v := p.expr()
		p.must(")")
		return v
	case p.is("-"):
		v := p.atom()
		v.i = -v.i
		return v
	case p.is("NULL"):
		return sqlVal{}
	case p.is("TRUE"):
		return sqlBool(true)
	case p.is("FALSE"):
		return sqlBool(false)
	case p.is("MAX", "("), p.is("MIN", "("):
		nd.Unsupported("SQL: " + p.q)
	case p.is("EXCLUDED", "."):
		c := p.t.col(p.ident())
		if c < 0 || p.excl == nil {
			p.fail("no such column")
			return sqlVal{}
		}
		return p.excl[c]
	}
	if p.tok == "?" {
		p.next()
		n := 0
		if len(p.tok) > 0 && p.tok[0] >= '0' && p.tok[0] <= '9' && p.i > 0 {
			for _, c := range p.tok {
				n = n*10 + int(c-'0')
			}
			p.next()
		} else {
			// Arguments are evaluated in the order of their text in the supported statements.
			n = strings.Count(p.q[:p.argPos()], "?")
		}
		return p.arg(n)
	}
	if p.tok != "" && p.tok[0] == '$' {
		// SQLite numbers named parameters in the order of their first appearance.
		n := p.param(p.raw)
		p.next()
		return p.arg(n)
	}
	if p.tok != "" && p.tok[0] >= '0' && p.tok[0] <= '9' {
		n := int64(0)
		for _, c := range p.tok {
			n = n*10 + int64(c-'0')
		}
		p.next()
		return sqlVal{kind: 1, i: n}
	}
	if p.tok != "" && sqlWord(p.tok[0]) {
		name := p.ident()
		if p.is(".") {
			name = p.ident()
		}
		if p.t == nil {
			p.fail("no such column: " + name)
			return sqlVal{}
		}
		c := p.t.col(name)
		if c < 0 {
			p.fail("no such column: " + name)
			return sqlVal{}
		}
		return p.row[c]
	}
	nd.Unsupported("SQL: " + p.q)
	return sqlVal{}
}

// argPos is the position just after the "?" that was read last.
func (p *sqlParser) argPos() int {
	i := p.i - len(p.raw)
	for i > 0 && p.q[i-1] != '?' {
		i--
	}
	return i
}

// param is the number of the parameter called name.
func (p *sqlParser) param(name string) int {
	var seen []string
	for i := 0; i < len(p.q); i++ {
		if p.q[i] != '$' {
			continue
		}
		j := i + 1
		for j < len(p.q) && sqlWord(p.q[j]) {
			j++
		}
		w := p.q[i:j]
		k := 0
		for k < len(seen) && seen[k] != w {
			k++
		}
		if k == len(seen) {
			seen = append(seen, w)
		}
		if w == name {
			return k + 1
		}
	}
	return 0
}
