package meta

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// A small part of SQL over the catalogs pg_class and pg_namespace. Whatever it does not know is an error, and the
// database then answers with the tables there are.

var errSQL = errors.New("not understood")

type rel map[string]string // column -> value

type colRef struct{ tab, col string }

type query struct {
	cols  []expr
	from  []fromItem
	where expr
	order []order
	limit int
	off   int
}

type order struct {
	e    expr
	desc bool
}

type fromItem struct {
	table, alias string
	on           expr
}

type env map[string]rel // alias -> row

type expr func(env) (string, error)

func boolS(b bool) string {
	if b {
		return "t"
	}
	return "f"
}

var tokRx = regexp.MustCompile(`^(?:--[^\n]*|/\*(?s:.*?)\*/|\s+|'(?:[^']|'')*'|"[^"]*"|\$\d+|[0-9]+|[A-Za-z_][A-Za-z_0-9]*|::|<>|!=|!~~|~~|!~|[(),.;=*<>\[\]~])`)

func tokens(s string) ([]string, error) {
	var out []string
	for s != "" {
		t := tokRx.FindString(s)
		if t == "" {
			return nil, errSQL
		}
		s = s[len(t):]
		if c := t[0]; c == ' ' || c == '\t' || c == '\n' || c == '\r' || strings.HasPrefix(t, "--") || strings.HasPrefix(t, "/*") {
			continue
		}
		out = append(out, t)
	}
	return out, nil
}

type parser struct {
	t    []string
	i    int
	args []string
}

func (p *parser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}
func (p *parser) kw(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) || !strings.EqualFold(p.t[p.i+k], w) {
			return false
		}
	}
	p.i += len(words)
	return true
}
func (p *parser) next() string { t := p.peek(); p.i++; return t }
func (p *parser) must(w string) {
	if !p.kw(w) {
		panic(errSQL)
	}
}

var word = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`)
var reserved = regexp.MustCompile(`(?i)^(select|from|join|inner|left|right|full|cross|on|using|where|and|or|not|in|like|ilike|as|order|by|limit|offset|group|having|union|distinct|is|null|asc|desc|any|all|between|exists|case|natural)$`)

func (p *parser) ident() (string, bool) {
	t := p.peek()
	if strings.HasPrefix(t, `"`) {
		p.i++
		return strings.Trim(t, `"`), true
	}
	if word.MatchString(t) && !reserved.MatchString(t) {
		p.i++
		return strings.ToLower(t), true
	}
	return "", false
}

func (p *parser) or() expr {
	l := p.and()
	for p.kw("or") {
		a, b := l, p.and()
		l = func(e env) (string, error) {
			return two(a, b, e, func(x, y string) string { return boolS(x == "t" || y == "t") })
		}
	}
	return l
}
func (p *parser) and() expr {
	l := p.not()
	for p.kw("and") {
		a, b := l, p.not()
		l = func(e env) (string, error) {
			return two(a, b, e, func(x, y string) string { return boolS(x == "t" && y == "t") })
		}
	}
	return l
}
func neg(a expr) expr {
	return func(e env) (string, error) {
		x, err := a(e)
		return boolS(x != "t"), err
	}
}
func (p *parser) not() expr {
	if p.kw("not") {
		return neg(p.not())
	}
	return p.cmp()
}
func two(a, b expr, e env, f func(x, y string) string) (string, error) {
	x, err := a(e)
	if err != nil {
		return "", err
	}
	y, err := b(e)
	if err != nil {
		return "", err
	}
	return f(x, y), nil
}
func like(s, pat string) bool {
	rx := "(?s)^"
	for i := 0; i < len(pat); i++ {
		switch c := pat[i]; {
		case c == '\\' && i+1 < len(pat):
			i++
			rx += regexp.QuoteMeta(pat[i : i+1])
		case c == '%':
			rx += ".*"
		case c == '_':
			rx += "."
		default:
			rx += regexp.QuoteMeta(string(c))
		}
	}
	return regexp.MustCompile(rx + "$").MatchString(s)
}
func rx(s, pat string) bool {
	r, err := regexp.Compile(pat)
	if err != nil {
		panic(errSQL)
	}
	return r.MatchString(s)
}
func (p *parser) list(closer string) []expr {
	var l []expr
	for {
		l = append(l, p.operand())
		if p.kw(",") {
			continue
		}
		p.must(closer)
		return l
	}
}
func in(a expr, l []expr) expr {
	return func(e env) (string, error) {
		x, err := a(e)
		if err != nil {
			return "", err
		}
		for _, b := range l {
			y, err := b(e)
			if err != nil {
				return "", err
			}
			if x == y {
				return "t", nil
			}
		}
		return "f", nil
	}
}
func (p *parser) cmp() expr {
	a := p.operand()
	n := p.kw("not")
	wrap := func(x expr) expr {
		if n {
			return neg(x)
		}
		return x
	}
	bin := func(f func(x, y string) bool) expr {
		b := p.operand()
		return wrap(func(e env) (string, error) { return two(a, b, e, func(x, y string) string { return boolS(f(x, y)) }) })
	}
	eq := func(x, y string) bool { return x == y }
	switch {
	case p.kw("in"):
		p.must("(")
		return wrap(in(a, p.list(")")))
	case p.kw("like") || p.kw("~~"):
		return bin(like)
	case p.kw("!~~"):
		return bin(func(x, y string) bool { return !like(x, y) })
	case p.kw("~"):
		return bin(rx)
	case p.kw("!~"):
		return bin(func(x, y string) bool { return !rx(x, y) })
	case n:
		panic(errSQL)
	case p.kw("="):
		if p.kw("any") {
			p.must("(")
			p.must("array")
			p.must("[")
			l := p.list("]")
			p.must(")")
			return in(a, l)
		}
		return bin(eq)
	case p.kw("<>") || p.kw("!="):
		if p.kw("all") {
			p.must("(")
			p.must("array")
			p.must("[")
			l := p.list("]")
			p.must(")")
			return neg(in(a, l))
		}
		return bin(func(x, y string) bool { return x != y })
	}
	return a
}
func lit(v string) expr { return func(env) (string, error) { return v, nil } }
func (p *parser) operand() expr {
	t := p.peek()
	var x expr
	switch {
	case t == "(":
		p.i++
		x = p.or()
		p.must(")")
	case strings.HasPrefix(t, "'"):
		p.i++
		x = lit(strings.ReplaceAll(t[1:len(t)-1], "''", "'"))
	case t != "" && t[0] >= '0' && t[0] <= '9':
		p.i++
		x = lit(t)
	case strings.HasPrefix(t, "$"):
		p.i++
		n, _ := strconv.Atoi(t[1:])
		if n < 1 || n > len(p.args) {
			panic(errSQL)
		}
		x = lit(p.args[n-1])
	default:
		a, ok := p.ident()
		if !ok {
			panic(errSQL)
		}
		if p.kw("(") {
			p.must(")")
			if a != "current_database" && a != "current_catalog" {
				panic(errSQL)
			}
			x = func(e env) (string, error) { return e[""]["db"], nil }
			break
		}
		ref := colRef{"", a}
		if p.kw(".") {
			b, ok := p.ident()
			if !ok {
				panic(errSQL)
			}
			if a == "pg_catalog" && p.kw("(") { // pg_catalog.current_database()
				p.must(")")
				if b != "current_database" {
					panic(errSQL)
				}
				x = func(e env) (string, error) { return e[""]["db"], nil }
				break
			}
			ref = colRef{a, b}
		} else if a == "current_catalog" {
			x = func(e env) (string, error) { return e[""]["db"], nil }
			break
		}
		x = func(e env) (string, error) {
			found, v := 0, ""
			for al, r := range e {
				if al != "" && (ref.tab == "" || ref.tab == al) {
					if y, ok := r[ref.col]; ok {
						found++
						v = y
					}
				}
			}
			if found != 1 {
				return "", errSQL
			}
			return v, nil
		}
	}
	for p.kw("::") {
		ty, ok := p.ident()
		if !ok || !regexp.MustCompile(`^(text|name|oid|int8|bigint|varchar|int|integer|int4|char|bpchar)$`).MatchString(ty) {
			panic(errSQL)
		}
	}
	return x
}
func (p *parser) fromItem() fromItem {
	t, ok := p.ident()
	if !ok {
		panic(errSQL)
	}
	if t == "pg_catalog" && p.kw(".") {
		t, ok = p.ident()
	}
	if !ok || t != "pg_class" && t != "pg_namespace" {
		panic(errSQL)
	}
	al := t
	p.kw("as")
	if a, ok := p.ident(); ok {
		al = a
	}
	return fromItem{table: t, alias: al}
}

func parse(s string, args []string) (q query, err error) {
	defer func() {
		if x := recover(); x != nil {
			if x == errSQL {
				err = errSQL
				return
			}
			panic(x)
		}
	}()
	ts, err := tokens(s)
	if err != nil {
		return q, err
	}
	p := &parser{t: ts, args: args}
	q.limit = 1 << 30
	p.must("select")
	for {
		q.cols = append(q.cols, p.or())
		if p.kw("as") {
			p.i++
		} else {
			p.ident()
		}
		if !p.kw(",") {
			break
		}
	}
	if p.kw("from") {
		q.from = append(q.from, p.fromItem())
		for {
			if p.kw(",") || p.kw("cross", "join") {
				q.from = append(q.from, p.fromItem())
			} else if p.kw("join") || p.kw("inner", "join") {
				f := p.fromItem()
				p.must("on")
				f.on = p.or()
				q.from = append(q.from, f)
			} else {
				break
			}
		}
	}
	if p.kw("where") {
		q.where = p.or()
	}
	if p.kw("order", "by") {
		for {
			o := order{e: p.operand()}
			if p.kw("desc") {
				o.desc = true
			} else {
				p.kw("asc")
			}
			q.order = append(q.order, o)
			if !p.kw(",") {
				break
			}
		}
	}
	for {
		if p.kw("limit") {
			q.limit, err = strconv.Atoi(p.next())
		} else if p.kw("offset") {
			q.off, err = strconv.Atoi(p.next())
		} else {
			break
		}
		if err != nil {
			return q, errSQL
		}
	}
	p.kw(";")
	if p.i < len(p.t) {
		return q, errSQL
	}
	return q, nil
}

// eval runs a query.
func (q query) eval(db string, class, ns []rel) ([][]string, error) {
	type out struct {
		row  []string
		keys []string
	}
	var res []out
	base := rel{"db": db}
	var walk func(i int, e env) error
	walk = func(i int, e env) error {
		if i < len(q.from) {
			f := q.from[i]
			rows := class
			if f.table == "pg_namespace" {
				rows = ns
			}
			for _, r := range rows {
				e2 := env{"": base}
				for k, v := range e {
					e2[k] = v
				}
				if _, ok := e2[f.alias]; ok {
					return errSQL
				}
				e2[f.alias] = r
				if f.on != nil {
					v, err := f.on(e2)
					if err != nil {
						return err
					}
					if v != "t" {
						continue
					}
				}
				if err := walk(i+1, e2); err != nil {
					return err
				}
			}
			return nil
		}
		if q.where != nil {
			v, err := q.where(e)
			if err != nil || v != "t" {
				return err
			}
		}
		var o out
		for _, c := range q.cols {
			v, err := c(e)
			if err != nil {
				return err
			}
			o.row = append(o.row, v)
		}
		for _, k := range q.order {
			v, err := k.e(e)
			if err != nil {
				return err
			}
			o.keys = append(o.keys, v)
		}
		res = append(res, o)
		return nil
	}
	if err := walk(0, env{"": base}); err != nil {
		return nil, err
	}
	sort.SliceStable(res, func(i, j int) bool {
		for k := range q.order {
			if a, b := res[i].keys[k], res[j].keys[k]; a != b {
				return (a < b) != q.order[k].desc
			}
		}
		return false
	})
	var rows [][]string
	for i, o := range res {
		if i >= q.off && len(rows) < q.limit {
			rows = append(rows, o.row)
		}
	}
	return rows, nil
}

func (p *parser) String() string { return fmt.Sprint(p.t[p.i:]) }
