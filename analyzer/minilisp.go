package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// The part of the interpreter that is written in Lisp (embed/*.lsp and
// startup.lsp) is source of the repository like any other. It is read and
// interpreted here over opaque values: forms of the user are opaque, too, and
// every evaluation of one is recorded.

type lsym struct {
	name string
	own  bool // made by gensym
}

type lcell struct{ car, cdr any }

type lopq struct{ name string } // a value that is nothing but itself

type luser struct { // a form of the user
	name string
	vals []any
	n    int
}

type lfun struct {
	name   string
	params []*lsym
	rest   *lsym
	body   any
	env    *lenv
	macro  bool
	do     func(m *lmach, args []any) any
}

type lvec struct{ items []any }

type lenv struct {
	up   *lenv
	vars map[*lsym]any
	funs map[*lsym]*lfun
}

type lfail struct{ text string } // an error of Lisp

type lexit struct { // a non-local exit
	tag *lenv
	val any
}

type lunknown struct{ text string } // what the analysis does not follow

type llib struct {
	files map[string]any // the expressions of the library, by name
	where map[string]string
	start []any
	text  map[string]string
}

// loadLib reads the library as the embed directives say.
func (p *Prog) loadLib() (*llib, error) {
	l := &llib{files: map[string]any{}, where: map[string]string{}, text: map[string]string{}}
	dir := ""
	for _, f := range p.All {
		if f.Pkg == p.Main && f.Pos().IsValid() {
			dir = filepath.Dir(p.Fset.Position(f.Pos()).Filename)
			break
		}
	}
	names, err := filepath.Glob(filepath.Join(dir, "embed", "*.lsp"))
	if err != nil {
		return nil, err
	}
	sy := map[string]*lsym{}
	_ = sy
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		base := strings.TrimSuffix(filepath.Base(n), ".lsp")
		l.where[base] = "embed/" + filepath.Base(n) + ":1"
		l.text[base] = string(b)
	}
	b, err := os.ReadFile(filepath.Join(dir, "startup.lsp"))
	if err == nil {
		l.text["/startup"] = string(b)
	}
	return l, nil
}

// ---- reader

type lread struct {
	s    string
	i    int
	syms map[string]*lsym
	user map[string]*luser
	bad  string
}

func (r *lread) sym(n string) *lsym {
	if s := r.syms[n]; s != nil {
		return s
	}
	s := &lsym{name: n}
	r.syms[n] = s
	return s
}

func (r *lread) skip() {
	for r.i < len(r.s) {
		c := r.s[r.i]
		switch {
		case c == ';':
			for r.i < len(r.s) && r.s[r.i] != '\n' {
				r.i++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			r.i++
		default:
			return
		}
	}
}

func (r *lread) done() bool { r.skip(); return r.i >= len(r.s) }

func (r *lread) list(l ...any) any {
	var v any
	for i := len(l) - 1; i >= 0; i-- {
		v = &lcell{l[i], v}
	}
	return v
}

func (r *lread) read() any {
	r.skip()
	if r.i >= len(r.s) {
		r.bad = "the text ends too early"
		return nil
	}
	c := r.s[r.i]
	r.i++
	switch c {
	case '(':
		var l []any
		var tail any
		for {
			r.skip()
			if r.i >= len(r.s) {
				r.bad = "a list is not closed"
				return nil
			}
			if r.s[r.i] == ')' {
				r.i++
				break
			}
			if r.s[r.i] == '.' && r.i+1 < len(r.s) && strings.ContainsRune(" \n\t(", rune(r.s[r.i+1])) {
				r.i++
				tail = r.read()
				continue
			}
			l = append(l, r.read())
			if r.bad != "" {
				return nil
			}
		}
		v := tail
		for i := len(l) - 1; i >= 0; i-- {
			v = &lcell{l[i], v}
		}
		return v
	case ')':
		r.bad = "a closing parenthesis too many"
		return nil
	case '\'':
		return r.list(r.sym("quote"), r.read())
	case '`':
		return r.list(r.sym("quasiquote"), r.read())
	case ',':
		if r.i < len(r.s) && r.s[r.i] == '@' {
			r.i++
			return r.list(r.sym("unquote-splicing"), r.read())
		}
		return r.list(r.sym("unquote"), r.read())
	case '#':
		if r.i < len(r.s) && r.s[r.i] == '\'' {
			r.i++
			return r.list(r.sym("function"), r.read())
		}
		if r.i < len(r.s) && r.s[r.i] == '(' {
			v := &lvec{}
			for l := r.read(); l != nil; l = l.(*lcell).cdr {
				v.items = append(v.items, l.(*lcell).car)
			}
			return v
		}
	case '"':
		var b strings.Builder
		for r.i < len(r.s) && r.s[r.i] != '"' {
			if r.s[r.i] == '\\' {
				r.i++
			}
			b.WriteByte(r.s[r.i])
			r.i++
		}
		r.i++
		return b.String()
	}
	j := r.i
	for r.i < len(r.s) && !strings.ContainsRune(" \t\r\n();'`,\"", rune(r.s[r.i])) {
		r.i++
	}
	w := string(c) + r.s[j:r.i]
	if n, err := strconv.Atoi(w); err == nil {
		return n
	}
	if r.user != nil {
		if len(w) == 2 && strings.Contains("FB", w[:1]) && w[1] >= '0' && w[1] <= '9' {
			u := r.user[w]
			if u == nil {
				u = &luser{name: w}
				r.user[w] = u
			}
			return u
		}
	}
	w = strings.ToLower(w)
	if w == "nil" {
		return nil
	}
	return r.sym(w)
}

// ---- printing

func lshow(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case int:
		return strconv.Itoa(v)
	case string:
		return strconv.Quote(v)
	case *lsym:
		return v.name
	case *lopq:
		return v.name
	case *luser:
		return v.name
	case *lfun:
		return "#<" + v.name + ">"
	case *lvec:
		var l []string
		for _, x := range v.items {
			l = append(l, lshow(x))
		}
		return "#(" + strings.Join(l, " ") + ")"
	case *lcell:
		var b strings.Builder
		b.WriteByte('(')
		n := 0
		for {
			if n++; n > 50 {
				return "(endless)"
			}
			b.WriteString(lshow(v.car))
			c, ok := v.cdr.(*lcell)
			if !ok {
				if v.cdr != nil {
					b.WriteString(" . " + lshow(v.cdr))
				}
				break
			}
			b.WriteByte(' ')
			v = c
		}
		return b.String() + ")"
	}
	return fmt.Sprintf("%v", v)
}

// ---- evaluation

type lmach struct {
	p      *Prog
	lib    *llib
	rd     *lread
	root   *lenv
	loaded map[string]*lfun
	events []string
	caught map[string]bool // variables of the library that forms of the user see
	used   map[string]bool
	steps  int
	gen    int
	script map[string][]any // results of opaque functions, by name
}

func newMach(p *Prog, lib *llib) *lmach {
	m := &lmach{p: p, lib: lib, loaded: map[string]*lfun{}, caught: map[string]bool{}, used: map[string]bool{}, script: map[string][]any{}}
	m.rd = &lread{syms: map[string]*lsym{}, user: map[string]*luser{}}
	m.root = &lenv{vars: map[*lsym]any{}, funs: map[*lsym]*lfun{}}
	return m
}

func (m *lmach) parse(s string) (out []any) {
	u := m.rd.user
	defer func() { m.rd.user = u }()
	m.rd.s, m.rd.i, m.rd.bad = s, 0, ""
	for !m.rd.done() {
		out = append(out, m.rd.read())
		if m.rd.bad != "" {
			panic(lunknown{m.rd.bad})
		}
	}
	return
}

func (m *lmach) parseLib(s string) []any {
	u := m.rd.user
	m.rd.user = nil
	defer func() { m.rd.user = u }()
	m.rd.s, m.rd.i, m.rd.bad = s, 0, ""
	var out []any
	for !m.rd.done() {
		out = append(out, m.rd.read())
		if m.rd.bad != "" {
			panic(lfail{m.rd.bad})
		}
	}
	return out
}

func (m *lmach) sy(n string) *lsym { return m.rd.sym(n) }

func (m *lmach) ev(f string, a ...any) { m.events = append(m.events, fmt.Sprintf(f, a...)) }

func (m *lmach) fail(f string, a ...any) { panic(lfail{fmt.Sprintf(f, a...)}) }

func (m *lmach) cell(v any, what string) *lcell {
	c, ok := v.(*lcell)
	if !ok {
		m.fail("%s of %s, which is no list with elements", what, lshow(v))
	}
	return c
}

func (m *lmach) items(v any) (l []any) {
	for n := 0; v != nil; n++ {
		c, ok := v.(*lcell)
		if !ok || n > 100 {
			m.fail("%s is no list", lshow(v))
		}
		l = append(l, c.car)
		v = c.cdr
	}
	return
}

func (m *lmach) truth(b bool) any {
	if b {
		return m.sy("t")
	}
	return nil
}

func (e *lenv) child() *lenv { return &lenv{up: e, vars: map[*lsym]any{}} }

func (e *lenv) find(s *lsym) *lenv {
	for ; e != nil; e = e.up {
		if _, ok := e.vars[s]; ok {
			return e
		}
	}
	return nil
}

func (e *lenv) fn(s *lsym) *lfun {
	for ; e != nil; e = e.up {
		if f := e.funs[s]; f != nil {
			return f
		}
	}
	return nil
}

// visible lists the variables that are bound around a form of the user, other
// than its own.
func (m *lmach) visible(e *lenv) string {
	var l []string
	seen := map[*lsym]bool{}
	for ; e != nil && e != m.root; e = e.up {
		for s, v := range e.vars {
			if seen[s] || s.own {
				continue
			}
			seen[s] = true
			if strings.HasPrefix(s.name, "?") {
				l = append(l, s.name[1:]+"="+lshow(v))
			} else {
				m.caught[s.name] = true
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	sortStrings(l)
	return "{" + strings.Join(l, ",") + "}"
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func (m *lmach) body(l any, e *lenv) (v any) {
	for _, f := range m.items(l) {
		v = m.eval(f, e)
	}
	return
}

func (m *lmach) eval(f any, e *lenv) any {
	if m.steps++; m.steps > 20000 {
		panic(lunknown{"does not end"})
	}
	switch f := f.(type) {
	case *luser:
		m.ev("%s%s", f.name, m.visible(e))
		if f.n++; len(f.vals) == 0 {
			return &lopq{f.name}
		}
		i := f.n - 1
		if i >= len(f.vals) {
			i = len(f.vals) - 1
		}
		return f.vals[i]
	case *lsym:
		if f.name == "t" || strings.HasPrefix(f.name, ":") {
			return f
		}
		if strings.HasPrefix(f.name, "<") {
			return f
		}
		b := e.find(f)
		if b == nil {
			m.fail("the variable %s is not bound", f.name)
		}
		return b.vars[f]
	case *lcell:
		if c, ok := f.car.(*lcell); ok && c.car == m.sy("lambda") {
			return m.apply(m.closure(c.cdr, e, false), m.evlis(f.cdr, e))
		}
		s, ok := f.car.(*lsym)
		if !ok {
			m.fail("%s is no operator", lshow(f.car))
		}
		return m.form(s, f.cdr, e)
	}
	return f
}

func (m *lmach) evlis(l any, e *lenv) (out []any) {
	for _, x := range m.items(l) {
		out = append(out, m.eval(x, e))
	}
	return
}

func (m *lmach) closure(l any, e *lenv, macro bool) *lfun {
	c := m.cell(l, "the parameters")
	f := &lfun{name: "lambda", body: c.cdr, env: e, macro: macro}
	ps := m.items(c.car)
	for i := 0; i < len(ps); i++ {
		s, ok := ps[i].(*lsym)
		if !ok {
			m.fail("%s is no parameter", lshow(ps[i]))
		}
		if s.name == "&rest" || s.name == ":rest" {
			if i+1 >= len(ps) {
				m.fail("%s without a parameter", s.name)
			}
			f.rest = ps[i+1].(*lsym)
			break
		}
		f.params = append(f.params, s)
	}
	return f
}

func (m *lmach) apply(f *lfun, args []any) any {
	if f.do != nil {
		return f.do(m, args)
	}
	e := f.env.child()
	if len(args) < len(f.params) || len(args) > len(f.params) && f.rest == nil {
		m.fail("%s is called with %d arguments", f.name, len(args))
	}
	for i, s := range f.params {
		e.vars[s] = args[i]
	}
	if f.rest != nil {
		e.vars[f.rest] = m.rd.list(args[len(f.params):]...)
	}
	return m.body(f.body, e)
}

// function is what a name means in the place of an operator.
func (m *lmach) function(s *lsym, e *lenv) *lfun {
	if f := e.fn(s); f != nil {
		return f
	}
	if f := m.loaded[s.name]; f != nil {
		return f
	}
	if do := lbuiltins[s.name]; do != nil && m.p.Builtin(s.name) != nil {
		return &lfun{name: s.name, do: do}
	}
	if b := m.p.Builtin(s.name); b != nil {
		return &lfun{name: s.name, do: func(m *lmach, args []any) any {
			var l []string
			for _, a := range args {
				l = append(l, lshow(a))
			}
			for _, a := range args {
				if f, ok := a.(*lfun); ok && b.Kind != "other" {
					panic(lunknown{s.name + " of " + f.name})
				}
			}
			if b.Kind == "special" {
				panic(lunknown{s.name})
			}
			min, max := b.Range()
			if len(args) < min || max >= 0 && len(args) > max {
				m.fail("%s is called with %d arguments", s.name, len(args))
			}
			m.ev("%s(%s)", s.name, strings.Join(l, ","))
			return &lopq{"(" + strings.Join(append([]string{s.name}, l...), " ") + ")"}
		}}
	}
	if t, ok := m.lib.text[s.name]; ok {
		m.used[s.name] = true
		l := m.parseLib(t)
		if len(l) != 1 {
			m.fail("the file of %s has %d expressions", s.name, len(l))
		}
		f, ok := m.eval(l[0], m.root).(*lfun)
		if !ok {
			m.fail("the file of %s does not make a function", s.name)
		}
		f.name = s.name
		m.loaded[s.name] = f
		return f
	}
	m.fail("there is no operator %s", s.name)
	return nil
}

func (m *lmach) form(s *lsym, args any, e *lenv) any {
	if e.fn(s) == nil {
		if sp := lspecial[s.name]; sp != nil {
			if m.p.Builtin(s.name) == nil {
				m.fail("there is no operator %s", s.name)
			}
			return sp(m, args, e)
		}
	}
	f := m.function(s, e)
	if f.macro {
		x := m.apply(f, m.items(args))
		return m.eval(x, e)
	}
	return m.apply(f, m.evlis(args, e))
}

func (m *lmach) let(args any, e *lenv, star bool) any {
	c := m.cell(args, "the bindings")
	in := e.child()
	for _, b := range m.items(c.car) {
		var s *lsym
		var v any
		from := e
		if star {
			from = in
		}
		switch b := b.(type) {
		case *lsym:
			s = b
		case *lcell:
			s, _ = b.car.(*lsym)
			if b.cdr != nil {
				v = m.eval(m.cell(b.cdr, "the value").car, from)
			}
		}
		if s == nil {
			m.fail("%s is no variable", lshow(b))
		}
		if star {
			in = in.child()
		}
		in.vars[s] = v
	}
	return m.body(c.cdr, in)
}

func (m *lmach) quasi(t any, depth int, e *lenv) any {
	c, ok := t.(*lcell)
	if !ok {
		return t
	}
	if c.car == any(m.sy("unquote")) {
		return m.eval(m.cell(c.cdr, "unquote").car, e)
	}
	if x, ok := c.car.(*lcell); ok && x.car == any(m.sy("unquote-splicing")) {
		l := m.items(m.eval(m.cell(x.cdr, "unquote").car, e))
		rest := m.quasi(c.cdr, depth, e)
		for i := len(l) - 1; i >= 0; i-- {
			rest = &lcell{l[i], rest}
		}
		return rest
	}
	car := m.quasi(c.car, depth, e)
	return &lcell{car, m.quasi(c.cdr, depth, e)}
}

func (m *lmach) set(s any, v any, e *lenv) {
	y, ok := s.(*lsym)
	if !ok {
		m.fail("%s is no variable", lshow(s))
	}
	b := e.find(y)
	if b == nil {
		m.fail("the variable %s is assigned, but not bound", y.name)
	}
	b.vars[y] = v
}

func arg(m *lmach, l any, n int) any {
	for ; n > 0; n-- {
		l = m.cell(l, "the operands").cdr
	}
	return m.cell(l, "the operands").car
}

var lspecial map[string]func(m *lmach, args any, e *lenv) any

var lbuiltins map[string]func(m *lmach, args []any) any

func init() {
	lspecial = map[string]func(m *lmach, args any, e *lenv) any{
		"quote":        func(m *lmach, a any, e *lenv) any { return arg(m, a, 0) },
		"quasiquote":   func(m *lmach, a any, e *lenv) any { return m.quasi(arg(m, a, 0), 1, e) },
		"lambda":       func(m *lmach, a any, e *lenv) any { return m.closure(a, e, false) },
		"lambda-macro": func(m *lmach, a any, e *lenv) any { return m.closure(a, e, true) },
		"let":          func(m *lmach, a any, e *lenv) any { return m.let(a, e, false) },
		"let*":         func(m *lmach, a any, e *lenv) any { return m.let(a, e, true) },
		"progn":        func(m *lmach, a any, e *lenv) any { return m.body(a, e) },
		"if": func(m *lmach, a any, e *lenv) any {
			if m.eval(arg(m, a, 0), e) != nil {
				return m.eval(arg(m, a, 1), e)
			}
			rest := m.cell(m.cell(a, "if").cdr, "if").cdr
			if rest == nil {
				return nil
			}
			return m.eval(arg(m, rest, 0), e)
		},
		"cond": func(m *lmach, a any, e *lenv) any {
			for _, cl := range m.items(a) {
				c := m.cell(cl, "a clause")
				if v := m.eval(c.car, e); v != nil {
					if c.cdr == nil {
						return v
					}
					return m.body(c.cdr, e)
				}
			}
			return nil
		},
		"and": func(m *lmach, a any, e *lenv) any {
			var v any = m.sy("t")
			for _, f := range m.items(a) {
				if v = m.eval(f, e); v == nil {
					break
				}
			}
			return v
		},
		"or": func(m *lmach, a any, e *lenv) any {
			for _, f := range m.items(a) {
				if v := m.eval(f, e); v != nil {
					return v
				}
			}
			return nil
		},
		"while": func(m *lmach, a any, e *lenv) any {
			c := m.cell(a, "while")
			var v any
			for m.eval(c.car, e) != nil {
				v = m.body(c.cdr, e)
			}
			return v
		},
		"case": func(m *lmach, a any, e *lenv) any {
			c := m.cell(a, "case")
			k := m.eval(c.car, e)
			for _, x := range m.items(c.cdr) {
				cl := m.cell(x, "a clause")
				if cl.car == any(m.sy("t")) {
					return m.body(cl.cdr, e)
				}
				for _, y := range m.items(cl.car) {
					if y == k {
						return m.body(cl.cdr, e)
					}
				}
			}
			return nil
		},
		"setq": func(m *lmach, a any, e *lenv) any {
			l := m.items(a)
			var v any
			for i := 0; i+1 < len(l); i += 2 {
				v = m.eval(l[i+1], e)
				m.set(l[i], v, e)
			}
			if len(l)%2 != 0 {
				m.fail("setq of %d operands", len(l))
			}
			return v
		},
		"psetq": func(m *lmach, a any, e *lenv) any {
			l := m.items(a)
			if len(l)%2 != 0 {
				m.fail("psetq of %d operands", len(l))
			}
			var vs []any
			for i := 0; i+1 < len(l); i += 2 {
				vs = append(vs, m.eval(l[i+1], e))
			}
			for i, v := range vs {
				m.set(l[2*i], v, e)
			}
			return nil
		},
		"function": func(m *lmach, a any, e *lenv) any {
			switch x := arg(m, a, 0).(type) {
			case *lsym:
				if lspecial[x.name] != nil && e.fn(x) == nil {
					m.fail("#'%s of a special operator", x.name)
				}
				return m.function(x, e)
			case *lcell:
				return m.closure(x.cdr, e, false)
			}
			m.fail("function of %s", lshow(a))
			return nil
		},
		"funcall": func(m *lmach, a any, e *lenv) any {
			l := m.evlis(a, e)
			return m.call(l[0], l[1:])
		},
		"apply": func(m *lmach, a any, e *lenv) any {
			l := m.evlis(a, e)
			return m.call(l[0], append(append([]any{}, l[1:len(l)-1]...), m.items(l[len(l)-1])...))
		},
		"block": func(m *lmach, a any, e *lenv) any {
			c := m.cell(a, "block")
			in := e.child()
			in.vars[&lsym{name: "block " + lshow(c.car), own: true}] = nil
			return m.receive(in, func() any { return m.body(c.cdr, in) })
		},
		"return": func(m *lmach, a any, e *lenv) any { return m.leave("nil", m.eval(arg(m, a, 0), e), e) },
		"return-from": func(m *lmach, a any, e *lenv) any {
			return m.leave(lshow(arg(m, a, 0)), m.eval(arg(m, a, 1), e), e)
		},
		"flet":   func(m *lmach, a any, e *lenv) any { return m.flet(a, e, false) },
		"labels": func(m *lmach, a any, e *lenv) any { return m.flet(a, e, true) },
		"defun": func(m *lmach, a any, e *lenv) any {
			s := arg(m, a, 0).(*lsym)
			f := m.closure(m.cell(a, "defun").cdr, e, false)
			f.name = s.name
			m.loaded[s.name] = f
			return s
		},
		"class": func(m *lmach, a any, e *lenv) any { return arg(m, a, 0) },
		"defdynamic": func(m *lmach, a any, e *lenv) any {
			v := m.eval(arg(m, a, 1), e)
			m.ev("dynamic %s=%s", lshow(arg(m, a, 0)), lshow(v))
			return arg(m, a, 0)
		},
		"defclass": func(m *lmach, a any, e *lenv) any { return nil },
		"defmethod": func(m *lmach, a any, e *lenv) any {
			return nil
		},
	}
	lbuiltins = map[string]func(m *lmach, a []any) any{
		"return": func(m *lmach, a []any) any { panic(lunknown{"return as a function"}) },
		"car": func(m *lmach, a []any) any {
			if a[0] == nil {
				return nil
			}
			return m.cell(a[0], "car").car
		},
		"rest": func(m *lmach, a []any) any { return lbuiltins["cdr"](m, a) },
		"cdr": func(m *lmach, a []any) any {
			if a[0] == nil {
				return nil
			}
			return m.cell(a[0], "cdr").cdr
		},
		"cons": func(m *lmach, a []any) any { return &lcell{a[0], a[1]} },
		"list": func(m *lmach, a []any) any { return m.rd.list(a...) },
		"append": func(m *lmach, a []any) any {
			if len(a) == 0 {
				return nil
			}
			v := a[len(a)-1]
			for i := len(a) - 2; i >= 0; i-- {
				l := m.items(a[i])
				for j := len(l) - 1; j >= 0; j-- {
					v = &lcell{l[j], v}
				}
			}
			return v
		},
		"mapcar": func(m *lmach, a []any) any { return m.rd.list(m.overLists(a, false)...) },
		"mapc":   func(m *lmach, a []any) any { m.overLists(a, false); return a[1] },
		"mapl":   func(m *lmach, a []any) any { m.overLists(a, true); return a[1] },
		"maplist": func(m *lmach, a []any) any {
			return m.rd.list(m.overLists(a, true)...)
		},
		"mapcan": func(m *lmach, a []any) any { return lbuiltins["append"](m, m.overLists(a, false)) },
		"mapcon": func(m *lmach, a []any) any { return lbuiltins["append"](m, m.overLists(a, true)) },
		"reverse": func(m *lmach, a []any) any {
			var v any
			for _, x := range m.items(a[0]) {
				v = &lcell{x, v}
			}
			return v
		},
		"nreverse": func(m *lmach, a []any) any { return lbuiltins["reverse"](m, a) },
		"list*": func(m *lmach, a []any) any {
			v := a[len(a)-1]
			for i := len(a) - 2; i >= 0; i-- {
				v = &lcell{a[i], v}
			}
			return v
		},
		"member": func(m *lmach, a []any) any {
			for l := a[1]; l != nil; l = m.cell(l, "member").cdr {
				if lshow(m.cell(l, "member").car) == lshow(a[0]) {
					return l
				}
			}
			return nil
		},
		"numberp": func(m *lmach, a []any) any { _, ok := a[0].(int); return m.truth(ok) },
		"vector":  func(m *lmach, a []any) any { return &lvec{items: append([]any{}, a...)} },
		"aref": func(m *lmach, a []any) any {
			v, ok := a[0].(*lvec)
			i, ok2 := a[1].(int)
			if !ok || !ok2 || len(a) != 2 || i < 0 || i >= len(v.items) {
				m.fail("aref out of range")
			}
			return v.items[i]
		},
		"elt": func(m *lmach, a []any) any {
			n, ok := a[len(a)-1].(int)
			if !ok || len(a) != 2 {
				m.fail("elt with the index %s", lshow(a[len(a)-1]))
			}
			if v, ok := a[0].(*lvec); ok {
				if n < 0 || n >= len(v.items) {
					m.fail("elt out of range")
				}
				return v.items[n]
			}
			l := a[0]
			for ; n > 0; n-- {
				if l == nil {
					return nil
				}
				l = m.cell(l, "elt").cdr
			}
			if l == nil {
				return nil
			}
			return m.cell(l, "elt").car
		},
		"length": func(m *lmach, a []any) any {
			switch v := a[0].(type) {
			case string:
				return len([]rune(v))
			case *lvec:
				return len(v.items)
			}
			return len(m.items(a[0]))
		},
		"+": func(m *lmach, a []any) any { return m.fold("+", a) },
		"-": func(m *lmach, a []any) any { return m.fold("-", a) },
		"<": func(m *lmach, a []any) any { return m.rel(a, func(c int) bool { return c < 0 }) },
		">": func(m *lmach, a []any) any { return m.rel(a, func(c int) bool { return c > 0 }) },
		"<=": func(m *lmach, a []any) any {
			return m.rel(a, func(c int) bool { return c <= 0 })
		},
		">=": func(m *lmach, a []any) any {
			return m.rel(a, func(c int) bool { return c >= 0 })
		},
		"=":             func(m *lmach, a []any) any { return m.rel(a, func(c int) bool { return c == 0 }) },
		"eq":            func(m *lmach, a []any) any { return m.truth(a[0] == a[1]) },
		"eql":           func(m *lmach, a []any) any { return m.truth(a[0] == a[1]) },
		"equal":         func(m *lmach, a []any) any { return m.truth(lshow(a[0]) == lshow(a[1])) },
		"not":           func(m *lmach, a []any) any { return m.truth(a[0] == nil) },
		"null":          func(m *lmach, a []any) any { return m.truth(a[0] == nil) },
		"zerop":         func(m *lmach, a []any) any { return m.rel([]any{a[0], 0}, func(c int) bool { return c == 0 }) },
		"consp":         func(m *lmach, a []any) any { _, ok := a[0].(*lcell); return m.truth(ok) },
		"listp":         func(m *lmach, a []any) any { _, ok := a[0].(*lcell); return m.truth(ok || a[0] == nil) },
		"atom":          func(m *lmach, a []any) any { _, ok := a[0].(*lcell); return m.truth(!ok) },
		"symbolp":       func(m *lmach, a []any) any { _, ok := a[0].(*lsym); return m.truth(ok || a[0] == nil) },
		"stringp":       func(m *lmach, a []any) any { _, ok := a[0].(string); return m.truth(ok) },
		"integerp":      func(m *lmach, a []any) any { _, ok := a[0].(int); return m.truth(ok) },
		"basic-array-p": func(m *lmach, a []any) any { _, ok := a[0].(*lvec); _, s := a[0].(string); _ = s; return m.truth(ok) },
		"functionp":     func(m *lmach, a []any) any { _, ok := a[0].(*lfun); return m.truth(ok) },
		"set-car":       func(m *lmach, a []any) any { m.cell(a[1], "set-car").car = a[0]; return a[0] },
		"set-cdr":       func(m *lmach, a []any) any { m.cell(a[1], "set-cdr").cdr = a[0]; return a[0] },
		"set-aref": func(m *lmach, a []any) any {
			v, ok := a[1].(*lvec)
			i, ok2 := a[2].(int)
			if !ok || !ok2 || len(a) != 3 || i < 0 || i >= len(v.items) {
				m.fail("set-aref out of range")
			}
			v.items[i] = a[0]
			return a[0]
		},
		"assoc": func(m *lmach, a []any) any {
			for _, x := range m.items(a[1]) {
				if c, ok := x.(*lcell); ok && lshow(c.car) == lshow(a[0]) {
					return c
				}
			}
			return nil
		},
		"gensym": func(m *lmach, a []any) any { m.gen++; return &lsym{name: "g" + strconv.Itoa(m.gen), own: true} },
		"convert": func(m *lmach, a []any) any {
			c, _ := a[1].(*lsym)
			if s, ok := a[0].(*lsym); ok && c != nil && c.name == "<string>" {
				return s.name
			}
			if s, ok := a[0].(string); ok && c != nil && c.name == "<symbol>" {
				return m.sy(s)
			}
			panic(lunknown{"convert " + lshow(a[0])})
		},
		"string-append": func(m *lmach, a []any) any {
			s := ""
			for _, x := range a {
				y, ok := x.(string)
				if !ok {
					m.fail("string-append of %s", lshow(x))
				}
				s += y
			}
			return s
		},
		"create-string": func(m *lmach, a []any) any {
			n, ok := a[0].(int)
			if !ok || len(a) != 2 {
				panic(lunknown{"create-string"})
			}
			return strings.Repeat(strings.TrimPrefix(lshow(a[1]), "#\\"), n)
		},
		"subseq": func(m *lmach, a []any) any {
			s, ok := a[0].(string)
			i, ok2 := a[1].(int)
			j, ok3 := a[2].(int)
			if !ok || !ok2 || !ok3 || i < 0 || j < i || j > len(s) {
				m.fail("subseq out of range")
			}
			return s[i:j]
		},
	}
}

// overLists calls a[0] with the elements (or tails) of the lists in a[1:].
func (m *lmach) overLists(a []any, tails bool) (out []any) {
	ls := append([]any{}, a[1:]...)
	for {
		var args []any
		for i, l := range ls {
			if l == nil {
				return
			}
			c := m.cell(l, "a list to map over")
			if tails {
				args = append(args, l)
			} else {
				args = append(args, c.car)
			}
			ls[i] = c.cdr
		}
		out = append(out, m.call(a[0], args))
	}
}

func (m *lmach) fold(op string, a []any) any {
	sum, known := 0, true
	var t []string
	for i, x := range a {
		n, ok := x.(int)
		if !ok {
			if _, opq := x.(*lopq); !opq {
				m.fail("%s of %s", op, lshow(x))
			}
			known = false
		}
		t = append(t, lshow(x))
		if op == "-" && i > 0 {
			sum -= n
		} else {
			sum += n
		}
	}
	if op == "-" && len(a) == 1 {
		sum = -sum
	}
	if !known {
		return &lopq{"(" + op + " " + strings.Join(t, " ") + ")"}
	}
	return sum
}

func (m *lmach) rel(a []any, f func(int) bool) any {
	for i := 0; i+1 < len(a); i++ {
		x, ok := a[i].(int)
		y, ok2 := a[i+1].(int)
		if !ok || !ok2 {
			m.fail("comparison of %s and %s", lshow(a[i]), lshow(a[i+1]))
		}
		if !f(x - y) {
			return nil
		}
	}
	return m.sy("t")
}

func (m *lmach) flet(args any, e *lenv, rec bool) any {
	c := m.cell(args, "the functions")
	in := e.child()
	in.funs = map[*lsym]*lfun{}
	for _, d := range m.items(c.car) {
		x := m.cell(d, "a function")
		s := x.car.(*lsym)
		env := e
		if rec {
			env = in
		}
		f := m.closure(x.cdr, env, false)
		f.name = s.name
		in.funs[s] = f
	}
	return m.body(c.cdr, in)
}

func (m *lmach) receive(tag *lenv, f func() any) (v any) {
	defer func() {
		if x := recover(); x != nil {
			if l, ok := x.(lexit); ok && l.tag == tag {
				v = l.val
				return
			}
			panic(x)
		}
	}()
	return f()
}

func (m *lmach) leave(name string, v any, e *lenv) any {
	for ; e != nil; e = e.up {
		for s := range e.vars {
			if s.own && s.name == "block "+name {
				panic(lexit{e, v})
			}
		}
	}
	m.fail("return-from %s, which is not active", name)
	return nil
}

func (m *lmach) call(f any, args []any) any {
	switch f := f.(type) {
	case *lfun:
		return m.apply(f, args)
	case *lopq:
		var l []string
		for _, a := range args {
			l = append(l, lshow(a))
		}
		m.ev("%s(%s)", f.name, strings.Join(l, ","))
		if vs := m.script[f.name]; len(vs) > 0 {
			if len(vs) > 1 {
				m.script[f.name] = vs[1:]
			}
			return vs[0]
		}
		return &lopq{f.name + "()"}
	}
	m.fail("%s is called, which is no function", lshow(f))
	return nil
}
