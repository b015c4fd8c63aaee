package main

// Deductive check of the redis scripts: the Lua text is taken from the constants of the repository, parsed (a subset
// of Lua 5.1), executed symbolically over an unbounded redis state (a list of any length, a string key, expiries) and
// every path is checked against the specification of the limiter.

import (
	"fmt"
	"go/constant"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- lexer and parser

type luaTok struct {
	k string // name, num, str, op, eof
	s string
}

type luaErr struct{ msg string }

func luaFail(f string, a ...interface{}) { panic(luaErr{fmt.Sprintf(f, a...)}) }

func luaLex(s string) []luaTok {
	var out []luaTok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--[["):
			k := strings.Index(s[i:], "]]")
			if k < 0 {
				luaFail("comment")
			}
			i += k + 2
		case strings.HasPrefix(s[i:], "--"):
			k := strings.IndexByte(s[i:], '\n')
			if k < 0 {
				k = len(s) - i
			}
			i += k
		case c == '\'' || c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					default:
						sb.WriteByte(s[j])
					}
				} else {
					sb.WriteByte(s[j])
				}
				j++
			}
			out = append(out, luaTok{"str", sb.String()})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
				j++
			}
			if j < len(s) && (s[j] == '.' && !strings.HasPrefix(s[j:], "..") || s[j] == 'x' || s[j] == 'e') {
				luaFail("number literal")
			}
			out = append(out, luaTok{"num", s[i:j]})
			i = j
		case c == '_' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || unicode.IsLetter(rune(s[j])) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, luaTok{"name", s[i:j]})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"...", "==", "~=", "<=", ">=", ".."} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			out = append(out, luaTok{"op", op})
			i += len(op)
		}
	}
	return append(out, luaTok{"eof", ""})
}

type lnode struct {
	k    string
	s    string
	kids []*lnode
	body [][]*lnode
}

type luaParser struct {
	t []luaTok
	p int
}

func (p *luaParser) peek() luaTok { return p.t[p.p] }
func (p *luaParser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "name") && t.s == s
}
func (p *luaParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *luaParser) expect(s string) {
	if !p.accept(s) {
		luaFail("expected %q, found %q", s, p.peek().s)
	}
}

func (p *luaParser) block() []*lnode {
	var out []*lnode
	for {
		t := p.peek()
		if t.k == "eof" || t.k == "name" && (t.s == "end" || t.s == "else" || t.s == "elseif" || t.s == "until") {
			return out
		}
		if p.accept(";") {
			continue
		}
		out = append(out, p.stat())
	}
}

func (p *luaParser) name() string {
	t := p.peek()
	if t.k != "name" {
		luaFail("name expected, found %q", t.s)
	}
	p.p++
	return t.s
}

func (p *luaParser) exprs() []*lnode {
	out := []*lnode{p.expr(0)}
	for p.accept(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func (p *luaParser) stat() *lnode {
	switch {
	case p.accept("local"):
		if p.is("function") {
			luaFail("local function")
		}
		n := &lnode{k: "local"}
		n.s = p.name()
		for p.accept(",") {
			n.s += "," + p.name()
		}
		if p.accept("=") {
			n.kids = p.exprs()
		}
		return n
	case p.accept("if"):
		n := &lnode{k: "if"}
		for {
			n.kids = append(n.kids, p.expr(0))
			p.expect("then")
			n.body = append(n.body, p.block())
			if p.accept("elseif") {
				continue
			}
			if p.accept("else") {
				n.body = append(n.body, p.block())
			}
			p.expect("end")
			return n
		}
	case p.accept("for"):
		n := &lnode{k: "for", s: p.name()}
		p.expect("=")
		n.kids = p.exprs()
		p.expect("do")
		n.body = [][]*lnode{p.block()}
		p.expect("end")
		return n
	case p.accept("while"):
		n := &lnode{k: "while", kids: []*lnode{p.expr(0)}}
		p.expect("do")
		n.body = [][]*lnode{p.block()}
		p.expect("end")
		return n
	case p.accept("do"):
		n := &lnode{k: "do", body: [][]*lnode{p.block()}}
		p.expect("end")
		return n
	case p.accept("return"):
		n := &lnode{k: "return"}
		t := p.peek()
		if !(t.k == "eof" || p.is("end") || p.is("else") || p.is("elseif") || p.is(";")) {
			n.kids = p.exprs()
		}
		p.accept(";")
		return n
	}
	e := p.suffixed()
	if p.accept("=") {
		if e.k != "name" {
			luaFail("assignment to an expression")
		}
		return &lnode{k: "assign", s: e.s, kids: p.exprs()}
	}
	if e.k != "call" {
		luaFail("statement %q", e.k)
	}
	return &lnode{k: "callstat", kids: []*lnode{e}}
}

func (p *luaParser) suffixed() *lnode {
	var e *lnode
	if p.accept("(") {
		e = p.expr(0)
		p.expect(")")
	} else {
		e = &lnode{k: "name", s: p.name()}
	}
	for {
		switch {
		case p.accept("."):
			e = &lnode{k: "field", s: p.name(), kids: []*lnode{e}}
		case p.accept("["):
			i := p.expr(0)
			p.expect("]")
			e = &lnode{k: "index", kids: []*lnode{e, i}}
		case p.accept("("):
			c := &lnode{k: "call", kids: []*lnode{e}}
			if !p.is(")") {
				c.kids = append(c.kids, p.exprs()...)
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}

var luaPrec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

func (p *luaParser) expr(lim int) *lnode {
	var l *lnode
	t := p.peek()
	switch {
	case p.accept("not"):
		l = &lnode{k: "not", kids: []*lnode{p.expr(7)}}
	case p.accept("-"):
		l = &lnode{k: "neg", kids: []*lnode{p.expr(7)}}
	case p.accept("#"):
		l = &lnode{k: "len", kids: []*lnode{p.expr(7)}}
	case t.k == "num" || t.k == "str":
		p.p++
		l = &lnode{k: t.k, s: t.s}
	case p.is("nil") || p.is("true") || p.is("false"):
		p.p++
		l = &lnode{k: t.s}
	case p.accept("{"):
		l = &lnode{k: "table"}
		for !p.accept("}") {
			l.kids = append(l.kids, p.expr(0))
			if !p.accept(",") {
				p.accept(";")
			}
		}
	default:
		l = p.suffixed()
	}
	for {
		o := p.peek()
		pr, ok := luaPrec[o.s]
		if !ok || o.k == "str" || o.k == "num" || pr <= lim {
			return l
		}
		p.p++
		r := pr
		if o.s == ".." {
			r--
		}
		l = &lnode{k: "bin", s: o.s, kids: []*lnode{l, p.expr(r)}}
	}
}

// ---- values and state

// LV kinds: nil bool num str numstr key seq tab fn
type LV struct {
	k   string
	t   *Term
	s   string
	tab []LV
	off, n *Term // seq: a copy of list elements arr[off..off+n)
	arr *Term
}

type luaState struct {
	pc               []*Term
	off, n, arr      *Term // record list
	noExp            *Term // record list has no expiry
	exp              *Term
	blocked, bNoExp  *Term
	bmsg, bttl       *Term
	env              map[string]LV
	wrote            bool
	done             bool
	ret              LV
	err              string
	wrong            string // touched something it must not touch
}

func (s *luaState) clone() *luaState {
	c := *s
	c.pc = append([]*Term{}, s.pc...)
	c.env = map[string]LV{}
	for k, v := range s.env {
		c.env[k] = v
	}
	return &c
}

type luaExec struct {
	n     int
	steps int
}

func (x *luaExec) fresh(h string, s Sort) *Term {
	x.n++
	return Var(fmt.Sprintf("lua_%s!%d", h, x.n), s)
}

// split: feasible successors for a condition
func (x *luaExec) split(s *luaState, c *Term) (yes, no *luaState) {
	try := func(c *Term) *luaState {
		if c == tFalse {
			return nil
		}
		n := s.clone()
		if c != tTrue {
			n.pc = append(n.pc, c)
			if !Feasible(n.pc) {
				return nil
			}
		}
		return n
	}
	return try(c), try(Not(c))
}

func luaNum(t *Term) LV { return LV{k: "num", t: t} }

// truth: condition under which the value counts as true
func luaTruth(v LV) *Term {
	switch v.k {
	case "nil":
		return tFalse
	case "bool":
		return v.t
	}
	return tTrue
}

type luaCont func(*luaState, LV)

func (x *luaExec) errs(s *luaState, f string, a ...interface{}) {
	s.done = true
	s.err = fmt.Sprintf(f, a...)
}

// eval calls k for every feasible way to evaluate e; states in error are collected in x via k with s.done
func (x *luaExec) eval(s *luaState, e *lnode, k luaCont) {
	if x.steps++; x.steps > 20000 {
		luaFail("too many steps")
	}
	switch e.k {
	case "num":
		n, _ := strconv.ParseInt(e.s, 10, 64)
		k(s, luaNum(Int(n)))
	case "str":
		k(s, LV{k: "str", t: Str(e.s)})
	case "nil":
		k(s, LV{k: "nil"})
	case "true":
		k(s, LV{k: "bool", t: tTrue})
	case "false":
		k(s, LV{k: "bool", t: tFalse})
	case "name":
		v, ok := s.env[e.s]
		if !ok {
			switch e.s {
			case "redis", "math", "table", "tonumber", "tostring", "unpack":
				v = LV{k: "fn", s: e.s}
			default:
				luaFail("unknown global %s", e.s)
			}
		}
		k(s, v)
	case "field":
		x.eval(s, e.kids[0], func(s *luaState, v LV) {
			if s.done {
				k(s, v)
				return
			}
			if v.k != "fn" {
				luaFail("field %s", e.s)
			}
			k(s, LV{k: "fn", s: v.s + "." + e.s})
		})
	case "neg":
		x.eval(s, e.kids[0], func(s *luaState, v LV) {
			if !s.done && v.k != "num" && v.k != "numstr" {
				x.errs(s, "arithmetic on %s", v.k)
			}
			if s.done {
				k(s, v)
				return
			}
			k(s, luaNum(Neg(v.t)))
		})
	case "not":
		x.eval(s, e.kids[0], func(s *luaState, v LV) {
			if s.done {
				k(s, v)
				return
			}
			k(s, LV{k: "bool", t: Not(luaTruth(v))})
		})
	case "len":
		x.eval(s, e.kids[0], func(s *luaState, v LV) {
			if s.done {
				k(s, v)
				return
			}
			k(s, x.length(s, v))
		})
	case "table":
		x.evalList(s, e.kids, func(s *luaState, vs []LV) { k(s, LV{k: "tab", tab: vs}) }, k)
	case "index":
		x.evalList(s, e.kids, func(s *luaState, vs []LV) {
			i := vs[1]
			if i.k != "num" {
				luaFail("index by %s", i.k)
			}
			switch vs[0].k {
			case "tab":
				if !i.t.isInt() {
					luaFail("symbolic index")
				}
				n := int(i.t.ival.Int64())
				if n < 1 || n > len(vs[0].tab) {
					k(s, LV{k: "nil"})
				} else {
					k(s, vs[0].tab[n-1])
				}
			case "seq":
				yes, no := x.split(s, And(Le(Int(1), i.t), Le(i.t, vs[0].n)))
				if yes != nil {
					k(yes, LV{k: "numstr", t: Select(vs[0].arr, Add(vs[0].off, i.t, Int(-1)))})
				}
				if no != nil {
					k(no, LV{k: "nil"})
				}
			default:
				x.errs(s, "index of %s", vs[0].k)
				k(s, LV{})
			}
		}, k)
	case "bin":
		x.binary(s, e, k)
	case "call":
		x.eval(s, e.kids[0], func(s *luaState, f LV) {
			if s.done {
				k(s, f)
				return
			}
			x.evalList(s, e.kids[1:], func(s *luaState, vs []LV) { x.call(s, f, vs, k) }, k)
		})
	default:
		luaFail("expression %s", e.k)
	}
}

func (x *luaExec) evalList(s *luaState, es []*lnode, k func(*luaState, []LV), kerr luaCont) {
	var rec func(s *luaState, i int, acc []LV)
	rec = func(s *luaState, i int, acc []LV) {
		if i == len(es) {
			k(s, acc)
			return
		}
		x.eval(s, es[i], func(s *luaState, v LV) {
			if s.done {
				kerr(s, v)
				return
			}
			rec(s, i+1, append(append([]LV{}, acc...), v))
		})
	}
	rec(s, 0, nil)
}

func (x *luaExec) length(s *luaState, v LV) LV {
	switch v.k {
	case "tab":
		return luaNum(Int(int64(len(v.tab))))
	case "seq":
		return luaNum(v.n)
	case "str":
		return luaNum(StrLen(v.t))
	}
	luaFail("length of %s", v.k)
	return LV{}
}

func (x *luaExec) binary(s *luaState, e *lnode, k luaCont) {
	x.eval(s, e.kids[0], func(s *luaState, a LV) {
		if s.done {
			k(s, a)
			return
		}
		if e.s == "and" || e.s == "or" {
			yes, no := x.split(s, luaTruth(a))
			short, long := no, yes
			if e.s == "or" {
				short, long = yes, no
			}
			if short != nil {
				r := a
				if a.k == "bool" {
					r = LV{k: "bool", t: Bool(e.s == "or")}
				}
				k(short, r)
			}
			if long != nil {
				x.eval(long, e.kids[1], k)
			}
			return
		}
		x.eval(s, e.kids[1], func(s *luaState, b LV) {
			if s.done {
				k(s, b)
				return
			}
			isN := func(v LV) bool { return v.k == "num" || v.k == "numstr" }
			switch e.s {
			case "+", "-", "*", "/", "%":
				if !isN(a) || !isN(b) {
					x.errs(s, "arithmetic on %s and %s", a.k, b.k)
					k(s, a)
					return
				}
				switch e.s {
				case "+":
					k(s, luaNum(Add(a.t, b.t)))
				case "-":
					k(s, luaNum(Sub(a.t, b.t)))
				case "*":
					k(s, luaNum(Mul(a.t, b.t)))
				default:
					luaFail("operator %s", e.s)
				}
			case "<", "<=", ">", ">=":
				if a.k != "num" || b.k != "num" {
					if a.k == "numstr" && b.k == "numstr" || a.k == "str" || b.k == "str" {
						luaFail("comparison of strings")
					}
					x.errs(s, "attempt to compare %s with %s", a.k, b.k)
					k(s, a)
					return
				}
				var c *Term
				switch e.s {
				case "<":
					c = Lt(a.t, b.t)
				case "<=":
					c = Le(a.t, b.t)
				case ">":
					c = Lt(b.t, a.t)
				default:
					c = Le(b.t, a.t)
				}
				k(s, LV{k: "bool", t: c})
			case "==", "~=":
				var c *Term
				switch {
				case a.k == "nil" || b.k == "nil":
					c = Bool(a.k == b.k)
				case a.k != b.k && (a.k == "bool" || b.k == "bool" || a.k == "num" || b.k == "num"):
					c = tFalse
				case a.k == b.k && (a.k == "num" || a.k == "bool" || a.k == "str"):
					c = Eq(a.t, b.t)
				default:
					luaFail("equality of %s and %s", a.k, b.k)
				}
				if e.s == "~=" {
					c = Not(c)
				}
				k(s, LV{k: "bool", t: c})
			case "..":
				if a.k == "str" && b.k == "str" {
					k(s, LV{k: "str", t: Concat(a.t, b.t)})
					return
				}
				luaFail("concatenation of %s and %s", a.k, b.k)
			default:
				luaFail("operator %s", e.s)
			}
		})
	})
}

func (x *luaExec) call(s *luaState, f LV, vs []LV, k luaCont) {
	if f.k != "fn" {
		luaFail("call of %s", f.k)
	}
	need := func(n int) {
		if len(vs) < n {
			luaFail("arguments of %s", f.s)
		}
	}
	switch f.s {
	case "tonumber":
		need(1)
		switch vs[0].k {
		case "num", "numstr":
			k(s, luaNum(vs[0].t))
		case "nil", "bool":
			k(s, LV{k: "nil"})
		default:
			luaFail("tonumber of %s", vs[0].k)
		}
	case "tostring":
		need(1)
		if vs[0].k == "num" || vs[0].k == "numstr" {
			k(s, LV{k: "numstr", t: vs[0].t})
			return
		}
		if vs[0].k == "str" {
			k(s, vs[0])
			return
		}
		luaFail("tostring of %s", vs[0].k)
	case "math.max", "math.min":
		need(2)
		r := vs[0].t
		for _, v := range vs {
			if v.k != "num" && v.k != "numstr" {
				luaFail("%s of %s", f.s, v.k)
			}
		}
		for _, v := range vs[1:] {
			if f.s == "math.max" {
				r = Ite(Le(r, v.t), v.t, r)
			} else {
				r = Ite(Le(r, v.t), r, v.t)
			}
		}
		k(s, luaNum(r))
	case "math.floor", "math.ceil":
		need(1)
		k(s, luaNum(vs[0].t))
	case "math.abs":
		need(1)
		k(s, luaNum(Ite(Le(Int(0), vs[0].t), vs[0].t, Neg(vs[0].t))))
	case "table.getn":
		need(1)
		k(s, x.length(s, vs[0]))
	case "redis.call", "redis.pcall":
		need(1)
		if vs[0].k != "str" || !vs[0].t.isStr() {
			luaFail("computed redis command")
		}
		x.redis(s, strings.ToUpper(vs[0].t.sval), vs[1:], k)
	default:
		luaFail("call of %s", f.s)
	}
}

// redis: the commands the scripts may use
func (x *luaExec) redis(s *luaState, cmd string, a []LV, k luaCont) {
	if len(a) == 0 || a[0].k != "key" {
		luaFail("redis command %s without a key", cmd)
	}
	key := a[0].s
	num := func(i int) *Term {
		if i >= len(a) || a[i].k != "num" && a[i].k != "numstr" {
			luaFail("argument %d of %s", i, cmd)
		}
		return a[i].t
	}
	bad := func(f string, as ...interface{}) {
		s.done = true
		s.wrong = fmt.Sprintf(f, as...)
		k(s, LV{})
	}
	bool01 := func(c *Term) LV { return luaNum(Ite(c, Int(1), Int(0))) }
	del := func(s *luaState) {
		if key == "rec" {
			s.off, s.n, s.noExp, s.exp = Int(0), Int(0), tTrue, Int(0)
		} else {
			s.blocked, s.bNoExp, s.bttl, s.bmsg = tFalse, tTrue, Int(0), Str("")
		}
		s.wrote = true
	}
	isStrKey := key == "blk"
	switch cmd {
	case "EXISTS":
		if isStrKey {
			k(s, bool01(s.blocked))
		} else {
			k(s, bool01(Lt(Int(0), s.n)))
		}
	case "TTL":
		var ex, noexp, v *Term
		if isStrKey {
			ex, noexp, v = s.blocked, s.bNoExp, s.bttl
		} else {
			ex, noexp, v = Lt(Int(0), s.n), s.noExp, s.exp
		}
		k(s, luaNum(Ite(Not(ex), Int(-2), Ite(noexp, Int(-1), v))))
	case "DEL":
		del(s)
		k(s, luaNum(Int(1)))
	case "EXPIRE":
		v := num(1)
		ex := s.blocked
		if !isStrKey {
			ex = Lt(Int(0), s.n)
		}
		yes, no := x.split(s, ex)
		if no != nil {
			k(no, luaNum(Int(0)))
		}
		if yes != nil {
			pos, neg := x.split(yes, Lt(Int(0), v))
			if neg != nil {
				s0 := s
				s = neg
				del(neg)
				s = s0
				k(neg, luaNum(Int(1)))
			}
			if pos != nil {
				if isStrKey {
					pos.bNoExp, pos.bttl = tFalse, v
				} else {
					pos.noExp, pos.exp = tFalse, v
				}
				pos.wrote = true
				k(pos, luaNum(Int(1)))
			}
		}
	case "PERSIST":
		if isStrKey {
			s.bNoExp = tTrue
		} else {
			s.noExp = tTrue
		}
		k(s, luaNum(Int(1)))
	case "GET":
		if !isStrKey {
			bad("GET of the record list")
			return
		}
		yes, no := x.split(s, s.blocked)
		if yes != nil {
			k(yes, LV{k: "str", t: yes.bmsg})
		}
		if no != nil {
			k(no, LV{k: "bool", t: tFalse})
		}
	case "SET", "SETEX", "SETNX":
		if !isStrKey {
			bad("%s of the record list", cmd)
			return
		}
		var val LV
		var ttl *Term
		nx, xx, keep := false, false, false
		switch cmd {
		case "SETEX":
			ttl = num(1)
			val = a[2]
		default:
			nx = cmd == "SETNX"
			if len(a) < 2 {
				luaFail("SET")
			}
			val = a[1]
			for i := 2; i < len(a); i++ {
				if a[i].k != "str" || !a[i].t.isStr() {
					luaFail("option of SET")
				}
				switch strings.ToUpper(a[i].t.sval) {
				case "EX":
					i++
					ttl = num(i)
				case "NX":
					nx = true
				case "XX":
					xx = true
				case "KEEPTTL":
					keep = true
				default:
					luaFail("option %s of SET", a[i].t.sval)
				}
			}
		}
		if val.k != "str" {
			bad("block message is not a string")
			return
		}
		if ttl != nil {
			pos, neg := x.split(s, Lt(Int(0), ttl))
			if neg != nil {
				x.errs(neg, "invalid expire time")
				k(neg, LV{})
			}
			if pos == nil {
				return
			}
			s = pos
		}
		do := func(s *luaState) {
			s.blocked, s.bmsg = tTrue, val.t
			if ttl != nil {
				s.bNoExp, s.bttl = tFalse, ttl
			} else if !keep {
				s.bNoExp = tTrue
			}
			s.wrote = true
			k(s, LV{k: "str", t: Str("OK")})
		}
		if nx || xx {
			yes, no := x.split(s, s.blocked)
			if xx {
				yes, no = no, yes
			}
			if yes != nil {
				k(yes, LV{k: "bool", t: tFalse})
			}
			if no != nil {
				do(no)
			}
			return
		}
		do(s)
	case "LLEN", "RPUSH", "LPUSH", "LPOP", "RPOP", "LRANGE", "LINDEX", "LTRIM":
		if isStrKey {
			bad("%s of the block key", cmd)
			return
		}
		x.list(s, cmd, a, num, k)
	default:
		luaFail("redis command %s", cmd)
	}
}

func (x *luaExec) list(s *luaState, cmd string, a []LV, num func(int) *Term, k luaCont) {
	// range -> (start, count) of the elements start..stop, redis rules
	rng := func(s *luaState, i, j *Term) (*Term, *Term) {
		norm := func(v *Term) *Term { return Ite(Lt(v, Int(0)), Add(v, s.n), v) }
		b := norm(i)
		b = Ite(Lt(b, Int(0)), Int(0), b)
		e := norm(j)
		e = Ite(Le(s.n, e), Sub(s.n, Int(1)), e)
		cnt := Ite(Or(Lt(e, b), Le(s.n, b)), Int(0), Add(Sub(e, b), Int(1)))
		return b, cnt
	}
	empty := func(s *luaState) { // a list without elements does not exist
		s.noExp = Ite(Eq(s.n, Int(0)), tTrue, s.noExp)
	}
	switch cmd {
	case "LLEN":
		k(s, luaNum(s.n))
	case "RPUSH":
		for i := range a[1:] {
			s.arr = Store(s.arr, Add(s.off, s.n), num(i+1))
			s.n = Add(s.n, Int(1))
		}
		s.wrote = true
		k(s, luaNum(s.n))
	case "LPUSH":
		for i := range a[1:] {
			s.off = Sub(s.off, Int(1))
			s.arr = Store(s.arr, s.off, num(i+1))
			s.n = Add(s.n, Int(1))
		}
		s.wrote = true
		k(s, luaNum(s.n))
	case "LPOP", "RPOP":
		if len(a) > 1 {
			luaFail("%s with a count", cmd)
		}
		yes, no := x.split(s, Lt(Int(0), s.n))
		if no != nil {
			k(no, LV{k: "bool", t: tFalse})
		}
		if yes != nil {
			var v *Term
			if cmd == "LPOP" {
				v = Select(yes.arr, yes.off)
				yes.off = Add(yes.off, Int(1))
			} else {
				v = Select(yes.arr, Add(yes.off, yes.n, Int(-1)))
			}
			yes.n = Sub(yes.n, Int(1))
			empty(yes)
			yes.wrote = true
			k(yes, LV{k: "numstr", t: v})
		}
	case "LRANGE":
		b, cnt := rng(s, num(1), num(2))
		k(s, LV{k: "seq", arr: s.arr, off: Add(s.off, b), n: cnt})
	case "LINDEX":
		i := num(1)
		i = Ite(Lt(i, Int(0)), Add(i, s.n), i)
		yes, no := x.split(s, And(Le(Int(0), i), Lt(i, s.n)))
		if yes != nil {
			k(yes, LV{k: "numstr", t: Select(yes.arr, Add(yes.off, i))})
		}
		if no != nil {
			k(no, LV{k: "bool", t: tFalse})
		}
	case "LTRIM":
		b, cnt := rng(s, num(1), num(2))
		s.off = Add(s.off, b)
		s.n = cnt
		empty(s)
		s.wrote = true
		k(s, LV{k: "str", t: Str("OK")})
	}
}

// ---- statements

func (x *luaExec) block(s *luaState, b []*lnode, k func(*luaState)) {
	if s.done || len(b) == 0 {
		k(s)
		return
	}
	rest := func(s *luaState) { x.block(s, b[1:], k) }
	st := b[0]
	switch st.k {
	case "local", "assign":
		names := strings.Split(st.s, ",")
		x.evalList(s, st.kids, func(s *luaState, vs []LV) {
			for i, n := range names {
				v := LV{k: "nil"}
				if i < len(vs) {
					v = vs[i]
				}
				if _, ok := s.env[n]; st.k == "assign" && !ok {
					luaFail("global variable %s", n)
				}
				s.env[n] = v
			}
			rest(s)
		}, func(s *luaState, _ LV) { k(s) })
	case "callstat":
		x.eval(s, st.kids[0], func(s *luaState, _ LV) { rest(s) })
	case "return":
		if len(st.kids) != 1 {
			luaFail("return of %d values", len(st.kids))
		}
		x.eval(s, st.kids[0], func(s *luaState, v LV) {
			if !s.done {
				s.done, s.ret = true, v
			}
			k(s)
		})
	case "do":
		x.scoped(s, st.body[0], rest)
	case "if":
		var arm func(s *luaState, i int)
		arm = func(s *luaState, i int) {
			if i == len(st.kids) {
				if i < len(st.body) {
					x.scoped(s, st.body[i], rest)
				} else {
					rest(s)
				}
				return
			}
			x.eval(s, st.kids[i], func(s *luaState, v LV) {
				if s.done {
					k(s)
					return
				}
				yes, no := x.split(s, luaTruth(v))
				if yes != nil {
					x.scoped(yes, st.body[i], rest)
				}
				if no != nil {
					arm(no, i+1)
				}
			})
		}
		arm(s, 0)
	case "for":
		x.evalList(s, st.kids, func(s *luaState, vs []LV) {
			step := Int(1)
			if len(vs) == 3 {
				step = vs[2].t
			}
			if !step.isInt() || step.ival.Sign() == 0 || vs[0].k != "num" || vs[1].k != "num" {
				luaFail("for loop bounds")
			}
			d := Sub(vs[1].t, vs[0].t)
			st0 := step
			if step.ival.Sign() < 0 {
				d, st0 = Neg(d), Neg(step)
			}
			cnt := Ite(Lt(d, Int(0)), Int(0), Add(DivF(d, st0), Int(1)))
			x.loop(s, cnt, nil, st.body[0], func(s *luaState, j *Term) {
				s.env[st.s] = luaNum(Add(vs[0].t, Mul(j, step)))
			}, rest, st.s)
		}, func(s *luaState, _ LV) { k(s) })
	case "while":
		x.loop(s, nil, st.kids[0], st.body[0], func(*luaState, *Term) {}, rest, "")
	default:
		luaFail("statement %s", st.k)
	}
}

// scoped: locals of the block go out of scope
func (x *luaExec) scoped(s *luaState, b []*lnode, k func(*luaState)) {
	outer := map[string]bool{}
	for n := range s.env {
		outer[n] = true
	}
	var locals = map[string]LV{}
	for _, st := range b {
		if st.k == "local" {
			for _, n := range strings.Split(st.s, ",") {
				if v, ok := s.env[n]; ok {
					locals[n] = v
				}
			}
		}
	}
	x.block(s, b, func(s *luaState) {
		for n := range s.env {
			if !outer[n] {
				delete(s.env, n)
			}
		}
		for n, v := range locals {
			s.env[n] = v
		}
		k(s)
	})
}

// loop: constant trip counts are unrolled; otherwise the effect of one iteration is found to be a constant step of the
// state, proved to be so for every iteration, and multiplied by the number of iterations
func (x *luaExec) loop(s *luaState, cnt *Term, cond *lnode, body []*lnode, bind func(*luaState, *Term), k func(*luaState), loopVar string) {
	if cnt != nil && cnt.isInt() && cnt.ival.Int64() <= 64 {
		var it func(s *luaState, j int64)
		it = func(s *luaState, j int64) {
			if s.done || j >= cnt.ival.Int64() {
				delete(s.env, loopVar)
				k(s)
				return
			}
			bind(s, Int(j))
			x.scoped(s, body, func(s *luaState) { it(s, j+1) })
		}
		it(s, 0)
		return
	}
	if cond != nil && allConstState(s) {
		var it func(s *luaState, j int)
		it = func(s *luaState, j int) {
			if j > 64 {
				luaFail("loop does not end")
			}
			if s.done {
				k(s)
				return
			}
			x.eval(s, cond, func(s *luaState, v LV) {
				yes, no := x.split(s, luaTruth(v))
				if no != nil {
					k(no)
				}
				if yes != nil {
					x.scoped(yes, body, func(s *luaState) { it(s, j+1) })
				}
			})
		}
		it(s, 0)
		return
	}
	// one iteration from an arbitrary state
	type comp struct {
		get func(*luaState) *Term
		set func(*luaState, *Term)
		nm  string
	}
	comps := []comp{
		{func(s *luaState) *Term { return s.off }, func(s *luaState, t *Term) { s.off = t }, "off"},
		{func(s *luaState) *Term { return s.n }, func(s *luaState, t *Term) { s.n = t }, "n"},
	}
	for n, v := range s.env {
		if v.k == "num" {
			n := n
			comps = append(comps, comp{func(s *luaState) *Term { return s.env[n].t }, func(s *luaState, t *Term) { s.env[n] = luaNum(t) }, n})
		}
	}
	g := s.clone()
	for _, c := range comps {
		c.set(g, x.fresh("it_"+c.nm, SInt))
	}
	base := g.clone()
	g.pc = append(g.pc, Le(Int(0), g.n))
	jg := x.fresh("j", SInt)
	bind(g, jg)
	var cands [][]*Term
	x.scoped(g, body, func(r *luaState) {
		if r.done {
			return
		}
		var ds []*Term
		for _, c := range comps {
			d := Sub(c.get(r), c.get(base))
			if !d.isInt() {
				return
			}
			ds = append(ds, d)
		}
		cands = append(cands, ds)
	})
	for _, ds := range cands {
		at := func(s0 *luaState, j *Term) *luaState {
			r := s0.clone()
			for i, c := range comps {
				c.set(r, Add(c.get(s0), Mul(ds[i], j)))
			}
			return r
		}
		j := x.fresh("j", SInt)
		t := at(s, j)
		t.pc = append(t.pc, Le(Int(0), j))
		ok := true
		step := func(t *luaState) {
			bind(t, j)
			nxt := at(s, Add(j, Int(1)))
			x.scoped(t, body, func(r *luaState) {
				if r.done {
					ok = false
					return
				}
				var eqs []*Term
				for _, c := range comps {
					eqs = append(eqs, Eq(c.get(r), c.get(nxt)))
				}
				eqs = append(eqs, Eq(r.arr, s.arr), Eq(r.blocked, s.blocked), Eq(r.noExp, s.noExp), Eq(r.exp, s.exp), Eq(r.bttl, s.bttl), Eq(r.bmsg, s.bmsg))
				for _, e := range eqs {
					if ok && !ProveQuick(r.pc, e, 2*time.Second) {
						ok = false
					}
				}
			})
		}
		if cnt != nil {
			t.pc = append(t.pc, Lt(j, cnt))
			step(t)
		} else {
			x.eval(t, cond, func(t *luaState, v LV) {
				if t.done {
					ok = false
					return
				}
				if yes, _ := x.split(t, luaTruth(v)); yes != nil {
					step(yes)
				}
			})
		}
		if !ok {
			continue
		}
		n := cnt
		if n == nil {
			n = x.fresh("iterations", SInt)
		}
		e := at(s, n)
		e.wrote = true
		if cnt != nil {
			delete(e.env, loopVar)
			k(e)
			return
		}
		// the condition fails after the last iteration and held before it
		e.pc = append(e.pc, Le(Int(0), n))
		prev := at(s, Sub(n, Int(1)))
		x.eval(prev, cond, func(p *luaState, v LV) { e.pc = append(e.pc, Imp(Lt(Int(0), n), luaTruth(v))) })
		x.eval(e, cond, func(e *luaState, v LV) {
			if _, no := x.split(e, luaTruth(v)); no != nil {
				k(no)
			}
		})
		return
	}
	luaFail("loop without a constant step")
}

func allConstState(s *luaState) bool { return s.n.isInt() }

// ---- specification

type luaParams struct{ cap, win, exp, now, msg *Term }

type luaCase struct {
	what string
	goal *Term
}

func numEq(v LV, t *Term) *Term {
	if v.k != "num" {
		return tFalse
	}
	return Eq(v.t, t)
}

func strEq(v LV, t *Term) *Term {
	if v.k != "str" {
		return tFalse
	}
	return Eq(v.t, t)
}

func replyIs(v LV, b, trig, ttl, msg *Term) *Term {
	if v.k != "tab" || len(v.tab) != 4 {
		return tFalse
	}
	return And(numEq(v.tab[0], b), numEq(v.tab[1], trig), numEq(v.tab[2], ttl), strEq(v.tab[3], msg))
}

// luaSpec: the obligations of one finished path; pre is the initial state
func luaSpec(which string, pre, s *luaState, p luaParams) []luaCase {
	if s.wrong != "" {
		return []luaCase{{"uses each key for its own purpose: " + s.wrong, tFalse}}
	}
	if s.err != "" {
		return []luaCase{{"never fails: " + s.err, tFalse}}
	}
	if !s.done {
		return []luaCase{{"always answers", tFalse}}
	}
	z, one := Int(0), Int(1)
	blkSame := And(Eq(s.blocked, pre.blocked), Imp(pre.blocked, And(Eq(s.bmsg, pre.bmsg), Eq(s.bNoExp, pre.bNoExp), Imp(Not(pre.bNoExp), Eq(s.bttl, pre.bttl)))))
	i := BVar("i", SInt)
	// the newest m of the old records, followed by extra
	suffix := func(m *Term) *Term {
		var rng []*Term
		if m.isInt() {
			for q := int64(0); q < m.ival.Int64(); q++ {
				rng = append(rng, Eq(Select(s.arr, Add(s.off, Int(q))), Select(pre.arr, Add(pre.off, pre.n, Neg(m), Int(q)))))
			}
			return And(rng...)
		}
		return Forall([]*Term{i}, Imp(And(Le(z, i), Lt(i, m)), Eq(Select(s.arr, Add(s.off, i)), Select(pre.arr, Add(pre.off, pre.n, Neg(m), i)))))
	}
	listSame := And(Eq(s.n, pre.n), suffix(pre.n))
	expKept := Or(s.noExp, And(Not(pre.noExp), Not(s.noExp), Eq(s.exp, pre.exp)), Lt(p.win, s.exp))
	ttl := Ite(pre.bNoExp, Int(-1), pre.bttl)
	var out []luaCase
	add := func(w string, c, g *Term) {
		if c != tFalse {
			out = append(out, luaCase{w, Imp(c, g)})
		}
	}
	if which == "query" {
		add("the query only reads", tTrue, And(blkSame, listSame))
		add("a blocked key is reported with its remaining time and message", pre.blocked, replyIs(s.ret, one, z, ttl, pre.bmsg))
		add("a key that is not blocked is reported as passed", Not(pre.blocked), replyIs(s.ret, z, z, z, Str("")))
		return out
	}
	off := Or(Le(p.cap, z), Le(p.win, z), Le(p.exp, z))
	add("a non-positive parameter passes", off, replyIs(s.ret, z, z, z, Str("")))
	add("a non-positive parameter touches nothing", off, And(blkSame, listSame, Eq(s.noExp, pre.noExp), Eq(s.exp, pre.exp)))
	c1 := And(Not(off), pre.blocked)
	add("an existing block refuses without triggering, with its remaining time and message", c1, replyIs(s.ret, one, z, ttl, pre.bmsg))
	add("an existing block is left alone", c1, blkSame)
	add("a refused request records nothing", c1, And(listSame, expKept))
	full := Le(p.cap, pre.n)
	oldest := Select(pre.arr, Add(pre.off, pre.n, Neg(p.cap)))
	over := And(full, Le(Sub(p.now, oldest), p.win))
	c2 := And(Not(off), Not(pre.blocked), over)
	add("exceeding the limit refuses and triggers, with the timeout and message", c2, replyIs(s.ret, one, one, p.exp, p.msg))
	add("exceeding the limit creates the block key with the timeout as expiry", c2, And(s.blocked, Not(s.bNoExp), Eq(s.bttl, p.exp), Eq(s.bmsg, p.msg)))
	add("a refused request records nothing", c2, And(Le(p.cap, s.n), Le(s.n, pre.n), suffix(s.n), expKept))
	c3 := And(Not(off), Not(pre.blocked), Not(over))
	add("within the limit the request passes", c3, replyIs(s.ret, z, z, z, Str("")))
	add("a passed request does not block", c3, Not(s.blocked))
	n1 := Sub(s.n, one)
	add("a passed request is recorded as newest", c3, And(Lt(z, s.n), Eq(Select(s.arr, Add(s.off, n1)), p.now)))
	add("the newest records are kept, at most capacity once the list is full", c3, And(Eq(s.n, Ite(full, p.cap, Add(pre.n, one))), suffix(n1)))
	add("records outlive the window", c3, Or(s.noExp, Lt(p.win, s.exp)))
	return out
}

func luaInit(x *luaExec) (*luaState, luaParams) {
	p := luaParams{Var("lua_cap", SInt), Var("lua_win", SInt), Var("lua_exp", SInt), Var("lua_now", SInt), Var("lua_msg", SStr)}
	s := &luaState{env: map[string]LV{}, off: Int(0), n: Var("lua_n", SInt), arr: Var("lua_records", SArr(SInt, SInt)), noExp: Var("lua_noexpiry", SBool), exp: Var("lua_expiry", SInt),
		blocked: Var("lua_blocked", SBool), bNoExp: Var("lua_bnoexpiry", SBool), bmsg: Var("lua_bmsg", SStr), bttl: Var("lua_bttl", SInt)}
	s.pc = []*Term{Le(Int(0), s.n), Imp(Eq(s.n, Int(0)), s.noExp), Imp(Not(s.noExp), Lt(Int(0), s.exp)), Imp(s.blocked, Or(s.bNoExp, Le(Int(0), s.bttl)))}
	return s, p
}

func luaEnv(s *luaState, which string, p luaParams) {
	if which == "query" {
		s.env["KEYS"] = LV{k: "tab", tab: []LV{{k: "key", s: "blk"}}}
		s.env["ARGV"] = LV{k: "tab"}
		return
	}
	s.env["KEYS"] = LV{k: "tab", tab: []LV{{k: "key", s: "rec"}, {k: "key", s: "blk"}}}
	ns := func(t *Term) LV { return LV{k: "numstr", t: t} }
	s.env["ARGV"] = LV{k: "tab", tab: []LV{ns(p.cap), ns(p.win), ns(p.exp), ns(p.now), {k: "str", t: p.msg}}}
}

func luaText(P *Program, path string) (string, bool) {
	k := strings.LastIndex(path, ".")
	for ip, pk := range P.pkgs {
		if shortKey(ip) != path[:k] {
			continue
		}
		switch m := pk.Members[path[k+1:]].(type) {
		case *ssa.NamedConst:
			if m.Value.Value.Kind() == constant.String {
				return constant.StringVal(m.Value.Value), true
			}
		}
	}
	return "", false
}

func init() {
	nativeChecks["lua"] = func(P *Program, D *Doc, arg string) *NativeResult {
		f := strings.Fields(arg)
		which := f[0]
		R := &NativeResult{name: "script " + f[1], trusted: []string{"semantics of the Lua subset and of the redis commands EXISTS, TTL, GET, SET, LLEN, RPUSH, LPOP, LRANGE, LINDEX, LTRIM, EXPIRE as coded in govc/lua.go; numbers are integers below 2^53; a script runs atomically"}}
		text, ok := luaText(P, f[1])
		if !ok {
			R.aborted = "script constant " + f[1] + " not found"
			return R
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if le, ok := e.(luaErr); ok {
						R.aborted = "Lua: " + le.msg
						return
					}
					panic(e)
				}
			}()
			prog := (&luaParser{t: luaLex(text)})
			b := prog.block()
			if prog.peek().k != "eof" {
				luaFail("trailing %q", prog.peek().s)
			}
			x := &luaExec{}
			s, p := luaInit(x)
			pre := s.clone()
			luaEnv(s, which, p)
			n := 0
			x.block(s, b, func(s *luaState) {
				n++
				for _, c := range luaSpec(which, pre, s, p) {
					R.obls = append(R.obls, &Obl{unit: "script " + f[1], label: c.what, kind: "ensures", pos: fmt.Sprintf("path %d", n), hyps: s.pc, goal: c.goal})
				}
			})
			R.notes = append(R.notes, fmt.Sprintf("%d paths", n))
		}()
		R.search = func() string { return luaSearch(text, which, f[1]) }
		return R
	}
}

// luaSearch: bounded enumeration of concrete redis states, executed by the same interpreter
func luaSearch(text, which, name string) (found string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(luaErr); ok {
				return
			}
			panic(e)
		}
	}()
	b := (&luaParser{t: luaLex(text)}).block()
	now := int64(100)
	vals := []int64{80, 89, 90, 91, 100}
	var lists [][]int64
	lists = append(lists, nil)
	for _, a := range vals {
		lists = append(lists, []int64{a})
		for _, c := range vals {
			lists = append(lists, []int64{a, c})
			lists = append(lists, []int64{80, a, c}, []int64{80, 89, a, c})
		}
	}
	for _, cap := range []int64{1, 2, 3, 0, -1} {
		for _, we := range [][2]int64{{10, 20}, {10, 1}, {10, 10}, {10, 0}, {0, 20}, {-1, -1}} {
			for _, blk := range []int{0, 1, 2} {
				for _, l := range lists {
					x := &luaExec{}
					p := luaParams{Int(cap), Int(we[0]), Int(we[1]), Int(now), Str("m")}
					s := &luaState{env: map[string]LV{}, off: Int(0), n: Int(int64(len(l))), arr: ConstArr(SArr(SInt, SInt), Int(0)), noExp: Bool(len(l) == 0), exp: Int(7), blocked: Bool(blk > 0), bNoExp: Bool(blk == 2), bmsg: Str("old"), bttl: Int(5)}
					for i, v := range l {
						s.arr = Store(s.arr, Int(int64(i)), Int(v))
					}
					pre := s.clone()
					luaEnv(s, which, p)
					x.block(s, b, func(s *luaState) {
						for _, c := range luaSpec(which, pre, s, p) {
							if c.goal == tFalse && found == "" {
								found = fmt.Sprintf("script %s\ncapacity=%d window=%d timeout=%d now=%d records=%v block key: %s\nbroken: %s\nanswer: %s, records left: length %s, block key exists: %s\n", name, cap, we[0], we[1], now, l, []string{"absent", "set, ttl 5", "set, no ttl"}[blk], c.what, luaShow(s.ret), s.n, s.blocked)
							}
						}
					})
					if found != "" {
						return
					}
				}
			}
		}
	}
	return
}

func luaShow(v LV) string {
	switch v.k {
	case "tab":
		var o []string
		for _, e := range v.tab {
			o = append(o, luaShow(e))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case "num", "str", "numstr", "bool":
		return v.t.String()
	}
	return v.k
}
