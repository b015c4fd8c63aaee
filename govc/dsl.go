package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// Contract files: see /verif/contracts/README.md for the language.

type Clause struct {
	label string
	expr  ast.Expr
	src   string
	line  string
}

type GhostDecl struct {
	name string
	typ  string
	init ast.Expr
}

type Template struct {
	label  string
	params []tparam
	raw    []string // "name type"
	expr   ast.Expr
}

type tparam struct {
	name string
	typ  types.Type
}

type Rule struct {
	kind   string
	name   string
	target ast.Expr
	args   []string
	res    []string
	when   ast.Expr
	body   []ast.Stmt
	line   string
}

type FuncSpec struct {
	name     string
	alias    string // label of the unit
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	panics   []*Clause
	mustp    []*Clause
	exits    []*Clause
	ghosts   []*GhostDecl
	rules    []*Rule
	invs     []*Template
	unfolds  []*Unfold
	thens    []*Then
	opts     map[string]string
	lets     []*Clause
	modular  bool
	modifies []string
	file     string
}

// Then: a further call made after the function returned, of a value it returned, with arbitrary arguments
type Then struct {
	fun    ast.Expr
	params []string
	res    []string
	when   ast.Expr
	src    string
}

// Unfold: a recursive definition of specification functions, instantiated where they are applied
type Unfold struct {
	names []string
	param string
	expr  ast.Expr
	src   string
}

type Lemma struct {
	name     string
	params   [][2]string
	requires []*Clause
	ensures  []*Clause
	uses     []*Clause
	file     string
}

type Macro struct {
	name   string
	params []string
	body   ast.Expr
}

type Doc struct {
	drivers   []string
	parallel  bool
	usesSplit bool
	also      []string
	property  string
	pkgs      []string
	pure      map[string]bool
	nonnil    []string
	blocks    map[string]string
	noreturn  map[string]bool
	types     []*typeBlock
	onceKeys  map[string]bool
	tdecl     map[string]*TypeDecl
	funcs     []*FuncSpec
	lemmas    []*Lemma
	macros    map[string]*Macro
	assume    []string
	ctrs      []*FuncSpec // modular contracts (also verified)
	nclose    []ast.Expr
	native    []string // native (Go-coded) analyses to run: name
}

type typeBlock struct {
	name  string
	lines []string
}

func newDoc() *Doc {
	return &Doc{blocks: map[string]string{}, pure: map[string]bool{}, noreturn: map[string]bool{}, onceKeys: map[string]bool{}, tdecl: map[string]*TypeDecl{}, macros: map[string]*Macro{}}
}

func (d *Doc) typeDecl(name string) *TypeDecl { return d.tdecl[name] }

func (d *Doc) neverClosed(ex *Exec, st *State, c *Term) bool {
	fa := fieldOf(c)
	if fa == nil {
		return false
	}
	for _, r := range addrRoots(fa) {
		if td := d.tdecl[r.typ]; td != nil && td.chans[r.path] {
			return true
		}
	}
	return false
}

func stripComments(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "#") || strings.HasPrefix(t, "//") {
			out = append(out, "")
			continue
		}
		if i := strings.Index(l, " // "); i >= 0 && strings.Count(l[:i], `"`)%2 == 0 {
			l = l[:i]
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// matchBrace: index of the brace closing the one at i
func matchBrace(s string, i int) int {
	d := 0
	for k := i; k < len(s); k++ {
		switch s[k] {
		case '"':
			for k++; k < len(s) && s[k] != '"'; k++ {
				if s[k] == '\\' {
					k++
				}
			}
		case '`':
			for k++; k < len(s) && s[k] != '`'; k++ {
			}
		case '\'':
			for k++; k < len(s) && s[k] != '\''; k++ {
				if s[k] == '\\' {
					k++
				}
			}
		case '{', '(', '[':
			d++
		case '}', ')', ']':
			d--
			if d == 0 {
				return k
			}
		}
	}
	return -1
}

func (d *Doc) loadFile(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	s := stripComments(string(b))
	d.usesSplit = d.usesSplit || strings.Contains(s, "split.n")
	base := filepath.Base(path)
	pos := 0
	lineAt := func(p int) string { return fmt.Sprintf("%s:%d", base, 1+strings.Count(s[:p], "\n")) }
	for pos < len(s) {
		for pos < len(s) && strings.IndexByte(" \t\r\n", s[pos]) >= 0 {
			pos++
		}
		if pos >= len(s) {
			break
		}
		eol := strings.IndexByte(s[pos:], '\n')
		if eol < 0 {
			eol = len(s) - pos
		}
		head := s[pos : pos+eol]
		word := strings.Fields(head)[0]
		switch word {
		case "property":
			d.property = strings.Fields(head)[1]
		case "pkgs":
			d.pkgs = append(d.pkgs, strings.Fields(head)[1:]...)
		case "pure":
			for _, f := range strings.Fields(head)[1:] {
				d.pure[f] = true
			}
		case "nonnil":
			d.nonnil = append(d.nonnil, strings.Fields(head)[1:]...)
		case "noreturn":
			for _, f := range strings.Fields(head)[1:] {
				d.noreturn[f] = true
			}
		case "include":
			for _, f := range strings.Fields(head)[1:] {
				if err := d.loadFile(filepath.Join(filepath.Dir(path), f)); err != nil {
					return err
				}
			}
		case "also":
			d.also = append(d.also, strings.TrimSpace(head[len("also"):]))
		case "parallel":
			d.parallel = true
		case "driver":
			for _, f := range strings.Fields(head)[1:] {
				d.drivers = append(d.drivers, filepath.Join(filepath.Dir(path), f))
			}
		case "assume":
			d.assume = append(d.assume, strings.Trim(strings.TrimSpace(head[len("assume"):]), `"`))
		case "native":
			d.native = append(d.native, strings.TrimSpace(head[len("native"):]))
		case "spec":
			// spec name(a, b) = expr   (may span lines inside brackets)
			end := pos + clauseEnd(s[pos:])
			txt := s[pos+4 : end]
			eq := strings.Index(txt, "=")
			hd, body := strings.TrimSpace(txt[:eq]), txt[eq+1:]
			lp := strings.Index(hd, "(")
			m := &Macro{name: strings.TrimSpace(hd[:lp])}
			for _, p := range strings.Split(strings.TrimSuffix(hd[lp+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					m.params = append(m.params, p)
				}
			}
			e, err := parseE(body)
			if err != nil {
				return fmt.Errorf("%s: %v", lineAt(pos), err)
			}
			m.body = e
			d.macros[m.name] = m
			pos = end
			continue
		case "block":
			// block NAME { clauses }: reusable clauses, inserted by "insert NAME"
			ob := pos + strings.IndexByte(s[pos:], '{')
			cb := matchBrace(s, ob)
			if ob < pos || cb < 0 {
				return fmt.Errorf("%s: unbalanced block", lineAt(pos))
			}
			d.blocks[strings.Fields(s[pos:ob])[1]] = s[ob+1 : cb]
			pos = cb + 1
			continue
		case "type", "func", "contract", "lemma":
			ob := pos + strings.IndexByte(s[pos:], '{')
			// parameter lists have no braces
			cb := matchBrace(s, ob)
			if ob < pos || cb < 0 {
				return fmt.Errorf("%s: unbalanced block", lineAt(pos))
			}
			hd := strings.TrimSpace(s[pos:ob])
			body := s[ob+1 : cb]
			var err error
			switch word {
			case "type":
				d.types = append(d.types, &typeBlock{strings.Fields(hd)[1], splitClauses(body)})
			case "func", "contract":
				var f *FuncSpec
				f, err = d.parseFunc(strings.TrimSpace(hd[len(word):]), body, base)
				if err == nil {
					if word == "contract" {
						f.modular = true
						d.ctrs = append(d.ctrs, f)
					}
					d.funcs = append(d.funcs, f)
				}
			case "lemma":
				var l *Lemma
				l, err = parseLemma(strings.TrimSpace(hd[len(word):]), body, base)
				if err == nil {
					d.lemmas = append(d.lemmas, l)
				}
			}
			if err != nil {
				return fmt.Errorf("%s: %v", lineAt(pos), err)
			}
			pos = cb + 1
			continue
		default:
			return fmt.Errorf("%s: unknown directive %q", lineAt(pos), word)
		}
		pos += eol + 1
	}
	return nil
}

// clauseEnd: end of the clause starting at s[0]: newline outside brackets, not after an operator
func clauseEnd(s string) int {
	d := 0
	for k := 0; k < len(s); k++ {
		switch s[k] {
		case '"':
			for k++; k < len(s) && s[k] != '"'; k++ {
				if s[k] == '\\' {
					k++
				}
			}
		case '\'':
			for k++; k < len(s) && s[k] != '\''; k++ {
				if s[k] == '\\' {
					k++
				}
			}
		case '{', '(', '[':
			d++
		case '}', ')', ']':
			d--
		case '\n':
			if d > 0 {
				continue
			}
			t := strings.TrimRight(s[:k], " \t\r")
			if strings.HasSuffix(t, "&&") || strings.HasSuffix(t, "||") || strings.HasSuffix(t, "=") || strings.HasSuffix(t, ",") || strings.HasSuffix(t, "+") {
				continue
			}
			return k
		}
	}
	return len(s)
}

func splitClauses(body string) []string {
	var out []string
	for len(body) > 0 {
		body = strings.TrimLeft(body, " \t\r\n")
		if body == "" {
			break
		}
		e := clauseEnd(body)
		out = append(out, strings.TrimSpace(body[:e]))
		body = body[e:]
	}
	return out
}

func parseE(s string) (ast.Expr, error) {
	s = strings.TrimSpace(s)
	s = strings.ReplaceAll(s, "\n", " ")
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

func parseStmts(s string) ([]ast.Stmt, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc _() {"+s+"\n}", 0)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return f.Decls[0].(*ast.FuncDecl).Body.List, nil
}

var reClause = regexp.MustCompile(`^([a-z_]+)(\[([^\]]*)\])?\s*`)

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

// parseHead: "pkg.(*T).M(a, b)(r)" with optional "as label"
func parseHead(hd string) (name string, params, results []string, alias string, err error) {
	if i := strings.LastIndex(hd, " as "); i >= 0 {
		alias = strings.TrimSpace(hd[i+4:])
		hd = strings.TrimSpace(hd[:i])
	}
	// find parameter list: first '(' after the method part
	k := 0
	if i := strings.Index(hd, ".("); i >= 0 {
		k = i + strings.Index(hd[i:], ")") + 1
	}
	p := strings.Index(hd[k:], "(")
	if p < 0 {
		return strings.TrimSpace(hd), nil, nil, alias, nil
	}
	p += k
	e := matchBrace(hd, p)
	if e < 0 {
		return "", nil, nil, "", fmt.Errorf("bad header %q", hd)
	}
	name = strings.TrimSpace(hd[:p])
	params = splitNames(hd[p+1 : e])
	rest := strings.TrimSpace(hd[e+1:])
	if strings.HasPrefix(rest, "(") {
		results = splitNames(strings.TrimSuffix(rest[1:], ")"))
	}
	return
}

func (doc *Doc) parseFunc(hd, body, file string) (*FuncSpec, error) {
	f := &FuncSpec{opts: map[string]string{}, file: file}
	var err error
	f.name, f.params, f.results, f.alias, err = parseHead(hd)
	if err != nil {
		return nil, err
	}
	for _, c := range doc.expand(splitClauses(body)) {
		m := reClause.FindStringSubmatch(c)
		if m == nil {
			return nil, fmt.Errorf("bad clause %q", c)
		}
		kw, label, rest := m[1], m[3], c[len(m[0]):]
		mkc := func() (*Clause, error) {
			e, err := parseE(rest)
			if err != nil {
				return nil, err
			}
			l := label
			if l == "" {
				l = kw
			}
			return &Clause{label: l, expr: e, src: rest}, nil
		}
		switch kw {
		case "requires", "ensures", "panics", "mustpanic", "exits", "let":
			if kw == "let" {
				i := strings.Index(rest, "=")
				label = strings.TrimSpace(rest[:i])
				rest = rest[i+1:]
			}
			cl, err := mkc()
			if err != nil {
				return nil, err
			}
			switch kw {
			case "requires":
				f.requires = append(f.requires, cl)
			case "ensures":
				f.ensures = append(f.ensures, cl)
			case "panics":
				f.panics = append(f.panics, cl)
			case "mustpanic":
				f.mustp = append(f.mustp, cl)
			case "exits":
				f.exits = append(f.exits, cl)
			case "let":
				f.lets = append(f.lets, cl)
			}
		case "modifies":
			f.modifies = append(f.modifies, splitNames(rest)...)
		case "ghost":
			g := &GhostDecl{}
			if i := strings.Index(rest, "="); i >= 0 {
				e, err := parseE(rest[i+1:])
				if err != nil {
					return nil, err
				}
				g.init = e
				rest = rest[:i]
			}
			fs := strings.Fields(rest)
			if len(fs) < 2 {
				return nil, fmt.Errorf("bad ghost %q", c)
			}
			g.name, g.typ = fs[0], strings.Join(fs[1:], "")
			f.ghosts = append(f.ghosts, g)
		case "unfold":
			// unfold f, g (j) :: e: e holds of every j at which f or g is applied
			i := strings.Index(rest, "(")
			e := strings.Index(rest, "::")
			if i < 0 || e < 0 {
				return nil, fmt.Errorf("bad unfold %q", c)
			}
			u := &Unfold{names: splitNames(rest[:i]), param: strings.Trim(strings.TrimSpace(rest[i:e]), "()")}
			ex, err := parseE(rest[e+2:])
			if err != nil {
				return nil, err
			}
			u.expr, u.src = ex, rest
			f.unfolds = append(f.unfolds, u)
		case "invariant":
			t := &Template{label: label}
			r := rest
			if strings.HasPrefix(r, "(") {
				e := matchBrace(r, 0)
				t.raw = splitNames(r[1:e])
				r = r[e+1:]
				if strings.HasPrefix(strings.TrimSpace(r), "::") {
					r = strings.TrimSpace(r)[2:]
				}
			}
			ex, err := parseE(r)
			if err != nil {
				return nil, err
			}
			t.expr = ex
			f.invs = append(f.invs, t)
		case "on":
			r, err := parseRule(rest, file)
			if err != nil {
				return nil, err
			}
			f.rules = append(f.rules, r)
		case "then":
			// then VALUE(params)(results) when COND
			t := &Then{src: rest}
			if i := strings.Index(rest, " when "); i >= 0 {
				ex, err := parseE(rest[i+6:])
				if err != nil {
					return nil, err
				}
				t.when, rest = ex, strings.TrimSpace(rest[:i])
			}
			name, args, res, err := splitCallPattern(rest)
			if err != nil {
				return nil, err
			}
			if t.fun, err = parseE(name); err != nil {
				return nil, err
			}
			t.params, t.res = args, res
			f.thens = append(f.thens, t)
		case "maypanic", "noexit", "runpending", "sharefresh", "nolockcheck", "gobodies", "quiet":
			f.opts[kw] = "1"
		case "option":
			fs := strings.Fields(rest)
			v := "1"
			if len(fs) > 1 {
				v = strings.Join(fs[1:], " ")
			}
			f.opts[fs[0]] = v
		default:
			return nil, fmt.Errorf("unknown clause %q", kw)
		}
	}
	return f, nil
}

// parseRule: "call EXPR(a, b)(r) when COND { body }"
func parseRule(s, file string) (*Rule, error) {
	ob := -1
	// body: last top-level brace
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '{':
			if d == 0 {
				ob = i
			}
		}
		if ob >= 0 {
			break
		}
	}
	if ob < 0 {
		return nil, fmt.Errorf("rule without body: %q", s)
	}
	cb := matchBrace(s, ob)
	hd := strings.TrimSpace(s[:ob])
	body := s[ob+1 : cb]
	r := &Rule{line: file}
	var err error
	if r.body, err = parseStmts(body); err != nil {
		return nil, err
	}
	if i := strings.Index(hd, " when "); i >= 0 {
		if r.when, err = parseE(hd[i+6:]); err != nil {
			return nil, err
		}
		hd = strings.TrimSpace(hd[:i])
	}
	fs := strings.Fields(hd)
	r.kind = fs[0]
	rest := strings.TrimSpace(hd[len(r.kind):])
	switch r.kind {
	case "call":
		// TARGET(args)(res)
		name, args, res, err := splitCallPattern(rest)
		if err != nil {
			return nil, err
		}
		if name != "*" {
			if r.target, err = parseE(name); err != nil {
				return nil, err
			}
		}
		r.args, r.res = args, res
	case "send", "recv", "close", "default":
		if rest != "" {
			rest = strings.TrimSpace(rest)
			if strings.HasPrefix(rest, "(") {
				e := matchBrace(rest, 0)
				r.args = splitNames(rest[1:e])
			} else {
				name, args, _, err := splitCallPattern(rest)
				if err != nil {
					return nil, err
				}
				if r.target, err = parseE(name); err != nil {
					return nil, err
				}
				r.args = args
			}
		}
	default:
		name, args, res, err := splitCallPattern(rest)
		if err != nil {
			return nil, err
		}
		if name == "" {
			name = "*"
		}
		r.name, r.args, r.res = name, args, res
	}
	return r, nil
}

// splitCallPattern: NAME(args)(results) where NAME may contain "(*T)"
func splitCallPattern(s string) (string, []string, []string, error) {
	s = strings.TrimSpace(s)
	// split trailing parenthesised groups
	var groups []string
	for strings.HasSuffix(s, ")") {
		d := 0
		i := len(s) - 1
		for ; i >= 0; i-- {
			if s[i] == ')' {
				d++
			}
			if s[i] == '(' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if i < 0 {
			return "", nil, nil, fmt.Errorf("bad pattern %q", s)
		}
		g := s[i+1 : len(s)-1]
		if strings.HasPrefix(g, "*") || len(groups) == 2 {
			break
		}
		groups = append([]string{g}, groups...)
		s = strings.TrimSpace(s[:i])
	}
	var args, res []string
	if len(groups) > 0 {
		args = splitNames(groups[0])
	}
	if len(groups) > 1 {
		res = splitNames(groups[1])
	}
	return s, args, res, nil
}

func parseLemma(hd, body, file string) (*Lemma, error) {
	l := &Lemma{file: file}
	i := strings.Index(hd, "(")
	l.name = strings.TrimSpace(hd[:i])
	for _, p := range splitNames(strings.TrimSuffix(hd[i+1:], ")")) {
		fs := strings.Fields(p)
		if len(fs) != 2 {
			return nil, fmt.Errorf("lemma parameter %q", p)
		}
		l.params = append(l.params, [2]string{fs[0], fs[1]})
	}
	for _, c := range splitClauses(body) {
		m := reClause.FindStringSubmatch(c)
		e, err := parseE(c[len(m[0]):])
		if err != nil {
			return nil, err
		}
		lb := m[3]
		if lb == "" {
			lb = m[1]
		}
		cl := &Clause{label: lb, expr: e, src: c[len(m[0]):]}
		switch m[1] {
		case "requires":
			l.requires = append(l.requires, cl)
		case "ensures":
			l.ensures = append(l.ensures, cl)
		case "use":
			l.uses = append(l.uses, cl)
		default:
			return nil, fmt.Errorf("lemma clause %q", c)
		}
	}
	return l, nil
}

// resolveTypes binds the type blocks to the program
func (d *Doc) resolveTypes(P *Program) error {
	for _, b := range d.types {
		t := P.lookupType(b.name)
		if t == nil {
			return fmt.Errorf("type %s not found", b.name)
		}
		td := &TypeDecl{name: typeKey(t), typ: t, atomics: map[string]bool{}, conds: map[string]string{}, ghosts: map[string]types.Type{}, immut: map[string]bool{}, chans: map[string]bool{}, once: map[string]bool{}, line: b.name}
		d.tdecl[td.name] = td
		var cur *LockDecl
		for _, c := range b.lines {
			m := reClause.FindStringSubmatch(c)
			if m == nil {
				return fmt.Errorf("type %s: bad clause %q", b.name, c)
			}
			kw, label, rest := m[1], m[3], c[len(m[0]):]
			switch kw {
			case "lock":
				// lock F guards a, b closed
				fs := strings.SplitN(rest, "guards", 2)
				cur = &LockDecl{td: td, field: strings.TrimSpace(fs[0])}
				if len(fs) > 1 {
					for _, g := range splitNames(fs[1]) {
						if g == "closedness" {
							cur.closed = true
							continue
						}
						cur.guards = append(cur.guards, g)
					}
				}
				td.locks = append(td.locks, cur)
			case "atomic":
				for _, a := range splitNames(rest) {
					td.atomics[a] = true
				}
			case "once":
				for _, a := range splitNames(rest) {
					td.once[a] = true
					d.onceKeys[td.name+"."+a] = true
				}
			case "cond":
				fs := strings.Fields(rest)
				td.conds[fs[0]] = fs[len(fs)-1]
			case "neverclosed":
				for _, a := range splitNames(rest) {
					td.chans[a] = true
				}
			case "clock":
				td.clock = true
			case "ghost":
				fs := strings.Fields(rest)
				td.ghosts[fs[0]] = d.basicType(P, fs[1])
			case "inv", "fact", "ainv":
				e, err := parseE(rest)
				if err != nil {
					return err
				}
				if label == "" {
					label = kw
				}
				cl := &Clause{label: label, expr: e, src: rest}
				switch kw {
				case "inv":
					if cur == nil {
						return fmt.Errorf("type %s: inv before lock", b.name)
					}
					cur.invs = append(cur.invs, cl)
				case "fact":
					td.assumes = append(td.assumes, cl)
				case "ainv":
					td.ainvs = append(td.ainvs, cl)
				}
			default:
				return fmt.Errorf("type %s: unknown clause %q", b.name, kw)
			}
		}
	}
	for _, f := range d.funcs {
		all := f.invs
		f.invs = nil
	templates:
		for _, t := range all {
			for _, r := range t.raw {
				fs := strings.SplitN(r, " ", 2)
				if len(fs) != 2 {
					return fmt.Errorf("template parameter %q", r)
				}
				ty, err := d.parseType(P, strings.TrimSpace(fs[1]))
				if err != nil && strings.Contains(fs[1], ".") {
					continue templates // a type the program does not use: no variable has it
				}
				if err != nil {
					return err
				}
				t.params = append(t.params, tparam{fs[0], ty})
			}
			f.invs = append(f.invs, t)
		}
	}
	return nil
}

func (d *Doc) basicType(P *Program, s string) types.Type {
	t, err := d.parseType(P, s)
	if err != nil {
		panic(err)
	}
	return t
}

// ArrType: total map used by ghosts
type ArrType struct{ k, v types.Type }

func (a *ArrType) Underlying() types.Type { return a }
func (a *ArrType) String() string         { return "arr[" + a.k.String() + "]" + a.v.String() }

var anyT = types.NewInterfaceType(nil, nil)

func (d *Doc) parseType(P *Program, s string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch s {
	case "int":
		return types.Typ[types.Int], nil
	case "int64":
		return types.Typ[types.Int64], nil
	case "bool":
		return types.Typ[types.Bool], nil
	case "string":
		return types.Typ[types.String], nil
	case "byte":
		return types.Typ[types.Uint8], nil
	case "uint64":
		return types.Typ[types.Uint64], nil
	case "struct{}":
		return types.NewStruct(nil, nil), nil
	case "uint":
		return types.Typ[types.Uint], nil
	case "uint32":
		return types.Typ[types.Uint32], nil
	case "uint8":
		return types.Typ[types.Uint8], nil
	case "float64":
		return types.Typ[types.Float64], nil
	case "int32", "rune":
		return types.Typ[types.Int32], nil
	case "any", "interface{}":
		return anyT, nil
	case "error":
		return types.Universe.Lookup("error").Type(), nil
	}
	if strings.HasPrefix(s, "*") {
		t, err := d.parseType(P, s[1:])
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	}
	if strings.HasPrefix(s, "[]") {
		t, err := d.parseType(P, s[2:])
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	}
	if strings.HasPrefix(s, "arr[") || strings.HasPrefix(s, "map[") {
		e := matchBrace(s, 3)
		k, err := d.parseType(P, s[4:e])
		if err != nil {
			return nil, err
		}
		v, err := d.parseType(P, s[e+1:])
		if err != nil {
			return nil, err
		}
		if s[0] == 'm' {
			return types.NewMap(k, v), nil
		}
		return &ArrType{k, v}, nil
	}
	if t := P.lookupType(s); t != nil {
		return t, nil
	}
	return nil, fmt.Errorf("unknown type %q", s)
}

func ghostSort(t types.Type) (Sort, bool) {
	if a, ok := t.(*ArrType); ok {
		ks, ok1 := ghostSort(a.k)
		vs, ok2 := ghostSort(a.v)
		return SArr(ks, vs), ok1 && ok2
	}
	return scalarSort(t)
}

func parseCall(s string) *ast.CallExpr {
	e, err := parseE(s)
	if err != nil {
		panic(evalErr{err.Error()})
	}
	c, ok := e.(*ast.CallExpr)
	if !ok {
		panic(evalErr{"call expected: " + s})
	}
	// use NAME(args): the lemma name becomes the first argument
	return &ast.CallExpr{Fun: &ast.Ident{Name: "use"}, Args: append([]ast.Expr{c.Fun}, c.Args...)}
}

func (d *Doc) expand(cs []string) []string {
	var out []string
	for _, c := range cs {
		if fs := strings.Fields(c); len(fs) == 2 && fs[0] == "insert" {
			if b, ok := d.blocks[fs[1]]; ok {
				out = append(out, d.expand(splitClauses(b))...)
				continue
			}
		}
		out = append(out, c)
	}
	return out
}
