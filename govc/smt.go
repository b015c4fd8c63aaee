package main

// SMT-LIB printing and solver processes.

import (
	"hash/crc32"
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtSym(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!$@%&*-+<>/?^~", c) >= 0) {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	r := strings.NewReplacer("|", "_", "\\", "_", "\x00", "@")
	return "|" + r.Replace(s) + "|"
}

type printer struct {
	decls   bytes.Buffer
	body    bytes.Buffer
	declset map[string]bool
	names   map[*Term]string
	count   map[*Term]int
	nlet    int
	boxes   []*Term
	unboxes []*Term
	tags    []*Term
	fas     []*Term
	wraps   map[string]bool
	seen    map[*Term]bool
	codes   []*Term
	ats     []*Term
	lens    []*Term
	ufs     []*Term
	types   map[string]int
}

func newPrinter() *printer {
	return &printer{declset: map[string]bool{}, names: map[*Term]string{}, count: map[*Term]int{}, wraps: map[string]bool{}, seen: map[*Term]bool{}, types: map[string]int{}}
}

func (p *printer) scan(t *Term) {
	p.count[t]++
	if p.seen[t] {
		return
	}
	p.seen[t] = true
	for _, a := range t.args {
		p.scan(a)
	}
	if t.bound && t.op != "forall" {
		// terms with bound variables need no ground axioms
		switch t.op {
		case "wrap":
			p.wraps[t.sval] = true
		}
	} else {
		switch t.op {
		case "box":
			p.boxes = append(p.boxes, t)
		case "unbox":
			p.unboxes = append(p.unboxes, t)
		case "tagis":
			p.tags = append(p.tags, t)
		case "fa", "ia", "glob", "func", "closure":
			p.fas = append(p.fas, t)
		case "wrap":
			p.wraps[t.sval] = true
		case "str.from_code":
			p.codes = append(p.codes, t)
		case "str.at":
			p.ats = append(p.ats, t)
		case "str.len":
			if a := t.args[0]; a.op == "var" || a.op == "select" {
				p.lens = append(p.lens, t)
			}
		case "uf":
			p.ufs = append(p.ufs, t)
		}
	}
	// declarations
	var name string
	switch t.op {
	case "var":
		name = smtSym(t.sval)
		if !p.declset[name] {
			p.declset[name] = true
			fmt.Fprintf(&p.decls, "(declare-fun %s () %s)\n", name, t.sort)
		}
	case "glob", "func":
		name = smtSym(t.op + "!" + t.sval)
		if !p.declset[name] {
			p.declset[name] = true
			fmt.Fprintf(&p.decls, "(declare-fun %s () Int)\n", name)
		}
	case "closure":
		name = smtSym("closure!" + t.ival.String())
		if !p.declset[name] {
			p.declset[name] = true
			fmt.Fprintf(&p.decls, "(declare-fun %s () Int)\n", name)
		}
	case "uf", "box", "unbox", "tagis", "fa", "ia":
		name = p.fnName(t)
		if !p.declset[name] {
			p.declset[name] = true
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), t.sort)
		}
	}
}

func (p *printer) fnName(t *Term) string {
	n := t.op + "!" + t.sval
	if t.op == "uf" {
		n = "uf!" + t.sval
	}
	// signature suffix keeps overloads apart
	for _, a := range t.args {
		n += "@" + strings.NewReplacer("(", "", ")", "", " ", "_").Replace(string(a.sort))
	}
	return smtSym(n)
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.render(t)
	if !t.bound && len(t.args) > 0 && p.count[t] > 1 && len(s) > 24 {
		p.nlet++
		n := fmt.Sprintf("?t%d", p.nlet)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *printer) render(t *Term) string {
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.ival.String(), "-") + ")"
		}
		return t.ival.String()
	case "str":
		return smtStr(t.sval)
	case "true", "false":
		return t.op
	case "var":
		return smtSym(t.sval)
	case "bvar":
		return smtSym(t.sval)
	case "glob", "func":
		return smtSym(t.op + "!" + t.sval)
	case "closure":
		return smtSym("closure!" + t.ival.String())
	case "forall":
		vs := t.args[:len(t.args)-1]
		var d []string
		for _, v := range vs {
			d = append(d, fmt.Sprintf("(%s %s)", smtSym(v.sval), v.sort))
		}
		return fmt.Sprintf("(forall (%s) %s)", strings.Join(d, " "), p.str(t.args[len(t.args)-1]))
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	}
	var head string
	switch t.op {
	case "uf", "box", "unbox", "tagis", "fa", "ia":
		head = p.fnName(t)
	case "wrap":
		head = t.sval
	default:
		head = t.op
		if strings.HasPrefix(head, "re.loop") || strings.HasPrefix(head, "(_") {
			head = t.op
		}
	}
	if len(t.args) == 0 {
		return head
	}
	parts := []string{head}
	for _, a := range t.args {
		parts = append(parts, p.str(a))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (p *printer) axioms() []*Term {
	var ax []*Term
	// boxes: injective per type, tagged, non nil
	for _, b := range p.boxes {
		ax = append(ax, mk("not", SBool, "", nil, mk("=", SBool, "", nil, b, Int(0))))
		ax = append(ax, mk("tagis", SBool, b.sval, nil, b))
		for i, a := range b.args {
			u := mk("unbox", a.sort, fmt.Sprintf("%s\x00%d", b.sval, i), nil, b)
			ax = append(ax, mk("=", SBool, "", nil, u, a))
		}
	}
	return ax
}

// tagAxioms: a value has at most one dynamic type, nil has none
func (p *printer) tagAxioms() []*Term {
	var ax []*Term
	vals := map[*Term]map[string]bool{}
	types := map[string]bool{}
	var order []*Term
	addv := func(v *Term, ty string) {
		types[ty] = true
		if vals[v] == nil {
			vals[v] = map[string]bool{}
			order = append(order, v)
		}
		vals[v][ty] = true
	}
	for _, t := range p.tags {
		addv(t.args[0], t.sval)
	}
	for _, b := range p.boxes {
		addv(b, b.sval)
	}
	var tl []string
	for t := range types {
		tl = append(tl, t)
	}
	sort.Strings(tl)
	p.types = map[string]int{}
	for i, t := range tl {
		p.types[t] = i + 1
	}
	for _, v := range order {
		tg := mk("uf", SInt, "typetag", nil, v)
		for ty := range vals[v] {
			ax = append(ax, mk("=", SBool, "", nil, mk("tagis", SBool, ty, nil, v), mk("=", SBool, "", nil, tg, Int(int64(p.types[ty])))))
		}
		ax = append(ax, mk("or", SBool, "", nil, mk("not", SBool, "", nil, mk("=", SBool, "", nil, v, Int(0))), mk("=", SBool, "", nil, tg, Int(0))))
	}
	// unbox axioms: v tagged T  =>  v = box_T(unbox..)  (extensionality for equality of interfaces), only single-leaf types
	byVT := map[string][]*Term{}
	for _, u := range p.unboxes {
		i := strings.IndexByte(u.sval, 0)
		ty := u.sval[:i]
		byVT[fmt.Sprintf("%s@%d", ty, u.args[0].id)] = append(byVT[fmt.Sprintf("%s@%d", ty, u.args[0].id)], u)
	}
	arity := map[string][]Sort{}
	for _, b := range p.boxes {
		var ss []Sort
		for _, a := range b.args {
			ss = append(ss, a.sort)
		}
		arity[b.sval] = ss
	}
	for _, t := range p.tags {
		v := t.args[0]
		if v.op == "box" {
			continue
		}
		if ss, ok := arity[t.sval]; ok {
			var args []*Term
			for i, s := range ss {
				args = append(args, mk("unbox", s, fmt.Sprintf("%s\x00%d", t.sval, i), nil, v))
			}
			ax = append(ax, mk("or", SBool, "", nil, mk("not", SBool, "", nil, t), mk("=", SBool, "", nil, v, mk("box", SInt, t.sval, nil, args...))))
		}
	}
	// unbox on untagged var sharing with box types: same treatment via unbox occurrences
	return ax
}

func (p *printer) addrAxioms() []*Term {
	var ax []*Term
	sort.Slice(p.fas, func(i, j int) bool { return p.fas[i].id < p.fas[j].id })
	for i, a := range p.fas {
		ax = append(ax, mk("<", SBool, "", nil, Int(0), a))
		// address class separates kinds
		cls := mk("uf", SInt, "addrclass", nil, a)
		key := a.op + a.sval
		if _, ok := p.types["\x01"+key]; !ok {
			p.types["\x01"+key] = len(p.types) + 1000
		}
		ax = append(ax, mk("=", SBool, "", nil, cls, Int(int64(p.types["\x01"+key]))))
		if len(a.args) > 0 {
			for _, b := range p.fas[:i] {
				if a.op == b.op && a.sval == b.sval && len(a.args) == len(b.args) {
					var es []*Term
					for k := range a.args {
						es = append(es, mk("=", SBool, "", nil, a.args[k], b.args[k]))
					}
					var c *Term
					if len(es) == 1 {
						c = es[0]
					} else {
						c = mk("and", SBool, "", nil, es...)
					}
					ax = append(ax, mk("or", SBool, "", nil, mk("not", SBool, "", nil, mk("=", SBool, "", nil, a, b)), c))
				}
			}
		}
	}
	return ax
}

// UFAxioms: extra axioms instantiated per UF application (spec functions, externs)
var ufAxioms = map[string]func(app *Term) []*Term{}

var ufAxMu sync.RWMutex

func addUFAxiom(name string, f func(app *Term) []*Term) {
	ufAxMu.Lock()
	defer ufAxMu.Unlock()
	if g := ufAxioms[name]; g != nil {
		h := f
		f = func(app *Term) []*Term { return append(g(app), h(app)...) }
	}
	ufAxioms[name] = f
}

// instances of the axioms of the specification functions applied in the assertions (bounded rounds)
func ufInstances(assertions []*Term, p *printer) []*Term {
	all := assertions
	for _, a := range all {
		p.scan(a)
	}
	done := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		ufs := append([]*Term{}, p.ufs...)
		n := 0
		for _, u := range ufs {
			if done[u] {
				continue
			}
			done[u] = true
			ufAxMu.RLock()
			f := ufAxioms[u.sval]
			ufAxMu.RUnlock()
			if f != nil {
				for _, a := range f(u) {
					if a == tTrue {
						continue
					}
					all = append(all, a)
					p.scan(a)
					n++
				}
			}
		}
		if n == 0 {
			break
		}
	}
	return all
}

func buildQuery(assertions []*Term) string {
	p := newPrinter()
	all := ufInstances(append([]*Term{}, assertions...), p)
	return finishQuery(p, all)
}

// absQuery: the query under the second encoding of strings, "" when it uses no string operation
func absQuery(assertions []*Term) string {
	all := ufInstances(append([]*Term{}, assertions...), newPrinter())
	sas := abstractStrings(all)
	if sas == nil {
		return ""
	}
	p := newPrinter()
	for _, a := range sas {
		p.scan(a)
	}
	return finishQuery(p, sas)
}

func finishQuery(p *printer, all []*Term) string {
	extra := p.axioms()
	extra = append(extra, p.tagAxioms()...)
	for _, a := range extra {
		p.scan(a)
	}
	ex2 := p.addrAxioms()
	for _, a := range ex2 {
		p.scan(a)
	}
	extra = append(extra, ex2...)
	// byte range of codes
	for _, c := range p.codes {
		a := mk("=", SBool, "", nil, mk("str.len", SInt, "", nil, c), Int(1))
		p.scan(a)
		extra = append(extra, mk("or", SBool, "", nil, mk("<", SBool, "", nil, c.args[0], Int(0)), mk("<", SBool, "", nil, Int(255), c.args[0]), a))
		p.scan(extra[len(extra)-1])
	}
	for _, c := range p.ats {
		a := mk("str.to_code", SInt, "", nil, c)
		extra = append(extra, mk("<=", SBool, "", nil, a, Int(255)))
		p.scan(extra[len(extra)-1])
	}
	// the length of a value of the program is an int
	for _, l := range p.lens {
		extra = append(extra, mk("<=", SBool, "", nil, l, BigT(intKind{64, true}.hi())))
		p.scan(extra[len(extra)-1])
	}
	all = append(all, extra...)
	var asserts bytes.Buffer
	for _, a := range all {
		s := p.str(a)
		// definitions are emitted in p.body before use; keep order
		asserts.Reset()
		fmt.Fprintf(&asserts, "(assert %s)\n", s)
		p.body.Write(asserts.Bytes())
	}
	var out bytes.Buffer
	var ws []string
	for w := range p.wraps {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	for _, w := range ws {
		var k intKind
		var c byte
		fmt.Sscanf(w, "wrap_%c%d", &c, &k.bits)
		k.signed = c == 's'
		m := "(mod x " + new2pow(k.bits) + ")"
		if k.signed {
			m = fmt.Sprintf("(- (mod (+ x %s) %s) %s)", new2pow(k.bits-1), new2pow(k.bits), new2pow(k.bits-1))
		}
		lo := k.lo().String()
		if k.signed {
			lo = "(- " + lo[1:] + ")"
		}
		fmt.Fprintf(&out, "(define-fun %s ((x Int)) Int (ite (and (<= %s x) (<= x %s)) x %s))\n", w, lo, k.hi().String(), m)
	}
	out.Write(p.decls.Bytes())
	out.Write(p.body.Bytes())
	return plainStrings(out.String())
}

// plainStrings: a query that only compares strings does not need the theory of strings; its strings
// are renamed one to one to integers (both sorts are countably infinite, so satisfiability is the same).
func plainStrings(q string) string {
	if !strings.Contains(q, "String") || strings.Contains(q, "(str.") || strings.Contains(q, "(_ str") || strings.Contains(q, "(seq.") {
		return q
	}
	var b strings.Builder
	lits := map[string]int{}
	for i := 0; i < len(q); {
		switch c := q[i]; {
		case c == '"':
			j := i + 1
			for {
				if q[j] == '"' {
					if j+1 < len(q) && q[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			l := q[i : j+1]
			n, ok := lits[l]
			if !ok {
				n = len(lits)
				lits[l] = n
			}
			fmt.Fprintf(&b, "%d", n)
			i = j + 1
		case c == '|':
			j := i + 1 + strings.IndexByte(q[i+1:], '|')
			b.WriteString(q[i : j+1])
			i = j + 1
		case c == '(' || c == ')' || c == ' ' || c == '\n':
			b.WriteByte(c)
			i++
		default:
			j := i
			for j < len(q) && !strings.ContainsRune("() \n|\"", rune(q[j])) {
				j++
			}
			if a := q[i:j]; a == "String" {
				b.WriteString("Int")
			} else {
				b.WriteString(a)
			}
			i = j
		}
	}
	return b.String()
}

func new2pow(n int) string {
	return intKind{n + 1, true}.hiPlus1()
}
func (k intKind) hiPlus1() string {
	h := k.hi()
	h.Add(h, Int(1).ival)
	return h.String()
}

// ---- solver processes

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type SolverPool struct {
	mu    sync.Mutex
	idle  map[string][]*proc
	cache map[string]Result
	sem   chan struct{}
	// statistics
	queries  int64
	hits     int64
	timeNs   int64
	byBackend map[string]int
}

var pool = &SolverPool{idle: map[string][]*proc{}, cache: map[string]Result{}, sem: make(chan struct{}, 10), byBackend: map[string]int{}}

func (sp *SolverPool) get(name string) (*proc, error) {
	sp.mu.Lock()
	l := sp.idle[name]
	if len(l) > 0 {
		p := l[len(l)-1]
		sp.idle[name] = l[:len(l)-1]
		sp.mu.Unlock()
		return p, nil
	}
	sp.mu.Unlock()
	var cmd *exec.Cmd
	switch name {
	case "z3-new":
		cmd = exec.Command("z3-new", "-in", "-memory:4000")
	case "z3":
		cmd = exec.Command("z3", "-in", "-memory:4000")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(outp, 1<<16)}, nil
}
func (sp *SolverPool) put(name string, p *proc) {
	sp.mu.Lock()
	sp.idle[name] = append(sp.idle[name], p)
	sp.mu.Unlock()
}

func (sp *SolverPool) Close() {
	sp.mu.Lock()
	defer sp.mu.Unlock()
	for _, l := range sp.idle {
		for _, p := range l {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
	sp.idle = map[string][]*proc{}
}

// runZ3 runs one query in a pooled process; returns result and (if wanted) model text
func (sp *SolverPool) runZ3(name, q string, timeout time.Duration, want []string) (Result, string) {
	sp.sem <- struct{}{}
	defer func() { <-sp.sem }()
	p, err := sp.get(name)
	if err != nil {
		return Unknown, err.Error()
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	sb.WriteString(q)
	sb.WriteString("(check-sat)\n")
	if len(want) > 0 {
		sb.WriteString("(get-value (" + strings.Join(want, " ") + "))\n")
	} else {
		sb.WriteString("(get-info :reason-unknown)\n")
	}
	sb.WriteString("(echo \"<<done>>\")\n")
	start := time.Now()
	if os.Getenv("GOVC_TIME") != "" {
		defer func() {
			if d := time.Since(start); d > 250*time.Millisecond {
				abs := strings.Contains(q, "abs")
				fmt.Fprintf(os.Stderr, "TIME %.2f limit %.2f size %d abs %v forall %d\n", d.Seconds(), timeout.Seconds(), len(q), abs, strings.Count(q, "forall"))
				if d := os.Getenv("GOVC_SLOW"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/slow-%x.smt2", d, crc32.ChecksumIEEE([]byte(q))), []byte(q), 0o644)
				}
			}
		}()
	}
	type res struct {
		r   Result
		txt string
		ok  bool
	}
	ch := make(chan res, 1)
	go func() {
		go io.WriteString(p.in, sb.String())
		r := Unknown
		var txt strings.Builder
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{Unknown, txt.String() + err.Error(), false}
				return
			}
			l := strings.TrimSpace(line)
			if l == "<<done>>" {
				ch <- res{r, txt.String(), true}
				return
			}
			switch l {
			case "sat":
				r = Sat
			case "unsat":
				r = Unsat
			case "unknown", "timeout":
				r = Unknown
			default:
				txt.WriteString(line)
			}
		}
	}()
	select {
	case r := <-ch:
		atomic.AddInt64(&sp.timeNs, int64(time.Since(start)))
		if !r.ok {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			return Unknown, r.txt
		}
		if r.r != Unknown || true {
			if strings.Contains(r.txt, "(error") && !strings.Contains(r.txt, "model is not available") && !strings.Contains(r.txt, "unsupported") {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "SOLVER ERROR", r.txt)
					os.WriteFile("/tmp/govc_err.smt2", []byte(q), 0644)
				}
				sp.put(name, p)
				return Unknown, r.txt
			}
		}
		sp.put(name, p)
		if d := time.Since(start); d > 250*time.Millisecond && os.Getenv("GOVC_TIME") != "" {
			fmt.Fprintf(os.Stderr, "RES %.2f limit %.2f %v strings %v forall %d %s\n", d.Seconds(), timeout.Seconds(), r.r, strings.Contains(q, " String"), strings.Count(q, "forall"), r.txt)
		}
		return r.r, r.txt
	case <-time.After(timeout + 3*time.Second):
		atomic.AddInt64(&sp.timeNs, int64(time.Since(start)))
		p.cmd.Process.Kill()
		go func() { <-ch; p.cmd.Wait() }()
		return Unknown, "timeout"
	}
}

func runCvc5(q string, timeout time.Duration) (Result, string) {
	pool.sem <- struct{}{}
	defer func() { <-pool.sem }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	start := time.Now()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--strings-exp", "--arrays-exp", fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + q + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	atomic.AddInt64(&pool.timeNs, int64(time.Since(start)))
	s := out.String()
	switch {
	case strings.HasPrefix(s, "unsat"):
		return Unsat, s
	case strings.HasPrefix(s, "sat"):
		return Sat, s
	}
	return Unknown, s
}

// quick feasibility: is the conjunction possibly satisfiable?
func Feasible(as []*Term) bool {
	c := And(as...)
	if c == tFalse {
		return false
	}
	if c == tTrue {
		return true
	}
	q := buildQuery(as)
	if sq := absQuery(as); sq != "" {
		if cachedQuickT(sq, quickTimeout/3) == Unsat {
			return false
		}
		return cachedQuickT(q, 200*time.Millisecond) != Unsat
	}
	return cachedQuick(q) != Unsat
}

func cachedQuick(q string) Result { return cachedQuickT(q, quickTimeout) }

func cachedQuickT(q string, timeout time.Duration) Result {
	pool.mu.Lock()
	r, ok := pool.cache[q]
	pool.mu.Unlock()
	if ok {
		atomic.AddInt64(&pool.hits, 1)
		return r
	}
	atomic.AddInt64(&pool.queries, 1)
	r, _ = pool.runZ3("z3-new", q, timeout, nil)
	pool.mu.Lock()
	pool.cache[q] = r
	pool.mu.Unlock()
	return r
}

var quickTimeout = 1500 * time.Millisecond

// Valid proves hyp => goal
type ProofResult struct {
	res     Result // Unsat = proved
	backend string
	info    string
	query   string
	ms      int64
}

func Prove(hyp []*Term, goal *Term, timeout time.Duration) ProofResult {
	if goal == tTrue {
		return ProofResult{Unsat, "simplifier", "", "", 0}
	}
	as := append(append([]*Term{}, hyp...), Not(goal))
	if And(as...) == tFalse {
		return ProofResult{Unsat, "simplifier", "", "", 0}
	}
	as = append(as, heapFacts(as)...)
	q := buildQuery(as)
	start := time.Now()
	pool.mu.Lock()
	if r, ok := pool.cache["P"+q]; ok && r == Unsat {
		pool.mu.Unlock()
		return ProofResult{Unsat, "z3-new", "cached", q, 0}
	}
	pool.mu.Unlock()
	atomic.AddInt64(&pool.queries, 1)
	fin := func(r Result, b, info string) ProofResult {
		if r == Unsat {
			pool.mu.Lock()
			pool.cache["P"+q] = Unsat
			pool.mu.Unlock()
		}
		return ProofResult{r, b, info, q, time.Since(start).Milliseconds()}
	}
	t1 := timeout
	if t1 > 4*time.Second {
		t1 = 4 * time.Second
	}
	r1, info := pool.runZ3("z3-new", q, t1, nil)
	if r1 != Unknown {
		return fin(r1, "z3-new", info)
	}
	// portfolio
	type rr struct {
		r Result
		b string
		i string
	}
	ch := make(chan rr, 4)
	go func() { r, i := runCvc5(q, timeout); ch <- rr{r, "cvc5", i} }()
	go func() { r, i := pool.runZ3("z3", q, timeout, nil); ch <- rr{r, "z3", i} }()
	n := 2
	if sq := absQuery(as); sq != "" {
		n++
		go func() {
			r, i := pool.runZ3("z3-new", sq, timeout, nil)
			if r != Unsat {
				r = Unknown // a model of this encoding means nothing
			}
			ch <- rr{r, "z3-new", i}
		}()
	}
	if timeout > t1 {
		n++
		go func() { r, i := pool.runZ3("z3-new", q, timeout, nil); ch <- rr{r, "z3-new", i} }()
	}
	last := rr{Unknown, "z3-new", info}
	for i := 0; i < n; i++ {
		x := <-ch
		if x.r != Unknown {
			return fin(x.r, x.b, x.i)
		}
	}
	return fin(last.r, last.b, last.i)
}
