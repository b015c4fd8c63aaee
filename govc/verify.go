package main

// Driver: units, proofs, fallbacks, evidence.

import (
	"hash/crc32"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var _ = regexp.MustCompile
var _ = constant.Int

var allFnCache map[*ssa.Function]bool

func allFuncs(P *Program) map[*ssa.Function]bool {
	if allFnCache == nil {
		allFnCache = ssautil.AllFunctions(P.prog)
	}
	return allFnCache
}

var unfoldN int

func ProveQuick(pc []*Term, goal *Term, timeout time.Duration) bool {
	return quickProof(pc, goal, timeout)()
}

// quickProof builds the query now; the result may be run concurrently
func quickProof(pc []*Term, goal *Term, timeout time.Duration) func() bool {
	yes := func() bool { return true }
	if goal == tTrue {
		return yes
	}
	as := append(append([]*Term{}, pc...), Not(goal))
	if And(as...) == tFalse {
		return yes
	}
	as = append(as, heapFacts(as)...)
	q := buildQuery(as)
	sq := absQuery(as)
	return func() bool {
		pool.mu.Lock()
		if r, ok := pool.cache["P"+q]; ok && r == Unsat {
			pool.mu.Unlock()
			return true
		}
		pool.mu.Unlock()
		var r Result
		if sq != "" {
			// the second encoding first: a model of it means nothing, but then the theory of strings
			// gets little time
			if r, _ = pool.runZ3("z3-new", sq, timeout*2/5, nil); r != Unsat {
				r, _ = pool.runZ3("z3-new", q, 300*time.Millisecond, nil)
			}
		} else {
			r, _ = pool.runZ3("z3-new", q, timeout, nil)
		}
		if d := os.Getenv("GOVC_CANDS"); d != "" && r != Unsat {
			os.WriteFile(fmt.Sprintf("%s/cand-%x.smt2", d, crc32.ChecksumIEEE([]byte(q))), []byte(q+"; "+r.String()+"\n"), 0o644)
			os.WriteFile(fmt.Sprintf("%s/cand-%x-abs.smt2", d, crc32.ChecksumIEEE([]byte(q))), []byte(sq+"; "+r.String()+"\n"), 0o644)
		}
		if r == Unsat {
			pool.mu.Lock()
			pool.cache["P"+q] = Unsat
			pool.mu.Unlock()
			return true
		}
		return false
	}
}

type UnitResult struct {
	name    string
	spec    *FuncSpec
	obls    []*Obl
	aborted string
	ex      *Exec
	bounded bool
	vacuous string
	wall    float64
}

func (d *Doc) unitName(s *FuncSpec) string {
	if s.alias != "" {
		return s.name + " (" + s.alias + ")"
	}
	return s.name
}

func newExecFor(P *Program, D *Doc) *Exec {
	return &Exec{P: P, D: D, baseHeap: map[string]*Term{}, oblKeys: map[string]bool{}, inlined: map[string]bool{}, externs: map[string]bool{}, notes: map[string]bool{}, maxSteps: 400000, unrolled: map[*ssa.BasicBlock]int{}}
}

// runUnit executes one function symbolically and collects its obligations
// runDeadline: no unit is explored beyond it (0: none)
var runDeadline time.Time

// unitLimit: time for one unit
var unitLimit = 120 * time.Second

func runUnit(P *Program, D *Doc, s *FuncSpec, bound int) *UnitResult {
	for {
		r := runUnitOnce(P, D, s, bound)
		if cover {
			coverReport(P)
			coverPc = map[*ssa.BasicBlock][][]*Term{}
		}
		if r.ex == nil || !r.ex.restart {
			return r
		}
	}
}

func runUnitOnce(P *Program, D *Doc, s *FuncSpec, bound int) (r *UnitResult) {
	start := time.Now()
	ex := newExecFor(P, D)
	r = &UnitResult{name: D.unitName(s), spec: s, ex: ex, bounded: bound > 0}
	defer func() {
		r.wall = time.Since(start).Seconds()
		if e := recover(); e != nil {
			if os.Getenv("GOVC_PANIC") != "" {
				panic(e)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r.aborted = fmt.Sprintf("engine: %v", e)
			if os.Getenv("GOVC_DEBUG") != "" {
				r.aborted += "\n" + string(buf)
			}
			r.obls = ex.obls
		}
	}()
	lim := unitLimit
	if bound > 0 {
		ex.bounded, ex.boundK = true, bound
		lim = 40 * time.Second
	}
	ex.deadline = start.Add(lim)
	if !runDeadline.IsZero() && runDeadline.Before(ex.deadline) {
		ex.deadline = runDeadline
	}
	fn := P.lookupFunc(s.name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.aborted = "function not found: " + s.name
		return r
	}
	u := &Unit{name: r.name, spec: s, doc: D, fn: fn, ghostT: map[string]types.Type{}, params: map[string]DV{}, noContract: map[string]bool{}, skipInv: map[string]bool{}}
	ex.U = u
	if fn.Pkg != nil {
		u.pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		u.pkg = fn.Object().Pkg()
	}
	u.maypanic = s.opts["maypanic"] != ""
	u.shareFresh = s.opts["sharefresh"] != ""
	for _, l := range strings.Fields(s.opts["skipinv"]) {
		u.skipInv[l] = true
	}
	if s.modular {
		// the function itself is verified against its body, recursive calls use the contract
		if s.opts["recursive"] == "" {
			u.noContract[s.name] = true
		}
	}
	for _, n := range strings.Fields(s.opts["nocontract"]) {
		u.noContract[n] = true
	}
	if v := s.opts["steps"]; v != "" {
		ex.maxSteps, _ = strconv.Atoi(v)
	}
	st := &State{heap: map[string]*Term{}, ghosts: map[string]Value{}, mark: Int(0)}
	ex.setGlobals(st)
	if s.opts["startup"] != "" && fn.Pkg != nil {
		// the package variables have the values the initialiser gives them
		ini := fn.Pkg.Func("init")
		if ini == nil || len(ini.Blocks) == 0 {
			r.aborted = "no package initialiser"
			return r
		}
		var ends []*State
		ex.collect = &ends
		st.frames = []*Frame{ex.newFrame(ini, nil, nil)}
		ex.push(st)
		ex.drain()
		ex.collect = nil
		if ex.aborted != "" || len(ends) != 1 {
			r.aborted = fmt.Sprintf("package initialiser: %d outcomes %s", len(ends), ex.aborted)
			return r
		}
		st = ends[0]
	}
	// parameters
	var args []Value
	k := 0
	for i, p := range fn.Params {
		isRecv := i == 0 && fn.Signature.Recv() != nil
		v := st.freshValue("p_"+p.Name(), p.Type())
		st.sliceFacts(v)
		args = append(args, v)
		d := DV{v, p.Type()}
		if isRecv {
			u.self = d
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				st.assume(Ne(v.(*Term), Int(0)))
				st.assume(Lt(Int(0), v.(*Term)))
			}
			continue
		}
		if k < len(s.params) {
			if s.params[k] != "_" {
				u.params[s.params[k]] = d
			}
		} else if len(s.params) == 0 {
			u.params[p.Name()] = d
		}
		k++
	}
	if len(s.params) > k {
		r.aborted = fmt.Sprintf("function %s takes %d parameters, contract names %d", s.name, k, len(s.params))
		return r
	}
	fr := ex.newFrame(fn, args, nil)
	st.frames = []*Frame{fr}
	if u.self.v != nil {
		if td := D.typeDecl(typeKey(deref(u.self.t))); td != nil {
			ex.assumeImmut(st, td, u.self.v.(*Term))
		}
	}
	ec := ex.newEval(st)
	unfoldN++
	for _, uf := range s.unfolds {
		for _, n := range uf.names {
			if u.unfolded == nil {
				u.unfolded = map[string]string{}
			}
			u.unfolded[n] = fmt.Sprintf("%s#%d", n, unfoldN)
		}
	}
	for _, uf := range s.unfolds {
		j := BVar("unfold."+uf.param, SInt)
		m := ec.with(func(m *evalCtx) { m.locals[uf.param] = DV{j, tInt} })
		np := len(st.pc)
		t, err := m.boolExpr(uf.expr)
		if err != nil {
			r.aborted = fmt.Sprintf("unfold %s: %v", uf.src, err)
			return r
		}
		// facts noted while evaluating hold of every instance
		t = And(append([]*Term{t}, st.pc[np:]...)...)
		st.pc = st.pc[:np]
		for _, n := range uf.names {
			addUFAxiom(u.unfolded[n], func(app *Term) []*Term { return []*Term{Subst(t, map[*Term]*Term{j: app.args[0]})} })
		}
	}
	for _, c := range s.requires {
		t, err := ec.boolExpr(c.expr)
		if err != nil {
			r.aborted = fmt.Sprintf("requires %s: %v", c.src, err)
			return r
		}
		st.assume(t)
	}
	for _, g := range s.ghosts {
		t, err := D.parseType(P, g.typ)
		if err != nil {
			r.aborted = fmt.Sprintf("ghost %s: %v", g.name, err)
			return r
		}
		u.ghostT[g.name] = t
		var v Value
		if g.init != nil {
			d, err := ec.value(g.init)
			if err != nil {
				r.aborted = fmt.Sprintf("ghost %s: %v", g.name, err)
				return r
			}
			v = ec.coerce(d, t)
		} else if s, ok := ghostSort(t); ok {
			v = zeroTerm(s)
		} else {
			v = zeroValue(t)
		}
		st.ghosts[g.name] = v
	}
	if len(st.pc) > 0 && st.pc[len(st.pc)-1] == tFalse || !ex.feasible(st) {
		r.vacuous = "the preconditions are contradictory"
		r.aborted = r.vacuous
		return r
	}
	ex.entry = st.clone()
	ex.push(st)
	ex.drain()
	r.obls = ex.obls
	r.aborted = ex.aborted
	if r.aborted == "" && ex.exits == 0 && s.opts["noreturn"] == "" {
		r.vacuous = "no path reaches an exit of the function"
		r.aborted = r.vacuous
	}
	if r.aborted == "" && ex.returns == 0 && len(s.ensures) > 0 && s.opts["noreturn"] == "" {
		r.vacuous = "no path returns, the postconditions say nothing"
		r.aborted = r.vacuous
	}
	return r
}

// setGlobals: package variables that only the package initialiser assigns keep their value
func (ex *Exec) setGlobals(st *State) {
	for k, v := range ex.P.constGlobals() {
		st.heap[k] = v
		_ = ex.base(k, v.sort)
	}
	for p := range ex.P.pkgs {
		k := "G$" + p + ".init$guard"
		st.heap[k] = tFalse
		_ = ex.base(k, SBool)
	}
}

var cgCache map[string]*Term

func (P *Program) constGlobals() map[string]*Term {
	if cgCache != nil {
		return cgCache
	}
	cgCache = map[string]*Term{}
	type info struct {
		n    int
		val  ssa.Value
		init bool
		bad  bool
	}
	inf := map[*ssa.Global]*info{}
	get := func(g *ssa.Global) *info {
		if inf[g] == nil {
			inf[g] = &info{}
		}
		return inf[g]
	}
	for fn := range allFuncs(P) {
		if !P.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						i := get(g)
						i.n++
						i.val = s.Val
						i.init = fn.Synthetic == "package initializer"
						if _, isG := s.Val.(*ssa.Global); isG {
							get(s.Val.(*ssa.Global)).bad = true
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch u := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.FieldAddr, *ssa.IndexAddr:
							_ = u
							get(g).bad = true
						default:
							get(g).bad = true
						}
					}
				}
			}
		}
	}
	for g, i := range inf {
		if i.bad || i.n != 1 || !i.init {
			continue
		}
		key := "G$" + g.Pkg.Pkg.Path() + "." + g.Name()
		t := constGlobalVal(i.val)
		if t != nil {
			cgCache[key] = t
		}
	}
	return cgCache
}

func constGlobalVal(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		ex := &Exec{}
		if t, ok := ex.constVal(x).(*Term); ok {
			return t
		}
	case *ssa.Function:
		return funcTerm(x)
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return closureTerm(x.Fn.(*ssa.Function), nil)
		}
	case *ssa.ChangeType:
		return constGlobalVal(x.X)
	case *ssa.MakeInterface:
		if t := constGlobalVal(x.X); t != nil {
			return mkBox(t, x.X.Type())
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "regexp.MustCompile":
				if c, ok := x.Call.Args[0].(*ssa.Const); ok {
					return mk("box", SInt, "*regexp.Regexp", nil, Str(constant.StringVal(c.Value)))
				}
			}
		}
	}
	return nil
}

func mkBox(t *Term, ty types.Type) *Term {
	ex := &Exec{}
	return ex.box(t, ty)
}

// ---- lemmas

func proveLemmas(P *Program, D *Doc, timeout time.Duration) []*Obl {
	var out []*Obl
	for li, l := range D.lemmas {
		ex := newExecFor(P, D)
		st := &State{heap: map[string]*Term{}, ghosts: map[string]Value{}, mark: Int(0)}
		ex.U = &Unit{name: "lemma " + l.name, ghostT: map[string]types.Type{}, params: map[string]DV{}, spec: &FuncSpec{opts: map[string]string{}}}
		ec := ex.newEval(st)
		bad := ""
		for _, p := range l.params {
			t, err := D.parseType(P, p[1])
			if err != nil {
				bad = err.Error()
				break
			}
			s, ok := ghostSort(t)
			if !ok {
				bad = "lemma parameter type " + p[1]
				break
			}
			v := Var("L:"+p[0], s)
			ec.locals[p[0]] = DV{v, t}
		}
		for _, c := range l.requires {
			if bad != "" {
				break
			}
			t, err := ec.boolExpr(c.expr)
			if err != nil {
				bad = err.Error()
				break
			}
			st.assume(t)
		}
		// a lemma may use earlier lemmas only
		all := D.lemmas
		for _, c := range l.uses {
			if bad != "" {
				break
			}
			D.lemmas = all[:li]
			e := parseCall(c.src)
			var t *Term
			err := ec.try(func() { t = ec.useLemma(e) })
			D.lemmas = all
			if err != nil {
				bad = err.Error()
				break
			}
			st.assume(t)
		}
		for _, c := range l.ensures {
			if bad != "" {
				break
			}
			t, err := ec.boolExpr(c.expr)
			if err != nil {
				bad = err.Error()
				break
			}
			o := &Obl{unit: "lemma " + l.name, label: c.label, kind: "lemma", pos: D.property, hyps: append([]*Term{}, st.pc...), goal: t}
			out = append(out, o)
			// later conclusions may use earlier ones
			st.assume(t)
		}
		if bad != "" {
			o := &Obl{unit: "lemma " + l.name, label: "error", kind: "lemma", pos: bad, goal: tFalse}
			out = append(out, o)
		}
	}
	return out
}

// ---- running a property

type Report struct {
	prop, verif, tier string
	seed              int
	D                 *Doc
	units             []*UnitResult
	lemmas            []*Obl
	start             time.Time
	undecided         []string
	finder            map[string]interface{}
	outDir            string
	subs              []*subRun
	known             []string
	native            []*NativeResult
}

// NativeResult: obligations from Go-coded verification steps (Lua, regular expressions, reflect)
type NativeResult struct {
	name    string
	obls    []*Obl
	aborted string
	notes   []string
	trusted []string
	search  func() string // bounded search for a concrete failing input
}

var nativeChecks = map[string]func(P *Program, D *Doc, arg string) *NativeResult{}

func proveAll(obls []*Obl, timeout time.Duration) {
	if smoke {
		smokeAll(obls)
		return
	}
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	// an obligation that failed on several paths is not tried on the others, and proving ends with the run
	var mu sync.Mutex
	bad := map[string]int{}
	for _, o := range obls {
		if o.res.res == Unsat {
			continue
		}
		k := o.unit + "|" + o.kind + "|" + o.label
		mu.Lock()
		n := bad[k]
		mu.Unlock()
		if n >= 8 {
			o.res = ProofResult{Unknown, "", "not tried: it fails on other paths", "", 0}
			continue
		}
		if !runDeadline.IsZero() && time.Now().After(runDeadline.Add(45*time.Second)) {
			o.res = ProofResult{Unknown, "", "not tried: out of time", "", 0}
			continue
		}
		wg.Add(1)
		sem <- true
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			o.res = Prove(o.hyps, o.goal, timeout)
			if o.res.res != Unsat {
				mu.Lock()
				bad[k]++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

func loadDoc(verif, prop string) (*Doc, error) {
	D := newDoc()
	if err := D.loadFile(filepath.Join(verif, "contracts", "base.gvc")); err != nil {
		return nil, err
	}
	if err := D.loadFile(filepath.Join(verif, "contracts", prop+".gvc")); err != nil {
		return nil, err
	}
	return D, nil
}

// a part of another property's contract that this one rests on ("also" in the contract file)
type subRun struct {
	spec   string
	code   int
	out    string
	ev     map[string]interface{}
	replay string
	proved bool
}

func (R *Report) runSubs(scratch string) []*subRun {
	var subs []*subRun
	var wg sync.WaitGroup
	for i, a := range R.D.also {
		s := &subRun{spec: a}
		subs = append(subs, s)
		dir := filepath.Join(scratch, fmt.Sprintf("sub%d", i))
		os.MkdirAll(dir, 0755)
		wg.Add(1)
		go func() {
			defer wg.Done()
			fs := strings.Fields(s.spec)
			args := []string{"check", "-tier", "quick", "-verif", R.verif, "-repo", repoDir, "-nofind", "-out", dir}
			if len(fs) > 1 {
				args = append(args, "-func", strings.Join(fs[1:], ","))
			}
			cmd := exec.Command(os.Args[0], append(args, fs[0])...)
			cmd.Env = append(os.Environ(), "VERIF_TIER=quick")
			b, err := cmd.CombinedOutput()
			s.out = string(b)
			if err != nil {
				s.code = 2
				if x, ok := err.(*exec.ExitError); ok {
					s.code = x.ExitCode()
				}
			}
			s.proved = s.code == 0 && strings.Contains(s.out, "\nOK ") || strings.HasPrefix(s.out, "OK ")
			if e, err := os.ReadFile(filepath.Join(dir, fs[0]+".json")); err == nil {
				json.Unmarshal(e, &s.ev)
			}
			if t, err := os.ReadFile(filepath.Join(dir, fs[0]+".txt")); err == nil {
				s.replay = string(t)
			}
		}()
	}
	wg.Wait()
	return subs
}

func runCheck(prop, verif, tier, only, outDir string, verbose, nofind bool, bk int) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	R := &Report{prop: prop, verif: verif, tier: tier, seed: seed, start: time.Now(), outDir: outDir}
	scratch, err := os.MkdirTemp("", "govc-"+prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	if err := prepScratch(scratch); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	D, err := loadDoc(verif, prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	R.D = D
	timeout := 20 * time.Second
	if tier == "thorough" {
		timeout = 90 * time.Second
	}
	var P *Program
	if len(D.pkgs) > 0 {
		driverFiles = D.drivers
		P, err = LoadProgram(scratch, D.pkgs)
		if err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		if err := D.resolveTypes(P); err != nil {
			// a declared type is gone: nothing can be proved, the bounded stand-in decides
			R.undecided = append(R.undecided, "contracts do not bind: "+err.Error())
			P = nil
		}
	}
	var failed []*Obl
	total, done := 0, 0
	runDeadline = R.start.Add(400 * time.Second)
	if P != nil {
		failed = R.deductive(P, only, verbose, bk, timeout)
	}
	for _, u := range R.units {
		if u.aborted != "" {
			R.undecided = append(R.undecided, u.name+": "+u.aborted)
		}
	}
	for _, n := range R.native {
		if n.aborted != "" {
			R.undecided = append(R.undecided, n.name+": "+n.aborted)
		}
	}
	for _, o := range R.allObls() {
		total++
		if o.res.res == Unsat {
			done++
		}
	}
	R.loadKnown()
	if only == "" && outDir == "" {
		R.subs = R.runSubs(scratch)
	}
	proved := len(failed) == 0 && len(R.undecided) == 0 && total > 0
	subTotal := 0
	for _, s := range R.subs {
		proved = proved && s.proved
		if c, ok := s.ev["coverage"].(map[string]interface{}); ok {
			t, _ := c["obligations"].(float64)
			d, _ := c["discharged"].(float64)
			total += int(t)
			done += int(d)
			subTotal += int(t)
		}
	}
	code := 0
	needFinder := !proved || tier == "thorough" || finderAlways(verif, prop)
	var viol string
	if needFinder && !nofind {
		viol = R.runFinder(scratch, proved)
	}
	if viol == "" && needFinder {
		for _, n := range R.native {
			if n.search == nil {
				continue
			}
			if w := n.search(); w != "" {
				viol = filepath.Join(R.replayDir(), prop+".txt")
				os.WriteFile(viol, []byte("property "+prop+"\n"+w), 0644)
			}
		}
	}
	if viol != "" {
		R.evidence(total, done, 1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, viol)
		return 1
	}
	if !proved {
		for _, o := range failed {
			fmt.Printf("UNPROVED %s %s [%s] %s: %s\n", prop, o.unit, o.kind, o.label, o.pos)
		}
		for _, u := range R.undecided {
			fmt.Printf("UNDECIDED %s %s\n", prop, u)
		}
		// precise refutation?
		runDeadline = time.Now().Add(120 * time.Second)
		if ref := R.refute(P, failed, timeout); ref != nil {
			p := R.writeReplay(ref)
			R.evidence(total, done, 1)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
			return 1
		}
		for _, s := range R.subs {
			for _, l := range strings.Split(s.out, "\n") {
				if !s.proved && (strings.HasPrefix(l, "UNPROVED") || strings.HasPrefix(l, "UNDECIDED") || strings.HasPrefix(l, "ERROR")) {
					fmt.Println(l)
				}
			}
		}
		for _, s := range R.subs {
			if s.code == 1 {
				p := filepath.Join(R.replayDir(), R.prop+".txt")
				os.WriteFile(p, []byte("property "+R.prop+" rests on this part of the contract of "+s.spec+"\n"+s.replay), 0644)
				R.evidence(total, done, 1)
				fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
				return 1
			}
		}
	}
	R.evidence(total, done, 0)
	for _, k := range R.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if proved {
		fmt.Printf("OK %s: %d obligations discharged over %d functions in %.1fs\n", prop, done, len(R.units), time.Since(R.start).Seconds())
	} else {
		fmt.Printf("NO-VIOLATION %s: %d of %d obligations discharged; the bounded stand-in found nothing (see evidence)\n", prop, done, total)
	}
	return code
}

func (R *Report) allObls() []*Obl {
	var out []*Obl
	for _, u := range R.units {
		out = append(out, u.obls...)
	}
	out = append(out, R.lemmas...)
	for _, n := range R.native {
		out = append(out, n.obls...)
	}
	return out
}

func (R *Report) deductive(P *Program, only string, verbose bool, bk int, timeout time.Duration) []*Obl {
	D := R.D
	funcs := D.funcs
	if D.parallel && only == "" && bk == 0 {
		R.parallelUnits(P, timeout, verbose)
		funcs = nil
	}
	for _, s := range funcs {
		if !onlyMatches(only, D.unitName(s)) {
			continue
		}
		u := runUnit(P, D, s, bk)
		R.units = append(R.units, u)
		if verbose {
			fmt.Printf("unit %s: %d obligations, %d exits, %d steps, %.2fs %s\n", u.name, len(u.obls), u.ex.exits, u.ex.steps, u.wall, u.aborted)
		}
	}
	if only == "" || R.outDir != "" {
		R.lemmas = proveLemmas(P, D, timeout)
		for _, n := range D.native {
			fs := strings.SplitN(n, " ", 2)
			arg := ""
			if len(fs) > 1 {
				arg = fs[1]
			}
			f := nativeChecks[fs[0]]
			if f == nil {
				R.native = append(R.native, &NativeResult{name: n, aborted: "unknown native check"})
				continue
			}
			var r *NativeResult
			func() {
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("GOVC_PANIC") != "" {
							panic(e)
						}
						r = &NativeResult{name: n, aborted: fmt.Sprintf("engine: %v", e)}
					}
				}()
				r = f(P, D, arg)
			}()
			R.native = append(R.native, r)
			if verbose {
				fmt.Printf("native %s: %d obligations %s\n", n, len(r.obls), r.aborted)
			}
		}
	}
	all := R.allObls()
	var here []*Obl
	for _, o := range all {
		if !o.remote {
			here = append(here, o)
		}
	}
	proveAll(here, timeout)
	var failed []*Obl
	for _, o := range all {
		if o.res.res != Unsat {
			failed = append(failed, o)
			if verbose {
				fmt.Printf("FAIL %s [%s] %s: %s  (%s %s)\n", o.unit, o.kind, o.label, o.pos, o.res.res, o.res.backend)
				if os.Getenv("GOVC_SHOW") != "" {
					fmt.Println("   trail:", strings.Join(o.trail, " "))
					fmt.Println("   imprecise:", o.impre)
					for _, h := range o.hyps {
						fmt.Println("   H", h)
					}
					fmt.Println("   G", o.goal)
					if o.res.info != "" {
						fmt.Println("   I", o.res.info)
					}
				}
			}
		}
	}
	if d := os.Getenv("GOVC_QUERIES"); d != "" {
		for i, o := range failed {
			os.WriteFile(filepath.Join(d, fmt.Sprintf("%s-%d.smt2", R.prop, i)), []byte(o.res.query), 0644)
		}
	}
	return failed
}

// refute: an obligation the solver refutes on a path executed without approximation
func (R *Report) refute(P *Program, failed []*Obl, timeout time.Duration) *Obl {
	if P == nil {
		return nil
	}
	for _, o := range failed {
		if o.res.res == Sat && len(o.impre) == 0 && o.kind != "lemma" {
			return o
		}
	}
	// loops unrolled instead of cut: no inferred invariants on the path
	redo := map[string]bool{}
	for _, o := range failed {
		redo[o.unit] = true
	}
	for _, u := range R.units {
		if u.aborted != "" {
			redo[u.name] = true
		}
	}
	for _, s := range R.D.funcs {
		if !redo[R.D.unitName(s)] {
			continue
		}
		u := runUnit(P, R.D, s, 3)
		var os []*Obl
		for _, o := range u.obls {
			if len(o.impre) == 0 {
				os = append(os, o)
			}
		}
		proveAll(os, timeout)
		for _, o := range os {
			if o.res.res == Sat {
				return o
			}
		}
	}
	return nil
}

func (R *Report) replayDir() string {
	d := filepath.Join(R.verif, "out", "replay")
	if R.outDir != "" {
		d = R.outDir
	}
	os.MkdirAll(d, 0755)
	return d
}

func (R *Report) writeReplay(o *Obl) string {
	p := filepath.Join(R.replayDir(), R.prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nfunction %s\nobligation [%s] %s\nat %s\npath %s\n", R.prop, o.unit, o.kind, o.label, o.pos, strings.Join(o.trail, " "))
	fmt.Fprintf(&sb, "\nverifier: %s answers %s\n%s\n", o.res.backend, o.res.res, o.res.info)
	fmt.Fprintf(&sb, "\nhypotheses:\n")
	for _, h := range o.hyps {
		fmt.Fprintf(&sb, "  %s\n", h)
	}
	for _, h := range o.hypText {
		fmt.Fprintf(&sb, "  %s\n", h)
	}
	goal := o.goalText
	if o.goal != nil {
		goal = o.goal.String()
	}
	fmt.Fprintf(&sb, "goal:\n  %s\n\nquery:\n%s\n", goal, o.res.query)
	os.WriteFile(p, []byte(sb.String()), 0644)
	return p
}

// ---- known findings

func (R *Report) loadKnown() {
	b, err := os.ReadFile(filepath.Join(R.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + R.prop + " "
		if strings.HasPrefix(l, pre) {
			R.known = append(R.known, strings.TrimPrefix(l, pre))
		}
	}
}

// ---- finders: bounded search on the real code

func finderAlways(verif, prop string) bool {
	_, err := os.Stat(filepath.Join(verif, "finders", prop, "always"))
	return err == nil
}

// runFinder: in-package tests laid over the repository; returns the replay file of a confirmed violation
func (R *Report) runFinder(scratch string, proved bool) string {
	dir := filepath.Join(R.verif, "finders", R.prop)
	ents, err := filepath.Glob(filepath.Join(dir, "*_test.go"))
	if err != nil || len(ents) == 0 {
		return ""
	}
	sort.Strings(ents)
	R.finder = map[string]interface{}{}
	common, _ := filepath.Glob(filepath.Join(R.verif, "finders", "common", "*_test.go"))
	replay := ""
	race := false
	if _, err := os.Stat(filepath.Join(dir, "race")); err == nil {
		race = true
	}
	type job struct {
		pkg  string
		file string
	}
	rePkg := regexp.MustCompile(`(?m)^// verif-pkg: (\S+)`)
	byPkg := map[string][]string{}
	for _, f := range ents {
		b, _ := os.ReadFile(f)
		m := rePkg.FindSubmatch(b)
		if m == nil {
			continue
		}
		byPkg[string(m[1])] = append(byPkg[string(m[1])], f)
	}
	var pk []string
	for p := range byPkg {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	for _, p := range pk {
		ov := map[string]string{}
		pkgName := ""
		for _, f := range byPkg[p] {
			ov[filepath.Join(repoDir, p, "verif_"+filepath.Base(f))] = f
			b, _ := os.ReadFile(f)
			if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
				pkgName = string(m[1])
			}
		}
		// shared helpers, renamed into the package
		for _, c := range common {
			b, _ := os.ReadFile(c)
			s := regexp.MustCompile(`(?m)^package \w+`).ReplaceAllString(string(b), "package "+pkgName)
			t := filepath.Join(scratch, strings.ReplaceAll(p, "/", "_")+"_"+filepath.Base(c))
			os.WriteFile(t, []byte(s), 0644)
			ov[filepath.Join(repoDir, p, "verif_common_"+filepath.Base(c))] = t
		}
		// the existing tests of the package are not wanted in the binary
		olds, _ := filepath.Glob(filepath.Join(repoDir, p, "*_test.go"))
		keep := map[string]bool{}
		for _, o := range olds {
			if !keep[o] {
				ov[o] = ""
			}
		}
		j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		ovf := filepath.Join(scratch, "overlay-"+strings.ReplaceAll(p, "/", "_")+".json")
		os.WriteFile(ovf, j, 0644)
		rp := filepath.Join(R.replayDir(), R.prop+"-input.txt")
		os.Remove(rp)
		cnt := filepath.Join(scratch, "count-"+strings.ReplaceAll(p, "/", "_"))
		budget := "20"
		limit := "240s"
		if R.tier == "thorough" {
			budget = "150"
			limit = "600s"
		} else if proved {
			budget = "6"
		}
		if b := os.Getenv("GOVC_BUDGET"); b != "" {
			budget = b
		}
		args := []string{"test", "-overlay", ovf, "-count=1", "-vet=off", "-timeout", limit, "-run", "TestVerif", "-v"}
		if race {
			args = append(args, "-race")
		}
		args = append(args, "./"+p)
		cmd := exec.Command("go", args...)
		cmd.Dir = repoDir
		cmd.Env = append(goEnv(scratch), "VERIF_REPLAY="+rp, "VERIF_BUDGET="+budget, "VERIF_COUNT="+cnt, fmt.Sprintf("VERIF_SEED=%d", R.seed), "VERIF_TIER="+R.tier, "VERIF_DIR="+R.verif)
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		text := string(out)
		status := "quiet"
		if err != nil {
			status = "failed without a violation: " + lastLines(text, 6)
			if strings.Contains(text, "VERIF-VIOLATION") {
				status = "violation"
			} else if strings.Contains(text, "\npanic: ") && !strings.Contains(text, "panic: test timed out") && !strings.Contains(text, "[setup failed]") {
				// a panic in a goroutine of the code under test ends the test process
				status = "violation"
				fmt.Println("VERIF-VIOLATION: the code panics in a goroutine of its own")
			} else if race && strings.Contains(text, "WARNING: DATA RACE") {
				status = "violation"
			}
		}
		info := map[string]interface{}{"package": p, "budget_s": budget, "status": status}
		if b, e := os.ReadFile(cnt); e == nil {
			info["evaluations"] = strings.TrimSpace(string(b))
		}
		R.finder[p] = info
		if status == "violation" {
			f, _ := os.OpenFile(rp, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			fmt.Fprintf(f, "\nproperty %s\nconfirmed by running the code in %s: go test -overlay (finder %s)\n\n%s\n", R.prop, p, strings.Join(byPkg[p], " "), tail(text, 6000))
			for _, o := range R.allObls() {
				if o.res.res != Unsat {
					fmt.Fprintf(f, "failed obligation: %s [%s] %s: %s (%s)\n", o.unit, o.kind, o.label, o.pos, o.res.res)
				}
			}
			f.Close()
			replay = rp
			for _, l := range strings.Split(text, "\n") {
				if strings.Contains(l, "VERIF-VIOLATION") || strings.Contains(l, "DATA RACE") {
					fmt.Println(strings.TrimSpace(l))
					break
				}
			}
			return replay
		}
		if err != nil {
			fmt.Printf("NOTE finder in %s: %s\n", p, status)
		}
	}
	return replay
}

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, " | ")
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---- evidence

func (R *Report) evidence(total, done, violations int) {
	type fnInfo struct {
		Function    string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		Exits       int      `json:"exits"`
		Inlined     []string `json:"inlined,omitempty"`
		Status      string   `json:"status"`
	}
	var fns []fnInfo
	backends := map[string]int{}
	kinds := map[string]int{}
	ext := map[string]bool{}
	notes := map[string]bool{}
	var ms int64
	for _, u := range R.units {
		fi := fnInfo{Function: u.name, Exits: u.ex.exits, Status: "proved"}
		for k := range u.ex.inlined {
			if k != u.spec.name {
				fi.Inlined = append(fi.Inlined, k)
			}
		}
		sort.Strings(fi.Inlined)
		for _, o := range u.obls {
			fi.Obligations++
			if o.res.res == Unsat {
				fi.Discharged++
			}
		}
		if u.aborted != "" {
			fi.Status = "undecided: " + u.aborted
		} else if fi.Discharged < fi.Obligations {
			fi.Status = "not proved"
		}
		for k := range u.ex.externs {
			ext[k] = true
		}
		for k := range u.ex.notes {
			notes[k] = true
		}
		fns = append(fns, fi)
	}
	var fails []string
	seen := map[string]bool{}
	for _, o := range R.allObls() {
		ms += o.res.ms
		kinds[o.kind]++
		if o.res.res == Unsat {
			backends[o.res.backend]++
		} else {
			s := fmt.Sprintf("%s [%s] %s: %s", o.unit, o.kind, o.label, o.pos)
			if !seen[s] {
				fails = append(fails, s)
				seen[s] = true
			}
		}
	}
	trusted := []string{
		"govc (/verif/govc): generation of obligations from go/ssa of /repo's current source, and the go/ssa builder of golang.org/x/tools v0.52.0",
		"SMT solvers z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
	}
	var es []string
	for k := range ext {
		es = append(es, k)
	}
	sort.Strings(es)
	if len(es) > 0 {
		trusted = append(trusted, "assumed contracts of external functions: "+strings.Join(es, ", "))
	}
	for _, n := range R.native {
		trusted = append(trusted, n.trusted...)
	}
	as := append([]string{}, R.D.assume...)
	var ns []string
	for k := range notes {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	as = append(as, ns...)
	cov := map[string]interface{}{
		"obligations":              total,
		"discharged":               done,
		"checker_cmd":              fmt.Sprintf("/verif/bin/govc check -tier %s %s", R.tier, R.prop),
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"discharged_by":            backends,
		"obligations_by_kind":      kinds,
		"solver_ms":                ms,
		"lemmas":                   len(R.lemmas),
	}
	if len(R.native) > 0 {
		var nn []string
		for _, n := range R.native {
			nn = append(nn, fmt.Sprintf("%s: %d obligations %s", n.name, len(n.obls), n.aborted))
			nn = append(nn, n.notes...)
		}
		cov["other_obligation_sources"] = nn
	}
	if len(fails) > 0 {
		cov["undischarged"] = fails
	}
	if len(R.undecided) > 0 {
		cov["undecided"] = R.undecided
	}
	for _, s := range R.subs {
		st := "proved"
		if !s.proved {
			st = "not proved"
			if s.code == 1 {
				st = "refuted"
			}
		}
		x := map[string]interface{}{"status": st, "coverage": s.ev["coverage"]}
		sm, _ := cov["also_rests_on"].(map[string]interface{})
		if sm == nil {
			sm = map[string]interface{}{}
			cov["also_rests_on"] = sm
		}
		sm[s.spec] = x
		if c, ok := s.ev["coverage"].(map[string]interface{}); ok {
			if t, ok := c["solver_ms"].(float64); ok {
				cov["solver_ms"] = cov["solver_ms"].(int64) + int64(t)
			}
			if m, ok := c["discharged_by"].(map[string]interface{}); ok {
				for k, v := range m {
					if f, ok := v.(float64); ok {
						backends[k] += int(f)
					}
				}
			}
		}
		if l, ok := s.ev["assumptions"].([]interface{}); ok {
			for _, a := range l {
				if t, ok := a.(string); ok && !contains2(as, t) {
					as = append(as, t)
				}
			}
		}
	}
	if R.finder != nil {
		cov["bounded_search_not_counted_as_proof"] = R.finder
	}
	ev := map[string]interface{}{
		"property":    R.prop,
		"tier":        R.tier,
		"seed":        R.seed,
		"level":       "proof",
		"coverage":    cov,
		"wall_s":      time.Since(R.start).Seconds(),
		"assumptions": as,
		"violations":  violations,
	}
	if len(as) == 0 {
		delete(ev, "assumptions")
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(R.verif, "evidence")
	if R.outDir != "" {
		d = R.outDir
	}
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, R.prop+".json"), append(b, '\n'), 0644)
}

func onlyMatches(only, name string) bool {
	if only == "" {
		return true
	}
	for _, o := range strings.Split(only, ",") {
		if strings.Contains(name, o) {
			return true
		}
	}
	return false
}

func contains2(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// smokeAll reports the labels all of whose obligations have contradictory hypotheses
func smokeAll(obls []*Obl) {
	by := map[string][]*Obl{}
	for _, o := range obls {
		k := o.unit + " [" + o.kind + "] " + o.label
		by[k] = append(by[k], o)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for k, os_ := range by {
		fmt.Fprintf(os.Stderr, "LABEL %s\n", k)
		wg.Add(1)
		sem <- true
		go func(k string, l []*Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			for i, o := range l {
				if i >= 200 {
					return
				}
				if r := Prove(o.hyps, tFalse, 2*time.Second); r.res != Unsat {
					return
				}
			}
			fmt.Fprintf(os.Stderr, "VACUOUS %s (%d obligations)\n", k, len(l))
			if os.Getenv("GOVC_SHOW") != "" && len(l) > 0 {
				fmt.Fprintln(os.Stderr, strings.Join(l[0].trail, "\n"))
				for _, h := range l[0].hyps {
					fmt.Fprintln(os.Stderr, "HYP", h)
				}
			}
		}(k, os_)
	}
	wg.Wait()
}
