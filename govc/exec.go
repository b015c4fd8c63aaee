package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	unit     string
	label    string
	kind     string
	pos      string
	hyps     []*Term
	goal     *Term
	trail    []string
	impre    []string
	res      ProofResult
	path     int
	remote   bool // decided in a process of its own
	hypText  []string
	goalText string
}

type closure struct {
	fn   *ssa.Function
	bind []Value
	key  string
}

type Exec struct {
	deadline time.Time
	restart  bool
	unrolled map[*ssa.BasicBlock]int
	P        *Program
	D        *Doc
	U        *Unit
	baseHeap map[string]*Term
	work     []*State
	probe    *probeCtx
	obls     []*Obl
	oblKeys  map[string]bool
	collect  *[]*State // where ended states go while the package initialiser runs
	entry    *State    // state right after requires
	exits    int
	returns  int // exits that are returns
	covered  bool
	steps    int
	maxSteps int
	bounded  bool
	boundK   int
	cutPaths int
	aborted  string
	cuts     int
	inlined  map[string]bool
	externs  map[string]bool
	notes    map[string]bool
	quiet    bool
	mapIters int
}

var closTab []*closure
var closKey = map[string]int64{}
var funcTab = map[string]*ssa.Function{}

func funcTerm(f *ssa.Function) *Term {
	n := f.String()
	if g, ok := funcTab[n]; ok && g != f {
		n = fmt.Sprintf("%s@%p", n, f)
	}
	funcTab[n] = f
	return FuncT(n)
}

func valKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case *SliceV:
		return fmt.Sprintf("s%d,%d,%d", x.ref.id, x.off.id, x.n.id)
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += valKey(f) + ";"
		}
		return s + "}"
	}
	return fmt.Sprintf("%p", v)
}

func closureTerm(f *ssa.Function, bind []Value) *Term {
	k := f.String() + fmt.Sprintf("@%p", f)
	for _, b := range bind {
		k += "|" + valKey(b)
	}
	if id, ok := closKey[k]; ok {
		return ClosureT(id)
	}
	closTab = append(closTab, &closure{f, bind, k})
	id := int64(len(closTab) - 1)
	closKey[k] = id
	return ClosureT(id)
}

func (ex *Exec) note(s string) { ex.notes[s] = true }

func (ex *Exec) abort(format string, a ...interface{}) {
	if ex.aborted == "" {
		ex.aborted = fmt.Sprintf(format, a...)
	}
}

// cover (GOVC_COVER): the blocks of the explored functions that no feasible path reaches are reported
var cover = os.Getenv("GOVC_COVER") != ""
var coverPc = map[*ssa.BasicBlock][][]*Term{}

func coverReport(P *Program) {
	fns := map[*ssa.Function]bool{}
	for b := range coverPc {
		fns[b.Parent()] = true
	}
	for fn := range fns {
		for _, b := range fn.Blocks {
			if b.Index == 0 || b == fn.Recover {
				continue
			}
			ok := false
			for _, pc := range coverPc[b] {
				if r := Prove(pc, tFalse, time.Second); r.res != Unsat {
					ok = true
					break
				}
			}
			if !ok {
				pos := ""
				for _, in := range b.Instrs {
					if p := in.Pos(); p.IsValid() {
						pos = fn.Prog.Fset.Position(p).String()
						break
					}
				}
				fmt.Fprintf(os.Stderr, "UNREACHED %s block %d (%s) %s entered %d\n", fn, b.Index, b.Comment, pos, len(coverPc[b]))
			}
		}
	}
}

// ---- obligations

// smoke (GOVC_SMOKE): every obligation asks for false instead, so that one that holds is vacuous
var smoke = os.Getenv("GOVC_SMOKE") != ""

func (ex *Exec) oblige(st *State, label, kind string, goal *Term, where string) {
	if ex.probe != nil || ex.quiet {
		return
	}
	if smoke {
		goal = tFalse
	}
	if goal == tTrue {
		// trivially discharged by the simplifier, still counted
		ex.obls = append(ex.obls, &Obl{unit: ex.U.name, label: label, kind: kind, pos: where, goal: goal, res: ProofResult{Unsat, "simplifier", "", "", 0}})
		return
	}
	hy := append([]*Term{}, st.pc...)
	key := label + where + fmt.Sprint(goal.id)
	for _, h := range hy {
		key += fmt.Sprintf(",%d", h.id)
	}
	if ex.oblKeys[key] {
		return
	}
	ex.oblKeys[key] = true
	ex.obls = append(ex.obls, &Obl{unit: ex.U.name, label: label, kind: kind, pos: where, hyps: hy, goal: goal, trail: append([]string{}, st.trail...), impre: append([]string{}, st.impre...)})
}

func (ex *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (ex *Exec) here(st *State) string {
	if len(st.frames) == 0 {
		return ""
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.block == nil {
			continue
		}
		for k := f.idx; k >= 0; k-- {
			if k < len(f.block.Instrs) {
				if p := f.block.Instrs[k].Pos(); p.IsValid() {
					return ex.posOf(p)
				}
			}
		}
	}
	return st.top().fn.String()
}

// ---- feasibility

func (ex *Exec) feasible(st *State, extra ...*Term) bool {
	for _, e := range extra {
		if e == tFalse {
			return false
		}
	}
	return Feasible(append(append([]*Term{}, st.pc...), extra...))
}

// must: is c implied by the path condition (cheap)
func (ex *Exec) must(st *State, c *Term) bool {
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	for _, p := range st.pc {
		if p == c {
			return true
		}
	}
	return !ex.feasible(st, Not(c))
}

// decide: 1 true, 0 false, -1 open
func (ex *Exec) decide(st *State, c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return 0
	}
	nc := Not(c)
	for _, p := range st.pc {
		if p == c {
			return 1
		}
		if p == nc {
			return 0
		}
	}
	if !ex.feasible(st, nc) {
		return 1
	}
	if !ex.feasible(st, c) {
		return 0
	}
	return -1
}

// ---- values

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if isFloat(t) {
			return UF("float", SReal, Str(c.Value.ExactString()))
		}
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			break
		}
		return BigT(b)
	case constant.Float:
		if isFloat(t) {
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				return UF("float", SReal, Str(i.ExactString()))
			}
			return UF("float", SReal, Str(c.Value.ExactString()))
		}
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return BigT(b)
		}
	}
	return UF("const", SInt, Str(c.Value.ExactString()))
}

func (ex *Exec) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return funcTerm(x)
	case *ssa.Global:
		return Glob(x.Pkg.Pkg.Path() + "." + x.Name())
	case *ssa.Builtin:
		return Int(0)
	}
	f := st.top()
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func (ex *Exec) term(st *State, v ssa.Value) *Term {
	r := ex.val(st, v)
	t, ok := r.(*Term)
	if !ok {
		panic(fmt.Sprintf("scalar expected: %s : %s is %T", v.Name(), v.Type(), r))
	}
	return t
}

func (ex *Exec) set(st *State, v ssa.Value, x Value) {
	st.top().env[v] = x
}

// ---- main loop

func (ex *Exec) push(st *State) { ex.work = append(ex.work, st) }

func (ex *Exec) drain() {
	for len(ex.work) > 0 && ex.aborted == "" {
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.runState(st)
	}
}

func (ex *Exec) runState(st *State) {
	for {
		if ex.aborted != "" {
			return
		}
		ex.steps++
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.abort("time limit")
			return
		}
		if ex.steps > ex.maxSteps {
			ex.abort("step limit")
			return
		}
		if len(st.frames) == 0 {
			return
		}
		if p := ex.probe; p != nil && len(st.frames) <= p.depth {
			return // left the frame of the loop under probing
		}
		if st.top().unwinding {
			if !ex.unwindStep(st) {
				return
			}
			continue
		}
		if !ex.step(st) {
			return
		}
	}
}

// step executes one instruction; false when the path ends or was re-queued
func (ex *Exec) step(st *State) bool {
	f := st.top()
	if f.idx >= len(f.block.Instrs) {
		panic("fell off block " + f.fn.String())
	}
	in := f.block.Instrs[f.idx]
	if traceExec {
		fmt.Printf("  [%d] %s.%d: %s\n", len(st.frames), f.fn.Name(), f.block.Index, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(x.Type())
		ex.set(st, x, ex.alloc(st, t))
	case *ssa.BinOp:
		v, ok := ex.binop(st, x)
		if !ok {
			return false
		}
		ex.set(st, x, v)
	case *ssa.UnOp:
		return ex.unop(st, x)
	case *ssa.ChangeType:
		ex.set(st, x, ex.val(st, x.X))
	case *ssa.ChangeInterface:
		ex.set(st, x, ex.val(st, x.X))
	case *ssa.Convert:
		ex.set(st, x, ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		ex.set(st, x, ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		ex.abort("slice to array pointer at %s", ex.here(st))
		return false
	case *ssa.MakeInterface:
		ex.set(st, x, ex.box(ex.val(st, x.X), x.X.Type()))
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range x.Bindings {
			b = append(b, ex.val(st, y))
		}
		fn := x.Fn.(*ssa.Function)
		ex.set(st, x, closureTerm(fn, b))
	case *ssa.MakeMap:
		ex.set(st, x, ex.newMap(st, x.Type()))
	case *ssa.MakeChan:
		n := ex.term(st, x.Size)
		if !ex.panicIf(st, Lt(n, Int(0)), "makechan: size out of range") {
			return false
		}
		ex.set(st, x, ex.newChan(st, n))
	case *ssa.MakeSlice:
		n := ex.term(st, x.Len)
		if !ex.panicIf(st, Or(Lt(n, Int(0)), Lt(ex.term(st, x.Cap), n)), "makeslice: len out of range") {
			return false
		}
		ex.set(st, x, ex.makeSlice(st, x.Type(), n))
	case *ssa.Slice:
		v, ok := ex.slice(st, x)
		if !ok {
			return false
		}
		ex.set(st, x, v)
	case *ssa.FieldAddr:
		b := ex.term(st, x.X)
		if !ex.nilCheck(st, b) {
			return false
		}
		T := deref(x.X.Type())
		s := T.Underlying().(*types.Struct)
		ex.set(st, x, FA(typeKey(T)+"."+s.Field(x.Field).Name(), b))
	case *ssa.Field:
		sv, ok := ex.val(st, x.X).(*StructV)
		if !ok {
			ex.abort("field of opaque struct at %s", ex.here(st))
			return false
		}
		ex.set(st, x, sv.f[x.Field])
	case *ssa.IndexAddr:
		v, ok := ex.indexAddr(st, x)
		if !ok {
			return false
		}
		ex.set(st, x, v)
	case *ssa.Index:
		v, ok := ex.index(st, x)
		if !ok {
			return false
		}
		ex.set(st, x, v)
	case *ssa.Lookup:
		v, ok := ex.lookup(st, x)
		if !ok {
			return false
		}
		ex.set(st, x, v)
	case *ssa.MapUpdate:
		m := ex.term(st, x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		if !ex.panicIf(st, Eq(m, Int(0)), "assignment to entry in nil map") {
			return false
		}
		ex.guardContent(st, m, true, "map")
		ex.mapStore(st, m, mt, ex.val(st, x.Key), ex.val(st, x.Value))
	case *ssa.Range:
		ex.set(st, x, ex.rangeIter(st, x))
	case *ssa.Next:
		return ex.next(st, x)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, x)
	case *ssa.Extract:
		t := ex.val(st, x.Tuple).(*StructV)
		ex.set(st, x, t.f[x.Index])
	case *ssa.Select:
		return ex.selectStmt(st, x)
	case *ssa.Send:
		return ex.sendStmt(st, x)
	case *ssa.Store:
		a := ex.term(st, x.Addr)
		if !ex.nilCheck(st, a) {
			return false
		}
		ex.guardAccess(st, a, true)
		ex.store(st, a, deref(x.Addr.Type()), ex.val(st, x.Val))
	case *ssa.Go:
		return ex.goStmt(st, x)
	case *ssa.Defer:
		fnv, args, ok := ex.callOperands(st, &x.Call)
		if !ok {
			return false
		}
		f.defers = append(f.defers, &deferred{&x.Call, fnv, args, x})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			// idx is not advanced: run the rest afterwards
			return ex.call(st, d.call, d.fnv, d.args, nil, func(ex *Exec, st *State, v Value) {}, true)
		}
	case *ssa.Call:
		fnv, args, ok := ex.callOperands(st, &x.Call)
		if !ok {
			return false
		}
		f.idx++
		return ex.call(st, &x.Call, fnv, args, x, nil, false)
	case *ssa.Panic:
		v := ex.term(st, x.X)
		return ex.doPanic(st, v, "panic")
	case *ssa.Return:
		return ex.doReturn(st, x)
	case *ssa.Jump:
		return ex.enter(st, f.block.Succs[0])
	case *ssa.If:
		c := ex.term(st, x.Cond)
		tb, fb := f.block.Succs[0], f.block.Succs[1]
		switch ex.decide(st, c) {
		case 1:
			st.assume(c)
			return ex.enter(st, tb)
		case 0:
			st.assume(Not(c))
			return ex.enter(st, fb)
		}
		o := st.clone()
		o.assume(Not(c))
		o.trail = append(o.trail, ex.here(st)+" else")
		st.trail = append(st.trail, ex.here(st)+" then")
		st.assume(c)
		if ex.enter(o, fb) {
			ex.push(o)
		}
		return ex.enter(st, tb)
	default:
		ex.abort("unsupported instruction %T in %s", in, f.fn)
		return false
	}
	f.idx++
	return true
}

// loops with a known number of iterations that are cut all the same
var noUnroll = map[*ssa.BasicBlock]bool{}

// enter transfers control to block b of the top frame
func (ex *Exec) enter(st *State, b *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	if cover && ex.probe == nil && len(coverPc[b]) < 40 {
		coverPc[b] = append(coverPc[b], append([]*Term{}, st.pc...))
	}
	li := loopsOf(f.fn)
	for h := range f.loops {
		if !li[h][b] {
			delete(f.loops, h)
		}
	}
	for h := range f.unroll {
		if !li[h][b] {
			delete(f.unroll, h)
		}
	}
	if p := ex.probe; p != nil && len(st.frames) == p.depth+1 {
		if !p.set[b] {
			return false
		}
	}
	// phis
	f.prev = from
	f.block = b
	f.idx = 0
	var pv []Value
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				pv = append(pv, ex.val(st, ph.Edges[i]))
				break
			}
		}
		ps = append(ps, ph)
	}
	for i, ph := range ps {
		f.env[ph] = pv[i]
	}
	f.idx = len(ps)
	if _, isLoop := li[b]; !isLoop {
		return true
	}
	if ctx := f.loops[b]; ctx != nil {
		// back edge of a cut loop
		if p := ex.probe; p != nil && p.ctx == ctx {
			p.back = append(p.back, st)
		}
		return false
	}
	if !noUnroll[b] && ex.headerDecides(st) {
		f.unroll[b]++
		ex.unrolled[b]++
		if !ex.bounded && ex.probe == nil && f.unroll[b] > 4 && ex.unrolled[b] > 600 {
			// every iteration branches: infer invariants for this loop instead of unrolling it
			noUnroll[b] = true
			ex.restart = true
			ex.abort("loop at %s branches too much to be unrolled", ex.here(st))
			return false
		}
		if f.unroll[b] > 300 {
			ex.abort("concrete loop too long at %s", ex.here(st))
			return false
		}
		return true
	}
	if ex.bounded {
		f.unroll[b]++
		if f.unroll[b] > ex.boundK {
			ex.cutPaths++
			return false
		}
		return true
	}
	return ex.cutLoop(st)
}

// ---- returns and panics

func (ex *Exec) doReturn(st *State, x *ssa.Return) bool {
	f := st.top()
	var rs []Value
	for _, r := range x.Results {
		rs = append(rs, ex.val(st, r))
	}
	return ex.finishFrame(st, f, tupleOf(rs))
}

func tupleOf(rs []Value) Value {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return &StructV{rs}
}

func (ex *Exec) finishFrame(st *State, f *Frame, res Value) bool {
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		ex.exit(st, f, res)
		return false
	}
	if f.leave != nil {
		if !f.leave(ex, st, res) {
			return false
		}
	}
	if f.onRet != nil {
		f.onRet(ex, st, res)
	} else if f.ret != nil && res != nil {
		ex.set(st, f.ret, res)
	}
	return true
}

// panicIf forks a panicking path under c and continues under ¬c; false when the path cannot continue
func (ex *Exec) panicIf(st *State, c *Term, why string) bool {
	if c == tFalse {
		return true
	}
	if c == tTrue {
		ex.doPanicPush(st, why)
		return false
	}
	switch ex.decide(st, c) {
	case 0:
		return true
	case 1:
		ex.doPanicPush(st, why)
		return false
	}
	if !ex.U.maypanic {
		o := st.clone()
		o.assume(c)
		ex.doPanicPush(o, why)
	}
	st.assume(Not(c))
	return true
}

func (ex *Exec) doPanicPush(st *State, why string) {
	ex.doPanic(st, Box("runtime.Error", Str(why)), why)
	ex.push(st)
}

func (ex *Exec) nilCheck(st *State, a *Term) bool {
	if isAddr(a) {
		return true
	}
	if a.op == "bytesat" {
		return true
	}
	if _, _, ok := allocPos(a); ok {
		return true
	}
	return ex.panicIf(st, Eq(a, Int(0)), "nil dereference")
}

// doPanic starts panicking; true when execution continues in this state
func (ex *Exec) doPanic(st *State, v *Term, why string) bool {
	st.panicking = true
	st.panicVal = v
	st.panicWhy = why + " at " + ex.here(st)
	st.top().unwinding = true
	return true
}

// unwindStep: one step of panic unwinding in the top frame
func (ex *Exec) unwindStep(st *State) bool {
	f := st.top()
	if p := ex.probe; p != nil && len(st.frames) <= p.depth+1 {
		return false
	}
	f.loops = map[*ssa.BasicBlock]*loopCtx{}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return ex.call(st, d.call, d.fnv, d.args, nil, func(ex *Exec, st *State, v Value) {}, true)
	}
	if !st.panicking {
		f.unwinding = false
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.idx = 0
			return true
		}
		rt := f.fn.Signature.Results()
		var res Value
		if rt.Len() == 1 {
			res = zeroValue(rt.At(0).Type())
		} else if rt.Len() > 1 {
			res = zeroValue(rt)
		}
		return ex.finishFrame(st, f, res)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.onPanic != nil {
		f.onPanic(ex, st)
	}
	if len(st.frames) == 0 {
		ex.exitPanic(st, f)
		return false
	}
	st.top().unwinding = true
	return true
}

// ---- operators

func (ex *Exec) wrap(st *State, raw *Term, k intKind) *Term {
	if raw.isInt() {
		return BigT(k.wrapConst(raw.ival))
	}
	in := InRange(raw, k)
	if ex.must(st, in) {
		return raw
	}
	return Wrap(raw, k)
}

func (ex *Exec) binop(st *State, x *ssa.BinOp) (Value, bool) {
	a, b := ex.val(st, x.X), ex.val(st, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		e := ex.equal(st, a, b, x.X.Type(), x.Y.Type())
		if x.Op == token.NEQ {
			e = Not(e)
		}
		return e, true
	}
	p, q := a.(*Term), b.(*Term)
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return Concat(p, q), true
		case token.LSS:
			return UF("strlt", SBool, p, q), true
		case token.GTR:
			return UF("strlt", SBool, q, p), true
		case token.LEQ:
			return Not(UF("strlt", SBool, q, p)), true
		case token.GEQ:
			return Not(UF("strlt", SBool, p, q)), true
		}
	}
	if isFloat(t) {
		switch x.Op {
		case token.LSS:
			return UF("flt", SBool, p, q), true
		case token.GTR:
			return UF("flt", SBool, q, p), true
		case token.LEQ:
			return UF("fle", SBool, p, q), true
		case token.GEQ:
			return UF("fle", SBool, q, p), true
		}
		return UF("f"+x.Op.String(), SReal, p, q), true
	}
	switch x.Op {
	case token.LSS:
		return Lt(p, q), true
	case token.LEQ:
		return Le(p, q), true
	case token.GTR:
		return Lt(q, p), true
	case token.GEQ:
		return Le(q, p), true
	}
	k, ok := basicKind(t)
	if !ok {
		ex.abort("binop %s on %s", x.Op, t)
		return nil, false
	}
	switch x.Op {
	case token.ADD:
		return ex.wrap(st, Add(p, q), k), true
	case token.SUB:
		return ex.wrap(st, Sub(p, q), k), true
	case token.MUL:
		return ex.wrap(st, Mul(p, q), k), true
	case token.QUO, token.REM:
		if !ex.panicIf(st, Eq(q, Int(0)), "integer divide by zero") {
			return nil, false
		}
		if x.Op == token.REM {
			return RemT(p, q), true
		}
		if ex.must(st, Le(Int(0), p)) && ex.must(st, Lt(Int(0), q)) {
			return DivF(p, q), true
		}
		return ex.wrap(st, DivT(p, q), k), true
	case token.SHL:
		if q.isInt() && q.ival.IsInt64() && q.ival.Int64() < 64 {
			return ex.wrap(st, Mul(p, BigT(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64())))), k), true
		}
		return ex.uninterp(st, "shl", t, p, q), true
	case token.SHR:
		if q.isInt() && q.ival.IsInt64() && q.ival.Int64() < 64 {
			return DivF(p, BigT(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64())))), true
		}
		return ex.uninterp(st, "shr", t, p, q), true
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.isInt() && q.isInt() && p.ival.Sign() >= 0 && q.ival.Sign() >= 0 {
			r := new(big.Int)
			switch x.Op {
			case token.AND:
				r.And(p.ival, q.ival)
			case token.OR:
				r.Or(p.ival, q.ival)
			case token.XOR:
				r.Xor(p.ival, q.ival)
			case token.AND_NOT:
				r.AndNot(p.ival, q.ival)
			}
			return BigT(r), true
		}
		if x.Op == token.AND {
			for _, pr := range [][2]*Term{{p, q}, {q, p}} {
				if m := pr[1]; m.isInt() && m.ival.Sign() > 0 {
					n := new(big.Int).Add(m.ival, big.NewInt(1))
					if new(big.Int).And(n, m.ival).Sign() == 0 {
						return ModF(pr[0], BigT(n)), true
					}
				}
			}
		}
		return ex.uninterp(st, "bit"+x.Op.String(), t, p, q), true
	}
	ex.abort("binop %s", x.Op)
	return nil, false
}

// uninterp: deterministic but unknown result of type t
func (ex *Exec) uninterp(st *State, name string, t types.Type, args ...*Term) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		u := UF(name+l.path, l.sort, args...)
		ts[i] = u
		st.leafFacts(u, l)
	}
	v := unflat(ts, t)
	st.sliceFacts(v)
	return v
}

func (ex *Exec) equal(st *State, a, b Value, ta, tb types.Type) *Term {
	ia, ib := isIface(ta), isIface(tb)
	if ia && !ib {
		b = ex.box(b, tb)
		return Eq(a.(*Term), b.(*Term))
	}
	if ib && !ia {
		a = ex.box(a, ta)
		return Eq(a.(*Term), b.(*Term))
	}
	if isByteSlice(ta) {
		// comparison with nil only; nil and empty are one value here
		st.imprecise("nil comparison of a byte slice")
	}
	return eqValue(a, b, ta)
}

func (ex *Exec) box(v Value, t types.Type) *Term {
	if isIface(t) {
		return v.(*Term)
	}
	return Box(typeKey(t), flat(v, t)...)
}

func unboxAs(v *Term, t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Unbox(typeKey(t), i, l.sort, v)
	}
	return unflat(ts, t)
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) bool {
	f := st.top()
	switch x.Op {
	case token.MUL:
		a := ex.term(st, x.X)
		if !ex.nilCheck(st, a) {
			return false
		}
		ex.guardAccess(st, a, false)
		ex.set(st, x, ex.load(st, a, deref(x.X.Type())))
	case token.NOT:
		ex.set(st, x, Not(ex.term(st, x.X)))
	case token.SUB:
		if isFloat(x.X.Type()) {
			ex.set(st, x, UF("fneg", SReal, ex.term(st, x.X)))
			break
		}
		k, _ := basicKind(x.X.Type())
		ex.set(st, x, ex.wrap(st, Neg(ex.term(st, x.X)), k))
	case token.XOR:
		k, _ := basicKind(x.X.Type())
		p := ex.term(st, x.X)
		if k.signed {
			ex.set(st, x, Sub(Int(-1), p))
		} else {
			ex.set(st, x, Sub(BigT(k.hi()), p))
		}
	case token.ARROW:
		return ex.recvStmt(st, x)
	default:
		ex.abort("unop %s", x.Op)
		return false
	}
	f.idx++
	return true
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type) Value {
	if fk, ok := basicKind(from); ok {
		_ = fk
		if tk, ok := basicKind(to); ok {
			return ex.wrap(st, v.(*Term), tk)
		}
		if isFloat(to) {
			return UF("itof", SReal, v.(*Term))
		}
		if isString(to) {
			r := v.(*Term)
			if r.isInt() && r.ival.IsInt64() {
				return Str(string(rune(r.ival.Int64())))
			}
			return Ite(And(Le(Int(0), r), Lt(r, Int(128))), FromCode(r), UF("utf8enc", SStr, r))
		}
	}
	if isFloat(from) {
		if tk, ok := basicKind(to); ok {
			u := UF(fmt.Sprintf("ftoi%d", tk.bits), SInt, v.(*Term))
			st.assume(InRange(u, tk))
			return u
		}
		if isFloat(to) {
			return v
		}
	}
	if (isString(from) || isByteSlice(from)) && (isString(to) || isByteSlice(to)) {
		return v
	}
	if isString(from) {
		// []rune(s)
		return ex.runesOf(st, v.(*Term), to)
	}
	if isString(to) {
		// string([]rune)
		if sl, ok := v.(*SliceV); ok {
			st.imprecise("string from runes")
			key := "E$" + typeKey(sl.elem)
			return UF("runestr", SStr, Select(heapIn(ex, st.heap, key, arrSort(2, SInt)), sl.ref), sl.off, sl.n)
		}
	}
	if typeKey(to) == "unsafe.Pointer" || typeKey(from) == "unsafe.Pointer" {
		return v
	}
	return v
}

func (ex *Exec) runesOf(st *State, s *Term, to types.Type) Value {
	if s.isStr() {
		rs := []rune(s.sval)
		r := st.newRef()
		key := "E$" + typeKey(to.Underlying().(*types.Slice).Elem())
		for i, c := range rs {
			ex.writeLoc(st, key, []*Term{r, Int(int64(i))}, Int(int64(c)))
		}
		return &SliceV{r, Int(0), Int(int64(len(rs))), to.Underlying().(*types.Slice).Elem()}
	}
	st.imprecise("runes of a string")
	v := st.freshValue("runes", to)
	return v
}

// ---- slices, arrays, strings

func (ex *Exec) makeSlice(st *State, t types.Type, n *Term) Value {
	if isByteSlice(t) {
		if n.isInt() && n.ival.IsInt64() && n.ival.Int64() < 4096 {
			return Str(strings.Repeat("\x00", int(n.ival.Int64())))
		}
		s := st.fresh("bytes", SStr)
		st.assume(Eq(StrLen(s), n))
		return s
	}
	el := t.Underlying().(*types.Slice).Elem()
	r := st.newRef()
	for _, l := range leaves(el) {
		key := "E$" + typeKey(el) + l.path
		h := heapIn(ex, st.heap, key, arrSort(2, l.sort))
		st.heap[key] = Store(h, r, ConstArr(SArr(SInt, l.sort), zeroTerm(l.sort)))
		ex.noteWrite(st, key, []*Term{r})
	}
	return &SliceV{r, Int(0), n, el}
}

func (ex *Exec) slice(st *State, x *ssa.Slice) (Value, bool) {
	v := ex.val(st, x.X)
	var lo, hi *Term
	lo = Int(0)
	if x.Low != nil {
		lo = ex.term(st, x.Low)
	}
	if x.High != nil {
		hi = ex.term(st, x.High)
	}
	t := x.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		arr := p.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(arr.Len())
		}
		if !ex.panicIf(st, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(arr.Len())))), "slice bounds out of range") {
			return nil, false
		}
		if b, ok := arr.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			// copy out of the array (aliasing not modelled)
			var parts []*Term
			key := "E$" + typeKey(arr.Elem())
			row := Select(heapIn(ex, st.heap, key, arrSort(2, SInt)), v.(*Term))
			if lo.isInt() && hi.isInt() && hi.ival.Int64()-lo.ival.Int64() <= 256 {
				for i := lo.ival.Int64(); i < hi.ival.Int64(); i++ {
					parts = append(parts, FromCode(Select(row, Int(i))))
				}
				return Concat(parts...), true
			}
			s := st.fresh("arrbytes", SStr)
			st.assume(Eq(StrLen(s), Sub(hi, lo)))
			st.imprecise("bytes of an array")
			return s, true
		}
		return &SliceV{v.(*Term), lo, Sub(hi, lo), arr.Elem()}, true
	}
	if s, ok := v.(*Term); ok { // string or []byte
		n := StrLen(s)
		if hi == nil {
			hi = n
		}
		if !ex.panicIf(st, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, n))), "slice bounds out of range") {
			return nil, false
		}
		return Substr(s, lo, Sub(hi, lo)), true
	}
	sl := v.(*SliceV)
	if hi == nil {
		hi = sl.n
	}
	if x.Max != nil {
		m := ex.term(st, x.Max)
		if !ex.panicIf(st, Not(Le(hi, m)), "slice bounds out of range") {
			return nil, false
		}
		if ex.feasible(st, Lt(sl.n, m)) {
			st.imprecise("capacity of a slice")
		}
		if !ex.panicIf(st, Lt(sl.n, m), "slice bounds out of range (capacity)") {
			return nil, false
		}
	}
	// capacity is not modelled: slicing beyond len is reported as a bounds error, but never refuted
	if hi != sl.n && !hi.isInt() && ex.feasible(st, Lt(sl.n, hi)) {
		st.imprecise("capacity of a slice")
	}
	if !ex.panicIf(st, Not(And(Le(Int(0), lo), Le(lo, hi), Le(hi, sl.n))), "slice bounds out of range") {
		return nil, false
	}
	return &SliceV{sl.ref, Add(sl.off, lo), Sub(hi, lo), sl.elem}, true
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr) (Value, bool) {
	v := ex.val(st, x.X)
	i := ex.term(st, x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Slice:
		if s, ok := v.(*Term); ok {
			if !ex.panicIf(st, Not(And(Le(Int(0), i), Lt(i, StrLen(s)))), "index out of range") {
				return nil, false
			}
			return mk("bytesat", SInt, "", nil, s, i), true
		}
		sl := v.(*SliceV)
		if !ex.panicIf(st, Not(And(Le(Int(0), i), Lt(i, sl.n))), "index out of range") {
			return nil, false
		}
		return IA(typeKey(t.Elem()), sl.ref, Add(sl.off, i)), true
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		if !ex.nilCheck(st, v.(*Term)) {
			return nil, false
		}
		if !ex.panicIf(st, Not(And(Le(Int(0), i), Lt(i, Int(arr.Len())))), "index out of range") {
			return nil, false
		}
		return IA(typeKey(arr.Elem()), v.(*Term), i), true
	}
	ex.abort("indexaddr %s", x.X.Type())
	return nil, false
}

func (ex *Exec) index(st *State, x *ssa.Index) (Value, bool) {
	v := ex.val(st, x.X)
	i := ex.term(st, x.Index)
	if s, ok := v.(*Term); ok && (isString(x.X.Type()) || isByteSlice(x.X.Type())) {
		if !ex.panicIf(st, Not(And(Le(Int(0), i), Lt(i, StrLen(s)))), "index out of range") {
			return nil, false
		}
		b := ToCode(StrAt(s, i))
		st.assume(And(Le(Int(0), b), Le(b, Int(255))))
		return b, true
	}
	if sv, ok := v.(*StructV); ok && i.isInt() {
		return sv.f[int(i.ival.Int64())], true
	}
	ex.abort("index of array value at %s", ex.here(st))
	return nil, false
}

// ---- maps

func mapKeySort(mt *types.Map) (Sort, bool) { return scalarSort(mt.Key()) }

func mapKey(mt *types.Map) string { return "M$" + typeKey(mt) }

func (ex *Exec) mapHas(h map[string]*Term, m *Term, mt *types.Map) *Term {
	ks, ok := mapKeySort(mt)
	if !ok {
		panic("map key " + typeKey(mt))
	}
	return Select(heapIn(ex, h, mapKey(mt)+"#has", SArr(SInt, SArr(ks, SBool))), m)
}

func (ex *Exec) mapVals(h map[string]*Term, m *Term, mt *types.Map) []*Term {
	ks, _ := mapKeySort(mt)
	var out []*Term
	for _, l := range leaves(mt.Elem()) {
		if l.ref {
			keyRef[mapKey(mt)+"#v"+l.path] = true
		}
		out = append(out, Select(heapIn(ex, h, mapKey(mt)+"#v"+l.path, SArr(SInt, SArr(ks, l.sort))), m))
	}
	return out
}

func (ex *Exec) mapLenH(h map[string]*Term, m *Term, mt *types.Map) *Term {
	n := Select(heapIn(ex, h, mapKey(mt)+"#len", SArr(SInt, SInt)), m)
	return Ite(Eq(m, Int(0)), Int(0), n)
}

func (ex *Exec) newMap(st *State, t types.Type) *Term {
	mt := t.Underlying().(*types.Map)
	ks, ok := mapKeySort(mt)
	if !ok {
		ex.abort("map with composite key")
		return Int(0)
	}
	r := st.newRef()
	k := mapKey(mt)
	set := func(key string, s Sort, v *Term) {
		st.heap[key] = Store(heapIn(ex, st.heap, key, SArr(SInt, s)), r, v)
		ex.noteWrite(st, key, []*Term{r})
	}
	set(k+"#has", SArr(ks, SBool), ConstArr(SArr(ks, SBool), tFalse))
	for _, l := range leaves(mt.Elem()) {
		set(k+"#v"+l.path, SArr(ks, l.sort), ConstArr(SArr(ks, l.sort), zeroTerm(l.sort)))
	}
	set(k+"#len", SInt, Int(0))
	return r
}

func (ex *Exec) mapStore(st *State, m *Term, mt *types.Map, key, v Value) {
	k := key.(*Term)
	mk := mapKey(mt)
	has := ex.mapHas(st.heap, m, mt)
	ln := Select(heapIn(ex, st.heap, mk+"#len", SArr(SInt, SInt)), m)
	ex.put1(st, mk+"#len", m, Ite(Select(has, k), ln, Add(ln, Int(1))))
	ex.put1(st, mk+"#has", m, Store(has, k, tTrue))
	vs := ex.mapVals(st.heap, m, mt)
	fl := flat(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		ex.put1(st, mk+"#v"+l.path, m, Store(vs[i], k, fl[i]))
	}
	ex.noteMapKey(st, mk, m, k)
}

func (ex *Exec) put1(st *State, key string, ref, row *Term) {
	h := heapIn(ex, st.heap, key, SArr(SInt, row.sort))
	st.heap[key] = Store(h, ref, row)
	ex.noteWrite(st, key, []*Term{ref})
}

func (ex *Exec) noteMapKey(st *State, mk string, m, k *Term) {}

func (ex *Exec) mapDelete(st *State, m *Term, mt *types.Map, key Value) {
	k := key.(*Term)
	mk := mapKey(mt)
	has := ex.mapHas(st.heap, m, mt)
	ln := Select(heapIn(ex, st.heap, mk+"#len", SArr(SInt, SInt)), m)
	ex.put1(st, mk+"#len", m, Ite(Select(has, k), Sub(ln, Int(1)), ln))
	ex.put1(st, mk+"#has", m, Store(has, k, tFalse))
}

func (ex *Exec) mapGet(st *State, h map[string]*Term, m *Term, mt *types.Map, k *Term) (Value, *Term) {
	has := And(Ne(m, Int(0)), Select(ex.mapHas(h, m, mt), k))
	vs := ex.mapVals(h, m, mt)
	ls := leaves(mt.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		raw := Select(vs[i], k)
		if st != nil {
			st.leafFacts(raw, l)
		}
		ts[i] = Ite(has, raw, zeroTerm(l.sort))
	}
	if st != nil && has != tFalse && has != tTrue {
		st.assume(Imp(has, Le(Int(1), ex.mapLenH(h, m, mt))))
	}
	return unflat(ts, mt.Elem()), has
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) (Value, bool) {
	if isString(x.X.Type()) {
		s, i := ex.term(st, x.X), ex.term(st, x.Index)
		if !ex.panicIf(st, Not(And(Le(Int(0), i), Lt(i, StrLen(s)))), "index out of range") {
			return nil, false
		}
		b := ToCode(StrAt(s, i))
		st.assume(And(Le(Int(0), b), Le(b, Int(255))))
		return b, true
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if _, ok := mapKeySort(mt); !ok {
		ex.abort("map with composite key")
		return nil, false
	}
	m := ex.term(st, x.X)
	ex.guardContent(st, m, false, "map")
	v, has := ex.mapGet(st, st.heap, m, mt, ex.term(st, x.Index))
	if x.CommaOk {
		return &StructV{[]Value{v, has}}, true
	}
	return v, true
}

// ---- range

func (ex *Exec) rangeIter(st *State, x *ssa.Range) Value {
	st.nfresh++
	if isString(x.X.Type()) {
		it := &IterV{key: fmt.Sprintf("#iter!%d", st.nfresh), str: ex.term(st, x.X)}
		st.heap[it.key] = Int(0)
		return it
	}
	mt := x.X.Type().Underlying().(*types.Map)
	ks, _ := mapKeySort(mt)
	m := ex.term(st, x.X)
	ex.guardContent(st, m, false, "map")
	it := &IterV{key: fmt.Sprintf("#iter!%d", st.nfresh), m: m, mt: mt}
	st.heap[it.key] = ConstArr(SArr(ks, SBool), tFalse)
	st.heap[it.key+"#n"] = Int(0)
	st.heap[it.key+"#has0"] = ex.mapHas(st.heap, m, mt)
	return it
}

func (ex *Exec) next(st *State, x *ssa.Next) bool {
	it := ex.val(st, x.Iter).(*IterV)
	f := st.top()
	if x.IsString {
		pos := st.heap[it.key]
		n := StrLen(it.str)
		more := Lt(pos, n)
		stop := st.clone()
		if ex.feasible(stop, Not(more)) {
			stop.assume(Not(more))
			stop.top().env[x] = &StructV{[]Value{tFalse, Int(0), Int(0)}}
			stop.top().idx++
			ex.push(stop)
		}
		if !ex.feasible(st, more) {
			return false
		}
		st.assume(more)
		b := ToCode(StrAt(it.str, pos))
		st.assume(And(Le(Int(0), b), Le(b, Int(255))))
		// ASCII path
		if ex.feasible(st, Le(Int(128), b)) {
			o := st.clone()
			o.assume(Le(Int(128), b))
			r := o.fresh("rune", SInt)
			w := o.fresh("width", SInt)
			o.assume(And(Le(Int(128), r), Le(r, Int(0x10ffff)), Le(Int(1), w), Le(w, Int(4)), Le(Add(pos, w), n)))
			o.heap[it.key] = Add(pos, w)
			ex.noteWrite(o, it.key, nil)
			o.top().env[x] = &StructV{[]Value{tTrue, pos, r}}
			o.top().idx++
			o.imprecise("non-ASCII rune decoding")
			ex.push(o)
		}
		st.assume(Lt(b, Int(128)))
		if len(st.pc) == 0 || !ex.feasible(st) {
			return false
		}
		st.heap[it.key] = Add(pos, Int(1))
		ex.noteWrite(st, it.key, nil)
		f.env[x] = &StructV{[]Value{tTrue, pos, b}}
		f.idx++
		return true
	}
	mt := it.mt
	ks, _ := mapKeySort(mt)
	vis := st.heap[it.key]
	has := ex.mapHas(st.heap, it.m, mt)
	has0 := st.heap[it.key+"#has0"]
	// done
	stop := st.clone()
	k := BVar("k", ks)
	stop.assume(Or(Eq(it.m, Int(0)), Forall([]*Term{k}, Imp(And(Select(has, k), Select(has0, k)), Select(vis, k)))))
	stop.assume(Forall([]*Term{k}, Imp(Select(vis, k), Select(has0, k))))
	if st.heap[it.key+"#n"] != nil {
		// number of visited keys equals the length when nothing changed
		if has == has0 {
			stop.assume(Eq(st.heap[it.key+"#n"], ex.mapLenH(st.heap, it.m, mt)))
		}
	}
	stop.top().env[x] = &StructV{[]Value{tFalse, zeroTerm(ks), zeroValue(mt.Elem())}}
	stop.top().idx++
	if ex.feasible(stop) {
		ex.push(stop)
	}
	kv := st.fresh("key", ks)
	if isRefType(mt.Key()) {
		born[kv] = st.herePos()
	}
	st.leafFacts(kv, leaf{"", ks, mt.Key(), isRefType(mt.Key())})
	st.assume(Ne(it.m, Int(0)))
	st.assume(Select(has, kv))
	st.assume(Not(Select(vis, kv)))
	if !ex.feasible(st) {
		return false
	}
	v, hs := ex.mapGet(st, st.heap, it.m, mt, kv)
	if hs != tTrue {
		st.assume(hs)
		v, _ = ex.mapGetHit(st, it.m, mt, kv)
	}
	st.heap[it.key] = Store(vis, kv, tTrue)
	st.heap[it.key+"#n"] = Add(st.heap[it.key+"#n"], Int(1))
	ex.noteWrite(st, it.key, nil)
	ex.noteWrite(st, it.key+"#n", nil)
	if has == has0 {
		st.assume(Le(st.heap[it.key+"#n"], ex.mapLenH(st.heap, it.m, mt)))
	}
	f.env[x] = &StructV{[]Value{tTrue, kv, v}}
	f.idx++
	return true
}

func (ex *Exec) mapGetHit(st *State, m *Term, mt *types.Map, k *Term) (Value, *Term) {
	vs := ex.mapVals(st.heap, m, mt)
	ls := leaves(mt.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Select(vs[i], k)
		st.leafFacts(ts[i], l)
	}
	return unflat(ts, mt.Elem()), tTrue
}

// ---- type assertions

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) bool {
	v := ex.term(st, x.X)
	ok, val := ex.assertTo(st, v, x.AssertedType)
	f := st.top()
	if x.CommaOk {
		z := zeroValue(x.AssertedType)
		f.env[x] = &StructV{[]Value{iteValue(ok, val, z, x.AssertedType), ok}}
	} else {
		if !ex.panicIf(st, Not(ok), "interface conversion") {
			return false
		}
		f.env[x] = val
	}
	f.idx++
	return true
}

func (ex *Exec) assertTo(st *State, v *Term, t types.Type) (*Term, Value) {
	if isIface(t) {
		it := t.Underlying().(*types.Interface)
		return ex.implements(v, t, it), v
	}
	ok := TagIs(typeKey(t), v)
	val := unboxAs(v, t)
	if v.op != "box" {
		fl := flat(val, t)
		for i, l := range leaves(t) {
			st.leafFacts(fl[i], l)
		}
	}
	return ok, val
}

func (ex *Exec) implements(v *Term, t types.Type, it *types.Interface) *Term {
	if it.NumMethods() == 0 {
		return Ne(v, Int(0))
	}
	if v.op == "int" && v.ival.Sign() == 0 {
		return tFalse
	}
	if v.op == "box" {
		if dt := typeByKey(v.sval); dt != nil {
			return Bool(types.Implements(dt, it))
		}
	}
	if v.op == "ite" {
		return Ite(v.args[0], ex.implements(v.args[1], t, it), ex.implements(v.args[2], t, it))
	}
	return And(Ne(v, Int(0)), UF("implements:"+typeKey(t), SBool, v))
}

func typeByKey(k string) types.Type { return keyType[k] }

// ---- natural loops

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := m[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					m[s] = set
				}
				var stack []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !set[p] {
							set[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopCache[fn] = m
	return m
}

// headerDecides: the exit test of the loop header is decided in this state
func (ex *Exec) headerDecides(st *State) bool {
	f := st.top()
	b := f.block
	last := b.Instrs[len(b.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	li := loopsOf(f.fn)[b]
	if li[b.Succs[0]] && li[b.Succs[1]] {
		return false
	}
	for _, in := range b.Instrs[f.idx : len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.ChangeType:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	c := st.clone()
	sw, sq := ex.work, ex.quiet
	ex.work, ex.quiet = nil, true
	defer func() { ex.work, ex.quiet = sw, sq }()
	for c.top().idx < len(b.Instrs)-1 {
		if !ex.step(c) || len(ex.work) > 0 {
			return false
		}
	}
	t, ok := c.top().env[iff.Cond].(*Term)
	if !ok {
		if k, isC := iff.Cond.(*ssa.Const); isC {
			t = ex.constVal(k).(*Term)
		} else {
			return false
		}
	}
	if t != tTrue && t != tFalse {
		// a length that is known on this path
		t = Subst(t, knownLens(c))
	}
	if t != tTrue && t != tFalse {
		return false
	}
	// a flag does not count: loops that go on until one is set are cut
	cond := iff.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond = u.X
	}
	if ph, ok := cond.(*ssa.Phi); ok && ph.Block() == b {
		to := b.Succs[0]
		if t == tFalse {
			to = b.Succs[1]
		}
		return !li[to]
	}
	return true
}

func sortedStrs(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var traceExec = false

// knownLens: what the path condition says directly about lengths
func knownLens(st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range st.pc {
		ps := []*Term{p}
		if p.op == "and" {
			ps = p.args
		}
		for _, q := range ps {
			if q.op != "=" || len(q.args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				a, k := q.args[i], q.args[1-i]
				if k.op == "int" && a.op != "int" && a.sort == SInt && k.ival.IsInt64() && k.ival.Int64() >= 0 && k.ival.Int64() <= 64 {
					m[a] = k
				}
			}
		}
	}
	return m
}
