package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]Value
	defers []*deferred
	// where the result goes in the caller
	ret     ssa.Value
	onRet   func(ex *Exec, st *State, res Value) // instead of ret
	onPanic func(ex *Exec, st *State)            // intercepts a panic leaving this frame (after defers)
	loops   map[*ssa.BasicBlock]*loopCtx
	unroll  map[*ssa.BasicBlock]int
	isDefer bool // deferred call running during panic unwinding
	unwinding bool
	selOnly   int // forced case of the next select or receive (index+1)
	leave     func(ex *Exec, st *State, res Value) bool
	gor       *Gor // goroutine executed inline
}

type deferred struct {
	call *ssa.CallCommon
	fnv  Value
	args []Value
	pos  ssa.Instruction
}

type loopCtx struct {
	header   *ssa.BasicBlock
	set      map[*ssa.BasicBlock]bool
	mod      *modSet
	startSeq int
	start    pos
	nlocks   int
	npend    int
	held     []*Term
}

// Held: a lock held by the executing thread
type Held struct {
	lock *Term
	decl *LockDecl
	obj  *Term
	objT types.Type
	rd   bool
	pre  map[string]*Term // heap at acquisition
}

// Gor: a spawned goroutine not executed yet
type Gor struct {
	fnv  Value
	call *ssa.CallCommon
	args []Value
	name string
}

type State struct {
	frames  []*Frame
	heap    map[string]*Term
	pc      []*Term
	ghosts  map[string]Value
	locks   []*Held
	pend    []*Gor
	mark    *Term
	nalloc  int
	nfresh  int
	panicking bool
	panicVal  *Term
	panicWhy  string
	exited  bool   // os.Exit / Fatal
	exitWhy string
	impre   []string // sources of imprecision on this path
	trail   []string
	cut     bool // path was cut by a bound
	result  Value
	rootDone bool
	stage    int // further calls made after the function returned
	stageSig *types.Signature
	named    map[string]DV // results and parameters of the stages so far
	goDepth int // nesting of explored goroutines
	leaked  map[int64]bool // allocations other threads may reach (beyond what the heap shows)
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred{}, f.defers...)
		g.loops = map[*ssa.BasicBlock]*loopCtx{}
		for k, v := range f.loops {
			g.loops[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames[i] = &g
	}
	n.heap = copyHeap(s.heap)
	n.pc = append([]*Term{}, s.pc...)
	n.ghosts = map[string]Value{}
	for k, v := range s.ghosts {
		n.ghosts[k] = v
	}
	n.locks = append([]*Held{}, s.locks...)
	n.pend = append([]*Gor{}, s.pend...)
	n.impre = append([]string{}, s.impre...)
	n.trail = append([]string{}, s.trail...)
	return &n
}

func copyHeap(h map[string]*Term) map[string]*Term {
	m := make(map[string]*Term, len(h)+4)
	for k, v := range h {
		m[k] = v
	}
	return m
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc, t)
}

func (s *State) imprecise(why string) {
	for _, x := range s.impre {
		if x == why {
			return
		}
	}
	s.impre = append(s.impre, why)
}

// ---- birth positions of symbols, allocation marks

type pos struct {
	mark *Term // nil: const 0
	n    int
}

type markInfo struct {
	parent pos
}

var marks = map[*Term]markInfo{} // mark variables
var born = map[*Term]pos{}       // symbols: allocated refs they can denote are no younger than this

// later reports whether an allocation (m,k) (the k-th after mark m) is younger than position p
func later(m *Term, k int, p pos) bool {
	for {
		if m == p.mark {
			return k > p.n
		}
		if m == nil {
			return false
		}
		mi, ok := marks[m]
		if !ok {
			return false
		}
		// everything allocated after m is younger than parent position
		if mi.parent.mark == p.mark && mi.parent.n >= p.n {
			return true
		}
		m, k = mi.parent.mark, mi.parent.n
		// continue comparing the parent's position itself
		if m == p.mark {
			return k >= p.n
		}
	}
}

// allocPos decodes a term denoting a fresh allocation
func allocPos(t *Term) (m *Term, k int, ok bool) {
	if t.op == "int" {
		if t.ival.Sign() < 0 && t.ival.IsInt64() {
			return nil, int(-t.ival.Int64()), true
		}
		return nil, 0, false
	}
	if t.op == "+" && len(t.args) == 2 {
		var mv, c *Term
		for _, a := range t.args {
			if a.op == "int" {
				c = a
			} else if a.op == "var" {
				if _, isMark := marks[a]; isMark {
					mv = a
				}
			}
		}
		if mv != nil && c != nil && c.ival.Sign() < 0 {
			return mv, int(-c.ival.Int64()), true
		}
	}
	return nil, 0, false
}

// bornPos: youngest allocation t can denote
func bornPos(t *Term) (pos, bool) {
	switch t.op {
	case "var":
		p, ok := born[t]
		if ok {
			if k, isHeap := varKey[t]; isHeap && !keyRef[k] {
				return p, false
			}
		}
		return p, ok
	case "select":
		p, ok := bornPos(t.args[0])
		if !ok {
			return p, false
		}
		// objects younger than the array symbol can hold younger references
		return bornOfIndex(t.args[1], p)
	case "store":
		p, ok := bornPos(t.args[0])
		if !ok {
			return p, false
		}
		for _, a := range t.args[1:] {
			if a.sort == SInt || a.op == "store" || a.op == "select" {
				if p, ok = bornOfIndex(a, p); !ok {
					return p, false
				}
			}
		}
		return p, true
	case "constarr":
		return pos{nil, 0}, true
	case "unbox":
		return bornPos(t.args[0])
	}
	return pos{}, false
}

func maxPos(a, b pos) pos {
	if a == b {
		return a
	}
	if later(a.mark, a.n, b) {
		return a
	}
	return b
}

func bornOfIndex(i *Term, p pos) (pos, bool) {
	if m, k, ok := allocPos(i); ok {
		return maxPos(p, pos{m, k}), true
	}
	switch i.op {
	case "int", "str", "true", "false", "func", "glob":
		return p, true
	case "var":
		if q, ok := born[i]; ok {
			return maxPos(p, q), true
		}
		return p, true
	case "bvar":
		return p, false
	case "uf":
		return p, false
	}
	ok := true
	for _, a := range i.args {
		if p, ok = bornOfIndex(a, p); !ok {
			return p, false
		}
	}
	return p, true
}

func distinctByBirth(a, b *Term) bool {
	m, k, ok := allocPos(a)
	if ok {
		if p, ok2 := bornPos(b); ok2 && later(m, k, p) {
			return true
		}
		if m2, k2, ok2 := allocPos(b); ok2 {
			if later(m, k, pos{m2, k2}) || later(m2, k2, pos{m, k}) {
				return true
			}
		}
	}
	m, k, ok = allocPos(b)
	if ok {
		if p, ok2 := bornPos(a); ok2 && later(m, k, p) {
			return true
		}
	}
	return false
}

// varKey: heap symbols and the heap key they stand for; keyRef: keys that hold references
var varKey = map[*Term]string{}
var keyRef = map[string]bool{}

// ---- symbols

// posID interns birth positions, so that equal names have equal births
var posIDs = map[pos]int{}

func posID(p pos) int {
	if i, ok := posIDs[p]; ok {
		return i
	}
	posIDs[p] = len(posIDs) + 1
	return posIDs[p]
}

var symSeq = map[*Term]int{}

// fresh symbol: names depend on the path only, so that re-exploring a state gives the same names
func (s *State) fresh(hint string, srt Sort) *Term {
	s.nfresh++
	v := Var(fmt.Sprintf("%s!%d@%d", hint, s.nfresh, posID(s.herePos())), srt)
	symSeq[v] = s.nfresh
	return v
}

// freshRef: a symbol that can denote existing objects
func (s *State) freshRef(hint string) *Term {
	v := s.fresh(hint, SInt)
	born[v] = s.herePos()
	return v
}

// newMark: all allocations from now on are younger than every symbol so far
func (s *State) newMark() {
	p := s.herePos()
	s.nfresh++
	v := Var(fmt.Sprintf("mark!%d@%d", s.nfresh, posID(p)), SInt)
	symSeq[v] = s.nfresh
	marks[v] = markInfo{p}
	old := Add(s.mark, Int(int64(-s.nalloc)))
	s.mark, s.nalloc = v, 0
	s.assume(Le(v, old))
}

func (s *State) herePos() pos {
	if s.mark.op == "int" {
		return pos{nil, s.nalloc}
	}
	return pos{s.mark, s.nalloc}
}

func (s *State) newRef() *Term {
	s.nalloc++
	return Add(s.mark, Int(int64(-s.nalloc)))
}

// refFact: an unknown reference is not a future allocation
func (s *State) refFact(t *Term) {
	if t.isConst() || isAddr(t) {
		return
	}
	s.assume(Lt(Add(s.mark, Int(int64(-s.nalloc-1))), t))
}

// freshValue: arbitrary value of type t, with range facts
func (s *State) freshValue(hint string, t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		v := s.fresh(hint+l.path, l.sort)
		if l.ref {
			born[v] = s.herePos()
		}
		ts[i] = v
		s.leafFacts(v, l)
	}
	return unflat(ts, t)
}

func (s *State) leafFacts(v *Term, l leaf) {
	if v.isConst() {
		return
	}
	if l.typ != nil {
		if k, ok := basicKind(l.typ); ok {
			s.assume(InRange(v, k))
			return
		}
		if typeKey(l.typ) == "time.Time" {
			s.assume(InRange(v, intKind{64, true}))
			return
		}
	}
	if l.ref {
		s.refFact(v)
	}
	if strings.HasSuffix(l.path, "!len") || strings.HasSuffix(l.path, "!off") {
		s.assume(Le(Int(0), v))
		s.assume(Le(v, BigT(intKind{48, true}.hi())))
	}
}

// sliceFacts: nil slices are empty
func (s *State) sliceFacts(v Value) {
	if sl, ok := v.(*SliceV); ok {
		s.assume(Imp(Eq(sl.ref, Int(0)), Eq(sl.n, Int(0))))
	}
}

// ---- heap

// base array variables of the initial heap, shared by all states of one run
func (ex *Exec) heapGet(st *State, key string, sort Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := ex.base(key, sort)
	return t
}

func (ex *Exec) base(key string, sort Sort) *Term {
	if t, ok := ex.baseHeap[key]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("heap key %s: sorts %s %s", key, t.sort, sort))
		}
		return t
	}
	var t *Term
	if strings.HasPrefix(key, "#") {
		t = zeroTerm(sort) // ghost heap starts at zero values
		if strings.HasPrefix(key, "#?") {
			t = Var("H0:"+key, sort)
			born[t] = pos{nil, 0}
			varKey[t] = key
		}
	} else {
		t = Var("H0:"+key, sort)
		born[t] = pos{nil, 0}
		varKey[t] = key
	}
	ex.baseHeap[key] = t
	return t
}

func heapIn(ex *Exec, h map[string]*Term, key string, sort Sort) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	return ex.base(key, sort)
}

// locate: heap key and index path of a leaf at address addr
// two-level for slice elements
func locate(addr *Term, typ types.Type, lpath string) (key string, idx []*Term) {
	path := lpath
	a := addr
	if a.op == "ia" {
		return "E$" + a.sval + path, []*Term{a.args[0], a.args[1]}
	}
	if a.op == "glob" {
		return "G$" + a.sval + path, nil
	}
	if a.op == "fa" {
		// climb: nested struct inside a slice element or a global
		b := a
		p := path
		for b.op == "fa" {
			i := strings.LastIndex(b.sval, ".")
			p = b.sval[i:] + p
			b = b.args[0]
		}
		if b.op == "ia" {
			return "E$" + b.sval + p, []*Term{b.args[0], b.args[1]}
		}
		if b.op == "glob" {
			return "G$" + b.sval + p, nil
		}
		return a.sval + path, []*Term{a.args[0]}
	}
	// plain reference: struct leaves go through their innermost struct address
	if st, ok := structOf(typ); ok && path != "" && path[0] == '.' {
		// path ".f..." : first component is a field
		rest := path[1:]
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if rest == f.Name() || strings.HasPrefix(rest, f.Name()) && len(rest) > len(f.Name()) && strings.IndexByte(".![", rest[len(f.Name())]) >= 0 {
				sub := rest[len(f.Name()):]
				if _, ok := structOf(f.Type()); ok && !isUnit(f.Type()) {
					return locate(FA(typeKey(typ)+"."+f.Name(), a), f.Type(), sub)
				}
				return typeKey(typ) + "." + f.Name() + sub, []*Term{a}
			}
		}
	}
	return "cell$" + typeKey(typ) + path, []*Term{a}
}

func arrSort(n int, s Sort) Sort {
	for i := 0; i < n; i++ {
		s = SArr(SInt, s)
	}
	return s
}

// fixAddr: locate for fa addresses of struct type must go through nested addresses
func locateLeaf(addr *Term, typ types.Type, l leaf) (string, []*Term) {
	if addr.op == "fa" {
		b := addr
		for b.op == "fa" {
			b = b.args[0]
		}
		if b.op != "ia" && b.op != "glob" {
			if _, ok := structOf(typ); ok && l.path != "" && l.path[0] == '.' {
				return locateStruct(addr, typ, l.path)
			}
		}
		return locate(addr, typ, l.path)
	}
	return locate(addr, typ, l.path)
}

func locateStruct(addr *Term, typ types.Type, path string) (string, []*Term) {
	st, _ := structOf(typ)
	rest := path[1:]
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if rest == f.Name() || strings.HasPrefix(rest, f.Name()) && len(rest) > len(f.Name()) && strings.IndexByte(".![", rest[len(f.Name())]) >= 0 {
			sub := rest[len(f.Name()):]
			if _, ok := structOf(f.Type()); ok && !isUnit(f.Type()) {
				return locateStruct(FA(typeKey(typ)+"."+f.Name(), addr), f.Type(), sub)
			}
			return typeKey(typ) + "." + f.Name() + sub, []*Term{addr}
		}
	}
	panic("locateStruct " + typeKey(typ) + path)
}

func readLoc(ex *Exec, h map[string]*Term, key string, idx []*Term, s Sort) *Term {
	t := heapIn(ex, h, key, arrSort(len(idx), s))
	for _, i := range idx {
		t = Select(t, i)
	}
	return t
}

func (ex *Exec) writeLoc(st *State, key string, idx []*Term, v *Term) {
	a := heapIn(ex, st.heap, key, arrSort(len(idx), v.sort))
	switch len(idx) {
	case 0:
		st.heap[key] = v
	case 1:
		st.heap[key] = Store(a, idx[0], v)
	case 2:
		st.heap[key] = Store(a, idx[0], Store(Select(a, idx[0]), idx[1], v))
	}
	ex.noteWrite(st, key, idx)
}

// load a value of type t at address addr from heap h
func (ex *Exec) loadH(h map[string]*Term, addr *Term, t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		k, idx := locateLeaf(addr, t, l)
		if l.ref {
			keyRef[k] = true
		}
		ts[i] = readLoc(ex, h, k, idx, l.sort)
	}
	return unflat(ts, t)
}

func (ex *Exec) load(st *State, addr *Term, t types.Type) Value {
	if addr.op == "bytesat" {
		b := ToCode(StrAt(addr.args[0], addr.args[1]))
		st.assume(And(Le(Int(0), b), Le(b, Int(255))))
		return b
	}
	v := ex.loadH(st.heap, addr, t)
	fl := flat(v, t)
	for i, l := range leaves(t) {
		st.leafFacts(fl[i], l)
	}
	st.sliceFacts(v)
	return v
}

func (ex *Exec) store(st *State, addr *Term, t types.Type, v Value) {
	fl := flat(v, t)
	for i, l := range leaves(t) {
		k, idx := locateLeaf(addr, t, l)
		if l.ref {
			keyRef[k] = true
		}
		ex.writeLoc(st, k, idx, fl[i])
	}
}

// alloc: new zeroed object of type t, returns its address
func (ex *Exec) alloc(st *State, t types.Type) *Term {
	r := st.newRef()
	if a, ok := t.Underlying().(*types.Array); ok {
		ek := typeKey(a.Elem())
		for _, l := range leaves(a.Elem()) {
			key := "E$" + ek + l.path
			h := heapIn(ex, st.heap, key, arrSort(2, l.sort))
			st.heap[key] = Store(h, r, ConstArr(SArr(SInt, l.sort), zeroTerm(l.sort)))
		}
		return r
	}
	ex.store(st, r, t, zeroValue(t))
	// zero ghost object fields are implicit
	return r
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
