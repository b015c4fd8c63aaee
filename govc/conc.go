package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- declarations of shared types

type TypeDecl struct {
	name    string
	typ     types.Type // named struct type
	locks   []*LockDecl
	atomics map[string]bool
	conds   map[string]string // cond field -> lock field
	ghosts  map[string]types.Type
	assumes []*Clause // facts about immutable fields, assumed of shared objects, proved by constructors
	immut   map[string]bool
	chans   map[string]bool
	ainvs   []*Clause // invariants of atomically accessed state
	clock   bool
	once    map[string]bool // set once, under the lock
	line    string
}

type LockDecl struct {
	td     *TypeDecl
	field  string
	guards []string // field paths
	invs   []*Clause
	closed bool // guards closedness of channels
}

// fieldPath decodes an address into (root object, root type, dotted path) candidates, outermost first
type pathRoot struct {
	obj  *Term
	typ  string
	path string
}

func addrRoots(a *Term) []pathRoot {
	var out []pathRoot
	path := ""
	for a.op == "fa" {
		i := strings.LastIndex(a.sval, ".")
		T, f := a.sval[:i], a.sval[i+1:]
		if path == "" {
			path = f
		} else {
			path = f + "." + path
		}
		out = append(out, pathRoot{a.args[0], T, path})
		a = a.args[0]
	}
	return out
}

// ownerOf: content references read from guarded or immutable fields: symbol -> address of the field
var ownerOf = map[*Term]*Term{}

// fieldOf: the field address a loaded reference came from, if it shows in the term
func fieldOf(r *Term) *Term {
	if o, ok := ownerOf[r]; ok {
		return o
	}
	if r.op != "select" {
		return nil
	}
	a := r.args[0]
	for a.op == "store" {
		a = a.args[0]
	}
	if a.op == "var" && strings.HasPrefix(a.sval, "H0:") {
		key := a.sval[3:]
		if strings.ContainsAny(key, "$!#") {
			return nil
		}
		return FA(key, r.args[1])
	}
	return nil
}

func isFreshObj(o *Term) bool {
	for o.op == "fa" {
		o = o.args[0]
	}
	_, _, ok := allocPos(o)
	return ok
}

// ---- guards

func (td *TypeDecl) lockFor(path string) []*LockDecl {
	var out []*LockDecl
	for _, l := range td.locks {
		for _, g := range l.guards {
			if g == path || strings.HasPrefix(path, g+".") {
				out = append(out, l)
			}
		}
	}
	return out
}

func (ex *Exec) heldLock(st *State, l *LockDecl, obj *Term) *Held {
	for _, h := range st.locks {
		if h.decl == l && h.obj == obj {
			return h
		}
	}
	return nil
}

func (ex *Exec) guardAccess(st *State, a *Term, write bool) {
	if a.op != "fa" {
		return
	}
	for _, r := range addrRoots(a) {
		td := ex.D.typeDecl(r.typ)
		if td == nil || isFreshObj(r.obj) {
			continue
		}
		ex.checkGuard(st, td, r, write)
	}
}

func (ex *Exec) guardContent(st *State, ref *Term, write bool, kind string) {
	fa := fieldOf(ref)
	if fa == nil {
		return
	}
	for _, r := range addrRoots(fa) {
		td := ex.D.typeDecl(r.typ)
		if td == nil || isFreshObj(r.obj) {
			continue
		}
		ls := td.lockFor(r.path)
		if len(ls) == 0 && len(td.locks) == 1 {
			ls = td.locks
		}
		if len(ls) > 0 {
			ex.checkHeld(st, td, ls, r, write, "contents of ")
		}
	}
}

func (ex *Exec) checkGuard(st *State, td *TypeDecl, r pathRoot, write bool) {
	if td.atomics[r.path] {
		ex.oblige(st, "atomic-access", "data-race", tFalse, ex.here(st)+" plain access to atomic field "+td.name+"."+r.path)
		return
	}
	ls := td.lockFor(r.path)
	if td.once[r.path] {
		// set once, under the lock; read freely by those who know it is set
		if a, t, ok := fieldAt(td.typ, r.obj, r.path); ok {
			old, _ := ex.loadH(st.heap, a, t).(*Term)
			if old != nil {
				if write {
					ex.oblige(st, "set-once", "data-race", Eq(old, Int(0)), ex.here(st)+" write to "+td.name+"."+r.path)
				} else if len(ls) > 0 && ex.heldLock(st, ls[0], r.obj) == nil {
					ex.oblige(st, "guarded", "data-race", Ne(old, Int(0)), ex.here(st)+" read of "+td.name+"."+r.path+" outside the lock before it is known to be set")
					return
				}
			}
		}
	}
	if len(ls) == 0 {
		// undeclared: immutable after construction, or guarded by the type's only lock
		if strings.Contains(r.path, ".") && ex.immutablePath(td, r.path) || ex.immutablePath(td, r.path) {
			if write {
				ex.oblige(st, "immutable-field", "data-race", tFalse, ex.here(st)+" write to "+td.name+"."+r.path)
			}
			return
		}
		if len(td.locks) == 0 {
			ex.oblige(st, "unguarded", "data-race", tFalse, ex.here(st)+" unsynchronised mutable field "+td.name+"."+r.path)
			return
		}
		ls = td.locks[:1]
	}
	ex.checkHeld(st, td, ls, r, write, "")
}

func (ex *Exec) checkHeld(st *State, td *TypeDecl, ls []*LockDecl, r pathRoot, write bool, what string) {
	ok := write
	for _, l := range ls {
		h := ex.heldLock(st, l, r.obj)
		if write {
			if h == nil || h.rd {
				ok = false
			}
		} else if h != nil {
			ok = true
		}
	}
	mode := "read of "
	if write {
		mode = "write to "
	}
	ex.oblige(st, "guarded", "data-race", Bool(ok), ex.here(st)+" "+mode+what+td.name+"."+r.path)
}

// immutablePath: no store to this field of the type anywhere in the repository, except to objects under construction
func (ex *Exec) immutablePath(td *TypeDecl, path string) bool {
	if v, ok := td.immut[path]; ok {
		return v
	}
	last := path
	// resolve the type that declares the last component
	t := td.typ
	parts := strings.Split(path, ".")
	for i, p := range parts {
		s, ok := structOf(t)
		if !ok {
			break
		}
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == p {
				if i == len(parts)-1 {
					last = typeKey(t) + "." + p
				}
				t = s.Field(k).Type()
				break
			}
		}
	}
	ok := !ex.P.mutableFields()[last]
	td.immut[path] = ok
	return ok
}

var mutCache map[string]bool

func (P *Program) mutableFields() map[string]bool {
	if mutCache != nil {
		return mutCache
	}
	mutCache = map[string]bool{}
	for fn := range allFuncs(P) {
		if !P.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				if s, ok := in.(*ssa.Store); ok {
					addr = s.Addr
				}
				if addr == nil {
					// address escaping to atomic ops counts as mutable
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, a := range c.Common().Args {
							if fa, ok := a.(*ssa.FieldAddr); ok {
								if _, isB := deref(fa.Type()).Underlying().(*types.Basic); isB {
									markMut(fa)
								}
							}
						}
					}
					continue
				}
				fresh := false
				x := addr
				var keys []string
				for {
					fa, ok := x.(*ssa.FieldAddr)
					if !ok {
						break
					}
					T := deref(fa.X.Type())
					keys = append(keys, typeKey(T)+"."+T.Underlying().(*types.Struct).Field(fa.Field).Name())
					x = fa.X
				}
				if al, ok := x.(*ssa.Alloc); ok && al != nil {
					fresh = true
				}
				if !fresh {
					for _, k := range keys {
						mutCache[k] = true
					}
				}
			}
		}
	}
	return mutCache
}

func markMut(fa *ssa.FieldAddr) {
	T := deref(fa.X.Type())
	mutCache[typeKey(T)+"."+T.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
}

// ---- locks

func (ex *Exec) resolveLock(st *State, addr *Term) (*LockDecl, *Term) {
	fa := addr
	if fa.op != "fa" {
		fa = fieldOf(addr)
	}
	if fa == nil {
		return nil, nil
	}
	for _, r := range addrRoots(fa) {
		td := ex.D.typeDecl(r.typ)
		if td == nil {
			continue
		}
		for _, l := range td.locks {
			if l.field == r.path {
				return l, r.obj
			}
		}
		if cl, ok := td.conds[r.path]; ok {
			for _, l := range td.locks {
				if l.field == cl {
					return l, r.obj
				}
			}
		}
		// renamed lock: the only lock-typed field of a type with one lock
		if len(td.locks) == 1 && isLockField(td.typ, r.path) && !hasField(td.typ, td.locks[0].field) {
			return td.locks[0], r.obj
		}
	}
	return nil, nil
}

func hasField(t types.Type, f string) bool {
	s, ok := structOf(t)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return true
		}
	}
	return false
}

func isLockField(t types.Type, f string) bool {
	s, ok := structOf(t)
	if !ok {
		return false
	}
	n := 0
	hit := false
	for i := 0; i < s.NumFields(); i++ {
		k := typeKey(deref(s.Field(i).Type()))
		if k == "sync.Mutex" || k == "sync.RWMutex" {
			n++
			if s.Field(i).Name() == f {
				hit = true
			}
		}
	}
	return hit && n == 1
}

func (ex *Exec) acquire(st *State, addr *Term, rd bool) bool {
	if !ex.nilCheck(st, addr) {
		return false
	}
	d, obj := ex.resolveLock(st, addr)
	for _, h := range st.locks {
		if h.lock == addr || d != nil && h.decl == d && h.obj == obj {
			ex.oblige(st, "self-deadlock", "deadlock", tFalse, ex.here(st)+" lock acquired while already held")
			return false
		}
	}
	h := &Held{lock: addr, decl: d, obj: obj, rd: rd}
	if d != nil && !isFreshObj(obj) {
		h.objT = d.td.typ
		ex.havocGuarded(st, d, obj)
		st.locks = append(st.locks, h)
		for _, iv := range d.invs {
			t, err := ex.evalInv(st, d.td, iv, obj)
			if err != nil {
				ex.abort("invariant %s of %s: %v", iv.label, d.td.name, err)
				return false
			}
			st.assume(t)
		}
		ex.assumeImmut(st, d.td, obj)
	} else {
		st.locks = append(st.locks, h)
	}
	for _, f := range st.frames {
		for _, c := range f.loops {
			for _, l := range c.held {
				if l == addr && !c.mod.relock[l] {
					c.mod.relock[l] = true
					c.mod.grew = true
				}
			}
		}
	}
	h.pre = copyHeap(st.heap)
	for k, v := range st.ghosts {
		h.preGhost(k, v)
	}
	return ex.event(st, &Event{kind: "acquired", name: lockName(d), lockObj: obj, decl: d})
}

func (h *Held) preGhost(k string, v Value) {}

func lockName(d *LockDecl) string {
	if d == nil {
		return "?"
	}
	return d.td.name + "." + d.field
}

func (ex *Exec) assumeImmut(st *State, td *TypeDecl, obj *Term) {
	for _, iv := range td.assumes {
		t, err := ex.evalInv(st, td, iv, obj)
		if err != nil {
			ex.abort("assumption on %s: %v", td.name, err)
			return
		}
		st.assume(t)
	}
}

// havocGuarded: other threads may have changed everything the lock guards
func (ex *Exec) havocGuarded(st *State, d *LockDecl, obj *Term) {
	if ex.U.spec != nil && ex.U.spec.opts["quiet"] != "" {
		return // the unit describes an object no other thread changes meanwhile
	}
	for _, g := range d.guards {
		// still protected by another held lock
		skip := false
		for _, l := range d.td.lockFor(g) {
			if l != d && ex.heldLock(st, l, obj) != nil {
				skip = true
			}
		}
		if skip {
			continue
		}
		ex.havocPath(st, d.td, obj, g)
	}
	if len(d.td.locks) == 1 {
		// undeclared mutable fields belong to the only lock
		if s, ok := structOf(d.td.typ); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Name()
				if f == d.field || d.td.atomics[f] || len(d.td.lockFor(f)) > 0 || isUnit(s.Field(i).Type()) {
					continue
				}
				cover := false
				for _, g := range d.guards {
					if strings.HasPrefix(g, f+".") {
						cover = true
					}
				}
				if _, isS := structOf(s.Field(i).Type()); isS || cover {
					continue
				}
				if !ex.immutablePath(d.td, f) {
					ex.havocPath(st, d.td, obj, f)
				} else if isContainer(s.Field(i).Type()) {
					ex.havocContents(st, FA(typeKey(d.td.typ)+"."+f, obj), s.Field(i).Type())
				}
			}
		}
	}
	if d.closed {
		old := heapIn(ex, st.heap, "#?chan.closed", SArr(SInt, SBool))
		nw := st.fresh("closed", SArr(SInt, SBool))
		c := BVar("c", SInt)
		st.assume(Forall([]*Term{c}, Imp(Select(old, c), Select(nw, c))))
		for _, u := range ex.unescaped(st) {
			st.assume(Eq(Select(nw, u), Select(old, u)))
		}
		st.heap["#?chan.closed"] = nw
		ex.noteWrite(st, "#?chan.closed", nil)
	}
	for g, t := range d.td.ghosts {
		_ = t
		ex.havocGhostField(st, d.td, obj, g)
	}
}

func isContainer(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return !isByteSlice(t)
	}
	return typeKey(deref(t)) == "container/list.List"
}

func (ex *Exec) havocGhostField(st *State, td *TypeDecl, obj *Term, g string) {
	t := td.ghosts[g]
	key := "#?" + td.name + "." + g
	s, _ := scalarSort(t)
	v := st.fresh("g_"+g, s)
	ex.writeLoc(st, key, []*Term{obj}, v)
}

// fieldAt: address and type of a dotted field path
func fieldAt(t types.Type, obj *Term, path string) (*Term, types.Type, bool) {
	a := obj
	for _, p := range strings.Split(path, ".") {
		s, ok := structOf(t)
		if !ok {
			return nil, nil, false
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == p {
				a = FA(typeKey(t)+"."+p, a)
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil, nil, false
		}
	}
	return a, t, true
}

func (ex *Exec) havocPath(st *State, td *TypeDecl, obj *Term, path string) {
	a, t, ok := fieldAt(td.typ, obj, path)
	if !ok {
		ex.abort("no field %s in %s", path, td.name)
		return
	}
	if !ex.immutablePath(td, path) {
		v := st.freshValue("sh_"+path, t)
		st.sliceFacts(v)
		if td.once[path] {
			if old, ok := ex.loadH(st.heap, a, t).(*Term); ok {
				if ex.must(st, Ne(old, Int(0))) {
					return
				}
				v = Ite(Eq(old, Int(0)), v.(*Term), old)
			}
		}
		ex.store(st, a, t, v)
		for _, x := range flat(v, t) {
			if x.sort == SInt {
				ownerOf[x] = a
			}
			if _, ok := born[x]; ok {
				for _, u := range ex.unescaped(st) {
					st.assume(Ne(x, u))
				}
			}
		}
	}
	if isContainer(t) {
		ex.havocContents(st, a, t)
	}
}

func (ex *Exec) havocContents(st *State, fieldAddr *Term, t types.Type) {
	v := ex.loadH(st.heap, fieldAddr, t)
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := v.(*Term)
		ks, ok := mapKeySort(u)
		if !ok {
			return
		}
		mkk := mapKey(u)
		ex.writeRow(st, mkk+"#has", m, st.fresh("has", SArr(ks, SBool)))
		for _, l := range leaves(u.Elem()) {
			r := st.fresh("vals", SArr(ks, l.sort))
			if l.ref {
				born[r] = st.herePos()
				st.notMine(r, ks, ex.unescaped(st))
			}
			ex.writeRow(st, mkk+"#v"+l.path, m, r)
		}
		n := st.fresh("maplen", SInt)
		st.assume(Le(Int(0), n))
		ex.writeRow(st, mkk+"#len", m, n)
	case *types.Slice:
		s := v.(*SliceV)
		for _, l := range leaves(u.Elem()) {
			r := st.fresh("elems", SArr(SInt, l.sort))
			if l.ref {
				born[r] = st.herePos()
				st.notMine(r, SInt, ex.unescaped(st))
			}
			ex.writeRow(st, "E$"+typeKey(u.Elem())+l.path, s.ref, r)
		}
	case *types.Pointer:
		if typeKey(u.Elem()) == "container/list.List" {
			ex.havocList(st, v.(*Term))
		}
	}
}

func (ex *Exec) release(st *State, addr *Term, rd bool) bool {
	d, obj := ex.resolveLock(st, addr)
	idx := -1
	for i, h := range st.locks {
		if (h.lock == addr || d != nil && h.decl == d && h.obj == obj) && h.rd == rd {
			idx = i
		}
	}
	if idx < 0 {
		ex.oblige(st, "unlock-held", "deadlock", tFalse, ex.here(st)+" unlock of a lock that is not held")
		return false
	}
	if !rd {
		ex.leakVisible(st)
	}
	h := st.locks[idx]
	if h.decl != nil && h.objT != nil {
		if !ex.event(st, &Event{kind: "section", name: lockName(h.decl), lockObj: h.obj, decl: h.decl, pre: h.pre, post: st.heap, rd: rd}) {
			return false
		}
		if !rd {
			for _, iv := range h.decl.invs {
				t, err := ex.evalInv(st, h.decl.td, iv, h.obj)
				if err != nil {
					ex.abort("invariant %s of %s: %v", iv.label, h.decl.td.name, err)
					return false
				}
				if ex.U.skipInv[iv.label] {
					continue
				}
				ex.oblige(st, "inv:"+iv.label, "invariant", t, ex.here(st)+" release of "+lockName(h.decl))
			}
		}
	}
	st.locks = append(append([]*Held{}, st.locks[:idx]...), st.locks[idx+1:]...)
	return true
}

// condWait releases and re-acquires the lock of a condition variable
func (ex *Exec) condWait(st *State, addr *Term) bool {
	l := ex.condLock(st, addr)
	d, obj := ex.resolveLock(st, addr)
	var h *Held
	for _, x := range st.locks {
		if d != nil && x.decl == d && x.obj == obj || l != nil && x.lock == l {
			h = x
		}
	}
	if h == nil {
		ex.oblige(st, "wait-holds-lock", "deadlock", tFalse, ex.here(st)+" Wait without holding the lock")
		return false
	}
	if !ex.event(st, &Event{kind: "wait", name: lockName(h.decl), lockObj: h.obj, decl: h.decl, pre: h.pre, post: st.heap}) {
		return false
	}
	lk := h.lock
	if !ex.release(st, lk, false) {
		return false
	}
	return ex.acquire(st, lk, false)
}

func (ex *Exec) condLock(st *State, addr *Term) *Term {
	v := Select(heapIn(ex, st.heap, "sync.Cond.L", SArr(SInt, SInt)), addr)
	if v.op == "box" {
		return v.args[0]
	}
	return nil
}

// ---- atomics

// atomicCell prepares an atomic operation on addr: interference by other threads happens first
func (ex *Exec) interfere(st *State, addr *Term) *TypeDecl {
	if addr.op != "fa" {
		return nil
	}
	for _, r := range addrRoots(addr) {
		td := ex.D.typeDecl(r.typ)
		if td == nil || isFreshObj(r.obj) || !td.atomics[r.path] {
			continue
		}
		old := copyHeap(st.heap)
		for _, g := range sortedStrs(td.atomics) {
			ex.havocPath(st, td, r.obj, g)
		}
		for _, g := range sortedTypes(td.ghosts) {
			ex.havocGhostField(st, td, r.obj, g)
		}
		if td.clock {
			c := st.fresh("clk", SInt)
			st.assume(Le(ex.ghostGlobal(st, "clk"), c))
			st.heap["#?G.clk"] = c
			ex.noteWrite(st, "#?G.clk", nil)
		}
		for _, iv := range td.ainvs {
			t, err := ex.evalRel(st, td, iv, r.obj, old)
			if err != nil {
				ex.abort("invariant %s of %s: %v", iv.label, td.name, err)
				return td
			}
			st.assume(t)
		}
		ex.assumeImmut(st, td, r.obj)
		return td
	}
	return nil
}

func sortedTypes(m map[string]types.Type) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedStrs(x)
}

func (ex *Exec) ghostGlobal(st *State, name string) *Term {
	return heapIn(ex, st.heap, "#?G."+name, SInt)
}

// atomicDone runs the rules of an atomic step and checks the invariants of the type
func (ex *Exec) atomicDone(st *State, td *TypeDecl, addr *Term, op string, pre map[string]*Term) bool {
	if td == nil {
		return true
	}
	r := addrRoots(addr)
	root := r[len(r)-1]
	for _, x := range r {
		if ex.D.typeDecl(x.typ) == td {
			root = x
		}
	}
	if !ex.event(st, &Event{kind: "atomic", name: td.name + "." + root.path, lockObj: root.obj, td: td, pre: pre, post: st.heap, op: op}) {
		return false
	}
	for _, iv := range td.ainvs {
		t, err := ex.evalRel(st, td, iv, root.obj, pre)
		if err != nil {
			ex.abort("invariant %s of %s: %v", iv.label, td.name, err)
			return false
		}
		ex.oblige(st, "inv:"+iv.label, "invariant", t, ex.here(st)+" atomic "+op+" "+root.path)
	}
	return true
}

// ---- channels

func (ex *Exec) newChan(st *State, n *Term) *Term {
	r := st.newRef()
	ex.writeLoc(st, "chan.cap", []*Term{r}, n)
	ex.writeLoc(st, "#?chan.closed", []*Term{r}, tFalse)
	ex.writeLoc(st, "#?chan.len", []*Term{r}, Int(0))
	return r
}

func (ex *Exec) chanCap(h map[string]*Term, c *Term) *Term {
	return readLoc(ex, h, "chan.cap", []*Term{c}, SInt)
}

func (ex *Exec) chanClosed(h map[string]*Term, c *Term) *Term {
	return readLoc(ex, h, "#?chan.closed", []*Term{c}, SBool)
}

func (ex *Exec) chanLen(h map[string]*Term, c *Term) *Term {
	return readLoc(ex, h, "#?chan.len", []*Term{c}, SInt)
}

// chanLenNow: other threads may have used the channel meanwhile
func (ex *Exec) chanLenNow(st *State, c *Term) *Term {
	if isFreshObj(c) && !ex.U.shareFresh {
		return ex.chanLen(st.heap, c)
	}
	n := st.fresh("chlen", SInt)
	cp := ex.chanCap(st.heap, c)
	st.assume(And(Le(Int(0), n), Le(n, cp), Le(Int(0), cp)))
	ex.writeLoc(st, "#?chan.len", []*Term{c}, n)
	return n
}

func (ex *Exec) closeB(st *State, c *Term) bool {
	if !ex.panicIf(st, Eq(c, Int(0)), "close of nil channel") {
		return false
	}
	pre := copyHeap(st.heap)
	cl := ex.chanClosed(st.heap, c)
	ev := &Event{kind: "close", args: []DV{{c, nil}}, pre: pre}
	if !ex.event(st, ev) {
		return false
	}
	if !ex.panicIf(st, cl, "close of closed channel") {
		return false
	}
	ex.writeLoc(st, "#?chan.closed", []*Term{c}, tTrue)
	return true
}

// doSend performs the send in a state where it is enabled
func (ex *Exec) doSend(st *State, c *Term, v Value, t types.Type, n *Term, blocking bool) bool {
	if ex.D.neverClosed(ex, st, c) {
		st.assume(Not(ex.chanClosed(st.heap, c)))
	}
	if !ex.panicIf(st, ex.chanClosed(st.heap, c), "send on closed channel") {
		return false
	}
	st.leak(v)
	pre := copyHeap(st.heap)
	cp := ex.chanCap(st.heap, c)
	st.assume(Or(Eq(cp, Int(0)), Lt(n, cp)))
	ex.writeLoc(st, "#?chan.len", []*Term{c}, Ite(Eq(cp, Int(0)), Int(0), Add(n, Int(1))))
	return ex.event(st, &Event{kind: "send", args: []DV{{c, nil}, {v, t}, {Bool(blocking), nil}}, pre: pre, post: st.heap})
}

func (ex *Exec) sendStmt(st *State, x *ssa.Send) bool {
	c := ex.term(st, x.Chan)
	v := ex.val(st, x.X)
	if c.op == "int" && c.ival.Sign() == 0 {
		return false // blocks forever
	}
	if !isAddr(c) && !isFreshObj(c) {
		st.assume(Ne(c, Int(0)))
	}
	if !ex.event(st, &Event{kind: "block", args: []DV{{c, nil}}}) {
		return false
	}
	n := ex.chanLenNow(st, c)
	st.top().idx++
	return ex.doSend(st, c, v, x.Chan.Type().Underlying().(*types.Chan).Elem(), n, true)
}

// doRecv: receive of a value (closed=false) or of the closing; returns (value, ok)
func (ex *Exec) recvStates(st *State, c *Term, et types.Type, n *Term, blocking bool) []struct {
	st *State
	v  Value
	ok *Term
} {
	type out = struct {
		st *State
		v  Value
		ok *Term
	}
	var res []out
	closed := ex.chanClosed(st.heap, c)
	fresh := isFreshObj(c) && !ex.U.shareFresh
	// a value
	if !fresh || n != Int(0) {
		a := st.clone()
		if fresh {
			a.assume(Lt(Int(0), n))
		} else {
			cp := ex.chanCap(a.heap, c)
			a.assume(Or(Eq(cp, Int(0)), Lt(Int(0), n)))
			a.assume(Imp(closed, Lt(Int(0), n)))
		}
		if ex.feasible(a) {
			pre := copyHeap(a.heap)
			v := a.freshValue("recv", et)
			a.sliceFacts(v)
			ex.writeLoc(a, "#?chan.len", []*Term{c}, Ite(Eq(n, Int(0)), Int(0), Sub(n, Int(1))))
			if ex.event(a, &Event{kind: "recv", args: []DV{{c, nil}, {v, et}, {tTrue, nil}, {Bool(blocking), nil}}, pre: pre, post: a.heap}) {
				res = append(res, out{a, v, tTrue})
			}
		}
	}
	// closed and empty
	b := st
	if fresh {
		b.assume(closed)
		b.assume(Eq(n, Int(0)))
	} else {
		// another thread may close it at any time
		b.assume(Eq(n, Int(0)))
		if !ex.D.neverClosed(ex, b, c) {
			if ex.closeGuarded(b, c) {
				// only this thread, holding the lock, could have closed it
				b.assume(closed)
			} else if closed != tTrue {
				ex.writeLoc(b, "#?chan.closed", []*Term{c}, tTrue)
			}
		} else {
			b.assume(closed)
		}
	}
	if ex.feasible(b) {
		z := zeroValue(et)
		pre := copyHeap(b.heap)
		if ex.event(b, &Event{kind: "recv", args: []DV{{c, nil}, {z, et}, {tFalse, nil}, {Bool(blocking), nil}}, pre: pre, post: b.heap}) {
			res = append(res, out{b, z, tFalse})
		}
	}
	return res
}

// closeGuarded: c belongs to an object whose lock, held here, guards the closing of its channels
func (ex *Exec) closeGuarded(st *State, c *Term) bool {
	for _, h := range st.locks {
		if h.decl != nil && h.decl.closed && !h.rd && h.obj != nil && occursIn(c, h.obj) {
			return true
		}
	}
	return false
}

func occursIn(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if occursIn(a, v) {
			return true
		}
	}
	return false
}

func (ex *Exec) recvStmt(st *State, x *ssa.UnOp) bool {
	c := ex.term(st, x.X)
	if c.op == "int" && c.ival.Sign() == 0 {
		return false
	}
	if st.top().selOnly == 0 {
		if !ex.event(st, &Event{kind: "block", args: []DV{{c, nil}}}) {
			return false
		}
	}
	st.top().selOnly = 0
	if isFreshObj(c) && len(st.pend) > 0 {
		// a local channel: wait for the goroutine that serves it
		st.top().selOnly = 1
		return ex.runPending(st)
	}
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	if !isFreshObj(c) {
		st.assume(Ne(c, Int(0)))
	}
	n := ex.chanLenNow(st, c)
	st.top().idx++
	for _, o := range ex.recvStates(st, c, et, n, true) {
		if x.CommaOk {
			o.st.top().env[x] = &StructV{[]Value{o.v, o.ok}}
		} else {
			o.st.top().env[x] = o.v
		}
		ex.push(o.st)
	}
	return false
}

func (ex *Exec) selectStmt(st *State, x *ssa.Select) bool {
	f := st.top()
	only := st.top().selOnly
	st.top().selOnly = 0
	nrecv := 0
	recvIdx := make([]int, len(x.States))
	for i, s := range x.States {
		recvIdx[i] = -1
		if s.Dir == types.RecvOnly {
			recvIdx[i] = nrecv
			nrecv++
		}
	}
	mkRes := func(idx int, ok *Term, recvs map[int]Value) Value {
		sv := &StructV{[]Value{Int(int64(idx)), ok}}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if v, hit := recvs[i]; hit {
					sv.f = append(sv.f, v)
				} else {
					sv.f = append(sv.f, zeroValue(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return sv
	}
	// current buffer states
	chans := make([]*Term, len(x.States))
	lens := make([]*Term, len(x.States))
	for i, s := range x.States {
		chans[i] = ex.term(st, s.Chan)
		if c := chans[i]; !(c.op == "int" && c.ival.Sign() == 0) {
			if !isFreshObj(c) {
				st.assume(Ne(c, Int(0)))
			}
			dup := false
			for j := 0; j < i; j++ {
				if chans[j] == c {
					lens[i] = lens[j]
					dup = true
				}
			}
			if !dup {
				lens[i] = ex.chanLenNow(st, c)
			}
		}
	}
	if x.Blocking && only == 0 {
		var cs []DV
		for _, c := range chans {
			cs = append(cs, DV{c, nil})
		}
		if !ex.event(st, &Event{kind: "block", args: cs}) {
			return false
		}
	}
	base := st
	_ = f
	for i, s := range x.States {
		if only != 0 && only != i+1 {
			continue
		}
		c := chans[i]
		if c.op == "int" && c.ival.Sign() == 0 {
			continue
		}
		o := base.clone()
		if s.Dir == types.RecvOnly {
			if isFreshObj(c) && len(o.pend) > 0 {
				if x.Blocking {
					o.top().selOnly = i + 1
					if ex.runPending(o) {
						ex.push(o)
					}
					continue
				}
			}
			o.top().idx++
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			for _, r := range ex.recvStates(o, c, et, lens[i], x.Blocking) {
				r.st.top().env[x] = mkRes(i, r.ok, map[int]Value{i: r.v})
				ex.push(r.st)
			}
		} else {
			cp := ex.chanCap(o.heap, c)
			o.assume(Or(Eq(cp, Int(0)), Lt(lens[i], cp)))
			if !ex.feasible(o) {
				continue
			}
			v := ex.val(o, s.Send)
			o.top().idx++
			if ex.doSend(o, c, v, s.Chan.Type().Underlying().(*types.Chan).Elem(), lens[i], x.Blocking) {
				o.top().env[x] = mkRes(i, tFalse, nil)
				ex.push(o)
			}
		}
	}
	if !x.Blocking {
		// default: no case is ready
		o := base.clone()
		for i, s := range x.States {
			c := chans[i]
			if c.op == "int" && c.ival.Sign() == 0 {
				continue
			}
			cp := ex.chanCap(o.heap, c)
			if s.Dir == types.RecvOnly {
				o.assume(Eq(lens[i], Int(0)))
				o.assume(Not(ex.chanClosed(o.heap, c)))
			} else {
				o.assume(Or(Eq(cp, Int(0)), Le(cp, lens[i])))
				if ex.D.neverClosed(ex, o, c) {
					o.assume(Not(ex.chanClosed(o.heap, c)))
				}
				if !ex.panicIf(o, ex.chanClosed(o.heap, c), "send on closed channel") {
					return false
				}
			}
		}
		if ex.feasible(o) {
			o.top().env[x] = mkRes(-1, tFalse, nil)
			var cs []DV
			for _, c := range chans {
				cs = append(cs, DV{c, nil})
			}
			if ex.event(o, &Event{kind: "default", args: cs, pre: copyHeap(o.heap), post: o.heap}) {
				o.top().idx++
				ex.push(o)
			}
		}
	}
	return false
}

var _ = fmt.Sprint
var _ = token.NoPos
