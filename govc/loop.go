package main

import (
	"os"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops: a loop whose exit test is not decided is cut at its header. The locations its body can
// change are found by exploring the body to a fixpoint, candidate invariants that hold on entry are
// kept as long as every iteration preserves them (Houdini), and the rest of the function is
// explored from an arbitrary iteration satisfying the survivors.

type modE struct {
	all  bool
	locs map[string][]*Term
	rows map[int]*Term
	sort Sort
}

type modSet struct {
	keys   map[string]*modE
	ghosts map[string]bool
	grew   bool
	relock map[*Term]bool // locks held at the header and taken anew inside the loop
}

type probeCtx struct {
	ctx   *loopCtx
	depth int // frames below the frame of the loop
	set   map[*ssa.BasicBlock]bool
	back  []*State
	up    *probeCtx
}

type cand struct {
	name string
	f    func(st *State) *Term // nil: not evaluable
}

func rootRef(t *Term) *Term {
	for t.op == "fa" || t.op == "ia" {
		t = t.args[0]
	}
	return t
}

// loopInvariant: t only mentions symbols that existed before the loop started
func (c *loopCtx) invariant(t *Term) bool {
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.op == "var" {
			if s, is := symSeq[t]; is && s > c.startSeq {
				ok = false
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	if ok && c.young(t) {
		return false
	}
	return ok
}

func (c *loopCtx) young(t *Term) bool {
	r := rootRef(t)
	m, k, ok := allocPos(r)
	if !ok {
		return false
	}
	return later(m, k, c.start)
}

func (c *loopCtx) add(key string, idx []*Term) {
	e := c.mod.keys[key]
	if e == nil {
		if len(idx) > 0 && c.young(idx[0]) {
			return
		}
		e = &modE{locs: map[string][]*Term{}, rows: map[int]*Term{}}
		c.mod.keys[key] = e
		c.mod.grew = true
	}
	if e.all {
		return
	}
	if len(idx) == 0 {
		e.all = true
		c.mod.grew = true
		return
	}
	if c.young(idx[0]) {
		return
	}
	if !c.invariant(idx[0]) {
		e.all = true
		c.mod.grew = true
		return
	}
	if len(idx) == 2 {
		if _, ok := e.rows[idx[0].id]; ok {
			return
		}
		if !c.invariant(idx[1]) {
			e.rows[idx[0].id] = idx[0]
			c.mod.grew = true
			return
		}
	}
	k := ""
	for _, i := range idx {
		k += fmt.Sprintf("%d,", i.id)
	}
	if _, ok := e.locs[k]; !ok {
		e.locs[k] = append([]*Term{}, idx...)
		c.mod.grew = true
	}
}

func (ex *Exec) noteWrite(st *State, key string, idx []*Term) {
	for _, f := range st.frames {
		for _, c := range f.loops {
			c.add(key, idx)
		}
	}
}

func (ex *Exec) noteGhost(st *State, g string) {
	for _, f := range st.frames {
		for _, c := range f.loops {
			if !c.mod.ghosts[g] {
				c.mod.ghosts[g] = true
				c.mod.grew = true
			}
		}
	}
}

// havocLoop: arbitrary iteration
func (ex *Exec) havocLoop(st *State, ctx *loopCtx) {
	f := st.top()
	// enclosing loops see the same writes
	var keys []string
	for k := range ctx.mod.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := ctx.mod.keys[k]
		srt := ex.keySort(st, k)
		if srt == "" {
			continue
		}
		if e.all {
			v := st.fresh("L:"+k, srt)
			born[v] = st.herePos()
			varKey[v] = k
			if k == "#?chan.closed" {
				// a closed channel stays closed
				old := heapIn(ex, st.heap, k, srt)
				c := BVar("c", SInt)
				st.assume(Forall([]*Term{c}, Imp(Select(old, c), Select(v, c))))
			}
			if ex.D.onceKeys[k] {
				old := heapIn(ex, st.heap, k, srt)
				c := BVar("c", SInt)
				st.assume(Forall([]*Term{c}, Imp(Ne(Select(old, c), Int(0)), Eq(Select(v, c), Select(old, c)))))
			}
			st.heap[k] = v
			ex.noteWrite(st, k, nil)
			continue
		}
		h := heapIn(ex, st.heap, k, srt)
		var rids []int
		for id := range e.rows {
			rids = append(rids, id)
		}
		sort.Ints(rids)
		for _, id := range rids {
			r := e.rows[id]
			_, rs := splitArr(srt)
			v := st.fresh("L:"+k, rs)
			born[v] = st.herePos()
			varKey[v] = k
			h = Store(h, r, v)
			ex.noteWrite(st, k, []*Term{r, v})
		}
		st.heap[k] = h
		var ls []string
		for l := range e.locs {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			idx := e.locs[l]
			if len(idx) == 2 {
				if _, ok := e.rows[idx[0].id]; ok {
					continue
				}
			}
			s := srt
			for range idx {
				_, s = splitArr(s)
			}
			v := st.fresh("L:"+k, s)
			born[v] = st.herePos()
			varKey[v] = k
			if k == "#?chan.closed" {
				st.assume(Imp(readLoc(ex, st.heap, k, idx, s), v))
			}
			if ex.D.onceKeys[k] {
				old := readLoc(ex, st.heap, k, idx, s)
				st.assume(Imp(Ne(old, Int(0)), Eq(v, old)))
			}
			ex.writeLocQuiet(st, k, idx, v)
			ex.noteWrite(st, k, idx)
		}
	}
	for _, g := range sortedStrs(ctx.mod.ghosts) {
		t := ex.U.ghostType(g)
		if srt, ok := ghostSort(t); ok {
			st.ghosts[g] = st.fresh("g_"+g, srt)
		} else {
			v := st.freshValue("g_"+g, t)
			st.ghosts[g] = v
		}
		ex.noteGhost(st, g)
	}
	for _, in := range f.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.freshValue("phi_"+ph.Name(), ph.Type())
		st.sliceFacts(v)
		f.env[ph] = v
	}
}

func (ex *Exec) writeLocQuiet(st *State, key string, idx []*Term, v *Term) {
	a := heapIn(ex, st.heap, key, arrSort(len(idx), v.sort))
	switch len(idx) {
	case 0:
		st.heap[key] = v
	case 1:
		st.heap[key] = Store(a, idx[0], v)
	case 2:
		st.heap[key] = Store(a, idx[0], Store(Select(a, idx[0]), idx[1], v))
	}
}

func (ex *Exec) keySort(st *State, k string) Sort {
	if t, ok := st.heap[k]; ok {
		return t.sort
	}
	if t, ok := ex.baseHeap[k]; ok {
		return t.sort
	}
	return ""
}

// cutLoop: st stands at the loop header (phis evaluated). Replaces st by the arbitrary iteration.
func (ex *Exec) cutLoop(st *State) bool {
	if os.Getenv("GOVC_TIME") != "" {
		t0 := time.Now()
		defer func() { fmt.Fprintf(os.Stderr, "TIMELOOP %.2f %s\n", time.Since(t0).Seconds(), ex.here(st)) }()
	}
	ex.cuts++
	f := st.top()
	h := f.block
	set := loopsOf(f.fn)[h]
	fi := len(st.frames) - 1
	mod := &modSet{keys: map[string]*modE{}, ghosts: map[string]bool{}, relock: map[*Term]bool{}}
	S0 := st.clone()
	var cands []*cand
	var ctx *loopCtx
	mkIter := func(cs []*cand) *State {
		S := S0.clone()
		ctx = &loopCtx{header: h, set: set, mod: mod, startSeq: S0.nfresh, start: S0.herePos(), nlocks: len(S0.locks), npend: len(S0.pend)}
		for _, h := range S0.locks {
			ctx.held = append(ctx.held, h.lock)
		}
		S.newMark()
		ex.havocLoop(S, ctx)
		ex.havocSnapshots(S, ctx)
		S.frames[fi].loops[h] = ctx
		for _, c := range cs {
			if t := c.f(S); t != nil {
				S.assume(t)
			}
		}
		return S
	}
	first := true
	for round := 0; ; round++ {
		if round > 40 {
			ex.abort("loop analysis does not converge at %s", ex.here(st))
			return false
		}
		S := mkIter(cands)
		mod.grew = false
		p := &probeCtx{ctx: ctx, depth: fi, set: set, up: ex.probe}
		sw, sp := ex.work, ex.probe
		ex.work, ex.probe = []*State{S}, p
		ex.drain()
		ex.work, ex.probe = sw, sp
		if ex.aborted != "" {
			return false
		}
		if mod.grew {
			continue
		}
		if first {
			first = false
			cands = ex.entryCands(S0, ex.candidates(S0, ctx, fi))
			if len(cands) > 0 {
				continue
			}
		}
		// preservation
		keep := ex.checkCands(cands, p.back)
		if len(keep) < len(cands) {
			cands = keep
			continue
		}
		for _, b := range p.back {
			if len(b.locks) != ctx.nlocks {
				ex.oblige(b, "lock-balance", "deadlock", tFalse, ex.here(st)+" a loop iteration changes the set of held locks")
			}
		}
		break
	}
	if traceExec || debugLoops {
		fmt.Printf("loop %s in %s: mod=%v ghosts=%v\n", ex.here(st), f.fn, modString(mod), sortedStrs(mod.ghosts))
		for _, c := range cands {
			fmt.Printf("   inv %s\n", c.name)
		}
	}
	S := mkIter(cands)
	*st = *S
	return true
}

var debugLoops = false

func modString(m *modSet) string {
	var out []string
	for k, e := range m.keys {
		s := shortKey(k)
		if e.all {
			s += "[*]"
		}
		for _, r := range e.rows {
			s += "[" + r.String() + "][*]"
		}
		for _, l := range e.locs {
			s += "["
			for _, i := range l {
				s += i.String() + " "
			}
			s += "]"
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

var candTimeout = 1500 * time.Millisecond

func (ex *Exec) entryCands(S0 *State, cs []*cand) []*cand {
	ok := make([]bool, len(cs))
	var wg sync.WaitGroup
	for i, c := range cs {
		t := c.f(S0)
		if t == nil {
			continue
		}
		if t == tTrue {
			ok[i] = true
			continue
		}
		if t == tFalse {
			continue
		}
		wg.Add(1)
		run := quickProof(S0.pc, t, candTimeout)
		go func(i int) {
			defer wg.Done()
			ok[i] = run()
		}(i)
	}
	wg.Wait()
	var out []*cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		}
	}
	return out
}

func (ex *Exec) checkCands(cs []*cand, back []*State) []*cand {
	ok := make([]bool, len(cs))
	for i := range cs {
		ok[i] = true
	}
	// goals of candidate i at a back edge; nil when trivially true
	goal := func(i int, b *State) *Term {
		t := cs[i].f(b)
		if t == nil || t == tFalse && len(b.pc) == 0 {
			ok[i] = false
			return nil
		}
		if t == tTrue {
			return nil
		}
		return t
	}
	single := func(b *State) {
		var wg sync.WaitGroup
		for i := range cs {
			if !ok[i] {
				continue
			}
			t := goal(i, b)
			if t == nil {
				continue
			}
			i := i
			wg.Add(1)
			run := quickProof(b.pc, t, candTimeout)
			go func() {
				defer wg.Done()
				if !run() {
					ok[i] = false
				}
			}()
		}
		wg.Wait()
	}
	for n, b := range back {
		if n > 0 && len(back) > 3 {
			break
		}
		single(b)
	}
	if len(back) > 3 {
		// most candidates that fail fail at the first back edge; try the rest together
		fail := make([]bool, len(back))
		var wg sync.WaitGroup
		for n, b := range back {
			if n == 0 {
				continue
			}
			var ts []*Term
			for i := range cs {
				if ok[i] {
					if t := goal(i, b); t != nil {
						ts = append(ts, t)
					}
				}
			}
			if len(ts) == 0 {
				continue
			}
			all := And(ts...)
			n, b := n, b
			wg.Add(1)
			run := quickProof(b.pc, all, candTimeout)
			go func() {
				defer wg.Done()
				fail[n] = !run()
			}()
		}
		wg.Wait()
		for n, b := range back {
			if fail[n] {
				single(b)
			}
		}
	}
	var out []*cand
	for i, c := range cs {
		if ok[i] {
			out = append(out, c)
		} else if debugLoops {
			fmt.Printf("   drop %s\n", c.name)
		}
	}
	return out
}

type quantity struct {
	name string
	f    func(st *State) *Term
	ref  bool
	sort Sort
	mono bool
}

func (ex *Exec) candidates(S0 *State, ctx *loopCtx, fi int) []*cand {
	var out []*cand
	fr := S0.frames[fi]
	var qs []quantity
	envq := func(v ssa.Value, f func(Value) *Term) func(st *State) *Term {
		return func(st *State) *Term {
			if fi >= len(st.frames) {
				return nil
			}
			x, ok := st.frames[fi].env[v]
			if !ok {
				return nil
			}
			return f(x)
		}
	}
	for _, in := range fr.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch v := fr.env[ph].(type) {
		case *Term:
			qs = append(qs, quantity{"phi " + ph.Comment, envq(ph, func(x Value) *Term { return x.(*Term) }), isRefType(ph.Type()), v.sort, true})
			if v.sort == SStr {
				qs = append(qs, quantity{"len " + ph.Comment, envq(ph, func(x Value) *Term { return StrLen(x.(*Term)) }), false, SInt, true})
			}
		case *SliceV:
			qs = append(qs, quantity{"len " + ph.Comment, envq(ph, func(x Value) *Term { return x.(*SliceV).n }), false, SInt, true})
			out = append(out, &cand{"off " + ph.Comment, func(st *State) *Term {
				x, ok := st.frames[fi].env[ph].(*SliceV)
				if !ok {
					return nil
				}
				return Eq(x.off, v.off)
			}})
			out = append(out, &cand{"nonnil " + ph.Comment, func(st *State) *Term {
				x, ok := st.frames[fi].env[ph].(*SliceV)
				if !ok {
					return nil
				}
				return Ne(x.ref, Int(0))
			}})
			// content frame: elements below the entry length keep their value
		}
	}
	for _, g := range sortedStrs(ctx.mod.ghosts) {
		g := g
		if t, ok := S0.ghosts[g].(*Term); ok {
			_, isArr := arrParts(t.sort)
			if isArr {
				out = append(out, &cand{"ghost " + g + " unchanged", func(st *State) *Term { return Eq(st.ghosts[g].(*Term), t) }})
				continue
			}
			qs = append(qs, quantity{"ghost " + g, func(st *State) *Term { return st.ghosts[g].(*Term) }, false, t.sort, true})
		}
	}
	var keys []string
	for k := range ctx.mod.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		e := ctx.mod.keys[k]
		srt := ex.keySort(S0, k)
		if e.all {
			if srt != "" && !strings.HasPrefix(string(srt), "(Array") {
				qs = append(qs, quantity{"loc " + shortKey(k), func(st *State) *Term { return heapIn(ex, st.heap, k, srt) }, keyRef[k], srt, true})
			}
			continue
		}
		var ls []string
		for l := range e.locs {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			idx := e.locs[l]
			s := srt
			for range idx {
				_, s = splitArr(s)
			}
			q := quantity{"loc " + shortKey(k), func(st *State) *Term { return readLoc(ex, st.heap, k, idx, s) }, keyRef[k], s, true}
			if strings.HasPrefix(string(s), "(Array") {
				v0 := q.f(S0)
				out = append(out, &cand{q.name + " unchanged", func(st *State) *Term { return Eq(q.f(st), v0) }})
				continue
			}
			qs = append(qs, q)
		}
		for _, r := range e.rows {
			r := r
			_, s := splitArr(srt)
			v0 := Select(heapIn(ex, S0.heap, k, srt), r)
			_ = s
			out = append(out, &cand{"row " + shortKey(k) + " unchanged", func(st *State) *Term { return Eq(Select(heapIn(ex, st.heap, k, srt), r), v0) }})
		}
	}
	// bounds: lengths of loop-invariant slices and strings in the frame, and integer params
	type bound struct {
		name string
		t    *Term
	}
	var bs []bound
	addB := func(n string, t *Term) {
		for _, b := range bs {
			if b.t == t {
				return
			}
		}
		if len(bs) < 12 && !t.isConst() {
			bs = append(bs, bound{n, t})
		}
	}
	var names []ssa.Value
	for v := range fr.env {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == fr.block {
			continue
		}
		names = append(names, v)
	}
	// what the loop header compares comes first, then slices, integers and strings
	inHeader := map[ssa.Value]bool{}
	for _, in := range fr.block.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp:
			inHeader[in.X], inHeader[in.Y] = true, true
		case *ssa.Call:
			for _, a := range in.Call.Args {
				inHeader[a] = true
			}
		}
	}
	rank := func(v ssa.Value) int {
		if inHeader[v] {
			return 0
		}
		switch x := fr.env[v].(type) {
		case *SliceV:
			return 1
		case *Term:
			if x.sort == SInt {
				return 2
			}
		}
		return 3
	}
	sort.Slice(names, func(i, j int) bool {
		if a, b := rank(names[i]), rank(names[j]); a != b {
			return a < b
		}
		return names[i].Name() < names[j].Name()
	})
	for _, v := range names {
		switch x := fr.env[v].(type) {
		case *SliceV:
			addB("len "+v.Name(), x.n)
		case *Term:
			if x.sort == SStr && isString(v.Type()) {
				addB("len "+v.Name(), StrLen(x))
			} else if x.sort == SInt {
				if _, ok := basicKind(v.Type()); ok {
					addB(v.Name(), x)
				}
			}
		}
	}
	for i, q := range qs {
		q := q
		v0 := q.f(S0)
		if v0 == nil {
			continue
		}
		add := func(name string, f func(t *Term) *Term) {
			out = append(out, &cand{name, func(st *State) *Term {
				t := q.f(st)
				if t == nil {
					return nil
				}
				return f(t)
			}})
		}
		add(q.name+" unchanged", func(t *Term) *Term { return Eq(t, v0) })
		if q.sort == SBool {
			// flags that say the same, or exclude each other
			for _, r := range qs[:i] {
				r := r
				if r.sort != SBool {
					continue
				}
				for dir := 0; dir < 4; dir++ {
					dir := dir
					out = append(out, &cand{fmt.Sprintf("%s ~%d %s", q.name, dir, r.name), func(st *State) *Term {
						x, t := r.f(st), q.f(st)
						if x == nil || t == nil {
							return nil
						}
						if dir&1 != 0 {
							x = Not(x)
						}
						if dir&2 != 0 {
							t = Not(t)
						}
						return Or(x, t)
					}})
				}
			}
		}
		if q.sort != SInt {
			continue
		}
		if q.ref {
			add(q.name+" nonnil", func(t *Term) *Term { return Ne(t, Int(0)) })
			continue
		}
		add(q.name+" >= entry", func(t *Term) *Term { return Le(v0, t) })
		add(q.name+" <= entry", func(t *Term) *Term { return Le(t, v0) })
		add(q.name+" >= 0", func(t *Term) *Term { return Le(Int(0), t) })
		for _, b := range bs {
			b := b
			add(q.name+" <= "+b.name, func(t *Term) *Term { return Le(t, b.t) })
			add(q.name+" < "+b.name, func(t *Term) *Term { return Lt(t, b.t) })
		}
		for _, r := range qs[:i] {
			r := r
			if r.sort != SInt || r.ref {
				continue
			}
			w0 := r.f(S0)
			if w0 == nil {
				continue
			}
			add(q.name+" in step with "+r.name, func(t *Term) *Term {
				x := r.f(curState)
				if x == nil {
					return nil
				}
				return Eq(Sub(t, v0), Sub(x, w0))
			})
			out[len(out)-1].f = func(st *State) *Term {
				x, t := r.f(st), q.f(st)
				if x == nil || t == nil {
					return nil
				}
				return Eq(Sub(t, v0), Sub(x, w0))
			}
			for _, dir := range []int{0, 1, 2} {
				dir := dir
				out = append(out, &cand{fmt.Sprintf("%s ~%d %s", q.name, dir, r.name), func(st *State) *Term {
					x, t := r.f(st), q.f(st)
					if x == nil || t == nil {
						return nil
					}
					switch dir {
					case 0:
						return Le(Sub(t, v0), Sub(x, w0))
					case 1:
						return Le(Sub(x, w0), Sub(t, v0))
					}
					return Eq(Add(Sub(x, w0), Sub(t, v0)), Int(0))
				}})
			}
		}
	}
	// snapshots at the acquisition of locks taken anew inside the loop
	for i, hl := range S0.locks {
		i := i
		if !ctx.mod.relock[hl.lock] {
			continue
		}
		for _, k := range sortedMod(ctx.mod) {
			k := k
			if ex.keySort(S0, k) == "" {
				continue
			}
			out = append(out, &cand{"snapshot " + k, func(st *State) *Term {
				if i >= len(st.locks) {
					return nil
				}
				srt := ex.keySort(st, k)
				return Eq(heapIn(ex, st.locks[i].pre, k, srt), heapIn(ex, st.heap, k, srt))
			}})
			if e := ctx.mod.keys[k]; !e.all {
				for _, idx := range e.locs {
					idx := idx
					out = append(out, &cand{"snapshot " + k + "[.]", func(st *State) *Term {
						if i >= len(st.locks) {
							return nil
						}
						srt := ex.keySort(st, k)
						a, b := heapIn(ex, st.locks[i].pre, k, srt), heapIn(ex, st.heap, k, srt)
						for _, x := range idx {
							a, b = Select(a, x), Select(b, x)
						}
						return Eq(a, b)
					}})
				}
			}
		}
	}
	// invariants of guarded objects whose lock is held
	for _, hl := range S0.locks {
		hl := hl
		if hl.decl == nil || hl.objT == nil || hl.rd {
			continue
		}
		for _, iv := range hl.decl.invs {
			iv := iv
			out = append(out, &cand{"inv " + iv.label, func(st *State) *Term {
				t, err := ex.evalInv(st, hl.decl.td, iv, hl.obj)
				if err != nil {
					return nil
				}
				return t
			}})
		}
	}
	out = append(out, ex.templateCands(S0, ctx, fi)...)
	// iteration states of map ranges: visited keys existed
	return out
}

var curState *State

func arrParts(s Sort) (Sort, bool) {
	return s, strings.HasPrefix(string(s), "(Array")
}

// templateCands instantiates the `invariant` templates of the contract
func (ex *Exec) templateCands(S0 *State, ctx *loopCtx, fi int) []*cand {
	var out []*cand
	if ex.U == nil || ex.U.spec == nil {
		return nil
	}
	fr := S0.frames[fi]
	for _, tp := range ex.U.spec.invs {
		tp := tp
		// possible bindings per placeholder
		type src struct {
			name string
			f    func(st *State) (DV, bool)
		}
		opts := make([][]src, len(tp.params))
		for i, p := range tp.params {
			var vals []ssa.Value
			for v := range fr.env {
				if v.Type() == nil {
					continue
				}
				if types.Identical(v.Type(), p.typ) || p.typ.String() == "untyped nil" {
					vals = append(vals, v)
				}
			}
			sort.Slice(vals, func(a, b int) bool { return vals[a].Name() < vals[b].Name() })
			seen := map[string]bool{}
			for _, v := range vals {
				v := v
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == fr.block {
				} else if b, isB := p.typ.Underlying().(*types.Basic); isB && b.Info()&(types.IsString|types.IsBoolean) != 0 {
					continue // does not change in the loop
				} else {
					k := valKey(fr.env[v])
					if seen[k] {
						continue
					}
					seen[k] = true
				}
				opts[i] = append(opts[i], src{v.Name(), func(st *State) (DV, bool) {
					if fi >= len(st.frames) {
						return DV{}, false
					}
					x, ok := st.frames[fi].env[v]
					return DV{x, v.Type()}, ok
				}})
			}
			// an index of a range starts at -1, one of a counted loop at 0: the one before, or the one after
			if b, isB := p.typ.Underlying().(*types.Basic); isB && b.Kind() == types.Int {
				for _, v := range vals {
					v := v
					ph, ok := v.(*ssa.Phi)
					if !ok || ph.Block() != fr.block {
						continue
					}
					off, nm := int64(-1), " before"
					if t, ok := fr.env[v].(*Term); ok && t.op == "int" && t.ival.Sign() < 0 {
						off, nm = 1, " after"
					}
					opts[i] = append(opts[i], src{v.Name() + nm, func(st *State) (DV, bool) {
						if fi >= len(st.frames) {
							return DV{}, false
						}
						x, ok := st.frames[fi].env[v].(*Term)
						if !ok {
							return DV{}, false
						}
						return DV{Add(x, Int(off)), v.Type()}, true
					}})
				}
			}
			// local variables living in cells
			for _, v := range vals2(fr, types.NewPointer(p.typ)) {
				v := v
				a, ok := fr.env[v].(*Term)
				if !ok {
					continue
				}
				if _, _, isA := allocPos(a); !isA {
					continue
				}
				opts[i] = append(opts[i], src{"*" + v.Name(), func(st *State) (DV, bool) {
					return DV{ex.loadH(st.heap, a, deref(v.Type())), deref(v.Type())}, true
				}})
			}
		}
		var rec func(i int, b []src)
		n := 0
		rec = func(i int, b []src) {
			if n > 60 {
				return
			}
			if i == len(tp.params) {
				n++
				bb := append([]src{}, b...)
				nm := "template " + tp.label
				for _, s := range bb {
					nm += " " + s.name
				}
				out = append(out, &cand{nm, func(st *State) *Term {
					ec := ex.newEval(st)
					if n := len(st.locks); n > 0 {
						ec.preHeap = st.locks[n-1].pre
					}
					for j, s := range bb {
						dv, ok := s.f(st)
						if !ok {
							return nil
						}
						ec.locals[tp.params[j].name] = dv
					}
					ec.loopHeap = S0
					t, err := ec.boolExpr(tp.expr)
					if err != nil {
						if debugLoops {
							fmt.Println("   template error:", err)
						}
						return nil
					}
					return t
				}})
				return
			}
			for _, s := range opts[i] {
				rec(i+1, append(b, s))
			}
		}
		rec(0, nil)
	}
	return out
}

func vals2(fr *Frame, t types.Type) []ssa.Value {
	var out []ssa.Value
	for v := range fr.env {
		if v.Type() != nil && types.Identical(v.Type(), t) {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Name() < out[b].Name() })
	return out
}

func sortedMod(m *modSet) []string {
	var ks []string
	for k := range m.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// havocSnapshots: the heap at acquisition of a lock taken anew inside the loop is arbitrary where the loop writes
func (ex *Exec) havocSnapshots(st *State, ctx *loopCtx) {
	for i, h := range st.locks {
		if !ctx.mod.relock[h.lock] {
			continue
		}
		n := *h
		n.pre = copyHeap(st.heap)
		for _, k := range sortedMod(ctx.mod) {
			srt := ex.keySort(st, k)
			if srt == "" {
				continue
			}
			v := st.fresh("snap:"+k, srt)
			born[v] = st.herePos()
			varKey[v] = k
			n.pre[k] = v
		}
		st.locks[i] = &n
	}
}
