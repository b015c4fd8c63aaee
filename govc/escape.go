package main

import (
	"fmt"
	"strings"
)

// Objects allocated by this run that no other thread can reach yet.

// refsIn: allocation constants occurring anywhere in t (closures included)
func refsIn(t *Term, seen map[*Term]bool, out map[int64]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 && t.ival.IsInt64() {
			out[t.ival.Int64()] = true
		}
		return
	case "closure":
		for _, b := range closTab[t.ival.Int64()].bind {
			refsInValue(b, seen, out)
		}
		return
	}
	for _, a := range t.args {
		refsIn(a, seen, out)
	}
}

func refsInValue(v Value, seen map[*Term]bool, out map[int64]bool) {
	switch x := v.(type) {
	case *Term:
		refsIn(x, seen, out)
	case *SliceV:
		refsIn(x.ref, seen, out)
	case *StructV:
		for _, f := range x.f {
			refsInValue(f, seen, out)
		}
	}
}

func (st *State) leak(vs ...Value) {
	out := map[int64]bool{}
	seen := map[*Term]bool{}
	for _, v := range vs {
		refsInValue(v, seen, out)
	}
	if len(out) == 0 {
		return
	}
	n := map[int64]bool{}
	for k := range st.leaked {
		n[k] = true
	}
	for k := range out {
		n[k] = true
	}
	st.leaked = n
}

func leakingHandler(name string) bool {
	for _, p := range []string{"(*sync.Mutex", "(*sync.RWMutex", "(*sync.WaitGroup", "(*sync.Cond", "sync/atomic.", "sync.NewCond", "time."} {
		if strings.HasPrefix(name, p) {
			return false
		}
	}
	return true
}

// unescaped: allocations made before the first loop mark that are reachable from locals only
func (ex *Exec) unescaped(st *State) []*Term {
	if ex.U.shareFresh {
		return nil
	}
	n := st.nalloc
	for m := st.mark; m.op != "int"; {
		mi := marks[m]
		n = mi.parent.n
		if mi.parent.mark == nil {
			break
		}
		m = mi.parent.mark
	}
	if n == 0 {
		return nil
	}
	bad := ex.escaped(st)
	var out []*Term
	for i := 1; i <= n; i++ {
		if !bad[int64(-i)] {
			out = append(out, Int(int64(-i)))
		}
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return out
}

// leakVisible: what the heap shows to other threads now stays known to them
func (ex *Exec) leakVisible(st *State) {
	if st.nalloc > 0 {
		st.leaked = ex.escaped(st)
	}
}

// escaped: allocations other threads may reach
func (ex *Exec) escaped(st *State) map[int64]bool {
	bad := map[int64]bool{}
	for k := range st.leaked {
		bad[k] = true
	}
	edges := map[int64]map[int64]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term, owner *Term)
	walk = func(t *Term, owner *Term) {
		if owner == nil && seen[t] {
			return
		}
		if owner == nil {
			seen[t] = true
		}
		if t.op != "store" {
			if t.op == "var" || t.op == "constarr" {
				return
			}
			// merged or havoced heaps: everything in them counts as shared
			out := map[int64]bool{}
			refsIn(t, map[*Term]bool{}, out)
			for k := range out {
				bad[k] = true
			}
			return
		}
		o := owner
		if o == nil {
			o = t.args[1]
		} else {
			note(o, t.args[1], edges, bad)
		}
		if v := t.args[2]; v.op == "store" {
			walk(v, o)
		} else if v.op != "var" && !(v.op == "select" && v.args[0].op == "var") {
			note(o, v, edges, bad)
		}
		walk(t.args[0], owner)
	}
	for k, h := range st.heap {
		if k == "#?chan.closed" || k == "#?chan.len" || k == "chan.cap" {
			continue
		}
		walk(h, nil)
	}
	for again := true; again; {
		again = false
		for o, es := range edges {
			if bad[o] {
				for e := range es {
					if !bad[e] {
						bad[e] = true
						again = true
					}
				}
			}
		}
	}
	return bad
}

func note(owner, v *Term, edges map[int64]map[int64]bool, bad map[int64]bool) {
	out := map[int64]bool{}
	refsIn(v, map[*Term]bool{}, out)
	if len(out) == 0 {
		return
	}
	for owner.op == "fa" {
		owner = owner.args[0]
	}
	if owner.op == "int" && owner.ival.Sign() < 0 && owner.ival.IsInt64() {
		o := owner.ival.Int64()
		if edges[o] == nil {
			edges[o] = map[int64]bool{}
		}
		for k := range out {
			edges[o][k] = true
		}
		return
	}
	for k := range out {
		bad[k] = true
	}
}

// notMine: a row of references written by other threads holds none of this thread's own objects
func (st *State) notMine(row *Term, ks Sort, own []*Term) {
	if len(own) == 0 {
		return
	}
	k := BVar("k", ks)
	var cs []*Term
	for _, u := range own {
		cs = append(cs, Ne(Select(row, k), u))
	}
	st.assume(Forall([]*Term{k}, And(cs...)))
}

// heapFacts: facts about the contents of reference arrays: what an object of age p can show is no younger
// than p or the array symbol, whichever is younger
func heapFacts(as []*Term) []*Term {
	seen := map[*Term]bool{}
	vars := map[*Term]bool{}
	var order, ground, ms []*Term
	lower := func(p pos) *Term {
		lo := Int(int64(-p.n - 1))
		if p.mark != nil {
			lo = Add(p.mark, lo)
		}
		return lo
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			if _, ok := marks[t]; ok {
				ms = append(ms, t)
			}
		}
		if t.op == "select" && !t.bound && t.sort == SInt {
			b := t.args[0]
			if b.op == "select" {
				b = b.args[0]
			}
			if b.op == "var" {
				if p, ok := bornPos(t); ok {
					ground = append(ground, Lt(lower(p), t))
				}
			}
		}
		if t.op == "select" && t.args[1].bound {
			b := t.args[0]
			for b.op == "store" {
				b = b.args[0]
			}
			if b.op == "select" {
				// row of a two-dimensional array
				b = b.args[0]
				for b.op == "store" {
					b = b.args[0]
				}
			}
			if b.op == "var" && !vars[b] {
				if _, ok := born[b]; ok && (varKey[b] == "" || keyRef[varKey[b]]) {
					vars[b] = true
					order = append(order, b)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	out := ground
	for _, v := range order {
		p := born[v]
		var bv []*Term
		t := v
		for strings.HasPrefix(string(t.sort), "(Array ") {
			ks, _ := splitArr(t.sort)
			b := BVar(fmt.Sprintf("o%d", len(bv)), ks)
			bv = append(bv, b)
			t = Select(t, b)
		}
		if t.sort != SInt || len(bv) == 0 {
			continue
		}
		k := varKey[v]
		row := len(bv) == 1 && (k == "" || strings.HasPrefix(k, "E$") || strings.HasPrefix(k, "M$"))
		if row || bv[0].sort != SInt {
			out = append(out, Forall(bv, Lt(lower(p), t)))
			continue
		}
		out = append(out, Forall(bv, Imp(Lt(lower(p), bv[0]), Lt(lower(p), t))))
		for _, m := range ms {
			if q := marks[m].parent; q == p || later(q.mark, q.n, p) || p.mark == nil && p.n == 0 {
				out = append(out, Forall(bv, Imp(Le(m, bv[0]), Le(m, t))))
			}
		}
	}
	return out
}
