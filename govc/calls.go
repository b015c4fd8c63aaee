package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	name  string
	fn    *ssa.Function
	sig   *types.Signature
	args  []Value
	argT  []types.Type
	ret   func(st *State, v Value)
	cc    *ssa.CallCommon
	isDef bool
}

func (ex *Exec) callOperands(st *State, c *ssa.CallCommon) (Value, []Value, bool) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	if c.IsInvoke() {
		return ex.val(st, c.Value), args, true
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return Int(0), args, true
	case *ssa.Function:
		return funcTerm(v), args, true
	}
	return ex.val(st, c.Value), args, true
}

// call performs a call; the result is delivered to retVar or onRet. false: the path stops here.
func (ex *Exec) call(st *State, c *ssa.CallCommon, fnv Value, args []Value, retVar ssa.Value, onRet func(ex *Exec, st *State, v Value), isDefer bool) bool {
	ret := func(st *State, v Value) {
		if onRet != nil {
			onRet(ex, st, v)
		} else if retVar != nil && v != nil {
			st.top().env[retVar] = v
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return ex.builtin(st, b, c, args, ret, isDefer)
	}
	if c.IsInvoke() {
		recv := fnv.(*Term)
		return ex.invoke(st, recv, c.Method, c.Value.Type(), args, ret, retVar, onRet, isDefer)
	}
	return ex.callTerm(st, fnv.(*Term), c.Signature(), args, ret, retVar, onRet, isDefer)
}

func (ex *Exec) invoke(st *State, recv *Term, m *types.Func, ifaceT types.Type, args []Value, ret func(*State, Value), retVar ssa.Value, onRet func(*Exec, *State, Value), isDefer bool) bool {
	if recv.op == "ite" {
		o := st.clone()
		o.assume(Not(recv.args[0]))
		if ex.feasible(o) {
			if ex.invoke(o, recv.args[2], m, ifaceT, args, ret, retVar, onRet, isDefer) {
				ex.push(o)
			}
		}
		st.assume(recv.args[0])
		if !ex.feasible(st) {
			return false
		}
		return ex.invoke(st, recv.args[1], m, ifaceT, args, ret, retVar, onRet, isDefer)
	}
	if recv.op != "box" {
		if !ex.panicIf(st, Eq(recv, Int(0)), "nil interface method call") {
			return false
		}
	}
	if recv.op == "box" {
		dt := typeByKey(recv.sval)
		if dt != nil {
			fn := ex.P.prog.LookupMethod(dt, m.Pkg(), m.Name())
			if fn != nil {
				rv := unboxAs(recv, dt)
				return ex.callFn(st, fn, append([]Value{rv}, args...), nil, ret, retVar, onRet, isDefer)
			}
		}
	}
	sig := m.Type().(*types.Signature)
	name := ifaceName(ifaceT) + "." + m.Name()
	argT := []types.Type{ifaceT}
	all := append([]Value{recv}, args...)
	for i := 0; i < sig.Params().Len(); i++ {
		argT = append(argT, sig.Params().At(i).Type())
	}
	cx := &CallCtx{name: name, sig: sig, args: all, argT: argT, ret: ret, isDef: isDefer}
	if h, ok := invokeHandlers[name]; ok {
		return h(ex, st, cx)
	}
	return ex.unknownCall(st, "invoke", name, recv, cx)
}

func ifaceName(t types.Type) string { return typeKey(t) }

func (ex *Exec) callTerm(st *State, f *Term, sig *types.Signature, args []Value, ret func(*State, Value), retVar ssa.Value, onRet func(*Exec, *State, Value), isDefer bool) bool {
	switch f.op {
	case "func":
		fn := funcTab[f.sval]
		return ex.callFn(st, fn, args, nil, ret, retVar, onRet, isDefer)
	case "fa":
		if f.sval == "ctx.cancel" {
			done := readLoc(ex, st.heap, "#ctx.done", []*Term{f.args[0]}, SInt)
			if !ex.event(st, &Event{kind: "extern", name: "context.cancel", args: []DV{{done, nil}}}) {
				return false
			}
			ex.writeLoc(st, "#?chan.closed", []*Term{done}, tTrue)
			ret(st, nil)
			return true
		}
	case "closure":
		cl := closTab[f.ival.Int64()]
		return ex.callFn(st, cl.fn, args, cl.bind, ret, retVar, onRet, isDefer)
	case "ite":
		o := st.clone()
		o.assume(Not(f.args[0]))
		if ex.feasible(o) {
			if ex.callTerm(o, f.args[2], sig, args, ret, retVar, onRet, isDefer) {
				ex.push(o)
			}
		}
		st.assume(f.args[0])
		if !ex.feasible(st) {
			return false
		}
		return ex.callTerm(st, f.args[1], sig, args, ret, retVar, onRet, isDefer)
	}
	if !ex.panicIf(st, Eq(f, Int(0)), "call of nil function") {
		return false
	}
	var argT []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		argT = append(argT, sig.Params().At(i).Type())
	}
	cx := &CallCtx{name: "?", sig: sig, args: args, argT: argT, ret: ret, isDef: isDefer}
	return ex.unknownCall(st, "call", "?", f, cx)
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value, ret func(*State, Value), retVar ssa.Value, onRet func(*Exec, *State, Value), isDefer bool) bool {
	name := fnName(fn)
	if c := ex.U.contractFor(name); c != nil {
		st.leak(args...)
		return ex.applyContract(st, c, fn, args, ret)
	}
	if h, ok := handlers[name]; ok {
		ex.externs[name] = true
		if leakingHandler(name) {
			st.leak(args...)
		} else if strings.HasPrefix(name, "sync/atomic.") && len(args) > 1 {
			st.leak(args[1:]...)
		}
		cx := ex.callCtx(fn, name, args, ret, isDefer)
		if ex.U.listens("extern", name) {
			dv := cx.dvs()
			rt := cx.sig.Results()
			fired := false
			cx.ret = func(st *State, v Value) {
				fired = true
				if !ex.event(st, &Event{kind: "extern", name: name, args: dv, res: resDVs(v, rt)}) {
					st.assume(tFalse)
				}
				ret(st, v)
			}
			ok := h(ex, st, cx)
			if ok && !fired && !ex.event(st, &Event{kind: "extern", name: name, args: dv}) {
				return false
			}
			return ok
		}
		return h(ex, st, cx)
	}
	if ex.D.pure[shortKey(name)] {
		// declared opaque: its own contract is the matter of another property
		return ex.unknownCall(st, "extern", name, funcTerm(fn), ex.callCtx(fn, name, args, ret, isDefer))
	}
	if ex.P.inRepo(fn) {
		if len(st.frames) > 60 {
			ex.abort("call depth exceeded in %s", name)
			return false
		}
		nrec := 0
		for _, fr := range st.frames {
			if fr.fn == fn {
				nrec++
			}
		}
		if nrec > 6 {
			ex.abort("unbounded recursion in %s", name)
			return false
		}
		ex.inlined[name] = true
		cx := ex.callCtx(fn, name, args, ret, isDefer)
		ex.event(st, &Event{kind: "enter", name: name, args: cx.dvs()})
		fr := ex.newFrame(fn, args, bind)
		fr.ret = retVar
		fr.onRet = onRet
		fr.isDefer = isDefer
		if ex.U.listens("leave", name) {
			dv := cx.dvs()
			rt := fn.Signature.Results()
			fr.leave = func(ex *Exec, st *State, res Value) bool {
				return ex.event(st, &Event{kind: "leave", name: name, args: dv, res: resDVs(res, rt)})
			}
		}
		st.frames = append(st.frames, fr)
		return true
	}
	cx := ex.callCtx(fn, name, args, ret, isDefer)
	return ex.unknownCall(st, "extern", name, funcTerm(fn), cx)
}

func (ex *Exec) newFrame(fn *ssa.Function, args, bind []Value) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	fr.block = fn.Blocks[0]
	return fr
}

// fnName: stable name: module-relative "pkg.F", "pkg.(*T).M", "(*sync.Mutex).Lock"
func fnName(fn *ssa.Function) string {
	s := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		s = o.String()
	}
	if strings.Contains(s, modPath+"/") {
		s = strings.ReplaceAll(s, modPath+"/", "")
		// (*pkg.T).M -> pkg.(*T).M
		if strings.HasPrefix(s, "(*") {
			i := strings.Index(s, ")")
			in := s[2:i]
			k := strings.LastIndex(in, ".")
			s = in[:k] + ".(*" + in[k+1:] + ")" + s[i+1:]
		} else if strings.HasPrefix(s, "(") {
			i := strings.Index(s, ")")
			in := s[1:i]
			k := strings.LastIndex(in, ".")
			s = in[:k] + ".(" + in[k+1:] + ")" + s[i+1:]
		}
	}
	return s
}

func (ex *Exec) callCtx(fn *ssa.Function, name string, args []Value, ret func(*State, Value), isDefer bool) *CallCtx {
	cx := &CallCtx{name: name, fn: fn, sig: fn.Signature, args: args, ret: ret, isDef: isDefer}
	if fn.Signature.Recv() != nil {
		cx.argT = append(cx.argT, fn.Signature.Recv().Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		cx.argT = append(cx.argT, fn.Signature.Params().At(i).Type())
	}
	if len(cx.argT) != len(args) { // wrappers
		cx.argT = nil
		for _, p := range fn.Params {
			cx.argT = append(cx.argT, p.Type())
		}
	}
	return cx
}

func (c *CallCtx) dvs() []DV {
	var out []DV
	for i, a := range c.args {
		var t types.Type
		if i < len(c.argT) {
			t = c.argT[i]
		}
		out = append(out, DV{a, t})
	}
	return out
}

func resDVs(res Value, rt *types.Tuple) []DV {
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		return []DV{{res, rt.At(0).Type()}}
	}
	var out []DV
	sv := res.(*StructV)
	for i := 0; i < rt.Len(); i++ {
		out = append(out, DV{sv.f[i], rt.At(i).Type()})
	}
	return out
}

// freshResults: arbitrary results of a call
func (ex *Exec) freshResults(st *State, hint string, rt *types.Tuple) Value {
	switch rt.Len() {
	case 0:
		return nil
	case 1:
		v := st.freshValue(hint, rt.At(0).Type())
		st.sliceFacts(v)
		return v
	}
	sv := &StructV{}
	for i := 0; i < rt.Len(); i++ {
		v := st.freshValue(fmt.Sprintf("%s#%d", hint, i), rt.At(i).Type())
		st.sliceFacts(v)
		sv.f = append(sv.f, v)
	}
	return sv
}

// unknownCall: a call whose body is outside the verified code: arbitrary (or declared) results
func (ex *Exec) unknownCall(st *State, kind, name string, callee *Term, cx *CallCtx) bool {
	if kind != "call" {
		ex.externs[name] = true
	}
	st.leak(cx.args...)
	hint := shortHint(name)
	if kind == "call" {
		hint = "cb"
	}
	var res Value
	rt := cx.sig.Results()
	if p := ex.D.pure[name] || ex.D.pure[shortKey(name)]; p && rt.Len() > 0 {
		var ts []*Term
		okk := true
		for i, a := range cx.args {
			switch a.(type) {
			case *Term:
				ts = append(ts, a.(*Term))
			case *SliceV:
				s := a.(*SliceV)
				ts = append(ts, ex.sliceTerms(st, s)...)
			default:
				if i < len(cx.argT) && cx.argT[i] != nil {
					ts = append(ts, flat(a, cx.argT[i])...)
				} else {
					okk = false
				}
			}
		}
		if okk {
			if rt.Len() == 1 {
				res = ex.uninterp(st, shortKey(name), rt.At(0).Type(), ts...)
			} else {
				sv := &StructV{}
				for i := 0; i < rt.Len(); i++ {
					sv.f = append(sv.f, ex.uninterp(st, fmt.Sprintf("%s#%d", shortKey(name), i), rt.At(i).Type(), ts...))
				}
				res = sv
			}
		}
	}
	if res == nil {
		res = ex.freshResults(st, hint, rt)
	}
	for _, p := range ex.D.nonnil {
		if globMatch(p, name) {
			for _, d := range resDVs(res, rt) {
				if t, ok := d.v.(*Term); ok && t.sort == SInt && nilable(d.t) {
					st.assume(Ne(t, Int(0)))
				}
			}
		}
	}
	ev := &Event{kind: kind, name: name, callee: callee, args: cx.dvs(), res: resDVs(res, rt)}
	if kind == "call" {
		ev.sig = cx.sig
	}
	if !ex.event(st, ev) {
		return false
	}
	if ev.newRes != nil {
		if rt.Len() == 1 {
			res = ev.newRes[0].v
		}
	}
	if ex.D.noreturn[name] {
		st.exited = true
		st.exitWhy = name
		st.frames = nil
		ex.exitProcess(st)
		return false
	}
	cx.ret(st, res)
	return true
}

// sliceTerms: terms that determine the contents of a slice
func (ex *Exec) sliceTerms(st *State, s *SliceV) []*Term {
	out := []*Term{s.n}
	if s.n.isInt() && s.n.ival.IsInt64() && s.n.ival.Int64() <= 16 {
		for i := int64(0); i < s.n.ival.Int64(); i++ {
			v := ex.load(st, IA(typeKey(s.elem), s.ref, Add(s.off, Int(i))), s.elem)
			out = append(out, flat(v, s.elem)...)
		}
		return out
	}
	out = append(out, s.off)
	for _, l := range leaves(s.elem) {
		key := "E$" + typeKey(s.elem) + l.path
		out = append(out, Select(heapIn(ex, st.heap, key, arrSort(2, l.sort)), s.ref))
	}
	return out
}

func shortHint(n string) string {
	i := strings.LastIndexAny(n, "./")
	return strings.Trim(n[i+1:], "()*$")
}

// ---- builtins

func (ex *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, ret func(*State, Value), isDefer bool) bool {
	switch b.Name() {
	case "len":
		ret(st, ex.lenOf(st, args[0], c.Args[0].Type()))
	case "cap":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Chan:
			ret(st, ex.chanCap(st.heap, args[0].(*Term)))
		default:
			n := ex.lenOf(st, args[0], c.Args[0].Type())
			v := st.fresh("cap", SInt)
			st.assume(Le(n, v))
			ret(st, v)
		}
	case "append":
		v, ok := ex.appendB(st, args[0], args[1], c.Args[0].Type(), c.Args[1].Type())
		if !ok {
			return false
		}
		ret(st, v)
	case "copy":
		return ex.copyB(st, args, c, ret)
	case "delete":
		m := args[0].(*Term)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		ex.guardContent(st, m, true, "map")
		if m.op == "int" && m.ival.Sign() == 0 {
			return true
		}
		ex.mapDelete(st, m, mt, args[1])
	case "close":
		return ex.closeB(st, args[0].(*Term))
	case "recover":
		if st.panicking && len(st.frames) >= 2 && st.frames[len(st.frames)-2].unwinding && st.top().isDefer {
			st.panicking = false
			v := st.panicVal
			if v == nil {
				v = st.freshRef("panicval")
				st.assume(Ne(v, Int(0)))
			}
			ret(st, v)
		} else {
			ret(st, Int(0))
		}
	case "print", "println":
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Le(y, r), r, y)
			}
		}
		ret(st, r)
	case "ssa:wrapnilchk":
		a := args[0].(*Term)
		if !ex.nilCheck(st, a) {
			return false
		}
		ret(st, a)
	case "ssa:deferstack":
		ret(st, Int(1))
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := args[0].(*Term)
			ex.guardContent(st, m, true, "map")
			ks, _ := mapKeySort(mt)
			ex.put1(st, mapKey(mt)+"#has", m, ConstArr(SArr(ks, SBool), tFalse))
			ex.put1(st, mapKey(mt)+"#len", m, Int(0))
			break
		}
		ex.abort("clear on slice")
		return false
	default:
		ex.abort("builtin %s", b.Name())
		return false
	}
	return true
}

func (ex *Exec) lenOf(st *State, v Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Map:
		ex.guardContent(st, v.(*Term), false, "map")
		n := ex.mapLenH(st.heap, v.(*Term), u)
		st.assume(Le(Int(0), n))
		if !n.isConst() {
			ks, _ := mapKeySort(u)
			k := BVar("k", ks)
			st.assume(Imp(Eq(n, Int(0)), Forall([]*Term{k}, Not(Select(ex.mapHas(st.heap, v.(*Term), u), k)))))
			w := st.fresh("somekey", ks)
			st.assume(Imp(Lt(Int(0), n), Select(ex.mapHas(st.heap, v.(*Term), u), w)))
		}
		return n
	case *types.Chan:
		return ex.chanLenNow(st, v.(*Term))
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		return Int(u.Elem().Underlying().(*types.Array).Len())
	}
	switch x := v.(type) {
	case *Term:
		n := StrLen(x)
		return n
	case *SliceV:
		return x.n
	}
	panic("len")
}

func (ex *Exec) appendB(st *State, a, b Value, ta, tb types.Type) (Value, bool) {
	if s, ok := a.(*Term); ok { // []byte
		t, ok := b.(*Term)
		if !ok {
			ex.abort("append to bytes")
			return nil, false
		}
		return Concat(s, t), true
	}
	x := a.(*SliceV)
	y, ok := b.(*SliceV)
	if !ok {
		ex.abort("append operands")
		return nil, false
	}
	if y.n == Int(0) {
		return x, true
	}
	r := st.newRef()
	el := x.elem
	isNil := x.ref.op == "int" && x.ref.ival.Sign() == 0
	off := x.off
	if isNil {
		off = Int(0)
	}
	cnt := int64(-1)
	if y.n.isInt() && y.n.ival.IsInt64() && y.n.ival.Int64() <= 64 {
		cnt = y.n.ival.Int64()
	}
	for _, l := range leaves(el) {
		key := "E$" + typeKey(el) + l.path
		h := heapIn(ex, st.heap, key, arrSort(2, l.sort))
		if l.ref {
			keyRef[key] = true
		}
		row := Select(h, x.ref)
		if isNil {
			row = ConstArr(SArr(SInt, l.sort), zeroTerm(l.sort))
		}
		yrow := Select(h, y.ref)
		if cnt >= 0 {
			for i := int64(0); i < cnt; i++ {
				row = Store(row, Add(off, x.n, Int(i)), Select(yrow, Add(y.off, Int(i))))
			}
		} else if x.n == Int(0) && off == y.off {
			row = yrow
		} else {
			nr := st.fresh("appended", SArr(SInt, l.sort))
			if l.ref {
				born[nr] = st.herePos()
			}
			k := BVar("k", SInt)
			st.assume(Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, x.n)), Eq(Select(nr, Add(off, k)), Select(row, Add(off, k))))))
			st.assume(Forall([]*Term{k}, Imp(And(Le(Int(0), k), Lt(k, y.n)), Eq(Select(nr, Add(off, x.n, k)), Select(yrow, Add(y.off, k))))))
			row = nr
		}
		st.heap[key] = Store(h, r, row)
		ex.noteWrite(st, key, []*Term{r})
	}
	ex.note("append is modelled as copying into a fresh backing array")
	if cnt < 0 {
		// appending nothing to nil stays nil
		if isNil {
			return &SliceV{Ite(Eq(y.n, Int(0)), Int(0), r), off, Add(x.n, y.n), el}, true
		}
		return &SliceV{Ite(Eq(y.n, Int(0)), x.ref, r), off, Add(x.n, y.n), el}, true
	}
	return &SliceV{r, off, Add(x.n, y.n), el}, true
}

func (ex *Exec) copyB(st *State, args []Value, c *ssa.CallCommon, ret func(*State, Value)) bool {
	x, ok := args[0].(*SliceV)
	if !ok {
		ex.abort("copy into bytes at %s", ex.here(st))
		return false
	}
	y, ok := args[1].(*SliceV)
	if !ok {
		ex.abort("copy from bytes")
		return false
	}
	n := Ite(Le(x.n, y.n), x.n, y.n)
	if x.n == y.n {
		n = x.n
	}
	for _, l := range leaves(x.elem) {
		key := "E$" + typeKey(x.elem) + l.path
		h := heapIn(ex, st.heap, key, arrSort(2, l.sort))
		row, yrow := Select(h, x.ref), Select(h, y.ref)
		var nr *Term
		if n.isInt() && n.ival.IsInt64() && n.ival.Int64() <= 64 {
			nr = row
			for i := int64(0); i < n.ival.Int64(); i++ {
				nr = Store(nr, Add(x.off, Int(i)), Select(yrow, Add(y.off, Int(i))))
			}
		} else {
			nr = st.fresh("copied", SArr(SInt, l.sort))
			if l.ref {
				born[nr] = st.herePos()
			}
			k := BVar("k", SInt)
			in := And(Le(x.off, k), Lt(k, Add(x.off, n)))
			st.assume(Forall([]*Term{k}, Eq(Select(nr, k), Ite(in, Select(yrow, Add(y.off, Sub(k, x.off))), Select(row, k)))))
		}
		ex.writeRow(st, key, x.ref, nr)
	}
	ret(st, n)
	return true
}

func (ex *Exec) writeRow(st *State, key string, ref, row *Term) {
	h := heapIn(ex, st.heap, key, SArr(SInt, row.sort))
	st.heap[key] = Store(h, ref, row)
	ex.noteWrite(st, key, []*Term{ref})
}

// ---- goroutines

func (ex *Exec) goStmt(st *State, x *ssa.Go) bool {
	fnv, args, ok := ex.callOperands(st, &x.Call)
	if !ok {
		return false
	}
	name := "?"
	if x.Call.IsInvoke() {
		name = ifaceName(x.Call.Value.Type()) + "." + x.Call.Method.Name()
	} else if t := fnv.(*Term); t.op == "func" {
		name = fnName(funcTab[t.sval])
	} else if t.op == "closure" {
		name = fnName(closTab[t.ival.Int64()].fn)
	}
	var dv []DV
	for i, a := range args {
		dv = append(dv, DV{a, x.Call.Args[i].Type()})
	}
	if !ex.event(st, &Event{kind: "go", name: name, callee: fnv.(*Term), args: dv}) {
		return false
	}
	st.leak(args...)
	st.leak(fnv)
	g := &Gor{fnv: fnv, call: &x.Call, args: args, name: name}
	if !ex.exploreBody(st, g) {
		return false
	}
	st.pend = append(st.pend, g)
	st.top().idx++
	return true
}

// exploreBody (option gobodies): the goroutine is also explored as a thread of its own, from the
// point where it is started: it holds no lock, its own goroutines are explored in turn, and rules
// "gostart" and "goexit" mark its beginning and end. The path ends there.
func (ex *Exec) exploreBody(st *State, g *Gor) bool {
	if ex.U.spec == nil || ex.U.spec.opts["gobodies"] == "" || ex.probe != nil {
		return true
	}
	b := st.clone()
	if b.goDepth >= 5 {
		ex.abort("goroutines nested too deeply")
		return false
	}
	b.goDepth++
	b.locks = nil
	b.pend = nil
	b.rootDone = true
	stub := *b.top()
	stub.loops = map[*ssa.BasicBlock]*loopCtx{}
	stub.unroll = map[*ssa.BasicBlock]int{}
	stub.defers = nil
	stub.unwinding = false
	b.frames = []*Frame{&stub}
	if !ex.event(b, &Event{kind: "gostart", name: g.name}) {
		return true
	}
	ok := false
	if g.call == nil {
		ok = ex.callTerm(b, g.fnv.(*Term), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, func(*State, Value) {}, nil, func(*Exec, *State, Value) {}, false)
	} else {
		ok = ex.call(b, g.call, g.fnv, g.args, nil, func(*Exec, *State, Value) {}, false)
	}
	if !ok {
		return true
	}
	end := func(ex *Exec, st *State, v Value) bool {
		ex.oblige(st, "lock-released", "deadlock", Bool(len(st.locks) == 0), "goroutine "+g.name+" ends with a lock held")
		ex.event(st, &Event{kind: "goexit", name: g.name})
		return false
	}
	if len(b.frames) > 1 {
		b.frames[1].leave = end
		ex.push(b)
	} else {
		end(ex, b, nil)
	}
	return true
}

// runPending executes the first pending goroutine inline, at the current point
func (ex *Exec) runPending(st *State) bool {
	g := st.pend[0]
	st.pend = append([]*Gor{}, st.pend[1:]...)
	if g.call == nil {
		return ex.callTerm(st, g.fnv.(*Term), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, func(*State, Value) {}, nil, func(*Exec, *State, Value) {}, false)
	}
	n := len(st.frames)
	if !ex.call(st, g.call, g.fnv, g.args, nil, func(*Exec, *State, Value) {}, false) {
		return false
	}
	if len(st.frames) > n {
		st.top().gor = g
	}
	return true
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}
