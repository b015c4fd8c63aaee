package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of the standard library (the trusted base: listed in every evidence file).

type handler func(ex *Exec, st *State, cx *CallCtx) bool

var handlers = map[string]handler{}
var invokeHandlers = map[string]handler{}

func arg(cx *CallCtx, i int) *Term { return cx.args[i].(*Term) }

func isZero(t *Term) bool { return t.op == "int" && t.ival.Sign() == 0 }

func pairV(a, b Value) Value { return &StructV{[]Value{a, b}} }

// ---- text of values

func itoaT(t *Term) *Term {
	if t.isInt() {
		return Str(t.ival.String())
	}
	return UF("itoa", SStr, t)
}

func init() {
	ufAxioms["itoa"] = func(a *Term) []*Term {
		n := a.args[0]
		back := UF("atoi", SInt, a)
		return []*Term{
			mk("=", SBool, "", nil, back, n),
			Le(Int(1), StrLen(a)),
			Le(StrLen(a), Int(20)),
		}
	}
}

func hasTextMethod(t types.Type) bool {
	for _, m := range []string{"Error", "String", "Format", "GoString"} {
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, m)
		if f, ok := o.(*types.Func); ok && f != nil {
			return true
		}
	}
	return false
}

// textOf: fmt's rendering of a boxed value under a verb
func (ex *Exec) textOf(st *State, v *Term, verb string) *Term {
	if v.op == "ite" {
		return Ite(v.args[0], ex.textOf(st, v.args[1], verb), ex.textOf(st, v.args[2], verb))
	}
	if v.op == "box" && len(v.args) == 1 {
		t := typeByKey(v.sval)
		if v.sval == "*errors.errorString" && (verb == "v" || verb == "s") {
			return ex.errText(st, v)
		}
		if v.sval == "time.Duration" && (verb == "v" || verb == "s") {
			if d := ex.uninterp(st, "time.Duration.String", types.Typ[types.String], v.args[0]); d != nil {
				return d.(*Term)
			}
		}
		if t != nil && !hasTextMethod(t) {
			a := v.args[0]
			if b, ok := t.Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsString != 0 && (verb == "v" || verb == "s"):
					return a
				case b.Info()&types.IsInteger != 0 && (verb == "v" || verb == "d"):
					return itoaT(a)
				case b.Info()&types.IsBoolean != 0 && (verb == "v" || verb == "t"):
					return Ite(a, Str("true"), Str("false"))
				}
			}
			if isByteSlice(t) && verb == "s" {
				return a
			}
		}
	}
	return UF("fmt:%"+verb, SStr, v)
}

// sprintf: concatenation for constant formats
func (ex *Exec) sprintf(st *State, f *Term, args *SliceV) *Term {
	if !f.isStr() || !args.n.isInt() {
		return UF("fmt.Sprintf", SStr, append([]*Term{f}, ex.sliceTerms(st, args)...)...)
	}
	var parts []*Term
	n := args.n.ival.Int64()
	k := int64(0)
	s := f.sval
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		if i+1 < len(s) && s[i+1] == '%' {
			lit += "%"
			i++
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.[]", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit += s[i:]
			break
		}
		verb := s[i+1 : j+1]
		i = j
		parts = append(parts, Str(lit))
		lit = ""
		if k >= n {
			parts = append(parts, Str("%!"+verb+"(MISSING)"))
			continue
		}
		a := ex.load(st, IA(typeKey(args.elem), args.ref, Add(args.off, Int(k))), args.elem).(*Term)
		k++
		parts = append(parts, ex.textOf(st, a, verb))
	}
	parts = append(parts, Str(lit))
	if k < n {
		parts = append(parts, Str("%!(EXTRA)"))
	}
	return Concat(parts...)
}

func (ex *Exec) newError(st *State, text *Term) *Term {
	r := st.newRef()
	ex.writeLoc(st, "errors.errorString.s", []*Term{r}, text)
	return Box("*errors.errorString", r)
}

func (ex *Exec) errText(st *State, v *Term) *Term {
	if v.op == "box" && v.sval == "*errors.errorString" {
		return readLoc(ex, st.heap, "errors.errorString.s", []*Term{v.args[0]}, SStr)
	}
	return UF("error.Error", SStr, v)
}

// ---- lists

func listLo(ex *Exec, h map[string]*Term, l *Term) *Term {
	return readLoc(ex, h, "#?list.lo", []*Term{l}, SInt)
}
func listHi(ex *Exec, h map[string]*Term, l *Term) *Term {
	return readLoc(ex, h, "#?list.hi", []*Term{l}, SInt)
}
func listLen(ex *Exec, h map[string]*Term, l *Term) *Term {
	return Sub(listHi(ex, h, l), listLo(ex, h, l))
}
func listVal(ex *Exec, h map[string]*Term, l, pos *Term) *Term {
	return readLoc(ex, h, "E$list.elem.Value", []*Term{l, pos}, SInt)
}

func (ex *Exec) havocList(st *State, l *Term) {
	lo, hi := st.fresh("list.lo", SInt), st.fresh("list.hi", SInt)
	st.assume(Le(lo, hi))
	ex.writeLoc(st, "#?list.lo", []*Term{l}, lo)
	ex.writeLoc(st, "#?list.hi", []*Term{l}, hi)
	row := st.fresh("list.vals", SArr(SInt, SInt))
	born[row] = st.herePos()
	ex.writeRow(st, "E$list.elem.Value", l, row)
}

func listFact(ex *Exec, st *State, l *Term) {
	st.assume(Le(listLo(ex, st.heap, l), listHi(ex, st.heap, l)))
}

// fork runs f on the feasible branches of c
func (ex *Exec) fork(st *State, c *Term, yes, no func(*State) bool) bool {
	switch ex.decide(st, c) {
	case 1:
		st.assume(c)
		return yes(st)
	case 0:
		st.assume(Not(c))
		return no(st)
	}
	o := st.clone()
	o.assume(Not(c))
	st.assume(c)
	if no(o) {
		ex.push(o)
	}
	return yes(st)
}

func init() {
	keyRef["E$list.elem.Value"] = true
	H := func(names string, h handler) {
		for _, n := range strings.Fields(names) {
			handlers[n] = h
		}
	}
	I := func(names string, h handler) {
		for _, n := range strings.Fields(names) {
			invokeHandlers[n] = h
		}
	}
	// locks
	H("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.acquire(st, arg(cx, 0), false) })
	H("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.release(st, arg(cx, 0), false) })
	H("(*sync.RWMutex).RLock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.acquire(st, arg(cx, 0), true) })
	H("(*sync.RWMutex).RUnlock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.release(st, arg(cx, 0), true) })
	H("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(ex *Exec, st *State, cx *CallCtx) bool {
		o := st.clone()
		cx.ret(o, tFalse)
		ex.push(o)
		if !ex.acquire(st, arg(cx, 0), false) {
			return false
		}
		cx.ret(st, tTrue)
		return true
	})
	lockerAddr := func(v *Term) *Term {
		if v.op == "box" {
			return v.args[0]
		}
		if v.op == "select" {
			a := v.args[0]
			for a.op == "store" {
				a = a.args[0]
			}
			if a.op == "var" && a.sval == "H0:sync.Cond.L" {
				return v.args[1]
			}
		}
		return v
	}
	I("sync.Locker.Lock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.acquire(st, lockerAddr(arg(cx, 0)), false) })
	I("sync.Locker.Unlock", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.release(st, lockerAddr(arg(cx, 0)), false) })
	H("(*sync.RWMutex).RLocker", func(ex *Exec, st *State, cx *CallCtx) bool {
		ex.abort("RLocker")
		return false
	})
	H("sync.NewCond", func(ex *Exec, st *State, cx *CallCtx) bool {
		r := st.newRef()
		ex.writeLoc(st, "sync.Cond.L", []*Term{r}, arg(cx, 0))
		cx.ret(st, r)
		return true
	})
	H("(*sync.Cond).Wait", func(ex *Exec, st *State, cx *CallCtx) bool { return ex.condWait(st, arg(cx, 0)) })
	H("(*sync.Cond).Signal (*sync.Cond).Broadcast", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, nil); return true })
	H("(*sync.Once).Do", func(ex *Exec, st *State, cx *CallCtx) bool {
		done := readLoc(ex, st.heap, "#?once.done", []*Term{arg(cx, 0)}, SBool)
		f := arg(cx, 1)
		return ex.fork(st, done, func(s *State) bool { return true }, func(s *State) bool {
			ex.writeLoc(s, "#?once.done", []*Term{arg(cx, 0)}, tTrue)
			return ex.callTerm(s, f, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, func(*State, Value) {}, nil, func(*Exec, *State, Value) {}, false)
		})
	})
	// atomics
	for _, sz := range []string{"Int64", "Int32", "Uint64", "Uint32", "Uintptr"} {
		sz := sz
		var gt types.Type
		switch sz {
		case "Int64":
			gt = types.Typ[types.Int64]
		case "Int32":
			gt = types.Typ[types.Int32]
		case "Uint64":
			gt = types.Typ[types.Uint64]
		case "Uint32":
			gt = types.Typ[types.Uint32]
		default:
			gt = types.Typ[types.Uintptr]
		}
		addr := func(meth bool, a *Term) *Term {
			if meth {
				return FA("sync/atomic."+sz+".v", a)
			}
			return a
		}
		reg := func(op string, h func(ex *Exec, st *State, cx *CallCtx, a *Term, root *Term) bool) {
			handlers["sync/atomic."+op+sz] = func(ex *Exec, st *State, cx *CallCtx) bool {
				if !ex.nilCheck(st, arg(cx, 0)) {
					return false
				}
				return h(ex, st, cx, addr(false, arg(cx, 0)), arg(cx, 0))
			}
			handlers["(*sync/atomic."+sz+")."+op] = func(ex *Exec, st *State, cx *CallCtx) bool {
				return h(ex, st, cx, addr(true, arg(cx, 0)), arg(cx, 0))
			}
		}
		reg("Load", func(ex *Exec, st *State, cx *CallCtx, a, root *Term) bool {
			td := ex.interfere(st, a)
			pre := copyHeap(st.heap)
			v := ex.load(st, a, gt)
			cx.ret(st, v)
			return ex.atomicDone(st, td, a, "load", pre)
		})
		reg("Store", func(ex *Exec, st *State, cx *CallCtx, a, root *Term) bool {
			td := ex.interfere(st, a)
			pre := copyHeap(st.heap)
			ex.store(st, a, gt, cx.args[1])
			cx.ret(st, nil)
			return ex.atomicDone(st, td, a, "store", pre)
		})
		reg("Add", func(ex *Exec, st *State, cx *CallCtx, a, root *Term) bool {
			td := ex.interfere(st, a)
			pre := copyHeap(st.heap)
			v := ex.load(st, a, gt).(*Term)
			k, _ := basicKind(gt)
			nv := ex.wrap(st, Add(v, arg(cx, 1)), k)
			ex.store(st, a, gt, nv)
			cx.ret(st, nv)
			return ex.atomicDone(st, td, a, "add", pre)
		})
		reg("Swap", func(ex *Exec, st *State, cx *CallCtx, a, root *Term) bool {
			td := ex.interfere(st, a)
			pre := copyHeap(st.heap)
			v := ex.load(st, a, gt).(*Term)
			ex.store(st, a, gt, cx.args[1])
			cx.ret(st, v)
			return ex.atomicDone(st, td, a, "swap", pre)
		})
		reg("CompareAndSwap", func(ex *Exec, st *State, cx *CallCtx, a, root *Term) bool {
			td := ex.interfere(st, a)
			pre := copyHeap(st.heap)
			v := ex.load(st, a, gt).(*Term)
			return ex.fork(st, Eq(v, arg(cx, 1)), func(s *State) bool {
				ex.store(s, a, gt, cx.args[2])
				cx.ret(s, tTrue)
				return ex.atomicDone(s, td, a, "cas", pre)
			}, func(s *State) bool {
				cx.ret(s, tFalse)
				return ex.atomicDone(s, td, a, "casfail", pre)
			})
		})
	}
	// time
	H("time.Now", func(ex *Exec, st *State, cx *CallCtx) bool {
		t := ex.tick(st)
		cx.ret(st, t)
		return true
	})
	H("(time.Time).UnixNano", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, arg(cx, 0)); return true })
	H("(time.Time).Unix", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, DivF(arg(cx, 0), Int(1000000000)))
		return true
	})
	H("(time.Time).UnixMilli", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, DivF(arg(cx, 0), Int(1000000)))
		return true
	})
	sat := func(d *Term) *Term {
		k := intKind{64, true}
		return Ite(Lt(d, BigT(k.lo())), BigT(k.lo()), Ite(Lt(BigT(k.hi()), d), BigT(k.hi()), d))
	}
	satS := func(ex *Exec, st *State, d *Term) *Term {
		if ex.must(st, InRange(d, intKind{64, true})) {
			return d
		}
		return sat(d)
	}
	H("(time.Time).Sub", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, satS(ex, st, Sub(arg(cx, 0), arg(cx, 1))))
		return true
	})
	H("time.Since", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, satS(ex, st, Sub(ex.tick(st), arg(cx, 0))))
		return true
	})
	H("(time.Time).Add", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, Add(arg(cx, 0), arg(cx, 1)))
		return true
	})
	H("(time.Time).After", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, Lt(arg(cx, 1), arg(cx, 0))); return true })
	H("(time.Time).Before", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, Lt(arg(cx, 0), arg(cx, 1))); return true })
	H("(time.Time).Equal", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, Eq(arg(cx, 0), arg(cx, 1))); return true })
	H("(time.Time).IsZero", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, Eq(arg(cx, 0), Int(0))); return true })
	H("time.Unix", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, Add(Mul(arg(cx, 0), Int(1000000000)), arg(cx, 1)))
		return true
	})
	H("(time.Duration).Nanoseconds", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, arg(cx, 0)); return true })
	H("(time.Duration).Microseconds", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, DivT(arg(cx, 0), Int(1000)))
		return true
	})
	H("(time.Duration).Milliseconds", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, DivT(arg(cx, 0), Int(1000000)))
		return true
	})
	H("time.NewTimer", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, ex.newTimer(st, "time.Timer"))
		return true
	})
	H("time.NewTicker", func(ex *Exec, st *State, cx *CallCtx) bool {
		if !ex.panicIf(st, Le(arg(cx, 0), Int(0)), "non-positive interval for NewTicker") {
			return false
		}
		cx.ret(st, ex.newTimer(st, "time.Ticker"))
		return true
	})
	H("(*time.Timer).Stop (*time.Timer).Reset", func(ex *Exec, st *State, cx *CallCtx) bool {
		if !ex.nilCheck(st, arg(cx, 0)) {
			return false
		}
		cx.ret(st, st.fresh("timer", SBool))
		return true
	})
	H("(*time.Ticker).Stop", func(ex *Exec, st *State, cx *CallCtx) bool {
		return ex.nilCheck(st, arg(cx, 0))
	})
	H("time.After time.Tick", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, ex.extChan(st, "after"))
		return true
	})
	H("time.Sleep", func(ex *Exec, st *State, cx *CallCtx) bool { return true })
	H("time.AfterFunc", func(ex *Exec, st *State, cx *CallCtx) bool {
		g := &Gor{fnv: cx.args[1], name: "time.AfterFunc"}
		if !ex.event(st, &Event{kind: "go", name: g.name, args: []DV{{cx.args[0], cx.argT[0]}, {cx.args[1], nil}}}) {
			return false
		}
		st.leak(cx.args[1])
		if !ex.exploreBody(st, g) {
			return false
		}
		st.pend = append(st.pend, g)
		cx.ret(st, ex.newTimer(st, "time.Timer"))
		return true
	})
	H("github.com/modern-go/reflect2.IsNil", func(ex *Exec, st *State, cx *CallCtx) bool {
		x := arg(cx, 0)
		if x.op == "box" {
			if t := typeByKey(x.sval); t != nil {
				if _, isP := t.Underlying().(*types.Pointer); isP {
					cx.ret(st, Eq(x.args[0], Int(0)))
					return true
				}
			}
		}
		r := UF("reflect2.IsNil", SBool, x)
		st.assume(Imp(Eq(x, Int(0)), r))
		cx.ret(st, r)
		return true
	})
	// context
	H("context.Background context.TODO", func(ex *Exec, st *State, cx *CallCtx) bool {
		r := UF(cx.name, SInt)
		st.assume(Lt(Int(0), r))
		cx.ret(st, r)
		return true
	})
	mkctx := func(ex *Exec, st *State, cx *CallCtx) bool {
		r := st.newRef()
		done := ex.extChan(st, "ctxdone")
		ex.writeLoc(st, "#ctx.done", []*Term{r}, done)
		cx.ret(st, pairV(Box("*context.timerCtx", r), FA("ctx.cancel", r)))
		return true
	}
	H("context.WithTimeout context.WithCancel context.WithDeadline", mkctx)
	I("context.Context.Done", func(ex *Exec, st *State, cx *CallCtx) bool {
		r := arg(cx, 0)
		if r.op == "box" && r.sval == "*context.timerCtx" {
			cx.ret(st, readLoc(ex, st.heap, "#ctx.done", []*Term{r.args[0]}, SInt))
			return true
		}
		c := UF("ctx.Done", SInt, r)
		cx.ret(st, c)
		return true
	})
	I("context.Context.Err", func(ex *Exec, st *State, cx *CallCtx) bool {
		e := st.freshRef("ctxerr")
		st.refFact(e)
		cx.ret(st, e)
		return true
	})
	// errors and text
	H("errors.New", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, ex.newError(st, arg(cx, 0))); return true })
	H("fmt.Errorf", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, ex.newError(st, ex.sprintf(st, arg(cx, 0), cx.args[1].(*SliceV))))
		return true
	})
	H("fmt.Sprintf", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, ex.sprintf(st, arg(cx, 0), cx.args[1].(*SliceV)))
		return true
	})
	I("error.Error", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, ex.errText(st, arg(cx, 0))); return true })
	H("fmt.Println fmt.Printf fmt.Print fmt.Fprintf fmt.Fprintln fmt.Fprint", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, ex.freshResults(st, "printed", cx.sig.Results()))
		return true
	})
	H("log.Println log.Printf log.Print (*log.Logger).Printf (*log.Logger).Println (*log.Logger).Print", func(ex *Exec, st *State, cx *CallCtx) bool {
		return true
	})
	H("log.Fatal log.Fatalf log.Fatalln (*log.Logger).Fatal (*log.Logger).Fatalf (*log.Logger).Fatalln os.Exit", func(ex *Exec, st *State, cx *CallCtx) bool {
		if !ex.event(st, &Event{kind: "extern", name: cx.name, args: cx.dvs()}) {
			return false
		}
		st.exitWhy = cx.name + " at " + ex.here(st)
		st.exited = true
		st.locks = nil
		ex.exitProcess(st)
		return false
	})
	// strings
	H("strings.Count", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, sep := arg(cx, 0), arg(cx, 1)
		if s.isStr() && sep.isStr() {
			cx.ret(st, Int(int64(strings.Count(s.sval, sep.sval))))
			return true
		}
		if sep.isStr() && sep.sval != "" {
			ex.splitFacts(st, s, sep)
			n := UF("split.n", SInt, s, sep)
			st.assume(Le(Int(1), n))
			st.assume(Le(n, Add(StrLen(s), Int(1))))
			cx.ret(st, Sub(n, Int(1)))
			return true
		}
		n := UF("strings.Count", SInt, s, sep)
		st.assume(Le(Int(0), n))
		st.assume(Le(n, Add(StrLen(s), Int(1))))
		cx.ret(st, n)
		return true
	})
	H("strings.Contains", func(ex *Exec, st *State, cx *CallCtx) bool { ex.splitFacts(st, arg(cx, 0), arg(cx, 1)); cx.ret(st, Contains(arg(cx, 0), arg(cx, 1))); return true })
	H("strings.HasPrefix", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, PrefixOf(arg(cx, 1), arg(cx, 0))); return true })
	H("strings.HasSuffix", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, SuffixOf(arg(cx, 1), arg(cx, 0))); return true })
	H("strings.Index", func(ex *Exec, st *State, cx *CallCtx) bool {
		ex.splitFacts(st, arg(cx, 0), arg(cx, 1))
		cx.ret(st, IndexOf(arg(cx, 0), arg(cx, 1), Int(0)))
		return true
	})
	H("strings.IndexByte", func(ex *Exec, st *State, cx *CallCtx) bool {
		ex.splitFacts(st, arg(cx, 0), FromCode(arg(cx, 1)))
		cx.ret(st, IndexOf(arg(cx, 0), FromCode(arg(cx, 1)), Int(0)))
		return true
	})
	H("crypto/subtle.ConstantTimeCompare", func(ex *Exec, st *State, cx *CallCtx) bool {
		a, ok1 := cx.args[0].(*Term)
		b, ok2 := cx.args[1].(*Term)
		if !ok1 || !ok2 {
			cx.ret(st, UF("subtle.cmp", SInt, append(ex.sliceTerms(st, cx.args[0].(*SliceV)), ex.sliceTerms(st, cx.args[1].(*SliceV))...)...))
			return true
		}
		cx.ret(st, Ite(Eq(a, b), Int(1), Int(0)))
		return true
	})
	H("strings.TrimPrefix", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, p := arg(cx, 0), arg(cx, 1)
		cx.ret(st, Ite(PrefixOf(p, s), Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s))
		return true
	})
	H("strings.TrimSuffix", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, p := arg(cx, 0), arg(cx, 1)
		cx.ret(st, Ite(SuffixOf(p, s), Substr(s, Int(0), Sub(StrLen(s), StrLen(p))), s))
		return true
	})
	H("strings.TrimRight", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, c := arg(cx, 0), arg(cx, 1)
		r := UF("strings.TrimRight", SStr, s, c)
		if c.isStr() && len(c.sval) == 1 {
			st.assume(PrefixOf(r, s))
			st.assume(Not(SuffixOf(c, r)))
			// what does not end in the trimmed byte stays
			w := BVar("trim.w", SStr)
			st.assume(Forall([]*Term{w}, Imp(And(Contains(s, w), Not(SuffixOf(c, w))), Contains(r, w))))
			st.assume(Forall([]*Term{w}, Imp(And(PrefixOf(w, s), Not(SuffixOf(c, w))), PrefixOf(w, r))))
		}
		cx.ret(st, r)
		return true
	})
	strSlice := func(ex *Exec, st *State, parts []*Term) *SliceV {
		r := st.newRef()
		for i, p := range parts {
			ex.writeLoc(st, "E$string", []*Term{r, Int(int64(i))}, p)
		}
		return &SliceV{r, Int(0), Int(int64(len(parts))), types.Typ[types.String]}
	}
	cut2 := func(s, sep *Term) (*Term, *Term) {
		i := IndexOf(s, sep, Int(0))
		return Substr(s, Int(0), i), Substr(s, Add(i, StrLen(sep)), Sub(StrLen(s), Add(i, StrLen(sep))))
	}
	H("strings.Cut", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, sep := arg(cx, 0), arg(cx, 1)
		ex.splitFacts(st, s, sep)
		return ex.fork(st, Contains(s, sep), func(t *State) bool {
			a, b := cut2(s, sep)
			cx.ret(t, &StructV{[]Value{a, b, tTrue}})
			return true
		}, func(t *State) bool {
			cx.ret(t, &StructV{[]Value{s, Str(""), tFalse}})
			return true
		})
	})
	H("strings.SplitN", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, sep, n := arg(cx, 0), arg(cx, 1), arg(cx, 2)
		if n.isInt() && n.ival.Cmp(big.NewInt(2)) == 0 && sep.isStr() && sep.sval != "" {
			ex.splitFacts(st, s, sep)
			return ex.fork(st, Contains(s, sep), func(t *State) bool {
				a, b := cut2(s, sep)
				cx.ret(t, strSlice(ex, t, []*Term{a, b}))
				return true
			}, func(t *State) bool {
				cx.ret(t, strSlice(ex, t, []*Term{s}))
				return true
			})
		}
		return ex.splitStr(st, cx, s, sep, UF("splitn", SInt, s, sep, n))
	})
	H("strings.Split", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, sep := arg(cx, 0), arg(cx, 1)
		return ex.splitStr(st, cx, s, sep, UF("split", SInt, s, sep))
	})
	H("strings.Join", func(ex *Exec, st *State, cx *CallCtx) bool {
		sl := cx.args[0].(*SliceV)
		if sl.n.isInt() && sl.n.ival.Int64() <= 16 {
			var ps []*Term
			for i := int64(0); i < sl.n.ival.Int64(); i++ {
				if i > 0 {
					ps = append(ps, arg(cx, 1))
				}
				ps = append(ps, ex.load(st, IA(typeKey(sl.elem), sl.ref, Add(sl.off, Int(i))), sl.elem).(*Term))
			}
			cx.ret(st, Concat(ps...))
			return true
		}
		r := UF("strings.Join", SStr, append(ex.sliceTerms(st, sl), arg(cx, 1))...)
		// it holds every element
		j := BVar("join.j", SInt)
		st.assume(Forall([]*Term{j}, Imp(And(Le(Int(0), j), Lt(j, sl.n)), Contains(r, ex.load(st, IA(typeKey(sl.elem), sl.ref, Add(sl.off, j)), sl.elem).(*Term)))))
		cx.ret(st, r)
		return true
	})
	H("strconv.Itoa", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, itoaT(arg(cx, 0))); return true })
	H("strconv.FormatInt", func(ex *Exec, st *State, cx *CallCtx) bool {
		if b := arg(cx, 1); b.isInt() && b.ival.Int64() == 10 {
			cx.ret(st, itoaT(arg(cx, 0)))
		} else {
			cx.ret(st, UF("strconv.FormatInt", SStr, arg(cx, 0), arg(cx, 1)))
		}
		return true
	})
	H("strconv.FormatBool", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, Ite(arg(cx, 0), Str("true"), Str("false")))
		return true
	})
	// strings.Builder and bytes.Buffer: one string per object
	for _, ty := range []string{"strings.Builder", "bytes.Buffer"} {
		key := "#" + ty
		app := func(f func(ex *Exec, st *State, cx *CallCtx) *Term) handler {
			return func(ex *Exec, st *State, cx *CallCtx) bool {
				a := arg(cx, 0)
				if !ex.nilCheck(st, a) {
					return false
				}
				ex.writeLoc(st, key, []*Term{a}, Concat(readLoc(ex, st.heap, key, []*Term{a}, SStr), f(ex, st, cx)))
				switch cx.sig.Results().Len() {
				case 1:
					cx.ret(st, Int(0))
				case 2:
					cx.ret(st, pairV(st.fresh("n", SInt), Int(0)))
				}
				return true
			}
		}
		handlers["(*"+ty+").WriteString"] = app(func(ex *Exec, st *State, cx *CallCtx) *Term { return arg(cx, 1) })
		handlers["(*"+ty+").Write"] = handlers["(*"+ty+").WriteString"]
		handlers["(*"+ty+").WriteByte"] = app(func(ex *Exec, st *State, cx *CallCtx) *Term { return FromCode(arg(cx, 1)) })
		handlers["(*"+ty+").WriteRune"] = app(func(ex *Exec, st *State, cx *CallCtx) *Term {
			r := arg(cx, 1)
			return Ite(And(Le(Int(0), r), Lt(r, Int(128))), FromCode(r), UF("utf8enc", SStr, r))
		})
		get := func(ex *Exec, st *State, cx *CallCtx) bool {
			cx.ret(st, readLoc(ex, st.heap, key, []*Term{arg(cx, 0)}, SStr))
			return true
		}
		handlers["(*"+ty+").String"] = get
		handlers["(*"+ty+").Bytes"] = get
		handlers["(*"+ty+").Len"] = func(ex *Exec, st *State, cx *CallCtx) bool {
			cx.ret(st, StrLen(readLoc(ex, st.heap, key, []*Term{arg(cx, 0)}, SStr)))
			return true
		}
		handlers["(*"+ty+").Reset"] = func(ex *Exec, st *State, cx *CallCtx) bool {
			ex.writeLoc(st, key, []*Term{arg(cx, 0)}, Str(""))
			return true
		}
		handlers["(*"+ty+").Grow"] = func(ex *Exec, st *State, cx *CallCtx) bool { return true }
	}
	// container/list
	H("container/list.New", func(ex *Exec, st *State, cx *CallCtx) bool {
		r := st.newRef()
		ex.writeLoc(st, "#?list.lo", []*Term{r}, Int(0))
		ex.writeLoc(st, "#?list.hi", []*Term{r}, Int(0))
		cx.ret(st, r)
		return true
	})
	L := func(name string, write bool, h func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool) {
		handlers["(*container/list.List)."+name] = func(ex *Exec, st *State, cx *CallCtx) bool {
			l := arg(cx, 0)
			if !ex.nilCheck(st, l) {
				return false
			}
			ex.guardContent(st, l, write, "list")
			listFact(ex, st, l)
			return h(ex, st, cx, l, listLo(ex, st.heap, l), listHi(ex, st.heap, l))
		}
	}
	L("Len", false, func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool { cx.ret(st, Sub(hi, lo)); return true })
	L("Init", true, func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
		ex.writeLoc(st, "#?list.lo", []*Term{l}, Int(0))
		ex.writeLoc(st, "#?list.hi", []*Term{l}, Int(0))
		cx.ret(st, l)
		return true
	})
	end := func(pos func(lo, hi *Term) *Term) func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
		return func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
			return ex.fork(st, Lt(lo, hi), func(s *State) bool {
				cx.ret(s, IA("list.elem", l, pos(lo, hi)))
				return true
			}, func(s *State) bool { cx.ret(s, Int(0)); return true })
		}
	}
	L("Front", false, end(func(lo, hi *Term) *Term { return lo }))
	L("Back", false, end(func(lo, hi *Term) *Term { return Sub(hi, Int(1)) }))
	L("PushBack", true, func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
		ex.writeLoc(st, "E$list.elem.Value", []*Term{l, hi}, arg(cx, 1))
		ex.writeLoc(st, "#?list.hi", []*Term{l}, Add(hi, Int(1)))
		cx.ret(st, IA("list.elem", l, hi))
		return true
	})
	L("PushFront", true, func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
		p := Sub(lo, Int(1))
		ex.writeLoc(st, "E$list.elem.Value", []*Term{l, p}, arg(cx, 1))
		ex.writeLoc(st, "#?list.lo", []*Term{l}, p)
		cx.ret(st, IA("list.elem", l, p))
		return true
	})
	L("Remove", true, func(ex *Exec, st *State, cx *CallCtx, l, lo, hi *Term) bool {
		e := arg(cx, 1)
		if e.op != "ia" || e.sval != "list.elem" || e.args[0] != l {
			if !ex.nilCheck(st, e) {
				return false
			}
			ex.abort("list.Remove of an unknown element at %s", ex.here(st))
			return false
		}
		p := e.args[1]
		v := readLoc(ex, st.heap, "E$list.elem.Value", []*Term{l, p}, SInt)
		return ex.fork(st, Eq(p, lo), func(s *State) bool {
			ex.writeLoc(s, "#?list.lo", []*Term{l}, Ite(Lt(lo, hi), Add(lo, Int(1)), lo))
			cx.ret(s, v)
			return true
		}, func(s *State) bool {
			return ex.fork(s, Eq(p, Sub(hi, Int(1))), func(s *State) bool {
				ex.writeLoc(s, "#?list.hi", []*Term{l}, Sub(hi, Int(1)))
				cx.ret(s, v)
				return true
			}, func(s *State) bool {
				// close the gap
				row := Select(heapIn(ex, s.heap, "E$list.elem.Value", arrSort(2, SInt)), l)
				nr := s.fresh("list.vals", SArr(SInt, SInt))
				born[nr] = s.herePos()
				k := BVar("k", SInt)
				s.assume(Forall([]*Term{k}, Eq(Select(nr, k), Ite(And(Le(p, k), Lt(k, Sub(hi, Int(1)))), Select(row, Add(k, Int(1))), Select(row, k)))))
				ex.writeRow(s, "E$list.elem.Value", l, nr)
				ex.writeLoc(s, "#?list.hi", []*Term{l}, Sub(hi, Int(1)))
				cx.ret(s, v)
				return true
			})
		})
	})
	step := func(d int64) handler {
		return func(ex *Exec, st *State, cx *CallCtx) bool {
			e := arg(cx, 0)
			if e.op != "ia" || e.sval != "list.elem" {
				if !ex.nilCheck(st, e) {
					return false
				}
				// element kept across a loop: its list is unknown
				ex.abort("list element of unknown list at %s", ex.here(st))
				return false
			}
			l := e.args[0]
			ex.guardContent(st, l, false, "list")
			p := Add(e.args[1], Int(d))
			lo, hi := listLo(ex, st.heap, l), listHi(ex, st.heap, l)
			return ex.fork(st, And(Le(lo, p), Lt(p, hi)), func(s *State) bool {
				cx.ret(s, IA("list.elem", l, p))
				return true
			}, func(s *State) bool { cx.ret(s, Int(0)); return true })
		}
	}
	H("(*container/list.Element).Next", step(1))
	H("(*container/list.Element).Prev", step(-1))
}

// splitStr: result of strings.Split as an uninterpreted sequence
// splitFacts: how the pieces of s between separators relate to the first separator in it
// (assumed where the contract speaks of the pieces and the code cuts the text in another way)
func (ex *Exec) splitFacts(st *State, s, sep *Term) {
	if !ex.D.usesSplit || !sep.isStr() || sep.sval == "" || s.isStr() {
		return
	}
	n := UF("split.n", SInt, s, sep)
	row := mk("uf", SArr(SInt, SStr), "split.row", nil, s, sep)
	i := IndexOf(s, sep, Int(0))
	k := Int(int64(len(sep.sval)))
	rest := Substr(s, Add(i, k), Sub(StrLen(s), Add(i, k)))
	has := Contains(s, sep)
	st.assume(Le(Int(1), n))
	st.assume(Eq(has, Le(Int(2), n)))
	st.assume(Imp(Not(has), Eq(Select(row, Int(0)), s)))
	st.assume(Imp(has, Eq(Select(row, Int(0)), Substr(s, Int(0), i))))
	st.assume(Imp(has, And(Le(Int(0), i), Le(Add(i, k), StrLen(s)))))
	st.assume(Imp(has, Eq(Eq(n, Int(2)), Not(Contains(rest, sep)))))
	st.assume(Imp(And(has, Eq(n, Int(2))), Eq(Select(row, Int(1)), rest)))
}

func (ex *Exec) splitStr(st *State, cx *CallCtx, s, sep, id *Term) bool {
	if s.isStr() && sep.isStr() {
		r := st.newRef()
		ps := strings.Split(s.sval, sep.sval)
		if id.sval == "split" {
			for i, p := range ps {
				ex.writeLoc(st, "E$string", []*Term{r, Int(int64(i))}, Str(p))
			}
			cx.ret(st, &SliceV{r, Int(0), Int(int64(len(ps))), types.Typ[types.String]})
			return true
		}
	}
	r := st.newRef()
	row := mk("uf", SArr(SInt, SStr), id.sval+".row", nil, id.args...)
	ex.writeRow(st, "E$string", r, row)
	n := UF(id.sval+".n", SInt, id.args...)
	st.assume(Le(Int(1), n))
	st.assume(Le(n, Add(StrLen(s), Int(1))))
	st.assume(Le(n, BigT(intKind{64, true}.hi())))
	cx.ret(st, &SliceV{r, Int(0), n, types.Typ[types.String]})
	return true
}

// tick: a clock reading; the clock does not go back
func (ex *Exec) tick(st *State) *Term {
	c := ex.ghostGlobal(st, "clk")
	t := st.fresh("now", SInt)
	st.assume(InRange(t, intKind{64, true}))
	st.assume(Le(c, t))
	ex.writeLoc(st, "#?G.clk", nil, t)
	return t
}

// extChan: a channel owned by the runtime
func (ex *Exec) extChan(st *State, hint string) *Term {
	c := st.fresh(hint, SInt)
	st.assume(Lt(Int(0), c))
	born[c] = st.herePos()
	return c
}

func (ex *Exec) newTimer(st *State, ty string) *Term {
	r := st.newRef()
	c := ex.extChan(st, "tick")
	ex.writeLoc(st, ty+".C", []*Term{r}, c)
	keyRef[ty+".C"] = true
	return r
}

var _ = fmt.Sprint
var _ = ssa.NaiveForm
