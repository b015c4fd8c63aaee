package main

// A second encoding of queries about strings, without the solvers' theory of strings: string
// operations become uninterpreted functions with instances of some of their laws. Every such
// instance holds of real strings, so a query that is unsatisfiable under this encoding is
// unsatisfiable; a model of it means nothing.

import (
	"fmt"
	"strings"
)

type strAbs struct {
	memo map[*Term]*Term
	used bool
	ax   []*Term
	done map[*Term]bool
	boundCat bool
	needContains, needPrefix bool
}

func sLen(x *Term) *Term     { return UF("s.len", SInt, x) }
func sByte(x, i *Term) *Term { return UF("s.byte", SInt, x, i) }

func (sa *strAbs) rw(t *Term) *Term {
	if r, ok := sa.memo[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		sa.memo[t] = t
		if t.isStr() {
			sa.lit(t)
		}
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = sa.rw(a)
		if args[i] != a {
			same = false
		}
	}
	var r *Term
	switch {
	case t.op == "str.++":
		sa.used = true
		r = args[0]
		for _, a := range args[1:] {
			r = sa.cat(r, a)
		}
	case t.op == "str.len":
		sa.used = true
		r = sLen(args[0])
		sa.str(args[0])
	case t.op == "str.to_code":
		sa.used = true
		if args[0].op == "uf" && args[0].sval == "s.at" {
			r = sByte(args[0].args[0], args[0].args[1])
			sa.byteRange(args[0].args[0], args[0].args[1])
		} else {
			r = UF("s.code", SInt, args[0])
		}
	case t.op == "str.at":
		sa.used = true
		r = UF("s.at", SStr, args...)
		sa.str(args[0])
	case t.op == "str.from_code":
		sa.used = true
		r = UF("s.chr", SStr, args...)
		if !r.bound && !sa.done[r] {
			sa.done[r] = true
			in := And(Le(Int(0), args[0]), Le(args[0], Int(255)))
			sa.ax = append(sa.ax, Imp(in, And(Eq(sLen(r), Int(1)), Eq(sByte(r, Int(0)), args[0]))))
		}
	case t.op == "str.contains" || t.op == "str.prefixof" || t.op == "str.suffixof":
		sa.used = true
		r = UF("s."+t.op, SBool, args...)
		sa.parts(t, r)
	case strings.HasPrefix(t.op, "str.") || strings.HasPrefix(t.op, "int.") || strings.HasPrefix(t.op, "re."):
		sa.used = true
		r = UF("s."+t.op+t.sval, t.sort, args...)
	case same:
		r = t
	case t.op == "forall":
		r = Forall(args[:len(args)-1], args[len(args)-1])
	default:
		r = mk(t.op, t.sort, t.sval, t.ival, args...)
	}
	if r.sort == SStr && !r.bound && r.op == "var" {
		sa.str(r)
	}
	sa.memo[t] = r
	return r
}

// parts: a concatenation contains (starts with) what a run of its parts is equal to
func (sa *strAbs) parts(t, r *Term) {
	if r.bound || sa.done[r] {
		return
	}
	sa.done[r] = true
	var hay, pin *Term
	switch t.op {
	case "str.contains":
		hay, pin = t.args[0], t.args[1]
		sa.needContains = true
	case "str.prefixof":
		hay, pin = t.args[1], t.args[0]
		sa.needPrefix = true
	default:
		return
	}
	hs, ps := strParts(hay), strParts(pin)
	for i := 0; i+len(ps) <= len(hs) && len(ps) > 0; i++ {
		if i > 0 && t.op == "str.prefixof" {
			break
		}
		var eqs []*Term
		for k := range ps {
			eqs = append(eqs, Eq(sa.rw(hs[i+k]), sa.rw(ps[k])))
		}
		sa.ax = append(sa.ax, Imp(And(eqs...), r))
	}
	// a part that contains it will do
	if len(hs) > 1 {
		for i, h := range hs {
			if i > 0 && t.op == "str.prefixof" {
				break
			}
			if h.isStr() && !pin.isStr() {
				continue
			}
			var x *Term
			if t.op == "str.contains" {
				x = Contains(h, pin)
			} else {
				x = PrefixOf(pin, h)
			}
			sa.ax = append(sa.ax, Imp(sa.rw(x), r))
		}
	}
}

// str: laws of the length of a ground string
func (sa *strAbs) str(x *Term) {
	if x.bound || x.isStr() || sa.done[x] {
		return
	}
	sa.done[x] = true
	if x.op == "var" || x.op == "select" {
		sa.ax = append(sa.ax, Le(sLen(x), BigT(intKind{64, true}.hi())))
	}
	sa.ax = append(sa.ax, Le(Int(0), sLen(x)), mk("or", SBool, "", nil, mk("not", SBool, "", nil, Eq(sLen(x), Int(0))), Eq(x, Str(""))))
	sa.lit(Str(""))
}

func (sa *strAbs) lit(x *Term) {
	if sa.done[x] {
		return
	}
	sa.done[x] = true
	sa.ax = append(sa.ax, Eq(sLen(x), Int(int64(len(x.sval)))))
	for i := 0; i < len(x.sval) && i < 16; i++ {
		sa.ax = append(sa.ax, Eq(sByte(x, Int(int64(i))), Int(int64(x.sval[i]))))
	}
}

func (sa *strAbs) byteRange(x, i *Term) {
	b := sByte(x, i)
	if b.bound || sa.done[b] {
		return
	}
	sa.done[b] = true
	sa.ax = append(sa.ax, Le(b, Int(255)), Imp(And(Le(Int(0), i), Lt(i, sLen(x))), Le(Int(0), b)))
}

func (sa *strAbs) cat(a, b *Term) *Term {
	r := UF("s.cat", SStr, a, b)
	if r.bound {
		sa.boundCat = true
		return r
	}
	if sa.done[r] {
		return r
	}
	sa.str(a)
	sa.str(b)
	sa.str(r)
	sa.lit(Str(""))
	sa.done[r] = true
	sa.ax = append(sa.ax,
		Eq(sLen(r), Add(sLen(a), sLen(b))),
		Imp(Eq(a, Str("")), Eq(r, b)),
		Imp(Eq(b, Str("")), Eq(r, a)))
	k := BVar(fmt.Sprintf("s.k%d", r.id), SInt)
	at := sByte(r, k)
	sa.ax = append(sa.ax, Forall([]*Term{k}, And(
		Imp(Lt(k, sLen(a)), Eq(at, sByte(a, k))),
		Imp(Le(sLen(a), k), Eq(at, sByte(b, Sub(k, sLen(a))))))))
	return r
}

// abstractStrings returns the second encoding, nil when the assertions use no string operation
func abstractStrings(as []*Term) []*Term {
	sa := &strAbs{memo: map[*Term]*Term{}, done: map[*Term]bool{}}
	out := make([]*Term, 0, len(as))
	for _, a := range as {
		out = append(out, sa.rw(a))
	}
	if !sa.used {
		return nil
	}
	if sa.boundCat {
		x := BVar("s.x", SStr)
		e := Str("")
		sa.lit(e)
		sa.ax = append(sa.ax, Forall([]*Term{x}, Eq(UF("s.cat", SStr, x, e), x)), Forall([]*Term{x}, Eq(UF("s.cat", SStr, e, x), x)))
	}
	return append(out, sa.ax...)
}

