package main

import (
	"fmt"
	"regexp/syntax"
)

// More assumed contracts of the standard library: number parsing and regular expressions.

// rx: a regular expression of the shape fixed classes, at most one repeated class, fixed classes
type rxSeq struct {
	pre, post []*rxClass
	star      *rxClass
	min       int // of star
}

type rxClass struct{ lo, hi []int }

func (c *rxClass) holds(b *Term) *Term {
	var ds []*Term
	for i := range c.lo {
		if c.lo[i] == c.hi[i] {
			ds = append(ds, Eq(b, Int(int64(c.lo[i]))))
		} else {
			ds = append(ds, And(Le(Int(int64(c.lo[i])), b), Le(b, Int(int64(c.hi[i])))))
		}
	}
	return Or(ds...)
}

const rxMax = 40

// rxShapes: the alternatives of re, nil when it does not have the shape
func rxShapes(re *syntax.Regexp) ([]rxSeq, bool) {
	one := func(c *rxClass) []rxSeq { return []rxSeq{{pre: []*rxClass{c}}} }
	switch re.Op {
	case syntax.OpEmptyMatch:
		return []rxSeq{{}}, true
	case syntax.OpLiteral:
		s := rxSeq{}
		for _, r := range re.Rune {
			if r >= 128 {
				return nil, false
			}
			c := &rxClass{[]int{int(r)}, []int{int(r)}}
			if re.Flags&syntax.FoldCase != 0 {
				switch {
				case r == 'k' || r == 'K' || r == 's' || r == 'S':
					return nil, false // non-ASCII fold partners
				case 'a' <= r && r <= 'z':
					c = &rxClass{[]int{int(r), int(r) - 32}, []int{int(r), int(r) - 32}}
				case 'A' <= r && r <= 'Z':
					c = &rxClass{[]int{int(r), int(r) + 32}, []int{int(r), int(r) + 32}}
				}
			}
			s.pre = append(s.pre, c)
		}
		return []rxSeq{s}, true
	case syntax.OpCharClass:
		c := &rxClass{}
		for i := 0; i < len(re.Rune); i += 2 {
			if re.Rune[i+1] >= 128 {
				return nil, false
			}
			c.lo, c.hi = append(c.lo, int(re.Rune[i])), append(c.hi, int(re.Rune[i+1]))
		}
		return one(c), true
	case syntax.OpCapture:
		return rxShapes(re.Sub[0])
	case syntax.OpConcat:
		out := []rxSeq{{}}
		for _, s := range re.Sub {
			b, ok := rxShapes(s)
			if !ok {
				return nil, false
			}
			if out, ok = rxCat(out, b); !ok {
				return nil, false
			}
		}
		return out, true
	case syntax.OpAlternate:
		var out []rxSeq
		for _, s := range re.Sub {
			b, ok := rxShapes(s)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, len(out) <= rxMax
	case syntax.OpQuest:
		b, ok := rxShapes(re.Sub[0])
		return append([]rxSeq{{}}, b...), ok
	case syntax.OpRepeat, syntax.OpStar, syntax.OpPlus:
		b, ok := rxShapes(re.Sub[0])
		if !ok {
			return nil, false
		}
		min, max := re.Min, re.Max
		if re.Op == syntax.OpStar {
			min, max = 0, -1
		}
		if re.Op == syntax.OpPlus {
			min, max = 1, -1
		}
		if max < 0 {
			if len(b) != 1 || b[0].star != nil || len(b[0].pre) != 1 {
				return nil, false
			}
			return []rxSeq{{star: b[0].pre[0], min: min}}, true
		}
		cur := []rxSeq{{}}
		var out []rxSeq
		for i := 0; i <= max; i++ {
			if i >= min {
				out = append(out, cur...)
			}
			if len(out) > rxMax {
				return nil, false
			}
			if i < max {
				if cur, ok = rxCat(cur, b); !ok {
					return nil, false
				}
			}
		}
		return out, true
	}
	return nil, false
}

func rxCat(a, b []rxSeq) ([]rxSeq, bool) {
	var out []rxSeq
	for _, x := range a {
		for _, y := range b {
			if x.star != nil && y.star != nil {
				return nil, false
			}
			z := rxSeq{pre: append([]*rxClass{}, x.pre...), post: append([]*rxClass{}, x.post...), star: x.star, min: x.min}
			if x.star != nil {
				z.post = append(z.post, y.pre...)
			} else {
				z.pre = append(z.pre, y.pre...)
				z.star, z.min, z.post = y.star, y.min, append([]*rxClass{}, y.post...)
			}
			out = append(out, z)
		}
	}
	return out, len(out) <= rxMax
}

// rxMatch: s matches the pattern; false when the pattern is outside the supported shapes
func rxMatch(pat string, s *Term) (*Term, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return tFalse, true
	}
	re = re.Simplify()
	if r2, err := syntax.Parse(pat, syntax.Perl); err == nil {
		re = r2 // keep counted repetitions
	}
	begin, end := false, false
	subs := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		subs = re.Sub
	}
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin, subs = true, subs[1:]
	}
	if n := len(subs); n > 0 && subs[n-1].Op == syntax.OpEndText {
		end, subs = true, subs[:n-1]
	}
	alts := []rxSeq{{}}
	for _, x := range subs {
		b, ok := rxShapes(x)
		if !ok {
			return nil, false
		}
		if alts, ok = rxCat(alts, b); !ok {
			return nil, false
		}
	}
	n := StrLen(s)
	at := func(i *Term) *Term { return ToCode(StrAt(s, i)) }
	match := func(a rxSeq, off *Term) *Term {
		var cs []*Term
		fix := int64(len(a.pre) + len(a.post))
		for i, c := range a.pre {
			cs = append(cs, c.holds(at(Add(off, Int(int64(i))))))
		}
		if a.star == nil {
			if end {
				cs = append(cs, Eq(n, Add(off, Int(fix))))
			} else {
				cs = append(cs, Le(Add(off, Int(fix)), n))
			}
			return And(cs...)
		}
		body := func(stop *Term) []*Term {
			k := BVar("k", SInt)
			var ds []*Term
			ds = append(ds, Forall([]*Term{k}, Imp(And(Le(Add(off, Int(int64(len(a.pre)))), k), Lt(k, stop)), a.star.holds(at(k)))))
			for i, c := range a.post {
				ds = append(ds, c.holds(at(Add(stop, Int(int64(i))))))
			}
			return ds
		}
		if end {
			cs = append(cs, Le(Add(off, Int(fix+int64(a.min))), n))
			cs = append(cs, body(Sub(n, Int(int64(len(a.post)))))...)
			return And(cs...)
		}
		if len(a.post) == 0 {
			// the shortest repetition will do
			cs = append(cs, Le(Add(off, Int(fix+int64(a.min))), n))
			for i := 0; i < a.min; i++ {
				cs = append(cs, a.star.holds(at(Add(off, Int(int64(len(a.pre)+i))))))
			}
			return And(cs...)
		}
		return nil
	}
	var ds []*Term
	for _, a := range alts {
		if begin {
			m := match(a, Int(0))
			if m == nil {
				return nil, false
			}
			ds = append(ds, m)
			continue
		}
		o := BVar("o", SInt)
		m := match(a, o)
		if m == nil {
			return nil, false
		}
		ds = append(ds, Not(Forall([]*Term{o}, Not(And(Le(Int(0), o), Le(o, n), m)))))
	}
	return Or(ds...), true
}

func init() {
	H := func(n string, h handler) { handlers[n] = h }
	errOf := func(st *State, name string, ok *Term, args ...*Term) *Term {
		e := UF(name, SInt, args...)
		st.assume(Eq(ok, Eq(e, Int(0))))
		return e
	}
	atoi := func(ex *Exec, st *State, s *Term) Value {
		v, e := UF("strconv.Atoi#0", SInt, s), UF("strconv.Atoi#1", SInt, s)
		st.assume(InRange(v, intKind{64, true}))
		st.assume(Le(Int(0), e))
		return pairV(v, e)
	}
	H("strconv.Atoi", func(ex *Exec, st *State, cx *CallCtx) bool { cx.ret(st, atoi(ex, st, arg(cx, 0))); return true })
	H("strconv.ParseInt", func(ex *Exec, st *State, cx *CallCtx) bool {
		s, b, w := arg(cx, 0), arg(cx, 1), arg(cx, 2)
		if b == Int(10) && (w == Int(0) || w == Int(64)) {
			cx.ret(st, atoi(ex, st, s))
			return true
		}
		v, e := UF("strconv.ParseInt#0", SInt, s, b, w), UF("strconv.ParseInt#1", SInt, s, b, w)
		bits := 64
		if w.isInt() && w.ival.IsInt64() && w.ival.Int64() > 0 && w.ival.Int64() <= 64 {
			bits = int(w.ival.Int64())
		}
		st.assume(InRange(v, intKind{bits, true}))
		st.assume(Le(Int(0), e))
		if b == Int(10) {
			// a narrower parse accepts what the wide one accepts and fits
			a := UF("strconv.Atoi#0", SInt, s)
			ok := And(Eq(UF("strconv.Atoi#1", SInt, s), Int(0)), InRange(a, intKind{bits, true}))
			st.assume(Eq(ok, Eq(e, Int(0))))
			st.assume(Imp(ok, Eq(v, a)))
		}
		cx.ret(st, pairV(v, e))
		return true
	})
	H("strconv.ParseBool", func(ex *Exec, st *State, cx *CallCtx) bool {
		s := arg(cx, 0)
		in := func(ws ...string) *Term {
			var ds []*Term
			for _, w := range ws {
				ds = append(ds, Eq(s, Str(w)))
			}
			return Or(ds...)
		}
		t, f := in("1", "t", "T", "TRUE", "true", "True"), in("0", "f", "F", "FALSE", "false", "False")
		cx.ret(st, pairV(t, errOf(st, "strconv.ParseBool#1", Or(t, f), s)))
		return true
	})
	// regular expressions
	match := func(ex *Exec, st *State, pat, s *Term) *Term {
		if pat.isStr() {
			if m, ok := rxMatch(pat.sval, s); ok {
				return m
			}
		}
		st.imprecise(fmt.Sprintf("regular expression %s", pat))
		return UF("regexp.Match", SBool, pat, s)
	}
	H("regexp.MatchString", func(ex *Exec, st *State, cx *CallCtx) bool {
		p, s := arg(cx, 0), arg(cx, 1)
		m := match(ex, st, p, s)
		e := UF("regexp.MatchString#1", SInt, p)
		if p.isStr() {
			if _, err := syntax.Parse(p.sval, syntax.Perl); err == nil {
				e = Int(0)
			} else {
				st.assume(Lt(Int(0), e))
				m = tFalse
			}
		}
		cx.ret(st, pairV(m, e))
		return true
	})
	H("regexp.MustCompile", func(ex *Exec, st *State, cx *CallCtx) bool {
		cx.ret(st, mk("box", SInt, "*regexp.Regexp", nil, arg(cx, 0)))
		return true
	})
	H("(*regexp.Regexp).MatchString", func(ex *Exec, st *State, cx *CallCtx) bool {
		r := arg(cx, 0)
		if r.op == "box" && r.sval == "*regexp.Regexp" {
			cx.ret(st, match(ex, st, r.args[0], arg(cx, 1)))
			return true
		}
		st.imprecise("regular expression")
		cx.ret(st, UF("(*regexp.Regexp).MatchString", SBool, r, arg(cx, 1)))
		return true
	})
}
