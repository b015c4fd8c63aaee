package main

// Hash-consed SMT terms with a simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
	SReal Sort = "Real"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splitArr returns key and value sort of an array sort
func splitArr(s Sort) (Sort, Sort) {
	body := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	op   string
	args []*Term
	sort Sort
	ival *big.Int
	sval string
	id   int
	// bound: contains bound variables
	bound bool
}

type termTab struct {
	mu  sync.Mutex
	tab map[string]*Term
	n   int
}

var T = &termTab{tab: map[string]*Term{}}

func mk(op string, sort Sort, sval string, ival *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	sb.WriteByte('|')
	sb.WriteString(sval)
	if ival != nil {
		sb.WriteByte('#')
		sb.WriteString(ival.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	T.mu.Lock()
	defer T.mu.Unlock()
	if t, ok := T.tab[k]; ok {
		return t
	}
	T.n++
	t := &Term{op: op, sort: sort, sval: sval, ival: ival, args: args, id: T.n}
	if op == "bvar" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	T.tab[k] = t
	return t
}

var (
	tTrue  = mk("true", SBool, "", nil)
	tFalse = mk("false", SBool, "", nil)
)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func Int(i int64) *Term      { return mk("int", SInt, "", big.NewInt(i)) }
func BigT(i *big.Int) *Term  { return mk("int", SInt, "", i) }
func Str(s string) *Term     { return mk("str", SStr, s, nil) }
func Var(n string, s Sort) *Term {
	return mk("var", s, n, nil)
}
func BVar(n string, s Sort) *Term { return mk("bvar", s, n, nil) }
func UF(n string, s Sort, args ...*Term) *Term {
	return mk("uf", s, n, nil, args...)
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isStr() bool   { return t.op == "str" }
func (t *Term) isConst() bool { return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false" }

// ---- boolean

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<":
		return Le(a.args[1], a.args[0])
	case "<=":
		return Lt(a.args[1], a.args[0])
	}
	return mk("not", SBool, "", nil, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tTrue || seen[x] {
			return true
		}
		if x == tFalse || seen[Not(x)] {
			return false
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, "", nil, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tFalse || seen[x] {
			return true
		}
		if x == tTrue || seen[Not(x)] {
			return false
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, "", nil, out...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return Not(c)
		}
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	return mk("ite", a.sort, "", nil, c, a, b)
}

// ---- refs: distinctness knowledge

func isAlloc(t *Term) bool {
	// negative integer constants are fresh allocations
	return t.op == "int" && t.ival.Sign() < 0
}

func isAddr(t *Term) bool { return t.op == "fa" || t.op == "glob" || t.op == "closure" || t.op == "func" || t.op == "box" || t.op == "ia" }

// eqDecide: 1 equal, 0 distinct, -1 unknown
func eqDecide(a, b *Term) int {
	if a == b {
		return 1
	}
	if a.isConst() && b.isConst() {
		return 0
	}
	if a.sort == SInt {
		la, ca := linOf(a)
		lb, cb := linOf(b)
		if linSame(la, lb) {
			if ca.Cmp(cb) == 0 {
				return 1
			}
			return 0
		}
	}
	if a.sort == SStr {
		if a.op == "str.++" || b.op == "str.++" {
			return eqStrDecide(a, b)
		}
	}
	if isAddr(a) && isAddr(b) {
		if a.op != b.op {
			return 0
		}
		if a.sval != b.sval {
			return 0
		}
		switch a.op {
		case "glob", "func":
			return 0 // differ in sval handled; same => identical
		case "closure":
			if a.ival.Cmp(b.ival) != 0 {
				return 0
			}
			return -1
		}
		allEq := true
		for i := range a.args {
			d := eqDecide(a.args[i], b.args[i])
			if d == 0 {
				return 0
			}
			if d < 0 {
				allEq = false
			}
		}
		if allEq {
			return 1
		}
		return -1
	}
	if isAddr(a) && b.op == "int" || isAddr(b) && a.op == "int" {
		return 0
	}
	if a.sort == SInt && distinctByBirth(a, b) {
		return 0
	}
	return -1
}

func eqStrDecide(a, b *Term) int {
	pa, pb := strParts(a), strParts(b)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.isStr() && y.isStr() {
			n := len(x.sval)
			if len(y.sval) < n {
				n = len(y.sval)
			}
			if x.sval[:n] != y.sval[:n] {
				return 0
			}
			pa, pb = pa[1:], pb[1:]
			if len(x.sval) > n {
				pa = append([]*Term{Str(x.sval[n:])}, pa...)
			}
			if len(y.sval) > n {
				pb = append([]*Term{Str(y.sval[n:])}, pb...)
			}
			continue
		}
		break
	}
	// strip common suffix
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return 1
	}
	// one side empty, other has a non-empty constant
	if len(pa) == 0 || len(pb) == 0 {
		rest := append(append([]*Term{}, pa...), pb...)
		for _, r := range rest {
			if r.isStr() && r.sval != "" {
				return 0
			}
		}
	}
	return -1
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	switch eqDecide(a, b) {
	case 1:
		return tTrue
	case 0:
		return tFalse
	}
	if a.sort == SInt {
		if t := idxFound(a, b, 0); t != nil {
			return Not(t)
		}
		if t := idxFound(b, a, 0); t != nil {
			return Not(t)
		}
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return Not(b)
		}
		if b == tFalse {
			return Not(a)
		}
	}
	if a.sort == SStr {
		if b.op == "str.++" && a.op == "str.++" {
			a, b = stripCommon(a, b)
		}
	}
	// ite(c,x,y) = const with decided branches
	if a.op == "ite" && b.op != "ite" {
		d1, d2 := eqDecide(a.args[1], b), eqDecide(a.args[2], b)
		if d1 >= 0 && d2 >= 0 {
			return Ite(a.args[0], Bool(d1 == 1), Bool(d2 == 1))
		}
	}
	if b.op == "ite" && a.op != "ite" {
		d1, d2 := eqDecide(b.args[1], a), eqDecide(b.args[2], a)
		if d1 >= 0 && d2 >= 0 {
			return Ite(b.args[0], Bool(d1 == 1), Bool(d2 == 1))
		}
	}
	if a.op == "box" && b.op == "box" && a.sval == b.sval && len(a.args) == len(b.args) {
		var es []*Term
		for i := range a.args {
			es = append(es, Eq(a.args[i], b.args[i]))
		}
		return And(es...)
	}
	if a.op == "fa" && b.op == "fa" && a.sval == b.sval {
		return Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func stripCommon(a, b *Term) (*Term, *Term) {
	pa, pb := strParts(a), strParts(b)
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb = pa[1:], pb[1:]
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	return Concat(pa...), Concat(pb...)
}

// ---- linear integer arithmetic

type linTerm struct {
	t *Term
	c *big.Int
}

func linOf(t *Term) ([]linTerm, *big.Int) {
	switch t.op {
	case "int":
		return nil, t.ival
	case "+":
		var ls []linTerm
		c := new(big.Int)
		for _, a := range t.args {
			if a.op == "int" {
				c.Add(c, a.ival)
			} else if a.op == "*" && a.args[0].op == "int" && len(a.args) == 2 {
				ls = append(ls, linTerm{a.args[1], a.args[0].ival})
			} else {
				ls = append(ls, linTerm{a, big.NewInt(1)})
			}
		}
		return ls, c
	case "*":
		if t.args[0].op == "int" && len(t.args) == 2 {
			return []linTerm{{t.args[1], t.args[0].ival}}, new(big.Int)
		}
	}
	return []linTerm{{t, big.NewInt(1)}}, new(big.Int)
}

func linSame(a, b []linTerm) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].t != b[i].t || a[i].c.Cmp(b[i].c) != 0 {
			return false
		}
	}
	return true
}

func linBuild(ls []linTerm, c *big.Int) *Term {
	m := map[*Term]*big.Int{}
	for _, l := range ls {
		if o, ok := m[l.t]; ok {
			m[l.t] = new(big.Int).Add(o, l.c)
		} else {
			m[l.t] = l.c
		}
	}
	var ts []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	for _, t := range ts {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", SInt, "", nil, BigT(k), t))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigT(c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, "", nil, args...)
}

func Add(xs ...*Term) *Term {
	var ls []linTerm
	c := new(big.Int)
	for _, x := range xs {
		l, k := linOf(x)
		ls = append(ls, l...)
		c.Add(c, k)
	}
	return linBuild(ls, c)
}
func scale(x *Term, k *big.Int) *Term {
	l, c := linOf(x)
	var ls []linTerm
	for _, e := range l {
		ls = append(ls, linTerm{e.t, new(big.Int).Mul(e.c, k)})
	}
	return linBuild(ls, new(big.Int).Mul(c, k))
}
func Neg(x *Term) *Term    { return scale(x, big.NewInt(-1)) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return scale(b, a.ival)
	}
	if b.isInt() {
		return scale(a, b.ival)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, "", nil, a, b)
}

// floor division / modulo of SMT-LIB (divisor positive in our uses)
func DivF(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigT(q)
	}
	if b.isInt() && b.ival.IsInt64() && b.ival.Int64() == 1 {
		return a
	}
	return mk("div", SInt, "", nil, a, b)
}
func ModF(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return BigT(m)
	}
	return mk("mod", SInt, "", nil, a, b)
}

// Go's truncated division
func DivT(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return BigT(new(big.Int).Quo(a.ival, b.ival))
	}
	if b.isInt() && b.ival.Sign() > 0 {
		return Ite(Le(Int(0), a), DivF(a, b), Neg(DivF(Neg(a), b)))
	}
	abs := func(x *Term) *Term { return Ite(Le(Int(0), x), x, Neg(x)) }
	q := DivF(abs(a), abs(b))
	return Ite(Eq(Le(Int(0), a), Lt(Int(0), b)), q, Neg(q))
}
func RemT(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return BigT(new(big.Int).Rem(a.ival, b.ival))
	}
	return Sub(a, Mul(b, DivT(a, b)))
}

func Le(a, b *Term) *Term {
	la, ca := linOf(a)
	lb, cb := linOf(b)
	if linSame(la, lb) {
		return Bool(ca.Cmp(cb) <= 0)
	}
	if a.isInt() && b.op == "str.len" && a.ival.Sign() <= 0 {
		return tTrue
	}
	if t := idxFound(a, b, 1); t != nil { // a <= index
		return t
	}
	if t := idxFound(b, a, 0); t != nil { // index <= b
		return Not(t)
	}
	return mk("<=", SBool, "", nil, a, b)
}

// whether an index found in a string (idx) is compared with c so that only "found" matters:
// the index is -1 or >= 0. k=1: idx >= c, k=0: idx > c, as the term "found" (nil if it is neither)
func idxFound(c, idx *Term, k int64) *Term {
	if idx.op == "str.indexof" && c.isInt() && c.ival.IsInt64() && c.ival.Int64() == k-1 && idx.args[2].isInt() && idx.args[2].ival.Sign() == 0 {
		return Contains(idx.args[0], idx.args[1])
	}
	return nil
}
func Lt(a, b *Term) *Term {
	la, ca := linOf(a)
	lb, cb := linOf(b)
	if linSame(la, lb) {
		return Bool(ca.Cmp(cb) < 0)
	}
	if b.isInt() && a.op == "str.len" && b.ival.Sign() <= 0 {
		return tFalse
	}
	if t := idxFound(a, b, 0); t != nil { // a < index
		return t
	}
	if t := idxFound(b, a, 1); t != nil { // index < b
		return Not(t)
	}
	return mk("<", SBool, "", nil, a, b)
}

// ---- machine integer wrap

type intKind struct {
	bits   int
	signed bool
}

func (k intKind) lo() *big.Int {
	if !k.signed {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(k.bits-1)))
}
func (k intKind) hi() *big.Int {
	n := k.bits
	if k.signed {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
}
func (k intKind) wrapConst(v *big.Int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(k.bits))
	r := new(big.Int).Mod(v, m)
	if k.signed && r.Cmp(k.hi()) > 0 {
		r.Sub(r, m)
	}
	return r
}
func InRange(x *Term, k intKind) *Term {
	return And(Le(BigT(k.lo()), x), Le(x, BigT(k.hi())))
}
func Wrap(x *Term, k intKind) *Term {
	if x.isInt() {
		return BigT(k.wrapConst(x.ival))
	}
	if x.op == "wrap" && x.sval == wrapName(k) {
		return x
	}
	if k.signed && k.bits == 64 && lengthSum(x) {
		return x
	}
	return mk("wrap", SInt, wrapName(k), nil, x)
}

// lengthSum: a small combination of text lengths and positions in texts, which are below 2^47 (the address space)
func lengthSum(x *Term) bool {
	ls, c := linOf(x)
	if len(ls) == 0 || len(ls) > 16 || c.BitLen() > 47 {
		return false
	}
	for _, l := range ls {
		if l.t.op != "str.len" && l.t.op != "str.indexof" || l.c.BitLen() > 4 {
			return false
		}
	}
	return true
}
func wrapName(k intKind) string {
	if k.signed {
		return fmt.Sprintf("wrap_s%d", k.bits)
	}
	return fmt.Sprintf("wrap_u%d", k.bits)
}

// ---- arrays

func Select(a, i *Term) *Term {
	_, vs := splitArr(a.sort)
	for depth := 0; depth < 10000; depth++ {
		if a.op == "store" {
			switch eqDecide(a.args[1], i) {
			case 1:
				return a.args[2]
			case 0:
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" {
			// push select in when both branches resolve
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			if (x.op != "select" && x.op != "store") || (y.op != "select") || x == y {
				return Ite(a.args[0], x, y)
			}
		}
		break
	}
	return mk("select", vs, "", nil, a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := splitArr(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s:%s", a.sort, v, v.sort))
	}
	if a.op == "store" && eqDecide(a.args[1], i) == 1 {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, "", nil, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, "", nil, v) }

// ---- strings (bytes as characters 0..255)

func strParts(t *Term) []*Term {
	if t.op == "str.++" {
		return t.args
	}
	if t.isStr() && t.sval == "" {
		return nil
	}
	return []*Term{t}
}

func Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range strParts(x) {
			if p.isStr() && len(out) > 0 && out[len(out)-1].isStr() {
				out[len(out)-1] = Str(out[len(out)-1].sval + p.sval)
			} else {
				out = append(out, p)
			}
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("str.++", SStr, "", nil, out...)
}

func StrLen(a *Term) *Term {
	if a.isStr() {
		return Int(int64(len(a.sval)))
	}
	if a.op == "str.++" {
		var xs []*Term
		for _, p := range a.args {
			xs = append(xs, StrLen(p))
		}
		return Add(xs...)
	}
	if a.op == "str.from_code" {
		return Int(1) // used for bytes only
	}
	return mk("str.len", SInt, "", nil, a)
}

func StrAt(s, i *Term) *Term {
	if s.isStr() && i.isInt() && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.sval)) {
			return Str(s.sval[k : k+1])
		}
		return Str("")
	}
	return mk("str.at", SStr, "", nil, s, i)
}

// Substr(s, i, n): SMT-LIB str.substr
func Substr(s, i, n *Term) *Term {
	if s.isStr() && i.isInt() && n.isInt() {
		a, l := i.ival.Int64(), n.ival.Int64()
		if a < 0 || a >= int64(len(s.sval)) || l <= 0 {
			return Str("")
		}
		if a+l > int64(len(s.sval)) {
			l = int64(len(s.sval)) - a
		}
		return Str(s.sval[a : a+l])
	}
	if i.isInt() && i.ival.Sign() == 0 && n == StrLen(s) {
		return s
	}
	return mk("str.substr", SStr, "", nil, s, i, n)
}

func ToCode(s *Term) *Term {
	if s.isStr() && len(s.sval) == 1 {
		return Int(int64(s.sval[0]))
	}
	if s.op == "str.from_code" {
		return s.args[0]
	}
	return mk("str.to_code", SInt, "", nil, s)
}
func FromCode(i *Term) *Term {
	if i.isInt() && i.ival.IsInt64() && i.ival.Int64() >= 0 && i.ival.Int64() < 256 {
		return Str(string([]byte{byte(i.ival.Int64())}))
	}
	if i.op == "str.to_code" {
		return i.args[0]
	}
	return mk("str.from_code", SStr, "", nil, i)
}

func strPred(op string, a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		switch op {
		case "str.prefixof":
			return Bool(strings.HasPrefix(b.sval, a.sval))
		case "str.suffixof":
			return Bool(strings.HasSuffix(b.sval, a.sval))
		case "str.contains":
			return Bool(strings.Contains(a.sval, b.sval))
		}
	}
	if op == "str.contains" {
		if a == b || b.isStr() && b.sval == "" {
			return tTrue
		}
		if subParts(strParts(a), strParts(b)) {
			return tTrue
		}
	}
	if op == "str.prefixof" {
		pa, pb := strParts(a), strParts(b)
		if len(pa) == 0 {
			return tTrue
		}
		if prefixParts(pa, pb) {
			return tTrue
		}
	}
	return mk(op, SBool, "", nil, a, b)
}

// prefixParts: is the concatenation pa a syntactic prefix of pb
func prefixParts(pa, pb []*Term) bool {
	if len(pa) > len(pb) {
		return false
	}
	for i, p := range pa {
		if p == pb[i] {
			continue
		}
		if i == len(pa)-1 && p.isStr() && pb[i].isStr() && strings.HasPrefix(pb[i].sval, p.sval) {
			return true
		}
		return false
	}
	return true
}

// subParts: does the concatenation ps syntactically contain qs
func subParts(ps, qs []*Term) bool {
	if len(qs) == 0 {
		return true
	}
	for i := range ps {
		if qs[0] == ps[i] {
			if prefixParts(qs, ps[i:]) {
				return true
			}
		}
		if qs[0].isStr() && ps[i].isStr() {
			if len(qs) == 1 && strings.Contains(ps[i].sval, qs[0].sval) {
				return true
			}
			if strings.HasSuffix(ps[i].sval, qs[0].sval) && prefixParts(qs[1:], ps[i+1:]) {
				return true
			}
		}
	}
	return false
}

func Contains(a, b *Term) *Term { return strPred("str.contains", a, b) }
func PrefixOf(p, s *Term) *Term { return strPred("str.prefixof", p, s) }
func SuffixOf(p, s *Term) *Term { return strPred("str.suffixof", p, s) }
func IndexOf(s, x, from *Term) *Term {
	if s.isStr() && x.isStr() && from.isInt() && from.ival.Sign() == 0 {
		return Int(int64(strings.Index(s.sval, x.sval)))
	}
	return mk("str.indexof", SInt, "", nil, s, x, from)
}

// ---- boxes (interfaces) and addresses

func Box(typ string, args ...*Term) *Term { return mk("box", SInt, typ, nil, args...) }
func Unbox(typ string, i int, s Sort, v *Term) *Term {
	if v.op == "box" && v.sval == typ && i < len(v.args) {
		return v.args[i]
	}
	if v.op == "ite" {
		x, y := Unbox(typ, i, s, v.args[1]), Unbox(typ, i, s, v.args[2])
		if x.op != "unbox" || y.op != "unbox" {
			return Ite(v.args[0], x, y)
		}
	}
	return mk("unbox", s, fmt.Sprintf("%s\x00%d", typ, i), nil, v)
}

// TagIs: dynamic type of v is typ
func TagIs(typ string, v *Term) *Term {
	if v.op == "box" {
		return Bool(v.sval == typ)
	}
	if v.op == "int" && v.ival.Sign() == 0 {
		return tFalse
	}
	if v.op == "ite" {
		return Ite(v.args[0], TagIs(typ, v.args[1]), TagIs(typ, v.args[2]))
	}
	return mk("tagis", SBool, typ, nil, v)
}

func FA(field string, ref *Term) *Term { return mk("fa", SInt, field, nil, ref) }
func IA(key string, ref, idx *Term) *Term { return mk("ia", SInt, key, nil, ref, idx) }
func Glob(name string) *Term           { return mk("glob", SInt, name, nil) }
func FuncT(name string) *Term          { return mk("func", SInt, name, nil) }
func ClosureT(id int64) *Term          { return mk("closure", SInt, "", big.NewInt(id)) }

func Forall(vars []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if !body.bound {
		return body
	}
	for _, v := range vars {
		body = shiftVar(v, vars, body)
	}
	if !body.bound {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	t := mk("forall", SBool, "", nil, args...)
	// closed if all bound vars inside are bound here (approximation: fresh names)
	fv := map[*Term]bool{}
	freeBVars(body, fv)
	for _, v := range vars {
		delete(fv, v)
	}
	t.bound = len(fv) > 0
	return t
}

func freeBVars(t *Term, out map[*Term]bool) {
	if !t.bound {
		return
	}
	if t.op == "bvar" {
		out[t] = true
		return
	}
	if t.op == "forall" {
		inner := map[*Term]bool{}
		freeBVars(t.args[len(t.args)-1], inner)
		for _, v := range t.args[:len(t.args)-1] {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeBVars(a, out)
	}
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return DivF(a[0], a[1])
	case "mod":
		return ModF(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.++":
		return Concat(a...)
	case "str.len":
		return StrLen(a[0])
	case "str.at":
		return StrAt(a[0], a[1])
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	case "str.to_code":
		return ToCode(a[0])
	case "str.from_code":
		return FromCode(a[0])
	case "str.contains", "str.prefixof", "str.suffixof":
		return strPred(t.op, a[0], a[1])
	case "forall":
		return Forall(a[:len(a)-1], a[len(a)-1])
	case "tagis":
		return TagIs(t.sval, a[0])
	case "unbox":
		i := strings.IndexByte(t.sval, 0)
		n := 0
		fmt.Sscanf(t.sval[i+1:], "%d", &n)
		return Unbox(t.sval[:i], n, t.sort, a[0])
	}
	return mk(t.op, t.sort, t.sval, t.ival, a...)
}

// collect free symbols
func symbols(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" {
		out[t] = true
	}
	for _, a := range t.args {
		symbols(a, out, seen)
	}
}

func (t *Term) String() string {
	switch t.op {
	case "int":
		return t.ival.String()
	case "str":
		return fmt.Sprintf("%q", t.sval)
	case "var", "bvar", "glob", "func":
		return t.sval
	case "true", "false":
		return t.op
	case "closure":
		return "closure#" + t.ival.String()
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(t.op)
	if t.sval != "" {
		sb.WriteByte(':')
		sb.WriteString(strings.ReplaceAll(t.sval, "\x00", "."))
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		s := a.String()
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		sb.WriteString(s)
	}
	sb.WriteByte(')')
	return sb.String()
}

// shiftVar renames the bound integer v so that it occurs as a bare array index (better instantiation patterns)
func shiftVar(v *Term, vars []*Term, body *Term) *Term {
	if v.sort != SInt {
		return body
	}
	cnt := map[*Term]int{}
	bare := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" {
			i := t.args[1]
			if i == v {
				bare = true
			} else if i.op == "+" {
				rest := Sub(i, v)
				if !containsVar(rest, v) && !rest.bound {
					w := 2
					if t.args[0].op == "store" {
						w = 1
					}
					cnt[rest] += w
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if bare || len(cnt) == 0 {
		return body
	}
	var best *Term
	for r, n := range cnt {
		if best == nil || n > cnt[best] || n == cnt[best] && r.id < best.id {
			best = r
		}
	}
	return Subst(body, map[*Term]*Term{v: Sub(v, best)})
}

func containsVar(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if containsVar(a, v) {
			return true
		}
	}
	return false
}
