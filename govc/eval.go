package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// DV: a value with its type (nil: unknown)
type DV struct {
	v Value
	t types.Type
}

// Unit: one function under contract
type Unit struct {
	name       string
	spec       *FuncSpec
	doc        *Doc
	fn         *ssa.Function
	pkg        *types.Package
	maypanic   bool
	skipInv    map[string]bool
	shareFresh bool
	ghostT     map[string]types.Type
	self       DV
	params     map[string]DV
	noContract map[string]bool
	unfolded   map[string]string // specification functions with a recursive definition, and their name in this run
}

func (u *Unit) contractFor(name string) *FuncSpec {
	if u.doc == nil || u.noContract[name] {
		return nil
	}
	for _, c := range u.doc.ctrs {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (u *Unit) listens(kind, name string) bool {
	if u.spec == nil {
		return false
	}
	for _, r := range u.spec.rules {
		if r.kind == kind && globMatch(r.name, name) {
			return true
		}
	}
	return false
}

func (u *Unit) ghostType(g string) types.Type { return u.ghostT[g] }

func globMatch(p, s string) bool {
	if p == s {
		return true
	}
	for _, alt := range strings.Split(p, "|") {
		if glob1(alt, s) || glob1(alt, shortKey(s)) {
			return true
		}
	}
	return false
}

func glob1(p, s string) bool {
	if !strings.Contains(p, "*") || strings.Contains(p, "(*") && strings.Count(p, "*") == strings.Count(p, "(*") {
		return p == s
	}
	// "(*" is literal
	p = strings.ReplaceAll(p, "(*", "(\x00")
	s = strings.ReplaceAll(s, "(*", "(\x00")
	parts := strings.Split(p, "*")
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i, q := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(s, q)
		}
		k := strings.Index(s, q)
		if k < 0 {
			return false
		}
		s = s[k+len(q):]
	}
	return s == ""
}

// ---- evaluation

type evalCtx struct {
	ex       *Exec
	st       *State
	heap     map[string]*Term
	evArgs   []DV
	ghosts   map[string]Value
	locals   map[string]DV
	self     *DV
	preHeap  map[string]*Term
	postHeap map[string]*Term
	loopHeap *State
	pkg      *types.Package
	depth    int
	noParams bool
	guard    *Term
	pureMode bool // lemma: no state
}

func (ex *Exec) newEval(st *State) *evalCtx {
	ec := &evalCtx{ex: ex, st: st, locals: map[string]DV{}, guard: tTrue}
	if st != nil {
		ec.heap, ec.ghosts = st.heap, st.ghosts
		for k, v := range st.named {
			ec.locals[k] = v
		}
	}
	if ex.U != nil {
		ec.pkg = ex.U.pkg
		if ex.U.self.v != nil {
			s := ex.U.self
			ec.self = &s
		}
	}
	return ec
}

type evalErr struct{ msg string }

func (ec *evalCtx) fail(f string, a ...interface{}) {
	panic(evalErr{fmt.Sprintf(f, a...)})
}

func (ec *evalCtx) try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (ec *evalCtx) boolExpr(e ast.Expr) (t *Term, err error) {
	err = ec.try(func() { t = ec.boolE(e) })
	return
}

func (ec *evalCtx) value(e ast.Expr) (d DV, err error) {
	err = ec.try(func() { d = ec.eval(e) })
	return
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

func (ec *evalCtx) boolE(e ast.Expr) *Term {
	d := ec.eval(e)
	t, ok := d.v.(*Term)
	if !ok || t.sort != SBool {
		ec.fail("boolean expected: %s", types.ExprString(e))
	}
	return t
}

func (ec *evalCtx) term(e ast.Expr) *Term {
	d := ec.eval(e)
	t, ok := d.v.(*Term)
	if !ok {
		ec.fail("scalar expected: %s is %T", types.ExprString(e), d.v)
	}
	return t
}

func bdv(t *Term) DV { return DV{t, tBool} }
func idv(t *Term) DV { return DV{t, tInt} }
func sdv(t *Term) DV { return DV{t, tString} }

func (ec *evalCtx) typeArg(e ast.Expr) types.Type {
	name := types.ExprString(e)
	if u, err := strconv.Unquote(name); err == nil {
		name = u
	}
	t, err := ec.ex.D.parseType(ec.ex.P, name)
	if err != nil {
		// unqualified name in the package of the unit
		if id, ok := e.(*ast.Ident); ok && ec.pkg != nil {
			if o, ok := ec.pkg.Scope().Lookup(id.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if s, ok := e.(*ast.StarExpr); ok {
			return types.NewPointer(ec.typeArg(s.X))
		}
		ec.fail("%v", err)
	}
	return t
}

func (ec *evalCtx) ident(name string) (DV, bool) {
	if d, ok := ec.locals[name]; ok {
		return d, true
	}
	switch name {
	case "true":
		return bdv(tTrue), true
	case "false":
		return bdv(tFalse), true
	case "nil":
		return DV{Int(0), types.Typ[types.UntypedNil]}, true
	case "clk":
		return idv(heapIn(ec.ex, ec.heap, "#?G.clk", SInt)), true
	}
	if ec.ghosts != nil {
		if v, ok := ec.ghosts[name]; ok {
			return DV{v, ec.ex.U.ghostT[name]}, true
		}
	}
	if name == "self" && ec.self != nil {
		return *ec.self, true
	}
	if ec.ex.U != nil && ec.ex.U.spec != nil {
		// let: an abbreviation, evaluated where it is used
		for _, l := range ec.ex.U.spec.lets {
			if l.label == name {
				if ec.depth++; ec.depth > 50 {
					ec.fail("recursive let %s", name)
				}
				d := ec.eval(l.expr)
				ec.depth--
				return d, true
			}
		}
	}
	if !ec.noParams && ec.ex.U != nil {
		if d, ok := ec.ex.U.params[name]; ok {
			return d, true
		}
	}
	if ec.self != nil {
		if d, ok := ec.tryField(*ec.self, name); ok {
			return d, true
		}
	}
	if ec.pkg != nil {
		if o := ec.pkg.Scope().Lookup(name); o != nil {
			return ec.object(o), true
		}
	}
	return DV{}, false
}

func (ec *evalCtx) object(o types.Object) DV {
	switch x := o.(type) {
	case *types.Const:
		c := ssa.NewConst(x.Val(), x.Type())
		if x.Val().Kind() == constant.Int || x.Val().Kind() == constant.String || x.Val().Kind() == constant.Bool {
			t := x.Type()
			return DV{ec.ex.constVal(c), t}
		}
		return DV{ec.ex.constVal(c), x.Type()}
	case *types.Var:
		g := Glob(x.Pkg().Path() + "." + x.Name())
		return DV{ec.ex.loadH(ec.heap, g, x.Type()), x.Type()}
	case *types.Func:
		f := ec.ex.P.prog.FuncValue(x)
		if f == nil {
			ec.fail("no function %s", x.Name())
		}
		return DV{funcTerm(f), x.Type()}
	}
	ec.fail("cannot use %s", o.Name())
	return DV{}
}

func (ec *evalCtx) findPkg(name string) *types.Package {
	P := ec.ex.P
	if ec.pkg != nil {
		if ec.pkg.Name() == name {
			return ec.pkg
		}
	}
	if p, ok := P.tpk[modPath+"/"+name]; ok {
		return p
	}
	if p, ok := P.tpk[name]; ok {
		return p
	}
	for _, path := range P.pkgOrder() {
		if p := P.tpk[path]; p.Name() == name {
			return p
		}
	}
	return nil
}

// addrOf: address of an lvalue expression, ok=false when it is not addressable
func (ec *evalCtx) addrOf(e ast.Expr) (addr *Term, t types.Type, ok bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ec.addrOf(x.X)
	case *ast.StarExpr:
		d := ec.eval(x.X)
		if p, ok := d.t.Underlying().(*types.Pointer); ok {
			return d.v.(*Term), p.Elem(), true
		}
	case *ast.SelectorExpr:
		if id, isId := x.X.(*ast.Ident); isId {
			if _, bound := ec.ident(id.Name); !bound {
				return nil, nil, false
			}
		}
		base, bt, ok := ec.addrOf(x.X)
		if ok {
			if p, isP := bt.Underlying().(*types.Pointer); isP {
				base = ec.ex.loadH(ec.heap, base, bt).(*Term)
				bt = p.Elem()
			}
		} else {
			d := ec.eval(x.X)
			if d.t == nil {
				return nil, nil, false
			}
			p, isP := d.t.Underlying().(*types.Pointer)
			if !isP {
				return nil, nil, false
			}
			base, bt = d.v.(*Term), p.Elem()
		}
		return ec.fieldAddr(base, bt, x.Sel.Name)
	case *ast.IndexExpr:
		d := ec.eval(x.X)
		if s, isS := d.v.(*SliceV); isS {
			i := ec.term(x.Index)
			return IA(typeKey(s.elem), s.ref, Add(s.off, i)), s.elem, true
		}
	}
	return nil, nil, false
}

func (ec *evalCtx) fieldAddr(base *Term, bt types.Type, name string) (*Term, types.Type, bool) {
	var pk *types.Package
	if n, ok := bt.(*types.Named); ok && n.Obj() != nil {
		pk = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(bt), true, pk, name)
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		return nil, nil, false
	}
	t := bt
	a := base
	for k, i := range idx {
		if k > 0 {
			if p, isP := t.Underlying().(*types.Pointer); isP {
				a = ec.ex.loadH(ec.heap, a, t).(*Term)
				t = p.Elem()
			}
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil, false
		}
		f := s.Field(i)
		a = FA(typeKey(t)+"."+f.Name(), a)
		t = f.Type()
	}
	return a, t, true
}

func (ec *evalCtx) tryField(d DV, name string) (DV, bool) {
	if d.t == nil {
		return DV{}, false
	}
	if p, ok := d.t.Underlying().(*types.Pointer); ok {
		a, t, ok := ec.fieldAddr(d.v.(*Term), p.Elem(), name)
		if ok {
			return DV{ec.ex.loadH(ec.heap, a, t), t}, true
		}
		if td := ec.ex.D.typeDecl(typeKey(p.Elem())); td != nil {
			if gt, ok := td.ghosts[name]; ok {
				s, _ := ghostSort(gt)
				return DV{readLoc(ec.ex, ec.heap, "#?"+td.name+"."+name, []*Term{d.v.(*Term)}, s), gt}, true
			}
		}
		return DV{}, false
	}
	if sv, ok := d.v.(*StructV); ok {
		s, ok := d.t.Underlying().(*types.Struct)
		if !ok {
			return DV{}, false
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return DV{sv.f[i], s.Field(i).Type()}, true
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if r, ok := ec.tryField(DV{sv.f[i], s.Field(i).Type()}, name); ok {
					return r, true
				}
			}
		}
	}
	return DV{}, false
}

func (ec *evalCtx) eval(e ast.Expr) DV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ec.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			c := constant.MakeFromLiteral(x.Value, token.INT, 0)
			return DV{ec.ex.constVal(ssa.NewConst(c, tInt)), types.Typ[types.UntypedInt]}
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				ec.fail("string %s", x.Value)
			}
			return sdv(Str(s))
		case token.CHAR:
			s, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			if err != nil {
				ec.fail("char %s", x.Value)
			}
			return DV{Int(int64(s)), types.Typ[types.UntypedInt]}
		}
		ec.fail("literal %s", x.Value)
	case *ast.Ident:
		if d, ok := ec.ident(x.Name); ok {
			return d
		}
		ec.fail("unknown identifier %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := ec.ident(id.Name); !bound {
				p := ec.findPkg(id.Name)
				if p == nil {
					ec.fail("unknown identifier %s", id.Name)
				}
				o := p.Scope().Lookup(x.Sel.Name)
				if o == nil {
					ec.fail("%s has no %s", p.Path(), x.Sel.Name)
				}
				return ec.object(o)
			}
		}
		if a, t, ok := ec.addrOf(x); ok {
			return DV{ec.ex.loadH(ec.heap, a, t), t}
		}
		d := ec.eval(x.X)
		if r, ok := ec.tryField(d, x.Sel.Name); ok {
			return r
		}
		ec.fail("no field %s in %v", x.Sel.Name, d.t)
	case *ast.StarExpr:
		a, t, ok := ec.addrOf(x)
		if !ok {
			ec.fail("cannot dereference %s", types.ExprString(x.X))
		}
		return DV{ec.ex.loadH(ec.heap, a, t), t}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return bdv(Not(ec.boolE(x.X)))
		case token.SUB:
			return idv(Neg(ec.term(x.X)))
		case token.AND:
			a, t, ok := ec.addrOf(x.X)
			if !ok {
				if id, isId := x.X.(*ast.Ident); isId && ec.self != nil && ec.self.t != nil {
					if p, isP := ec.self.t.Underlying().(*types.Pointer); isP {
						if a, t, ok := ec.fieldAddr(ec.self.v.(*Term), p.Elem(), id.Name); ok {
							return DV{a, types.NewPointer(t)}
						}
					}
				}
				ec.fail("cannot take the address of %s", types.ExprString(x.X))
			}
			return DV{a, types.NewPointer(t)}
		}
	case *ast.BinaryExpr:
		return ec.binary(x)
	case *ast.IndexExpr:
		return ec.indexE(x)
	case *ast.SliceExpr:
		d := ec.eval(x.X)
		lo := Int(0)
		if x.Low != nil {
			lo = ec.term(x.Low)
		}
		switch v := d.v.(type) {
		case *Term:
			hi := StrLen(v)
			if x.High != nil {
				hi = ec.term(x.High)
			}
			return DV{Substr(v, lo, Sub(hi, lo)), d.t}
		case *SliceV:
			hi := v.n
			if x.High != nil {
				hi = ec.term(x.High)
			}
			return DV{&SliceV{v.ref, Add(v.off, lo), Sub(hi, lo), v.elem}, d.t}
		}
	case *ast.TypeAssertExpr:
		d := ec.eval(x.X)
		t := ec.typeArg(x.Type)
		return DV{unboxAs(d.v.(*Term), t), t}
	case *ast.CallExpr:
		return ec.callE(x)
	}
	ec.fail("unsupported expression %s", types.ExprString(e))
	return DV{}
}

func (ec *evalCtx) indexE(x *ast.IndexExpr) DV {
	d := ec.eval(x.X)
	if at, ok := d.t.(*ArrType); ok {
		k := ec.eval(x.Index)
		kt := k.v.(*Term)
		if isIface(at.k) && k.t != nil && !isIface(k.t) {
			kt = ec.ex.box(k.v, k.t)
		}
		return DV{Select(d.v.(*Term), kt), at.v}
	}
	switch v := d.v.(type) {
	case *SliceV:
		i := ec.term(x.Index)
		return DV{ec.ex.loadH(ec.heap, IA(typeKey(v.elem), v.ref, Add(v.off, i)), v.elem), v.elem}
	case *StructV:
		i := ec.term(x.Index)
		if !i.isInt() {
			ec.fail("constant index expected")
		}
		switch u := d.t.Underlying().(type) {
		case *types.Tuple:
			return DV{v.f[i.ival.Int64()], u.At(int(i.ival.Int64())).Type()}
		case *types.Array:
			return DV{v.f[i.ival.Int64()], u.Elem()}
		}
	case *Term:
		if d.t != nil {
			if mt, ok := d.t.Underlying().(*types.Map); ok {
				k := ec.eval(x.Index)
				val, _ := ec.ex.mapGet(nil, ec.heap, v, mt, k.v.(*Term))
				return DV{val, mt.Elem()}
			}
		}
		if v.sort == SStr {
			return idv(ToCode(StrAt(v, ec.term(x.Index))))
		}
	}
	ec.fail("cannot index %s", types.ExprString(x.X))
	return DV{}
}

func isNilDV(d DV) bool {
	b, ok := d.t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (ec *evalCtx) eq(a, b DV) *Term {
	if isNilDV(b) {
		a, b = b, a
	}
	if isNilDV(a) {
		switch v := b.v.(type) {
		case *SliceV:
			return Eq(v.ref, Int(0))
		case *Term:
			if v.sort == SStr {
				return Eq(v, Str(""))
			}
			return Eq(v, Int(0))
		}
	}
	if a.t != nil && b.t != nil {
		ia, ib := isIface(a.t), isIface(b.t)
		if ia != ib {
			if ia {
				return Eq(a.v.(*Term), ec.ex.box(b.v, ec.concrete(b.t)))
			}
			return Eq(ec.ex.box(a.v, ec.concrete(a.t)), b.v.(*Term))
		}
	}
	x, ok1 := a.v.(*Term)
	y, ok2 := b.v.(*Term)
	if ok1 && ok2 {
		if x.sort != y.sort {
			ec.fail("comparison of %s and %s", x.sort, y.sort)
		}
		return Eq(x, y)
	}
	sa, ok1 := a.v.(*SliceV)
	sb, ok2 := b.v.(*SliceV)
	if ok1 && ok2 {
		return And(Eq(sa.ref, sb.ref), Eq(sa.off, sb.off), Eq(sa.n, sb.n))
	}
	if a.t == nil {
		ec.fail("comparison of untyped composite values")
	}
	return eqValue(a.v, b.v, a.t)
}

func (ec *evalCtx) concrete(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedInt {
		return tInt
	}
	return t
}

func (ec *evalCtx) binary(x *ast.BinaryExpr) DV {
	switch x.Op {
	case token.LAND:
		a := ec.boolE(x.X)
		if a == tFalse {
			return bdv(tFalse)
		}
		return bdv(And(a, ec.boolE(x.Y)))
	case token.LOR:
		a := ec.boolE(x.X)
		if a == tTrue {
			return bdv(tTrue)
		}
		return bdv(Or(a, ec.boolE(x.Y)))
	case token.EQL:
		return bdv(ec.eq(ec.eval(x.X), ec.eval(x.Y)))
	case token.NEQ:
		return bdv(Not(ec.eq(ec.eval(x.X), ec.eval(x.Y))))
	}
	a, b := ec.term(x.X), ec.term(x.Y)
	if a.sort == SStr && x.Op == token.ADD {
		return sdv(Concat(a, b))
	}
	if a.sort != SInt || b.sort != SInt {
		ec.fail("operands of %s in %s", x.Op, types.ExprString(x))
	}
	switch x.Op {
	case token.ADD:
		return idv(Add(a, b))
	case token.SUB:
		return idv(Sub(a, b))
	case token.MUL:
		return idv(Mul(a, b))
	case token.QUO:
		return idv(DivT(a, b))
	case token.REM:
		return idv(RemT(a, b))
	case token.LSS:
		return bdv(Lt(a, b))
	case token.LEQ:
		return bdv(Le(a, b))
	case token.GTR:
		return bdv(Lt(b, a))
	case token.GEQ:
		return bdv(Le(b, a))
	}
	ec.fail("operator %s", x.Op)
	return DV{}
}

func (ec *evalCtx) with(f func(n *evalCtx)) *evalCtx {
	n := *ec
	n.locals = map[string]DV{}
	for k, v := range ec.locals {
		n.locals[k] = v
	}
	f(&n)
	return &n
}

func (ec *evalCtx) strArg(e ast.Expr) string {
	l, ok := e.(*ast.BasicLit)
	if !ok {
		ec.fail("string literal expected")
	}
	s, err := strconv.Unquote(l.Value)
	if err != nil {
		ec.fail("%v", err)
	}
	return s
}

func (ec *evalCtx) callE(x *ast.CallExpr) DV {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		ec.fail("call of %s", types.ExprString(x.Fun))
	}
	ex := ec.ex
	n := len(x.Args)
	need := func(k int) {
		if n != k {
			ec.fail("%s needs %d arguments", id.Name, k)
		}
	}
	switch id.Name {
	case "old":
		need(1)
		en := ex.entry
		if en == nil {
			ec.fail("old outside a function")
		}
		return ec.with(func(m *evalCtx) { m.heap, m.ghosts = en.heap, en.ghosts }).eval(x.Args[0])
	case "pre":
		need(1)
		if ec.preHeap == nil {
			ec.fail("pre is not available here")
		}
		return ec.with(func(m *evalCtx) { m.heap = ec.preHeap }).eval(x.Args[0])
	case "post":
		need(1)
		if ec.postHeap == nil {
			ec.fail("post is not available here")
		}
		return ec.with(func(m *evalCtx) { m.heap = ec.postHeap }).eval(x.Args[0])
	case "init":
		need(1)
		if ec.loopHeap == nil {
			ec.fail("init outside a loop invariant")
		}
		return ec.with(func(m *evalCtx) { m.heap, m.ghosts = ec.loopHeap.heap, ec.loopHeap.ghosts }).eval(x.Args[0])
	case "implies":
		need(2)
		a := ec.boolE(x.Args[0])
		if a == tFalse {
			return bdv(tTrue)
		}
		return bdv(Imp(a, ec.boolE(x.Args[1])))
	case "iff":
		need(2)
		return bdv(Eq(ec.boolE(x.Args[0]), ec.boolE(x.Args[1])))
	case "ite":
		need(3)
		c := ec.boolE(x.Args[0])
		if c == tTrue {
			return ec.eval(x.Args[1])
		}
		if c == tFalse {
			return ec.eval(x.Args[2])
		}
		a, b := ec.eval(x.Args[1]), ec.eval(x.Args[2])
		at, aok := a.v.(*Term)
		bt, bok := b.v.(*Term)
		t := a.t
		if isNilDV(a) {
			t = b.t
		}
		if aok && bok {
			return DV{Ite(c, at, bt), t}
		}
		return DV{iteValue(c, a.v, b.v, t), t}
	case "len":
		need(1)
		d := ec.eval(x.Args[0])
		switch v := d.v.(type) {
		case *SliceV:
			if ec.st != nil && !v.n.bound && !v.n.isInt() {
				ec.st.assume(Le(Int(0), v.n))
			}
			return idv(v.n)
		case *Term:
			if v.sort == SStr {
				return idv(StrLen(v))
			}
			if mt, ok := d.t.Underlying().(*types.Map); ok {
				return idv(ex.mapLenH(ec.heap, v, mt))
			}
			if _, ok := d.t.Underlying().(*types.Chan); ok {
				return idv(ex.chanLen(ec.heap, v))
			}
		}
		ec.fail("len of %v", d.t)
	case "cap":
		need(1)
		d := ec.eval(x.Args[0])
		return idv(ex.chanCap(ec.heap, d.v.(*Term)))
	case "has":
		need(2)
		d := ec.eval(x.Args[0])
		mt, ok := d.t.Underlying().(*types.Map)
		if !ok {
			ec.fail("has: map expected")
		}
		_, h := ex.mapGet(nil, ec.heap, d.v.(*Term), mt, ec.term(x.Args[1]))
		return bdv(h)
	case "forall", "exists":
		if n < 3 || n%2 != 1 {
			ec.fail("forall(x, T, body)")
		}
		var vs []*Term
		m := ec.with(func(m *evalCtx) {})
		for i := 0; i+1 < n; i += 2 {
			t := ec.typeArg(x.Args[i+1])
			s, ok := ghostSort(t)
			if !ok {
				ec.fail("quantifier over %v", t)
			}
			m.depth++
			v := BVar(fmt.Sprintf("%s#%d", x.Args[i].(*ast.Ident).Name, m.depth), s)
			m.locals[x.Args[i].(*ast.Ident).Name] = DV{v, t}
			vs = append(vs, v)
		}
		b := m.boolE(x.Args[n-1])
		if id.Name == "exists" {
			return bdv(Not(Forall(vs, Not(b))))
		}
		return bdv(Forall(vs, b))
	case "typeis":
		need(2)
		d := ec.eval(x.Args[0])
		t := ec.typeArg(x.Args[1])
		return bdv(TagIs(typeKey(t), d.v.(*Term)))
	case "box":
		need(1)
		d := ec.eval(x.Args[0])
		if isIface(d.t) {
			return d
		}
		return DV{ex.box(d.v, ec.concrete(d.t)), anyT}
	case "boxas":
		need(2)
		d := ec.eval(x.Args[0])
		return DV{ex.box(d.v, ec.typeArg(x.Args[1])), anyT}
	case "contains":
		need(2)
		return bdv(Contains(ec.term(x.Args[0]), ec.term(x.Args[1])))
	case "fmttext":
		// what fmt prints for a value under a verb
		d := ec.eval(x.Args[1])
		v, ok := d.v.(*Term)
		if !types.IsInterface(d.t) {
			v, ok = ec.ex.box(d.v, d.t), true
		}
		if !ok {
			ec.fail("fmttext of a structure")
		}
		return sdv(ec.ex.textOf(ec.st, v, ec.strArg(x.Args[0])))
	case "independent":
		// independent(e, inputs...): e is the same whatever these inputs are, and so is the path taken
		v := ec.term(x.Args[0])
		m := map[*Term]*Term{}
		arrs := map[*Term]bool{}
		for i, a := range x.Args[1:] {
			t := ec.term(a)
			if t.op == "select" {
				arrs[t.args[0]] = true
			} else if t.op != "var" {
				ec.fail("independent of what is not an input")
			}
			m[t] = Var(fmt.Sprintf("other!%d", i), t.sort)
		}
		free := map[*Term]bool{}
		seenT := map[*Term]bool{}
		var vars func(t *Term)
		vars = func(t *Term) {
			if seenT[t] {
				return
			}
			seenT[t] = true
			if t.op == "var" {
				free[t] = true
			}
			for _, a := range t.args {
				vars(a)
			}
		}
		res := []*Term{Eq(v, Subst(v, m))}
		vars(Subst(v, m))
		for _, c := range ec.st.pc[min(len(ec.ex.entry.pc), len(ec.st.pc)):] {
			c2 := Subst(c, m)
			if c2 != c {
				res = append(res, c2)
				vars(c2)
			}
		}
		for f := range free {
			if q, ok := symSeq[f]; arrs[f] || ok && q > ec.ex.entry.nfresh {
				// may stand for something computed from these inputs
				ec.st.imprecise("value of unknown origin")
				return bdv(tFalse)
			}
		}
		return bdv(And(res...))
	case "hasprefix":
		need(2)
		return bdv(PrefixOf(ec.term(x.Args[1]), ec.term(x.Args[0])))
	case "hassuffix":
		need(2)
		return bdv(SuffixOf(ec.term(x.Args[1]), ec.term(x.Args[0])))
	case "index":
		need(2)
		return idv(IndexOf(ec.term(x.Args[0]), ec.term(x.Args[1]), Int(0)))
	case "substr":
		need(3)
		return sdv(Substr(ec.term(x.Args[0]), ec.term(x.Args[1]), ec.term(x.Args[2])))
	case "itoa":
		need(1)
		return sdv(itoaT(ec.term(x.Args[0])))
	case "chr":
		need(1)
		return sdv(FromCode(ec.term(x.Args[0])))
	case "closed":
		need(1)
		return bdv(ex.chanClosed(ec.heap, ec.term(x.Args[0])))
	case "donechan":
		// donechan(ctx): the cancel channel of a context made by context.With…
		need(1)
		c := ec.term(x.Args[0])
		if c.op == "box" && c.sval == "*context.timerCtx" {
			return DV{readLoc(ec.ex, ec.heap, "#ctx.done", []*Term{c.args[0]}, SInt), nil}
		}
		return DV{UF("ctx.Done", SInt, c), nil}
	case "waits":
		// waits(c): c is one of the channels of the current "block" event
		need(1)
		c := ec.term(x.Args[0])
		var ts []*Term
		for _, a := range ec.evArgs {
			if t, ok := a.v.(*Term); ok {
				ts = append(ts, Eq(t, c))
			}
		}
		return bdv(Or(ts...))
	case "held", "heldw":
		// heldw: not merely for reading
		if len(x.Args) == 1 {
			if a, t, ok := ec.addrOf(x.Args[0]); ok {
				if _, isP := t.Underlying().(*types.Pointer); isP {
					a = ec.ex.loadH(ec.heap, a, t).(*Term)
				}
				for _, h := range ec.st.locks {
					if h.lock == a && !(id.Name == "heldw" && h.rd) {
						return bdv(tTrue)
					}
				}
				return bdv(tFalse)
			}
		}
		return bdv(Bool(len(ec.st.locks) > 0))
	case "visited":
		// visited(k): key k was already delivered by the innermost active map range
		need(1)
		k := ec.term(x.Args[0])
		key := ""
		for i := len(ec.st.frames) - 1; i >= 0 && key == ""; i-- {
			for _, v := range ec.st.frames[i].env {
				if it, ok := v.(*IterV); ok && it.m != nil {
					if key == "" || it.key > key {
						key = it.key
					}
				}
			}
		}
		if key == "" {
			ec.fail("no active map range")
		}
		return bdv(Select(ec.heap[key], k))
	case "ext":
		// ext("fn", args..): the result of a pure external function
		name := ec.strArg(x.Args[0])
		var ts []*Term
		for _, a := range x.Args[1:] {
			d := ec.eval(a)
			switch v := d.v.(type) {
			case *Term:
				ts = append(ts, v)
			case *SliceV:
				st := ec.st
				tmp := &State{heap: ec.heap}
				if st != nil {
					tmp = st.clone()
					tmp.heap = ec.heap
				}
				ts = append(ts, ex.sliceTerms(tmp, v)...)
			default:
				ts = append(ts, flat(d.v, d.t)...)
			}
		}
		return ec.extRes(name, ts)
	case "written":
		// what a strings.Builder or bytes.Buffer holds
		d := ec.eval(x.Args[0])
		key := "#strings.Builder"
		if d.t != nil && strings.Contains(typeKey(deref(d.t)), "Buffer") {
			key = "#bytes.Buffer"
		}
		return sdv(readLoc(ex, ec.heap, key, []*Term{d.v.(*Term)}, SStr))
	case "listlen":
		need(1)
		l := ec.term(x.Args[0])
		return idv(listLen(ex, ec.heap, l))
	case "listat":
		need(2)
		l, i := ec.term(x.Args[0]), ec.term(x.Args[1])
		return DV{listVal(ex, ec.heap, l, Add(listLo(ex, ec.heap, l), i)), anyT}
	case "fresh":
		need(1)
		return bdv(Bool(isFreshObj(ec.term(x.Args[0]))))
	case "fdiv":
		need(2)
		return idv(DivF(ec.term(x.Args[0]), ec.term(x.Args[1])))
	case "fmod":
		need(2)
		return idv(ModF(ec.term(x.Args[0]), ec.term(x.Args[1])))
	case "min":
		need(2)
		a, b := ec.term(x.Args[0]), ec.term(x.Args[1])
		return idv(Ite(Le(a, b), a, b))
	case "max":
		need(2)
		a, b := ec.term(x.Args[0]), ec.term(x.Args[1])
		return idv(Ite(Le(b, a), a, b))
	case "abs":
		need(1)
		a := ec.term(x.Args[0])
		return idv(Ite(Le(Int(0), a), a, Neg(a)))
	case "uf":
		// uf("name", "sort", args..): uninterpreted specification function
		var ts []*Term
		for _, a := range x.Args[2:] {
			d := ec.eval(a)
			if t, ok := d.v.(*Term); ok {
				ts = append(ts, t)
			} else {
				ts = append(ts, flat(d.v, d.t)...)
			}
		}
		name := ec.strArg(x.Args[0])
		if ec.ex != nil && ec.ex.U != nil {
			if n := ec.ex.U.unfolded[name]; n != "" {
				name = n
			}
		}
		switch ec.strArg(x.Args[1]) {
		case "int":
			return idv(UF(name, SInt, ts...))
		case "bool":
			return bdv(UF(name, SBool, ts...))
		case "string":
			return sdv(UF(name, SStr, ts...))
		}
		if t, err := ec.ex.D.parseType(ec.ex.P, ec.strArg(x.Args[1])); err == nil {
			if at, ok := t.(*ArrType); ok {
				if srt, ok := ghostSort(at); ok {
					return DV{UF(ec.strArg(x.Args[0]), srt, ts...), t}
				}
			}
			if ec.st == nil {
				ec.fail("uf needs a state")
			}
			return DV{ec.ex.uninterp(ec.st, ec.strArg(x.Args[0]), t, ts...), t}
		}
		ec.fail("uf sort")
	case "update":
		// update(arr, k, v)
		need(3)
		d := ec.eval(x.Args[0])
		return DV{Store(d.v.(*Term), ec.term(x.Args[1]), ec.term(x.Args[2])), d.t}
	case "zeroarr":
		need(1)
		t := ec.typeArg(x.Args[0])
		s, _ := ghostSort(t)
		return DV{zeroTerm(s), t}
	case "keyset":
		// keyset(m): the presence map of a map
		need(1)
		d := ec.eval(x.Args[0])
		mt := d.t.Underlying().(*types.Map)
		return DV{ex.mapHas(ec.heap, d.v.(*Term), mt), &ArrType{mt.Key(), tBool}}
	case "vals":
		need(1)
		d := ec.eval(x.Args[0])
		mt := d.t.Underlying().(*types.Map)
		vs := ex.mapVals(ec.heap, d.v.(*Term), mt)
		if len(vs) != 1 {
			ec.fail("vals of composite map")
		}
		return DV{vs[0], &ArrType{mt.Key(), mt.Elem()}}
	case "elems":
		// elems(s): backing array of a slice as a total map
		need(1)
		d := ec.eval(x.Args[0])
		sl := d.v.(*SliceV)
		ls := leaves(sl.elem)
		if len(ls) != 1 {
			ec.fail("elems of composite slice")
		}
		h := heapIn(ex, ec.heap, "E$"+typeKey(sl.elem), arrSort(2, ls[0].sort))
		return DV{Select(h, sl.ref), &ArrType{tInt, sl.elem}}
	}
	if f, ok := evalNatives[id.Name]; ok {
		var as []DV
		for _, a := range x.Args {
			as = append(as, ec.eval(a))
		}
		return f(ec, as)
	}
	if m, ok := ex.D.macros[id.Name]; ok {
		if len(m.params) != n {
			ec.fail("%s needs %d arguments", id.Name, len(m.params))
		}
		var as []DV
		for _, a := range x.Args {
			as = append(as, ec.eval(a))
		}
		c := ec.with(func(c *evalCtx) {
			c.depth = ec.depth + 1
			for i, p := range m.params {
				c.locals[p] = as[i]
			}
		})
		if c.depth > 50 {
			ec.fail("recursive spec %s", id.Name)
		}
		return c.eval(m.body)
	}
	if n == 1 {
		// conversion
		switch id.Name {
		case "int", "int64", "string", "int32", "uint64":
			return ec.eval(x.Args[0])
		}
	}
	ec.fail("unknown function %s", id.Name)
	return DV{}
}

// extRes: value of a pure extern; result type from its signature, "#i" selects a result
func (ec *evalCtx) extRes(name string, ts []*Term) DV {
	base := name
	k := 0
	if i := strings.LastIndex(name, "#"); i > 0 {
		base = name[:i]
		k, _ = strconv.Atoi(name[i+1:])
	}
	sig := ec.ex.P.externSig(base)
	if sig == nil {
		ec.fail("unknown external function %s", base)
	}
	rt := sig.Results()
	if k >= rt.Len() {
		ec.fail("%s has no result %d", base, k)
	}
	t := rt.At(k).Type()
	un := base
	if rt.Len() > 1 {
		un = fmt.Sprintf("%s#%d", base, k)
	}
	ls := leaves(t)
	vs := make([]*Term, len(ls))
	for i, l := range ls {
		vs[i] = UF(un+l.path, l.sort, ts...)
	}
	return DV{unflat(vs, t), t}
}

var externSigs = map[string]*types.Signature{}

// externSig: signature of "pkg/path.F", "(*pkg/path.T).M" or "pkg/path.I.M"
func (P *Program) externSig(name string) *types.Signature {
	if s, ok := externSigs[name]; ok {
		return s
	}
	find := func(pk string) *types.Package {
		if p, ok := P.tpk[pk]; ok {
			return p
		}
		if p, ok := P.tpk[modPath+"/"+pk]; ok {
			return p
		}
		for _, p := range P.tpk {
			if q := findImport(p, pk, map[*types.Package]bool{}); q != nil {
				return q
			}
		}
		return nil
	}
	method := func(pk, tn, m string) *types.Signature {
		p := find(pk)
		if p == nil {
			return nil
		}
		o := p.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t := o.Type()
		if !isIface(t) {
			t = types.NewPointer(t)
		}
		obj, _, _ := types.LookupFieldOrMethod(t, true, p, m)
		if f, ok := obj.(*types.Func); ok {
			return f.Type().(*types.Signature)
		}
		return nil
	}
	var s *types.Signature
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		q := strings.TrimPrefix(name[1:i], "*")
		k := strings.LastIndex(q, ".")
		s = method(q[:k], q[k+1:], name[i+2:])
	} else {
		k := strings.LastIndex(name, ".")
		pk, f := name[:k], name[k+1:]
		if p := find(pk); p != nil {
			if o, ok := p.Scope().Lookup(f).(*types.Func); ok {
				s = o.Type().(*types.Signature)
			}
		}
		if s == nil {
			if j := strings.LastIndex(pk, "."); j > 0 {
				s = method(pk[:j], pk[j+1:], f)
			}
		}
	}
	if s != nil {
		externSigs[name] = s
	}
	return s
}

func findImport(p *types.Package, path string, seen map[*types.Package]bool) *types.Package {
	if seen[p] {
		return nil
	}
	seen[p] = true
	if p.Path() == path {
		return p
	}
	for _, q := range p.Imports() {
		if r := findImport(q, path, seen); r != nil {
			return r
		}
	}
	return nil
}

var evalNatives = map[string]func(ec *evalCtx, as []DV) DV{}

// ---- invariants of declared types

func (ex *Exec) invCtx(st *State, td *TypeDecl, obj *Term) *evalCtx {
	ec := ex.newEval(st)
	ec.noParams = true
	ec.ghosts = nil
	d := DV{obj, types.NewPointer(td.typ)}
	ec.self = &d
	if n, ok := td.typ.(*types.Named); ok {
		ec.pkg = n.Obj().Pkg()
	}
	return ec
}

func (ex *Exec) evalInv(st *State, td *TypeDecl, c *Clause, obj *Term) (*Term, error) {
	return ex.invCtx(st, td, obj).boolExpr(c.expr)
}

func (ex *Exec) evalRel(st *State, td *TypeDecl, c *Clause, obj *Term, pre map[string]*Term) (*Term, error) {
	ec := ex.invCtx(st, td, obj)
	ec.preHeap = pre
	// "own": the calling thread's share of the shared ghost state, zero unless the function declares it
	ec.locals["own"] = DV{Int(0), types.Typ[types.Int]}
	if v, ok := st.ghosts["own"]; ok && ex.U.self.v == Value(obj) {
		ec.locals["own"] = DV{v, types.Typ[types.Int]}
	}
	return ec.boolExpr(c.expr)
}

// ---- events and rules

type Event struct {
	kind    string
	name    string
	callee  *Term
	args    []DV
	res     []DV
	newRes  []DV
	lockObj *Term
	decl    *LockDecl
	td      *TypeDecl
	pre     map[string]*Term
	post    map[string]*Term
	rd      bool
	op      string
	sig     *types.Signature // of a called function value
}

func sameSig(a, b *types.Signature) bool {
	return types.Identical(a.Params(), b.Params()) && types.Identical(a.Results(), b.Results()) && a.Variadic() == b.Variadic()
}

// event runs the matching rules; false ends the path
func (ex *Exec) event(st *State, ev *Event) bool {
	if ex.U == nil || ex.U.spec == nil {
		return true
	}
	for _, r := range ex.U.spec.rules {
		if r.kind != ev.kind {
			continue
		}
		g := tTrue
		ec := ex.newEval(st)
		ec.preHeap, ec.postHeap = ev.pre, ev.post
		switch ev.kind {
		case "call", "send", "recv", "close", "default":
			if r.target != nil {
				var tg *Term
				var tgT types.Type
				err := ec.try(func() {
					d := ec.eval(r.target)
					t, ok := d.v.(*Term)
					if !ok {
						ec.fail("scalar expected: %s", types.ExprString(r.target))
					}
					tg, tgT = t, d.t
				})
				if err != nil {
					ex.abort("rule on %s: %v", ev.kind, err)
					return false
				}
				if ev.sig != nil && tgT != nil {
					if s, ok := tgT.Underlying().(*types.Signature); ok && !sameSig(s, ev.sig) {
						continue
					}
				}
				c := ev.callee
				if ev.kind != "call" {
					if len(ev.args) == 0 {
						continue
					}
					c = ev.args[0].v.(*Term)
				}
				g = Eq(c, tg)
			}
		default:
			if !globMatch(r.name, ev.name) {
				continue
			}
		}
		if g == tFalse {
			continue
		}
		if g != tTrue {
			switch ex.decide(st, g) {
			case 0:
				continue
			case 1:
				g = tTrue
			}
		}
		for i, a := range r.args {
			if a == "_" {
				continue
			}
			if strings.HasSuffix(a, "...") {
				continue
			}
			if ev.lockObj != nil {
				t := types.Type(nil)
				if ev.decl != nil {
					t = types.NewPointer(ev.decl.td.typ)
				} else if ev.td != nil {
					t = types.NewPointer(ev.td.typ)
				}
				ec.locals[a] = DV{ev.lockObj, t}
				continue
			}
			if i < len(ev.args) {
				ec.locals[a] = ev.args[i]
			} else {
				ec.locals[a] = DV{Int(0), nil}
			}
		}
		for i, a := range r.res {
			if a != "_" && i < len(ev.res) {
				ec.locals[a] = ev.res[i]
			}
		}
		ec.locals["op"] = sdv(Str(ev.op))
		ec.evArgs = ev.args
		ec.locals["evname"] = sdv(Str(ev.name))
		ec.locals["rdlock"] = bdv(Bool(ev.rd))
		if ev.callee != nil {
			ec.locals["callee"] = DV{ev.callee, nil}
		}
		if r.when != nil {
			w, err := ec.boolExpr(r.when)
			if err != nil {
				ex.abort("rule on %s %s: %v", ev.kind, ev.name, err)
				return false
			}
			g = And(g, w)
			if g == tFalse {
				continue
			}
		}
		ec.guard = g
		if err := ec.try(func() { ec.exec(r.body) }); err != nil {
			ex.abort("rule on %s %s: %v", ev.kind, ev.name, err)
			return false
		}
	}
	return len(st.pc) == 0 || st.pc[len(st.pc)-1] != tFalse
}

func (ec *evalCtx) exec(body []ast.Stmt) {
	for _, s := range body {
		ec.stmt(s)
	}
}

func (ec *evalCtx) coerce(d DV, t types.Type) Value {
	if t != nil && isIface2(t) && d.t != nil && !isIface2(d.t) && !isNilDV(d) {
		if _, isA := d.t.(*ArrType); !isA {
			return ec.ex.box(d.v, ec.concrete(d.t))
		}
	}
	if isNilDV(d) && t != nil {
		if _, isA := t.(*ArrType); !isA {
			return zeroValue(t)
		}
	}
	return d.v
}

func isIface2(t types.Type) bool {
	if _, ok := t.(*ArrType); ok {
		return false
	}
	return isIface(t)
}

func (ec *evalCtx) mergeV(old, nw Value, t types.Type) Value {
	if ec.guard == tTrue {
		return nw
	}
	a, ok1 := nw.(*Term)
	b, ok2 := old.(*Term)
	if ok1 && ok2 {
		return Ite(ec.guard, a, b)
	}
	return iteValue(ec.guard, nw, old, t)
}

func (ec *evalCtx) assign(lhs ast.Expr, d DV) {
	ex, st := ec.ex, ec.st
	switch x := lhs.(type) {
	case *ast.Ident:
		if x.Name == "clk" {
			ex.writeLoc(st, "#?G.clk", nil, ec.mergeV(heapIn(ex, st.heap, "#?G.clk", SInt), d.v, tInt).(*Term))
			return
		}
		t, ok := ex.U.ghostT[x.Name]
		if !ok {
			if _, loc := ec.locals[x.Name]; loc {
				ec.locals[x.Name] = d
				return
			}
			ec.fail("assignment to %s", x.Name)
		}
		st.ghosts[x.Name] = ec.mergeV(st.ghosts[x.Name], ec.coerce(d, t), t)
		ex.noteGhost(st, x.Name)
		return
	case *ast.IndexExpr:
		id, ok := x.X.(*ast.Ident)
		if !ok {
			ec.fail("ghost array expected")
		}
		at, ok := ex.U.ghostT[id.Name].(*ArrType)
		if !ok {
			ec.fail("%s is not a ghost array", id.Name)
		}
		k := ec.eval(x.Index)
		kv := ec.coerce(k, at.k).(*Term)
		a := st.ghosts[id.Name].(*Term)
		v := ec.coerce(d, at.v).(*Term)
		if ec.guard != tTrue {
			v = Ite(ec.guard, v, Select(a, kv))
		}
		st.ghosts[id.Name] = Store(a, kv, v)
		ex.noteGhost(st, id.Name)
		return
	case *ast.SelectorExpr:
		b := ec.eval(x.X)
		if p, ok := b.t.Underlying().(*types.Pointer); ok {
			if td := ex.D.typeDecl(typeKey(p.Elem())); td != nil {
				if gt, ok := td.ghosts[x.Sel.Name]; ok {
					s, _ := ghostSort(gt)
					key := "#?" + td.name + "." + x.Sel.Name
					old := readLoc(ex, st.heap, key, []*Term{b.v.(*Term)}, s)
					ex.writeLoc(st, key, []*Term{b.v.(*Term)}, ec.mergeV(old, ec.coerce(d, gt), gt).(*Term))
					return
				}
			}
		}
	}
	ec.fail("cannot assign to %s", types.ExprString(lhs))
}

func (ec *evalCtx) stmt(s ast.Stmt) {
	ex, st := ec.ex, ec.st
	// ghost updates are visible to later statements
	ec.heap, ec.ghosts = st.heap, st.ghosts
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 {
			ec.fail("one assignment at a time")
		}
		switch x.Tok {
		case token.DEFINE:
			ec.locals[x.Lhs[0].(*ast.Ident).Name] = ec.eval(x.Rhs[0])
			return
		case token.ASSIGN:
			ec.assign(x.Lhs[0], ec.eval(x.Rhs[0]))
			return
		case token.ADD_ASSIGN, token.SUB_ASSIGN:
			op := token.ADD
			if x.Tok == token.SUB_ASSIGN {
				op = token.SUB
			}
			ec.assign(x.Lhs[0], ec.eval(&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: x.Rhs[0]}))
			return
		}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		ec.assign(x.X, ec.eval(&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}))
		return
	case *ast.IfStmt:
		c := ec.boolE(x.Cond)
		g := ec.guard
		if And(g, c) != tFalse {
			ec.guard = And(g, c)
			ec.exec(x.Body.List)
		}
		if x.Else != nil && And(g, Not(c)) != tFalse {
			ec.guard = And(g, Not(c))
			switch e := x.Else.(type) {
			case *ast.BlockStmt:
				ec.exec(e.List)
			default:
				ec.stmt(e)
			}
		}
		ec.guard = g
		return
	case *ast.BlockStmt:
		ec.exec(x.List)
		return
	case *ast.ExprStmt:
		c, ok := x.X.(*ast.CallExpr)
		if !ok {
			break
		}
		switch c.Fun.(*ast.Ident).Name {
		case "assert":
			lb := ec.strArg(c.Args[0])
			t := ec.boolE(c.Args[1])
			ex.oblige(st, lb, "assert", Imp(ec.guard, t), ex.here(st))
			return
		case "assume":
			st.assume(Imp(ec.guard, ec.boolE(c.Args[0])))
			return
		case "use":
			st.assume(Imp(ec.guard, ec.useLemma(c)))
			return
		case "havoc", "put":
			// the external function writes through this pointer: anything, or the given value
			d := ec.eval(c.Args[0])
			pt, ok := d.t.Underlying().(*types.Pointer)
			a, ok2 := d.v.(*Term)
			if !ok || !ok2 {
				ec.fail("havoc of a non-pointer")
			}
			old := ec.ex.load(st, a, pt.Elem())
			var nv Value
			if len(c.Args) > 1 {
				nv = ec.eval(c.Args[1]).v
			} else {
				nv = st.freshValue("havoc", pt.Elem())
				st.sliceFacts(nv)
			}
			fo, fn := flat(old, pt.Elem()), flat(nv, pt.Elem())
			if ec.guard != tTrue {
				if len(fo) != 1 {
					ec.fail("conditional havoc of a structure")
				}
				nv = Ite(ec.guard, fn[0], fo[0])
			}
			ec.ex.store(st, a, pt.Elem(), nv)
			return
		case "havocmap":
			// the contents of this map after a call that may change it
			d := ec.eval(c.Args[0])
			mt, ok := d.t.Underlying().(*types.Map)
			m, ok2 := d.v.(*Term)
			if !ok || !ok2 || ec.guard != tTrue {
				ec.fail("havocmap of what is not a map, or conditional")
			}
			ks, _ := mapKeySort(mt)
			mk := mapKey(mt)
			ln := st.fresh("len", SInt)
			st.assume(Le(Int(0), ln))
			ec.ex.put1(st, mk+"#len", m, ln)
			ec.ex.put1(st, mk+"#has", m, st.fresh("has", SArr(ks, SBool)))
			for _, l := range leaves(mt.Elem()) {
				ec.ex.put1(st, mk+"#v"+l.path, m, st.fresh("vals", SArr(ks, l.sort)))
			}
			return
		case "mark":
			st.imprecise(ec.strArg(c.Args[0]))
			return
		}
	case *ast.EmptyStmt:
		return
	}
	ec.fail("unsupported statement in rule")
}

// useLemma: instance of a lemma: requires => ensures
func (ec *evalCtx) useLemma(c *ast.CallExpr) *Term {
	name := c.Args[0].(*ast.Ident).Name
	for _, l := range ec.ex.D.lemmas {
		if l.name != name {
			continue
		}
		if len(c.Args)-1 != len(l.params) {
			ec.fail("lemma %s needs %d arguments", name, len(l.params))
		}
		m := ec.with(func(m *evalCtx) {
			for i, p := range l.params {
				m.locals[p[0]] = ec.eval(c.Args[i+1])
			}
		})
		var rs, es []*Term
		for _, r := range l.requires {
			rs = append(rs, m.boolE(r.expr))
		}
		for _, e := range l.ensures {
			es = append(es, m.boolE(e.expr))
		}
		return Imp(And(rs...), And(es...))
	}
	ec.fail("unknown lemma %s", name)
	return nil
}

// ---- exits

// bindResults names the results of the function, or of the last stage
func (ex *Exec) bindResults(st *State, res Value) {
	if res == nil {
		return
	}
	names, sig := ex.U.spec.results, ex.U.fn.Signature
	if st.stage > 0 {
		names, sig = ex.U.spec.thens[st.stage-1].res, st.stageSig
	}
	n := map[string]DV{}
	for k, v := range st.named {
		n[k] = v
	}
	rs := resDVs(res, sig.Results())
	for i, d := range rs {
		if i < len(names) && names[i] != "_" {
			n[names[i]] = d
		}
	}
	if len(rs) == 1 {
		n["result"] = rs[0]
	}
	st.named = n
}

// nextStage makes the next call the contract lists, with arbitrary arguments
func (ex *Exec) nextStage(st *State, f *Frame) {
	th := ex.U.spec.thens[st.stage]
	if !ex.feasible(st) {
		return
	}
	ec := ex.newEval(st)
	var fv *Term
	var sig *types.Signature
	var recv DV
	var m *types.Func
	if se, ok := th.fun.(*ast.SelectorExpr); ok {
		if d, err := ec.value(se.X); err == nil && d.t != nil {
			if o, _, _ := types.LookupFieldOrMethod(d.t, true, ex.U.pkg, se.Sel.Name); o != nil {
				if mf, ok := o.(*types.Func); ok {
					recv, m = d, mf
					sig = mf.Type().(*types.Signature)
				}
			}
		}
	}
	if m == nil {
		d, err := ec.value(th.fun)
		if err != nil {
			ex.abort("then %s: %v", th.src, err)
			return
		}
		ok := false
		if sig, ok = d.t.Underlying().(*types.Signature); !ok {
			ex.abort("then %s: not a function", th.src)
			return
		}
		fv = d.v.(*Term)
	}
	st.stage++
	st.stageSig = sig
	n := map[string]DV{}
	for k, v := range st.named {
		n[k] = v
	}
	if len(th.params) != sig.Params().Len() {
		ex.abort("then %s: takes %d parameters", th.src, sig.Params().Len())
		return
	}
	var args []Value
	for i, p := range th.params {
		t := sig.Params().At(i).Type()
		v := st.freshValue("then_"+p, t)
		st.sliceFacts(v)
		args = append(args, v)
		n[p] = DV{v, t}
	}
	st.named = n
	if th.when != nil {
		t, err := ex.newEval(st).boolExpr(th.when)
		if err != nil {
			ex.abort("then %s: %v", th.src, err)
			return
		}
		st.assume(t)
	}
	if !ex.feasible(st) {
		return
	}
	var got Value
	ret := func(_ *State, v Value) { got = v }
	onRet := func(*Exec, *State, Value) {}
	ok := false
	if m != nil {
		rt, isT := recv.v.(*Term)
		if !isT {
			ex.abort("then %s: unsupported receiver", th.src)
			return
		}
		ex.oblige(st, "usable-result", "panic", Ne(rt, zeroTerm(rt.sort)), "the value called is nil")
		if types.IsInterface(recv.t) {
			st.assume(Ne(rt, zeroTerm(rt.sort)))
			ok = ex.invoke(st, rt, m, recv.t, args, ret, nil, onRet, false)
		} else {
			fn := ex.P.prog.FuncValue(m)
			if fn == nil {
				ex.abort("then %s: no such function", th.src)
				return
			}
			st.assume(Ne(rt, zeroTerm(rt.sort)))
			ok = ex.callFn(st, fn, append([]Value{rt}, args...), nil, ret, nil, onRet, false)
		}
	} else {
		if fv.op != "func" && fv.op != "closure" {
			ex.oblige(st, "usable-result", "panic", Ne(fv, Int(0)), "the function returned is nil")
			st.assume(Ne(fv, Int(0)))
			if !ex.feasible(st) {
				return
			}
		}
		ok = ex.callTerm(st, fv, sig, args, ret, nil, onRet, false)
	}
	if !ok {
		return
	}
	if len(st.frames) == 0 {
		ex.exit(st, f, got)
	} else {
		ex.push(st)
	}
}

func (ex *Exec) exitCtx(st *State, res Value) *evalCtx { return ex.newEval(st) }

func (ex *Exec) exit(st *State, f *Frame, res Value) {
	if ex.collect != nil {
		*ex.collect = append(*ex.collect, st)
		return
	}
	if !st.rootDone {
		if ex.probe == nil {
			ex.bindResults(st, res)
			if st.stage < len(ex.U.spec.thens) {
				ex.nextStage(st, f)
				return
			}
		}
		st.rootDone = true
		st.result = res
	}
	res = st.result
	if ex.probe != nil {
		return
	}
	sp := ex.U.spec
	if sp.opts["runpending"] != "" && len(st.pend) > 0 {
		if ex.runPending(st) {
			if len(st.frames) == 0 {
				ex.exit(st, f, nil)
			} else {
				ex.push(st)
			}
		}
		return
	}
	if !ex.feasible(st) {
		return
	}
	ex.exits++
	where := f.fn.String()
	if sp.opts["nolockcheck"] == "" {
		ex.oblige(st, "lock-released", "deadlock", Bool(len(st.locks) == 0), where+" returns with a lock held")
	}
	ex.returns++
	ec := ex.exitCtx(st, res)
	for _, c := range sp.ensures {
		t, err := ec.boolExpr(c.expr)
		if err != nil {
			ex.abort("ensures %s: %v", c.label, err)
			return
		}
		ex.oblige(st, c.label, "ensures", t, "exit of "+shortKey(where))
	}
	for _, c := range sp.mustp {
		t, err := ec.boolExpr(c.expr)
		if err != nil {
			ex.abort("mustpanic %s: %v", c.label, err)
			return
		}
		ex.oblige(st, c.label, "mustpanic", Not(t), "normal exit of "+shortKey(where))
	}
}

func (ex *Exec) exitPanic(st *State, f *Frame) {
	if ex.probe != nil {
		return
	}
	if !ex.feasible(st) {
		return
	}
	sp := ex.U.spec
	if sp.opts["nolockcheck"] == "" {
		ex.oblige(st, "lock-released", "deadlock", Bool(len(st.locks) == 0), st.panicWhy+" leaves a lock held")
	}
	if st.rootDone {
		ex.oblige(st, "no-panic", "panic", tFalse, "goroutine: "+st.panicWhy)
		return
	}
	if len(sp.panics) == 0 && len(sp.mustp) == 0 {
		if !ex.U.maypanic {
			ex.oblige(st, "no-panic", "panic", tFalse, st.panicWhy)
		}
		return
	}
	ex.exits++
	ec := ex.newEval(st)
	if st.panicVal != nil {
		ec.locals["panicvalue"] = DV{st.panicVal, anyT}
	}
	if len(sp.panics) == 0 {
		// panics only when it must
		var ts []*Term
		for _, c := range sp.mustp {
			t, err := ec.boolExpr(c.expr)
			if err != nil {
				ex.abort("mustpanic %s: %v", c.label, err)
				return
			}
			ts = append(ts, t)
		}
		ex.oblige(st, "no-other-panic", "panic", Or(ts...), st.panicWhy)
		return
	}
	for _, c := range sp.panics {
		t, err := ec.boolExpr(c.expr)
		if err != nil {
			ex.abort("panics %s: %v", c.label, err)
			return
		}
		ex.oblige(st, c.label, "panics", t, st.panicWhy)
	}
}

func (ex *Exec) exitProcess(st *State) {
	if ex.probe != nil {
		return
	}
	if !ex.feasible(st) {
		return
	}
	sp := ex.U.spec
	ex.exits++
	if sp.opts["noexit"] != "" {
		ex.oblige(st, "no-exit", "panic", tFalse, st.exitWhy)
	}
	ec := ex.newEval(st)
	for _, c := range sp.exits {
		t, err := ec.boolExpr(c.expr)
		if err != nil {
			ex.abort("exits %s: %v", c.label, err)
			return
		}
		ex.oblige(st, c.label, "exits", t, st.exitWhy)
	}
}

// ---- modular contracts

// applyContract: the callee is represented by its contract
func (ex *Exec) applyContract(st *State, c *FuncSpec, fn *ssa.Function, args []Value, ret func(*State, Value)) bool {
	ec := ex.newEval(st)
	ec.noParams = true
	ec.self = nil
	i := 0
	if fn.Signature.Recv() != nil {
		d := DV{args[0], fn.Params[0].Type()}
		ec.self = &d
		i = 1
	}
	for k, p := range c.params {
		if i+k < len(args) {
			ec.locals[p] = DV{args[i+k], fn.Params[i+k].Type()}
		}
	}
	if fn.Pkg != nil {
		ec.pkg = fn.Pkg.Pkg
	}
	for _, r := range c.requires {
		t, err := ec.boolExpr(r.expr)
		if err != nil {
			ex.abort("requires %s of %s: %v", r.label, c.name, err)
			return false
		}
		ex.oblige(st, "pre:"+shortKey(c.name)+":"+r.label, "precondition", t, ex.here(st))
		st.assume(t)
	}
	pre := copyHeap(st.heap)
	preG := map[string]Value{}
	for k, v := range st.ghosts {
		preG[k] = v
	}
	for _, m := range c.modifies {
		if t, ok := ex.U.ghostT[m]; ok {
			if s, ok := ghostSort(t); ok {
				st.ghosts[m] = st.fresh("g_"+m, s)
			} else {
				st.ghosts[m] = st.freshValue("g_"+m, t)
			}
			ex.noteGhost(st, m)
			continue
		}
		// heap key prefix
		for _, k := range sortedKeys(ex.allHeap(st)) {
			if k == m || strings.HasPrefix(m, "*") || strings.HasPrefix(k, m+".") || shortKey(k) == m || strings.HasPrefix(shortKey(k), m) {
				v := st.fresh("C:"+k, ex.keySort(st, k))
				born[v] = st.herePos()
				varKey[v] = k
				st.heap[k] = v
				ex.noteWrite(st, k, nil)
			}
		}
	}
	res := ex.freshResults(st, shortHint(c.name), fn.Signature.Results())
	pc := ex.newEval(st)
	pc.noParams, pc.self, pc.pkg = true, ec.self, ec.pkg
	for k, v := range ec.locals {
		pc.locals[k] = v
	}
	for k, d := range resDVs(res, fn.Signature.Results()) {
		if k < len(c.results) {
			pc.locals[c.results[k]] = d
		}
		if fn.Signature.Results().Len() == 1 {
			pc.locals["result"] = d
		}
	}
	// old() in the contract means the state before the call
	sv := ex.entry
	ent := st.clone()
	ent.heap, ent.ghosts = pre, preG
	ex.entry = ent
	for _, e := range c.ensures {
		t, err := pc.boolExpr(e.expr)
		if err != nil {
			ex.entry = sv
			ex.abort("ensures %s of %s: %v", e.label, c.name, err)
			return false
		}
		st.assume(t)
	}
	ex.entry = sv
	ret(st, res)
	return true
}

func (ex *Exec) allHeap(st *State) map[string]*Term {
	m := map[string]*Term{}
	for k, v := range ex.baseHeap {
		m[k] = v
	}
	for k, v := range st.heap {
		m[k] = v
	}
	return m
}
