property C25
pkgs ./conf
pure conf.visitExportedFieldsPath conf.visitExportedFields conf.initPtrValue conf.envStyle conf.flagStyle
nonnil *flag.NewFlagSet *reflect.Value*.Type *Type.Elem *reflect.TypeOf
assume "package reflect does what its documentation says: a Value is a function of what it was obtained from; Kind, IsNil, CanSet, Elem, Field, NumField, Type and Addr are functions of the value; fields are settable exactly when addressable and reached through exported fields only"
assume "the configuration type is not recursive (the traversal of a recursive one need not end), and the visitor does not change which fields there are or which pointers are nil"
assume "package variables keep the values the package initialiser gives them; the FlagSet methods bind what they are given, as documented; the program has a name (os.Args is not empty)"

# the identity of a reflect.Value, and what reflection says about it
spec I(v) = uf("value", "int", v)
spec kind(x) = uf("kind", "int", x)
spec isnil(x) = uf("is nil", "bool", x)
spec canset(x) = uf("can set", "bool", x)
spec elem(x) = uf("elem", "int", x)
spec field(x, i) = uf("field", "int", x, i)
spec nfields(x) = uf("fields", "int", x)
spec typeof(x) = uf("type of", "int", x)
spec root(p) = uf("value of", "int", p)
spec T(t) = uf("type", "int", t)
spec fname(t, i) = uf("field name", "string", t, i)
spec fanon(t, i) = uf("field embedded", "bool", t, i)

# what is to be visited
spec basic(k) = k == 1 || k == 2 || k == 6 || k == 7 || k == 11 || k == 14 || k == 24
spec target(x) = ite(kind(x) == 22, elem(x), x)
spec sub(t, i, p) = ite(fanon(typeof(t), i), p, ite(p == "", fname(typeof(t), i), p + "." + fname(typeof(t), i)))
# the number of visits in a field, in a target, in the first i fields of a struct
spec count(x) = uf("count", "int", x)
spec tcount(t) = uf("target count", "int", t)
spec upto(t, i) = uf("count of the first fields", "int", t, i)
# the j-th visit in it
spec leafval(x, j) = uf("leaf", "int", x, j)
spec leafpath(x, p, j) = uf("leaf path", "string", x, p, j)
spec tleafval(t, j) = uf("target leaf", "int", t, j)
spec tleafpath(t, p, j) = uf("target leaf path", "string", t, p, j)
# an arbitrary position
spec K() = uf("any visit", "int", 0)

# the definitions, for the value x with path p
spec defs(x, p) = count(x) == ite(kind(x) == 22 && isnil(x), 0, tcount(target(x))) && leafval(x, K()) == tleafval(target(x), K()) && leafpath(x, p, K()) == tleafpath(target(x), p, K()) && tdefs(target(x), p)
spec tdefs(t, p) = nfields(t) >= 0 && upto(t, 0) == 0 && tcount(t) == ite(!canset(t), 0, ite(basic(kind(t)), 1, ite(kind(t) == 25, upto(t, nfields(t)), 0))) && implies(basic(kind(t)), tleafval(t, 0) == t && tleafpath(t, p, 0) == p)
spec stepdefs(t, i, p) = upto(t, i+1) == upto(t, i) + count(field(t, i)) && count(field(t, i)) >= 0 && implies(upto(t, i) <= K() && K() < upto(t, i+1), tleafval(t, K()) == leafval(field(t, i), K() - upto(t, i)) && tleafpath(t, p, K()) == leafpath(field(t, i), sub(t, i, p), K() - upto(t, i)))

block REFLECT {
  on extern *reflect.ValueOf(p)(r) { assume(I(r) == root(p)) }
  on extern *reflect.Value*.Kind(v)(r) { assume(r == kind(I(v)) && 0 <= r) }
  on extern *reflect.Value*.IsNil(v)(r) { assert("IsNil of a pointer", kind(I(v)) == 22); assume(r == isnil(I(v))) }
  on extern *reflect.Value*.CanSet(v)(r) { assume(r == canset(I(v))) }
  on extern *reflect.Value*.Elem(v)(r) { assert("Elem of a pointer", kind(I(v)) == 22); assume(implies(!isnil(I(v)), I(r) == elem(I(v))) && implies(isnil(I(v)), !canset(I(r)) && kind(I(r)) == 0)) }
  on extern *reflect.Value*.NumField(v)(r) { assert("NumField of a struct", kind(I(v)) == 25); assume(r == nfields(I(v)) && r >= 0) }
  on extern *reflect.Value*.Type(v)(r) { assert("Type of a valid value", kind(I(v)) != 0); assume(T(r) == typeof(I(v))) }
  on invoke *reflect.Type.Field(t, i)(r) { assume(r.Name == fname(T(t), i) && r.Anonymous == fanon(T(t), i)) }
}
block VISIT {
  insert REFLECT
  ghost n int
  ghost hp string
  ghost hv int
  on extern *reflect.Value*.Field(v, i)(r) {
    assert("a field of the struct", kind(I(v)) == 25 && 0 <= i && i < nfields(I(v)))
    assume(I(r) == field(I(v), i) && stepdefs(I(v), i, P()))
  }
  on call fn(q, f, x)() {
    if n == K() {
      hp = q
      hv = I(x)
    }
    n++
  }
  on extern conf.visitExportedFieldsPath(f, x, q, g)() {
    assert("the same visitor", g == fn)
    if n <= K() && K() < n + count(I(x)) {
      hp = leafpath(I(x), q, K() - n)
      hv = leafval(I(x), K() - n)
    }
    n += count(I(x))
  }
  invariant[visited so far](t reflect.Value, i int) :: n == upto(I(t), i) && implies(0 <= K() && K() < n, hp == tleafpath(I(t), P(), K()) && hv == tleafval(I(t), K()))
  invariant[within the fields](t reflect.Value, i int) :: 0 <= i && i <= nfields(I(t))
  invariant[within the fields](t reflect.Value, i int) :: 0 <= i+1 && i+1 <= nfields(I(t))
  invariant[visited so far](t reflect.Value, i int) :: n == upto(I(t), i+1) && implies(0 <= K() && K() < n, hp == tleafpath(I(t), P(), K()) && hv == tleafval(I(t), K()))
}
spec P() = uf("the path", "string", 0)
func conf.visitExportedFieldsPath(f, v, path, fn) {
  insert VISIT
  requires fn != nil && path == P() && defs(I(v), path)
  ensures[every leaf is visited exactly once, in order] n == count(I(v))
  ensures[under its path, with its value] implies(0 <= K() && K() < n, hp == leafpath(I(v), path, K()) && hv == leafval(I(v), K()))
}
# the configuration itself: a structure or a pointer to one
func conf.visitExportedFields(p, fn) {
  insert VISIT
  requires fn != nil && P() == "" && defs(root(p), "") && implies(kind(root(p)) != 22 || !isnil(root(p)), kind(target(root(p))) == 25 || !canset(target(root(p))))
  ensures[every leaf is visited exactly once, in order] n == count(root(p))
  ensures[under its path, with its value] implies(0 <= K() && K() < n, hp == leafpath(root(p), "", K()) && hv == leafval(root(p), K()))
}

# allocation: the number of nil exported pointers in a value, once those above it are allocated
spec needs(x) = uf("needs", "int", x)
spec tneeds(t) = uf("target needs", "int", t)
spec nupto(t, i) = uf("needs of the first fields", "int", t, i)
# what a nil pointer points to once it is allocated
spec made(x) = uf("made", "int", x)
spec ndefs(x) = needs(x) == ite(kind(x) == 22, ite(isnil(x), ite(canset(x), 1 + tneeds(made(x)), 0), tneeds(elem(x))), tneeds(x)) && ntdefs(x) && ntdefs(elem(x)) && ntdefs(made(x))
spec ntdefs(t) = nfields(t) >= 0 && nupto(t, 0) == 0 && tneeds(t) == ite(canset(t) && kind(t) == 25, nupto(t, nfields(t)), 0)
block ALLOC {
  ghost allocated int
  ghost set int
  ghost news int
  ghost new int
  on extern *reflect.ValueOf(p)(r) { assume(I(r) == root(p)) }
  on extern *reflect.Value*.Kind(v)(r) { assume(r == kind(I(v)) && 0 <= r) }
  on extern *reflect.Value*.CanSet(v)(r) { assume(r == canset(I(v))) }
  on extern *reflect.Value*.IsNil(v)(r) { assert("IsNil of a pointer", kind(I(v)) == 22); assume(r == (isnil(I(v)) && !(set == 1 && I(v) == root0()))) }
  on extern *reflect.Value*.Elem(v)(r) {
    assert("Elem of a pointer", kind(I(v)) == 22)
    if set == 1 && I(v) == root0() {
      assume(I(r) == made(I(v)))
    } else {
      assume(implies(!isnil(I(v)), I(r) == elem(I(v))) && implies(isnil(I(v)), !canset(I(r)) && kind(I(r)) == 0))
    }
  }
  on extern *reflect.Value*.Type(v)(t) { assert("Type of a valid value", kind(I(v)) != 0); assume(T(t) == typeof(I(v))) }
  on invoke *reflect.Type.Elem(t)(r) { assume(T(r) == ptrelem(T(t))) }
  on invoke *reflect.Type.Field(t, i)(r) { assume(r.Name == fname(T(t), i) && r.Anonymous == fanon(T(t), i)) }
  on extern *reflect.Value*.NumField(v)(r) { assert("NumField of a struct", kind(I(v)) == 25); assume(r == nfields(I(v)) && r >= 0) }
  on extern *reflect.Value*.Field(v, i)(r) {
    assert("a field of the struct", kind(I(v)) == 25 && 0 <= i && i < nfields(I(v)))
    assume(I(r) == field(I(v), i) && nupto(I(v), i+1) == nupto(I(v), i) + needs(field(I(v), i)))
  }
  on extern *reflect.New(t)(r) { news++; new = I(r); assume(uf("new type", "int", I(r)) == T(t)) }
  on extern *reflect.Value*.Set(v, x)() {
    assert("exactly the nil exported pointers are set, each once", set == 0 && I(v) == root0() && kind(I(v)) == 22 && isnil(I(v)) && canset(I(v)))
    assert("to a new value of their own type", news == 1 && I(x) == new && uf("new type", "int", I(x)) == ptrelem(typeof(I(v))))
    set++
    allocated++
  }
  on extern *reflect.Value*.SetZero(v)() { assert("all other values are kept", false) }
  on extern *reflect.Value*.SetInt(v, x)() { assert("all other values are kept", false) }
  on extern *reflect.Value*.SetUint(v, x)() { assert("all other values are kept", false) }
  on extern *reflect.Value*.SetBool(v, x)() { assert("all other values are kept", false) }
  on extern *reflect.Value*.SetFloat(v, x)() { assert("all other values are kept", false) }
  on extern *reflect.Value*.SetString(v, x)() { assert("all other values are kept", false) }
  on extern conf.initPtrValue(x, q)() { allocated += needs(I(x)) }
  invariant[allocated so far](t reflect.Value, i int) :: allocated == set + nupto(I(t), i) && 0 <= i && i <= nfields(I(t))
  invariant[allocated so far](t reflect.Value, i int) :: allocated == set + nupto(I(t), i+1) && 0 <= i+1 && i+1 <= nfields(I(t))
}
spec ptrelem(t) = uf("pointer elem", "int", t)
spec root0() = uf("the value", "int", 0)
func conf.initPtrValue(v, path) {
  insert ALLOC
  requires I(v) == root0() && ndefs(I(v))
  ensures[every nil exported pointer is allocated] allocated == needs(I(v))
}
func conf.initStruct(p) {
  insert ALLOC
  requires root(p) == root0() && ndefs(root(p))
  ensures[every nil exported pointer is allocated] allocated == needs(root(p))
}

# binding: what one visit does, at any point of the traversal. Types: the number of a basic type is its kind, time.Duration is 100.
spec tkind(t) = ite(t == 100, 6, uf("kind of type", "int", t))
spec ptrto(t) = uf("pointer to", "int", t)
spec storage(x, t) = uf("storage", "int", x, t)
spec supported(x) = basic(kind(x)) && canset(x) && kind(x) == tkind(typeof(x)) && isbasic(typeof(x))
# a basic type is its own kind; other types of that kind are defined ones
spec isbasic(t) = tkind(1) == 1 && tkind(2) == 2 && tkind(6) == 6 && tkind(7) == 7 && tkind(11) == 11 && tkind(14) == 14 && tkind(24) == 24 && t > 0
spec bindkind(x) = ite(typeof(x) == 100, 100, kind(x))
spec bval(x) = uf("bool of", "bool", x)
spec ival(x) = uf("int of", "int", x)
spec uval(x) = uf("uint of", "int", x)
spec fval(x) = uf("float of", "float64", x)
spec sval(x) = uf("string of", "string", x)
spec ptrval(x, t) = uf("pointer in interface", "int", x, t)

block TYPES {
  on extern *reflect.TypeOf(x)(r) {
    assume(r == uf("the type", "reflect.Type", T(r)))
    assume(implies(typeis(x, bool), T(r) == 1) && implies(typeis(x, int), T(r) == 2) && implies(typeis(x, int64), T(r) == 6) && implies(typeis(x, uint), T(r) == 7) && implies(typeis(x, uint64), T(r) == 11) && implies(typeis(x, float64), T(r) == 14) && implies(typeis(x, string), T(r) == 24) && implies(typeis(x, time.Duration), T(r) == 100))
  }
  on extern *reflect.PtrTo(t)(r) { assume(r == uf("the type", "reflect.Type", T(r)) && T(r) == ptrto(T(t))) }
  on extern *reflect.PointerTo(t)(r) { assume(r == uf("the type", "reflect.Type", T(r)) && T(r) == ptrto(T(t))) }
  on invoke *reflect.Type.Kind(t)(r) { assume(r == tkind(T(t))) }
  on extern *reflect.Value*.Kind(x)(r) { assume(r == kind(I(x))) }
  on extern *reflect.Value*.CanSet(x)(r) { assume(r == canset(I(x))) }
  on extern *reflect.Value*.Type(x)(r) { assume(r == uf("the type", "reflect.Type", T(r)) && T(r) == typeof(I(x))) }
  on extern *reflect.Value*.Addr(x)(r) { assert("Addr of an addressable value", canset(I(x))); assume(typeof(I(r)) == ptrto(typeof(I(x))) && uf("points to", "int", I(r)) == I(x) && kind(I(r)) == 22) }
  on extern *reflect.Value*.Convert(x, t)(r) {
    assert("Convert to a pointer to a basic type of the same kind", kind(I(x)) == 22 && (T(t) == typeof(I(x)) || basic(tkind(typeof(uf2(x)))) && T(t) == ptrto(tkind(typeof(uf2(x))))))
    assume(typeof(I(r)) == T(t) && uf("points to", "int", I(r)) == uf2(x) && kind(I(r)) == 22)
  }
  on extern *reflect.Value*.Interface(x)(r) {
    assume(typeis(r, *bool) == (typeof(I(x)) == ptrto(1)) && typeis(r, *int) == (typeof(I(x)) == ptrto(2)) && typeis(r, *int64) == (typeof(I(x)) == ptrto(6)) && typeis(r, *uint) == (typeof(I(x)) == ptrto(7)) && typeis(r, *uint64) == (typeof(I(x)) == ptrto(11)) && typeis(r, *float64) == (typeof(I(x)) == ptrto(14)) && typeis(r, *string) == (typeof(I(x)) == ptrto(24)) && typeis(r, *time.Duration) == (typeof(I(x)) == ptrto(100)))
    assume(implies(typeis(r, *bool), r.(*bool) == uf("bool storage", "*bool", uf2(x)) && r.(*bool) != nil && *(r.(*bool)) == bval(uf2(x))))
    assume(implies(typeis(r, *int), r.(*int) == uf("int storage", "*int", uf2(x)) && r.(*int) != nil && *(r.(*int)) == ival(uf2(x))))
    assume(implies(typeis(r, *int64), r.(*int64) == uf("int64 storage", "*int64", uf2(x)) && r.(*int64) != nil && *(r.(*int64)) == ival(uf2(x))))
    assume(implies(typeis(r, *uint), r.(*uint) == uf("uint storage", "*uint", uf2(x)) && r.(*uint) != nil && *(r.(*uint)) == uval(uf2(x))))
    assume(implies(typeis(r, *uint64), r.(*uint64) == uf("uint64 storage", "*uint64", uf2(x)) && r.(*uint64) != nil && *(r.(*uint64)) == uval(uf2(x))))
    assume(implies(typeis(r, *float64), r.(*float64) == uf("float64 storage", "*float64", uf2(x)) && r.(*float64) != nil && *(r.(*float64)) == fval(uf2(x))))
    assume(implies(typeis(r, *string), r.(*string) == uf("string storage", "*string", uf2(x)) && r.(*string) != nil && *(r.(*string)) == sval(uf2(x))))
    assume(implies(typeis(r, *time.Duration), r.(*time.Duration) == uf("duration storage", "*time.Duration", uf2(x)) && r.(*time.Duration) != nil && *(r.(*time.Duration)) == ival(uf2(x))))
  }
  on extern *reflect.Value*.Bool(x)(r) { assert("Bool of a bool", kind(I(x)) == 1); assume(r == bval(I(x))) }
  on extern *reflect.Value*.Int(x)(r) { assert("Int of an int", kind(I(x)) == 2 || kind(I(x)) == 6); assume(r == ival(I(x))) }
  on extern *reflect.Value*.Uint(x)(r) { assert("Uint of a uint", kind(I(x)) == 7 || kind(I(x)) == 11); assume(r == uval(I(x))) }
  on extern *reflect.Value*.Float(x)(r) { assert("Float of a float", kind(I(x)) == 14); assume(r == fval(I(x))) }
  on extern *reflect.Value*.String(x)(r) { assert("String of a string", kind(I(x)) == 24); assume(r == sval(I(x))) }
}
spec uf2(x) = uf("points to", "int", I(x))

block BIND {
  option startup
  insert TYPES
  ghost visits int
  ghost binds int
  ghost cb conf.visitor
  ghost known int
  ghost fset *flag.FlagSet
  on extern *flag.FlagSet*.BoolVar(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 1 && n == name() && p == uf("bool storage", "*bool", I(v)) && d == bval(I(v))); binds++ }
  on extern *flag.FlagSet*.IntVar(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 2 && n == name() && p == uf("int storage", "*int", I(v)) && d == ival(I(v))); binds++ }
  on extern *flag.FlagSet*.Int64Var(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 6 && n == name() && p == uf("int64 storage", "*int64", I(v)) && d == ival(I(v))); binds++ }
  on extern *flag.FlagSet*.UintVar(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 7 && n == name() && p == uf("uint storage", "*uint", I(v)) && d == uval(I(v))); binds++ }
  on extern *flag.FlagSet*.Uint64Var(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 11 && n == name() && p == uf("uint64 storage", "*uint64", I(v)) && d == uval(I(v))); binds++ }
  on extern *flag.FlagSet*.Float64Var(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 14 && n == name() && p == uf("float64 storage", "*float64", I(v)) && d == fval(I(v))); binds++ }
  on extern *flag.FlagSet*.StringVar(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 24 && n == name() && p == uf("string storage", "*string", I(v)) && d == sval(I(v))); binds++ }
  on extern *flag.FlagSet*.DurationVar(s, p, n, d, u)() { assert("bound once, with its own parser, name, storage and default", binds == 0 && s == fset && bindkind(I(v)) == 100 && n == name() && p == uf("duration storage", "*time.Duration", I(v)) && d == ival(I(v))); binds++ }
  ensures[every visited field is bound] visits == 1 && binds == 1
}
func conf.(*flagResolver).init(p) {
  insert BIND
  on extern conf.visitExportedFields(q, fn)() {
    assert("the fields of the configuration are visited once", q == p && visits == 0 && fn != nil)
    visits++
    cb = fn
    fset = self.flagSet
  }
  then cb(path, f, v)() when supported(I(v)) && boundname() == ext("conf.flagStyle", path)
  ghost given *flag.FlagSet = self.flagSet
  requires len(os.Args) >= 1
  ensures[the flag set given is used] implies(given != nil, fset == given) && fset != nil && self.flagSet == fset
}
func conf.(*envResolver).init(p) {
  insert BIND
  on extern conf.visitExportedFields(q, fn)() {
    assert("the fields of the configuration are visited once", q == p && visits == 0 && fn != nil)
    visits++
    cb = fn
    fset = self.flagSet
    havoc(self)
    assume(self.flagSet == fset)
    known = len(self.environ)
    if 0 <= K() && K() < known { earlier = self.environ[K()] }
  }
  then cb(path, f, v)() when supported(I(v)) && boundname() == ext("conf.envStyle", path)
  ghost earlier string
  ensures[the earlier ones are kept] implies(0 <= K() && K() < known, self.environ[K()] == earlier)
  ensures[looked up later, under its name] len(self.environ) == known + 1 && self.environ[known] == ext("conf.envStyle", path)
  ensures[in the flag set used] self.flagSet == fset && fset != nil
}
spec boundname() = uf("bound name", "string", 0)
spec name() = boundname()
