package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is *Term, *StructV, *SliceV or *IterV
type Value interface{}

type StructV struct{ f []Value }

// SliceV: window [off, off+n) of the element store of ref; ref 0 is nil
type SliceV struct {
	ref, off, n *Term
	elem        types.Type
}

type IterV struct {
	key string // heap key of the iteration state
	m   *Term  // map ref (nil for strings)
	mt  *types.Map
	str *Term
}

var qual = func(p *types.Package) string { return p.Path() }

var keyType = map[string]types.Type{}
var typeKeyCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(t, qual)
	typeKeyCache[t] = s
	if _, ok := keyType[s]; !ok {
		keyType[s] = t
	}
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// opaque struct types: one Int leaf
var opaqueStructs = map[string]bool{
	"time.Time":     true,
	"reflect.Value": true,
}

// noLeaf types carry no data we model
var unitStructs = map[string]bool{
	"sync.Mutex": true, "sync.RWMutex": true, "sync.Cond": true, "sync.Once": true, "sync.WaitGroup": true,
	"sync.noCopy": true, "strings.Builder": true, "bytes.Buffer": true, "sync.Pool": true, "sync.Map": true,
	"sync/atomic.Int64": true, "sync/atomic.Int32": true, "sync/atomic.Value": true, "sync/atomic.Bool": true,
	"container/list.List": true,
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func structOf(t types.Type) (*types.Struct, bool) {
	k := typeKey(t)
	if opaqueStructs[k] {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func isUnit(t types.Type) bool { return unitStructs[typeKey(t)] }

func basicKind(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// scalar sort of a type, ok=false when composite
func scalarSort(t types.Type) (Sort, bool) {
	if opaqueStructs[typeKey(t)] {
		return SInt, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return SBool, true
		}
		if u.Info()&types.IsString != 0 {
			return SStr, true
		}
		if u.Info()&types.IsFloat != 0 {
			return SReal, true
		}
		return SInt, true
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt, true
	case *types.Slice:
		if isByteSlice(t) {
			return SStr, true
		}
		return "", false
	}
	return "", false
}

type leaf struct {
	path string
	sort Sort
	typ  types.Type // Go type of the leaf (nil for slice parts)
	ref  bool
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// flatten a type into leaves
func leaves(t types.Type) []leaf {
	if s, ok := scalarSort(t); ok {
		return []leaf{{"", s, t, isRefType(t)}}
	}
	if isUnit(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []leaf{{"!ref", SInt, nil, true}, {"!off", SInt, nil, false}, {"!len", SInt, nil, false}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.path = "." + u.Field(i).Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.path = fmt.Sprintf(".%d", i) + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			return []leaf{{"!arr", SInt, nil, false}}
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				l.path = fmt.Sprintf("[%d]", i) + l.path
				out = append(out, l)
			}
		}
		return out
	}
	return []leaf{{"", SInt, t, false}}
}

// flat lists the leaf terms of v in leaves() order
func flat(v Value, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		if isUnit(t) {
			return nil
		}
		return []*Term{x}
	case *SliceV:
		return []*Term{x.ref, x.off, x.n}
	case *StructV:
		var out []*Term
		if isUnit(t) {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x.f {
				out = append(out, flat(x.f[i], u.Field(i).Type())...)
			}
		case *types.Tuple:
			for i := range x.f {
				out = append(out, flat(x.f[i], u.At(i).Type())...)
			}
		case *types.Array:
			for i := range x.f {
				out = append(out, flat(x.f[i], u.Elem())...)
			}
		default:
			panic("flat: " + typeKey(t))
		}
		return out
	}
	panic(fmt.Sprintf("flat: %T of %s", v, typeKey(t)))
}

// unflat rebuilds a value from leaf terms
func unflat(ts []*Term, t types.Type) Value {
	v, rest := unflat1(ts, t)
	if len(rest) != 0 {
		panic("unflat: leftover")
	}
	return v
}

func unflat1(ts []*Term, t types.Type) (Value, []*Term) {
	if isUnit(t) {
		return &StructV{}, ts
	}
	if _, ok := scalarSort(t); ok {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], u.Elem()}, ts[3:]
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ts = unflat1(ts, u.Field(i).Type())
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Tuple:
		s := &StructV{}
		for i := 0; i < u.Len(); i++ {
			var v Value
			v, ts = unflat1(ts, u.At(i).Type())
			s.f = append(s.f, v)
		}
		return s, ts
	case *types.Array:
		if u.Len() > 64 {
			return ts[0], ts[1:]
		}
		s := &StructV{}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = unflat1(ts, u.Elem())
			s.f = append(s.f, v)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return tFalse
	case SStr:
		return Str("")
	case SReal:
		return mk("real", SReal, "0.0", nil)
	}
	k, v := splitArr(s)
	_ = k
	return ConstArr(s, zeroTerm(v))
}

func zeroValue(t types.Type) Value {
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroTerm(l.sort)
	}
	return unflat(ts, t)
}

// eqValue: Go == on values of type t
func eqValue(a, b Value, t types.Type) *Term {
	if _, ok := a.(*SliceV); ok {
		// comparison with nil only
		x, y := a.(*SliceV), b.(*SliceV)
		return Eq(x.ref, y.ref)
	}
	fa, fb := flat(a, t), flat(b, t)
	var es []*Term
	for i := range fa {
		es = append(es, Eq(fa[i], fb[i]))
	}
	return And(es...)
}

func iteValue(c *Term, a, b Value, t types.Type) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	fa, fb := flat(a, t), flat(b, t)
	out := make([]*Term, len(fa))
	for i := range fa {
		out[i] = Ite(c, fa[i], fb[i])
	}
	return unflat(out, t)
}

func shortKey(k string) string {
	k = strings.ReplaceAll(k, "github.com/chanjarster/gears/", "")
	return k
}
