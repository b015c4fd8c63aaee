// verif-pkg: conf
package conf

import (
	"flag"
	"fmt"
	"io/ioutil"
	"math"
	"reflect"
	"strconv"
	"testing"
	"time"
	"unsafe"
)

type verifBool bool
type verifInt int
type verifInt64 int64
type verifUint uint
type verifUint64 uint64
type verifFloat float64
type verifText_ string

var verifLeafTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf(verifBool(false)), reflect.TypeOf(verifInt(0)), reflect.TypeOf(verifInt64(0)), reflect.TypeOf(verifUint(0)),
	reflect.TypeOf(verifUint64(0)), reflect.TypeOf(verifFloat(0)), reflect.TypeOf(verifText_("")),
}

var verifOtherTypes = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([]string(nil)),
	reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf([2]int{}),
	reflect.TypeOf((**int)(nil)), reflect.TypeOf(make(chan int)), reflect.TypeOf(complex(1, 1)),
}

type verifShape struct {
	v *verifRun
	n int
}

func (s *verifShape) name() string {
	s.n++
	return "X" + string(rune('a'+s.n/26%26)) + string(rune('a'+s.n%26))
}

func (s *verifShape) typ(depth int) reflect.Type {
	n := s.v.Intn(4)
	if depth == 0 {
		n++
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: s.name()}
		switch k := s.v.Intn(10); {
		case k < 4:
			f.Type = verifLeafTypes[s.v.Intn(len(verifLeafTypes))]
		case k == 4:
			f.Type = reflect.PtrTo(verifLeafTypes[s.v.Intn(len(verifLeafTypes))])
		case k == 5:
			f.Type = verifOtherTypes[s.v.Intn(len(verifOtherTypes))]
			if s.v.chance(0.30) {
				f.Type = reflect.PtrTo(f.Type)
			}
		case k == 6 && depth < 3:
			f.Type = s.typ(depth + 1)
		case k == 7 && depth < 3:
			f.Type = reflect.PtrTo(s.typ(depth + 1))
		case k == 8 && depth < 3:
			f.Type = s.typ(depth + 1)
			f.Anonymous = true
		case k == 9 && depth < 3:
			f.Type = reflect.PtrTo(s.typ(depth + 1))
			f.Anonymous = s.v.chance(0.70)
		default:
			f.Type = verifLeafTypes[s.v.Intn(len(verifLeafTypes))]
			f.Name = "hidden" + f.Name
			f.PkgPath = "verif/hidden"
			if s.v.chance(0.30) {
				f.Type = reflect.PtrTo(f.Type)
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// fill gives the fields arbitrary values and leaves some pointers nil
func (s *verifShape) fill(x reflect.Value) {
	switch x.Kind() {
	case reflect.Ptr:
		if s.v.chance(0.60) {
			x.Set(reflect.New(x.Type().Elem()))
			s.fill(x.Elem())
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			f := x.Field(i)
			if !f.CanSet() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			s.fill(f)
		}
	default:
		verifSetScalar(s.v, x)
	}
}

func verifSetScalar(v *verifRun, x reflect.Value) {
	pick := func(n int) bool { return v.chance(float64(n) / 100) }
	i := int64(v.Intn(2000) - 1000)
	if pick(20) {
		i = math.MaxInt64 - int64(v.Intn(3))
	} else if pick(20) {
		i = math.MinInt64 + int64(v.Intn(3))
	}
	switch x.Kind() {
	case reflect.Bool:
		x.SetBool(pick(50))
	case reflect.Int, reflect.Int64:
		x.SetInt(i)
	case reflect.Uint, reflect.Uint64:
		x.SetUint(uint64(i))
	case reflect.Float64:
		x.SetFloat(float64(i) / 8)
	case reflect.String:
		x.SetString(verifText(v, "ab =1-\"", 6))
	case reflect.Int8, reflect.Int32:
		x.SetInt(int64(v.Intn(100)))
	case reflect.Uint8:
		x.SetUint(uint64(v.Intn(100)))
	case reflect.Slice:
		if pick(50) {
			x.Set(reflect.ValueOf([]string{"x"}))
		}
	}
}

type verifLeaf struct {
	path, flag, env string
	val             reflect.Value
}

func verifLeaves(x reflect.Value, path, fl, env string, out *[]verifLeaf) {
	if x.Kind() == reflect.Ptr {
		if x.IsNil() {
			return
		}
		x = x.Elem()
	}
	switch x.Kind() {
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Anonymous {
				verifLeaves(x.Field(i), path, fl, env, out)
				continue
			}
			p, g, e := f.Name, "", ""
			g = "x" + f.Name[1:]
			for _, c := range f.Name {
				if c >= 'a' && c <= 'z' {
					c += 'A' - 'a'
				}
				e += string(c)
			}
			if path != "" {
				p, g, e = path+"."+p, fl+"-"+g, env+"_"+e
			}
			verifLeaves(x.Field(i), p, g, e, out)
		}
	case reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Float64, reflect.String:
		*out = append(*out, verifLeaf{path, fl, env, x})
	}
}

func verifShow(x reflect.Value) string {
	switch x.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(x.Bool())
	case reflect.Int, reflect.Int64:
		if x.Type() == reflect.TypeOf(time.Duration(0)) {
			return time.Duration(x.Int()).String()
		}
		return strconv.FormatInt(x.Int(), 10)
	case reflect.Uint, reflect.Uint64:
		return strconv.FormatUint(x.Uint(), 10)
	case reflect.Float64:
		return strconv.FormatFloat(x.Float(), 'g', -1, 64)
	case reflect.String:
		return x.String()
	}
	return "?"
}

func verifAccepts(x reflect.Value) (good, bad []string) {
	switch x.Kind() {
	case reflect.Bool:
		return []string{"true", "false", "1"}, []string{"17", "1ns", "x"}
	case reflect.Int, reflect.Int64:
		if x.Type() == reflect.TypeOf(time.Duration(0)) {
			return []string{"3m0s", "-2h0m0s", "7ns"}, []string{"17", "x", "true"}
		}
		return []string{"-17", "9223372036854775807", "0x10"}, []string{"9223372036854775808", "1.5", "1ns", "true"}
	case reflect.Uint, reflect.Uint64:
		return []string{"17", "18446744073709551615"}, []string{"-1", "1.5", "1ns", "true"}
	case reflect.Float64:
		return []string{"1.5", "-2e10"}, []string{"x", "1ns", "true"}
	}
	return []string{"some text", "-17", "1ns", "true"}, nil
}

// verifFlagSet: exactly the leaves are bound, each to its own storage
func verifFlagSet(v *verifRun, what string, fs *flag.FlagSet, leaves []verifLeaf, name func(verifLeaf) string) string {
	if fs == nil {
		return what + ": nothing is bound"
	}
	fs.SetOutput(ioutil.Discard)
	n := 0
	fs.VisitAll(func(*flag.Flag) { n++ })
	if n != len(leaves) {
		return fmt.Sprintf("%s: %d fields are bound, there are %d", what, n, len(leaves))
	}
	for _, l := range leaves {
		f := fs.Lookup(name(l))
		if f == nil {
			return fmt.Sprintf("%s: field %s is not bound as %s", what, l.path, name(l))
		}
		if d := verifShow(l.val); f.DefValue != d {
			return fmt.Sprintf("%s: the default of %s is %q, the value of the field is %q", what, name(l), f.DefValue, d)
		}
		before := make([]string, len(leaves))
		for i, m := range leaves {
			before[i] = verifShow(m.val)
		}
		good, bad := verifAccepts(l.val)
		for _, b := range bad {
			if fs.Set(name(l), b) == nil {
				return fmt.Sprintf("%s: %s, of type %s, accepts %q", what, name(l), l.val.Type(), b)
			}
		}
		g := good[v.Intn(len(good))]
		if l.val.Kind() == reflect.String && v.chance(0.50) {
			g = verifText(v, "xyz 0=", 8)
		}
		if err := fs.Set(name(l), g); err != nil {
			return fmt.Sprintf("%s: %s, of type %s, refuses %q: %v", what, name(l), l.val.Type(), g, err)
		}
		want := g
		if g == "1" && l.val.Kind() == reflect.Bool {
			want = "true"
		} else if g == "0x10" && l.val.Kind() != reflect.String {
			want = "16"
		} else if l.val.Kind() == reflect.Float64 {
			x, _ := strconv.ParseFloat(g, 64)
			want = strconv.FormatFloat(x, 'g', -1, 64)
		}
		for i, m := range leaves {
			got := verifShow(m.val)
			if m.path == l.path && m.val.Addr().Pointer() == l.val.Addr().Pointer() {
				if got != want {
					return fmt.Sprintf("%s: setting %s to %q gives the field %q", what, name(l), g, got)
				}
			} else if got != before[i] {
				return fmt.Sprintf("%s: setting %s changes the field %s", what, name(l), m.path)
			}
		}
	}
	return ""
}

// verifSnap: what a value and everything reachable from it was
type verifSnap struct {
	addr uintptr
	show string
	kids []*verifSnap
}

func verifSnapOf(x reflect.Value) *verifSnap {
	n := &verifSnap{}
	switch x.Kind() {
	case reflect.Ptr:
		if !x.IsNil() {
			n.addr = x.Pointer()
			n.kids = []*verifSnap{verifSnapOf(x.Elem())}
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			n.kids = append(n.kids, verifSnapOf(x.Field(i)))
		}
	case reflect.Func, reflect.Chan, reflect.Map, reflect.Interface, reflect.Slice:
		n.show = fmt.Sprint(x.IsNil())
	case reflect.Int8, reflect.Int32:
		n.show = fmt.Sprint(x.Int())
	case reflect.Uint8:
		n.show = fmt.Sprint(x.Uint())
	default:
		n.show = verifShow(x)
	}
	return n
}

// verifAllocated: y is what it was before, but for its nil exported pointers, which are allocated
func verifAllocated(path string, was *verifSnap, y reflect.Value, exported bool) string {
	switch y.Kind() {
	case reflect.Ptr:
		if was.addr != 0 && was.addr != y.Pointer() {
			return "the pointer " + path + " is replaced"
		}
		if was.addr == 0 && !exported && !y.IsNil() {
			return "the unexported pointer " + path + " is changed"
		}
		if was.addr == 0 && exported && y.IsNil() {
			return "the pointer " + path + " is still nil"
		}
		if y.IsNil() {
			return ""
		}
		// a pointer to a pointer is one pointer
		if y.Elem().Kind() == reflect.Ptr {
			exported = false
		}
		if was.addr == 0 {
			return verifAllocated(path, verifSnapOf(reflect.New(y.Type().Elem()).Elem()), y.Elem(), exported)
		}
		return verifAllocated(path, was.kids[0], y.Elem(), exported)
	case reflect.Struct:
		for i := 0; i < y.NumField(); i++ {
			f := y.Type().Field(i)
			if m := verifAllocated(path+"."+f.Name, was.kids[i], y.Field(i), exported && f.PkgPath == ""); m != "" {
				return m
			}
		}
		return ""
	}
	if now := verifSnapOf(y); now.show != was.show {
		return fmt.Sprintf("the field %s is changed from %q to %q", path, was.show, now.show)
	}
	return ""
}

func TestVerifBind(t *testing.T) {
	verifSearch(t, 0.5, func(v *verifRun) (msg string) {
		s := &verifShape{v: v}
		ty := s.typ(0)
		p := reflect.New(ty)
		s.fill(p.Elem())
		v.log("type %s", ty)
		var leaves []verifLeaf
		verifLeaves(p, "", "", "", &leaves)
		var got []verifLeaf
		if verifPanics(func() {
			visitExportedFields(p.Interface(), func(path string, f reflect.StructField, x reflect.Value) {
				got = append(got, verifLeaf{path: path, val: x})
			})
		}) {
			return "visiting panics"
		}
		for i, l := range leaves {
			v.log("field %s = %s", l.path, verifShow(l.val))
			if i >= len(got) {
				return fmt.Sprintf("the field %s is not visited", l.path)
			}
			if got[i].path != l.path || got[i].val.Addr().Pointer() != l.val.Addr().Pointer() || got[i].val.Type() != l.val.Type() {
				return fmt.Sprintf("visit %d is of %s, not of the field %s", i, got[i].path, l.path)
			}
		}
		if len(got) > len(leaves) {
			return fmt.Sprintf("%s is visited, which is no further field to visit", got[len(leaves)].path)
		}
		er, fr := &envResolver{}, &flagResolver{args: []string{}, flagSet: flag.NewFlagSet("t", flag.ContinueOnError)}
		given := fr.flagSet
		if verifPanics(func() { er.init(p.Interface()); fr.init(p.Interface()) }) {
			return "binding panics"
		}
		if fr.flagSet != given {
			return "the flag set given is not used"
		}
		if len(er.environ) != len(leaves) {
			return fmt.Sprintf("%d environment variables are looked up for %d fields", len(er.environ), len(leaves))
		}
		for i, l := range leaves {
			if er.environ[i] != l.env {
				return fmt.Sprintf("the environment variable of %s is %s, not %s", l.path, er.environ[i], l.env)
			}
		}
		if fr := verifFlagSet(v, "environment", er.flagSet, leaves, func(l verifLeaf) string { return l.env }); fr != "" {
			return fr
		}
		// the defaults of the flags are the values before
		q := reflect.New(ty)
		s.fill(q.Elem())
		leaves = nil
		verifLeaves(q, "", "", "", &leaves)
		f2 := &flagResolver{args: []string{}, flagSet: flag.NewFlagSet("t", flag.ContinueOnError)}
		if verifPanics(func() { f2.init(q.Interface()) }) {
			return "binding panics"
		}
		return verifFlagSet(v, "flags", f2.flagSet, leaves, func(l verifLeaf) string { return l.flag })
	})
}

func TestVerifAllocate(t *testing.T) {
	verifSearch(t, 0.3, func(v *verifRun) string {
		s := &verifShape{v: v}
		ty := s.typ(0)
		p := reflect.New(ty)
		s.fill(p.Elem())
		v.log("type %s value %+v", ty, p.Elem())
		was := verifSnapOf(p)
		if verifPanics(func() { initStruct(p.Interface()) }) {
			return "initialising panics"
		}
		return verifAllocated("", was, p, true)
	})
}
