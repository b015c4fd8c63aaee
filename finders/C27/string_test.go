// verif-pkg: confs
package confs

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/skywalking"
)

func TestVerifString(t *testing.T) {
	kinds := []interface{}{MysqlConf{}, OracleConf{}, PostgresqlConf{}, RedisConf{}, EsConf{}, PprofConf{}, FastHttpClientConf{}, skywalking.Conf{}}
	verifSearch(t, 0.9, func(v *verifRun) string {
		typ := reflect.TypeOf(kinds[v.Intn(len(kinds))])
		p := reflect.New(typ)
		secret := func(name string) bool { return name == "Password" || name == "Username" }
		fill := func(f reflect.Value, i int) {
			switch f.Interface().(type) {
			case string:
				f.SetString(verifText(v, "ab*%, :/\x00", 4))
			case time.Duration:
				f.SetInt(int64(v.Intn(5)) * int64(time.Millisecond) * int64(1+v.Intn(100000)))
			case int:
				f.SetInt(int64(v.Intn(2000) - 400))
			case bool:
				f.SetBool(v.chance(0.5))
			}
		}
		// the text values are made unlike each other and unlike any label
		for i := 0; i < typ.NumField(); i++ {
			fill(p.Elem().Field(i), i)
			if v.chance(0.2) {
				p.Elem().Field(i).Set(reflect.Zero(typ.Field(i).Type))
			}
		}
		print := func() string { return p.Interface().(fmt.Stringer).String() }
		a := print()
		v.log("%s %#v prints %q", typ.Name(), p.Elem().Interface(), a)
		for i := 0; i < typ.NumField(); i++ {
			f := p.Elem().Field(i)
			name := typ.Field(i).Name
			if secret(name) {
				continue
			}
			if typ.Name() == "RedisConf" && name == "Db" {
				continue
			}
			text := fmt.Sprint(f.Interface())
			if !strings.Contains(a, "{"+name+": "+text+",") && !strings.Contains(a, " "+name+": "+text+",") && !strings.Contains(a, " "+name+": "+text+"}") &&
				!strings.Contains(a, name+":"+text+",") && !strings.Contains(a, name+":"+text+"}") {
				return fmt.Sprintf("the printed form does not show %s as %q: %q", name, text, a)
			}
		}
		before := fmt.Sprintf("%#v", p.Elem().Interface())
		changed := false
		for _, name := range []string{"Password", "Username"} {
			if f := p.Elem().FieldByName(name); f.IsValid() {
				fill(f, 0)
				if v.chance(0.3) {
					f.SetString(strings.Repeat("x", v.Intn(100)))
				}
				changed = true
			}
		}
		if b := print(); changed && a != b {
			return fmt.Sprintf("two configurations that differ only in their credentials print differently:\n%s\n%s\n%s\n%s", before, a, fmt.Sprintf("%#v", p.Elem().Interface()), b)
		}
		return ""
	})
}
