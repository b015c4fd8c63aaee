// verif-pkg: conf
package conf

import (
	"fmt"
	"strings"
	"testing"
)

func verifNames(path string) (flag, env string) {
	var f, e strings.Builder
	for i := 0; i < len(path); i++ {
		b := path[i]
		switch {
		case b == '.':
			f.WriteByte('-')
			e.WriteByte('_')
		case b >= 'A' && b <= 'Z':
			if i > 0 && path[i-1] != '.' {
				f.WriteByte('-')
				e.WriteByte('_')
			}
			f.WriteByte(b - 'A' + 'a')
			e.WriteByte(b)
		case b >= 'a' && b <= 'z':
			f.WriteByte(b)
			e.WriteByte(b - 'a' + 'A')
		default:
			f.WriteByte(b)
			e.WriteByte(b)
		}
	}
	return f.String(), e.String()
}

func TestVerifNames(t *testing.T) {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	verifSearch(t, 0.9, func(v *verifRun) string {
		p := verifText(v, "AZMaz.._-0@[`{~\x00é", 12)
		switch v.Intn(4) {
		case 0:
			p = verifText(v, string(all), 6)
		case 1:
			b := make([]byte, v.Intn(8))
			for i := range b {
				b[i] = byte(v.Intn(256))
			}
			p = string(b)
		case 2:
			p = strings.Repeat(p, 1+v.Intn(40))
		}
		f, e := verifNames(p)
		v.log("path %q", p)
		if g := flagStyle(p); g != f {
			return fmt.Sprintf("the flag name of %q is %q, not %q", p, g, f)
		}
		if g := envStyle(p); g != e {
			return fmt.Sprintf("the environment name of %q is %q, not %q", p, g, e)
		}
		return ""
	})
}
