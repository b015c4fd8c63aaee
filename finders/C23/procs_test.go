// verif-pkg: confstore
package confstore

import (
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	rsautil "github.com/chanjarster/gears/util/rsa"
)

// what a processor must accept, and the value it must convert to
type verifProc struct {
	name string
	p    ValueProcessor
	want func(s string) (bool, interface{})
}

func verifIntProc(name string, p ValueProcessor, min int, minIn bool, max int, maxIn bool) verifProc {
	return verifProc{name, p, func(s string) (bool, interface{}) {
		n, err := strconv.Atoi(s)
		if err != nil {
			return false, nil
		}
		return (n > min || minIn && n == min) && (n < max || maxIn && n == max), n
	}}
}

func TestVerifProcs(t *testing.T) {
	priv, err := rsa.GenerateKey(crand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	pub, _ := x509.MarshalPKIXPublicKey(&priv.PublicKey)
	privPem := string(pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(priv)}))
	pubPem := string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pub}))
	keys := []string{privPem, pubPem, base64.StdEncoding.EncodeToString(x509.MarshalPKCS1PrivateKey(priv)), base64.StdEncoding.EncodeToString(pub), "zz", "-----BEGIN", ""}
	text := func(s string) (bool, interface{}) { return true, s }
	verifSearch(t, 0.9, func(v *verifRun) string {
		lo, hi := v.Intn(6), v.Intn(8)
		a, b := v.Intn(11)-5, v.Intn(11)-5
		ai, bi := v.chance(0.5), v.chance(0.5)
		if v.chance(0.1) {
			a, b = math.MinInt64, math.MaxInt64
		}
		enums := []string{}
		for n := v.Intn(4); n > 0; n-- {
			enums = append(enums, verifText(v, "aA, ", 2))
		}
		listed := append([]string(nil), enums...)
		ep := EnumProcessor(enums)
		for i := range enums {
			enums[i] = "changed"
		}
		urlWant := func(conv bool) func(s string) (bool, interface{}) {
			return func(s string) (bool, interface{}) {
				var u *url.URL
				if s == "" {
					if conv {
						return true, u
					}
					return true, s
				}
				u, err := url.ParseRequestURI(s)
				if err != nil || !conv {
					return err == nil, s
				}
				return true, u
			}
		}
		procs := []verifProc{
			{"String", String, text},
			{fmt.Sprintf("StringProcessor(%d, %d)", lo, hi), StringProcessor(lo, hi), func(s string) (bool, interface{}) { return len(s) >= lo && len(s) <= hi, s }},
			{"Bool", Bool, func(s string) (bool, interface{}) { return s == "true" || s == "false", s == "true" }},
			verifIntProc("Int", Int, math.MinInt32, true, math.MaxInt32, true),
			verifIntProc("IntGtZero", IntGtZero, 0, false, math.MaxInt32, true),
			verifIntProc("IntGtEqZero", IntGtEqZero, 0, true, math.MaxInt32, true),
			verifIntProc(fmt.Sprintf("IntProcessor(%d, %v, %d, %v)", a, ai, b, bi), IntProcessor(a, ai, b, bi), a, ai, b, bi),
			{"Duration", Duration, func(s string) (bool, interface{}) { d, err := time.ParseDuration(s); return err == nil, d }},
			{"Url", Url, urlWant(true)},
			{"UrlString", UrlString, urlWant(false)},
			{"CssColorHex", CssColorHex, func(s string) (bool, interface{}) {
				ok := len(s) == 7 && s[0] == '#'
				for i := 1; i < len(s); i++ {
					ok = ok && strings.IndexByte("0123456789abcdefABCDEF", s[i]) >= 0
				}
				return ok || s == "", s
			}},
			{"RsaPrivateKeyPkcs1", RsaPrivateKeyPkcs1, func(s string) (bool, interface{}) {
				if s == "" {
					return true, (*rsa.PrivateKey)(nil)
				}
				k, err := rsautil.ReadPrivateKey(s)
				return err == nil, k
			}},
			{"RsaPublicKey", RsaPublicKey, func(s string) (bool, interface{}) {
				if s == "" {
					return true, (*rsa.PublicKey)(nil)
				}
				k, err := rsautil.ReadPublicKey(s)
				return err == nil, k
			}},
			{fmt.Sprintf("EnumProcessor(%q)", listed), ep, func(s string) (bool, interface{}) {
				for _, e := range listed {
					if e == s {
						return true, s
					}
				}
				return false, nil
			}},
		}
		var in string
		switch v.Intn(9) {
		case 0:
			in = verifText(v, "aA, é\x00\n", 9)
		case 1:
			in = []string{"true", "false", "True", "TRUE", "t", "1", "0", "true ", "FALSE", "F", "f", "T", "yes"}[v.Intn(13)]
		case 2:
			in = strconv.Itoa(v.Intn(15) - 7)
			if v.chance(0.4) {
				in = []string{"", "-", "+"}[v.Intn(3)] + []string{"0", "00", "0x", "0o", "0b", "1_"}[v.Intn(6)] + strconv.Itoa(v.Intn(30))
			}
		case 3:
			in = []string{"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "+1", "0x1", "1_0", "-0", "00", "1.5", "1e3", "1s", "1h2m", "-5ms", "+3us", ".5h", "1", "0", "1S", "9999999h"}[v.Intn(23)]
		case 4:
			in = []string{"http://a/b?c=d", "/x", "a/b", "//h", "http://a b", "%zz", "*", "http://[::1", "mailto:x@y", "/%41"}[v.Intn(10)] + verifText(v, " /#%", 1)
		case 5:
			h := []byte("#")
			for n := 5 + v.Intn(3); n > 0; n-- {
				h = append(h, "0123456789abcdefABCDEFgG@/:`"[v.Intn(28)])
			}
			in = string(h)
			if v.chance(0.2) {
				in = verifText(v, "#x\n ", 1) + in + verifText(v, "\n ", 1)
			}
		case 6:
			in = keys[v.Intn(len(keys))]
			if v.chance(0.2) && len(in) > 40 {
				in = in[:40+v.Intn(len(in)-40)]
			}
		case 7:
			if len(listed) > 0 {
				in = listed[v.Intn(len(listed))]
			}
		}
		if v.chance(0.08) {
			in = []string{"", " ", "\t", "\n", "\u00a0", "+", "\x00"}[v.Intn(7)] + in + []string{"", " ", "\t", "\n", "\u00a0", "+", "\x00"}[v.Intn(7)]
		}
		v.log("input %q", in)
		for _, p := range procs {
			ok, msg := p.p.Validate(in)
			wok, want := p.want(in)
			if ok != wok {
				return fmt.Sprintf("%s: Validate(%q) gives %v (%q), not %v", p.name, in, ok, msg, wok)
			}
			if !ok {
				if msg == "" {
					return fmt.Sprintf("%s: refusing %q carries no message", p.name, in)
				}
				continue
			}
			if got := p.p.Convert(in); !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("%s: Convert(%q) gives %T %v, not %T %v", p.name, in, got, got, want, want)
			}
		}
		return ""
	})
}
