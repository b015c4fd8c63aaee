// verif-pkg: util/rsa
package rsautil

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"
)

// what reading must give, following the statement of the property
func verifRead(text []byte, typ string) interface{} {
	block, _ := pem.Decode(text)
	if block == nil || block.Type != typ {
		return nil
	}
	switch typ {
	case "RSA PRIVATE KEY":
		if k, err := x509.ParsePKCS1PrivateKey(block.Bytes); err == nil {
			return k
		}
	case "PUBLIC KEY":
		if k, err := x509.ParsePKIXPublicKey(block.Bytes); err == nil {
			if r, ok := k.(*rsa.PublicKey); ok {
				return r
			}
		}
	case "CERTIFICATE":
		if c, err := x509.ParseCertificate(block.Bytes); err == nil {
			return c
		}
	}
	return nil
}

func verifWrap(text, typ string) string {
	if strings.Contains(text, "-----BEGIN") && strings.Contains(text, "-----END") {
		return text
	}
	return "-----BEGIN " + typ + "-----\n" + text + "\n-----END " + typ + "-----"
}

func verifSame(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *rsa.PrivateKey:
		y, ok := b.(*rsa.PrivateKey)
		return ok && (x == nil) == (y == nil) && (x == nil || x.Equal(y))
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && (x == nil) == (y == nil) && (x == nil || x.Equal(y))
	case *x509.Certificate:
		y, ok := b.(*x509.Certificate)
		return ok && (x == nil) == (y == nil) && (x == nil || x.Equal(y))
	}
	return false
}

func TestVerifRead(t *testing.T) {
	priv, err := rsa.GenerateKey(crand.Reader, 1024)
	if err != nil {
		t.Fatal(err)
	}
	ec, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must := func(b []byte, err error) []byte {
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<32, 0)}
	ders := [][]byte{
		x509.MarshalPKCS1PrivateKey(priv),
		must(x509.MarshalPKCS8PrivateKey(priv)),
		must(x509.MarshalPKIXPublicKey(&priv.PublicKey)),
		must(x509.MarshalPKIXPublicKey(&ec.PublicKey)),
		x509.MarshalPKCS1PublicKey(&priv.PublicKey),
		must(x509.CreateCertificate(crand.Reader, tmpl, tmpl, &priv.PublicKey, priv)),
		must(x509.MarshalECPrivateKey(ec)),
		must(x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: new(big.Int).SetBit(big.NewInt(12345), 511, 1), E: 65537})),
		must(x509.MarshalPKIXPublicKey(&rsa.PublicKey{N: new(big.Int).SetBit(big.NewInt(12345), 8191, 1), E: 3})),
		[]byte("garbage"), nil,
	}
	types := []string{"RSA PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "RSA PUBLIC KEY", "X509 CERTIFICATE", "", "rsa private key"}
	verifSearch(t, 0.9, func(v *verifRun) string {
		block := func() string {
			der := ders[v.Intn(len(ders))]
			if v.chance(0.1) && len(der) > 0 {
				der = append([]byte(nil), der...)
				der[v.Intn(len(der))] ^= byte(1 + v.Intn(255))
			}
			if v.chance(0.05) {
				der = der[:len(der)/2]
			}
			typ := types[v.Intn(len(types))]
			if v.chance(0.5) {
				typ = types[v.Intn(3)]
			}
			b := &pem.Block{Type: typ, Bytes: der}
			if v.chance(0.1) {
				b.Headers = map[string]string{"A": "b"}
			}
			return string(pem.EncodeToMemory(b))
		}
		var text string
		switch v.Intn(8) {
		case 0:
			text = base64.StdEncoding.EncodeToString(ders[v.Intn(len(ders))])
		case 1:
			text = verifText(v, "AB= \n-/", 6)
		case 2:
			text = "noise\n" + block()
		case 3:
			text = block() + block()
		case 4:
			text = block() + "noise"
		case 5:
			text = block()
			parts := strings.Split(text, "-----")
			parts = parts[:v.Intn(len(parts)+1)]
			text = strings.Join(parts, "-----")
		default:
			text = block()
		}
		if v.chance(0.1) {
			text = strings.ReplaceAll(text, "\n", verifText(v, "\r\n ", 2))
		}
		v.log("input %q", text)
		b := []byte(text)
		type res struct {
			name, typ string
			in        []byte
			read      func() (interface{}, error)
			must      func() interface{}
		}
		wr := func(typ string) []byte { return []byte(verifWrap(text, typ)) }
		for _, r := range []res{
			{"ReadPrivateKey", "RSA PRIVATE KEY", wr("RSA PRIVATE KEY"), func() (interface{}, error) { return ReadPrivateKey(text) }, func() interface{} { return MustReadPrivateKey(text) }},
			{"ReadPrivateKeyBytes", "RSA PRIVATE KEY", b, func() (interface{}, error) { return ReadPrivateKeyBytes(b) }, func() interface{} { return MustReadPrivateKeyBytes(b) }},
			{"ReadPublicKey", "PUBLIC KEY", wr("PUBLIC KEY"), func() (interface{}, error) { return ReadPublicKey(text) }, func() interface{} { return MustReadPublicKey(text) }},
			{"ReadPublicKeyBytes", "PUBLIC KEY", b, func() (interface{}, error) { return ReadPublicKeyBytes(b) }, func() interface{} { return MustReadPublicKeyBytes(b) }},
			{"ReadX509Certificate", "CERTIFICATE", wr("CERTIFICATE"), func() (interface{}, error) { return ReadX509Certificate(text) }, nil},
			{"ReadX509CertificateBytes", "CERTIFICATE", b, func() (interface{}, error) { return ReadX509CertificateBytes(b) }, func() interface{} { return MustReadX509CertificateBytes(b) }},
		} {
			want := verifRead(r.in, r.typ)
			got, err := r.read()
			if want == nil {
				if err == nil {
					return fmt.Sprintf("%s accepts what holds no such object (%v)", r.name, got)
				}
			} else {
				if err != nil {
					return fmt.Sprintf("%s refuses a valid input: %v", r.name, err)
				}
				if !verifSame(want, got) {
					return fmt.Sprintf("%s returns another object than the input holds", r.name)
				}
			}
			if r.must == nil {
				continue
			}
			var m interface{}
			if p := verifPanics(func() { m = r.must() }); p != (want == nil) {
				return fmt.Sprintf("Must%s panics: %v, although %s returns error %v", r.name, p, r.name, err)
			} else if !p && !verifSame(want, m) {
				return fmt.Sprintf("Must%s returns another object", r.name)
			}
		}
		if !bytes.Equal(b, []byte(text)) {
			return "the input bytes were changed"
		}
		return ""
	})
}
