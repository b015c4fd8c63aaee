property C32
pkgs ./util/rsa
pure encoding/pem.Decode crypto/x509.ParsePKCS1PrivateKey crypto/x509.ParsePKIXPublicKey crypto/x509.ParseCertificate
assume "pem.Decode and the x509 parsers are functions of the bytes they are given; they return an object or an error, and a non-nil one where they return no error"

spec text(s, kind) = ite(contains(s, "-----BEGIN") && contains(s, "-----END"), s, "-----BEGIN " + kind + "-----\n" + s + "\n-----END " + kind + "-----")
spec block(s) = ext("encoding/pem.Decode#0", s)
spec isPrivateKey(s) = block(s) != nil && block(s).Type == "RSA PRIVATE KEY" && ext("crypto/x509.ParsePKCS1PrivateKey#1", block(s).Bytes) == nil
spec thePrivateKey(s) = ext("crypto/x509.ParsePKCS1PrivateKey#0", block(s).Bytes)
spec isPublicKey(s) = block(s) != nil && block(s).Type == "PUBLIC KEY" && ext("crypto/x509.ParsePKIXPublicKey#1", block(s).Bytes) == nil && typeis(ext("crypto/x509.ParsePKIXPublicKey#0", block(s).Bytes), *rsa.PublicKey)
spec thePublicKey(s) = ext("crypto/x509.ParsePKIXPublicKey#0", block(s).Bytes).(*rsa.PublicKey)
spec isX509Certificate(s) = block(s) != nil && block(s).Type == "CERTIFICATE" && ext("crypto/x509.ParseCertificate#1", block(s).Bytes) == nil
spec theX509Certificate(s) = ext("crypto/x509.ParseCertificate#0", block(s).Bytes)

func util/rsa.ReadPrivateKeyBytes(s)(k, e) {
  on extern crypto/x509.ParsePKCS1PrivateKey(b)(k, e) { assume(implies(e == nil, k != nil)) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isPrivateKey(s))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == thePrivateKey(s))
}
func util/rsa.MustReadPrivateKeyBytes(s)(k) {
  on extern crypto/x509.ParsePKCS1PrivateKey(b)(k, e) { assume(implies(e == nil, k != nil)) }
  mustpanic[panics exactly when the plain one fails] !isPrivateKey(s)
  ensures[the same object] k != nil && k == thePrivateKey(s)
}

func util/rsa.ReadPrivateKey(s)(k, e) {
  on extern crypto/x509.ParsePKCS1PrivateKey(b)(k, e) { assume(implies(e == nil, k != nil)) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isPrivateKey(text(s, "RSA PRIVATE KEY")))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == thePrivateKey(text(s, "RSA PRIVATE KEY")))
}
func util/rsa.MustReadPrivateKey(s)(k) {
  on extern crypto/x509.ParsePKCS1PrivateKey(b)(k, e) { assume(implies(e == nil, k != nil)) }
  mustpanic[panics exactly when the plain one fails] !isPrivateKey(text(s, "RSA PRIVATE KEY"))
  ensures[the same object] k != nil && k == thePrivateKey(text(s, "RSA PRIVATE KEY"))
}

func util/rsa.ReadPublicKeyBytes(s)(k, e) {
  on extern crypto/x509.ParsePKIXPublicKey(b)(k, e) { assume(implies(e == nil, implies(typeis(k, *rsa.PublicKey), k.(*rsa.PublicKey) != nil))) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isPublicKey(s))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == thePublicKey(s))
}
func util/rsa.MustReadPublicKeyBytes(s)(k) {
  on extern crypto/x509.ParsePKIXPublicKey(b)(k, e) { assume(implies(e == nil, implies(typeis(k, *rsa.PublicKey), k.(*rsa.PublicKey) != nil))) }
  mustpanic[panics exactly when the plain one fails] !isPublicKey(s)
  ensures[the same object] k != nil && k == thePublicKey(s)
}

func util/rsa.ReadPublicKey(s)(k, e) {
  on extern crypto/x509.ParsePKIXPublicKey(b)(k, e) { assume(implies(e == nil, implies(typeis(k, *rsa.PublicKey), k.(*rsa.PublicKey) != nil))) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isPublicKey(text(s, "PUBLIC KEY")))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == thePublicKey(text(s, "PUBLIC KEY")))
}
func util/rsa.MustReadPublicKey(s)(k) {
  on extern crypto/x509.ParsePKIXPublicKey(b)(k, e) { assume(implies(e == nil, implies(typeis(k, *rsa.PublicKey), k.(*rsa.PublicKey) != nil))) }
  mustpanic[panics exactly when the plain one fails] !isPublicKey(text(s, "PUBLIC KEY"))
  ensures[the same object] k != nil && k == thePublicKey(text(s, "PUBLIC KEY"))
}

func util/rsa.ReadX509CertificateBytes(s)(k, e) {
  on extern crypto/x509.ParseCertificate(b)(k, e) { assume(implies(e == nil, k != nil)) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isX509Certificate(s))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == theX509Certificate(s))
}
func util/rsa.MustReadX509CertificateBytes(s)(k) {
  on extern crypto/x509.ParseCertificate(b)(k, e) { assume(implies(e == nil, k != nil)) }
  mustpanic[panics exactly when the plain one fails] !isX509Certificate(s)
  ensures[the same object] k != nil && k == theX509Certificate(s)
}

func util/rsa.ReadX509Certificate(s)(k, e) {
  on extern crypto/x509.ParseCertificate(b)(k, e) { assume(implies(e == nil, k != nil)) }
  ensures[an object or an error] k != nil || e != nil
  ensures[exactly the expected kind is accepted] iff(e == nil, isX509Certificate(text(s, "CERTIFICATE")))
  ensures[what the standard parser read] implies(e == nil, k != nil && k == theX509Certificate(text(s, "CERTIFICATE")))
}
