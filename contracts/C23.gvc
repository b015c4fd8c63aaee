property C23
pkgs ./confstore ./util/rsa
pure time.ParseDuration net/url.ParseRequestURI util/rsa.ReadPrivateKey util/rsa.ReadPublicKey
assume "the parsers of the standard library (and ReadPrivateKey, ReadPublicKey: property C32) are functions of their text, do not panic, and the message of an error is not empty"

spec hexdigit(c) = (48 <= c && c <= 57) || (65 <= c && c <= 70) || (97 <= c && c <= 102)

func confstore.(*stringProcessor).Validate(v)(ok, err) {
  ensures[exactly the lengths within the bounds] iff(ok, self.minLength <= len(v) && len(v) <= self.maxLength)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*stringProcessor).Convert(v)(r) { ensures[itself] r == box(v) }
func confstore.StringProcessor(min, max)(p) { ensures[with these bounds] p != nil && p.minLength == min && p.maxLength == max }
func confstore.(*boolProcessor).Validate(v)(ok, err) {
  ensures[exactly true and false] iff(ok, v == "true" || v == "false")
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*boolProcessor).Convert(v)(r) {
  requires v == "true" || v == "false"
  ensures[that bool] r == box(v == "true")
}
func confstore.(*intProcessor).Validate(v)(ok, err) {
  let n = ext("strconv.Atoi#0", v)
  ensures[exactly the integers within the bounds] iff(ok, ext("strconv.Atoi#1", v) == nil && ite(self.minInclude, self.min <= n, self.min < n) && ite(self.maxInclude, n <= self.max, n < self.max))
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*intProcessor).Convert(v)(r) {
  requires ext("strconv.Atoi#1", v) == nil
  ensures[that integer] typeis(r, int) && r.(int) == ext("strconv.Atoi#0", v)
}
func confstore.IntProcessor(min, minIn, max, maxIn)(p) { ensures[with these bounds] p != nil && p.min == min && p.max == max && p.minInclude == minIn && p.maxInclude == maxIn }
func confstore.(*durationProcessor).Validate(v)(ok, err) {
  ensures[exactly what the parser accepts] iff(ok, ext("time.ParseDuration#1", v) == nil)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*durationProcessor).Convert(v)(r) {
  requires ext("time.ParseDuration#1", v) == nil
  ensures[that duration] typeis(r, time.Duration) && r.(time.Duration) == ext("time.ParseDuration#0", v)
}
func confstore.(*urlProcessor).Validate(v)(ok, err) {
  ensures[exactly the empty string and what the parser accepts] iff(ok, v == "" || ext("net/url.ParseRequestURI#1", v) == nil)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*urlProcessor).Convert(v)(r) {
  requires v == "" || ext("net/url.ParseRequestURI#1", v) == nil
  ensures[that URL, none for the empty string] typeis(r, *url.URL) && ite(v == "", r.(*url.URL) == nil, r.(*url.URL) == ext("net/url.ParseRequestURI#0", v))
}
func confstore.(*urlStringProcessor).Validate(v)(ok, err) {
  ensures[exactly the empty string and what the parser accepts] iff(ok, v == "" || ext("net/url.ParseRequestURI#1", v) == nil)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*urlStringProcessor).Convert(v)(r) { ensures[itself] r == box(v) }
func confstore.(*cssColorHex).Validate(v)(ok, err) {
  ensures[exactly the empty string and a hash sign with six hex digits] iff(ok, v == "" || (len(v) == 7 && v[0] == 35 && hexdigit(v[1]) && hexdigit(v[2]) && hexdigit(v[3]) && hexdigit(v[4]) && hexdigit(v[5]) && hexdigit(v[6])))
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*cssColorHex).Convert(v)(r) { ensures[itself] r == box(v) }
func confstore.(*rsaPrivateKeyPkcs1).Validate(v)(ok, err) {
  requires uf("error.Error", "string", ext("util/rsa.ReadPrivateKey#1", v)) != ""
  ensures[exactly the empty string and what the parser accepts] iff(ok, v == "" || ext("util/rsa.ReadPrivateKey#1", v) == nil)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*rsaPrivateKeyPkcs1).Convert(v)(r) {
  requires v == "" || ext("util/rsa.ReadPrivateKey#1", v) == nil
  ensures[that key, none for the empty string] typeis(r, *rsa.PrivateKey) && ite(v == "", r.(*rsa.PrivateKey) == nil, r.(*rsa.PrivateKey) == ext("util/rsa.ReadPrivateKey#0", v))
}
func confstore.(*rsaPublicKey).Validate(v)(ok, err) {
  requires uf("error.Error", "string", ext("util/rsa.ReadPublicKey#1", v)) != ""
  ensures[exactly the empty string and what the parser accepts] iff(ok, v == "" || ext("util/rsa.ReadPublicKey#1", v) == nil)
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.(*rsaPublicKey).Convert(v)(r) {
  requires v == "" || ext("util/rsa.ReadPublicKey#1", v) == nil
  ensures[that key, none for the empty string] typeis(r, *rsa.PublicKey) && ite(v == "", r.(*rsa.PublicKey) == nil, r.(*rsa.PublicKey) == ext("util/rsa.ReadPublicKey#0", v))
}
block ENUM {
  invariant[listed so far](m map[string]bool, i int) :: i >= -1 && forall(j, int, implies(0 <= j && j <= i, has(m, enums[j]) && m[enums[j]]))
  invariant[nothing else](m map[string]bool, i int) :: forall(k, string, implies(has(m, k), m[k] && exists(j, int, 0 <= j && j <= i && enums[j] == k)))
  invariant[listed so far](m map[string]struct{}, i int) :: i >= -1 && forall(j, int, implies(0 <= j && j <= i, has(m, enums[j])))
  invariant[nothing else](m map[string]struct{}, i int) :: forall(k, string, implies(has(m, k), exists(j, int, 0 <= j && j <= i && enums[j] == k)))
}
func confstore.EnumProcessor(enums)(p) {
  insert ENUM
  then p.Validate(v)(ok, err)
  ensures[exactly the listed values] iff(ok, exists(j, int, 0 <= j && j < len(enums) && enums[j] == v))
  ensures[a rejection has a message] implies(!ok, err != "")
}
func confstore.EnumProcessor(enums)(p) as confstore.EnumProcessor-convert {
  insert ENUM
  then p.Convert(v)(r)
  ensures[itself] r == box(v)
}
# the predefined processors
spec isint(p, min, minIn, max, maxIn) = typeis(p, *confstore.intProcessor) && p.(*confstore.intProcessor).min == min && p.(*confstore.intProcessor).max == max && p.(*confstore.intProcessor).minInclude == minIn && p.(*confstore.intProcessor).maxInclude == maxIn
func confstore.init() {
  ensures[String takes any length] typeis(confstore.String, *confstore.stringProcessor) && confstore.String.(*confstore.stringProcessor).minLength == 0 && confstore.String.(*confstore.stringProcessor).maxLength == 2147483647
  ensures[Int takes the 32-bit integers] isint(confstore.Int, 0-2147483648, true, 2147483647, true)
  ensures[IntGtZero the positive ones] isint(confstore.IntGtZero, 0, false, 2147483647, true)
  ensures[IntGtEqZero the non-negative ones] isint(confstore.IntGtEqZero, 0, true, 2147483647, true)
  ensures[the others are of their kinds] typeis(confstore.Bool, *confstore.boolProcessor) && typeis(confstore.Duration, *confstore.durationProcessor) && typeis(confstore.Url, *confstore.urlProcessor) && typeis(confstore.UrlString, *confstore.urlStringProcessor) && typeis(confstore.CssColorHex, *confstore.cssColorHex) && typeis(confstore.RsaPrivateKeyPkcs1, *confstore.rsaPrivateKeyPkcs1) && typeis(confstore.RsaPublicKey, *confstore.rsaPublicKey)
}
