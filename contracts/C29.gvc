property C29
pkgs ./confs
pure (*encoding/base64.Encoding).DecodeString
nonnil *gin.BasicAuth
assume "pprofhandler.PprofHandler serves the profile; gin.BasicAuth(accounts) requires one of the accounts, as documented; what fasthttp and gin calls are given takes effect"
assume "base64 decoding is a function of its input and decodes the empty text to the empty text; a configured username contains no colon (basic-auth cannot express one)"
assume "the configuration is not changed after the handler was made"

spec configured() = conf.Username != "" && conf.Password != ""
spec hdr() = uf("authorization header", "string", ctx)
spec creds() = ite(hasprefix(hdr(), "Basic "), substr(hdr(), 6, len(hdr()) - 6), hdr())
spec allowed() = configured() && ext("(*encoding/base64.Encoding).DecodeString#1", base64.StdEncoding, creds()) == nil && ext("(*encoding/base64.Encoding).DecodeString#0", base64.StdEncoding, creds()) == conf.Username + ":" + conf.Password

# every request, for every configuration
func confs.NewFasthttpRoutingPprofHandler(conf)(h) {
  requires conf != nil && !contains(conf.Username, ":")
  requires ext("(*encoding/base64.Encoding).DecodeString#0", base64.StdEncoding, "") == ""
  then h(ctx)(e) when ctx != nil && ctx.RequestCtx != nil
  ghost served int
  ghost status int
  ghost challenge int
  on extern *RequestHeader*.Peek(o, k)(b) { assume(implies(k == "Authorization", b == hdr())) }
  on extern *RequestHeader*.PeekBytes(o, k)(b) { assume(implies(k == "Authorization", b == hdr())) }
  on extern *pprofhandler.PprofHandler(x)() {
    assert("only with the configured credentials", allowed())
    assert("this request, once", x == ctx.RequestCtx && served == 0 && status == 0)
    served++
  }
  on extern *RequestCtx*.SetStatusCode(o, c)() { status = c }
  on extern *fasthttp.Response*.SetStatusCode(o, c)() { status = c }
  on extern *ResponseHeader*.SetStatusCode(o, c)() { status = c }
  on extern *RequestCtx*.Error(o, m, c)() { status = c }
  on extern *ResponseHeader*.Add(o, k, v)() {
    if k == "WWW-Authenticate" && hasprefix(v, "Basic realm=") { challenge++ }
  }
  on extern *ResponseHeader*.Set(o, k, v)() {
    if k == "WWW-Authenticate" && hasprefix(v, "Basic realm=") { challenge++ }
  }
  ensures[the configured credentials are served] implies(allowed(), served == 1)
  ensures[everything else is refused] implies(!allowed(), served == 0)
  ensures[refused with a challenge] implies(configured() && !allowed(), status == 401 && challenge >= 1)
}

# the gin filter without credentials: refuses every request
func confs.NewGinPprofBasicAuthFilter(conf)(f) as confs.NewGinPprofBasicAuthFilter-unset {
  requires conf != nil && !configured()
  then f(c)() when c != nil
  ghost status int
  ghost cut int
  on extern *gin.BasicAuth(accounts)(g) { assert("no account without credentials", false) }
  on extern *gin.Context*.String(o, code, text, v)() { status = code }
  on extern *gin.Context*.JSON(o, code, v)() { status = code }
  on extern *gin.Context*.Status(o, code)() { status = code }
  on extern *gin.Context*.AbortWithStatus(o, code)() { status = code; cut++ }
  on extern *gin.Context*.AbortWithStatusJSON(o, code, v)() { status = code; cut++ }
  on extern *gin.Context*.Abort(o)() { assert("cuts this chain", o == c); cut++ }
  on extern *gin.Context*.Next(o)() { assert("the chain is not continued", false) }
  ensures[every request is refused] status == 404 && cut >= 1
}
# with credentials: requires exactly the configured account
func confs.NewGinPprofBasicAuthFilter(conf)(f) as confs.NewGinPprofBasicAuthFilter-set {
  requires conf != nil && configured()
  ghost made int
  ghost filter gin.HandlerFunc
  on extern *gin.BasicAuth*(a)(g) {
    assert("exactly the configured account", made == 0 && has(a, conf.Username) && a[conf.Username] == conf.Password && implies(has(a, uf("any user", "string", 0)), uf("any user", "string", 0) == conf.Username))
    made++
    filter = g
  }
  ensures[the account is required] made == 1 && f == filter
}
