property C31
pkgs ./skywalking/fasthttp ./skywalking/fasthttp-routing
driver drivers/C31_middleware.go drivers/C31_client.go
pure (*github.com/valyala/fasthttp.RequestCtx).Method (*github.com/valyala/fasthttp.RequestCtx).URI (*github.com/valyala/fasthttp.URI).String (*github.com/valyala/fasthttp.Request).URI (*github.com/valyala/fasthttp.Request).Host
nonnil (*github.com/valyala/fasthttp.RequestCtx).URI (*github.com/valyala/fasthttp.Request).URI
assume "the tracer returns a span and a context where it returns no error, and neither where it returns one; the handler chain returns normally; a finished response keeps its status and body, and the request context its error"
assume "the replaceable hooks GetSwContext, GetOperationName and SetSwContext keep their default values"

spec texterr(e) = uf("error.Error", "string", e)

spec usable(s) = s == span && refused == nil && ended == 0
block SPAN {
  ghost created int
  ghost refused error
  ghost ended int
  ghost errors int
  ghost texts int
  ghost text string
  ghost statuses int
  ghost methods int
  ghost urls int
  ghost comps int
  ghost layers int
  ghost chain int
  ghost chainerr error
  on invoke *Span.Tag(s, k, v)() {
    assert("on the open span", usable(s))
    if k == go2sky.TagHTTPMethod { methods++; assert("the method of the request", v == method) }
    if k == go2sky.TagURL { urls++; assert("the address of the request", v == url) }
    if k == go2sky.TagStatusCode { statuses++; assert("the status of the finished response", worked && v == itoa(status)) }
  }
  on invoke *Span.SetComponent(s, c)() { assert("on the open span", usable(s) && c == component); comps++ }
  on invoke *Span.SetSpanLayer(s, c)() { assert("on the open span", usable(s) && c == 3); layers++ }
  on invoke *Span.Error(s, t, v)() {
    assert("on the open span, after the work", usable(s) && worked)
    errors++
    texts = len(v)
    if len(v) == 1 { text = v[0] }
  }
  on invoke *Span.End(s)() {
    assert("the open span, once, after the work", usable(s) && worked)
    ended++
  }
}

# server middleware: every request, with or without a tracer
spec failed() = chainerr != nil || ctxerr() != nil || status >= 400
spec cause() = ite(chainerr != nil, chainerr, ctxerr())
spec ctxerr() = uf("request context error", "error", 0)
func skywalking/fasthttp-routing.verifServe(tracer, logError, logBody, ctx)(e) {
  requires ctx != nil && ctx.RequestCtx != nil
  insert SPAN
  ghost span go2sky.Span
  ghost worked bool
  ghost component int = 5004
  ghost method string = ext("(*github.com/valyala/fasthttp.RequestCtx).Method", ctx.RequestCtx)
  ghost url string = ext("(*github.com/valyala/fasthttp.URI).String", ext("(*github.com/valyala/fasthttp.RequestCtx).URI", ctx.RequestCtx))
  ghost status int = uf("final status", "int", 0)
  on extern *Tracer*.CreateEntrySpan(t, x, o, extract)(s, n, err) {
    assert("one span, before the work", created == 0 && chain == 0 && t == tracer && t != nil)
    assume(implies(err == nil, s != nil && n != nil))
    created++
    span = s
    refused = err
    spanctx = n
  }
  on extern *routing.Context*.Set(c, k, v)() {
    if c == ctx && v == spanctx { handed++ }
  }
  on extern *routing.Context*.Next(c)(r) {
    assert("the chain of this request, once", c == ctx && chain == 0)
    assert("labelled before the work", implies(created == 1 && refused == nil, comps == 1 && methods == 1 && urls == 1 && layers == 1 && handed == 1))
    chain++
    worked = true
    chainerr = r
  }
  on extern *RequestCtx*.Err(c)(r) { assume(implies(chain == 1, r == ctxerr())) }
  on extern *Response*.StatusCode(o)(r) { assume(implies(chain == 1, r == status)) }
  on extern *Response*.Body(o)(r) { assume(implies(chain == 1, r == uf("body", "string", 0))) }
  ghost spanctx context.Context
  ghost handed int
  ensures[the chain runs once, its error is returned] chain == 1 && e == chainerr
  ensures[traced with a tracer only] created == ite(tracer == nil, 0, 1)
  ensures[the span is closed and carries the status] implies(created == 1 && refused == nil, ended == 1 && statuses >= 1)
  ensures[failed exactly when the request did] implies(created == 1 && refused == nil, errors == ite(failed(), 1, 0))
  ensures[text only when asked for] implies(errors == 1, texts == ite(cause() != nil, ite(logError, 1, 0), ite(logBody, 1, 0)) && implies(texts == 1, text == ite(cause() != nil, texterr(cause()), uf("body", "string", 0))))
}

# client helper
func skywalking/fasthttp.verifCreate(tracer, logError, logBody, ctx, req)(r, e) {
  requires ctx != nil && req != nil
  insert SPAN
  ghost span go2sky.Span
  ghost worked bool
  ghost component int = 5005
  ghost method string = uf("request method", "string", 0)
  on extern *RequestHeader*.Method(h)(m) { assume(m == method) }
  ghost url string = ext("(*github.com/valyala/fasthttp.URI).String", ext("(*github.com/valyala/fasthttp.Request).URI", req))
  ghost status int
  on extern *Tracer*.CreateExitSpan(t, x, o, peer, inject)(s, err) {
    assert("one span, for this request", created == 0 && t == tracer && t != nil && x == ctx && peer == ext("(*github.com/valyala/fasthttp.Request).Host", req))
    assume(iff(err == nil, s != nil))
    created++
    span = s
    refused = err
  }
  ensures[a span with a tracer only] created == ite(tracer == nil, 0, 1)
  ensures[no tracer: no span, no error] implies(tracer == nil, r == nil && e == nil)
  ensures[the span or its error is returned] implies(tracer != nil, e == refused && implies(e == nil, r == span))
  ensures[fully labelled, still open] implies(created == 1 && refused == nil, comps == 1 && methods == 1 && urls == 1 && layers == 1) && ended == 0 && errors == 0
}
func skywalking/fasthttp.verifEnd(tracer, logError, logBody, s, res)() {
  requires res != nil
  insert SPAN
  ghost span go2sky.Span = s
  ghost worked bool = true
  ghost component int
  ghost method string
  ghost url string
  ghost status int = uf("final status", "int", 0)
  ghost body string = uf("body", "string", 0)
  requires true
  on extern *Response*.StatusCode(o)(r) { assume(implies(o == res, r == status)) }
  on extern *Response*.Body(o)(r) { assume(implies(o == res, r == body)) }
  ensures[the span is closed and carries the status] ended == ite(s == nil, 0, 1) && implies(s != nil, statuses >= 1)
  ensures[failed exactly when the call did] errors == ite(s != nil && status >= 400, 1, 0)
  ensures[the body only when asked for] implies(errors == 1, texts == ite(logBody, 1, 0) && implies(logBody, text == body))
}
func skywalking/fasthttp.verifEndError(tracer, logError, logBody, s, err)() {
  requires err != nil || !logError
  insert SPAN
  ghost span go2sky.Span = s
  ghost worked bool = true
  ghost component int
  ghost method string
  ghost url string
  ghost status int
  ensures[the span is closed] ended == ite(s == nil, 0, 1)
  ensures[failed] implies(err != nil, errors == ite(s == nil, 0, 1))
  ensures[the text only when asked for] implies(errors == 1, texts == ite(logError, 1, 0) && implies(logError, text == texterr(err)))
}
