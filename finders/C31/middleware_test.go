// verif-pkg: skywalking/fasthttp-routing
package fasthttp_routing

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/SkyAPM/go2sky"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

type verifReporter struct{}

func (verifReporter) Boot(service string, instance string, w []go2sky.AgentConfigChangeWatcher) {}
func (verifReporter) Send(spans []go2sky.ReportedSpan)                                         {}
func (verifReporter) Close()                                                                   {}

func TestVerifMiddleware(t *testing.T) {
	on, err := go2sky.NewTracer("svc", go2sky.WithReporter(verifReporter{}), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	off, _ := go2sky.NewTracer("svc")
	verifSearch(t, 0.9, func(v *verifRun) string {
		tracer := []*go2sky.Tracer{on, on, on, off, nil}[v.Intn(5)]
		logErr, body := v.chance(0.5), v.chance(0.5)
		var opts []Option
		if logErr {
			opts = append(opts, WithLogError())
		}
		if body {
			opts = append(opts, WithLog4xxBody())
		}
		v.log("tracer %v, log errors %v, log body %v", tracer != nil, logErr, body)
		calls := 0
		var span go2sky.Span
		ended := false
		herr := error(nil)
		if v.chance(0.4) {
			herr = []error{errors.New("boom"), errors.New(""), routing.NewHTTPError(404, "x"), routing.NewHTTPError(200)}[v.Intn(4)]
		}
		status := []int{200, 302, 399, 400, 401, 404, 499, 500, 503, 100, 599, 600, 999, 100 + v.Intn(900)}[v.Intn(14)]
		text := verifText(v, "body", 3)
		router := routing.New()
		var got error
		router.Use(func(c *routing.Context) error {
			got = NewMiddleware(tracer, opts...)(c)
			c.Abort()
			return nil
		})
		work := func(c *routing.Context) error {
			calls++
			span = go2sky.ActiveSpan(GetSwContext(c))
			if span != nil {
				_, real := span.(go2sky.ReportedSpan)
				ended = real && !span.IsValid()
			}
			c.SetStatusCode(status)
			c.SetBodyString(text)
			return herr
		}
		deep := v.chance(0.3)
		if deep {
			router.Any("/*", func(c *routing.Context) error { return c.Next() }, work)
		} else {
			router.Any("/*", work)
		}
		var req fasthttp.Request
		req.Header.SetMethod([]string{"GET", "POST", "PUT"}[v.Intn(3)])
		req.SetRequestURI("/a" + verifText(v, "b/", 3))
		req.Header.SetHost("h")
		bad := v.chance(0.2)
		if bad {
			req.Header.Set("sw8", []string{"garbage", "1-x", "1-a-b-c-d-e-f-g"}[v.Intn(3)])
		}
		v.log("%s %s, sw8 %q; the handler sets %d %q and returns %v", req.Header.Method(), req.URI(), req.Header.Peek("sw8"), status, text, herr)
		var ctx fasthttp.RequestCtx
		ctx.Init(&req, nil, nil)
		router.HandleRequest(&ctx)
		if calls != 1 {
			return fmt.Sprintf("the rest of the chain is called %d times", calls)
		}
		if got != herr {
			return fmt.Sprintf("the middleware returns %v, the handler %v", got, herr)
		}
		if ended {
			return "the span is ended before the work is done"
		}
		if tracer == on && !bad && span == nil {
			return "no span was opened"
		}
		r, ok := span.(go2sky.ReportedSpan)
		if !ok {
			return ""
		}
		if span.IsValid() {
			return "the span is not ended"
		}
		failed := herr != nil || status >= 400
		if r.IsError() != failed || len(r.Logs()) > 1 {
			return fmt.Sprintf("the span is marked failed: %v (%d times)", r.IsError(), len(r.Logs()))
		}
		if failed {
			all := ""
			for _, d := range r.Logs()[0].Data {
				all += d.Key + d.Value
			}
			want := ""
			if herr != nil && logErr {
				want = herr.Error()
			}
			if herr == nil && body {
				want = text
			}
			if all != want {
				return fmt.Sprintf("the error carries text %q, not %q", all, want)
			}
		}
		tags := map[string][]string{}
		for _, tag := range r.Tags() {
			tags[tag.Key] = append(tags[tag.Key], tag.Value)
		}
		for k, want := range map[go2sky.Tag]string{go2sky.TagStatusCode: fmt.Sprint(status), go2sky.TagHTTPMethod: string(ctx.Method()), go2sky.TagURL: ctx.URI().String()} {
			if strings.Join(tags[string(k)], ",") != want {
				return fmt.Sprintf("tag %s is %q, not %q", k, tags[string(k)], want)
			}
		}
		if r.ComponentID() != 5004 || r.SpanLayer() != agentv3.SpanLayer_Http || r.SpanType() != agentv3.SpanType_Entry {
			return fmt.Sprintf("component %v, layer %v, type %v", r.ComponentID(), r.SpanLayer(), r.SpanType())
		}
		return ""
	})
}
