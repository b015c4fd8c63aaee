// verif-pkg: skywalking/fasthttp
package fasthttp

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

type verifReporter struct{}

func (verifReporter) Boot(service string, instance string, w []go2sky.AgentConfigChangeWatcher) {}
func (verifReporter) Send(spans []go2sky.ReportedSpan)                                         {}
func (verifReporter) Close()                                                                   {}

func TestVerifClient(t *testing.T) {
	on, err := go2sky.NewTracer("svc", go2sky.WithReporter(verifReporter{}), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	off, _ := go2sky.NewTracer("svc")
	verifSearch(t, 0.9, func(v *verifRun) string {
		tracer := []*go2sky.Tracer{on, on, on, off, nil}[v.Intn(5)]
		logErr, body := v.chance(0.5), v.chance(0.5)
		var opts []Option
		if logErr {
			opts = append(opts, WithLogError())
		}
		if body {
			opts = append(opts, WithLog4xxBody())
		}
		h := NewClientSpanHelper(tracer, opts...)
		var req fasthttp.Request
		req.Header.SetMethod([]string{"GET", "POST", "PUT"}[v.Intn(3)])
		host := "h:80"
		if v.chance(0.2) {
			host = ""
		}
		req.SetRequestURI("http://" + host + "/a" + verifText(v, "b/", 3))
		v.log("tracer %v, log errors %v, log body %v, %s %s", tracer != nil, logErr, body, req.Header.Method(), req.URI())
		span, err := h.CreateSpan(context.Background(), &req)
		if tracer == nil && (span != nil || err != nil) {
			return fmt.Sprintf("without a tracer CreateSpan gives %v, %v", span, err)
		}
		if tracer == on && host != "" && (span == nil || err != nil) {
			return fmt.Sprintf("CreateSpan gives %v, %v", span, err)
		}
		if err != nil && span != nil {
			return "a span is returned together with an error"
		}
		r, ok := span.(go2sky.ReportedSpan)
		if ok && !span.IsValid() {
			return "the span is ended before the work is done"
		}
		if !logErr && v.chance(0.05) {
			v.log("EndSpanError(nil)")
			h.EndSpanError(span, nil)
			if !ok {
				return ""
			}
		} else if v.chance(0.3) {
			e := errors.New(verifText(v, "err", 3))
			v.log("EndSpanError(%q)", e)
			h.EndSpanError(span, e)
			if !ok {
				return ""
			}
			if !r.IsError() || len(r.Logs()) != 1 {
				return "the span is not marked failed once"
			}
			all := ""
			for _, d := range r.Logs()[0].Data {
				all += d.Key + d.Value
			}
			if logErr && all != e.Error() || !logErr && len(r.Logs()[0].Data) > 0 {
				return fmt.Sprintf("the error carries %q", all)
			}
		} else {
			var res fasthttp.Response
			status := []int{200, 302, 399, 400, 401, 404, 499, 500, 503, 100, 599, 600, 999, 100 + v.Intn(900)}[v.Intn(14)]
			text := verifText(v, "body", 3)
			res.SetStatusCode(status)
			res.SetBodyString(text)
			v.log("EndSpan of response %d %q", status, text)
			h.EndSpan(span, &res)
			if !ok {
				return ""
			}
			if r.IsError() != (status >= 400) || len(r.Logs()) > 1 {
				return fmt.Sprintf("status %d, the span is marked failed: %v", status, r.IsError())
			}
			if r.IsError() {
				all := ""
				for _, d := range r.Logs()[0].Data {
					all += d.Key + d.Value
				}
				if body && all != text || !body && len(r.Logs()[0].Data) > 0 {
					return fmt.Sprintf("the error carries %q", all)
				}
			}
			n := 0
			for _, tag := range r.Tags() {
				if tag.Key == string(go2sky.TagStatusCode) {
					n++
					if tag.Value != fmt.Sprint(status) {
						return "the span carries status " + tag.Value
					}
				}
			}
			if n != 1 {
				return fmt.Sprintf("the span carries %d statuses", n)
			}
		}
		if span.IsValid() {
			return "the span is not ended"
		}
		tags := map[string][]string{}
		for _, tag := range r.Tags() {
			tags[tag.Key] = append(tags[tag.Key], tag.Value)
		}
		for k, want := range map[go2sky.Tag]string{go2sky.TagHTTPMethod: string(req.Header.Method()), go2sky.TagURL: req.URI().String()} {
			if strings.Join(tags[string(k)], ",") != want {
				return fmt.Sprintf("tag %s is %q, not %q", k, tags[string(k)], want)
			}
		}
		if r.ComponentID() != 5005 || r.SpanLayer() != agentv3.SpanLayer_Http || r.Peer() != string(req.Host()) {
			return fmt.Sprintf("component %v, layer %v, peer %q", r.ComponentID(), r.SpanLayer(), r.Peer())
		}
		return ""
	})
}
