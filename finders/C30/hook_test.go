// verif-pkg: skywalking/redis
package redis_hook

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

type verifReporter struct{}

func (verifReporter) Boot(service string, instance string, w []go2sky.AgentConfigChangeWatcher) {}
func (verifReporter) Send(spans []go2sky.ReportedSpan)                                         {}
func (verifReporter) Close()                                                                   {}

// a span that records the calls it gets
type verifSpan struct {
	go2sky.Span
	errs  [][]string
	ends  int
	after bool
}

func (s *verifSpan) Error(t time.Time, ll ...string) {
	s.errs = append(s.errs, ll)
	s.after = s.after || s.ends > 0
}
func (s *verifSpan) End()                   { s.ends++ }
func (s *verifSpan) Tag(go2sky.Tag, string) {}
func (s *verifSpan) Log(time.Time, ...string) {}

type verifCtx struct {
	context.Context
	span go2sky.Span
}

func (c verifCtx) Value(key interface{}) interface{} {
	if c.span == nil {
		return nil
	}
	return c.span
}

func TestVerifHook(t *testing.T) {
	on, err := go2sky.NewTracer("svc", go2sky.WithReporter(verifReporter{}), go2sky.WithInstance("i"))
	if err != nil {
		t.Fatal(err)
	}
	off, _ := go2sky.NewTracer("svc")
	rare, _ := go2sky.NewTracer("svc", go2sky.WithReporter(verifReporter{}), go2sky.WithInstance("i"), go2sky.WithSampler(0))
	verifSearch(t, 0.9, func(v *verifRun) string {
		peer, db, logErr, args := verifText(v, "h:1", 2), v.Intn(20)-2, v.chance(0.5), v.chance(0.5)
		if v.chance(0.7) {
			peer = "host:1"
		}
		var opts []Option
		withDb := v.chance(0.8)
		opts = append(opts, WithAddr(peer))
		if withDb {
			opts = append(opts, WithDb(db))
		}
		if logErr {
			opts = append(opts, WithLogError())
		}
		if args {
			opts = append(opts, WithArgsReport())
		}
		v.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		tracer := []*go2sky.Tracer{on, on, on, off, rare}[v.Intn(5)]
		h := NewHook(tracer, opts...)
		v.log("hook for %q, db %v (%v), log errors %v, report arguments %v", peer, db, withDb, logErr, args)
		var cmds []rv7.Cmder
		var names, texts, errs []string
		pipe := v.chance(0.6)
		n := 1
		if pipe {
			n = v.Intn(5)
			if v.chance(0.1) {
				n = v.Intn(120)
			}
		}
		failing := []float64{0, 0.02, 0.35}[v.Intn(3)]
		for i := 0; i < n; i++ {
			var a []interface{}
			for k := v.Intn(4); k > 0; k-- {
				a = append(a, verifText(v, "get SET|", 3))
			}
			if v.chance(0.8) {
				a = append([]interface{}{[]string{"get", "SET", "lrange"}[v.Intn(3)]}, a...)
			}
			c := rv7.NewStringCmd(a...)
			if v.chance(failing) {
				e := []error{rv7.Nil, errors.New("boom"), errors.New(""), errors.New("a|b")}[v.Intn(4)]
				c.SetErr(e)
			}
			if v.chance(0.1) {
				c = rv7.NewStringResult("", c.Err())
			}
			names = append(names, c.Name())
			texts = append(texts, c.String())
			cmds = append(cmds, c)
		}
		failed := false
		for _, c := range cmds {
			if c.Err() != nil {
				failed = true
				errs = append(errs, c.Err().Error())
			}
		}
		v.log("pipeline %v, commands %q, errors %q", pipe, texts, errs)
		same := func() bool {
			for i, c := range cmds {
				if c.String() != texts[i] {
					return false
				}
			}
			return true
		}
		// before
		var ctx context.Context = context.Background()
		switch v.Intn(6) {
		case 0:
			c, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c
		case 1:
			c, cancel := context.WithTimeout(ctx, time.Hour)
			defer cancel()
			ctx = c
		case 2:
			ctx = context.WithValue(ctx, verifCtx{}, 1)
		}
		v.log("context %v, %v", ctx, ctx.Err())
		var parent go2sky.Span
		if v.chance(0.3) && tracer == on {
			parent, ctx, _ = tracer.CreateLocalSpan(ctx, go2sky.WithOperationName("parent"))
		}
		op := strings.Join(names, "|")
		var got context.Context
		var gerr error
		if pipe {
			got, gerr = h.BeforeProcessPipeline(ctx, cmds)
		} else {
			got, gerr = h.BeforeProcess(ctx, cmds[0])
		}
		_, _, werr := tracer.CreateExitSpanWithContext(context.Background(), op, peer, func(k, v string) error { return nil })
		if parent != nil {
			_, _, werr = tracer.CreateExitSpanWithContext(ctx, op, peer, func(k, v string) error { return nil })
		}
		if (werr == nil) != (gerr == nil) || werr != nil && werr.Error() != gerr.Error() {
			return fmt.Sprintf("the error of creating the span is %v, but the hook returns %v", werr, gerr)
		}
		if !same() {
			return "the hook changed a command"
		}
		if gerr == nil {
			if got == nil {
				return "no context is returned for the span"
			}
			span := go2sky.ActiveSpan(got)
			if span == nil {
				return "the returned context carries no span"
			}
			if span == parent {
				return "the returned context carries the parent's span"
			}
			if r, ok := span.(go2sky.ReportedSpan); ok {
				if !span.IsValid() {
					return "the span is ended before the command"
				}
				want := op
				if args {
					want = strings.Join(texts, "|")
				}
				inst := ""
				if withDb {
					inst = fmt.Sprint(db)
				}
				tags := map[string]string{}
				for _, tag := range r.Tags() {
					if old, ok := tags[tag.Key]; ok && old != tag.Value {
						return "tag " + tag.Key + " is set twice"
					}
					tags[tag.Key] = tag.Value
				}
				v.log("span tags %q", tags)
				if tags[string(go2sky.TagDBStatement)] != want {
					return fmt.Sprintf("the statement is %q, not %q", tags[string(go2sky.TagDBStatement)], want)
				}
				if tags[string(go2sky.TagDBInstance)] != inst {
					return fmt.Sprintf("the instance is %q, not %q", tags[string(go2sky.TagDBInstance)], inst)
				}
				if tags[string(go2sky.TagDBType)] != "Redis" {
					return fmt.Sprintf("the type is %q", tags[string(go2sky.TagDBType)])
				}
				if r.ComponentID() != 7 || r.SpanLayer() != agentv3.SpanLayer_Cache {
					return fmt.Sprintf("component %v, layer %v", r.ComponentID(), r.SpanLayer())
				}
				if r.OperationName() != op || r.Peer() != peer || r.SpanType() != agentv3.SpanType_Exit {
					return fmt.Sprintf("operation %q, peer %q, type %v", r.OperationName(), r.Peer(), r.SpanType())
				}
				span.End()
			}
		}
		if parent != nil {
			parent.End()
		}
		// after
		span := &verifSpan{}
		actx := verifCtx{Context: context.Background()}
		active := v.chance(0.8)
		if active {
			actx.span = span
		}
		v.log("after, active span %v", active)
		var aerr error
		if pipe {
			aerr = h.AfterProcessPipeline(actx, cmds)
		} else {
			aerr = h.AfterProcess(actx, cmds[0])
		}
		if aerr != nil {
			return fmt.Sprintf("the hook changes the command's result to %v", aerr)
		}
		if !same() {
			return "the hook changed a command"
		}
		if !active {
			return ""
		}
		if span.ends != 1 {
			return fmt.Sprintf("the active span is ended %d times", span.ends)
		}
		if (len(span.errs) == 1) != failed || len(span.errs) > 1 {
			return fmt.Sprintf("%d errors are reported on the span, the command failed: %v", len(span.errs), failed)
		}
		if span.after {
			return "the error is reported after the span has ended"
		}
		if failed {
			text := strings.Join(span.errs[0], "")
			if !logErr && len(span.errs[0]) != 0 {
				return fmt.Sprintf("error text %q is reported although not asked for", text)
			}
			if logErr {
				for _, e := range errs {
					if !strings.Contains(text, e) {
						return fmt.Sprintf("the reported text %q lacks the error %q", text, e)
					}
				}
			}
		}
		return ""
	})
}
