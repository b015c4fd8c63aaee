// verif-pkg: skywalking/fasthttp
package fasthttp

import (
	"context"

	"github.com/SkyAPM/go2sky"
	"github.com/valyala/fasthttp"
)

func verifHelper(tracer *go2sky.Tracer, logError bool, logBody bool) *ClientSpanHelper {
	var opts []Option
	if logError {
		opts = append(opts, WithLogError())
	}
	if logBody {
		opts = append(opts, WithLog4xxBody())
	}
	return NewClientSpanHelper(tracer, opts...)
}

func verifCreate(tracer *go2sky.Tracer, logError bool, logBody bool, ctx context.Context, req *fasthttp.Request) (go2sky.Span, error) {
	return verifHelper(tracer, logError, logBody).CreateSpan(ctx, req)
}

func verifEnd(tracer *go2sky.Tracer, logError bool, logBody bool, span go2sky.Span, res *fasthttp.Response) {
	verifHelper(tracer, logError, logBody).EndSpan(span, res)
}

func verifEndError(tracer *go2sky.Tracer, logError bool, logBody bool, span go2sky.Span, err error) {
	verifHelper(tracer, logError, logBody).EndSpanError(span, err)
}
