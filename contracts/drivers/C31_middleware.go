// verif-pkg: skywalking/fasthttp-routing
package fasthttp_routing

import (
	"github.com/SkyAPM/go2sky"
	routing "github.com/qiangxue/fasthttp-routing"
)

func verifServe(tracer *go2sky.Tracer, logError bool, logBody bool, ctx *routing.Context) error {
	var opts []Option
	if logError {
		opts = append(opts, WithLogError())
	}
	if logBody {
		opts = append(opts, WithLog4xxBody())
	}
	return NewMiddleware(tracer, opts...)(ctx)
}
