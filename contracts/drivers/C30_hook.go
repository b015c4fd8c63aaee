// verif-pkg: skywalking/redis
package redis_hook

import (
	"context"

	"github.com/SkyAPM/go2sky"
	rv7 "github.com/go-redis/redis/v7"
)

func verifHook(tracer *go2sky.Tracer, withAddr bool, addr string, withDb bool, db int, logError bool, reportArgs bool) rv7.Hook {
	var opts []Option
	if withAddr {
		opts = append(opts, WithAddr(addr))
	}
	if withDb {
		opts = append(opts, WithDb(db))
	}
	if logError {
		opts = append(opts, WithLogError())
	}
	if reportArgs {
		opts = append(opts, WithArgsReport())
	}
	return NewHook(tracer, opts...)
}

func verifBefore(tracer *go2sky.Tracer, withAddr bool, addr string, withDb bool, db int, logError bool, reportArgs bool, ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	return verifHook(tracer, withAddr, addr, withDb, db, logError, reportArgs).BeforeProcess(ctx, cmd)
}

func verifAfter(tracer *go2sky.Tracer, withAddr bool, addr string, withDb bool, db int, logError bool, reportArgs bool, ctx context.Context, cmd rv7.Cmder) error {
	return verifHook(tracer, withAddr, addr, withDb, db, logError, reportArgs).AfterProcess(ctx, cmd)
}

func verifBeforePipeline(tracer *go2sky.Tracer, withAddr bool, addr string, withDb bool, db int, logError bool, reportArgs bool, ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	return verifHook(tracer, withAddr, addr, withDb, db, logError, reportArgs).BeforeProcessPipeline(ctx, cmds)
}

func verifAfterPipeline(tracer *go2sky.Tracer, withAddr bool, addr string, withDb bool, db int, logError bool, reportArgs bool, ctx context.Context, cmds []rv7.Cmder) error {
	return verifHook(tracer, withAddr, addr, withDb, db, logError, reportArgs).AfterProcessPipeline(ctx, cmds)
}
