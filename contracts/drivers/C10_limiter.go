// verif-pkg: ratelimiter
package ratelimiter

import (
	"context"

	"github.com/go-redis/redis/v7"
)

func verifLimiter(client *redis.Client, params TtlRateLimiterParams, cluster bool, tag string) TtlRateLimiter {
	if cluster {
		return NewRedisTtlRateLimiterCluster(client, params, tag)
	}
	return NewRedisTtlRateLimiter(client, params)
}

// one blocking operation, then the question whether it is blocked, on the same limiter
func verifOneKey(client *redis.Client, params TtlRateLimiterParams, cluster bool, tag string, ctx context.Context, key, msg string, between func()) (r1, r2 *Result) {
	l := verifLimiter(client, params, cluster, tag)
	if ctx != nil {
		r1 = l.ShouldBlockContext(ctx, key, msg)
		between()
		r2 = l.IsBlockedContext(ctx, key)
	} else {
		r1 = l.ShouldBlock(key, msg)
		between()
		r2 = l.IsBlocked(key)
	}
	return
}

func verifTwoKeys(client *redis.Client, params TtlRateLimiterParams, cluster bool, tag string, ctx context.Context, key, blockKey, msg string, between func()) (r1, r2 *Result) {
	l := verifLimiter(client, params, cluster, tag)
	if ctx != nil {
		r1 = l.ShouldBlock2Context(ctx, key, blockKey, msg)
		between()
		r2 = l.IsBlockedContext(ctx, blockKey)
	} else {
		r1 = l.ShouldBlock2(key, blockKey, msg)
		between()
		r2 = l.IsBlocked(blockKey)
	}
	return
}

func verifParams(client *redis.Client, params TtlRateLimiterParams, cluster bool, tag string) (capacity, window, timeout int) {
	l := verifLimiter(client, params, cluster, tag)
	return l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds()
}

func verifFixed(c, w, t int) (capacity, window, timeout int) {
	p := NewFixedTtlRateLimiterParams(c, w, t)
	return p.GetCapacity(), p.GetWindowSizeSeconds(), p.GetTimeoutSeconds()
}
