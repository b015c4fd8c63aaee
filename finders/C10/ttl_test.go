// verif-pkg: ratelimiter
package ratelimiter

import (
	"context"
	"crypto/sha1"
	"errors"
	"fmt"
	"net"
	"strconv"
	"testing"
	"time"

	"github.com/chanjarster/gears/simplelog"
	"github.com/go-redis/redis/v7"
)

func TestVerifTtlLimiter(t *testing.T) {
	simplelog.ErrLogger.SetOutput(verifDiscard{})
	verifSearch(t, 0.8, func(v *verifRun) string {
		var reqs [][]string
		var reply interface{}
		client := redis.NewClient(&redis.Options{
			MaxRetries: -1,
			PoolSize:   1,
			Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
				return verifRedisConn(func(args []string) interface{} {
					if args[0] == "script" || args[0] == "SCRIPT" {
						return fmt.Sprintf("%x", sha1.Sum([]byte(args[2])))
					}
					reqs = append(reqs, args)
					return reply
				}), nil
			},
		})
		defer client.Close()
		LoadScript(client)
		limiterSha, querySha := fmt.Sprintf("%x", sha1.Sum([]byte(script1))), fmt.Sprintf("%x", sha1.Sum([]byte(script2)))
		num := func() int {
			if v.chance(0.15) {
				return -v.Intn(2)
			}
			if v.chance(0.2) {
				return 1 + v.Intn(1<<40)
			}
			return 1 + v.Intn(100000)
		}
		capacity, window, timeout := num(), num(), num()
		params := NewFixedTtlRateLimiterParams(capacity, window, timeout)
		var l TtlRateLimiter
		if v.chance(0.5) {
			l = NewRedisTtlRateLimiter(client, params)
			v.log("NewRedisTtlRateLimiter(%d, %d, %d)", capacity, window, timeout)
		} else {
			tag := verifText(v, "ab{}:", 4)
			l = NewRedisTtlRateLimiterCluster(client, params, tag)
			v.log("NewRedisTtlRateLimiterCluster(%d, %d, %d, %q)", capacity, window, timeout, tag)
		}
		if l.GetCapacity() != capacity || l.GetWindowSizeSeconds() != window || l.GetTimeoutSeconds() != timeout {
			return "the parameters reported are not those configured"
		}
		set := capacity > 0 && window > 0 && timeout > 0
		ctx := context.Background()
		for i := 0; i < 6; i++ {
			key, bkey, msg := verifText(v, "ab:l_r{}", 6), verifText(v, "ab:l_r{}", 6), verifText(v, "xy z", 5)
			want := Result{}
			var bl, tr int64
			reply = errors.New("ERR broken")
			if v.chance(0.2) {
				reply = verifRedisDown
			} else if v.chance(0.1) {
				reply = nil
			} else if v.chance(0.9) {
				bl, tr = int64(v.Intn(2)), int64(v.Intn(2))
				want = Result{Block: bl == 1, Triggered: tr == 1, Ttl: v.Intn(1000), Msg: verifText(v, "mn", 3)}
				if v.chance(0.3) {
					want.Ttl = v.Intn(1 << 40)
				}
				reply = []interface{}{bl, tr, int64(want.Ttl), want.Msg}
			}
			reqs = nil
			before := time.Now().Unix()
			var got *Result
			op := v.Intn(4)
			switch op {
			case 0:
				v.log("ShouldBlock(%q, %q), reply %v", key, msg, reply)
				got = l.ShouldBlock(key, msg)
				bkey = key
			case 1:
				v.log("ShouldBlockContext(%q, %q), reply %v", key, msg, reply)
				got = l.ShouldBlockContext(ctx, key, msg)
				bkey = key
			case 2:
				v.log("ShouldBlock2(%q, %q, %q), reply %v", key, bkey, msg, reply)
				got = l.ShouldBlock2(key, bkey, msg)
			case 3:
				v.log("ShouldBlock2Context(%q, %q, %q), reply %v", key, bkey, msg, reply)
				got = l.ShouldBlock2Context(ctx, key, bkey, msg)
			}
			after := time.Now().Unix()
			v.log("redis got %q, result %+v", reqs, got)
			if !set {
				if len(reqs) > 0 {
					return fmt.Sprintf("capacity %d, window %d, timeout %d, but redis is asked %q", capacity, window, timeout, reqs)
				}
				if got == nil || got.Block || got.Triggered {
					return fmt.Sprintf("capacity %d, window %d, timeout %d, but the result is %+v", capacity, window, timeout, got)
				}
			} else {
				if len(reqs) != 1 || len(reqs[0]) != 10 || reqs[0][1] != limiterSha || reqs[0][2] != "2" {
					return fmt.Sprintf("redis is asked %q instead of one run of the limiter script with two keys", reqs)
				}
				a := reqs[0][5:]
				now, _ := strconv.ParseInt(a[3], 10, 64)
				if a[0] != strconv.Itoa(capacity) || a[1] != strconv.Itoa(window) || a[2] != strconv.Itoa(timeout) || a[4] != msg || now < before || now > after {
					return fmt.Sprintf("the script gets %q for capacity %d, window %d, timeout %d, message %q at %d", a, capacity, window, timeout, msg, before)
				}
				if op < 2 && reqs[0][3] == reqs[0][4] {
					return fmt.Sprintf("record key and block key of one request are the same: %q", reqs[0][3])
				}
				if got == nil || *got != want {
					return fmt.Sprintf("the script answers %v, the result is %+v", reply, got)
				}
			}
			// asking consults the key that blocking writes
			limit := reqs
			reqs = nil
			if v.chance(0.5) {
				got = l.IsBlocked(bkey)
			} else {
				got = l.IsBlockedContext(ctx, bkey)
			}
			v.log("IsBlocked(%q): redis got %q, result %+v", bkey, reqs, got)
			if len(reqs) != 1 || len(reqs[0]) != 4 || reqs[0][1] != querySha || reqs[0][2] != "1" {
				return fmt.Sprintf("redis is asked %q instead of one run of the query script with one key", reqs)
			}
			if set && limit[0][4] != reqs[0][3] {
				return fmt.Sprintf("blocking %q writes the key %q, asking for it reads %q", bkey, limit[0][4], reqs[0][3])
			}
			if got == nil || *got != want {
				return fmt.Sprintf("the query script answers %v, the result is %+v", reply, got)
			}
		}
		return ""
	})
}

type verifDiscard struct{}

func (verifDiscard) Write(p []byte) (int, error) { return len(p), nil }
