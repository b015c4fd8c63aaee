// verif-pkg: ratelimiter
package ratelimiter

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"
)

// other callers run whole calls at the moment one caller reads the clock
func TestVerifInterleaved(t *testing.T) {
	verifSearch(t, 0.4, func(v *verifRun) string {
		capacity := 1 + v.Intn(5)
		rate := 1 + v.Intn(4)
		b := NewAtomicTokenBucket(capacity, rate).(*AtomicTokenBucket)
		created := atomic.LoadInt64(&b.lastIssueTimestamp)
		now, depth, admitted := created, 0, int64(0)
		msg := ""
		var call func()
		check := func(where string) {
			if n := atomic.LoadInt64(&b.tokens); n < 0 || n > int64(capacity) {
				msg = fmt.Sprintf("the bucket of capacity %d holds %d tokens %s", capacity, n, where)
			}
			if max := int64(capacity) + int64(rate)*((now-created)/1e9); admitted > max {
				msg = fmt.Sprintf("%d admitted %s, at most %d allowed", admitted, where, max)
			}
		}
		b.nowFn = func() time.Time {
			r := now
			if depth < 4 && v.chance(0.5) {
				for k := v.Intn(4); k > 0; k-- {
					if v.chance(0.3) {
						now += verifStep(v, 1e9)
					}
					call()
				}
			}
			if v.chance(0.5) {
				r = now
			}
			return time.Unix(0, r)
		}
		call = func() {
			depth++
			v.log("%*sAcquire begins at creation + %d", 2*depth, "", now-created)
			ok := b.Acquire()
			if ok {
				admitted++
			}
			v.log("%*sAcquire: %v", 2*depth, "", ok)
			check("after a call")
			depth--
		}
		v.log("NewAtomicTokenBucket(%d, %d)", capacity, rate)
		for i := 0; i < 15 && msg == ""; i++ {
			if v.chance(0.4) {
				now += verifStep(v, 1e9)
			}
			call()
		}
		return msg
	})
}
