// verif-pkg: ratelimiter
package ratelimiter

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerifTokenBucket(t *testing.T) {
	verifSearch(t, 0.6, func(v *verifRun) string {
		capacity := v.Intn(6)
		rate := v.Intn(5)
		switch v.Intn(6) {
		case 0:
			rate = v.Intn(1 << 29)
		case 1:
			capacity = v.Intn(1 << 60)
		}
		b := NewAtomicTokenBucket(capacity, rate).(*AtomicTokenBucket)
		if b.Capacity() != capacity {
			return "the capacity is not the configured one"
		}
		created := b.lastIssueTimestamp
		if d := time.Now().UnixNano() - created; d < 0 || d > int64(time.Minute) {
			return fmt.Sprintf("a new bucket was last credited at %d, now is %d", created, time.Now().UnixNano())
		}
		now := created
		b.nowFn = func() time.Time { return time.Unix(0, now) }
		v.log("NewAtomicTokenBucket(%d, %d) at %d", capacity, rate, created)
		tokens, last, admitted := int64(capacity), created, int64(0)
		if v.chance(0.5) {
			now += verifStep(v, 1e9)
		}
		for i := 0; i < 40; i++ {
			if tokens < int64(capacity) {
				if d := (now - last) / 1e9 * int64(rate); d > 0 {
					tokens += d
					last = now
					if tokens > int64(capacity) {
						tokens = int64(capacity)
					}
				}
			}
			want := tokens > 0
			got := b.Acquire()
			v.log("Acquire at creation + %d: %v", now-created, got)
			if got != want {
				return fmt.Sprintf("Acquire at creation + %d with %d tokens: %v", now-created, tokens, got)
			}
			if got {
				tokens--
				admitted++
			}
			if admitted > int64(capacity)+int64(rate)*((now-created)/1e9) {
				return "more admitted than capacity and rate allow"
			}
			if v.chance(0.5) {
				now += verifStep(v, 1e9)
			} else if v.chance(0.05) {
				now += 1e9 * int64(v.Intn(100000))
			}
		}
		return ""
	})
}

func TestVerifTokenBucketConcurrent(t *testing.T) {
	verifSearch(t, 0.25, func(v *verifRun) string {
		capacity := 1 + v.Intn(20)
		rate := v.Intn(10)
		b := NewAtomicTokenBucket(capacity, rate).(*AtomicTokenBucket)
		created := b.lastIssueTimestamp
		var clk int64
		b.nowFn = func() time.Time { return time.Unix(0, created+atomic.LoadInt64(&clk)) }
		var ok int64
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 2*capacity; i++ {
					if b.Acquire() {
						atomic.AddInt64(&ok, 1)
					}
					if i%4 == 0 {
						atomic.AddInt64(&clk, 3e8)
					}
				}
			}()
		}
		wg.Wait()
		if max := int64(capacity) + int64(rate)*(clk/1e9); ok > max {
			return fmt.Sprintf("%d admitted, at most %d allowed (capacity %d, rate %d, %d seconds)", ok, max, capacity, rate, clk/1e9)
		}
		return ""
	})
}

// callers racing for single tokens never take the bucket below zero or above its capacity
func TestVerifTokenBucketBounds(t *testing.T) {
	verifSearch(t, 0.25, func(v *verifRun) string {
		b := NewAtomicTokenBucket(1, 0).(*AtomicTokenBucket)
		var stop, bad int64
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt64(&stop) == 0 {
					b.Acquire()
					if n := atomic.LoadInt64(&b.tokens); n < 0 || n > 1 {
						atomic.StoreInt64(&bad, n)
					}
				}
			}()
		}
		for i := 0; i < 20000 && atomic.LoadInt64(&bad) == 0; i++ {
			atomic.CompareAndSwapInt64(&b.tokens, 0, 1)
			for k := 0; k < 20; k++ {
				if n := atomic.LoadInt64(&b.tokens); n < 0 || n > 1 {
					atomic.StoreInt64(&bad, n)
				}
			}
		}
		atomic.StoreInt64(&stop, 1)
		wg.Wait()
		if bad != 0 {
			return fmt.Sprintf("6 callers acquire from a bucket of capacity 1 that gets single tokens: it holds %d tokens", bad)
		}
		return ""
	})
}
