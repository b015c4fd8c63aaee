// verif-pkg: ratelimiter
package ratelimiter

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func TestVerifFixedWindow(t *testing.T) {
	verifSearch(t, 0.6, func(v *verifRun) string {
		capacity := v.Intn(6) - 1
		size := []int64{1, 2, 3, 10, 7, 1000, 1e9, 60e9, 3600e9, 86400e9, 1<<53 + 1, 1e18}[v.Intn(12)]
		if v.chance(0.3) {
			size = 1 + v.Int63n(1<<uint(1+v.Intn(58)))
		}
		w := NewSyncFixedWindow(capacity, time.Duration(size))
		if w.Capacity() != capacity || int64(w.WindowSize()) != size {
			return "capacity or window size is not the configured one"
		}
		now := int64(0)
		switch v.Intn(3) {
		case 0:
			now = 1600000000*1e9 + v.Int63n(1e12)
		case 1:
			now = v.Int63n(1 << 61)
		}
		w.nowFn = func() time.Time { return time.Unix(0, now) }
		v.log("NewSyncFixedWindow(%d, %d)", capacity, size)
		end, count := int64(0), 0
		for i := 0; i < 20; i++ {
			if now > end {
				end = (now-1)/size*size + size
				count = 0
			}
			want := count < capacity
			if want {
				count++
			}
			got := w.Acquire()
			v.log("Acquire at %d: %v", now, got)
			if got != want {
				return fmt.Sprintf("Acquire at %d, in the window that ends at %d, with %d of %d admitted so far: %v", now, end, count, capacity, got)
			}
			if v.chance(0.6) {
				if s := verifStep(v, size); now+s < 1<<62 && now+s+size > 0 {
					now += s
				}
			} else if v.chance(0.1) {
				if now -= verifStep(v, size); now < 0 {
					now = 0
				}
			}
		}
		return ""
	})
}

func TestVerifFixedWindowConcurrent(t *testing.T) {
	verifSearch(t, 0.25, func(v *verifRun) string {
		capacity := 1 + v.Intn(50)
		w := NewSyncFixedWindow(capacity, time.Second)
		w.nowFn = func() time.Time { return time.Unix(1600000000, 5) }
		var ok int64
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < capacity; i++ {
					if w.Acquire() {
						atomic.AddInt64(&ok, 1)
					}
				}
			}()
		}
		wg.Wait()
		if ok != int64(capacity) {
			return fmt.Sprintf("%d of %d concurrent requests admitted in one window of capacity %d", ok, 4*capacity, capacity)
		}
		return ""
	})
}
