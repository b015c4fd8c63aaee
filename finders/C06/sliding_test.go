// verif-pkg: ratelimiter
package ratelimiter

import (
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifSlidingWindow(t *testing.T) {
	verifSearch(t, 0.6, func(v *verifRun) string {
		capacity := v.Intn(6)
		size := []int64{0, 1, 2, 3, 10, 7, 1000, 1e9, 3600e9}[v.Intn(9)]
		w := NewSyncSlidingWindow(capacity, time.Duration(size))
		now := int64(0)
		if v.chance(0.5) {
			now = 1600000000*1e9 + v.Int63n(1e12)
		}
		w.nowFn = func() time.Time { return time.Unix(0, now) }
		v.log("NewSyncSlidingWindow(%d, %d)", capacity, size)
		var admitted []int64
		for i := 0; i < 30; i++ {
			want := capacity == 0 || len(admitted) < capacity || now-admitted[len(admitted)-capacity] > size
			got := w.Acquire()
			v.log("Acquire at %d: %v", now, got)
			if got != want {
				return fmt.Sprintf("Acquire at %d with capacity %d, window %d and admissions at %v: %v", now, capacity, size, admitted, got)
			}
			if got {
				admitted = append(admitted, now)
			}
			if v.chance(0.6) {
				now += verifStep(v, size)
			} else if v.chance(0.1) {
				if now -= verifStep(v, size); now < 0 {
					now = 0
				}
			}
		}
		return ""
	})
}

func TestVerifSlidingWindowConcurrent(t *testing.T) {
	verifSearch(t, 0.25, func(v *verifRun) string {
		capacity := 1 + v.Intn(50)
		w := NewSyncSlidingWindow(capacity, time.Second)
		w.nowFn = func() time.Time { return time.Unix(1600000000, 5) }
		ok := make([]int, 4)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < capacity; i++ {
					if w.Acquire() {
						ok[g]++
					}
					w.Capacity()
					w.WindowSize()
				}
			}()
		}
		wg.Wait()
		if n := ok[0] + ok[1] + ok[2] + ok[3]; n != capacity {
			return fmt.Sprintf("%d of %d concurrent requests at one instant admitted, capacity %d", n, 4*capacity, capacity)
		}
		return ""
	})
}
