// verif-pkg: ratelimiter
package ratelimiter

import (
	"fmt"
	"testing"
	"time"
)

func TestVerifReconfigure(t *testing.T) {
	verifSearch(t, 0.8, func(v *verifRun) string {
		capacity := v.Intn(7) - 1
		size := []int64{0, 1, 2, 3, 10, 7, 1000, 1e9, 3600e9}[v.Intn(9)]
		w := NewSyncSlidingWindow(capacity, time.Duration(size))
		now := int64(0)
		if v.chance(0.5) {
			now = 1600000000*1e9 + v.Int63n(1e12)
		}
		w.nowFn = func() time.Time { return time.Unix(0, now) }
		v.log("NewSyncSlidingWindow(%d, %d)", capacity, size)
		var admitted []int64
		clip := func() {
			if capacity < 0 {
				capacity = 0
			}
			if len(admitted) > capacity {
				admitted = admitted[len(admitted)-capacity:]
			}
		}
		clip()
		for i := 0; i < 30; i++ {
			want := capacity == 0 || len(admitted) < capacity || now-admitted[len(admitted)-capacity] > size
			got := w.Acquire()
			v.log("Acquire at %d: %v", now, got)
			if got != want {
				return fmt.Sprintf("Acquire at %d with capacity %d, window %d and admissions at %v: %v", now, capacity, size, admitted, got)
			}
			if got {
				admitted = append(admitted, now)
				clip()
			}
			if w.Capacity() != capacity || int64(w.WindowSize()) != size {
				return fmt.Sprintf("capacity and window size are reported as %d, %d; configured are %d, %d", w.Capacity(), int64(w.WindowSize()), capacity, size)
			}
			if v.chance(0.2) {
				capacity = v.Intn(8) - 1
				size = []int64{0, 1, 2, 3, 10, 7, 1000, 1e9, 3600e9, size, size + 1}[v.Intn(11)]
				w.UpdateConfig(capacity, time.Duration(size))
				v.log("UpdateConfig(%d, %d)", capacity, size)
				clip()
			}
			if v.chance(0.6) {
				now += verifStep(v, size)
			} else if v.chance(0.1) {
				if now -= verifStep(v, size); now < 0 {
					now = 0
				}
			}
		}
		return ""
	})
}

// both values change together: no request is judged by one of them alone
func TestVerifReconfigureConcurrent(t *testing.T) {
	verifSearch(t, 0.2, func(v *verifRun) string {
		at := time.Unix(1600000000, 0)
		for i := 0; i < 40; i++ {
			// both configurations agree on the request, a mixture of them does not
			want := v.chance(0.5)
			w1, w2 := time.Hour, 20*time.Minute
			if want {
				w1, w2 = 20*time.Minute, 5*time.Minute
			}
			w := NewSyncSlidingWindow(2, w1)
			now := at
			w.nowFn = func() time.Time { return now }
			w.Acquire()
			now = at.Add(20 * time.Minute)
			w.Acquire()
			now = at.Add(30 * time.Minute)
			got := make(chan bool)
			updating := make(chan bool)
			n := v.Intn(60)
			go func() {
				<-updating
				r := false
				if want {
					for k := 0; k < n; k++ {
						w.Capacity()
					}
					r = w.Acquire()
				} else {
					for k := 0; k < 30; k++ {
						r = w.Acquire() || r
					}
				}
				got <- r
			}()
			updating <- true
			for k := v.Intn(30); k > 0; k-- {
				w.WindowSize()
			}
			w.UpdateConfig(1, w2)
			if r := <-got; r != want {
				v.log("a window of 2 in %v has admitted 30 and 10 minutes ago and is updated to 1 in %v meanwhile", w1, w2)
				return fmt.Sprintf("a request is answered %v that both configurations answer %v", r, want)
			}
		}
		return ""
	})
}
