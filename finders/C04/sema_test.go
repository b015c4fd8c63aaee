// verif-pkg: concurrent
package concurrent

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"
)

// waiters on a full semaphore: each release lets one of them through
func TestVerifWakeUp(t *testing.T) {
	verifSearch(t, 0.8, func(v *verifRun) string {
		n := 1 + v.Intn(4)
		var s Semaphore = NewLockSemaphore(int64(n))
		if v.chance(0.2) {
			s = NewChanSemaphore(int64(n))
		}
		for i := 0; i < n; i++ {
			s.Acquire()
		}
		waiters := 1 + v.Intn(5)
		v.log("%T of %d permits, all taken, %d waiters", s, n, waiters)
		var through int64
		for i := 0; i < waiters; i++ {
			go func() {
				s.Acquire()
				atomic.AddInt64(&through, 1)
			}()
		}
		time.Sleep(time.Duration(v.Intn(3)) * time.Millisecond)
		if s.TryAcquire() {
			return "TryAcquire succeeds while every permit is taken"
		}
		freed := 0
		for freed < waiters {
			k := 1 + v.Intn(2)
			if k > waiters-freed {
				k = waiters - freed
			}
			if k > n {
				k = n
			}
			for i := 0; i < k; i++ {
				s.Release()
				freed++
			}
			v.log("%d released", k)
			for w := 0; atomic.LoadInt64(&through) < int64(freed); w++ {
				if w > 8000 {
					return fmt.Sprintf("%d permits were released with acquirers waiting, but only %d acquirers went on", freed, atomic.LoadInt64(&through))
				}
				time.Sleep(time.Millisecond)
			}
			if got := atomic.LoadInt64(&through); got > int64(freed) {
				return fmt.Sprintf("%d acquirers went on after %d releases", got, freed)
			}
		}
		// every operation left the lock free
		for i := 0; i < n; i++ {
			s.Release()
		}
		s.Release()
		for i := 0; i < n; i++ {
			if !s.TryAcquire() {
				return "a permit is missing after all were released"
			}
		}
		s.TryAcquire()
		s.Release()
		s.Acquire()
		return ""
	})
}
