// verif-pkg: concurrent
package concurrent

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
)

func verifSema(v *verifRun, n int64) Semaphore {
	if v.chance(0.5) {
		v.log("NewLockSemaphore(%d)", n)
		return NewLockSemaphore(n)
	}
	v.log("NewChanSemaphore(%d)", n)
	return NewChanSemaphore(n)
}

func TestVerifSequential(t *testing.T) {
	verifSearch(t, 0.4, func(v *verifRun) string {
		n := int64(1 + v.Intn(5))
		if v.chance(0.05) {
			n = int64(1 + v.Intn(300))
		}
		s := verifSema(v, n)
		held := int64(0)
		for i := 0; i < 10+v.Intn(40); i++ {
			switch v.Intn(3) {
			case 0:
				got := s.TryAcquire()
				v.log("TryAcquire with %d outstanding: %v", held, got)
				if got != (held < n) {
					return fmt.Sprintf("TryAcquire with %d of %d permits outstanding returns %v", held, n, got)
				}
				if got {
					held++
				}
			case 1:
				v.log("Release with %d outstanding", held)
				s.Release()
				if held > 0 {
					held--
				}
			case 2:
				if held < n {
					v.log("Acquire with %d outstanding", held)
					s.Acquire()
					held++
				}
			}
		}
		for ; held < n; held++ {
			if !s.TryAcquire() {
				return fmt.Sprintf("TryAcquire refused with %d of %d permits outstanding", held, n)
			}
		}
		if s.TryAcquire() {
			return fmt.Sprintf("more than %d permits handed out", n)
		}
		return ""
	})
}

func TestVerifConcurrent(t *testing.T) {
	verifSearch(t, 0.4, func(v *verifRun) string {
		n := int64(1 + v.Intn(4))
		s := verifSema(v, n)
		workers, rounds := 2+v.Intn(6), 1+v.Intn(60)
		v.log("%d goroutines, %d rounds", workers, rounds)
		var out, over int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			mode := v.Intn(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					if mode == 0 || mode == 1 && i%2 == 0 {
						s.Acquire()
					} else if !s.TryAcquire() {
						continue
					}
					if o := atomic.AddInt64(&out, 1); o > n {
						atomic.StoreInt64(&over, o)
					}
					atomic.AddInt64(&out, -1)
					s.Release()
				}
			}()
		}
		wg.Wait()
		if over > 0 {
			return fmt.Sprintf("%d permits of %d outstanding at once", over, n)
		}
		for i := int64(0); i < n; i++ {
			if !s.TryAcquire() {
				return fmt.Sprintf("every permit was released, but only %d of %d can be acquired", i, n)
			}
		}
		if s.TryAcquire() {
			return fmt.Sprintf("more than %d permits handed out", n)
		}
		return ""
	})
}

// releases that race for the last outstanding permits free no more than was outstanding
func TestVerifOverRelease(t *testing.T) {
	verifSearch(t, 0.2, func(v *verifRun) string {
		n := int64(1 + v.Intn(4))
		s := verifSema(v, n)
		held, releases := v.Intn(int(n)+1), 2+v.Intn(7)
		v.log("%d outstanding, %d releases at once", held, releases)
		for i := 0; i < held; i++ {
			s.Acquire()
		}
		for round := 0; round < 30; round++ {
			var wg sync.WaitGroup
			gate := make(chan bool)
			for i := 0; i < releases; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); <-gate; s.Release() }()
			}
			close(gate)
			wg.Wait()
			left := int64(held - releases)
			if left < 0 {
				left = 0
			}
			got := int64(0)
			for got <= n && s.TryAcquire() {
				got++
			}
			if got != n-left {
				return fmt.Sprintf("%d of %d permits outstanding, %d releases at once: then %d permits are handed out", held, n, releases, got)
			}
			held = int(n)
			for held > 1 {
				s.Release()
				held--
			}
		}
		return ""
	})
}
