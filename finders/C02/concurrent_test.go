// verif-pkg: circuitbreaker
package circuitbreaker

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"
)

// failures of concurrent callers: none is lost, none invented (and the race detector watches)
func TestVerifBreakerConcurrent(t *testing.T) {
	verifSearch(t, 0.4, func(v *verifRun) string {
		n := 2 + v.Intn(30)
		extra := v.Intn(2)
		b := NewSyncCircuitBreaker(n+extra, time.Hour)
		v.log("threshold %d, %d concurrent failing calls", n+extra, n)
		start := make(chan struct{})
		var ready, done sync.WaitGroup
		for i := 0; i < n; i++ {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				b.Do(func() error {
					ready.Done()
					<-start
					return errors.New("failed")
				}, func(error) {}, func() {})
			}()
		}
		ready.Wait()
		close(start)
		done.Wait()
		ran := 0
		b.Do(func() error { ran++; return nil }, func(error) {}, func() {})
		if ran != extra {
			return fmt.Sprintf("after %d concurrent failures a breaker of threshold %d ran the task %d times", n, n+extra, ran)
		}
		return ""
	})
}

// callbacks run without the lock: they may use the breaker from other goroutines
func TestVerifBreakerUnlocked(t *testing.T) {
	verifSearch(t, 0.05, func(v *verifRun) string {
		b := NewSyncCircuitBreaker(v.Intn(2), time.Hour)
		other := func() {
			done := make(chan struct{})
			go func() {
				b.Do(func() error { return errors.New("failed") }, func(error) {}, func() {})
				b.Do(func() error { return nil }, func(error) {}, func() {})
				close(done)
			}()
			<-done
		}
		b.Do(func() error { other(); return errors.New("failed") }, func(error) { other() }, func() { other() })
		b.Do(func() error { other(); return nil }, func(error) { other() }, func() { other() })
		return ""
	})
}
