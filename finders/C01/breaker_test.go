// verif-pkg: circuitbreaker
package circuitbreaker

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"
)

// the breaker against its definition, with calls nested in the tasks of other calls (which interleaves them)
func TestVerifBreaker(t *testing.T) {
	verifSearch(t, 0.8, func(v *verifRun) string {
		threshold := v.Intn(5) - 1
		if v.chance(0.1) {
			threshold = v.Intn(40)
		}
		timeout := time.Duration(v.Intn(50))
		if v.chance(0.1) {
			timeout = time.Duration(v.Int63n(int64(48 * time.Hour)))
		}
		clk := int64(v.Intn(3)) * 1600000000 * 1e9
		b := NewSyncCircuitBreaker(threshold, timeout)
		b.nowFn = func() time.Time { return time.Unix(0, clk) }
		v.log("NewSyncCircuitBreaker(%d, %d) at %d", threshold, timeout, clk)
		failures, last := 0, int64(0)
		msg := ""
		bad := func(f string, a ...interface{}) {
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		advance := func() {
			switch v.Intn(5) {
			case 0:
			case 1:
				clk += int64(timeout)
			case 2:
				clk += int64(timeout) + 1
			case 3:
				clk += int64(v.Intn(20))
			case 4:
				if int64(timeout) > 0 {
					clk += v.Int63n(int64(timeout) + 1)
				}
			}
		}
		var call func(depth int)
		call = func(depth int) {
			advance()
			runs := failures < threshold || clk-last > int64(timeout)
			var ran, onErr, onOpen int
			var failed error
			if v.chance(0.6) {
				failed = errors.New("task failed")
			}
			v.log("%*sDo at %d (failures %d, last %d): task returns %v", depth*2, "", clk, failures, last, failed)
			b.Do(func() error {
				ran++
				for depth < 3 && v.chance(0.3) {
					call(depth + 1)
				}
				advance()
				if failed != nil {
					failures++
					last = clk
				} else {
					failures = 0
					last = 0
				}
				return failed
			}, func(e error) {
				onErr++
				if e != failed {
					bad("the error handler got %v instead of the error of the task", e)
				}
				if depth < 3 && v.chance(0.2) {
					call(depth + 1)
				}
			}, func() {
				onOpen++
				if depth < 3 && v.chance(0.2) {
					call(depth + 1)
				}
			})
			wantRan, wantErr, wantOpen := 0, 0, 1
			if runs {
				wantRan, wantOpen = 1, 0
				if failed != nil {
					wantErr = 1
				}
			}
			if ran != wantRan || onErr != wantErr || onOpen != wantOpen {
				bad("task run %d, error handler %d, open handler %d times; expected %d, %d, %d", ran, onErr, onOpen, wantRan, wantErr, wantOpen)
			}
		}
		for i := 0; i < 12 && msg == ""; i++ {
			call(0)
		}
		return msg
	})
}

func TestVerifNeverOpen(t *testing.T) {
	verifSearch(t, 0.02, func(v *verifRun) string {
		for i := 0; i < 5; i++ {
			var ran, onErr, onOpen int
			var failed, got error
			if v.chance(0.6) {
				failed = errors.New("task failed")
			}
			want := 0
			if failed != nil {
				want = 1
			}
			NeverOpen.Do(func() error { ran++; return failed }, func(e error) { onErr++; got = e }, func() { onOpen++ })
			if ran != 1 || onErr != want || onOpen != 0 || got != failed {
				return fmt.Sprintf("never-open breaker: task %d, error handler %d (%v), open handler %d times; the task returned %v", ran, onErr, got, onOpen, failed)
			}
		}
		return ""
	})
}

// a breaker that is open before, while and after a caller reads the clock does not run the caller's task, even
// when another failure is recorded between the reading and the decision
func TestVerifOpenMeanwhile(t *testing.T) {
	verifSearch(t, 0.1, func(v *verifRun) string {
		threshold := 1 + v.Intn(3)
		timeout := int64(1 + v.Intn(1000))
		clk := int64(1600000000)*1e9 + int64(v.Intn(1000))
		var mu sync.Mutex
		var hook func()
		b := NewSyncCircuitBreaker(threshold, time.Duration(timeout))
		b.nowFn = func() time.Time {
			mu.Lock()
			h, at := hook, clk
			hook = nil
			mu.Unlock()
			if h != nil {
				h()
			}
			return time.Unix(0, at)
		}
		v.log("NewSyncCircuitBreaker(%d, %d) at %d; a task starts", threshold, timeout, clk)
		failed := errors.New("task failed")
		started, release, done := make(chan bool), make(chan bool), make(chan bool)
		go func() {
			b.Do(func() error { close(started); <-release; return failed }, func(error) {}, func() {})
			close(done)
		}()
		<-started
		for i := 0; i < threshold; i++ {
			b.Do(func() error { return failed }, func(error) {}, func() {})
		}
		step, late := v.Int63n(timeout+1), 1+v.Int63n(timeout)
		v.log("%d failures; at +%d a caller reads the clock, at +%d the first task fails, and the caller goes on", threshold, step, step+late)
		clk += step
		mu.Lock()
		hook = func() {
			mu.Lock()
			clk += late
			mu.Unlock()
			close(release)
			select {
			case <-done:
			case <-time.After(20 * time.Millisecond):
			}
		}
		mu.Unlock()
		ran, refused := 0, 0
		b.Do(func() error { ran++; return nil }, func(error) {}, func() { refused++ })
		mu.Lock()
		pending := hook != nil
		hook = nil
		mu.Unlock()
		if pending {
			close(release)
		}
		<-done
		if ran != 0 || refused != 1 {
			return fmt.Sprintf("the breaker was open all the time, but the task ran %d times, the open handler %d times", ran, refused)
		}
		return ""
	})
}
