// verif-pkg: circuitbreaker
package circuitbreaker

import (
	"errors"
	"fmt"
	"testing"
	"time"
)

// the breaker against its definition, with calls nested in the tasks of other calls (which interleaves them)
func TestVerifBreaker(t *testing.T) {
	verifSearch(t, 0.4, func(v *verifRun) string {
		threshold := v.Intn(5) - 1
		if v.chance(0.1) {
			threshold = v.Intn(40)
		}
		timeout := time.Duration(v.Intn(50))
		if v.chance(0.1) {
			timeout = time.Duration(v.Int63n(int64(48 * time.Hour)))
		}
		clk := int64(v.Intn(3)) * 1600000000 * 1e9
		b := NewSyncCircuitBreaker(threshold, timeout)
		b.nowFn = func() time.Time { return time.Unix(0, clk) }
		v.log("NewSyncCircuitBreaker(%d, %d) at %d", threshold, timeout, clk)
		failures, last := 0, int64(0)
		msg := ""
		bad := func(f string, a ...interface{}) {
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		advance := func() {
			switch v.Intn(5) {
			case 0:
			case 1:
				clk += int64(timeout)
			case 2:
				clk += int64(timeout) + 1
			case 3:
				clk += int64(v.Intn(20))
			case 4:
				if int64(timeout) > 0 {
					clk += v.Int63n(int64(timeout) + 1)
				}
			}
		}
		var call func(depth int)
		call = func(depth int) {
			advance()
			runs := failures < threshold || clk-last > int64(timeout)
			var ran, onErr, onOpen int
			var failed error
			if v.chance(0.6) {
				failed = errors.New("task failed")
			}
			v.log("%*sDo at %d (failures %d, last %d): task returns %v", depth*2, "", clk, failures, last, failed)
			b.Do(func() error {
				ran++
				for depth < 3 && v.chance(0.3) {
					call(depth + 1)
				}
				advance()
				if failed != nil {
					failures++
					last = clk
				} else {
					failures = 0
					last = 0
				}
				return failed
			}, func(e error) {
				onErr++
				if e != failed {
					bad("the error handler got %v instead of the error of the task", e)
				}
				if b.failures != failures || (failures > 0 && b.lastFailureTs != last) {
					bad("the breaker counts %d failures, last at %d; %d happened, last at %d", b.failures, b.lastFailureTs, failures, last)
				}
				if depth < 3 && v.chance(0.2) {
					call(depth + 1)
				}
			}, func() {
				onOpen++
				if depth < 3 && v.chance(0.2) {
					call(depth + 1)
				}
			})
			wantRan, wantErr, wantOpen := 0, 0, 1
			if runs {
				wantRan, wantOpen = 1, 0
				if failed != nil {
					wantErr = 1
				}
			}
			if ran != wantRan || onErr != wantErr || onOpen != wantOpen {
				bad("task run %d, error handler %d, open handler %d times; expected %d, %d, %d", ran, onErr, onOpen, wantRan, wantErr, wantOpen)
			}
			if b.failures != failures || (failures > 0 && b.lastFailureTs != last) {
				bad("the breaker counts %d failures, last at %d; %d happened, last at %d", b.failures, b.lastFailureTs, failures, last)
			}
		}
		for i := 0; i < 12 && msg == ""; i++ {
			call(0)
		}
		return msg
	})
}

