// verif-pkg: schedule
package schedule

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chanjarster/gears/simplelog"
)

func verifQuiet() {
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
}

func verifWait(cond func() bool) bool {
	for w := 0; w < 15000; w++ {
		if cond() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return cond()
}

func TestVerifJobs(t *testing.T) {
	verifQuiet()
	verifSearch(t, 0.8, func(v *verifRun) string {
		before := runtime.NumGoroutine()
		delay := v.chance(0.6)
		mk := NewFixedRateTask
		if delay {
			mk = NewFixedDelayTask
		}
		interval := time.Duration(1+v.Intn(4)) * time.Millisecond
		timeout := time.Duration(1+v.Intn(4)) * time.Millisecond
		mode := v.Intn(4) // 0: return at once, 1: work a while, 2: wait for the cancel signal, 3: outlive it
		long := v.chance(0.5)
		if long {
			timeout = time.Hour
		}
		work := time.Duration(v.Intn(6)) * time.Millisecond
		var running, runs, over, early, late, soon int64
		var lastEnd atomic.Value
		job := func(cancel <-chan struct{}) error {
			if n := atomic.AddInt64(&running, 1); n > 1 {
				atomic.StoreInt64(&over, n)
			}
			atomic.AddInt64(&runs, 1)
			if e, ok := lastEnd.Load().(time.Time); ok && time.Since(e) < interval {
				atomic.StoreInt64(&soon, int64(time.Since(e))+1)
			}
			if cancel == nil {
				atomic.StoreInt64(&late, 1)
			}
			select {
			case <-cancel:
				if long {
					atomic.StoreInt64(&early, 1)
				}
			default:
			}
			switch mode {
			case 1:
				time.Sleep(work)
			case 2, 3:
				select {
				case <-cancel:
				case <-time.After(15 * time.Second):
					atomic.StoreInt64(&late, 1)
				}
				if mode == 3 {
					time.Sleep(work)
				}
			}
			lastEnd.Store(time.Now())
			atomic.AddInt64(&running, -1)
			if mode == 1 {
				return errors.New("job failed")
			}
			return nil
		}
		task := mk("t", job, interval, timeout)
		v.log("fixed delay %v, interval %v, timeout %v, job mode %d, work %v", delay, interval, timeout, mode, work)
		if err := task.Start(); err != nil {
			return "a new task does not start: " + err.Error()
		}
		want := int64(1 + v.Intn(5))
		if long && mode >= 2 {
			want = 1
		}
		if !verifWait(func() bool { return atomic.LoadInt64(&runs) >= want }) {
			return fmt.Sprintf("only %d jobs were run", atomic.LoadInt64(&runs))
		}
		// before the stop a run in progress is not cancelled except by its timeout
		if atomic.LoadInt64(&early) != 0 {
			return "the cancel channel of a job has fired before its timeout and without a stop"
		}
		start := time.Now()
		if err := task.Stop(); err != nil {
			return "a started task does not stop: " + err.Error()
		}
		if time.Since(start) > 10*time.Second {
			return "stopping waits for the job"
		}
		if !verifWait(func() bool { return atomic.LoadInt64(&running) == 0 }) {
			return "the running job is not cancelled by the stop"
		}
		if atomic.LoadInt64(&late) != 0 {
			return "the cancel channel of a job does not fire"
		}
		if delay {
			if n := atomic.LoadInt64(&over); n != 0 {
				return fmt.Sprintf("%d jobs of a fixed-delay task ran at once", n)
			}
			if n := atomic.LoadInt64(&soon); n != 0 {
				return fmt.Sprintf("a fixed-delay job was started %v after the previous one ended, the interval is %v", time.Duration(n-1), interval)
			}
		}
		time.Sleep(2 * interval)
		n := atomic.LoadInt64(&runs)
		time.Sleep(6 * interval)
		if m := atomic.LoadInt64(&runs); m > n+2 {
			return fmt.Sprintf("%d jobs were started after the stop", m-n)
		}
		if !verifWait(func() bool { return runtime.NumGoroutine() <= before }) {
			return fmt.Sprintf("%d goroutines stay after the stop", runtime.NumGoroutine()-before)
		}
		return ""
	})
}

// the cancel channel of a job fires when the timeout has passed: over several runs, once soon after it
func TestVerifTimeout(t *testing.T) {
	verifQuiet()
	verifSearch(t, 0.1, func(v *verifRun) string {
		mk, kind := NewFixedRateTask, "rate"
		if v.chance(0.6) {
			mk, kind = NewFixedDelayTask, "delay"
		}
		timeout := time.Duration(30+v.Intn(20)) * time.Millisecond
		interval := time.Duration(1+v.Intn(10)) * time.Millisecond
		fired := make(chan time.Duration, 1000)
		task := mk("t", func(cancel <-chan struct{}) error {
			start := time.Now()
			select {
			case <-cancel:
			case <-time.After(5 * time.Second):
			}
			select {
			case fired <- time.Since(start):
			default:
			}
			return nil
		}, interval, timeout)
		v.log("fixed %s, interval %v, timeout %v", kind, interval, timeout)
		task.Start()
		min, max := time.Hour, time.Duration(0)
		for i := 0; i < 6; i++ {
			select {
			case d := <-fired:
				if d < min {
					min = d
				}
				if d > max {
					max = d
				}
			case <-time.After(20 * time.Second):
				task.Stop()
				return "the jobs of a started task are not run again and again"
			}
			if min < timeout*3/2 && max > timeout/2 {
				break
			}
		}
		task.Stop()
		if min >= timeout*3/2 || max <= timeout/2 {
			return fmt.Sprintf("the timeout is %v, but in six runs the cancel channel fired between %v and %v after the start", timeout, min, max)
		}
		return ""
	})
}
