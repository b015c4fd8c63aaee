// verif-pkg: schedule
package schedule

import (
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chanjarster/gears/simplelog"
)

func TestVerifLifecycle(t *testing.T) {
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	verifSearch(t, 0.5, func(v *verifRun) string {
		mk := NewFixedDelayTask
		kind := "fixed delay"
		if v.chance(0.5) {
			mk, kind = NewFixedRateTask, "fixed rate"
		}
		var started int64
		release := make(chan struct{})
		blocking := v.chance(0.3)
		job := func(cancel <-chan struct{}) error {
			atomic.AddInt64(&started, 1)
			if blocking {
				<-release
			}
			return nil
		}
		task := mk("a task", job, time.Hour, time.Hour)
		v.log("%s task, blocking job %v", kind, blocking)
		if task.Name() != "a task" {
			return "the name of a task is not the given one"
		}
		state := 0
		for i := 0; i < 8; i++ {
			var err error
			panicked := false
			op := v.Intn(4)
			switch op {
			case 0:
				err = task.Start()
			case 1:
				err = task.Stop()
			case 2:
				panicked = verifPanics(task.MustStart)
			case 3:
				panicked = verifPanics(task.MustStop)
			}
			name := []string{"Start", "Stop", "MustStart", "MustStop"}[op]
			v.log("%s: %v, panic %v", name, err, panicked)
			ok := op%2 == 0 && state == 0 || op%2 == 1 && state == 1
			if ok != (err == nil && !panicked) {
				return fmt.Sprintf("%s of a %s task in state %d (0 new, 1 started, 2 stopped): error %v, panic %v", name, kind, state, err, panicked)
			}
			if ok {
				state++
			}
			if ok && state == 1 {
				for w := 0; atomic.LoadInt64(&started) == 0; w++ {
					if w > 100000 {
						return "a started task does not run its job"
					}
					time.Sleep(100 * time.Microsecond)
				}
			}
		}
		close(release)
		if state == 1 {
			task.Stop()
		}
		if n := atomic.LoadInt64(&started); state == 0 && n != 0 || n > 1 {
			return fmt.Sprintf("the job ran %d times in state %d with an interval of an hour", n, state)
		}
		return ""
	})
}

func TestVerifConstructors(t *testing.T) {
	simplelog.StdLogger.SetOutput(io.Discard)
	verifSearch(t, 0.05, func(v *verifRun) string {
		name := verifText(v, " \t\n\u00a0x", 3)
		blank := true
		for _, c := range name {
			if c == 'x' || c == 0xfffd {
				blank = false
			}
		}
		num := func() time.Duration {
			switch v.Intn(4) {
			case 0:
				return 0
			case 1:
				return -time.Duration(v.Int63())
			case 2:
				return 1
			}
			return time.Duration(1 + v.Int63n(1e15))
		}
		interval, timeout := num(), num()
		var job JobFunc
		if v.chance(0.7) {
			job = func(<-chan struct{}) error { return nil }
		}
		for k, mk := range []func(string, JobFunc, time.Duration, time.Duration) Task{NewFixedDelayTask, NewFixedRateTask} {
			var task Task
			p := verifPanics(func() { task = mk(name, job, interval, timeout) })
			if want := blank || interval <= 0 || timeout <= 0 || job == nil; p != want {
				return fmt.Sprintf("constructor %d with name %q, job %v, interval %d, timeout %d: panic %v", k, name, job != nil, interval, timeout, p)
			}
			if !p && task.Name() != name {
				return fmt.Sprintf("the name of the task is %q instead of %q", task.Name(), name)
			}
		}
		return ""
	})
}

// concurrent callers: one of them starts, one of them stops
func TestVerifLifecycleConcurrent(t *testing.T) {
	simplelog.StdLogger.SetOutput(io.Discard)
	verifSearch(t, 0.3, func(v *verifRun) string {
		mk := NewFixedDelayTask
		if v.chance(0.5) {
			mk = NewFixedRateTask
		}
		task := mk("a task", func(cancel <-chan struct{}) error { return nil }, time.Hour, time.Hour)
		count := func(f func() error) int64 {
			var ok int64
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if f() == nil {
						atomic.AddInt64(&ok, 1)
					}
				}()
			}
			wg.Wait()
			return ok
		}
		if n := count(task.Start); n != 1 {
			return fmt.Sprintf("%d of 4 concurrent starts succeed", n)
		}
		if n := count(task.Stop); n != 1 {
			return fmt.Sprintf("%d of 4 concurrent stops succeed", n)
		}
		return ""
	})
}
