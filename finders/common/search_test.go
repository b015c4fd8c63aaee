package common

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	verifCountLock sync.Mutex
	verifCount     int
)

// one run of a search: its random source and the steps taken so far
type verifRun struct {
	*rand.Rand
	lock  sync.Mutex
	steps []string
}

func (v *verifRun) log(format string, args ...interface{}) {
	v.lock.Lock()
	v.steps = append(v.steps, fmt.Sprintf(format, args...))
	v.lock.Unlock()
}

func (v *verifRun) chance(p float64) bool { return v.Float64() < p }

func verifBudget() time.Duration {
	s, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if s <= 0 {
		s = 2
	}
	return time.Duration(s) * time.Second
}

func verifSeed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

// verifSearch runs f with fresh random sources until its share of the budget is used up; f returns what is
// wrong, or the empty text. A panic of the code under test, or a run that does not come back, is a failure.
func verifSearch(t *testing.T, share float64, f func(v *verifRun) string) {
	t.Helper()
	end := time.Now().Add(time.Duration(float64(verifBudget()) * share))
	seed := verifSeed() * 1000003
	n := 0
	defer func() {
		verifCountLock.Lock()
		verifCount += n
		if p := os.Getenv("VERIF_COUNT"); p != "" {
			os.WriteFile(p, []byte(strconv.Itoa(verifCount)), 0644)
		}
		verifCountLock.Unlock()
	}()
	for n == 0 || time.Now().Before(end) {
		n++
		v := &verifRun{Rand: rand.New(rand.NewSource(seed + int64(n)))}
		res := make(chan string, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					res <- fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			res <- f(v)
		}()
		var msg string
		timer := time.NewTimer(40 * time.Second)
		select {
		case msg = <-res:
		case <-timer.C:
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			msg = "a call does not return\n" + string(b)
		}
		timer.Stop()
		if msg != "" {
			v.lock.Lock()
			text := fmt.Sprintf("VERIF-VIOLATION: %s (run %d of seed %d)\nsteps:\n  %s\n", msg, n, verifSeed(), strings.Join(v.steps, "\n  "))
			v.lock.Unlock()
			verifReport(text)
			t.Fatal(text)
		}
	}
}

func verifReport(text string) {
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			f.WriteString(text)
			f.Close()
		}
	}
	fmt.Println(text)
}

// verifPanics runs f and reports whether it panicked
func verifPanics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			p = true
		}
	}()
	f()
	return false
}
