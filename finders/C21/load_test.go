// verif-pkg: confstore
package confstore

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type verifLoader struct {
	Persister
	loads, inside, over int64
	err                 error
	nap                 time.Duration
	end                 time.Time
}

func (l *verifLoader) Load(s Interface) error {
	if atomic.AddInt64(&l.inside, 1) > 1 {
		atomic.StoreInt64(&l.over, 1)
	}
	atomic.AddInt64(&l.loads, 1)
	time.Sleep(l.nap)
	atomic.AddInt64(&l.inside, -1)
	l.end = time.Now()
	return l.err
}

func TestVerifLoadPolicy(t *testing.T) {
	verifSearch(t, 0.7, func(v *verifRun) string {
		interval := time.Duration(v.Intn(3)-1) * time.Hour
		if v.chance(0.5) {
			interval = time.Duration(1+v.Intn(3)) * time.Millisecond
		}
		p := NewLoadPolicy(interval)
		l := &verifLoader{}
		v.log("NewLoadPolicy(%v)", interval)
		loaded := false
		var lo, hi time.Time // the last successful load finished between these
		for i := 0; i < 8; i++ {
			l.err = nil
			if v.chance(0.3) {
				l.err = errors.New("load failed")
			}
			if v.chance(0.3) {
				l.nap = time.Duration(v.Intn(2)) * time.Millisecond
			}
			if interval < time.Second && v.chance(0.5) {
				time.Sleep(time.Duration(v.Intn(4)) * time.Millisecond)
			}
			n := l.loads
			begin := time.Now()
			err := p.DoLoad(nil, l)
			end := time.Now()
			did := l.loads - n
			v.log("DoLoad: %d loads, error %v", did, err)
			if did > 1 {
				return fmt.Sprintf("one call loads %d times", did)
			}
			must := interval <= 0 || !loaded || begin.Sub(hi) >= interval
			mustNot := interval > 0 && loaded && end.Sub(lo) < interval
			if must && did == 0 {
				return fmt.Sprintf("interval %v: no load, although the last successful load was %v ago or there was none", interval, begin.Sub(hi))
			}
			if mustNot && did == 1 {
				return fmt.Sprintf("interval %v: a load at most %v after the last successful one", interval, end.Sub(lo))
			}
			if did == 1 && err != l.err {
				return fmt.Sprintf("the load returns %v, DoLoad returns %v", l.err, err)
			}
			if did == 0 && err != nil {
				return fmt.Sprintf("no load, but the error %v", err)
			}
			if did == 1 && err == nil {
				loaded, lo, hi = true, l.end, end
			}
		}
		return ""
	})
}

func TestVerifOtherPolicies(t *testing.T) {
	verifSearch(t, 0.05, func(v *verifRun) string {
		l := &verifLoader{}
		if v.chance(0.5) {
			l.err = errors.New("load failed")
		}
		if err := NoopLoadPolicy.DoLoad(nil, l); err != nil || l.loads != 0 {
			return fmt.Sprintf("the no-op policy loads %d times and returns %v", l.loads, err)
		}
		for i, p := range []LoadPolicy{SimpleLoadPolicy, NewSimpleLoadPolicy()} {
			if err := p.DoLoad(nil, l); err != l.err || l.loads != int64(i+1) {
				return fmt.Sprintf("the simple policy returns %v after %d loads", err, l.loads)
			}
		}
		return ""
	})
}

func TestVerifLoadConcurrent(t *testing.T) {
	verifSearch(t, 0.2, func(v *verifRun) string {
		interval := []time.Duration{0, time.Hour, time.Microsecond}[v.Intn(3)]
		p := NewLoadPolicy(interval)
		l := &verifLoader{nap: time.Duration(v.Intn(300)) * time.Microsecond}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.DoLoad(nil, l)
			}()
		}
		wg.Wait()
		if l.over != 0 {
			return fmt.Sprintf("loads overlap (interval %v)", interval)
		}
		if want := int64(4); interval == 0 && l.loads != want || interval == time.Hour && l.loads != 1 {
			return fmt.Sprintf("4 concurrent calls with interval %v load %d times", interval, l.loads)
		}
		return ""
	})
}
