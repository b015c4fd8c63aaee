#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo; no check may raise an alarm on any of them.
   usage: refactors.py [-f] [ID-prefix ...]     -f: with finders (slow)"""
import os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def r(name, props, *edits):
    R.append((name, props.split(), edits))

CB = 'circuitbreaker/circuitbreaker.go'
r('cb-extract', 'C01 C02', (CB, """	switch s.state() {
	case open:
		onOpen()
	case closed, halfOpen:
		if err := task(); err != nil {
			s.recordFailure()
			onError(err)
		} else {
			s.reset()
		}
	default:
		panic("Unreachable code")
	}
}
""", """	if s.state() == open {
		onOpen()
		return
	}
	s.run(task, onError)
}

func (s *SyncCircuitBreaker) run(task func() error, onError func(error)) {
	err := task()
	if err == nil {
		s.reset()
		return
	}
	s.recordFailure()
	onError(err)
}
"""))
r('cb-lock', 'C01 C02', (CB, """	now := s.nowFn()
	s.lock.RLock()
	defer s.lock.RUnlock()

	if s.failures >= s.failureThreshold && (now.UnixNano()-s.lastFailureTs) > s.resetTimeout {
		return halfOpen
	} else if s.failures >= s.failureThreshold {
		return open
	} else {
		return closed
	}
""", """	s.lock.Lock()
	failures, last := s.failures, s.lastFailureTs
	s.lock.Unlock()
	if failures < s.failureThreshold {
		return closed
	}
	elapsed := s.nowFn().UnixNano() - last
	if elapsed <= s.resetTimeout {
		return open
	}
	return halfOpen
"""), (CB, """	s.failures++
	s.lastFailureTs = s.nowFn().UnixNano()
""", """	now := s.nowFn()
	s.lastFailureTs = now.UnixNano()
	s.failures += 1
"""))
r('cb-neveropen', 'C01', (CB, """	if err := task(); err != nil {
		onError(err)
	}
}""", """	err := task()
	if err == nil {
		return
	}
	onError(err)
}"""))

SE = 'concurrent/sema.go'
r('sema-helpers', 'C03 C04', (SE, """	s.lock.Lock()
	for s.isFull() {
		s.notFull.Wait()
	}
	s.count++
	s.lock.Unlock()
""", """	s.lock.Lock()
	defer s.lock.Unlock()
	for !s.take() {
		s.notFull.Wait()
	}
"""), (SE, """	if s.isFull() {
		return false
	}
	s.count++
	return true
}
""", """	return s.take()
}

func (s *LockSemaphore) take() bool {
	if s.isFull() {
		return false
	}
	s.count++
	return true
}
"""))
r('sema-release', 'C03 C04', (SE, """	s.lock.Lock()
	defer s.lock.Unlock()
	if s.count <= 0 {
		return
	}
	s.count--
	s.notFull.Broadcast()
""", """	s.lock.Lock()
	freed := s.count > 0
	if freed {
		s.count--
	}
	s.lock.Unlock()
	if freed {
		s.notFull.Broadcast()
	}
"""))
r('sema-loop', 'C03 C04', (SE, """	for s.isFull() {
		s.notFull.Wait()
	}
	s.count++
	s.lock.Unlock()
""", """	for {
		if s.count < s.permits {
			break
		}
		s.notFull.Wait()
	}
	s.count = s.count + 1
	s.lock.Unlock()
"""))
r('sema-chan', 'C03 C04', (SE, "permits: make(chan int, permits)", "permits: make(chan struct{}, permits)"), (SE, "	permits chan int\n", "	permits chan struct{}\n"),
  (SE, "	s.permits <- 0\n}", "	s.permits <- struct{}{}\n}"), (SE, "case s.permits <- 0:\n		// channel not full\n		return true\n	default:\n		// channel full\n		return false\n	}", "case s.permits <- struct{}{}:\n	default:\n		return false\n	}\n	return true"))

FW = 'ratelimiter/fixedwindow.go'
r('fw-invert', 'C05', (FW, """	if s.count < s.capacity {
		s.count++
		return true
	}
	return false

""", """	if s.count >= s.capacity {
		return false
	}
	s.count++
	return true
"""), (FW, """	if !s.contains(now) {
		s.reset(now)
	}
""", """	s.reset(now)
"""))
r('fw-inline', 'C05', (FW, """	if !s.contains(now) {
		s.reset(now)
	}
""", """	if now > s.until {
		if s.windowSize > 0 {
			steps := (now-s.until-1)/s.windowSize + 1
			s.until = s.until + steps*s.windowSize
		}
		s.count = 0
	}
"""))
r('fw-admit', 'C05', (FW, """	s.lock.Lock()
	defer s.lock.Unlock()

	if !s.contains(now) {
		s.reset(now)
	}

	if s.count < s.capacity {
		s.count++
		return true
	}
	return false

}
""", """	s.lock.Lock()
	ok := s.admit(now)
	s.lock.Unlock()
	return ok
}

func (s *SyncFixedWindow) admit(now int64) (ok bool) {
	if !s.contains(now) {
		s.reset(now)
	}
	if ok = s.count < s.capacity; ok {
		s.count++
	}
	return
}
"""))
SW = 'ratelimiter/slidingwindow.go'
r('sw-now-inside', 'C06 C07', (SW, """	now := s.nowFn().UnixNano()

	s.lock.Lock()
	defer s.lock.Unlock()

	if s.capacity == 0 {
		return true
	}
""", """	s.lock.Lock()
	defer s.lock.Unlock()

	if s.capacity == 0 {
		return true
	}
	now := s.nowFn().UnixNano()
"""))
r('sw-helper', 'C06 C07', (SW, """	if s.records.Len() < s.capacity {
		// 未到容量，可以通过
		s.records.PushBack(now)
		return true
	}

	oldestV := s.records.Front()
	oldest := time.Duration(oldestV.Value.(int64))
	if now-int64(oldest) > s.windowSize {
		// 容量超过，且最远的一次请求超过了windowSize，可以通过
		s.records.Remove(oldestV)
		s.records.PushBack(now)
		return true
	}
	return false
}
""", """	if s.records.Len() >= s.capacity {
		front := s.records.Front()
		if !s.expired(front, now) {
			return false
		}
		s.records.Remove(front)
	}
	s.records.PushBack(now)
	return true
}

func (s *SyncSlidingWindow) expired(e *list.Element, now int64) bool {
	at := e.Value.(int64)
	return now-at > s.windowSize
}
"""))
r('sw-update', 'C07', (SW, """	s.lock.Lock()
	defer s.lock.Unlock()

	if capacity < 0 {
		capacity = 0
	}

	for s.records.Len() > 0 && s.records.Len() > capacity {
		// 针对缩容的情况
		s.records.Remove(s.records.Front())
	}

	s.capacity = capacity
	s.windowSize = int64(windowSize)
""", """	if capacity < 0 {
		capacity = 0
	}
	s.lock.Lock()
	defer s.lock.Unlock()
	s.windowSize = windowSize.Nanoseconds()
	s.capacity = capacity
	for excess := s.records.Len() - capacity; excess > 0; excess-- {
		s.records.Remove(s.records.Front())
	}
"""))
TB = 'ratelimiter/tokenbucket.go'
r('tb-sync', 'C08', (TB, """	t.tokens += int(delta)
	if t.tokens > t.capacity {
		t.tokens = t.capacity
	}

	t.lastIssueTimestamp = now
}
""", """	t.lastIssueTimestamp = now
	total := t.tokens + int(delta)
	if total > t.capacity {
		total = t.capacity
	}
	t.tokens = total
}
"""), (TB, """	t.issueIfNecessary()

	if t.tokens > 0 {
		t.tokens--
		return true
	}
	return false

""", """	t.issueIfNecessary()
	if t.tokens <= 0 {
		return false
	}
	t.tokens--
	return true
"""))
r('tb-sync-seconds', 'C08', (TB, """	elapse := now - t.lastIssueTimestamp
	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)

	if delta == 0 {
		return
	}

	t.tokens +=""", """	delta := t.issued(now)
	if delta == 0 {
		return
	}

	t.tokens +="""), (TB, "// TokenBucket implementation using \"sync/atomic\"", """func (t *SyncTokenBucket) issued(now int64) int64 {
	seconds := (now - t.lastIssueTimestamp) / int64(time.Second)
	return seconds * int64(t.issueRatePerSecond)
}

// TokenBucket implementation using \"sync/atomic\""""))
r('tb-atomic', 'C09', (TB, """	for {
		if oldTokens := atomic.LoadInt64(&t.tokens); oldTokens > 0 {
			swapped := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens-1)
			if swapped {
				break
			}
		} else {
			return false
		}
	}
	return true

""", """	for {
		left := atomic.LoadInt64(&t.tokens)
		if left <= 0 {
			return false
		}
		if atomic.CompareAndSwapInt64(&t.tokens, left, left-1) {
			return true
		}
	}
"""))
r('tb-atomic-add', 'C09', (TB, """		for {
			newTokens := oldTokens + delta
			if newTokens > int64(t.capacity) {
				newTokens = int64(t.capacity)
			}
			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
				return
			}
			oldTokens = atomic.LoadInt64(&t.tokens)
		}
	}

}""", """		t.add(oldTokens, delta)
		return
	}

}

func (t *AtomicTokenBucket) add(have, delta int64) {
	for !atomic.CompareAndSwapInt64(&t.tokens, have, t.capped(have+delta)) {
		have = atomic.LoadInt64(&t.tokens)
	}
}

func (t *AtomicTokenBucket) capped(n int64) int64 {
	if max := int64(t.capacity); n > max {
		return max
	}
	return n
}"""))

exec(open(os.path.join(V, 'tools', 'refactors2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'refactors2.py')) else None
exec(open(os.path.join(V, 'tools', 'refactors3.py')).read())

def run(x):
    name, props, edits = x
    d = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        pk = set()
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if old not in s:
                return name, ['EDIT DOES NOT APPLY ' + f + ': ' + old[:60]]
            open(p, 'w').write(s.replace(old, new, 1))
            pk.add('./' + os.path.dirname(f))
        e = dict(os.environ)
        b = subprocess.run('. /opt/vp/env.sh; cd %s; export GOFLAGS="-modfile=/opt/vp/mod/gears.mod -mod=mod" GOTOOLCHAIN=local; go vet %s 2>&1 | grep -v -e "^#" -e unreachable | head -5; go build %s 2>&1 | head' % (d, ' '.join(pk), ' '.join(pk)), shell=True, capture_output=True, text=True, executable='/bin/bash')
        if 'rror' in b.stdout or '.go:' in b.stdout:
            out.append('BUILD ' + b.stdout[:300])
        for c in props:
            fl = [] if FIND else ['-nofind']
            q = subprocess.run([V + '/bin/govc', 'check', '-repo', d, '-v'] + fl + [c], capture_output=True, text=True, env=dict(e, GOVC_BUDGET='5'), cwd=V)
            ls = (q.stdout + q.stderr).splitlines()
            last = [l for l in ls if l.startswith(('OK', 'VIOL', 'NO-V', 'ERROR'))][-1:] or ['?']
            l = last[0]
            if not l.startswith('OK'):
                out.append(c + ' ' + l[:110])
                out += ['    ' + z[:230] for z in ls if z.startswith(('UNPROVED', 'UNDECIDED', 'SUBST', 'ERROR'))][:4]
    finally:
        shutil.rmtree(d)
    return name, out

a = sys.argv[1:]
FIND = '-f' in a
a = [x for x in a if x != '-f']
todo = [x for x in R if not a or any(x[0].startswith(p) for p in a)]
with cf.ThreadPoolExecutor(2) as ex:
    for n, o in ex.map(run, todo):
        print(n, 'ok' if not o else '')
        for l in o:
            print('   ', l)
        sys.stdout.flush()
