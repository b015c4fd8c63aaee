property C01
pkgs ./circuitbreaker
also C02
assume "clock readings are non-negative nanosecond counts (years 1970 to 2262), so differences do not overflow"

type circuitbreaker.SyncCircuitBreaker {
  lock lock guards failures, lastFailureTs
  inv[ts] lastFailureTs >= 0
  fact[clock] nowFn != nil
}

func circuitbreaker.(*SyncCircuitBreaker).Do(task, onError, onOpen) {
  requires task != nil && onError != nil && onOpen != nil
  ghost ran int
  ghost opened int
  ghost errs int
  ghost terr error
  ghost f int
  ghost ts int64
  ghost now int64
  on call self.nowFn()(r) {
    assume(r >= 0)
    if ran + opened == 0 { now = r }
  }
  on section *.lock(o) { if ran + opened == 0 { f = pre(self.failures); ts = pre(self.lastFailureTs) } }
  on call task()(err) { ran++; terr = err }
  on call onOpen() { opened++ }
  on call onError(e) { assert("error reported is the task's", ran == 1 && e == terr); errs++ }
  ensures[exactly one of task and open handler] ran + opened == 1
  ensures[task runs unless open] iff(ran == 1, !(f >= self.failureThreshold && now - ts <= self.resetTimeout))
  ensures[error handler iff task failed] errs == ite(ran == 1 && terr != nil, 1, 0)
}

func circuitbreaker.(neverOpen).Do(task, onError, onOpen) {
  requires task != nil && onError != nil
  ghost ran int
  ghost errs int
  ghost terr error
  on call task()(err) { ran++; terr = err }
  on call onOpen() { assert("open handler never called", false) }
  on call onError(e) { assert("error reported is the task's", ran == 1 && e == terr); errs++ }
  ensures[task runs once] ran == 1
  ensures[error handler iff task failed] errs == ite(terr != nil, 1, 0)
}

func circuitbreaker.NewSyncCircuitBreaker(threshold, timeout)(r) {
  ensures[threshold kept] r.failureThreshold == threshold
  ensures[timeout kept] r.resetTimeout == timeout
  ensures[starts closed] r.failures == 0 && r.lastFailureTs >= 0
  ensures[clock] r.nowFn != nil
}
