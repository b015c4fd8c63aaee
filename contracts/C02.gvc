property C02
pkgs ./circuitbreaker
assume "fewer than 2^62 consecutive failures: the failure counter does not wrap"
assume "clock readings are non-negative nanosecond counts"

type circuitbreaker.SyncCircuitBreaker {
  lock lock guards failures, lastFailureTs
  inv[ts] lastFailureTs >= 0
  inv[count] failures >= 0
  fact[clock] nowFn != nil
}

func circuitbreaker.(*SyncCircuitBreaker).Do(task, onError, onOpen) {
  requires task != nil && onError != nil && onOpen != nil
  ghost ran int
  ghost rec int
  ghost opened int
  ghost terr error
  ghost now int64
  ghost nowAt int
  on call self.nowFn()(r) { assume(r >= 0); now = r; nowAt = ran }
  on call task()(err) { assert("no lock held while the task runs", !held(self.lock)); ran++; terr = err }
  on call onOpen() { assert("no lock held while the open handler runs", !held(self.lock)); opened++ }
  on call onError(e) { assert("no lock held while the error handler runs", !held(self.lock)); assert("failure recorded before it is reported", rec == 1) }
  on section *.lock(o) {
    assume(pre(self.failures) < 4611686018427387904)
    if ran == 1 && rec == 0 && !rdlock {
      rec++
      if terr != nil {
        assert("failure counted once", post(self.failures) == pre(self.failures) + 1)
        assert("failure time recorded", nowAt == 1 && post(self.lastFailureTs) == now)
      } else {
        assert("success resets the count", post(self.failures) == 0)
      }
    } else {
      assert("nothing else changes", post(self.failures) == pre(self.failures) && post(self.lastFailureTs) == pre(self.lastFailureTs))
    }
  }
  ensures[every execution is accounted once] rec == ran
  ensures[at most one execution] ran <= 1
  ensures[rejected call accounts nothing] implies(opened > 0, ran == 0 && rec == 0)
}

func circuitbreaker.NewSyncCircuitBreaker(threshold, timeout)(r) {
  ensures[count starts at zero] r.failures == 0 && r.lastFailureTs == 0
  ensures[clock] r.nowFn != nil
}
