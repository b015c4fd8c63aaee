property C04
pkgs ./concurrent
assume "sync.Cond: Broadcast wakes every waiter, Wait releases its lock while asleep and holds it again when it returns"

type concurrent.LockSemaphore {
  lock lock guards count
  inv[within capacity] 0 <= count && count <= permits
  fact[permits] permits >= 1 && permits <= 4611686018427387904
  cond notFull lock
}
type concurrent.ChanSemaphore {
  neverclosed permits
  fact[channel] permits != nil
}

func concurrent.(*LockSemaphore).Acquire() {
  on wait *.lock(o) { assert("sleeps only while no permit is free", post(self.count) >= self.permits) }
}
func concurrent.(*LockSemaphore).Release() {
  ghost freed bool
  ghost signalled bool
  ghost who int
  on section *.lock(o) { if post(self.count) < pre(self.count) { freed = true } }
  on extern (*sync.Cond).Broadcast(c) { if c == self.notFull { signalled = true } }
  on extern (*sync.Cond).Signal(c) { if c == self.notFull { signalled = true } }
  ensures[a freed permit wakes the waiters] implies(freed, signalled)
}
func concurrent.(*LockSemaphore).TryAcquire()(ok) {
  on wait *.lock(o) { assert("try-acquire never waits", false) }
}
func concurrent.NewLockSemaphore(n)(s) {
  requires n >= 1
  ensures[condition variable of the semaphore] s.notFull != nil && s.notFull.L == box(&s.lock)
}
func concurrent.(*ChanSemaphore).Acquire() {
  ensures[returns] true
}
func concurrent.(*ChanSemaphore).Release() {
  ensures[returns] true
}
func concurrent.(*ChanSemaphore).TryAcquire()(ok) {
  ensures[returns] true
}
