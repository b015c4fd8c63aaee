property C03
pkgs ./concurrent
assume "permits n >= 1 and below 2^62"
assume "Go channel semantics: a buffered channel of capacity n holds at most n elements, a send blocks while it is full"

type concurrent.LockSemaphore {
  lock lock guards count
  inv[within capacity] 0 <= count && count <= permits
  fact[permits] permits >= 1 && permits <= 4611686018427387904
  cond notFull lock
}
type concurrent.ChanSemaphore {
  neverclosed permits
  fact[channel] permits != nil
}

func concurrent.(*LockSemaphore).Acquire() {
  ghost got int
  on section *.lock(o) {
    if post(self.count) != pre(self.count) {
      assert("one permit taken", post(self.count) == pre(self.count) + 1)
      got++
    }
  }
  ensures[exactly one permit granted] got == 1
}
func concurrent.(*LockSemaphore).Release() {
  ghost sections int
  ghost gave int
  ghost free bool
  on section *.lock(o) {
    sections++
    if pre(self.count) == 0 { assert("over-release changes nothing", post(self.count) == 0); free = true } else {
      if post(self.count) != pre(self.count) {
        assert("one permit returned", post(self.count) == pre(self.count) - 1)
        gave++
      }
    }
  }
  on wait *.lock(o) { assert("release never waits", false) }
  ensures[exactly one permit returned or none outstanding] gave == 1 || free && gave == 0
}
func concurrent.(*LockSemaphore).TryAcquire()(ok) {
  ghost got int
  ghost full bool
  on section *.lock(o) {
    if post(self.count) != pre(self.count) {
      assert("one permit taken", post(self.count) == pre(self.count) + 1)
      got++
    }
    full = pre(self.count) >= self.permits
  }
  on wait *.lock(o) { assert("try-acquire never waits", false) }
  ensures[granted means one permit taken] implies(ok, got == 1)
  ensures[refused means nothing taken] implies(!ok, got == 0)
  ensures[refused only when none is free] implies(!ok, full)
}
func concurrent.NewLockSemaphore(n)(s) {
  requires n >= 1
  ensures[capacity] s.permits == n && s.count == 0
}

func concurrent.(*ChanSemaphore).Acquire() {
  ghost sent int
  ghost other int
  on send self.permits(c) { sent++ }
  on recv { other++ }
  on close { other++ }
  ensures[exactly one permit granted] sent == 1 && other == 0
}
func concurrent.(*ChanSemaphore).Release() {
  ghost recvd int
  ghost other int
  ghost empty bool
  on recv self.permits(c, v, ok, blocking) { recvd++; assert("release never blocks", !blocking) }
  on send { other++ }
  on close { other++ }
  on default { empty = len(self.permits) == 0 }
  ensures[exactly one permit returned or none outstanding] other == 0 && (recvd == 1 || recvd == 0 && empty)
}
func concurrent.(*ChanSemaphore).TryAcquire()(ok) {
  ghost sent int
  ghost other int
  ghost full bool
  on send self.permits(c, v, blocking) { sent++; assert("try-acquire never blocks", !blocking) }
  on recv { other++ }
  on close { other++ }
  on default { full = len(self.permits) >= cap(self.permits) }
  ensures[granted means one permit taken] implies(ok, sent == 1 && other == 0)
  ensures[refused means nothing taken] implies(!ok, sent == 0 && other == 0)
  ensures[refused only when none is free] implies(!ok, full)
}
func concurrent.NewChanSemaphore(n)(s) {
  requires n >= 1
  ensures[capacity] cap(s.permits) == n && len(s.permits) == 0
}
