property C05
pkgs ./ratelimiter
assume "clock readings are non-negative nanosecond counts and clock reading plus window size fits int64"
assume "int is 64 bits"

type ratelimiter.SyncFixedWindow {
  lock lock guards until, count
  inv[window end] until >= 0
  inv[count] count >= 0 && (count <= capacity || capacity < 0)
  fact[window size] windowSize > 0
  fact[clock] nowFn != nil
}

func ratelimiter.(*SyncFixedWindow).Acquire()(ok) {
  ghost t int64
  ghost steps int
  ghost admitted bool
  on call self.nowFn()(r) { assume(r >= 0 && r + self.windowSize <= 9223372036854775807); t = r }
  on section *.lock(o) when !rdlock {
    steps++
    u0 := pre(self.until)
    u1 := post(self.until)
    c0 := ite(t <= u0, pre(self.count), 0)
    if t <= u0 { assert("the window does not move while it covers the time", u1 == u0) } else {
      assert("the new window covers the time", u1 >= t)
      assert("the window advances no further than needed", u1 - t < self.windowSize)
      assert("the window advances by whole window sizes", exists(k, int, u1 - u0 == k * self.windowSize))
    }
    admitted = c0 < self.capacity
    assert("count after", post(self.count) == ite(admitted, c0 + 1, c0))
  }
  ensures[one decision per call] steps == 1
  ensures[admitted iff the window has capacity left] ok == admitted
}
func ratelimiter.NewSyncFixedWindow(capacity, size)(w) {
  requires size > 0
  ensures[capacity] w.capacity == capacity
  ensures[window size] w.windowSize == size
  ensures[starts empty] w.count == 0 && w.until >= 0 && w.nowFn != nil
}
func ratelimiter.(*SyncFixedWindow).Capacity()(r) { ensures[capacity] r == self.capacity }
func ratelimiter.(*SyncFixedWindow).WindowSize()(r) { ensures[window size] r == self.windowSize }
