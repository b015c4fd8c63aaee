property C06
include sliding.inc

func ratelimiter.(*SyncSlidingWindow).Acquire()(ok) {
  ghost t int64
  ghost steps int
  ghost admitted bool
  on call self.nowFn()(r) { assume(r >= 0); t = r }
  on section *.lock(o) when !rdlock {
    steps++
    n := pre(listlen(self.records))
    m := post(listlen(self.records))
    c := pre(self.capacity)
    w := pre(self.windowSize)
    assert("configuration unchanged", post(self.capacity) == c && post(self.windowSize) == w)
    admitted = c == 0 || n < c || t - pre(listat(self.records, 0)).(int64) > w
    if c == 0 || !admitted {
      assert("nothing remembered", m == n && forall(i, int, implies(0 <= i && i < n, post(listat(self.records, i)) == pre(listat(self.records, i)))))
    } else {
      drop := ite(n < c, 0, 1)
      assert("one more remembered, the oldest forgotten only when full", m == n + 1 - drop)
      assert("own timestamp is the newest", post(listat(self.records, m - 1)) == box(t))
      assert("the others keep their order", forall(i, int, implies(0 <= i && i < m - 1, post(listat(self.records, i)) == pre(listat(self.records, i + drop)))))
    }
  }
  ensures[one decision per call] steps == 1
  ensures[admitted iff capacity is left or the oldest is older than the window] ok == admitted
}
func ratelimiter.NewSyncSlidingWindow(capacity, size)(w) {
  ensures[capacity] w.capacity == max(capacity, 0)
  ensures[window size] w.windowSize == size
  ensures[starts empty] w.records != nil && listlen(w.records) == 0 && w.nowFn != nil
}
