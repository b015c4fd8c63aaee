property C07
include sliding.inc
also C06 ).Acquire

func ratelimiter.(*SyncSlidingWindow).UpdateConfig(capacity, size) {
  ghost steps int
  invariant[trims no further than the capacity] listlen(self.records) >= min(pre(listlen(self.records)), max(capacity, 0))
  on section *.lock(o) when !rdlock {
    steps++
    n := pre(listlen(self.records))
    c := max(capacity, 0)
    m := min(n, c)
    assert("both values updated together", post(self.capacity) == c && post(self.windowSize) == size)
    assert("newest admissions kept", post(listlen(self.records)) == m && forall(i, int, implies(0 <= i && i < m, post(listat(self.records, i)) == pre(listat(self.records, i + n - m)))))
  }
  ensures[one atomic update] steps == 1
}
func ratelimiter.NewSyncSlidingWindow(capacity, size)(w) {
  ensures[negative capacity is zero] w.capacity == max(capacity, 0)
  ensures[window size] w.windowSize == size
  ensures[starts empty] w.records != nil && listlen(w.records) == 0 && w.nowFn != nil
}
func ratelimiter.(*SyncSlidingWindow).Capacity()(r) {
  ghost v int
  on section *.lock(o) { v = post(self.capacity); assert("reading changes nothing", post(self.capacity) == pre(self.capacity) && post(self.windowSize) == pre(self.windowSize)) }
  ensures[last configured capacity] r == v
}
func ratelimiter.(*SyncSlidingWindow).WindowSize()(r) {
  ghost v int64
  on section *.lock(o) { v = post(self.windowSize); assert("reading changes nothing", post(self.capacity) == pre(self.capacity) && post(self.windowSize) == pre(self.windowSize)) }
  ensures[last configured window size] r == v
}
