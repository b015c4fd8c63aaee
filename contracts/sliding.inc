pkgs ./ratelimiter
assume "clock readings are non-negative nanosecond counts"

type ratelimiter.SyncSlidingWindow {
  lock lock guards capacity, windowSize, records
  inv[capacity] capacity >= 0
  inv[remembered at most capacity] listlen(records) <= capacity
  inv[remembered timestamps] forall(i, int, implies(0 <= i && i < listlen(records), typeis(listat(records, i), int64) && listat(records, i).(int64) >= 0))
  fact[records] records != nil
  fact[clock] nowFn != nil
}
