property C08
lemma seconds_add(a int, b int, c int) {
  requires a <= b && b <= c
  ensures secs(a, b) + secs(b, c) <= secs(a, c)
}
lemma mul_mono(r int, x int, y int) {
  requires r >= 0 && x <= y
  ensures r * x <= r * y
}
include bucket.inc

type ratelimiter.SyncTokenBucket {
  lock lock guards tokens, lastIssueTimestamp
  inv[between zero and capacity] 0 <= tokens && tokens <= capacity
  inv[last credit] lastIssueTimestamp >= 0
  fact[capacity] capacity >= 0 && capacity <= 1152921504606846976
  fact[rate] issueRatePerSecond >= 0 && issueRatePerSecond <= 536870912
  fact[clock] nowFn != nil
}

func ratelimiter.(*SyncTokenBucket).Acquire()(ok) {
  ghost t int64
  ghost read bool
  ghost steps int
  ghost granted bool
  on call self.nowFn()(r) { assume(r >= 0 && r >= self.lastIssueTimestamp); t = r; read = true }
  on section *.lock(o) when !rdlock {
    steps++
    T := pre(self.tokens)
    L := pre(self.lastIssueTimestamp)
    C := self.capacity
    R := self.issueRatePerSecond
    assert("the clock is read when the bucket is not full", implies(T < C && R > 0, read))
    have := ite(read, credited(C, R, T, L, t), T)
    granted = have > 0
    assert("consumes exactly one token when granted, none otherwise", post(self.tokens) == ite(granted, have - 1, have))
    assert("a second is credited at most once, and only when a whole second has passed", implies(R > 0, post(self.lastIssueTimestamp) == ite(T < C && secs(L, t) > 0, t, L)))
    assert("the last credit never moves backwards nor ahead of the clock", post(self.lastIssueTimestamp) == L || read && post(self.lastIssueTimestamp) == t)
  }
  ensures[one decision per call] steps == 1
  ensures[granted iff a token is available] ok == granted
}
func ratelimiter.NewSyncTokenBucket(capacity, rate)(b) {
  requires 0 <= capacity && capacity <= 1152921504606846976
  requires 0 <= rate && rate <= 536870912
  ensures[starts full] b.(*ratelimiter.SyncTokenBucket).tokens == capacity
  ensures[capacity] b.(*ratelimiter.SyncTokenBucket).capacity == capacity
  ensures[rate] b.(*ratelimiter.SyncTokenBucket).issueRatePerSecond == rate
  requires clk >= 0
  ensures[the first credit counts from creation] b.(*ratelimiter.SyncTokenBucket).nowFn != nil && b.(*ratelimiter.SyncTokenBucket).lastIssueTimestamp >= old(clk) && b.(*ratelimiter.SyncTokenBucket).lastIssueTimestamp <= clk
}
func ratelimiter.(*SyncTokenBucket).Capacity()(r) { ensures[capacity] r == self.capacity }
