property C09
lemma seconds_add(a int, b int, c int) {
  requires a <= b && b <= c
  ensures secs(a, b) + secs(b, c) <= secs(a, c)
}
lemma mul_mono(r int, x int, y int) {
  requires r >= 0 && x <= y
  ensures r * x <= r * y
}
include bucket.inc

// claiming the interval (last, t] keeps issued + available + claimed within capacity plus rate times seconds
lemma claim_bound(cap int, rate int, x int, last int, t int, created int, d int) {
  requires 0 <= rate && created <= last && last <= t
  requires x <= cap + rate * secs(created, last)
  requires d <= rate * secs(last, t)
  use seconds_add(created, last, t)
  use mul_mono(rate, secs(created, last) + secs(last, t), secs(created, t))
  ensures x + d <= cap + rate * secs(created, t)
}

// issued: admitted since creation; pending: credits claimed by an interval but not yet in the bucket
type ratelimiter.AtomicTokenBucket {
  atomic tokens, lastIssueTimestamp
  ghost issued int
  ghost pending int
  ghost created int64
  clock
  ainv[between zero and capacity] 0 <= tokens && tokens <= capacity
  ainv[creation] created == pre(created) && 0 <= created && created <= lastIssueTimestamp
  ainv[the last credit is not in the future] lastIssueTimestamp <= clk
  ainv[claims, own among them] pending >= own && own >= 0 && issued >= 0
  ainv[issued plus available plus claimed stays within capacity plus rate times seconds] issued + tokens + pending <= capacity + issueRatePerSecond * secs(created, lastIssueTimestamp)
  fact[capacity] capacity >= 0 && capacity <= 1152921504606846976
  fact[rate] issueRatePerSecond >= 0 && issueRatePerSecond <= 536870912
  fact[clock] nowFn != nil
}

func ratelimiter.(*AtomicTokenBucket).Acquire()(ok) {
  ghost own int
  ghost taken int
  on call self.nowFn()(r) { assume(r >= clk); clk = r }
  on atomic *.lastIssueTimestamp(o) {
    L := pre(self.lastIssueTimestamp)
    N := post(self.lastIssueTimestamp)
    if N != L {
      assert("the interval is claimed forwards", N > L && N <= clk)
      d := self.issueRatePerSecond * secs(L, N)
      use(claim_bound, self.capacity, self.issueRatePerSecond, self.issued + self.tokens + self.pending, L, N, self.created, d)
      self.pending = self.pending + d
      own = own + d
    }
  }
  on atomic *.tokens(o) {
    A := pre(self.tokens)
    B := post(self.tokens)
    assert("tokens are taken one at a time", B >= A - 1)
    if B < A {
      taken++
      self.issued = self.issued + 1
    }
    if B > A {
      assert("credits only what this call has claimed", B - A <= own)
      self.pending = self.pending - own
      own = 0
    }
  }
  invariant[claimed credit] own == 0
  invariant[claimed credit in hand](d int64) :: own == d
  invariant[taken] taken == 0

  ensures[admitted means exactly one token consumed] implies(ok, taken == 1)
  ensures[refused means none consumed] implies(!ok, taken == 0)
}
func ratelimiter.NewAtomicTokenBucket(capacity, rate)(b) {
  requires 0 <= capacity && capacity <= 1152921504606846976
  requires 0 <= rate && rate <= 536870912
  requires clk >= 0
  ensures[starts full] b.(*ratelimiter.AtomicTokenBucket).tokens == capacity
  ensures[capacity] b.(*ratelimiter.AtomicTokenBucket).capacity == capacity
  ensures[rate] b.(*ratelimiter.AtomicTokenBucket).issueRatePerSecond == rate
  ensures[the first credit counts from creation] b.(*ratelimiter.AtomicTokenBucket).nowFn != nil && b.(*ratelimiter.AtomicTokenBucket).lastIssueTimestamp >= old(clk) && b.(*ratelimiter.AtomicTokenBucket).lastIssueTimestamp <= clk
}
func ratelimiter.(*AtomicTokenBucket).Capacity()(r) { ensures[capacity] r == self.capacity }
