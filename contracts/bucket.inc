pkgs ./ratelimiter
assume "clock readings are non-negative nanosecond counts and never decrease"
assume "0 <= capacity <= 2^60 and 0 <= rate <= 2^29, so that crediting fits int64"

// whole seconds between two clock readings
spec secs(a, b) = fdiv(b - a, 1000000000)
// tokens after crediting at time t, and the time of the last credit
spec credited(cap, rate, tok, last, t) = ite(tok >= cap, tok, min(cap, tok + secs(last, t) * rate))

// crediting an interval once keeps what has been issued within what the elapsed time allows
lemma issue_bound(cap int, rate int, tok int, last int, t int, created int, issued int) {
  requires 0 <= rate && 0 <= cap && 0 <= tok && tok <= cap
  requires created <= last && last <= t
  requires issued + tok <= cap + rate * secs(created, last)
  use seconds_add(created, last, t)
  use mul_mono(rate, secs(created, last) + secs(last, t), secs(created, t))
  ensures[issued plus available stays within capacity plus rate times seconds] issued + credited(cap, rate, tok, last, t) <= cap + rate * secs(created, t)
}
