property C10
pkgs ./ratelimiter
include base.gvc
driver drivers/C10_limiter.go
pure ratelimiter.TtlRateLimiterParams.GetCapacity ratelimiter.TtlRateLimiterParams.GetWindowSizeSeconds ratelimiter.TtlRateLimiterParams.GetTimeoutSeconds
assume "the limiter parameters do not change during one call"
assume "a successful script evaluation returns the four-element reply of the script, whose first two are 0 or 1 (C11)"
assume "clock readings are non-negative"

spec asInt(x) = ite(typeis(x, int64), x.(int64), x.(int))
spec isReply(x) = typeis(x, []any) && len(x.([]any)) == 4 && typeis(x.([]any)[0], int64) && typeis(x.([]any)[1], int64) && typeis(x.([]any)[2], int64) && typeis(x.([]any)[3], string) && (x.([]any)[0].(int64) == 0 || x.([]any)[0].(int64) == 1) && (x.([]any)[1].(int64) == 0 || x.([]any)[1].(int64) == 1)
spec capacityOf(p) = uf("ratelimiter.TtlRateLimiterParams.GetCapacity", "int", p)
spec windowOf(p) = uf("ratelimiter.TtlRateLimiterParams.GetWindowSizeSeconds", "int", p)
spec timeoutOf(p) = uf("ratelimiter.TtlRateLimiterParams.GetTimeoutSeconds", "int", p)
spec unset(p) = capacityOf(p) <= 0 || windowOf(p) <= 0 || timeoutOf(p) <= 0
spec reports(r, a) = r.Block == (a.([]any)[0].(int64) == 1) && r.Triggered == (a.([]any)[1].(int64) == 1) && r.Ttl == a.([]any)[2].(int64) && r.Msg == a.([]any)[3].(string)

# one blocking operation with the record key k, the block key bk and the message m; then the question for bk
block pair {
  requires clk >= 0 && client != nil && params != nil && between != nil
  ghost asking bool
  ghost limits int
  ghost asks int
  ghost written string
  ghost failed bool
  ghost answer any
  ghost failed2 bool
  ghost answer2 any
  on call between()() { asking = true }
  on extern *.EvalSha(c, sha, keys, args)(cmd) {
    if asking {
      asks++
      assert("query script", sha == ratelimiter.scriptSha2)
      assert("consults one key", len(keys) == 1)
      assert("consults the key that blocking writes", implies(limits == 1, keys[0] == written))
    } else {
      limits++
      assert("not contacted with a non-positive parameter", !unset(params))
      assert("limiter script", sha == ratelimiter.scriptSha1)
      assert("record key and block key", len(keys) == 2)
      assert("block key and record key of a single-key request differ", implies(single, keys[0] != keys[1]))
      written = keys[1]
      assert("parameters", len(args) == 5 && asInt(args[0]) == capacityOf(params) && asInt(args[1]) == windowOf(params) && asInt(args[2]) == timeoutOf(params))
      assert("current time in seconds", asInt(args[3]) >= fdiv(old(clk), 1000000000) && asInt(args[3]) <= fdiv(clk, 1000000000))
      assert("message", typeis(args[4], string) && args[4].(string) == msg)
    }
  }
  on extern (*github.com/go-redis/redis/v7.Cmd).Result(cmd)(raw, err) {
    assume(implies(err == nil, isReply(raw)))
    if asking {
      failed2 = err != nil
      answer2 = raw
    } else {
      failed = err != nil
      answer = raw
    }
  }
  ensures[asks redis exactly when every parameter is positive] limits == ite(unset(params), 0, 1)
  ensures[passes without redis] implies(limits == 0, r1 != nil && !r1.Block && !r1.Triggered && r1.Ttl == 0 && r1.Msg == "")
  ensures[fails open] r1 != nil && implies(failed, !r1.Block && !r1.Triggered)
  ensures[answers unchanged] implies(limits == 1 && !failed, reports(r1, answer))
  ensures[the question asks redis once] asks == 1
  ensures[the question fails open] r2 != nil && implies(failed2, !r2.Block && !r2.Triggered)
  ensures[its answers unchanged] implies(!failed2, reports(r2, answer2))
}

func ratelimiter.verifOneKey(client, params, cluster, tag, ctx, key, msg, between)(r1, r2) {
  let single = true
  insert pair
}
func ratelimiter.verifTwoKeys(client, params, cluster, tag, ctx, key, blockKey, msg, between)(r1, r2) {
  let single = false
  insert pair
}
func ratelimiter.verifParams(client, params, cluster, tag)(c, w, t) {
  requires params != nil
  ensures[as configured] c == capacityOf(params) && w == windowOf(params) && t == timeoutOf(params)
}
func ratelimiter.verifFixed(c, w, t)(capacity, window, timeout) {
  ensures[as given] capacity == c && window == w && timeout == t
}
func ratelimiter.LoadScript(client) {
  requires client != nil
  ghost text string
  on extern *.ScriptLoad(c, t)(cmd) { text = t }
  on extern (*github.com/go-redis/redis/v7.StringCmd).Result(cmd)(s, err) { assume(s == uf("sha", "string", text)) }
  ensures[each script under its own name] ratelimiter.scriptSha1 == uf("sha", "string", ratelimiter.script1) && ratelimiter.scriptSha2 == uf("sha", "string", ratelimiter.script2)
  panics true
}
