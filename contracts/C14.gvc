property C14
pkgs ./event
assume "the channel of a new timer is no receiver channel"

func event.(*Receiver).Drain()(data) {
  requires self.C != nil
  ghost n int
  ghost got arr[int]any
  ghost fin bool
  on recv self.C(c, v, ok, blocking) {
    assert("draining never blocks", !blocking)
    assert("nothing is received after the end", !fin)
    if ok { got = update(got, n, v); n++ } else { fin = true }
  }
  on recv (c, v, ok, blocking) when c != self.C { assert("only the receiver's channel is read", false) }
  on default (c) { fin = true }
  on send (c) { assert("draining sends nothing", false) }
  on close (c) { assert("draining closes nothing", false) }
  invariant[collected so far](d []any) :: len(d) == n && forall(i, int, implies(0 <= i && i < n, d[i] == got[i]))
  invariant[not ended] !fin
  ensures[every received event, in order] len(data) == n && forall(i, int, implies(0 <= i && i < n, data[i] == got[i]))
  ensures[stops only when empty or closed] fin
}
func event.(*Receiver).CollectTimeout(timeout)(data) {
  requires self.C != nil
  ghost n int
  ghost got arr[int]any
  ghost fin bool
  ghost timers int
  on recv self.C(c, v, ok, blocking) {
    assert("nothing is received after the end", !fin)
    if ok { got = update(got, n, v); n++ } else { fin = true }
  }
  on recv (c, v, ok, blocking) when c != self.C { fin = true }
  on extern time.NewTimer(d)(t) { assume(t.C != self.C); assert("the requested timeout", d == timeout); timers++ }
  on extern (*time.Timer).Reset(t, d) { timers++ }
  on extern time.After(d)(t) { assume(t != self.C); assert("the requested timeout", d == timeout); timers++ }
  on send (c) { assert("collecting sends nothing", false) }
  on close (c) { assert("collecting closes nothing", false) }
  invariant[collected so far](d []any) :: len(d) == n && forall(i, int, implies(0 <= i && i < n, d[i] == got[i]))
  invariant[not ended] !fin
  ensures[every received event, in order] len(data) == n && forall(i, int, implies(0 <= i && i < n, data[i] == got[i]))
  ensures[ends by timeout or closing only] fin
  ensures[one timer for the whole call] timers == 1
}
