property C12
include bus.inc
also C13 ).NewRecv

func event.(*FanOutBus).GoDispatch() {
  runpending
  ghost pending bool
  ghost ended bool
  ghost cur any
  ghost sent arr[int]int
  ghost missed arr[int]int
  on recv self.ch(c, v, ok, blocking) {
    assert("the previous event was offered", !pending)
    assert("no lock held while waiting for an event", !held())
    if ok { pending = true; cur = v; sent = zeroarr("arr[int]int"); missed = zeroarr("arr[int]int") } else { ended = true }
  }
  on send (c, v, blocking) {
    assert("offered under the lock", held(self.recvMapLock))
    assert("an event is in hand", pending)
    assert("the event is offered unchanged", v == cur)
    sent = update(sent, c, sent[c] + 1)
    assert("a dropping receiver is never waited for", implies(blocking, forall(k, string, implies(has(self.recvMap, k) && self.recvMap[k].ch == c, self.recvMap[k].strategy == event.Block))))
  }
  on default (c) { missed = update(missed, c, missed[c] + 1) }
  on close (c) { assert("dispatching closes nothing", false) }
  on section *.recvMapLock(o) when pending {
    assert("every registered receiver is offered the event exactly once", forall(k, string, implies(has(self.recvMap, k), sent[self.recvMap[k].ch] + ite(self.recvMap[k].strategy == event.Drop, missed[self.recvMap[k].ch], 0) == 1)))
    pending = false
  }
  invariant[offered so far] forall(k, string, implies(has(self.recvMap, k), sent[self.recvMap[k].ch] + ite(self.recvMap[k].strategy == event.Drop, missed[self.recvMap[k].ch], 0) == ite(visited(k), 1, 0)))
  invariant[round done] !pending
  ensures[dispatching ends only when the bus is closed] ended && !pending
}
