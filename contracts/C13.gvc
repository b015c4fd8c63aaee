property C13
include bus.inc
also C12
assume "a bus is closed at most once"

func event.NewFanOutBus(bufSize)(b) {
  requires bufSize >= 0
  ensures[an open empty bus] b != nil && b.ch != nil && b.C == b.ch && !closed(b.ch) && cap(b.ch) == bufSize && b.recvMap != nil && forall(k, string, !has(b.recvMap, k))
}

func event.(*FanOutBus).NewRecvStrategy(name, bufSize, fullStrategy)(r) {
  requires bufSize >= 0 && (fullStrategy == event.Drop || fullStrategy == event.Block)
  ghost registered any
  ghost sections int
  on close (c) { assert("registration closes nothing", false) }
  on send (c) { assert("registration sends nothing", false) }
  on section *.recvMapLock(o) {
    assert("the same bus", o == self)
    assert("no other registration changes", forall(k, string, implies(k != name, post(has(self.recvMap, k)) == pre(has(self.recvMap, k)) && post(self.recvMap[k]) == pre(self.recvMap[k]))))
    if post(has(self.recvMap, name)) && !closed(post(self.recvMap[name]).ch) { registered = post(self.recvMap[name]); sections++ }
  }
  ensures[registered under its name] sections >= 1 && registered == box(r)
  ensures[open channel of the requested size] r != nil && !closed(r.ch) && cap(r.ch) == bufSize && r.C == r.ch
  ensures[carries name, strategy and bus] r.name == name && r.strategy == fullStrategy && r.bus == self
}
func event.(*FanOutBus).NewRecv(name, bufSize)(r) {
  requires bufSize >= 0
  ghost registered any
  on close (c) { assert("registration closes nothing", false) }
  on section *.recvMapLock(o) {
    assert("the same bus", o == self)
    assert("no other registration changes", forall(k, string, implies(k != name, post(has(self.recvMap, k)) == pre(has(self.recvMap, k)) && post(self.recvMap[k]) == pre(self.recvMap[k]))))
    if post(has(self.recvMap, name)) && !closed(post(self.recvMap[name]).ch) { registered = post(self.recvMap[name]) }
  }
  ensures[a dropping receiver] registered == box(r) && r != nil && !closed(r.ch) && cap(r.ch) == bufSize && r.name == name && r.strategy == event.Drop && r.bus == self && r.C == r.ch
}

func event.(*Receiver).Close() {
  requires self.bus != nil
  ghost gone bool
  ghost closes int
  ghost registered bool
  on acquired *.recvMapLock(o) { registered = has(self.bus.recvMap, self.name) && self.bus.recvMap[self.name] == self }
  on close (c) {
    assert("only its own channel", c == self.ch)
    assert("closed while registered, under the lock", held(self.bus.recvMapLock) && registered)
    closes++
  }
  on send (c) { assert("closing sends nothing", false) }
  on section *.recvMapLock(o) {
    assert("the receiver's bus", o == self.bus)
    assert("no other receiver is affected", forall(k, string, post(has(self.bus.recvMap, k)) == (pre(has(self.bus.recvMap, k)) && pre(self.bus.recvMap[k]) != self) || k != self.name && post(has(self.bus.recvMap, k)) == pre(has(self.bus.recvMap, k))))
    assert("no other receiver is replaced", forall(k, string, implies(post(has(self.bus.recvMap, k)), post(self.bus.recvMap[k]) == pre(self.bus.recvMap[k]))))
    assert("deregistered means closed", implies(pre(has(self.bus.recvMap, self.name)) && pre(self.bus.recvMap[self.name]) == self && !post(has(self.bus.recvMap, self.name)), closed(self.ch)))
    gone = !(post(has(self.bus.recvMap, self.name)) && post(self.bus.recvMap[self.name]) == self)
  }
  ensures[no longer registered] gone
  ensures[closed at most once] closes <= 1
}

func event.(*FanOutBus).Close() {
  requires !closed(self.ch)
  ghost input int
  ghost empty bool
  ghost regs arr[string]bool
  ghost recvs arr[string]*event.Receiver
  on acquired *.recvMapLock(o) {
    assume(closed(self.ch) == (input > 0))
    regs = keyset(self.recvMap)
    recvs = vals(self.recvMap)
  }
  invariant[those visited are gone] forall(k, string, implies(visited(k), !has(self.recvMap, k)))
  invariant[those visited are closed] forall(k, string, implies(visited(k), closed(recvs[k].ch)))
  invariant[none added] forall(k, string, implies(has(self.recvMap, k), regs[k]))
  invariant[none replaced] forall(k, string, implies(has(self.recvMap, k), self.recvMap[k] == recvs[k]))
  invariant[those gone are closed] forall(k, string, implies(regs[k] && !has(self.recvMap, k), closed(recvs[k].ch)))
  invariant[input closed by this call only] closed(self.ch) == (input > 0)
  invariant[those left are open] forall(k, string, implies(has(self.recvMap, k) && !visited(k), !closed(self.recvMap[k].ch)))
  on close (c) {
    assert("only the input or a registered receiver, under the lock", c == self.ch || held(self.recvMapLock) && exists(k, string, regs[k] && recvs[k].ch == c) || closed(c))
    if c == self.ch { input++ }
  }
  on send (c) { assert("closing sends nothing", false) }
  on section *.recvMapLock(o) {
    assert("the same bus", o == self)
    assert("every deregistered receiver's channel is closed", forall(k, string, implies(pre(has(self.recvMap, k)) && !post(has(self.recvMap, k)), closed(pre(self.recvMap[k]).ch))))
    assert("none is added", forall(k, string, implies(post(has(self.recvMap, k)), pre(has(self.recvMap, k)))))
    empty = forall(k, string, !post(has(self.recvMap, k)))
  }
  ensures[input closed once] input == 1 && closed(self.ch)
  ensures[none registered] empty
}
