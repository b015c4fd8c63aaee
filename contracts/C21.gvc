property C21
pkgs ./confstore
assume "the zero time lies longer ago than any interval (it is the year 1)"
assume "a load takes time and returns normally; the clock does not run backwards"

type confstore.defaultLoadPolicy {
  lock loadLock guards lastLoadTs
  inv[no load finishes in the future] lastLoadTs == 0 || lastLoadTs <= clk
  fact[made by constructor] loadLock != nil
  clock
}
func confstore.(*defaultLoadPolicy).DoLoad(s, p)(err) {
  requires p != nil
  ghost loads int
  ghost lerr any
  ghost begun int
  ghost fin int
  ghost sections int
  on extern time.Now()(t) { assume(t >= self.minInterval) }
  on extern time.Since(u)(d) { assume(clk >= self.minInterval) }
  on invoke *Persister.Load(q, st)(e) {
    assert("that store, from that persister", q == p && st == s)
    assert("never two loads at the same time", heldw(self.loadLock))
    assert("due when it loads", self.minInterval <= 0 || self.lastLoadTs == 0 || clk - self.lastLoadTs >= self.minInterval)
    loads++
    lerr = e
    begun = clk
    clk = clk + uf("time the load takes", "int", clk)
    assume(clk > begun)
    fin = clk
  }
  on section *.loadLock(o) {
    sections++
    if loads == 0 { assert("not due when it does not load", self.minInterval > 0 && pre(self.lastLoadTs) != 0 && clk - pre(self.lastLoadTs) < self.minInterval) }
    if self.minInterval > 0 {
      if loads == 1 && lerr == nil { assert("remembers when the load finished", post(self.lastLoadTs) >= fin && post(self.lastLoadTs) <= clk) }
      if loads != 1 || lerr != nil { assert("only a successful load is remembered", post(self.lastLoadTs) == pre(self.lastLoadTs)) }
    }
  }
  ensures[at most one load, decided once] loads <= 1 && sections == 1
  ensures[the error of the load itself] err == ite(loads == 1, lerr, nil)
}
func confstore.NewLoadPolicy(min)(r) {
  ensures[never loaded, with that interval] typeis(r, *confstore.defaultLoadPolicy) && r.(*confstore.defaultLoadPolicy).minInterval == min && r.(*confstore.defaultLoadPolicy).lastLoadTs == 0 && r.(*confstore.defaultLoadPolicy).loadLock != nil
}
func confstore.(*noopLoadPolicy).DoLoad(s, p)(err) {
  on invoke *Persister.Load(q, st)(e) { assert("never loads", false) }
  ensures[no error] err == nil
}
func confstore.(*simpleLoadPolicy).DoLoad(s, p)(err) {
  requires p != nil
  ghost loads int
  ghost lerr any
  on invoke *Persister.Load(q, st)(e) { assert("that store, from that persister", q == p && st == s); loads++; lerr = e }
  ensures[exactly one load, its own error] loads == 1 && err == lerr
}
