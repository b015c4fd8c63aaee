pkgs ./event
assume "a receiver's strategy is Drop or Block"

type event.FanOutBus {
  lock recvMapLock guards recvMap, closedness
  inv[registered receivers are usable] forall(k, string, implies(has(recvMap, k), recvMap[k] != nil && recvMap[k].ch != nil && !closed(recvMap[k].ch) && recvMap[k].name == k && (recvMap[k].strategy == event.Drop || recvMap[k].strategy == event.Block)))
  inv[every receiver has its own channel] forall(j, string, forall(k, string, implies(has(recvMap, j) && has(recvMap, k) && j != k, recvMap[j].ch != recvMap[k].ch)))
  inv[receivers are not fed by the bus channel] forall(k, string, implies(has(recvMap, k), recvMap[k].ch != ch))
  inv[map] recvMap != nil
  fact[bus channel] ch != nil
}
