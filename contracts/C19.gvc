property C19
include store.inc

# what one update may do, section by section
block UPD {
  ghost known bool
  ghost okv bool
  ghost applied bool
  on section *.kvLock(o) {
    assert("no registration or default changes", forall(k, string, samereg(k)))
    assert("no other key changes", forall(k, string, implies(k != key, same(k))))
    known = post(reg(key))
    okv = known && valid(post(self.kvProcessor[key]), value)
    applied = post(has(self.kvStr, key)) && post(self.kvStr[key]) == value && post(has(self.kv, key))
    assert("the value changes only when accepted and only to the given one", same(key) || (okv && key != "" && applied))
  }
  on section *.kvProcessorLock(o) {
    assert("no validator changes", forall(k, string, post(reg(k)) == pre(reg(k)) && implies(pre(reg(k)), post(self.kvProcessor[k]) == pre(self.kvProcessor[k]))))
    known = post(reg(key))
    okv = known && valid(post(self.kvProcessor[key]), value)
  }
}
block PERSIST {
  ghost saves int
  on invoke *Persister.Save(p, k, v)(e) { assert("the given pair goes to the store's own persister", p == self.persister && k == key && v == value); saves++ }
  on invoke *Persister.BatchSave(p, kvs)(e) { assert("the given pair goes to the store's own persister", p == self.persister && len(kvs) == 1 && kvs[0].Key == key && kvs[0].Value == value); saves++ }
  on invoke *Persister.Delete(p, k)(e) { assert("an update deletes nothing", false) }
}

func confstore.(*defaultImpl).UpdateNoPersist(key, value)(err) {
  insert UPD
  insert PERSIST
  ensures[rejected iff not registered or not accepted] iff(err == nil, key == "" || okv)
  ensures[accepted values are current] implies(err == nil && key != "", applied)
  ensures[the error names the entry] implies(err != nil, err.Key == key && err.Value == value)
  ensures[never persisted] saves == 0
}
func confstore.(*defaultImpl).Update(key, value)(err) {
  insert UPD
  insert PERSIST
  ensures[rejected iff not registered or not accepted] iff(err == nil, key == "" || okv)
  ensures[accepted values are current] implies(err == nil && key != "", applied)
  ensures[the error names the entry] implies(err != nil, err.Key == key && err.Value == value)
  ensures[persisted once iff accepted] saves == ite(key != "" && okv, 1, 0)
}

# batches: the composition, for a store nobody else changes meanwhile
spec acc(j) = uf("accepted", "int", j)
spec rej(j) = uf("rejected", "int", j)
# any one key, and the number of its last accepted entry among the first j
spec K() = uf("any key", "string", 0)
spec last(j) = uf("last", "int", j)
spec accepts(e) = e.Key != "" && reg(e.Key) && valid(self.kvProcessor[e.Key], e.Value)
spec rejects(e) = e.Key != "" && !(reg(e.Key) && valid(self.kvProcessor[e.Key], e.Value))
func confstore.(*defaultImpl).BatchUpdate(in)(errs) {
  option quiet
  requires !reg("") && acc(0) == 0 && rej(0) == 0
  requires last(0) == 0
  requires forall(j, int, implies(0 <= j && j < len(in), in[j] != nil))
  requires forall(j, int, implies(0 <= j && j < len(in), acc(j+1) == acc(j) + ite(accepts(in[j]), 1, 0) && rej(j+1) == rej(j) + ite(rejects(in[j]), 1, 0)))
  requires forall(j, int, implies(0 <= j && j < len(in), last(j+1) == ite(accepts(in[j]) && in[j].Key == K(), j+1, last(j))))
  ghost saves int
  on invoke *Persister.BatchSave(p, kvs)(e) {
    assert("the store's own persister", p == self.persister)
    assert("as many as accepted", len(kvs) == acc(len(in)))
    assert("exactly the accepted entries, in order", forall(j, int, implies(0 <= j && j < len(in) && accepts(in[j]), kvs[acc(j)].Key == in[j].Key && kvs[acc(j)].Value == in[j].Value)))
    saves++
  }
  on invoke *Persister.Save(p, k, v)(e) { assert("a batch is saved in one call", false) }
  on invoke *Persister.Delete(p, k)(e) { assert("an update deletes nothing", false) }
  on section *.kvLock(o) { assert("no registration or default changes", forall(k, string, samereg(k))) }
  invariant[accepted counted](s []*confstore.KVStr, i int) :: i >= -1 && len(s) == acc(i+1)
  invariant[accepted within](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j <= i && accepts(in[j]), 0 <= acc(j) && acc(j) < len(s)))
  invariant[accepted collected](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j <= i && accepts(in[j]), s[acc(j)] == in[j]))
  invariant[rejected counted](s []*confstore.KVError, i int) :: i >= -1 && len(s) == rej(i+1)
  invariant[rejected within](s []*confstore.KVError, i int) :: forall(j, int, implies(0 <= j && j <= i && rejects(in[j]), 0 <= rej(j) && rej(j) < len(s)))
  invariant[rejected collected](s []*confstore.KVError, i int) :: forall(j, int, implies(0 <= j && j <= i && rejects(in[j]), s[rej(j)] != nil && s[rej(j)].Key == in[j].Key && s[rej(j)].Value == in[j].Value))
  invariant[last within](i int) :: 0 <= last(i+1) && last(i+1) <= i+1
  invariant[last accepted wins](i int) :: ite(last(i+1) > 0, has(self.kvStr, K()) && self.kvStr[K()] == in[last(i+1)-1].Value, has(self.kvStr, K()) == old(has(self.kvStr, K())) && implies(old(has(self.kvStr, K())), self.kvStr[K()] == old(self.kvStr[K()])))
  ensures[one error per rejected entry] len(errs) == rej(len(in))
  ensures[in order, naming the entry] forall(j, int, implies(0 <= j && j < len(in) && rejects(in[j]), errs[rej(j)] != nil && errs[rej(j)].Key == in[j].Key && errs[rej(j)].Value == in[j].Value))
  ensures[persisted at most once, and whenever something was accepted] saves <= 1 && implies(acc(len(in)) > 0, saves == 1)
  ensures[the last accepted value of each key is current] ite(last(len(in)) > 0, has(self.kvStr, K()) && self.kvStr[K()] == in[last(len(in))-1].Value, has(self.kvStr, K()) == old(has(self.kvStr, K())) && implies(old(has(self.kvStr, K())), self.kvStr[K()] == old(self.kvStr[K()])))
}
