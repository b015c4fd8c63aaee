property C20
include store.inc

spec isnil(x) = x == nil || uf("reflect2.IsNil", "bool", x)
block FRAME {
  ghost saves int
  ghost deletes int
  ghost known bool
  ghost deflt bool
  ghost had bool
  on invoke *Persister.Save(p, k, v)(e) { assert("nothing is saved", false) }
  on invoke *Persister.BatchSave(p, kvs)(e) { assert("nothing is saved", false) }
  on invoke *Persister.Load(p, s)(e) { assert("nothing is loaded", false) }
}

func confstore.(*defaultImpl).RegisterKey(key, dflt, vp)(err) {
  insert FRAME
  ghost done bool
  on invoke *Persister.Delete(p, k)(e) { assert("registering deletes nothing", false) }
  on section *.kvLock(o) {
    assert("no other key changes", forall(k, string, implies(k != key, same(k) && samereg(k))))
    known = pre(reg(key))
    if known || key == "" || isnil(vp) || !valid(vp, dflt) { assert("a refused registration changes nothing", same(key) && samereg(key) && !done) }
    done = post(reg(key)) && !pre(reg(key))
    if done {
      assert("the default is set and there is no current value", post(has(self.kvDefault, key)) && post(self.kvDefaultStr[key]) == dflt && post(self.kvDefault[key]) == conv(vp, dflt) && !post(has(self.kv, key)) && !post(has(self.kvStr, key)))
      assert("with the given validator", post(self.kvProcessor[key]) == vp)
    }
  }
  on section *.kvProcessorLock(o) {
    assert("no other validator changes", forall(k, string, implies(k != key, post(reg(k)) == pre(reg(k)) && implies(pre(reg(k)), post(self.kvProcessor[k]) == pre(self.kvProcessor[k])))))
  }
  ensures[success exactly for a new key with a validator accepting the default] iff(err == nil, key != "" && !isnil(vp) && !known && valid(vp, dflt))
  ensures[registered exactly on success] iff(err == nil, done)
}

func confstore.(*defaultImpl).DeregisterKey(key) {
  insert FRAME
  on invoke *Persister.Delete(p, k)(e) { assert("that key, from the store's own persister", p == self.persister && k == key); deletes++ }
  ghost gone bool
  on section *.kvLock(o) {
    assert("no other key changes", forall(k, string, implies(k != key, same(k) && samereg(k))))
    assert("nothing of the key is left", key == "" || (!post(has(self.kvDefault, key)) && !post(has(self.kvDefaultStr, key)) && !post(has(self.kv, key)) && !post(has(self.kvStr, key)) && !post(reg(key))))
    gone = true
  }
  on section *.kvProcessorLock(o) {
    assert("no other validator changes", forall(k, string, implies(k != key, post(reg(k)) == pre(reg(k)) && implies(pre(reg(k)), post(self.kvProcessor[k]) == pre(self.kvProcessor[k])))))
  }
  ensures[removed from memory] key == "" || gone
  ensures[deleted from persistence once] implies(key != "", deletes == 1)
}

func confstore.(*defaultImpl).ResetKey(key) {
  insert FRAME
  on invoke *Persister.Delete(p, k)(e) { assert("that key, from the store's own persister", p == self.persister && k == key); deletes++ }
  ghost gone bool
  on section *.kvLock(o) {
    assert("no other key changes", forall(k, string, implies(k != key, same(k))))
    assert("no registration or default changes", forall(k, string, samereg(k)))
    assert("the current value is gone", !post(has(self.kv, key)) && !post(has(self.kvStr, key)))
    gone = true
  }
  ensures[removed from memory] key == "" || gone
  ensures[deleted from persistence once] implies(key != "", deletes == 1)
}
