pkgs ./confstore
pure confstore.ValueProcessor.Validate confstore.ValueProcessor.Convert
assume "a validator's Validate and Convert are functions of the string alone, do not panic and do not call back into the store"
assume "the store is made by its constructor, with a persister and a load policy; these return normally"

type confstore.defaultImpl {
  lock kvProcessorLock guards kvProcessor
  inv[validators] kvProcessor != nil && forall(k, string, implies(has(kvProcessor, k), k != "" && kvProcessor[k] != nil))
  lock kvLock guards kvProcessor, kv, kvStr, kvDefault, kvDefaultStr
  inv[maps] kvProcessor != nil && kv != nil && kvStr != nil && kvDefault != nil && kvDefaultStr != nil && kv != kvDefault && kvStr != kvDefaultStr
  inv[every registered key has a validator and a default, no other key has any value] forall(k, string, has(kvDefault, k) == has(kvProcessor, k) && has(kvDefaultStr, k) == has(kvProcessor, k) && has(kv, k) == has(kvStr, k) && implies(has(kv, k), has(kvProcessor, k)) && implies(has(kvProcessor, k), k != "" && kvProcessor[k] != nil))
  inv[the default was accepted and converted by its own validator] forall(k, string, implies(has(kvProcessor, k), ext("confstore.ValueProcessor.Validate#0", kvProcessor[k], kvDefaultStr[k]) && kvDefault[k] == ext("confstore.ValueProcessor.Convert", kvProcessor[k], kvDefaultStr[k])))
  inv[the value was accepted and converted by its own validator] forall(k, string, implies(has(kv, k), ext("confstore.ValueProcessor.Validate#0", kvProcessor[k], kvStr[k]) && kv[k] == ext("confstore.ValueProcessor.Convert", kvProcessor[k], kvStr[k])))
  fact[made by constructor] kvProcessorLock != nil && kvLock != nil && kvProcessorLock != kvLock && persister != nil && loadPolicy != nil
}
spec reg(k) = has(self.kvProcessor, k)
spec val(k) = ite(has(self.kv, k), self.kv[k], self.kvDefault[k])
spec str(k) = ite(has(self.kvStr, k), self.kvStr[k], self.kvDefaultStr[k])
spec same(k) = post(has(self.kv, k)) == pre(has(self.kv, k)) && post(has(self.kvStr, k)) == pre(has(self.kvStr, k)) && implies(pre(has(self.kv, k)), post(self.kv[k]) == pre(self.kv[k])) && implies(pre(has(self.kvStr, k)), post(self.kvStr[k]) == pre(self.kvStr[k]))
spec samereg(k) = post(has(self.kvProcessor, k)) == pre(has(self.kvProcessor, k)) && post(has(self.kvDefault, k)) == pre(has(self.kvDefault, k)) && implies(pre(has(self.kvProcessor, k)), post(self.kvProcessor[k]) == pre(self.kvProcessor[k]) && post(self.kvDefault[k]) == pre(self.kvDefault[k]) && post(self.kvDefaultStr[k]) == pre(self.kvDefaultStr[k]))
spec valid(p, s) = ext("confstore.ValueProcessor.Validate#0", p, s)
spec conv(p, s) = ext("confstore.ValueProcessor.Convert", p, s)
