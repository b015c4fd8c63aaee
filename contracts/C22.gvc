property C22
pkgs ./confstore
nonnil *cmdable*.HMSet *cmdable*.HDel *cmdable*.HGetAll *cmdable*.HSet
assume "go-redis sends what its commands are given: HMSet takes its values as a list of arguments or as one string slice (appendArgs), Result and Err report the outcome of the command they are called on"
assume "the persister is made by its constructor, with a client"

type confstore.redisPersister {
  fact[made by constructor] redisClient != nil
}
spec flatlen(vals) = ite(len(vals) == 1 && typeis(vals[0], []string), len(vals[0].([]string)), len(vals))
spec flatat(vals, i) = ite(len(vals) == 1 && typeis(vals[0], []string), vals[0].([]string)[i], vals[i].(string))
spec flatstr(vals, i) = (len(vals) == 1 && typeis(vals[0], []string)) || typeis(vals[i], string)
block REDIS {
  ghost writes int
  ghost deletes int
  ghost reads int
  ghost cmd any
  ghost rerr any
  ghost seen bool
  on extern *BoolCmd*.Result(c)(v, e) { assert("the outcome of its own command", c == cmd); rerr = e; seen = true }
  on extern *BoolCmd*.Err(c)(e) { assert("the outcome of its own command", c == cmd); rerr = e; seen = true }
  on extern *IntCmd*.Result(c)(v, e) { assert("the outcome of its own command", c == cmd); rerr = e; seen = true }
  on extern *IntCmd*.Err(c)(e) { assert("the outcome of its own command", c == cmd); rerr = e; seen = true }
  on extern *baseCmd*.Err(c)(e) { rerr = e; seen = true }
  on extern *cmdable*.HDel(c, key, fields)(r) { deletes++; cmd = r; seen = false
    assert("exactly that key of the configured hash", key == self.configRootKey && len(fields) == 1 && fields[0] == want) }
}
func confstore.(*redisPersister).BatchSave(in)(err) {
  requires forall(j, int, implies(0 <= j && j < len(in), in[j] != nil))
  let want = ""
  insert REDIS
  on extern *cmdable*.HMSet(c, key, vals)(r) {
    writes++; cmd = r; seen = false
    assert("to the configured hash", key == self.configRootKey)
    assert("as many fields as given", flatlen(vals) == 2*len(in))
    assert("each key with its own value, in order", forall(j, int, implies(0 <= j && j < len(in), flatstr(vals, 2*j) && flatstr(vals, 2*j+1) && flatat(vals, 2*j) == in[j].Key && flatat(vals, 2*j+1) == in[j].Value)))
  }
  invariant[length](s []string, i int) :: i >= -1 && len(s) == 2*(i+1)
  invariant[pairs](s []string, i int) :: forall(j, int, implies(0 <= j && j <= i, s[2*j] == in[j].Key && s[2*j+1] == in[j].Value))
  invariant[length, counted](s []string, i int) :: i >= 0 && len(s) == 2*i
  invariant[pairs, counted](s []string, i int) :: forall(j, int, implies(0 <= j && j < i, s[2*j] == in[j].Key && s[2*j+1] == in[j].Value))
  ensures[one write, none for an empty batch] writes == ite(len(in) > 0, 1, 0) && deletes == 0
  ensures[the error of redis] implies(writes == 1, seen && err == rerr)
  ensures[no error otherwise] implies(writes == 0, err == nil)
}
func confstore.(*redisPersister).Save(k, v)(err) {
  let want = ""
  insert REDIS
  on extern *cmdable*.HMSet(c, key, vals)(r) {
    writes++; cmd = r; seen = false
    assert("to the configured hash", key == self.configRootKey)
    assert("exactly the given pair", flatlen(vals) == 2 && flatstr(vals, 0) && flatstr(vals, 1) && flatat(vals, 0) == k && flatat(vals, 1) == v)
  }
  ensures[one write] writes == 1 && deletes == 0
  ensures[the error of redis] seen && err == rerr
}
func confstore.(*redisPersister).Delete(k)(err) {
  let want = k
  insert REDIS
  on extern *cmdable*.HMSet(c, key, vals)(r) { assert("nothing is written", false) }
  ensures[one delete] deletes == 1
  ensures[the error of redis] seen && err == rerr
}
func confstore.(*redisPersister).Load(s)(err) {
  requires s != nil
  let want = ""
  insert REDIS
  ghost there arr[string]bool
  ghost valu arr[string]string
  ghost passed arr[string]int
  on extern *cmdable*.HMSet(c, key, vals)(r) { assert("nothing is written", false) }
  on extern *cmdable*.HGetAll(c, key)(r) { assert("the configured hash", key == self.configRootKey); reads++; cmd = r; seen = false }
  on extern *StringStringMapCmd*.Result(c)(m, e) { assert("the outcome of its own command", c == cmd); rerr = e; seen = true; there = keyset(m); valu = vals(m) }
  on invoke *Interface.UpdateNoPersist(st, k, v)(e) {
    assert("to the given store, only what redis returned", st == s && seen && rerr == nil && there[k] && v == valu[k])
    passed = update(passed, k, passed[k] + 1)
  }
  on invoke *Interface.Update(st, k, v)(e) { assert("never persisted again", false) }
  on invoke *Interface.BatchUpdate(st, kvs)(e) { assert("never persisted again", false) }
  invariant[passed so far] forall(k, string, passed[k] == ite(there[k] && visited(k), 1, 0))
  ensures[one read, no write] reads == 1 && writes == 0 && deletes == 0
  ensures[the error of redis] seen && err == rerr
  ensures[every pair exactly once, none when redis fails] forall(k, string, passed[k] == ite(there[k] && rerr == nil, 1, 0))
}
