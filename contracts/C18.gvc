property C18
include store.inc
also C19 ).Update
also C20 Key

block READ {
  ghost known bool
  ghost cur any
  ghost curs string
  ghost reads int
  on section *.kvLock(o) {
    assert("reading changes nothing", forall(k, string, post(reg(k)) == pre(reg(k)) && post(val(k)) == pre(val(k)) && post(str(k)) == pre(str(k))))
    known = post(reg(key))
    cur = post(val(key))
    curs = post(str(key))
    reads++
  }
  on section *.kvProcessorLock(o) { assert("reading changes no registration", forall(k, string, post(reg(k)) == pre(reg(k)))) }
}

func confstore.(*defaultImpl).GetValue(key)(v, hit) {
  insert READ
  ensures[hit iff registered] reads >= 1 && hit == known
  ensures[the current value or else the default] implies(hit, v == cur)
}
func confstore.(*defaultImpl).GetValueString(key)(v, hit) {
  insert READ
  ensures[hit iff registered] reads >= 1 && hit == known
  ensures[the current value or else the default] implies(hit, v == curs)
}
func confstore.(*defaultImpl).MustGetValue(key)(v) {
  insert READ
  panics[only on a miss] reads >= 1 && !known
  mustpanic[on every miss] !known
  ensures[the current value or else the default] reads >= 1 && v == cur
}
func confstore.(*defaultImpl).MustGetValueString(key)(v) {
  insert READ
  panics[only on a miss] reads >= 1 && !known
  mustpanic[on every miss] !known
  ensures[the current value or else the default] reads >= 1 && v == curs
}
spec regs(j) = uf("registered", "int", j)
func confstore.(*defaultImpl).BatchGetValues(keys)(r) {
  option quiet
  requires !reg("") && regs(0) == 0 && forall(j, int, implies(0 <= j && j < len(keys), regs(j+1) == regs(j) + ite(reg(keys[j]), 1, 0)))
  invariant[counted](s []*confstore.KV, i int) :: i >= -1 && len(s) == regs(i+1)
  invariant[within](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), 0 <= regs(j) && regs(j) < len(s)))
  invariant[keys](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), s[regs(j)] != nil && s[regs(j)].Key == keys[j]))
  invariant[values](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), s[regs(j)].Value == val(keys[j])))
  invariant[counted, counted](s []*confstore.KV, i int) :: i >= 0 && len(s) == regs(i)
  invariant[within, counted](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), 0 <= regs(j) && regs(j) < len(s)))
  invariant[keys, counted](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), s[regs(j)] != nil && s[regs(j)].Key == keys[j]))
  invariant[values, counted](s []*confstore.KV, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), s[regs(j)].Value == val(keys[j])))
  ensures[as many as registered] len(r) == regs(len(keys))
  ensures[in order, each with its own value] forall(j, int, implies(0 <= j && j < len(keys) && reg(keys[j]), r[regs(j)].Key == keys[j] && r[regs(j)].Value == val(keys[j])))
}
func confstore.(*defaultImpl).BatchGetValueString(keys)(r) {
  option quiet
  requires !reg("") && regs(0) == 0 && forall(j, int, implies(0 <= j && j < len(keys), regs(j+1) == regs(j) + ite(reg(keys[j]), 1, 0)))
  invariant[counted](s []*confstore.KVStr, i int) :: i >= -1 && len(s) == regs(i+1)
  invariant[within](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), 0 <= regs(j) && regs(j) < len(s)))
  invariant[keys](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), s[regs(j)] != nil && s[regs(j)].Key == keys[j]))
  invariant[values](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j <= i && reg(keys[j]), s[regs(j)].Value == str(keys[j])))
  invariant[counted, counted](s []*confstore.KVStr, i int) :: i >= 0 && len(s) == regs(i)
  invariant[within, counted](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), 0 <= regs(j) && regs(j) < len(s)))
  invariant[keys, counted](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), s[regs(j)] != nil && s[regs(j)].Key == keys[j]))
  invariant[values, counted](s []*confstore.KVStr, i int) :: forall(j, int, implies(0 <= j && j < i && reg(keys[j]), s[regs(j)].Value == str(keys[j])))
  ensures[as many as registered] len(r) == regs(len(keys))
  ensures[in order, each with its own value] forall(j, int, implies(0 <= j && j < len(keys) && reg(keys[j]), r[regs(j)].Key == keys[j] && r[regs(j)].Value == str(keys[j])))
}
# the invariants hold whenever a lock is released
func confstore.(*defaultImpl).RegisterKey(key, defaultValue, vp)(err) { ensures[returns] true }
func confstore.(*defaultImpl).DeregisterKey(key) { ensures[returns] true }
func confstore.(*defaultImpl).ResetKey(key) { ensures[returns] true }
func confstore.(*defaultImpl).UpdateNoPersist(key, value)(err) { ensures[returns] true }
func confstore.NewStore(persister, policy)(s) {
  ensures[empty] typeis(s, *confstore.defaultImpl) && forall(k, string, !has(s.(*confstore.defaultImpl).kvProcessor, k) && !has(s.(*confstore.defaultImpl).kv, k) && !has(s.(*confstore.defaultImpl).kvDefault, k) && !has(s.(*confstore.defaultImpl).kvStr, k) && !has(s.(*confstore.defaultImpl).kvDefaultStr, k))
  ensures[connected] s.(*confstore.defaultImpl).persister == persister && s.(*confstore.defaultImpl).loadPolicy == policy
}
