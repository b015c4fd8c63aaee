property C17
pkgs ./schedule
pure schedule.Task.Name
assume "Name always returns the same name for a task; tasks do not call back into the manager"
assume "MustStart and Stop return normally (a task managed by the manager is not started or stopped by others)"

type schedule.taskManager {
  lock lock guards taskMap
  inv[managed tasks are kept under their own names] forall(k, string, implies(has(taskMap, k), taskMap[k] != nil && ext("schedule.Task.Name", taskMap[k]) == k))
  inv[map] taskMap != nil
  fact[made by constructor] lock != nil
}
block TM {
  ghost starts int
  ghost stops int
  ghost stopped arr[string]int
  ghost sections int
  ghost last any
  on invoke *Task.MustStart(t) { assert("under the lock", held(self.lock)); starts++; last = t }
  on invoke *Task.Start(t)(e) { assert("under the lock", held(self.lock)); starts++; last = t }
  on invoke *Task.Stop(t)(e) { assert("under the lock", held(self.lock)); stops++; last = t; stopped = update(stopped, ext("schedule.Task.Name", t), stopped[ext("schedule.Task.Name", t)] + 1) }
  on invoke *Task.MustStop(t) { assert("stopping never panics", false) }
  on go () { assert("nothing is launched", false) }
}

func schedule.(*taskManager).Register(task)(err) {
  requires task != nil
  insert TM
  let n = ext("schedule.Task.Name", task)
  ghost taken bool
  on section *.lock(o) {
    sections++
    taken = pre(has(self.taskMap, n))
    assert("other names are untouched", forall(k, string, implies(k != n, post(has(self.taskMap, k)) == pre(has(self.taskMap, k)) && implies(pre(has(self.taskMap, k)), post(self.taskMap[k]) == pre(self.taskMap[k])))))
    if taken { assert("the first one stays managed", post(has(self.taskMap, n)) && post(self.taskMap[n]) == pre(self.taskMap[n])) }
    if !taken { assert("the task becomes managed", post(has(self.taskMap, n)) && post(self.taskMap[n]) == task) }
    assert("started exactly when the name was free", starts == ite(taken, 0, 1) && implies(starts == 1, last == task))
  }
  ensures[one step] sections == 1 && stops == 0
  ensures[error iff the name is taken] iff(err != nil, taken)
}
func schedule.(*taskManager).Unregister(name) {
  insert TM
  ghost known bool
  ghost t0 any
  on section *.lock(o) {
    sections++
    known = pre(has(self.taskMap, name))
    if known { t0 = pre(self.taskMap[name]) }
    assert("other names are untouched", forall(k, string, implies(k != name, post(has(self.taskMap, k)) == pre(has(self.taskMap, k)) && implies(pre(has(self.taskMap, k)), post(self.taskMap[k]) == pre(self.taskMap[k])))))
    assert("the name is free", !post(has(self.taskMap, name)))
    assert("exactly that task is stopped", stops == ite(known, 1, 0) && implies(known, last == t0))
  }
  ensures[one step] sections == 1 && starts == 0
}
func schedule.(*taskManager).UnregisterAll() {
  insert TM
  ghost regs arr[string]bool
  on acquired *.lock(o) { regs = keyset(self.taskMap) }
  on section *.lock(o) {
    sections++
    assert("none is managed", forall(k, string, !post(has(self.taskMap, k))))
    assert("every managed task is stopped exactly once, no other", forall(k, string, stopped[k] == ite(pre(has(self.taskMap, k)), 1, 0)))
  }
  invariant[stopped so far] forall(k, string, stopped[k] == ite(regs[k] && visited(k), 1, 0))
  invariant[emptied so far] forall(k, string, has(self.taskMap, k) == (regs[k] && !visited(k)))
  invariant[still there] forall(k, string, has(self.taskMap, k) == regs[k])
  ensures[one step] sections == 1 && starts == 0
}
func schedule.NewTaskManager()(m) {
  ensures[empty] typeis(m, *schedule.taskManager) && m.(*schedule.taskManager).taskMap != nil && m.(*schedule.taskManager).lock != nil && forall(k, string, !has(m.(*schedule.taskManager).taskMap, k))
}
