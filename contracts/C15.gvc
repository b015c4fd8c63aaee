property C15
include sched.inc

block START {
  ghost st int
  ghost decided bool
  ghost spawned int
  ghost first string
  ghost requests int
  on section *.lock(o) {
    if !decided { st = pre(self.status); decided = true } else { assert("status changes once", pre(self.status) == post(self.status)) }
    assert("started only when new, otherwise unchanged", post(self.status) == ite(pre(self.status) == 0, schedule.started, pre(self.status)) || post(self.status) == pre(self.status))
    if pre(self.status) == 0 { assert("a new task is started", post(self.status) == schedule.started) }
  }
  on go () {
    assert("only a new task is launched", self.status == schedule.started)
    assert("no scheduler is launched twice", spawned == 0 || evname != first)
    if spawned == 0 { first = evname }
    spawned++
  }
  on close (c) { assert("starting raises no signal", false) }
  on send (c) { assert("only one run is requested", c == self.jobQ && requests == 0); requests++ }
}
block STOP {
  ghost st int
  ghost decided bool
  ghost closes int
  on section *.lock(o) {
    if !decided { st = pre(self.status); decided = true } else { assert("status changes once", pre(self.status) == post(self.status)) }
    if pre(self.status) == schedule.started { assert("a started task is stopped", post(self.status) == schedule.stopped) }
    if pre(self.status) != schedule.started { assert("any other task is unchanged", post(self.status) == pre(self.status)) }
  }
  on close (c) {
    assert("only the stop signal of a started task, under the lock", c == self.stopSig && held(self.lock) && closes == 0)
    closes++
  }
  on go () { assert("stopping launches nothing", false) }
  on send (c) { assert("stopping never blocks on the job", false) }
  on recv (c) { assert("stopping never blocks on the job", false) }
}

func schedule.(*FixedDelayTask).Start()(err) {
  insert START
  ensures[error iff not new] decided && iff(err != nil, st != 0)
  ensures[launched exactly when started] iff(st == 0, spawned >= 1)
  ensures[an error requests no run] implies(st != 0, requests == 0)
}
func schedule.(*FixedRateTask).Start()(err) {
  insert START
  on extern time.NewTicker(d)(t) { assert("ticks at the interval", d == self.interval) }
  ensures[error iff not new] decided && iff(err != nil, st != 0)
  ensures[launched exactly when started] iff(st == 0, spawned >= 1)
  ensures[an error requests no run] implies(st != 0, requests == 0)
}
func schedule.(*FixedDelayTask).MustStart() {
  insert START
  panics[panics only when not new] decided && st != 0 && spawned == 0
  mustpanic[must panic when not new] st != 0
  ensures[launched] decided && st == 0 && spawned >= 1
}
func schedule.(*FixedRateTask).MustStart() {
  insert START
  panics[panics only when not new] decided && st != 0 && spawned == 0
  mustpanic[must panic when not new] st != 0
  ensures[launched] decided && st == 0 && spawned >= 1
}
func schedule.(*FixedDelayTask).Stop()(err) {
  insert STOP
  ensures[error iff not started] decided && iff(err != nil, st != schedule.started)
  ensures[one stop signal] closes == ite(st == schedule.started, 1, 0)
}
func schedule.(*FixedRateTask).Stop()(err) {
  insert STOP
  ensures[error iff not started] decided && iff(err != nil, st != schedule.started)
  ensures[one stop signal] closes == ite(st == schedule.started, 1, 0)
}
func schedule.(*FixedDelayTask).MustStop() {
  insert STOP
  panics[panics only when not started] decided && st != schedule.started && closes == 0
  mustpanic[must panic when not started] st != schedule.started
  ensures[signalled] decided && st == schedule.started && closes == 1
}
func schedule.(*FixedRateTask).MustStop() {
  insert STOP
  panics[panics only when not started] decided && st != schedule.started && closes == 0
  mustpanic[must panic when not started] st != schedule.started
  ensures[signalled] decided && st == schedule.started && closes == 1
}
func schedule.NewFixedDelayTask(name, job, interval, timeout)(t) {
  let bad = ext("strings.TrimSpace", name) == "" || timeout <= 0 || interval <= 0 || job == nil
  panics[only bad arguments are refused] bad
  mustpanic[bad arguments are refused] bad
  ensures[a new task with the given values] typeis(t, *schedule.FixedDelayTask) && t.(*schedule.FixedDelayTask).name == name && t.(*schedule.FixedDelayTask).job == job && t.(*schedule.FixedDelayTask).interval == interval && t.(*schedule.FixedDelayTask).timeout == timeout && t.(*schedule.FixedDelayTask).status == 0
  ensures[usable] t.(*schedule.FixedDelayTask).stopSig != nil && !closed(t.(*schedule.FixedDelayTask).stopSig) && t.(*schedule.FixedDelayTask).jobQ != nil && t.(*schedule.FixedDelayTask).lock != nil && cap(t.(*schedule.FixedDelayTask).jobQ) == 0 && t.(*schedule.FixedDelayTask).jobQ != t.(*schedule.FixedDelayTask).stopSig
}
func schedule.NewFixedRateTask(name, job, interval, timeout)(t) {
  let bad = ext("strings.TrimSpace", name) == "" || timeout <= 0 || interval <= 0 || job == nil
  panics[only bad arguments are refused] bad
  mustpanic[bad arguments are refused] bad
  ensures[a new task with the given values] typeis(t, *schedule.FixedRateTask) && t.(*schedule.FixedRateTask).name == name && t.(*schedule.FixedRateTask).job == job && t.(*schedule.FixedRateTask).interval == interval && t.(*schedule.FixedRateTask).timeout == timeout && t.(*schedule.FixedRateTask).status == 0
  ensures[usable] t.(*schedule.FixedRateTask).stopSig != nil && !closed(t.(*schedule.FixedRateTask).stopSig) && t.(*schedule.FixedRateTask).jobQ != nil && t.(*schedule.FixedRateTask).lock != nil && cap(t.(*schedule.FixedRateTask).jobQ) == 0 && t.(*schedule.FixedRateTask).jobQ != t.(*schedule.FixedRateTask).stopSig
}
func schedule.(*taskCommon).Name()(s) { ensures[its name] s == self.name }
