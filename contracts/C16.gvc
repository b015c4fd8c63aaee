property C16
include sched.inc
also C15 NewFixed ).Start ).Stop

# The rules follow every goroutine that starting a task leads to, each from the point where it is
# launched ("gostart"). depth 0 is the caller of Start, depth 1 the scheduler goroutines, deeper ones
# run a job or ask for the next run.
#   owed    a run was requested and its job has not returned yet (fixed delay) / not been launched yet (fixed rate)
#   live    since the request, the task was seen not to be stopped
#   told    the stop signal was received while a run was going on
block RUN {
  ghost depth int
  ghost owed int
  ghost live bool
  ghost told bool
  ghost over bool
  ghost done int
  ghost hasdone bool
  ghost timedout bool
  ghost cancelled bool
  ghost calls int
  ghost inrun bool
  ghost laststatus int
  on acquired *.lock(o) { assume(self.status >= laststatus) }
  on section *.lock(o) {
    laststatus = post(self.status)
    if post(self.status) != schedule.stopped { live = true }
  }
  on default () { live = true }
  on extern context.WithTimeout(p, d)(c, cancel) {
    assert("the timeout is the configured one", d == self.timeout)
    done = donechan(c)
    hasdone = true
    assume(done != self.stopSig && done != self.jobQ)
    timedout = false
    cancelled = false
  }
  on extern context.cancel(c) {
    if inrun && calls == 0 { assert("a running job is cancelled only by timeout or stop", told || timedout) }
    if c == done { cancelled = true }
  }
  on call self.job(ch)(e) {
    assert("the job runs inside a run", inrun)
    assert("the job runs once", calls == 0)
    assert("its cancel channel fires at the timeout", hasdone && ch == done)
    calls = 1
  }
  on recv (c, v, ok, blocking) {
    if hasdone && c == done { timedout = true }
    if inrun && c == self.stopSig { told = true }
  }
  on block () {
    if inrun && calls == 0 {
      if told || timedout { assert("stop cancels the job at once", cancelled || timedout) }
      if !told && !timedout { assert("a run listens to the stop signal", waits(self.stopSig)) }
    }
    if over { assert("no waiting after the stop was seen", false) }
  }
}

func schedule.(*FixedDelayTask).Start()(err) {
  insert RUN
  option gobodies
  ghost want int
  ghost asked bool
  ghost sent int
  ghost waited bool
  ghost handed bool
  ghost tick int
  ghost ticks bool
  on extern time.NewTimer(d)(t) {
    assume(t.C != self.jobQ && t.C != self.stopSig && implies(hasdone, t.C != done))
    if depth >= 1 && asked && d == self.interval { ticks = true; tick = t.C }
  }
  on extern time.After(d)(t) {
    assume(t != self.jobQ && t != self.stopSig && implies(hasdone, t != done))
    if depth >= 1 && asked && d == self.interval { ticks = true; tick = t }
  }
  on recv (c, v, ok) { if ticks && c == tick { waited = true } }
  on gostart () {
    depth = depth + 1
    calls = 0
    sent = 0
    over = false
    handed = false
    if depth == 1 { inrun = false; owed = 0; want = 0 }
    if depth > 1 && asked { inrun = false; owed = 0 }
  }
  on recv self.jobQ(c, v, ok) {
    assert("only one scheduler goroutine takes requests", depth == 1)
    assert("jobs never overlap: the previous run is over", owed == 0)
    assert("the next run was asked for", want == 0)
    owed = 1
    live = false
    calls = 0
    told = false
    inrun = true
    hasdone = false
  }
  on call self.job(ch)(e) {
    assert("no job once the task is seen stopped", live)
    if depth == 1 {
      owed = 0
      want = 1
    }
  }
  on go (d) {
    if depth == 1 {
      asked = owed == 0
      if asked { assert("the next run is asked for once", want == 1); want = 0; inrun = false }
    }
    if evname == "time.AfterFunc" { assert("one interval later", asked && d == self.interval); waited = true; handed = true }
  }
  on extern time.Sleep(d) { if depth >= 1 && d == self.interval { waited = true } }
  on recv (c, v, ok) { if c == self.stopSig && !inrun { over = true } }
  on send (c) {
    assert("only a run is requested", c == self.jobQ)
    if depth >= 1 { assert("the next run is asked for one interval later", asked && waited && sent == 0); sent++ }
  }
  on goexit () {
    if depth == 1 { assert("a scheduler ends only after stop", over || owed == 1 && !live && calls == 0) }
    if depth > 1 && !asked { assert("a run ends after its job has returned", calls == 1) }
    if depth > 1 && asked { assert("the next run is asked for unless stopped", handed || sent == 1 || over) }
  }
}

func schedule.(*FixedRateTask).Start()(err) {
  insert RUN
  option gobodies
  on gostart () {
    depth = depth + 1
    calls = 0
    over = false
    if depth == 1 { inrun = false; owed = 0 }
    if depth == 2 { inrun = true; told = false; hasdone = false; timedout = false; cancelled = false }
  }
  on extern time.NewTicker(d)(t) { assume(t.C != self.jobQ && t.C != self.stopSig) }
  on recv self.jobQ(c, v, ok) {
    assert("only a scheduler goroutine takes requests", depth == 1)
    assert("each request taken launches a run", owed == 0)
    owed = 1
    live = false
  }
  on go () {
    if depth == 1 {
      assert("a run is launched once for a request", owed == 1)
      assert("no job once the task is seen stopped", live)
      owed = 0
    }
  }
  on call self.job(ch)(e) { assert("jobs run in runs of their own", depth >= 2) }
  on recv (c, v, ok) { if c == self.stopSig && !inrun { over = true } }
  on send (c) { assert("only a run is requested", c == self.jobQ && depth == 1) }
  on goexit () {
    if depth == 1 { assert("a scheduler ends only after stop", over || owed == 1 && !live) }
    if depth > 1 { assert("a run ends after its job has returned", calls == 1) }
  }
}
