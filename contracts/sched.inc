pkgs ./schedule
pure strings.TrimSpace
assume "only tasks made by the constructors are used (channels, lock and job present, timeout and interval positive)"
assume "log output functions return normally"

type schedule.FixedDelayTask {
  lock lock guards taskCommon.status, taskCommon.no, closedness
  inv[status] status == 0 || status == schedule.started || status == schedule.stopped
  inv[stop signal raised iff stopped] closed(stopSig) == (status == schedule.stopped)
  fact[made by constructor] lock != nil && stopSig != nil && jobQ != nil && stopSig != jobQ && job != nil && timeout > 0 && interval > 0
  neverclosed taskCommon.jobQ
}
type schedule.FixedRateTask {
  lock lock guards taskCommon.status, taskCommon.no, ticker, closedness
  inv[status] status == 0 || status == schedule.started || status == schedule.stopped
  inv[stop signal raised iff stopped] closed(stopSig) == (status == schedule.stopped)
  once ticker
  inv[ticker made on start] (status == 0) == (ticker == nil)
  fact[made by constructor] lock != nil && stopSig != nil && jobQ != nil && stopSig != jobQ && job != nil && timeout > 0 && interval > 0
  neverclosed taskCommon.jobQ
}
