# shared by every property: functions whose result depends on nothing but their arguments
pure time.Duration.String
assume "go/ssa gives the meaning of the Go source; goroutines that never terminate are not excluded unless a contract says so"
// external functions documented to return a usable (non-nil) value
nonnil (*github.com/go-redis/redis/v7.Client).WithContext *.EvalSha *.ScriptLoad
