#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One call per property keeps the wording reviewable.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Circuit breaker gates every task and reports its outcome exactly once",
  "For every threshold, reset timeout, failure history and clock reading, a breaker call runs the task exactly once unless the consecutive-failure count has reached the threshold and no more than the reset timeout has passed since the last failure; in that case it runs the task zero times and calls the open handler exactly once. The error handler is called exactly once, with the task's own error, if and only if the task ran and failed, and the open handler is never called when the task ran. The never-open breaker always runs the task, with the same error reporting.",
  ["inputs","histories","schedules"],"all thresholds, timeouts, failure counts, timestamps, task outcomes, and interleavings with other callers",
  "Tests sample four call sequences and seven hand-picked field combinations; the decision depends on the boundary between four unbounded integers and on concurrent updates.",
  ["circuitbreaker/circuitbreaker.go"],[("state decision under read lock","SyncCircuitBreaker.state"),("dispatch on state","SyncCircuitBreaker.Do")],
  [("failures","consecutive failed executions","SyncCircuitBreaker.failures"),("lastFailureTs","time of last failure","SyncCircuitBreaker.lastFailureTs")],["Do"])
p("C02","Circuit breaker failure accounting loses and invents nothing",
  "Every execution that fails raises the consecutive-failure count by exactly one and records the current time as the time of the last failure, every execution that succeeds resets the count to zero, and a rejected call changes neither. Each such update is atomic: with any number of concurrent callers no failure is lost, no state is read or written outside the breaker's mutual exclusion, and no call returns or runs user code while holding it.",
  ["schedules","histories"],"all interleavings of concurrent Do calls and all outcome histories",
  "The tests are single-goroutine; a lost update or an unlocked access needs a particular interleaving.",
  ["circuitbreaker/circuitbreaker.go"],[("write-locked update","SyncCircuitBreaker.recordFailure"),("write-locked reset","SyncCircuitBreaker.reset")],
  [("failures","consecutive failed executions","SyncCircuitBreaker.failures")])
p("C03","Semaphores never hand out more permits than they have",
  "For a semaphore created with n permits (n at least 1), under every interleaving of acquire, try-acquire and release, at most n permits are outstanding; a permit is granted only when one is free; a non-blocking acquire succeeds exactly when a permit is free at that moment and otherwise changes nothing and does not block; and a release returns exactly one outstanding permit, or changes nothing when none is outstanding, so over-releasing never raises the capacity. This holds for the channel-based and the lock-based implementation alike.",
  ["schedules","inputs","histories"],"all permit counts, operation histories and interleavings",
  "Tests use 10 permits and single-goroutine sequences.",
  ["concurrent/sema.go"],[("bounded channel","ChanSemaphore"),("count under mutex, re-checked after waiting","LockSemaphore.Acquire")],
  [("permits in use","number of outstanding permits","len(ChanSemaphore.permits), LockSemaphore.count")])
p("C04","A release always wakes waiting acquirers and no semaphore call leaks its lock",
  "Whenever a release frees a permit of the lock-based semaphore, waiting acquirers are signalled before the release returns, so no acquirer stays asleep while a permit is free (no lost wake-up). Acquirers sleep only while no permit is free and re-check after waking. Every semaphore operation returns with no internal lock held.",
  ["schedules"],"all interleavings of waiters and releasers, including several waiters",
  "Lost wake-ups need a waiter to be asleep at a particular moment; the tests never have two waiters and one release.",
  ["concurrent/sema.go"],[("condition wait in a loop","LockSemaphore.Acquire"),("broadcast after decrement","LockSemaphore.Release")])
p("C05","Fixed window admits at most capacity requests per window",
  "Time is divided into consecutive windows of the configured (positive) size; after any acquire call at time t the current window covers t (or an earlier started window still covers it), windows only ever advance by whole multiples of the window size, and no further than needed to cover t. Within one window exactly the first `capacity` requests are admitted and every other one is refused, the count starting from zero only when a new window starts. This holds for every window size, capacity and nanosecond timestamp (timestamp plus window size representable in an int64), and under concurrent callers.",
  ["inputs","schedules","histories"],"all int64 timestamps and window sizes (no int64 overflow of window end), capacities, call histories and interleavings",
  "Tests use tiny integers or a 50 ms window; rounding at real nanosecond timestamps (above 2^53) and races are never reached.",
  ["ratelimiter/fixedwindow.go"],[("window advance","SyncFixedWindow.reset"),("count under mutex","SyncFixedWindow.Acquire")],
  [("until","end of the current window","SyncFixedWindow.until"),("count","admitted in the current window","SyncFixedWindow.count")])
p("C06","Sliding window admits at most capacity requests in any window",
  "With a positive capacity and an unchanged configuration, an admitted request's timestamp exceeds that of the request admitted `capacity` admissions earlier by strictly more than the window size, so any capacity+1 consecutive admissions span more than the window; a request is refused only when `capacity` admissions are remembered and the earliest of them is not older than the window. A refused request changes nothing, an admitted one is remembered with its own timestamp as the newest, and capacity zero means unlimited. This holds for all (non-negative) timestamps and under concurrent callers.",
  ["inputs","histories","schedules"],"all admission histories, clocks (even non-monotonic), capacities, windows and interleavings",
  "Tests use one capacity and window and wall-clock sleeps; off-by-one at the window boundary or evicting the wrong record needs exact timestamps.",
  ["ratelimiter/slidingwindow.go"],[("ring of admission timestamps","SyncSlidingWindow.Acquire")],
  [("records","timestamps of the most recent admissions, oldest first","SyncSlidingWindow.records")])
p("C07","Reconfiguring a sliding window keeps the newest admissions and is atomic",
  "Updating capacity and window size takes effect atomically for both values; the newest min(remembered, new capacity) admissions stay remembered in order and older ones are forgotten; a negative capacity, at construction or update, is treated as zero. Reading capacity or window size returns the last configured value.",
  ["inputs","histories","schedules"],"all sequences of remembered admissions, old and new configurations, and interleavings with acquire",
  "Tests shrink once by one record and never look at which records survive.",
  ["ratelimiter/slidingwindow.go"],[("trim from the oldest end","SyncSlidingWindow.UpdateConfig")],
  [("records","timestamps of the most recent admissions","SyncSlidingWindow.records")])
p("C08","Mutex token bucket never over-issues",
  "With a non-decreasing clock, a rate between 0 and 2^29 and a capacity between 0 and 2^60, at every moment the bucket holds between zero and `capacity` tokens, and the number of requests admitted since creation never exceeds capacity plus rate times the whole seconds elapsed since creation. An acquire succeeds exactly when, after crediting rate times the whole seconds since the last credit (capped at capacity, only when the bucket is not full), a token is available, and then consumes exactly one; a refused one consumes none, and a second's worth of tokens is never credited twice.",
  ["inputs","histories","schedules"],"all capacities, rates, clock readings and call histories (no int64 overflow of rate*seconds), all interleavings",
  "Tests use rate 1 and 10 with real sleeps and one goroutine.",
  ["ratelimiter/tokenbucket.go"],[("credit by whole seconds","SyncTokenBucket.issueIfNecessary"),("take under mutex","SyncTokenBucket.Acquire")],
  [("tokens","available tokens","SyncTokenBucket.tokens"),("lastIssueTimestamp","time up to which tokens were credited","SyncTokenBucket.lastIssueTimestamp")])
p("C09","Lock-free token bucket never over-issues under any interleaving",
  "With a non-decreasing clock, a rate between 0 and 2^29, a capacity between 0 and 2^60 and any number of goroutines, at every moment the lock-free bucket holds between zero and `capacity` tokens, each elapsed interval is credited at most once, and the number of requests admitted since creation never exceeds capacity plus rate times the whole seconds elapsed since creation. Every admitted request consumes exactly one token and a refused one consumes none; state shared between goroutines is only accessed atomically.",
  ["schedules","histories","inputs"],"all interleavings of the individual atomic operations of any number of callers",
  "Single-goroutine tests cannot reach the interleavings of two compare-and-swap operations.",
  ["ratelimiter/tokenbucket.go"],[("compare-and-swap on time and tokens","AtomicTokenBucket.issueIfNecessary"),("compare-and-swap decrement","AtomicTokenBucket.Acquire")],
  [("tokens","available tokens","AtomicTokenBucket.tokens"),("lastIssueTimestamp","time up to which tokens were credited","AtomicTokenBucket.lastIssueTimestamp")])
p("C10","TTL limiter uses one block key per limiter, and fails open",
  "Asking whether something is blocked consults exactly the redis key that the blocking operation writes for the same block key, in plain and in cluster (hash-tag) mode, and the block key of a single-key request never collides with its request-record key. A non-positive capacity, window or timeout passes every request without contacting redis, and any redis error yields a not-blocked result. Otherwise the script receives capacity, window, timeout, the current time in seconds and the message, and its four answers are reported unchanged.",
  ["inputs","configurations","fault_sequences"],"all keys, block keys, hash tags, parameters, redis replies and redis failures",
  "These tests need a live redis and are skipped; cluster mode is not tested at all.",
  ["ratelimiter/ttl_ratelimiter_redis.go","ratelimiter/ttl_ratelimiter.go"],[("key construction","redisTtlRateLimiter.ShouldBlock2Context, IsBlockedContext"),("parameter guard","isParamsNotSet")])
p("C11","The redis script blocks exactly when the rate limit is exceeded",
  "For every redis state and positive parameters the limiter script refuses a request exactly when the block key exists or when `capacity` requests are recorded and the oldest of the newest `capacity` is not older than the window; only in the second case it creates the block key, with the timeout as expiry, and reports it as newly triggered. A passed request is recorded as newest, at most `capacity` records are kept once the list is full, a refused request records nothing, and records never expire while they can still count inside the window. With a non-positive parameter it passes and touches nothing, and the query script only reads the block key and reports it.",
  ["inputs","histories"],"all list contents, key states, parameters and times",
  "Needs a live redis; the tests are skipped in every ordinary run.",
  ["ratelimiter/ttl_ratelimiter_redis.go"],[("decision script","script1"),("query script","script2")])
p("C12","Every event is offered to every registered receiver exactly once",
  "Each event taken from the bus is offered to every receiver registered at that moment exactly once and unchanged, whatever the number of receivers; an event offered to a receiver of the Block strategy is delivered (never dropped), and one offered to a receiver of the Drop strategy is delivered if it can be accepted at once and otherwise dropped without blocking the bus. Dispatching ends only when the bus is closed, and it keeps registration and closing mutually excluded while it hands out an event.",
  ["schedules","histories","inputs"],"all receiver sets, strategies, buffer sizes and interleavings of dispatch with registration and closing",
  "Tests use two receivers and one event at a time.",
  ["event/bus.go"],[("dispatch loop under read lock","FanOutBus.doDispatch"),("delivery by strategy","Receiver.onEvent")],
  [("recvMap","registered receivers by name","FanOutBus.recvMap")])
p("C13","Closing buses and receivers closes each channel exactly once and only their own",
  "A new receiver is registered under its name with the requested buffer size and strategy and an open channel. Closing a registered receiver closes its channel and deregisters it and nothing else; closing a receiver that is no longer registered (already closed, replaced by another of the same name, or its bus closed) affects no other receiver and does not panic. Closing the bus (once) closes its input and the channel of every registered receiver and leaves none registered, no channel is ever closed twice or sent to after closing, and no operation leaves the bus locked.",
  ["histories","schedules"],"all histories of register, close and bus close, and their interleavings with dispatch",
  "Tests close each object once and never twice, never after the bus, and never with a duplicated name.",
  ["event/bus.go"],[("deregistration under write lock","FanOutBus.deregisterRecv"),("bulk close under write lock","FanOutBus.Close")],
  [("recvMap","registered receivers by name","FanOutBus.recvMap")])
p("C14","Draining and collecting return exactly the received events, in order",
  "Draining a receiver returns, in arrival order, exactly the events received from its channel during the call and stops without blocking when the channel is empty or closed. Collecting with a timeout returns, in arrival order, exactly the events received until the timeout or until the channel is closed; neither ever returns an element that was not sent, and neither loses an event it received.",
  ["inputs","histories"],"all channel contents, arrival patterns and closings",
  "Tests receive two events once; a closed channel during collection is never exercised.",
  ["event/bus.go"],[("receive loop with closed check","Receiver.Drain, Receiver.CollectTimeout")])
p("C15","A task starts once, stops once, and signals stop exactly once",
  "A task can be started only when new and stopped only when started: starting a started or stopped task, and stopping a new or stopped task, return an error (or panic in the must-variants) and change nothing; a successful start launches the scheduling once and a successful stop raises the stop signal exactly once and never blocks on the job. Constructors refuse a blank name, a non-positive interval or timeout and a missing job by panicking, and otherwise return a new task carrying exactly the given values. All status changes happen under the task's lock, which is never left held.",
  ["histories","schedules","inputs"],"all sequences and interleavings of lifecycle calls, all constructor arguments",
  "Tests try a few sequences on one goroutine; double close of the stop signal needs concurrent stops.",
  ["schedule/task.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],[("status machine","taskCommon.markStart, markStopSendSignal"),("lock","FixedDelayTask.Start/Stop, FixedRateTask.Start/Stop")],
  [("status","new, started, stopped","taskCommon.status")])
p("C16","Fixed-delay jobs never overlap; every job can be cancelled by timeout or stop",
  "A fixed-delay task never runs two jobs at the same time: each run waits until its job function has returned, and the next run is requested only after that, one interval later. Every job run of either task kind calls the job exactly once with a cancel channel that fires after the configured timeout and, when the task is stopped during the run, is fired at once; a run ends only after its job has returned. Once a scheduler has seen the task stopped it starts no further job, and scheduler goroutines end after stop.",
  ["schedules","histories"],"all interleavings of scheduler, job, timer and stop, and all job behaviours",
  "Tests run a handful of jobs with sleeps; overlap or a missed cancellation needs specific timing.",
  ["schedule/task.go","schedule/fixed_delay_task.go","schedule/fixed_rate_task.go"],[("run and wait","taskCommon.runJob"),("consumer loop","FixedDelayTask.startConsuming, FixedRateTask.startConsuming"),("stop-aware enqueue","taskCommon.appendJobQueue")])
p("C17","Task manager keeps one running task per name",
  "Registering a task whose name is free starts it exactly once and makes it managed; registering a second task under a managed name returns an error, does not start it and leaves the first one managed. Unregistering a name stops exactly that task and frees the name, doing nothing for an unknown name; unregistering all stops every managed task exactly once and leaves none managed. No operation affects tasks under other names, and the manager's state is only touched under its lock, which is never left held.",
  ["histories","schedules","inputs"],"all sets of managed tasks, names and interleavings",
  "Tests use one or two tasks; they do not look at the others left in the manager.",
  ["schedule/task_manager.go"],[("map under mutex","taskManager.Register, Unregister, UnregisterAll")],
  [("taskMap","managed tasks by name","taskManager.taskMap")])
p("C18","Config reads return the last accepted value, typed by its validator",
  "Reading a registered key returns the last value accepted for it since registration or reset, or else its registered default, and reading an unregistered key reports a miss (or panics in the must-variants); typed and string reads agree, the typed value being the key's own validator's conversion of the string, which that validator accepted. Batch reads return exactly the registered keys among those asked for, in the order asked, each with its own value. This holds under concurrent registration, update and deregistration: no value of a deregistered key ever becomes readable.",
  ["histories","schedules","inputs"],"all histories and interleavings of register, deregister, update, reset and read, for any validators",
  "Tests use two keys and a fixed sequence on one goroutine; the update/deregister race needs a particular interleaving.",
  ["confstore/store.go"],[("paired maps under lock","defaultImpl.UpdateNoPersist, GetValue, GetValueString")],
  [("kv,kvStr","current typed and string values","defaultImpl"),("kvDefault,kvDefaultStr","defaults","defaultImpl"),("kvProcessor","validators by key","defaultImpl")])
p("C19","Exactly the accepted config updates are applied and persisted",
  "An update is accepted if and only if its key is registered and the key's validator accepts the value; an accepted update becomes the key's current value and is handed to the persistence layer, once, with the same key and value, while a rejected one returns an error naming that key and value and changes neither memory nor persistence. A batch update does the same for every entry independently, in order, returning exactly the errors of the rejected entries and persisting exactly the accepted entries; the no-persist variant never persists. An empty key is ignored without error, effect or persistence.",
  ["inputs","histories","fault_sequences"],"all batches, duplicate keys, mixes of valid, invalid and unregistered entries, and persistence failures",
  "The tests use a persister that does nothing, so what is persisted is never observed.",
  ["confstore/store.go"],[("validate, apply, persist","defaultImpl.Update, UpdateNoPersist, BatchUpdate")])
p("C20","Register, deregister and reset affect exactly one key",
  "Registering succeeds exactly when the key is non-empty and unregistered, a validator is given and it accepts the default value, and then sets the default and no current value; otherwise it returns an error and changes nothing. Deregistering removes the key's validator, default and current value from memory and asks the persistence layer to delete that key; resetting removes only its current value, likewise deleted from persistence, so the default is visible again. No operation changes any other key.",
  ["inputs","histories","schedules"],"all keys, validators, store contents and interleavings",
  "Tests never check that other keys are untouched or that persistence is cleaned.",
  ["confstore/store.go"],[("paired deletes under both locks","defaultImpl.RegisterKey, DeregisterKey, ResetKey")])
p("C21","The load policy reloads neither too often nor too rarely",
  "With a positive minimum interval the default policy loads from the persistence layer exactly when at least that interval has passed since the last successful load finished, and with a non-positive interval on every call; each call loads at most once and returns the load's own error. A failed load is not remembered as a load, so the next call tries again, and concurrent calls never load at the same time. The no-op policy never loads and the simple policy loads exactly once per call.",
  ["schedules","histories","fault_sequences"],"all clock readings, intervals, load failures and concurrent callers",
  "The test uses one interval, a persister that never fails and one goroutine.",
  ["confstore/loader.go"],[("timestamp under mutex","defaultLoadPolicy.DoLoad")],
  [("lastLoadTs","end of the last successful load","defaultLoadPolicy.lastLoadTs")])
p("C22","The redis persister stores and loads exactly the given pairs",
  "Saving one or many pairs writes exactly those key/value pairs, each key with its own value and in order, in one write to the configured root hash, and writes nothing for an empty batch; deleting removes exactly that key from the same hash. Loading passes every pair of that hash exactly once to the store without persisting it again, continues past pairs the store rejects, and passes none when redis fails. Redis errors are returned to the caller.",
  ["inputs","fault_sequences"],"all batches of pairs, hash contents and redis failures",
  "These tests need a live redis and are skipped.",
  ["confstore/persister.go"],[("flattened argument list","redisPersister.BatchSave"),("replay into the store","redisPersister.Load")])
p("C23","Value processors accept exactly their domain and convert what they accept",
  "For every input string: the string, bool, int, enum and colour validators accept exactly their documented domain (length within bounds; true/false; integer within the configured inclusive or exclusive bounds; listed values; empty or exactly '#' and six hex digits), and the duration, URL and RSA-key validators accept exactly what the corresponding parser accepts (the empty string too for URLs and keys). An accepted value always converts, without panicking, to a value of the processor's type equal to what was parsed, every rejection carries a message, and no input makes validation panic.",
  ["inputs","configurations"],"all strings, bounds and enum sets",
  "Tests are tables of a few strings; the set of strings is infinite.",
  ["confstore/procs.go","util/rsa/util.go"],[("validate/convert pairs","*Processor.Validate, *Processor.Convert")])
p("C24","Flag and environment names follow the naming convention for every path",
  "For every field path, the flag name is the path with each dot turned into a dash, each upper-case ASCII letter lower-cased and, unless it is first or follows a dot, preceded by a dash, and all other bytes unchanged; the environment name is the same with underscores and upper case. Conversion never panics and handles every byte string.",
  ["inputs"],"all byte strings",
  "Tests are a table of about ten names.",
  ["conf/string.go"],[("byte-wise translation","flagStyle, envStyle")])
p("C25","Every exported supported field is visited and bound exactly once",
  "For every (non-recursive) configuration struct type whose exported fields have distinct paths, each exported field of a supported kind, directly or through nested or embedded structs and non-nil pointers, is visited exactly once, in declaration order, under its dotted path in which embedded fields add no segment; unexported, unsupported and nil-pointer fields are skipped. Each visited field is bound, as flag and as environment variable, under its own conventional name, to its own storage, with the parser of its own type and its present value as default. Initialisation allocates exactly the nil exported pointers and keeps all other values.",
  ["inputs","programs"],"all struct shapes (nesting, embedding, pointers, kinds) and field values",
  "Tests use three struct types; struct shapes are unbounded.",
  ["conf/reflect.go","conf/env.go","conf/flag.go"],[("recursive visitor","visitExportedFieldsPath"),("binding per kind","envResolver.init, flagResolver.init"),("pointer allocation","initPtrValue")])
p("C26","Flags override environment, environment overrides YAML",
  "Loading configuration applies the sources in the order YAML file (only when a file is given), environment, flags, so a flag wins over an environment variable and that over the file, and a source that does not mention a field leaves it alone. An environment variable is applied exactly when it is set (even when empty), each under its own name; the first source that fails ends loading with exit status 2 after printing the error, and no later source is applied.",
  ["configurations","inputs","fault_sequences"],"all combinations of sources and values, and failures of each source",
  "Two combinations are tested.",
  ["conf/conf.go","conf/env.go","conf/flag.go","conf/yaml.go"],[("ordered resolvers","Load"),("lookup and set","envResolver.Resolve")])
p("C27","Printing a configuration never reveals credentials and reports the other fields",
  "The printed form of the MySQL, Oracle, PostgreSQL, Redis, Elasticsearch and pprof configurations does not depend on the password, nor (except for redis, which has none) on the username: two configurations that differ only in these print identically. Every printed field shows the value of the field it is labelled with, including the connection-pool limits.",
  ["inputs"],"all field values",
  "No test prints a configuration.",
  ["confs/mysql.go","confs/oracle.go","confs/postgresql.go","confs/redis.go","confs/es.go","confs/pprof.go","confs/fasthttpclient.go","skywalking/conf.go"],[("redacted format","*Conf.String")])
p("C28","Every configured client setting reaches the client it configures",
  "For every configuration, the MySQL, Oracle, PostgreSQL, Redis, Elasticsearch and fasthttp clients are created with each configured value in the option it is documented for: address, credentials, database, timeouts, pool limits, connection parameters (each well-formed name=value pair unescaped, malformed ones skipped, PostgreSQL settings trimmed of surrounding blanks), and TLS client certificate and trust mode, so that a custom trust store or insecure mode takes effect exactly when configured. The optional customizer is called exactly once, on the options actually used.",
  ["configurations","inputs"],"all configurations and parameter strings",
  "Connection tests are skipped without servers; the pure ones check one configuration each.",
  ["confs/mysql.go","confs/oracle.go","confs/postgresql.go","confs/redis.go","confs/es.go","confs/fasthttpclient.go"],[("option assembly","prepareMySqlNativeConfig, prepareUrlOptions, preparePgUrlOptions, buildPgDsn, prepareRedisNativeConfig, NewEsClient, NewFastHttpClient")])
p("C29","Profiling endpoints are reachable only with the configured credentials",
  "The fasthttp profiling handler serves a profile only when both username and password are configured and the request carries exactly those as basic-auth credentials (the Basic prefix may be absent, and a username contains no colon), and serves it whenever it does, even if the password contains a colon; every other request gets no profile, and with configured credentials it gets status 401 with a challenge. The gin filter refuses every request with 404 and cuts the handler chain when either credential is unset, and otherwise requires exactly the configured account.",
  ["inputs","configurations"],"all Authorization headers and configured credentials",
  "There are no tests for it.",
  ["confs/pprof.go"],[("credential check","NewFasthttpRoutingPprofHandler"),("filter","NewGinPprofBasicAuthFilter")])
p("C30","Redis tracing never panics and ends the span it opened",
  "For every command, pipeline, option and tracer state, the redis hook never panics; when no span can be created it passes that error on and tags nothing, and otherwise it returns the span's context and labels the span with operation, statement (arguments only when asked for), instance, type, component and layer. After the command it ends the active span exactly once, reports an error on it exactly when the command, or any command of the pipeline, failed (with the error text only when asked for), and never changes the command's own result.",
  ["inputs","configurations","fault_sequences"],"all commands, pipelines, options, tracer failures and command errors",
  "There are no tests for it.",
  ["skywalking/redis/hook.go"],[("before/after hooks","tracerHook.BeforeProcess, AfterProcess, BeforeProcessPipeline, AfterProcessPipeline")])
p("C31","HTTP tracing is transparent and closes every span it opens",
  "The server middleware calls the rest of the handler chain exactly once for every request and returns its error unchanged, with or without a tracer and even when no span can be created, provided the chain returns normally; the client helper creates a span only with a tracer and never panics on a nil span. Every span opened is labelled and ended exactly once after the work is done, carries the response status, and is marked failed exactly when the handler or call failed or the status is 400 or above, with error text or body only when asked for.",
  ["inputs","configurations","fault_sequences"],"all handler outcomes, statuses, options and tracer failures",
  "There are no tests for it.",
  ["skywalking/fasthttp-routing/middleware.go","skywalking/fasthttp/client_span.go"],[("middleware","NewMiddleware"),("client helper","ClientSpanHelper.CreateSpan, EndSpan, EndSpanError")])
p("C32","Key and certificate parsing fails cleanly and only accepts the right kind",
  "For every input, reading an RSA private key, RSA public key or X.509 certificate returns either a non-nil object of that kind or an error, and never panics: it succeeds only if the text (wrapped as a PEM block of the expected type when it has no PEM markers) contains a PEM block of exactly the expected type whose contents the standard parser accepts and which is an RSA key where one is asked for. The must-variants return the same object and panic exactly when the plain ones return an error.",
  ["inputs"],"all byte strings, including well-formed PEM of other key kinds",
  "Tests use one valid key and a certificate.",
  ["util/rsa/util.go"],[("block type and key kind checks","ReadPrivateKeyBytes, ReadPublicKeyBytes, ReadX509CertificateBytes"),("wrapping","normalizePem")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
