TR = 'ratelimiter/ttl_ratelimiter_redis.go'
parse = """	arr := raw.([]interface{})
	result.Block = arr[0].(int64) == 1
	result.Triggered = arr[1].(int64) == 1
	result.Ttl = int(arr[2].(int64))
	result.Msg = arr[3].(string)
	return result

}
"""
r('ttl-parse', 'C10 C11', (TR, parse, "	return result.fill(raw)\n}\n"), (TR, parse, "	return result.fill(raw)\n}\n"),
  (TR, "func LoadScript(", """func (o *Result) fill(raw interface{}) *Result {
	reply := raw.([]interface{})
	blocked, fresh := reply[0].(int64), reply[1].(int64)
	o.Block, o.Triggered = blocked == 1, fresh == 1
	o.Ttl = int(reply[2].(int64))
	o.Msg = reply[3].(string)
	return o
}

func LoadScript("""))
r('ttl-keys', 'C10', (TR, """	key = prefix + key
	blockKey = blockKey + suffix

	if r.hashTag != "" {
		key = key + r.hashTag
		blockKey = blockKey + r.hashTag
	}
""", """	key, blockKey = r.recordKey(key), r.blockKey(blockKey)
"""), (TR, """	blockKey = blockKey + suffix

	if r.hashTag != "" {
		blockKey = blockKey + r.hashTag
	}
""", """	blockKey = r.blockKey(blockKey)
"""), (TR, "func LoadScript(", """func (r *redisTtlRateLimiter) recordKey(key string) string {
	return strings.Join([]string{prefix, key, r.hashTag}, "")
}

func (r *redisTtlRateLimiter) blockKey(key string) string {
	return key + suffix + r.hashTag
}

func LoadScript("""))
r('ttl-now', 'C10', (TR, "	now := time.Now().UnixNano() / int64(time.Second)\n", "	now := time.Now().Unix()\n"))
r('ttl-order', 'C10', (TR, """	result := &Result{}

	if isParamsNotSet(r.params) {
		return result
	}
""", """	if isParamsNotSet(r.params) {
		return &Result{}
	}
	result := new(Result)
"""))
r('ttl-ctx', 'C10', (TR, "	return r.ShouldBlock2(key, key, msg)\n", "	return r.ShouldBlockContext(context.Background(), key, msg)\n"))
r('ttl-load', 'C10 C11', (TR, """	loadScript(redisClient, script1, func(scriptSha string) {
		scriptSha1 = scriptSha
	})
	loadScript(redisClient, script2, func(scriptSha string) {
		scriptSha2 = scriptSha
	})
""", """	scriptSha1 = loadScript(redisClient, script1)
	scriptSha2 = loadScript(redisClient, script2)
"""), (TR, """func loadScript(redisClient *redis.Client, script string, callback func(scriptSha string)) {
	sha, err := redisClient.ScriptLoad(script).Result()
	if err != nil {
		panic(err)
	}
	callback(sha)
}""", """func loadScript(redisClient *redis.Client, script string) string {
	sha, err := redisClient.ScriptLoad(script).Result()
	if err != nil {
		panic(err)
	}
	return sha
}"""))
r('lua-guard', 'C11 C10', (TR, """if size < cap
then
  redis.call('RPUSH', key, now)
  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
  return {0, 0, 0, ''}
end

local diff""", """if cap > size
then
  redis.call('RPUSH', key, now)
  redis.call('EXPIRE', key, math.max(win + 1, exp * 2))
  return {0, 0, 0, ''}
end

local diff"""))
r('lua-while', 'C11', (TR, """if diff > 0
then
  for i = diff, 1, -1
  do
    redis.call('LPOP', key)
  end
end
""", """for i = 1, diff
do
  redis.call('LPOP', key)
end
"""))
r('lua-fn', 'C11', (TR, """local size = redis.call('LLEN', key)
if size < cap""", """local function record()
  redis.call('RPUSH', key, now)
  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
end

local size = redis.call('LLEN', key)
if size < cap"""), (TR, """then
  redis.call('RPUSH', key, now)
  redis.call('EXPIRE', key, math.max(exp * 2, win + 1))
  return {0, 0, 0, ''}
end

local diff""", """then
  record()
  return {0, 0, 0, ''}
end

local diff"""))
r('lua-order', 'C11', (TR, """  redis.call('RPUSH', key, now)
  redis.call('LPOP', key)
  redis.call('EXPIRE'""", """  redis.call('LPOP', key)
  redis.call('RPUSH', key, now)
  redis.call('EXPIRE'"""))

EV = 'event/bus.go'
r('ev-send', 'C12 C13', (EV, """	switch r.strategy {
	case Drop:
		select {
		case r.ch <- v:
		default:
			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
		}
	case Block:
		r.ch <- v
	}
""", """	if r.strategy == Block {
		r.ch <- v
		return
	}
	if r.strategy == Drop && !r.offer(v) {
		log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
	}
}

func (r *Receiver) offer(v interface{}) bool {
	select {
	case r.ch <- v:
		return true
	default:
		return false
	}
"""))
r('ev-dispatch', 'C12 C13', (EV, """	for event := range b.ch {
		b.recvMapLock.RLock()
		for _, recv := range b.recvMap {
			recv.onEvent(event)
		}
		b.recvMapLock.RUnlock()
	}
""", """	for {
		event, ok := <-b.ch
		if !ok {
			return
		}
		b.fanOut(event)
	}
}

func (b *FanOutBus) fanOut(event interface{}) {
	b.recvMapLock.RLock()
	defer b.recvMapLock.RUnlock()
	for name := range b.recvMap {
		recv := b.recvMap[name]
		recv.onEvent(event)
	}
"""))
r('ev-go', 'C12 C13', (EV, "	go b.doDispatch()\n", "	go func() {\n		b.doDispatch()\n	}()\n"))
r('ev-newrecv', 'C12 C13', (EV, """	b.recvMapLock.Lock()
	b.recvMap[name] = recv
	b.recvMapLock.Unlock()

	return recv
""", """	b.register(recv)
	return recv
}

func (b *FanOutBus) register(recv *Receiver) {
	b.recvMapLock.Lock()
	defer b.recvMapLock.Unlock()
	b.recvMap[recv.name] = recv
"""))
r('ev-close', 'C12 C13', (EV, """	for name, recv := range b.recvMap {
		close(recv.ch)
		delete(b.recvMap, name)
	}
	b.recvMapLock.Unlock()
}
""", """	defer b.recvMapLock.Unlock()
	for _, recv := range b.recvMap {
		b.drop(recv)
	}
}

func (b *FanOutBus) drop(recv *Receiver) {
	delete(b.recvMap, recv.name)
	close(recv.ch)
}
"""))
r('ev-close2', 'C12 C13', (EV, """	for name, recv := range b.recvMap {
		close(recv.ch)
		delete(b.recvMap, name)
	}
	b.recvMapLock.Unlock()
}
""", """	for _, recv := range b.recvMap {
		close(recv.ch)
	}
	b.recvMap = make(map[string]*Receiver)
	b.recvMapLock.Unlock()
}
"""))
r('ev-dereg', 'C12 C13', (EV, """	if b.recvMap[recv.name] == recv {
		close(recv.ch)
		delete(b.recvMap, recv.name)
	}
	b.recvMapLock.Unlock()
""", """	defer b.recvMapLock.Unlock()
	current, ok := b.recvMap[recv.name]
	if !ok || current != recv {
		return
	}
	delete(b.recvMap, recv.name)
	close(recv.ch)
"""))
r('ev-snapshot-name', 'C12 C13', (EV, "	ch := make(chan interface{}, bufSize)\n\n	recv := &Receiver{", "	ch := make(chan interface{}, bufSize)\n	recv := new(Receiver)\n	*recv = Receiver{"))
r('ev-drain', 'C14', (EV, """drained:
	for {
		select {
		case d, ok := <-r.C:
			if !ok {
				break drained
			}
			data = append(data, d)
		default:
			break drained
		}
	}
	return data
}
""", """	for {
		select {
		case d, ok := <-r.C:
			if !ok {
				return data
			}
			data = append(data, d)
			continue
		default:
		}
		return data
	}
}
"""))
r('ev-collect', 'C14', (EV, """	timer := time.NewTimer(timeout)
	data = make([]interface{}, 0, 10)
drained:
	for {
		select {
		case d, ok := <-r.C:
			if !ok {
				break drained
			}
			data = append(data, d)
		case <-timer.C:
			break drained
		}
	}
	return
""", """	timer := time.NewTimer(timeout)
	defer timer.Stop()
	data = make([]interface{}, 0, 10)
	for more := true; more; {
		select {
		case <-timer.C:
			more = false
		case d, ok := <-r.C:
			if ok {
				data = append(data, d)
			} else {
				more = false
			}
		}
	}
	return data
"""))
r('ev-collect-after', 'C14', (EV, "	timer := time.NewTimer(timeout)\n", "	deadline := time.After(timeout)\n"), (EV, "case <-timer.C:", "case <-deadline:"))
r('ev-drain-len', 'C14', (EV, """	data = make([]interface{}, 0, 10)
drained:
	for {
		select {
		case d, ok := <-r.C:
			if !ok {
				break drained
			}
			data = append(data, d)
		default:
			break drained
		}
	}
	return data
}
""", """	data = make([]interface{}, 0, len(r.C))
	for {
		d, ok := r.poll()
		if !ok {
			return
		}
		data = append(data, d)
	}
}

func (r *Receiver) poll() (interface{}, bool) {
	select {
	case d, ok := <-r.C:
		return d, ok
	default:
		return nil, false
	}
}
"""))

FD = 'schedule/fixed_delay_task.go'
FR = 'schedule/fixed_rate_task.go'
TK = 'schedule/task.go'
TM = 'schedule/task_manager.go'
r('sc-mark', 'C15 C16', (TK, """	if t.status == started {
		return errors.New(fmt.Sprintf("task[%s] start error, you cannot start a Task twice", t.name))
	}

	if t.status == stopped {
		return errors.New(fmt.Sprintf("task[%s] start error, you cannot start a stopped Task", t.name))
	}

	t.status = started
	return nil
""", """	switch t.status {
	case new:
		t.status = started
		return nil
	case started:
		return fmt.Errorf("task[%s] start error, you cannot start a Task twice", t.name)
	default:
		return errors.New(fmt.Sprintf("task[%s] start error, you cannot start a stopped Task", t.name))
	}
"""), (TK, """	t.status = stopped
	close(t.stopSig)
""", """	close(t.stopSig)
	t.status = stopped
"""))
r('sc-mark2', 'C15 C16', (TK, """	if t.status == new {
		return errors.New(fmt.Sprintf("task[%s] stop error, Task is not started", t.name))
	}
	if t.status == stopped {
		return errors.New(fmt.Sprintf("task[%s] stop error, task is already stopped", t.name))
	}

	t.status = stopped
	close(t.stopSig)
""", """	if t.status != started {
		reason := "Task is not started"
		if t.status == stopped {
			reason = "task is already stopped"
		}
		return fmt.Errorf("task[%s] stop error, %s", t.name, reason)
	}
	t.status = stopped
	close(t.stopSig)
"""))
r('sc-queue', 'C16', (TK, """	select {
	case t.jobQ <- struct{}{}:
		return true
	case <-t.stopSig:
		// task is stopped
		return false
	}
	return false
""", """	select {
	case <-t.stopSig:
		return false
	case t.jobQ <- struct{}{}:
	}
	return true
"""))
r('sc-future', 'C16', (FD, """	time.AfterFunc(t.interval, func() {
		t.appendJobQueue()
	})
""", """	timer := time.NewTimer(t.interval)
	defer timer.Stop()
	select {
	case <-timer.C:
		t.appendJobQueue()
	case <-t.stopSig:
	}
"""))
r('sc-future2', 'C16', (FD, "			go t.appendJobQueueFuture()\n", "			t.appendJobQueueFuture()\n"))
r('sc-consume', 'C16', (FD, """			if t.getStatus() == stopped {
				return
			}
			t.runJob(t.nextNo())
			go t.appendJobQueueFuture()
""", """			if !t.runNext() {
				return
			}
"""), (FD, "func (t *FixedDelayTask) getStatus() int {", """func (t *FixedDelayTask) runNext() bool {
	if t.getStatus() == stopped {
		return false
	}
	no := t.nextNo()
	t.runJob(no)
	go t.appendJobQueueFuture()
	return true
}

func (t *FixedDelayTask) getStatus() int {"""))
r('sc-runjob', 'C16', (TK, """	select {
	case <-timeoutCtx.Done():
		<-fin
	case <-t.stopSig:
		cancel()
		<-fin
	case <-fin:
		// job normally finished
	}
""", """	select {
	case <-fin:
		return
	case <-timeoutCtx.Done():
	case <-t.stopSig:
		cancel()
	}
	<-fin
"""), (TK, """		startAt := time.Now()

		err := t.job(timeoutCtx.Done())

		finishAt := time.Now()
		elapse := finishAt.Sub(startAt)

		close(fin)
""", """		startAt := time.Now()
		err := t.job(timeoutCtx.Done())
		elapse := time.Since(startAt)
		close(fin)
"""))
r('sc-runjob2', 'C16', (TK, """	go func() {
		startAt := time.Now()
""", """	done := timeoutCtx.Done()
	go func() {
		startAt := time.Now()
"""), (TK, "t.job(timeoutCtx.Done())", "t.job(done)"), (TK, "	case <-timeoutCtx.Done():\n", "	case <-done:\n"))
r('sc-provide', 'C16', (FR, """	if !t.appendJobQueue() {
		return
	}
	for {
		select {
		case <-t.ticker.C:
			if !t.appendJobQueue() {
				return
			}
		case <-t.stopSig:
			// task is stopped
			return
		}
	}
""", """	for t.appendJobQueue() {
		select {
		case <-t.stopSig:
			return
		case <-t.ticker.C:
		}
	}
"""))
r('sc-start', 'C15 C16', (FD, """	go t.startConsuming()
	// trigger first schedule immediately
	if !t.appendJobQueue() {
		return nil
	}

	simplelog.StdLogger.Printf("task[%s] started", t.name)

	return nil
""", """	go t.startConsuming()
	// trigger first schedule immediately
	if t.appendJobQueue() {
		simplelog.StdLogger.Printf("task[%s] started", t.name)
	}
	return nil
"""), (FR, """	err := t.taskCommon.markStart()
	if err != nil {
		return err
	}
""", """	if err := t.markStart(); err != nil {
		return err
	}
"""))
r('sc-launch', 'C15 C16', (FR, """	t.ticker = time.NewTicker(t.interval)

	go t.startConsuming()
	go t.startProviding()

	simplelog""", """	t.launch()
	simplelog"""), (FR, "func (t *FixedRateTask) MustStop() {", """func (t *FixedRateTask) launch() {
	t.ticker = time.NewTicker(t.interval)
	go t.startProviding()
	go t.startConsuming()
}

func (t *FixedRateTask) MustStop() {"""))
r('sc-new', 'C15 C16', (FD, """	if timeout <= 0 {
		panic(fmt.Sprintf("task[%s] timeout must > 0", name))
	}
	if interval <= 0 {
		panic(fmt.Sprintf("task[%s] interval must > 0", name))
	}
	if job == nil {
		panic(fmt.Sprintf("task[%s] job must be not nil", name))
	}
	t := &FixedDelayTask{
		taskCommon: taskCommon{
			name:     name,
			job:      job,
			stopSig:  make(chan struct{}),
			interval: interval,
			timeout:  timeout,
			status:   new,
			jobQ:     make(chan struct{}, 0),
		},
		lock: &sync.Mutex{},
	}
	return t
""", """	checkTask(name, job, interval, timeout)
	return &FixedDelayTask{taskCommon: newTaskCommon(name, job, interval, timeout), lock: &sync.Mutex{}}
"""), (FD, "func (t *FixedDelayTask) MustStart() {", """func checkTask(name string, job JobFunc, interval, timeout time.Duration) {
	if job == nil {
		panic(fmt.Sprintf("task[%s] job must be not nil", name))
	}
	if interval <= 0 {
		panic(fmt.Sprintf("task[%s] interval must > 0", name))
	}
	if timeout <= 0 {
		panic(fmt.Sprintf("task[%s] timeout must > 0", name))
	}
}

func newTaskCommon(name string, job JobFunc, interval, timeout time.Duration) taskCommon {
	return taskCommon{
		name:     name,
		job:      job,
		interval: interval,
		timeout:  timeout,
		stopSig:  make(chan struct{}),
		jobQ:     make(chan struct{}),
	}
}

func (t *FixedDelayTask) MustStart() {"""))
r('tm-register', 'C17', (TM, """	if _, hit := m.taskMap[task.Name()]; hit {
		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
	}

	m.taskMap[task.Name()] = task
	task.MustStart()
""", """	name := task.Name()
	if m.taskMap[name] != nil {
		return fmt.Errorf("task[%s] duplicated", name)
	}
	task.MustStart()
	m.taskMap[name] = task
"""), (TM, '	"errors"\n', ''))
r('tm-unreg', 'C17', (TM, """	task := m.taskMap[name]
	if task == nil {
		return
	}
	task.Stop()
	delete(m.taskMap, name)
""", """	if task, ok := m.taskMap[name]; ok {
		delete(m.taskMap, name)
		task.Stop()
	}
"""))
r('tm-all', 'C17', (TM, """	for _, task := range m.taskMap {
		task.Stop()
	}

	m.taskMap = make(map[string]Task, 10)
""", """	for name, task := range m.taskMap {
		task.Stop()
		delete(m.taskMap, name)
	}
"""))
r('tm-all2', 'C17', (TM, """	for _, task := range m.taskMap {
		task.Stop()
	}

	m.taskMap = make(map[string]Task, 10)
""", """	old := m.taskMap
	m.taskMap = make(map[string]Task, len(old))
	for _, task := range old {
		task.Stop()
	}
"""))

ST = 'confstore/store.go'
r('cs-register', 'C18 C20', (ST, """	if _, hit := m.kvProcessor[key]; hit {
		return errors.New(fmt.Sprintf("key[%s] ValueProcessor duplicated", key))
	}

	if _, hit := m.kvDefault[key]; hit {
		return errors.New(fmt.Sprintf("key[%s] default value duplicated", key))
	}

	if ok, err := vp.Validate(defaultValue); !ok {
		return errors.New(err)
	}

	m.kvDefault[key] = vp.Convert(defaultValue)
	m.kvDefaultStr[key] = defaultValue

	m.kvProcessor[key] = vp

	return nil
""", """	if err := m.vacant(key); err != nil {
		return err
	}
	ok, reason := vp.Validate(defaultValue)
	if !ok {
		return errors.New(reason)
	}
	m.kvProcessor[key] = vp
	m.kvDefaultStr[key] = defaultValue
	m.kvDefault[key] = vp.Convert(defaultValue)
	return nil
}

func (m *defaultImpl) vacant(key string) error {
	if _, hit := m.kvProcessor[key]; hit {
		return fmt.Errorf("key[%s] ValueProcessor duplicated", key)
	}
	if _, hit := m.kvDefault[key]; hit {
		return fmt.Errorf("key[%s] default value duplicated", key)
	}
	return nil
"""))
r('cs-unp', 'C18 C19 C20', (ST, """	p, hit := m.kvProcessor[key]
	if !hit {
		return &KVError{
			Key:   key,
			Value: value,
			Error: fmt.Sprintf("key[%s] not registered", key),
		}
	}

	if ok, err := p.Validate(value); !ok {
		return &KVError{
			Key:   key,
			Value: value,
			Error: err,
		}
	}

	m.kvLock.Lock()
	m.kv[key] = p.Convert(value)
	m.kvStr[key] = value
	m.kvLock.Unlock()
	return nil
}
""", """	fail := func(reason string) *KVError { return &KVError{Key: key, Value: value, Error: reason} }
	p, hit := m.kvProcessor[key]
	if !hit {
		return fail(fmt.Sprintf("key[%s] not registered", key))
	}
	if ok, err := p.Validate(value); !ok {
		return fail(err)
	}
	m.store(key, value, p.Convert(value))
	return nil
}

func (m *defaultImpl) store(key, text string, v interface{}) {
	m.kvLock.Lock()
	defer m.kvLock.Unlock()
	m.kvStr[key] = text
	m.kv[key] = v
}
"""))
r('cs-update', 'C19 C20', (ST, """	err := m.UpdateNoPersist(key, value)
	if err == nil && key != "" {
		err2 := m.persister.Save(key, value)
		if err2 != nil {
			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\\n", key, value)
			return nil
		}
	}
	return err
""", """	if err := m.UpdateNoPersist(key, value); err != nil || key == "" {
		return err
	}
	if err := m.persister.Save(key, value); err != nil {
		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\\n", key, value)
	}
	return nil
"""))
r('cs-batch', 'C19 C20', (ST, """	errors := make([]*KVError, 0, len(kvStrs))
	if len(kvStrs) == 0 {
		return nil
	}

	okKvStrs := make([]*KVStr, 0, len(kvStrs))
	for _, kvStr := range kvStrs {
		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
		if error != nil {
			errors = append(errors, error)
			continue
		}
		if kvStr.Key == "" {
			// ignored, not updated
			continue
		}
		okKvStrs = append(okKvStrs, kvStr)
	}

	// batch persist kvStrs
	m.persister.BatchSave(okKvStrs)
	return errors
""", """	if len(kvStrs) == 0 {
		return nil
	}
	var errs []*KVError
	var accepted []*KVStr
	for i := 0; i < len(kvStrs); i++ {
		kv := kvStrs[i]
		if err := m.UpdateNoPersist(kv.Key, kv.Value); err != nil {
			errs = append(errs, err)
		} else if kv.Key != "" {
			accepted = append(accepted, kv)
		}
	}
	m.persister.BatchSave(accepted)
	return errs
"""))
r('cs-get', 'C18 C19 C20', (ST, """	v, hit = m.kv[key]
	if !hit {
		v, hit = m.kvDefault[key]
		return v, hit
	}
	return v, hit

""", """	if v, hit = m.kv[key]; hit {
		return
	}
	v, hit = m.kvDefault[key]
	return
"""), (ST, """	m.loadPolicy.DoLoad(m, m.persister)

	m.kvLock.RLock()
	defer m.kvLock.RUnlock()

	v, hit = m.kvStr[key]
	if !hit {
		v, hit = m.kvDefaultStr[key]
		return v, hit

	}
	return v, hit

""", """	m.loadPolicy.DoLoad(m, m.persister)
	return m.lookupString(key)
}

func (m *defaultImpl) lookupString(key string) (string, bool) {
	m.kvLock.RLock()
	defer m.kvLock.RUnlock()
	for _, kv := range []map[string]string{m.kvStr, m.kvDefaultStr} {
		if v, ok := kv[key]; ok {
			return v, true
		}
	}
	return "", false
"""))
r('cs-bget', 'C19 C20', (ST, """	kvs := make([]*KV, 0, len(keys))
	for _, key := range keys {
		if key == "" {
			continue
		}
		v, hit := m.GetValue(key)
		if !hit {
			continue
		}
		kvs = append(kvs, &KV{key, v})
	}
	return kvs
""", """	kvs := make([]*KV, 0, len(keys))
	for _, key := range keys {
		if v, hit := m.GetValue(key); hit && key != "" {
			kvs = append(kvs, &KV{Key: key, Value: v})
		}
	}
	return kvs
"""))
r('cs-reset', 'C18 C19 C20', (ST, """	m.kvLock.Lock()
	defer m.kvLock.Unlock()

	delete(m.kv, key)
	delete(m.kvStr, key)
	err := m.persister.Delete(key)
	if err != nil {
		simplelog""", """	m.kvLock.Lock()
	delete(m.kvStr, key)
	delete(m.kv, key)
	m.kvLock.Unlock()
	if err := m.persister.Delete(key); err != nil {
		simplelog"""))
r('cs-dereg', 'C18 C20', (ST, """	delete(m.kvProcessor, key)
	delete(m.kv, key)
	delete(m.kvStr, key)
	delete(m.kvDefault, key)
	delete(m.kvDefaultStr, key)

	err := m.persister.Delete(key)
	if err != nil {
		simplelog.ErrLogger.Println("perister delete key error:", err)
	}
""", """	for _, kv := range []map[string]string{m.kvStr, m.kvDefaultStr} {
		delete(kv, key)
	}
	delete(m.kvDefault, key)
	delete(m.kv, key)
	delete(m.kvProcessor, key)

	if err := m.persister.Delete(key); err != nil {
		simplelog.ErrLogger.Println("perister delete key error:", err)
	}
"""))
LO = 'confstore/loader.go'
r('cs-load', 'C21', (LO, """	now := time.Now()
	if now.Add(-t.minInterval).Before(t.lastLoadTs) {
		return nil
	}

	err := p.Load(s)
	if err != nil {
		return err
	}
	t.lastLoadTs = time.Now()
	return nil
""", """	if t.lastLoadTs.After(time.Now().Add(-t.minInterval)) {
		return nil
	}
	err := p.Load(s)
	if err == nil {
		t.lastLoadTs = time.Now()
	}
	return err
"""))
r('cs-load2', 'C21', (LO, """	now := time.Now()
	if now.Add(-t.minInterval).Before(t.lastLoadTs) {
		return nil
	}
""", """	if t.recent(time.Now()) {
		return nil
	}
"""), (LO, "func NewSimpleLoadPolicy()", """func (t *defaultLoadPolicy) recent(now time.Time) bool {
	return now.Sub(t.lastLoadTs) < t.minInterval
}

func NewSimpleLoadPolicy()"""))
PE = 'confstore/persister.go'
r('cs-persist', 'C22', (PE, """	args := make([]string, 0, 2*len(kvStrs))
	for _, kvStr := range kvStrs {
		args = append(args, kvStr.Key)
		args = append(args, kvStr.Value)
	}
	if len(args) == 0 {
		return nil
	}
	_, error := r.redisClient.HMSet(r.configRootKey, args).Result()
	if error != nil {
		return error
	}
	return nil
""", """	if len(kvStrs) == 0 {
		return nil
	}
	var args []string
	for _, kv := range kvStrs {
		args = append(args, kv.Key, kv.Value)
	}
	return r.redisClient.HMSet(r.configRootKey, args).Err()
"""), (PE, """	_, err := r.redisClient.HDel(r.configRootKey, key).Result()
	return err
""", """	return r.redisClient.HDel(r.configRootKey, key).Err()
"""))
r('cs-pload', 'C22', (PE, """	for k, v := range result {
		kvError := s.UpdateNoPersist(k, v)
		if kvError != nil {
			simplelog""", """	for k := range result {
		if kvError := s.UpdateNoPersist(k, result[k]); kvError != nil {
			simplelog"""))
PR = 'confstore/procs.go'
r('pr-int', 'C23', (PR, """	if i.minInclude {
		if v < i.min {
			return false, "not >= " + strconv.Itoa(i.min)
		}
	} else {
		if v <= i.min {
			return false, "not > " + strconv.Itoa(i.min)
		}
	}
	if i.maxInclude {
		if v > i.max {
			return false, "not <= " + strconv.Itoa(i.max)
		}
	} else {
		if v >= i.max {
			return false, "not < " + strconv.Itoa(i.max)
		}
	}
	return true, ""
}
""", """	switch {
	case i.minInclude && v < i.min:
		return false, "not >= " + strconv.Itoa(i.min)
	case !i.minInclude && v <= i.min:
		return false, "not > " + strconv.Itoa(i.min)
	}
	return i.below(v)
}

func (i *intProcessor) below(v int) (bool, string) {
	if v < i.max || i.maxInclude && v == i.max {
		return true, ""
	}
	if i.maxInclude {
		return false, fmt.Sprintf("not <= %d", i.max)
	}
	return false, fmt.Sprintf("not < %d", i.max)
}
"""))
r('pr-css', 'C23', (PR, """	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
	if error != nil {
		return false, error.Error()
	}
	if !match {
		return false, "not css color hex value"
	}
	return true, ""
}
""", """	if !hexColor.MatchString(value) {
		return false, "not css color hex value"
	}
	return true, ""
}

var hexColor = regexp.MustCompile(`^#[0-9A-Fa-f]{6}$`)
"""))
r('pr-css2', 'C23', (PR, """	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
	if error != nil {
		return false, error.Error()
	}
	if !match {
		return false, "not css color hex value"
	}
	return true, ""
}
""", """	if len(value) != 7 || value[0] != '#' {
		return false, "not css color hex value"
	}
	for _, c := range []byte(value[1:]) {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false, "not css color hex value"
		}
	}
	return true, ""
}
"""), (PR, '	"regexp"\n', ''))
r('pr-bool', 'C23', (PR, """	if value != "true" && value != "false" {
		return false, "not bool value"
	}
	return true, ""
""", """	switch value {
	case "true", "false":
		return true, ""
	}
	return false, "not bool value"
"""), (PR, "	v, _ := strconv.ParseBool(value)\n	return v\n", "	return value == \"true\"\n"))
r('pr-url', 'C23', (PR, """	if value == "" {
		return true, ""
	}
	_, e := url.ParseRequestURI(value)
	if e != nil {
		return false, "not url value"
	}
	return true, ""
}

func (u *urlProcessor) Convert(value string) interface{} {
	if value == "" {
		var null *url.URL
		return null
	}
""", """	if value != "" {
		if _, e := url.ParseRequestURI(value); e != nil {
			return false, "not url value"
		}
	}
	return true, ""
}

func (u *urlProcessor) Convert(value string) interface{} {
	if value == "" {
		return (*url.URL)(nil)
	}
"""))
r('pr-str', 'C23', (PR, """	ok = len(value) >= s.minLength && len(value) <= s.maxLength
	if !ok {
		err = fmt.Sprintf("len(value) not >= %d or <= %d", s.minLength, s.maxLength)
	}
	return ok, err
""", """	n := len(value)
	if n < s.minLength || n > s.maxLength {
		return false, fmt.Sprintf("len(value) not >= %d or <= %d", s.minLength, s.maxLength)
	}
	return true, ""
"""))
r('pr-enum', 'C23', (PR, """	_, ok = e.enums[value]
	if !ok {
""", """	if ok = e.enums[value]; !ok {
"""), (PR, "for enum, _ := range e.enums", "for enum := range e.enums"))
