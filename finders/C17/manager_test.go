// verif-pkg: schedule
package schedule

import (
	"errors"
	"fmt"
	"sync"
	"testing"
)

type verifTask struct {
	name           string
	starts, stops  int
}

func (t *verifTask) Name() string { return t.name }
func (t *verifTask) Start() error {
	if t.starts > 0 {
		return errors.New("started twice")
	}
	t.starts++
	return nil
}
func (t *verifTask) MustStart() {
	if err := t.Start(); err != nil {
		panic(err)
	}
}
func (t *verifTask) Stop() error {
	t.stops++
	if t.starts == 0 || t.stops > 1 {
		return errors.New("not running")
	}
	return nil
}
func (t *verifTask) MustStop() {
	if err := t.Stop(); err != nil {
		panic(err)
	}
}

func TestVerifManager(t *testing.T) {
	verifSearch(t, 0.7, func(v *verifRun) string {
		m := NewTaskManager()
		managed := map[string]*verifTask{}
		var all []*verifTask
		stopped := map[*verifTask]bool{}
		wasManaged := map[*verifTask]bool{}
		behind := map[*verifTask]int{}
		for i := 0; i < 20; i++ {
			name := fmt.Sprint("n", v.Intn(4))
			if x := managed[name]; x != nil && v.chance(0.05) {
				v.log("the task named %s is stopped without the manager", name)
				x.Stop()
				behind[x]++
			}
			switch k := v.Intn(10); {
			case k < 5:
				x := &verifTask{name: name}
				all = append(all, x)
				err := m.Register(x)
				v.log("Register task %d named %s: %v", len(all)-1, name, err)
				if (err == nil) != (managed[name] == nil) {
					return fmt.Sprintf("registering a task named %s, managed: %v, returns %v", name, managed[name] != nil, err)
				}
				if err == nil {
					managed[name] = x
					wasManaged[x] = true
				}
			case k < 9:
				v.log("Unregister %s", name)
				m.Unregister(name)
				if x := managed[name]; x != nil {
					stopped[x] = true
					delete(managed, name)
				}
			default:
				v.log("UnregisterAll")
				m.UnregisterAll()
				for n, x := range managed {
					stopped[x] = true
					delete(managed, n)
				}
			}
			for j, x := range all {
				ws, wp := 0, 0
				if wasManaged[x] {
					ws = 1
				}
				if stopped[x] {
					wp = 1
				}
				wp += behind[x]
				if x.starts != ws || x.stops != wp {
					return fmt.Sprintf("task %d named %s was started %d and stopped %d times, expected %d and %d", j, x.name, x.starts, x.stops, ws, wp)
				}
			}
		}
		return ""
	})
}

func TestVerifManagerConcurrent(t *testing.T) {
	verifSearch(t, 0.2, func(v *verifRun) string {
		m := NewTaskManager()
		var wg sync.WaitGroup
		var lock sync.Mutex
		ok := 0
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if m.Register(&verifTask{name: "same"}) == nil {
					lock.Lock()
					ok++
					lock.Unlock()
				}
			}()
		}
		wg.Wait()
		if ok != 1 {
			return fmt.Sprintf("%d tasks of the same name are managed", ok)
		}
		for g := 0; g < 3; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 5; i++ {
					m.Register(&verifTask{name: fmt.Sprint(g)})
					m.Unregister(fmt.Sprint(g))
				}
			}()
		}
		wg.Wait()
		m.UnregisterAll()
		return ""
	})
}
