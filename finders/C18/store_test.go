// verif-pkg: confstore
package confstore

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/chanjarster/gears/simplelog"
)

// accepts texts that begin with its prefix; converts to a value that names the validator
type verifProc struct {
	prefix string
	id     int
	hook   func()
}

type verifValue struct {
	id   int
	text string
}

func (p *verifProc) Validate(v string) (bool, string) {
	if p.hook != nil {
		p.hook()
	}
	if strings.HasPrefix(v, p.prefix) {
		return true, ""
	}
	return false, "does not begin with " + p.prefix
}

// the typed value that validator id makes of a text
func verifConv(id int, v string) interface{} {
	switch v {
	case "xz":
		return nil
	case "xy":
		return ""
	case "":
		return false
	}
	return verifValue{id, v}
}

func (p *verifProc) Convert(v string) interface{} {
	if !strings.HasPrefix(v, p.prefix) {
		panic("a value is converted that was not accepted: " + v)
	}
	return verifConv(p.id, v)
}

type verifPersister struct {
	lock sync.Mutex
	log  []string
	fail bool
}

func (p *verifPersister) add(s string) error {
	p.lock.Lock()
	defer p.lock.Unlock()
	p.log = append(p.log, s)
	if p.fail {
		return errors.New("persistence failed")
	}
	return nil
}
func (p *verifPersister) Load(s Interface) error        { return nil }
func (p *verifPersister) Save(k, v string) error        { return p.add("save " + k + "=" + v) }
func (p *verifPersister) Delete(k string) error         { return p.add("delete " + k) }
func (p *verifPersister) BatchSave(l []*KVStr) error {
	p.lock.Lock()
	defer p.lock.Unlock()
	for _, x := range l {
		p.log = append(p.log, "save "+x.Key+"="+x.Value)
	}
	if p.fail {
		return errors.New("persistence failed")
	}
	return nil
}

func TestVerifStore(t *testing.T) {
	simplelog.ErrLogger.SetOutput(io.Discard)
	verifSearch(t, 0.7, func(v *verifRun) string {
		type entry struct {
			p      *verifProc
			def    string
			cur    string
			hasCur bool
		}
		ps := &verifPersister{fail: v.chance(0.2)}
		s := NewStore(ps, NoopLoadPolicy)
		reg := map[string]*entry{}
		keys := []string{"", "a", "b", "c", "d"}
		vals := []string{"", "x", "xy", "y", "xz", "z"}
		key := func() string { return keys[v.Intn(len(keys))] }
		val := func() string { return vals[v.Intn(len(vals))] }
		ids := 0
		persisted := func(what string, want ...string) string {
			got := ps.log
			ps.log = nil
			if len(got) == 0 && len(want) == 0 || reflect.DeepEqual(got, want) {
				return ""
			}
			return fmt.Sprintf("%s: the persistence layer is asked %q, expected %q", what, got, want)
		}
		kverr := func(what string, e *KVError, k, x string, ok bool) string {
			if (e == nil) != ok {
				return fmt.Sprintf("%s returns %v, accepted should be %v", what, e, ok)
			}
			if e != nil && (e.Key != k || e.Value != x || e.Error == "") {
				return fmt.Sprintf("%s returns the error %+v", what, e)
			}
			return ""
		}
		update := func(k, x string) (ok, applied bool) {
			if k == "" {
				return true, false
			}
			e := reg[k]
			if e == nil || !strings.HasPrefix(x, e.p.prefix) {
				return false, false
			}
			e.cur, e.hasCur = x, true
			return true, true
		}
		read := func(k string) (string, interface{}, bool) {
			e := reg[k]
			if e == nil {
				return "", nil, false
			}
			x := e.def
			if e.hasCur {
				x = e.cur
			}
			return x, verifConv(e.p.id, x), true
		}
		for i := 0; i < 25; i++ {
			k, x := key(), val()
			msg := ""
			switch v.Intn(8) {
			case 0, 1:
				ids++
				p := &verifProc{prefix: []string{"", "x", "y"}[v.Intn(3)], id: ids}
				var vp ValueProcessor = p
				null := v.Intn(12)
				if null == 0 {
					vp = nil
				} else if null == 1 {
					vp = (*verifProc)(nil)
				}
				err := s.RegisterKey(k, x, vp)
				v.log("RegisterKey(%q, %q, prefix %q, nil %v): %v", k, x, p.prefix, null < 2, err)
				ok := k != "" && reg[k] == nil && null > 1 && strings.HasPrefix(x, p.prefix)
				if ok != (err == nil) {
					return fmt.Sprintf("RegisterKey returns %v, should succeed: %v", err, ok)
				}
				if ok {
					reg[k] = &entry{p: p, def: x}
				}
				msg = persisted("RegisterKey")
			case 2:
				v.log("DeregisterKey(%q)", k)
				s.DeregisterKey(k)
				if reg[k] != nil {
					msg = persisted("DeregisterKey", "delete "+k)
					delete(reg, k)
				}
				ps.log = nil
			case 3:
				v.log("ResetKey(%q)", k)
				s.ResetKey(k)
				if e := reg[k]; e != nil {
					e.hasCur = false
					msg = persisted("ResetKey", "delete "+k)
				}
				ps.log = nil
			case 4:
				e := s.Update(k, x)
				v.log("Update(%q, %q): %v", k, x, e)
				ok, applied := update(k, x)
				msg = kverr("Update", e, k, x, ok)
				if applied && msg == "" {
					msg = persisted("Update", "save "+k+"="+x)
				} else if msg == "" {
					msg = persisted("Update")
				}
			case 5:
				e := s.UpdateNoPersist(k, x)
				v.log("UpdateNoPersist(%q, %q): %v", k, x, e)
				ok, _ := update(k, x)
				msg = kverr("UpdateNoPersist", e, k, x, ok)
				if msg == "" {
					msg = persisted("UpdateNoPersist")
				}
			case 6:
				var in []*KVStr
				var wantErr, wantSave []string
				for n := v.Intn(5); n > 0; n-- {
					k, x := key(), val()
					in = append(in, &KVStr{k, x})
					ok, applied := update(k, x)
					if !ok {
						wantErr = append(wantErr, k+"="+x)
					}
					if applied {
						wantSave = append(wantSave, "save "+k+"="+x)
					}
				}
				es := s.BatchUpdate(in)
				var got []string
				for _, e := range es {
					if e == nil || e.Error == "" {
						return fmt.Sprintf("BatchUpdate returns the error %+v", e)
					}
					got = append(got, e.Key+"="+e.Value)
				}
				v.log("BatchUpdate(%v): errors for %v", in, got)
				if !reflect.DeepEqual(got, wantErr) {
					return fmt.Sprintf("BatchUpdate(%v) returns errors for %q, rejected are %q", in, got, wantErr)
				}
				msg = persisted("BatchUpdate", wantSave...)
			case 7:
				var ask []string
				for n := v.Intn(6); n > 0; n-- {
					ask = append(ask, key())
				}
				var wk, gs, ws []string
				var gv, wv []interface{}
				for _, k := range ask {
					if x, y, hit := read(k); hit {
						wk = append(wk, k)
						ws = append(ws, x)
						wv = append(wv, y)
					}
				}
				var gk, gk2 []string
				for _, e := range s.BatchGetValues(ask) {
					gk = append(gk, e.Key)
					gv = append(gv, e.Value)
				}
				for _, e := range s.BatchGetValueString(ask) {
					gk2 = append(gk2, e.Key)
					gs = append(gs, e.Value)
				}
				if !reflect.DeepEqual(gk, wk) || !reflect.DeepEqual(gk2, wk) || !reflect.DeepEqual(gv, wv) || !reflect.DeepEqual(gs, ws) {
					return fmt.Sprintf("a batch read of %q returns %q %v and %q %q, expected %q %v %q", ask, gk, gv, gk2, gs, wk, wv, ws)
				}
				msg = persisted("batch read")
			}
			if msg != "" {
				return msg
			}
			for _, k := range keys {
				ws, wv, wh := read(k)
				gv, h1 := s.GetValue(k)
				gs, h2 := s.GetValueString(k)
				if h1 != wh || h2 != wh || wh && (gv != wv || gs != ws) {
					return fmt.Sprintf("reading %q gives %v (%v) and %q (%v), expected %q of validator %v (%v)", k, gv, h1, gs, h2, ws, wv, wh)
				}
				p1 := verifPanics(func() { gv = s.MustGetValue(k) })
				p2 := verifPanics(func() { gs = s.MustGetValueString(k) })
				if p1 == wh || p2 == wh || wh && (gv != wv || gs != ws) {
					return fmt.Sprintf("the must-reads of %q give %v (panic %v) and %q (panic %v), expected %q (%v)", k, gv, p1, gs, p2, ws, wh)
				}
			}
			if m := persisted("reading"); m != "" {
				return m
			}
		}
		return ""
	})
}

// a key is deregistered while an update of it is being validated
func TestVerifStoreConcurrent(t *testing.T) {
	verifSearch(t, 0.15, func(v *verifRun) string {
		s := NewStore(NoopPersister, NoopLoadPolicy)
		p := &verifProc{}
		s.RegisterKey("a", "d", p)
		s.RegisterKey("b", "d", &verifProc{})
		done := make(chan bool)
		var once sync.Once
		p.hook = func() {
			once.Do(func() {
				go func() {
					s.DeregisterKey("a")
					close(done)
				}()
				select {
				case <-done:
				case <-time.After(time.Duration(v.Intn(400)) * time.Microsecond):
				}
			})
		}
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			s.GetValue("a")
			s.BatchGetValueString([]string{"a", "b"})
			s.ResetKey("b")
		}()
		go func() {
			defer wg.Done()
			s.Update("b", "x")
			s.GetValueString("b")
		}()
		s.Update("a", "v")
		<-done
		wg.Wait()
		if x, hit := s.GetValue("a"); hit {
			return fmt.Sprintf("the deregistered key reads as %v", x)
		}
		if x, hit := s.GetValueString("a"); hit {
			return fmt.Sprintf("the deregistered key reads as %v", x)
		}
		return ""
	})
}

// concurrent updates of one key: afterwards both readings are of one of the accepted values
func TestVerifStoreUpdaters(t *testing.T) {
	verifSearch(t, 0.15, func(v *verifRun) string {
		s := NewStore(NoopPersister, NoopLoadPolicy)
		p := &verifProc{prefix: "v", id: 7}
		s.RegisterKey("a", "vd", p)
		n, rounds := 2+v.Intn(3), 20+v.Intn(60)
		v.log("%d updaters, %d updates each", n, rounds)
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					switch {
					case i%7 == 3:
						s.Update("a", fmt.Sprintf("not %d %d", g, i))
					case i%5 == 4:
						s.BatchUpdate([]*KVStr{{"a", fmt.Sprintf("v %d %d", g, i)}, {"b", "v"}})
					case i%11 == 5 && g == 0:
						s.ResetKey("a")
					default:
						s.Update("a", fmt.Sprintf("v %d %d", g, i))
					}
				}
			}(g)
		}
		wg.Wait()
		x, h1 := s.GetValue("a")
		y, h2 := s.GetValueString("a")
		if !h1 || !h2 || !strings.HasPrefix(y, "v") || x != verifConv(7, y) {
			return fmt.Sprintf("after concurrent updates the key reads as %v (%v) and %q (%v)", x, h1, y, h2)
		}
		return ""
	})
}
