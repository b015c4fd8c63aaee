// verif-pkg: event
package event

import (
	"fmt"
	"io"
	"log"
	"sync"
	"testing"
	"time"
)

type verifRecv struct {
	r     *Receiver
	size  int
	block bool
	got   []interface{}
	lock  sync.Mutex
}

func TestVerifDispatch(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.7, func(v *verifRun) string {
		b := NewFanOutBus(v.Intn(4))
		var rs []*verifRecv
		var readers sync.WaitGroup
		read := func(x *verifRecv) {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for e := range x.r.C {
					x.lock.Lock()
					x.got = append(x.got, e)
					x.lock.Unlock()
				}
			}()
		}
		add := func() {
			x := &verifRecv{size: v.Intn(3 + 3*v.Intn(3)), block: v.chance(0.5)}
			st := Drop
			if x.block {
				st = Block
			}
			name := fmt.Sprintf("r%d", len(rs))
			if !x.block && v.chance(0.3) {
				x.r = b.NewRecv(name, x.size)
			} else {
				x.r = b.NewRecvStrategy(name, x.size, st)
			}
			v.log("receiver %s buffer %d blocking %v", name, x.size, x.block)
			if x.block {
				read(x)
			}
			rs = append(rs, x)
		}
		n := 1 + v.Intn(5)
		for i := 0; i < n; i++ {
			add()
		}
		sync := &verifRecv{r: b.NewRecvStrategy("sync", 0, Block), block: true}
		read(sync)
		rs = append(rs, sync)
		b.GoDispatch()
		events := v.Intn(6 + 6*v.Intn(3))
		v.log("%d events", events)
		type ev struct{ n int }
		var sent []interface{}
		for i := 0; i < events; i++ {
			var e interface{} = &ev{i}
			switch v.Intn(10) {
			case 0:
				e = nil
			case 1:
				e = v.Intn(2)
			case 2:
				e = ""
			case 3:
				if i > 0 {
					e = sent[i-1]
				}
			case 4:
				e = (*ev)(nil)
			}
			sent = append(sent, e)
			b.C <- e
			if v.chance(0.1) {
				time.Sleep(time.Millisecond)
			}
		}
		for w := 0; ; w++ {
			sync.lock.Lock()
			k := len(sync.got)
			sync.lock.Unlock()
			if k >= events {
				break
			}
			if w > 4000 {
				return fmt.Sprintf("a blocking receiver with a reader got %d of %d events", k, events)
			}
			time.Sleep(time.Millisecond)
		}
		// registration excludes dispatching: the last event was offered to everybody now
		b.NewRecv("barrier", 0)
		for _, x := range rs {
			if !x.block {
				for len(x.r.C) > 0 {
					x.got = append(x.got, <-x.r.C)
				}
			}
		}
		b.Close()
		readers.Wait()
		for i, x := range rs {
			want := sent
			if !x.block && len(want) > x.size {
				want = want[:x.size]
			}
			if len(want) != len(x.got) {
				return fmt.Sprintf("receiver %d (blocking %v, buffer %d) got %d events of %d, expected %d", i, x.block, x.size, len(x.got), events, len(want))
			}
			for j := range want {
				if want[j] != x.got[j] {
					return fmt.Sprintf("receiver %d got %v as event %d", i, x.got[j], j)
				}
			}
		}
		return ""
	})
}

// registering and closing while events are dispatched
func TestVerifDispatchConcurrent(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.2, func(v *verifRun) string {
		b := NewFanOutBus(1)
		b.GoDispatch()
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for g := 0; g < 3; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					r := b.NewRecv(fmt.Sprint("r", g), 2)
					r.Drain()
					r.Close()
				}
			}()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				select {
				case b.C <- 1:
				case <-stop:
					return
				}
			}
		}()
		wg.Wait()
		close(stop)
		<-done
		b.Close()
		return ""
	})
}

// a dropping receiver without a buffer gets the events for which its reader is waiting
func TestVerifDropUnbuffered(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.05, func(v *verifRun) string {
		b := NewFanOutBus(v.Intn(3))
		r := b.NewRecv("r", 0)
		done := make(chan bool)
		go func() {
			<-r.C
			close(done)
		}()
		b.GoDispatch()
		v.log("a waiting reader of an unbuffered dropping receiver")
		for i := 0; i < 1000; i++ {
			time.Sleep(time.Duration(i/10) * 100 * time.Microsecond)
			b.C <- i
			select {
			case <-done:
				b.Close()
				return ""
			default:
			}
		}
		select {
		case <-done:
			b.Close()
			return ""
		case <-time.After(time.Second):
		}
		return "a reader waiting on an unbuffered dropping receiver got none of 1000 events"
	})
}
