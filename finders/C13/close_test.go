// verif-pkg: event
package event

import (
	"fmt"
	"io"
	"log"
	"testing"
	"time"
)

func verifClosed(c <-chan interface{}) bool {
	select {
	case _, ok := <-c:
		return !ok
	default:
		return false
	}
}

func TestVerifClose(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.8, func(v *verifRun) string {
		type rec struct {
			r      *Receiver
			name   string
			size   int
			closed bool
		}
		b := NewFanOutBus(v.Intn(3))
		reg := map[string]*rec{}
		var all []*rec
		busClosed := false
		check := func() string {
			for i, x := range all {
				if got := verifClosed(x.r.C); got != x.closed {
					return fmt.Sprintf("the channel of receiver %d (%s) is closed: %v, expected %v", i, x.name, got, x.closed)
				}
			}
			return ""
		}
		for i := 0; i < 12; i++ {
			switch k := v.Intn(10); {
			case k < 5 && !busClosed:
				x := &rec{name: fmt.Sprint("n", v.Intn(3)), size: 1 + v.Intn(3)}
				switch v.Intn(3) {
				case 0:
					x.r = b.NewRecv(x.name, x.size)
				case 1:
					x.r = b.NewRecvStrategy(x.name, x.size, Drop)
				case 2:
					x.r = b.NewRecvStrategy(x.name, x.size, Block)
				}
				v.log("receiver %d named %s", len(all), x.name)
				if cap(x.r.C) != x.size {
					return fmt.Sprintf("a receiver with buffer %d was asked for, it has %d", x.size, cap(x.r.C))
				}
				all = append(all, x)
				reg[x.name] = x
			case k < 9 && len(all) > 0:
				j := v.Intn(len(all))
				x := all[j]
				v.log("close receiver %d", j)
				x.r.Close()
				if reg[x.name] == x {
					delete(reg, x.name)
					x.closed = true
				}
			case k == 9 && !busClosed && i > 6:
				v.log("close the bus")
				busClosed = true
				b.Close()
				for n, x := range reg {
					x.closed = true
					delete(reg, n)
				}
				if !verifPanics(func() { b.C <- 1 }) {
					return "the input of a closed bus accepts an event"
				}
			}
			if m := check(); m != "" {
				return m
			}
		}
		if !busClosed {
			// exactly the registered receivers get an event
			s := b.NewRecvStrategy("sync", 0, Block)
			b.GoDispatch()
			b.C <- "e"
			select {
			case <-s.C:
			case <-time.After(10 * time.Second):
				return "an event is not dispatched"
			}
			b.NewRecv("barrier", 0)
			for i, x := range all {
				n := len(x.r.C)
				if reg[x.name] == x && n != 1 || reg[x.name] != x && n != 0 {
					return fmt.Sprintf("receiver %d (%s), registered: %v, got %d events", i, x.name, reg[x.name] == x, n)
				}
			}
			b.Close()
			b.NewRecv("late", 0) // the bus is not left locked
		}
		return ""
	})
}

func TestVerifCloseConcurrent(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.15, func(v *verifRun) string {
		b := NewFanOutBus(1)
		b.GoDispatch()
		var rs []*Receiver
		for i := 0; i < 8; i++ {
			rs = append(rs, b.NewRecv(fmt.Sprint("r", i%5), 1))
		}
		done := make(chan bool)
		for g := 0; g < 2; g++ {
			go func() {
				for _, r := range rs {
					r.Close()
				}
				done <- true
			}()
		}
		go func() {
			for i := 0; i < 5; i++ {
				b.NewRecv("r1", 1)
			}
			done <- true
		}()
		for i := 0; i < 10; i++ {
			b.C <- i
		}
		<-done
		<-done
		<-done
		b.Close()
		return ""
	})
}
