// verif-pkg: event
package event

import (
	"fmt"
	"io"
	"log"
	"runtime"
	"strings"
	"testing"
	"time"
)

func verifSame(got []interface{}, want []int) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %v, expected %v", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Sprintf("got %v, expected %v", got, want)
		}
	}
	return ""
}

func verifSameAny(got []interface{}, want []interface{}) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %v, expected %v", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Sprintf("got %v, expected %v", got, want)
		}
	}
	return ""
}

func TestVerifDrain(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.4, func(v *verifRun) string {
		b := NewFanOutBus(0)
		size := v.Intn(40)
		r := b.NewRecv("r", size)
		s := b.NewRecvStrategy("sync", 0, Block)
		b.GoDispatch()
		next := 0
		for round := 0; round < 3; round++ {
			var want []interface{}
			for k := v.Intn(size + 1); k > 0; k-- {
				next++
				var e interface{} = next
				switch v.Intn(8) {
				case 0:
					e = nil
				case 1:
					e = ""
				case 2:
					e = false
				case 3:
					if len(want) > 0 {
						e = want[len(want)-1]
					}
				}
				want = append(want, e)
				b.C <- e
				<-s.C
			}
			b.NewRecv("barrier", 0)
			last := v.chance(0.3)
			if last {
				r.Close()
			}
			v.log("events %v in the channel, closed %v", want, last)
			if m := verifSameAny(r.Drain(), want); m != "" {
				return "draining " + m
			}
			if m := verifSameAny(r.Drain(), nil); m != "" {
				return "draining again " + m
			}
			if last {
				break
			}
		}
		b.Close()
		return ""
	})
}

func TestVerifCollect(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.4, func(v *verifRun) string {
		b := NewFanOutBus(0)
		r := b.NewRecv("r", 50)
		s := b.NewRecvStrategy("sync", 0, Block)
		b.GoDispatch()
		closing := v.chance(0.5)
		timeout := time.Duration(1+v.Intn(8)) * time.Millisecond
		if closing {
			timeout = 30 * time.Second
		}
		n := v.Intn(20)
		v.log("%d events, timeout %v, closed at the end %v", n, timeout, closing)
		var want []int
		var pause []int
		for i := 0; i < n; i++ {
			want = append(want, i)
			pause = append(pause, v.Intn(4)*v.Intn(2))
		}
		done := make(chan bool)
		go func() {
			for i := 0; i < n; i++ {
				time.Sleep(time.Duration(pause[i]) * 300 * time.Microsecond)
				b.C <- i
				<-s.C
			}
			if closing {
				b.C <- n
				<-s.C
				b.NewRecv("barrier", 0)
				r.Close()
			}
			close(done)
		}()
		start := time.Now()
		got := r.CollectTimeout(timeout)
		took := time.Since(start)
		if closing {
			<-done
			if m := verifSame(got, append(want, n)); m != "" {
				return "collecting until the channel is closed " + m
			}
			if took > timeout/2 {
				return "collecting does not end when the channel is closed"
			}
		} else {
			if took < timeout {
				return fmt.Sprintf("collecting ended after %v, the timeout is %v", took, timeout)
			}
			<-done
			b.C <- n
			<-s.C
			b.NewRecv("barrier", 0)
			rest := r.Drain()
			if m := verifSame(append(append([]interface{}{}, got...), rest...), append(want, n)); m != "" {
				return "collecting and then draining " + m
			}
		}
		b.Close()
		return ""
	})
}

// the timeout counts from the call, whatever arrives meanwhile
func TestVerifCollectStream(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.15, func(v *verifRun) string {
		b := NewFanOutBus(0)
		r := b.NewRecvStrategy("r", 0, Block)
		b.GoDispatch()
		stop, done := make(chan bool), make(chan bool)
		go func() {
			defer close(done)
			for i := 0; i < 400; i++ {
				select {
				case b.C <- i:
				case <-stop:
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
		v.log("an event every 10ms for 4s, timeout 100ms")
		start := time.Now()
		r.CollectTimeout(100 * time.Millisecond)
		took := time.Since(start)
		select {
		case <-done:
			return fmt.Sprintf("collecting ended after %v", took)
		default:
		}
		close(stop)
		go func() {
			for range r.C {
			}
		}()
		<-done
		b.Close()
		return ""
	})
}

// draining takes what parked senders have to offer, too: everything that can be had without waiting
func TestVerifDrainParked(t *testing.T) {
	log.SetOutput(io.Discard)
	verifSearch(t, 0.1, func(v *verifRun) string {
		b := NewFanOutBus(0)
		size := v.Intn(4)
		r := b.NewRecvStrategy("r", size, Block)
		for i := 0; i < size; i++ {
			r.onEvent(i)
		}
		parked := 1 + v.Intn(5)
		v.log("%d events in the channel, %d senders wait", size, parked)
		done := make(chan bool, parked)
		for i := 0; i < parked; i++ {
			i := i
			go func() { r.onEvent(size + i); done <- true }()
		}
		buf := make([]byte, 1<<20)
		for w := 0; ; w++ {
			n := runtime.Stack(buf, true)
			if strings.Count(string(buf[:n]), "[chan send") >= parked {
				break
			}
			if w > 2000 {
				for i := 0; i < parked; i++ {
					<-r.C
				}
				return ""
			}
			time.Sleep(time.Millisecond)
		}
		got := r.Drain()
		if len(got) != size+parked {
			return fmt.Sprintf("draining got %v of %d buffered events and %d waiting ones", got, size, parked)
		}
		for i := 0; i < parked; i++ {
			<-done
		}
		return ""
	})
}
