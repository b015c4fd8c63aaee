// verif-pkg: confstore
package confstore

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/chanjarster/gears/simplelog"
	"github.com/go-redis/redis/v7"
)

type verifTarget struct {
	Interface
	got    []string
	reject map[string]bool
	other  int
}

func (s *verifTarget) UpdateNoPersist(k, v string) *KVError {
	s.got = append(s.got, k+"="+v)
	if s.reject[k] {
		return &KVError{k, v, "rejected"}
	}
	return nil
}
func (s *verifTarget) Update(k, v string) *KVError { s.other++; return nil }
func (s *verifTarget) BatchUpdate([]*KVStr) []*KVError { s.other++; return nil }

func TestVerifRedisPersister(t *testing.T) {
	simplelog.ErrLogger.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	verifSearch(t, 0.8, func(v *verifRun) string {
		var reqs [][]string
		var reply interface{}
		client := redis.NewClient(&redis.Options{
			MaxRetries: -1,
			PoolSize:   1,
			Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
				return verifRedisConn(func(args []string) interface{} {
					reqs = append(reqs, args)
					return reply
				}), nil
			},
		})
		defer client.Close()
		root := verifText(v, "ro:", 3)
		p := NewRedisPersister(client, root)
		v.log("root %q", root)
		text := func() string { return verifText(v, "ab=\x00 \"", 3) }
		for i := 0; i < 6; i++ {
			reqs = nil
			reply = "OK"
			op := v.Intn(4)
			if op == 2 {
				reply = v.Intn(2)
			}
			fail := v.chance(0.2)
			if fail {
				reply = errors.New("ERR broken")
				if v.chance(0.5) {
					reply = verifRedisDown
				}
			}
			var err error
			var want []string
			switch op {
			case 0:
				k, x := text(), text()
				v.log("Save(%q, %q), reply %v", k, x, reply)
				err = p.Save(k, x)
				want = []string{root, k, x}
			case 1:
				var in []*KVStr
				want = []string{root}
				n := v.Intn(4)
				if v.chance(0.02) {
					n = v.Intn(1500)
				}
				for ; n > 0; n-- {
					e := &KVStr{text(), text()}
					in = append(in, e)
					want = append(want, e.Key, e.Value)
				}
				v.log("BatchSave(%q), reply %v", want[1:], reply)
				err = p.BatchSave(in)
				if len(in) == 0 {
					if len(reqs) != 0 || err != nil {
						return fmt.Sprintf("saving nothing asks redis %q and returns %v", reqs, err)
					}
					continue
				}
			case 2:
				k := text()
				v.log("Delete(%q), reply %v", k, reply)
				err = p.Delete(k)
				want = []string{root, k}
			case 3:
				m := map[string]string{}
				for n := v.Intn(5); n > 0; n-- {
					m[text()] = text()
				}
				s := &verifTarget{reject: map[string]bool{}}
				var l, pairs []string
				for k, x := range m {
					l = append(l, k, x)
					pairs = append(pairs, k+"="+x)
					s.reject[k] = v.chance(0.3)
				}
				if !fail {
					reply = l
				} else {
					pairs = nil
				}
				v.log("Load of %q, rejecting %v, reply %v", m, s.reject, reply)
				err = p.Load(s)
				sort.Strings(pairs)
				sort.Strings(s.got)
				if strings.Join(pairs, "|") != strings.Join(s.got, "|") || s.other > 0 {
					return fmt.Sprintf("loading the pairs %q passes %q to the store", pairs, s.got)
				}
				want = []string{root}
			}
			if fail != (err != nil) {
				return fmt.Sprintf("redis answers %v, the persister returns %v", reply, err)
			}
			cmds := []string{"hmset", "hmset", "hdel", "hgetall"}
			if len(reqs) != 1 || strings.Replace(strings.ToLower(reqs[0][0]), "hset", "hmset", 1) != cmds[op] || !reflect.DeepEqual(reqs[0][1:], want) {
				return fmt.Sprintf("redis is asked %q instead of %s %q", reqs, cmds[op], want)
			}
		}
		return ""
	})
}
