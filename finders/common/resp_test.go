package common

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
)

var verifRedisDown = errors.New("the redis server is down")

// verifRedisConn is a connection to a redis server that answers with handle
func verifRedisConn(handle func(args []string) interface{}) net.Conn {
	c, s := net.Pipe()
	go func() {
		defer s.Close()
		r := bufio.NewReader(s)
		for {
			args, err := verifReadCommand(r)
			if err != nil {
				return
			}
			rep := handle(args)
			if rep == verifRedisDown {
				return
			}
			if _, err := io.WriteString(s, verifEncode(rep)); err != nil {
				return
			}
		}
	}()
	return c
}

func verifReadLine(r *bufio.Reader) (string, error) {
	l, err := r.ReadString('\n')
	return strings.TrimRight(l, "\r\n"), err
}

func verifReadCommand(r *bufio.Reader) ([]string, error) {
	l, err := verifReadLine(r)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimPrefix(l, "*"))
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := verifReadLine(r)
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func verifEncode(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "$-1\r\n"
	case error:
		return "-" + x.Error() + "\r\n"
	case int64:
		return fmt.Sprintf(":%d\r\n", x)
	case int:
		return fmt.Sprintf(":%d\r\n", x)
	case string:
		return fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)
	case []string:
		s := fmt.Sprintf("*%d\r\n", len(x))
		for _, e := range x {
			s += verifEncode(e)
		}
		return s
	case []interface{}:
		s := fmt.Sprintf("*%d\r\n", len(x))
		for _, e := range x {
			s += verifEncode(e)
		}
		return s
	}
	return "-ERR what\r\n"
}

// verifText is a short text over an alphabet with the characters of interest
func verifText(v *verifRun, alphabet string, max int) string {
	b := make([]byte, v.Intn(max+1))
	for i := range b {
		b[i] = alphabet[v.Intn(len(alphabet))]
	}
	return string(b)
}
