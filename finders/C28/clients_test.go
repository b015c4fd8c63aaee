// verif-pkg: confs
package confs

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/simplelog"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/go-sql-driver/mysql"
	"github.com/valyala/fasthttp"
)

// what is logged as fatal becomes a panic, not the end of the process
type verifFatal struct{}

func (verifFatal) Write(b []byte) (int, error) { panic("fatal: " + string(b)) }

func verifLogs() {
	simplelog.ErrLogger.SetOutput(verifFatal{})
	simplelog.StdLogger.SetOutput(io.Discard)
}

// connection parameters and what they mean
func verifParams(v *verifRun, names []string) (string, map[string]string) {
	var parts []string
	want := map[string]string{}
	for n := v.Intn(4); n > 0; n-- {
		k := names[v.Intn(len(names))]
		val := verifText(v, "ab 1+%=", 3) + "z"
		switch v.Intn(6) {
		case 0:
			parts = append(parts, k)
		case 1:
			parts = append(parts, k+"="+"a=b")
		case 2:
			parts = append(parts, k+"=%zz")
		case 3:
			parts = append(parts, "")
		default:
			if v.chance(0.2) {
				val = " " + val + " "
			}
			parts = append(parts, k+"="+url.QueryEscape(val))
			want[k] = val
		}
	}
	return strings.Join(parts, "&"), want
}

func verifPool(db *sql.DB, open, idle int, life time.Duration) string {
	defer db.Close()
	if n := db.Stats().MaxOpenConnections; n != open && !(open < 0 && n <= 0) {
		return fmt.Sprintf("the pool is limited to %d open connections, not %d", n, open)
	}
	r := reflect.ValueOf(db).Elem()
	if f := r.FieldByName("maxLifetime"); f.IsValid() && time.Duration(f.Int()) != life {
		return fmt.Sprintf("connections live %v, not %v", time.Duration(f.Int()), life)
	}
	if open > 0 && idle > open {
		idle = open
	}
	if f := r.FieldByName("maxIdleCount"); f.IsValid() {
		n := int(f.Int())
		if idle == 0 {
			idle = -1
		}
		if n != idle {
			return fmt.Sprintf("the pool keeps %d idle connections, not %d", n, idle)
		}
	}
	return ""
}

var verifTracer, _ = go2sky.NewTracer("svc")

// a mysql server that accepts everything; it notes user, password check, database and statements
type verifMysql struct {
	lock     sync.Mutex
	addr     string
	password string
	user, db string
	badPass  bool
	queries  []string
}

func (m *verifMysql) serve(c net.Conn) {
	defer c.Close()
	scramble := []byte("abcdefghijklmnopqrst")
	pkt := func(seq byte, b []byte) {
		h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}
		c.Write(append(h, b...))
	}
	g := []byte{10}
	g = append(g, "5.7.0\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, scramble[:8]...)
	g = append(g, 0, 0xff, 0xf7, 33, 2, 0, 0xff, 0x81, 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, scramble[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	pkt(0, g)
	r := bufio.NewReader(c)
	read := func() (byte, []byte, bool) {
		h := make([]byte, 4)
		if _, err := io.ReadFull(r, h); err != nil {
			return 0, nil, false
		}
		b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		_, err := io.ReadFull(r, b)
		return h[3], b, err == nil
	}
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	seq, b, good := read()
	if !good {
		return
	}
	flags := binary.LittleEndian.Uint32(b)
	b = b[32:]
	i := bytes.IndexByte(b, 0)
	user := string(b[:i])
	b = b[i+1:]
	n := int(b[0])
	auth := b[1 : 1+n]
	b = b[1+n:]
	db := ""
	if flags&8 != 0 {
		db = string(b[:bytes.IndexByte(b, 0)])
	}
	m.lock.Lock()
	m.user, m.db = user, db
	m.badPass = !bytes.Equal(auth, verifScramble(scramble, m.password))
	m.lock.Unlock()
	pkt(seq+1, ok)
	for {
		_, b, good := read()
		if !good || len(b) == 0 || b[0] == 1 {
			return
		}
		if b[0] == 3 {
			m.lock.Lock()
			m.queries = append(m.queries, string(b[1:]))
			m.lock.Unlock()
		}
		pkt(1, ok)
	}
}

func verifScramble(scramble []byte, password string) []byte {
	if password == "" {
		return nil
	}
	a := sha1.Sum([]byte(password))
	b := sha1.Sum(a[:])
	c := sha1.Sum(append(append([]byte(nil), scramble...), b[:]...))
	for i := range c {
		c[i] ^= a[i]
	}
	return c[:]
}

func TestVerifMysql(t *testing.T) {
	verifLogs()
	var srv *verifMysql
	var glock sync.Mutex
	mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
		glock.Lock()
		defer glock.Unlock()
		srv.addr = addr
		a, b := net.Pipe()
		go srv.serve(b)
		return a, nil
	})
	verifSearch(t, 0.25, func(v *verifRun) string {
		params, want := verifParams(v, []string{"foo", "bar", "wait_x"})
		conf := &MysqlConf{
			Host: "db" + verifText(v, "ab.", 2), Port: v.Intn(70000), Username: verifText(v, "us", 3) + "u", Password: verifText(v, "p@/?: ", 4), Database: verifText(v, "db", 3),
			MaxOpenConns: v.Intn(6), MaxIdleConns: v.Intn(5) - 1, ConnMaxLifetime: time.Duration(1+v.Intn(4)) * time.Hour,
			ReadTimeout: time.Duration(60+v.Intn(9)) * time.Second, WriteTimeout: time.Duration(80+v.Intn(9)) * time.Second, Timeout: time.Duration(100+v.Intn(9)) * time.Second,
			Loc: []string{"", "UTC", "Local"}[v.Intn(3)], ParseTime: v.chance(0.5), Params: params,
		}
		if conf.MaxIdleConns < 0 {
			conf.MaxIdleConns = 0
		}
		v.log("%#v", *conf)
		loc := time.UTC
		if conf.Loc == "Local" {
			loc = time.Local
		}
		glock.Lock()
		srv = &verifMysql{password: conf.Password}
		s := srv
		glock.Unlock()
		calls, bad := 0, ""
		var cust MysqlConfigCustomizer
		db2 := conf.Database
		if v.chance(0.7) {
			cust = func(mc *mysql.Config) {
				calls++
				got := fmt.Sprint(mc.User, "|", mc.Passwd, "|", mc.Net, "|", mc.Addr, "|", mc.DBName, "|", mc.Timeout, mc.ReadTimeout, mc.WriteTimeout, mc.ParseTime, mc.Loc, mc.Params)
				exp := fmt.Sprint(conf.Username, "|", conf.Password, "|tcp|", conf.Host+":"+strconv.Itoa(conf.Port), "|", conf.Database, "|", conf.Timeout, conf.ReadTimeout, conf.WriteTimeout, conf.ParseTime, loc, want)
				if got != exp {
					bad = "the options are " + got + ", not " + exp
				}
				db2 = "other"
				mc.DBName = db2
			}
		}
		var db *sql.DB
		if v.chance(0.5) {
			db = NewMySqlDb(conf, cust)
		} else {
			db = NewMySqlDbWithTracer(conf, verifTracer, cust)
		}
		if r := verifPool(db, conf.MaxOpenConns, conf.MaxIdleConns, conf.ConnMaxLifetime); r != "" {
			return r
		}
		if bad != "" {
			return bad
		}
		if (cust != nil) != (calls == 1) || calls > 1 {
			return fmt.Sprintf("the customizer is called %d times", calls)
		}
		s.lock.Lock()
		defer s.lock.Unlock()
		if s.addr != conf.Host+":"+strconv.Itoa(conf.Port) || s.user != conf.Username || s.badPass || s.db != db2 {
			return fmt.Sprintf("connected to %q as %q (wrong password: %v), database %q", s.addr, s.user, s.badPass, s.db)
		}
		all := strings.Join(s.queries, "; ")
		for k, x := range want {
			if !strings.Contains(all, k+"="+x) && !strings.Contains(all, k+" = "+x) {
				return fmt.Sprintf("parameter %s=%q is not set: %q", k, x, all)
			}
		}
		for _, k := range []string{"foo", "bar", "wait_x"} {
			if _, ok := want[k]; !ok && strings.Contains(all, k) {
				return fmt.Sprintf("parameter %s is set: %q", k, all)
			}
		}
		return ""
	})
}

func TestVerifPostgres(t *testing.T) {
	verifLogs()
	os.Clearenv()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	var lock sync.Mutex
	var start map[string]string
	var password string
	serve := func(c net.Conn) {
		defer c.Close()
		r := bufio.NewReader(c)
		read := func(n int) []byte {
			b := make([]byte, n)
			if _, err := io.ReadFull(r, b); err != nil {
				return nil
			}
			return b
		}
		h := read(8)
		if h == nil {
			return
		}
		kv := strings.Split(string(read(int(binary.BigEndian.Uint32(h))-8)), "\x00")
		m := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] != "" {
				m[kv[i]] = kv[i+1]
			}
		}
		c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 3})
		p := read(5)
		if p == nil {
			return
		}
		pw := read(int(binary.BigEndian.Uint32(p[1:])) - 4)
		lock.Lock()
		start, password = m, strings.TrimSuffix(string(pw), "\x00")
		lock.Unlock()
		c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 0, 'Z', 0, 0, 0, 5, 'I'})
		for {
			p := read(5)
			if p == nil || p[0] == 'X' {
				return
			}
			read(int(binary.BigEndian.Uint32(p[1:])) - 4)
			c.Write([]byte{'I', 0, 0, 0, 4, 'Z', 0, 0, 0, 5, 'I'})
		}
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go serve(c)
		}
	}()
	port := l.Addr().(*net.TCPAddr).Port
	verifSearch(t, 0.25, func(v *verifRun) string {
		names := []string{"application_name", "search_path", "foo"}
		params, want := verifParams(v, names)
		conf := &PostgresqlConf{
			Host: "127.0.0.1", Port: port, Username: verifText(v, "us@:/ ", 3) + "u", Password: verifText(v, "p@/?:& ", 4) + "p", Database: verifText(v, "db/?% ", 3) + "d",
			ConnectTimeout: v.Intn(3) * 100, Params: params,
			MaxOpenConns: v.Intn(6), MaxIdleConns: v.Intn(5), ConnMaxLifetime: time.Duration(1+v.Intn(4)) * time.Hour,
		}
		ssl := "sslmode=disable"
		if v.chance(0.5) && params != "" {
			ssl = "sslmode=%20disable"
		}
		if v.chance(0.5) {
			conf.Params = ssl + "&" + params
		} else {
			conf.Params = params + "&" + ssl
		}
		v.log("%#v", *conf)
		calls, bad := 0, ""
		var cust PostgresqlUrlOptionsCustomizer
		if v.chance(0.7) {
			cust = func(o map[string]string) {
				calls++
				exp := ""
				if conf.ConnectTimeout != 0 {
					exp = strconv.Itoa(conf.ConnectTimeout)
				}
				if o["connect_timeout"] != exp {
					bad = "connect_timeout is " + o["connect_timeout"] + ", not " + exp
				}
				o["custom"] = "\tcv "
			}
		}
		var db *sql.DB
		if v.chance(0.5) {
			db = NewPostgresqlDb(conf, cust)
		} else {
			db = NewPostgresqlDbWithTracer(conf, verifTracer, cust)
		}
		if r := verifPool(db, conf.MaxOpenConns, conf.MaxIdleConns, conf.ConnMaxLifetime); r != "" {
			return r
		}
		if bad != "" {
			return bad
		}
		if (cust != nil) != (calls == 1) || calls > 1 {
			return fmt.Sprintf("the customizer is called %d times", calls)
		}
		lock.Lock()
		defer lock.Unlock()
		if start["user"] != conf.Username || password != conf.Password || start["database"] != conf.Database {
			return fmt.Sprintf("connected as %q with password %q to database %q", start["user"], password, start["database"])
		}
		if cust != nil {
			want["custom"] = "cv"
		}
		for _, k := range append(names, "custom") {
			x, ok := want[k]
			got, has := start[k]
			if ok != has || strings.TrimSpace(x) != got {
				return fmt.Sprintf("setting %s is %q (%v), not %q (%v)", k, got, has, strings.TrimSpace(x), ok)
			}
		}
		return ""
	})
}

func TestVerifOracle(t *testing.T) {
	verifLogs()
	verifSearch(t, 0.1, func(v *verifRun) string {
		params, want := verifParams(v, []string{"foo", "TRACE", "SID", "server"})
		conf := &OracleConf{
			Host: "h", Port: v.Intn(5), Username: "u", Password: "p",
			Service: verifText(v, "s", 2), Sid: verifText(v, "i", 2), Servers: verifText(v, "a:1,", 2),
			ConnectTimeout: v.Intn(3) * 10, Params: params,
		}
		v.log("%#v", *conf)
		set := map[string]string{}
		if conf.Sid != "" {
			set["SID"] = conf.Sid
		}
		if conf.Servers != "" {
			set["server"] = conf.Servers
		}
		if conf.ConnectTimeout != 0 {
			set["CONNECTION TIMEOUT"] = strconv.Itoa(conf.ConnectTimeout)
		}
		calls, bad := 0, ""
		var cust OracleUrlOptionsCustomizer
		if v.chance(0.7) {
			cust = func(o map[string]string) {
				calls++
				if fmt.Sprint(o) != fmt.Sprint(set) {
					bad = fmt.Sprintf("the options are %v, not %v", o, set)
				}
				o["custom"] = "x"
				set["custom"] = "x"
			}
		}
		var got map[string]string
		p := verifPanics(func() { got = prepareUrlOptions(conf, cust) })
		if p != (conf.Sid == "" && conf.Service == "") {
			return fmt.Sprintf("panics: %v", p)
		}
		if p {
			return ""
		}
		if bad != "" {
			return bad
		}
		if (cust != nil) != (calls == 1) || calls > 1 {
			return fmt.Sprintf("the customizer is called %d times", calls)
		}
		for k, x := range want {
			set[k] = x
		}
		if fmt.Sprint(got) != fmt.Sprint(set) {
			return fmt.Sprintf("the options are %v, not %v", got, set)
		}
		return ""
	})
}

func TestVerifRedis(t *testing.T) {
	verifLogs()
	verifSearch(t, 0.1, func(v *verifRun) string {
		conf := &RedisConf{Host: "r" + verifText(v, "ab.", 2), Port: v.Intn(70000), Password: verifText(v, "pw ", 3), Pool: 1 + v.Intn(5), MinIdle: v.Intn(8), Db: v.Intn(5)}
		v.log("%#v", *conf)
		var lock sync.Mutex
		var reqs [][]string
		addr, calls, bad := "", 0, ""
		retries := 1 + v.Intn(3)
		c := NewRedisClient(conf, func(o *redis.Options) {
			calls++
			if o.Addr != conf.Host+":"+strconv.Itoa(conf.Port) || o.Password != conf.Password || o.PoolSize != conf.Pool || o.MinIdleConns != conf.MinIdle || o.DB != conf.Db {
				bad = fmt.Sprintf("the options are %v %v %v %v %v", o.Addr, o.Password, o.PoolSize, o.MinIdleConns, o.DB)
			}
			o.MinIdleConns = 0 // no connections in the background
			o.MaxRetries = retries
			o.Dialer = func(ctx context.Context, network, a string) (net.Conn, error) {
				addr = a
				return verifRedisConn(func(args []string) interface{} {
					lock.Lock()
					reqs = append(reqs, args)
					lock.Unlock()
					if args[0] == "ping" {
						return "PONG"
					}
					return "OK"
				}), nil
			}
		})
		defer c.Close()
		if bad != "" {
			return bad
		}
		o := c.Options()
		if calls != 1 || o.MaxRetries != retries {
			return fmt.Sprintf("the customizer is called %d times, its setting is used: %v", calls, o.MaxRetries == retries)
		}
		if addr != conf.Host+":"+strconv.Itoa(conf.Port) || o.PoolSize != conf.Pool || o.DB != conf.Db || o.Password != conf.Password {
			return fmt.Sprintf("the client uses %v, pool %v, database %v, password %q", addr, o.PoolSize, o.DB, o.Password)
		}
		if m := o.MinIdleConns; m != 0 {
			return fmt.Sprintf("the client keeps %d idle connections", m)
		}
		return ""
	})
}

func TestVerifEs(t *testing.T) {
	verifLogs()
	auth := make(chan string, 10)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		auth <- r.Header.Get("Authorization")
	}))
	defer srv.Close()
	verifSearch(t, 0.1, func(v *verifRun) string {
		conf := &EsConf{Addrs: srv.URL, Username: verifText(v, "us", 2), Password: verifText(v, "p:", 2), MaxConnsPerHost: v.Intn(5), MaxIdleConnsPerHost: v.Intn(5)}
		if v.chance(0.3) {
			conf.Addrs += "," + srv.URL
		}
		v.log("%#v", *conf)
		calls, bad := 0, ""
		var cust EsConfigCustomizer
		tr := http.RoundTripper(nil)
		if v.chance(0.7) {
			cust = func(c *elasticsearch.Config) {
				calls++
				h, ok := c.Transport.(*http.Transport)
				if !ok || strings.Join(c.Addresses, ",") != conf.Addrs || c.Username != conf.Username || c.Password != conf.Password || h.MaxConnsPerHost != conf.MaxConnsPerHost || h.MaxIdleConnsPerHost != conf.MaxIdleConnsPerHost {
					bad = fmt.Sprintf("the options are %#v, transport %#v", *c, c.Transport)
				}
				if h == http.DefaultTransport.(*http.Transport) {
					bad = "the transport shared by all clients is reconfigured"
				}
				tr = verifTrip{c.Transport}
				c.Transport = tr
			}
		}
		verifTrips = 0
		c := NewEsClient(conf, cust)
		if bad != "" {
			return bad
		}
		if c == nil || (cust != nil) != (calls == 1) || (cust != nil) != (verifTrips > 0) {
			return fmt.Sprintf("the customizer is called %d times, its transport %d times", calls, verifTrips)
		}
		got := <-auth
		want := ""
		if conf.Username != "" || conf.Password != "" {
			want = "Basic " + base64.StdEncoding.EncodeToString([]byte(conf.Username+":"+conf.Password))
		}
		if got != want && !(want != "" && got == "" && (conf.Username == "" || conf.Password == "")) {
			return fmt.Sprintf("the credentials sent are %q, not %q", got, want)
		}
		return ""
	})
}

var verifTrips int

type verifTrip struct{ http.RoundTripper }

func (t verifTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	verifTrips++
	return t.RoundTripper.RoundTrip(r)
}

func TestVerifFastHttp(t *testing.T) {
	verifLogs()
	dir := t.TempDir()
	var certs [][]byte
	file := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		os.WriteFile(p, b, 0600)
		return p
	}
	var paths []string
	var keyPath string
	for i := 0; i < 3; i++ {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: fmt.Sprint("c", i)}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<32, 0)}
		der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &k.PublicKey, k)
		if err != nil {
			t.Skip(err)
		}
		certs = append(certs, der)
		paths = append(paths, file(fmt.Sprint("cert", i), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
		if i == 0 {
			kd, _ := x509.MarshalECPrivateKey(k)
			keyPath = file("key", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}))
		}
	}
	verifSearch(t, 0.1, func(v *verifRun) string {
		d := func() time.Duration { return time.Duration(v.Intn(1000)) * time.Millisecond }
		conf := &FastHttpClientConf{ReadTimeout: d(), WriteTimeout: d(), MaxConnDuration: d(), MaxConnsPerHost: v.Intn(100), MaxIdleConnDuration: d(), MaxConnWaitTimeout: d()}
		client := v.chance(0.5)
		if client {
			conf.CertChain, conf.PrivateKey = paths[0], keyPath
		}
		conf.SslTrustMode = []string{"", "OS", "CUSTOM", "INSECURE", "CUSTOM"}[v.Intn(5)]
		var trust []int
		if v.chance(0.8) {
			var l []string
			for n := 1 + v.Intn(3); n > 0; n-- {
				i := v.Intn(3)
				trust = append(trust, i)
				l = append(l, paths[i])
			}
			conf.SslTrustCerts = strings.Join(l, ",")
		}
		v.log("%#v", *conf)
		calls := 0
		var seen *fasthttp.Client
		var cust FastHttpClientCustomizer
		if v.chance(0.7) {
			cust = func(c *fasthttp.Client) {
				calls++
				seen = c
				c.Name = "custom"
			}
		}
		c := NewFastHttpClient(conf, cust)
		if (cust != nil) != (calls == 1) || cust != nil && (seen != c || c.Name != "custom") {
			return fmt.Sprintf("the customizer is called %d times, on the client returned: %v", calls, seen == c)
		}
		if c.ReadTimeout != conf.ReadTimeout || c.WriteTimeout != conf.WriteTimeout || c.MaxConnDuration != conf.MaxConnDuration || c.MaxConnsPerHost != conf.MaxConnsPerHost ||
			c.MaxIdleConnDuration != conf.MaxIdleConnDuration || c.MaxConnWaitTimeout != conf.MaxConnWaitTimeout {
			return fmt.Sprintf("the client's limits are %v %v %v %v %v %v", c.ReadTimeout, c.WriteTimeout, c.MaxConnDuration, c.MaxConnsPerHost, c.MaxIdleConnDuration, c.MaxConnWaitTimeout)
		}
		insecure := c.TLSConfig != nil && c.TLSConfig.InsecureSkipVerify
		if insecure != (conf.SslTrustMode == "INSECURE") {
			return fmt.Sprintf("server certificates are not verified: %v", insecure)
		}
		hasCert := c.TLSConfig != nil && len(c.TLSConfig.Certificates) > 0
		if hasCert != client || hasCert && (len(c.TLSConfig.Certificates) != 1 || !bytes.Equal(c.TLSConfig.Certificates[0].Certificate[0], certs[0])) {
			return fmt.Sprintf("the client certificate is used: %v", hasCert)
		}
		custom := conf.SslTrustMode == "CUSTOM" && conf.SslTrustCerts != ""
		if has := c.TLSConfig != nil && c.TLSConfig.RootCAs != nil; has != custom {
			return fmt.Sprintf("a custom trust store is used: %v", has)
		}
		if custom {
			pool := x509.NewCertPool()
			for _, i := range trust {
				b, _ := os.ReadFile(paths[i])
				pool.AppendCertsFromPEM(b)
			}
			if !pool.Equal(c.TLSConfig.RootCAs) {
				return "the custom trust store does not hold the configured certificates"
			}
		}
		return ""
	})
}
