property C28
pkgs ./confs
parallel
pure net/url.QueryUnescape net/url.QueryEscape net/url.PathEscape net/url.UserPassword time.LoadLocation strings.TrimSpace
nonnil *mysql.NewConfig net/url.UserPassword *redis*.NewClient *redis*.Ping *x509.NewCertPool *net/http.Transport*.Clone
noreturn (*log.Logger).Fatal (*log.Logger).Fatalf (*log.Logger).Fatalln
assume "(*log.Logger).Fatal* ends the process; database/sql, the drivers and clients use the options they are given; a successful Open or LoadX509KeyPair returns usable values"
assume "strings.Split, url.QueryUnescape, url.QueryEscape, url.PathEscape, url.UserPassword, strings.TrimSpace and time.LoadLocation are functions of their arguments, as documented"

assume "a query-escaped text has no ampersand"

# an arbitrary option name, and the connection parameters: the pieces between the ampersands
spec K() = uf("any option", "string", 0)
spec npieces() = ite(conf.Params == "", 0, uf("split.n", "int", conf.Params, "&"))
spec piece(i) = uf("split.row", "arr[int]string", conf.Params, "&")[i]
spec nparts(s) = uf("split.n", "int", s, "=")
spec part(s, i) = uf("split.row", "arr[int]string", s, "=")[i]
spec unescaped(i) = ext("net/url.QueryUnescape#0", part(piece(i), 1))
spec hit(i) = nparts(piece(i)) == 2 && ext("net/url.QueryUnescape#1", part(piece(i), 1)) == nil && part(piece(i), 0) == K()
# whether the first i pieces set K, and to what
spec given(i) = uf("given", "bool", i)
spec value(i) = uf("value", "string", i)

# the pool limits of the database handle
block POOL {
  ghost opened int
  ghost open int
  ghost idle int
  ghost life int
  ghost nopen int
  ghost nidle int
  ghost nlife int
  on extern *sql.DB*.SetMaxOpenConns(d, n)() { assert("the limit is the configured one", opened == 1 && n == conf.MaxOpenConns); nopen++ }
  on extern *sql.DB*.SetMaxIdleConns(d, n)() { assert("the limit is the configured one", opened == 1 && n == conf.MaxIdleConns); nidle++ }
  on extern *sql.DB*.SetConnMaxLifetime(d, n)() { assert("the limit is the configured one", opened == 1 && n == conf.ConnMaxLifetime); nlife++ }
  ensures[opened once, every pool limit set] opened == 1 && nopen == 1 && nidle == 1 && nlife == 1 && r != nil
}
block OPENED {
  on extern database/sql.Open(driver, d)(h, e) { assert("opened once with the assembled settings", opened == 0 && driver == drv && d == dsn && built == 1); opened++; assume(implies(e == nil, h != nil)) }
}
block OPENEDT {
  on extern *sql.Open(driver, d, t, o)(h, e) { assert("opened once with the assembled settings", opened == 0 && driver == drv && d == dsn && built == 1); opened++; assume(implies(e == nil, h != nil && h.DB != nil)) }
}
block FOLD {
  unfold given, value (j) :: ite(j <= 0, !given(j), given(j) == (given(j-1) || hit(j-1)) && value(j) == ite(hit(j-1), unescaped(j-1), value(j-1)))
}
block MYSQL {
  insert FOLD
  requires conf != nil
  ghost drv string = "mysql"
  ghost dsn string
  ghost built int
  ghost calls int
  ghost user string
  ghost pass string
  ghost addr string
  ghost db string
  ghost rt int
  invariant[parameters so far](mc *mysql.Config, i int) :: mc.Params != nil && has(mc.Params, K()) == given(i) && implies(given(i), mc.Params[K()] == value(i))
  invariant[parameters so far](mc *mysql.Config, i int) :: mc.Params != nil && has(mc.Params, K()) == given(i+1) && implies(given(i+1), mc.Params[K()] == value(i+1))
  invariant[parameters so far](m map[string]string, i int) :: has(m, K()) == given(i) && implies(given(i), m[K()] == value(i))
  invariant[parameters so far](m map[string]string, i int) :: has(m, K()) == given(i+1) && implies(given(i+1), m[K()] == value(i+1))
  on call customizer(mc)() {
    assert("customized once", calls == 0 && built == 0)
    assert("every setting is in its option", configured(mc))
    calls++
    havoc(mc)
    user = mc.User
    pass = mc.Passwd
    addr = mc.Addr
    db = mc.DBName
    rt = mc.ReadTimeout
  }
  on extern *mysql.Config*.FormatDSN(mc)(s) {
    assert("customized when asked for", iff(calls == 1, customizer != nil))
    assert("every setting is in its option", calls == 1 || configured(mc))
    assert("what the customizer changed is used", implies(calls == 1, mc.User == user && mc.Passwd == pass && mc.Addr == addr && mc.DBName == db && mc.ReadTimeout == rt))
    dsn = s
    built = 1
  }
}
spec configured(mc) = mc.Timeout == conf.Timeout && mc.ReadTimeout == conf.ReadTimeout && mc.WriteTimeout == conf.WriteTimeout && mc.User == conf.Username && mc.Passwd == conf.Password && mc.Net == "tcp" && mc.Addr == conf.Host + ":" + itoa(conf.Port) && mc.DBName == conf.Database && mc.ParseTime == conf.ParseTime && implies(conf.Loc != "", mc.Loc == ext("time.LoadLocation#0", conf.Loc)) && has(mc.Params, K()) == given(npieces()) && implies(given(npieces()), mc.Params[K()] == value(npieces()))

func confs.NewMySqlDb(conf, customizer)(r) {
  insert MYSQL
  insert POOL
  insert OPENED
}
func confs.NewMySqlDbWithTracer(conf, tracer, customizer)(r) {
  insert MYSQL
  insert POOL
  insert OPENEDT
}

block OPTIONS {
  insert FOLD
  requires conf != nil
  ghost dsn string
  ghost built int
  ghost calls int
  ghost used map[string]string
  invariant[parameters so far](m map[string]string, i int) :: has(m, K()) == (bh || given(i)) && implies(bh || given(i), m[K()] == ite(given(i), value(i), bv))
  invariant[parameters so far](m map[string]string, i int) :: has(m, K()) == (bh || given(i+1)) && implies(bh || given(i+1), m[K()] == ite(given(i+1), value(i+1), bv))
  on call customizer(o)() {
    assert("customized once, before the options are used", calls == 0 && built == 0)
    assert("every setting is in its option", has(o, K()) == bh && implies(bh, o[K()] == bv))
    calls++
    used = o
    havocmap(o)
    bh = has(o, K())
    bv = o[K()]
  }
}
spec assembled(o) = has(o, K()) == (bh || given(npieces())) && implies(bh || given(npieces()), o[K()] == ite(given(npieces()), value(npieces()), bv))
block ORACLE {
  insert OPTIONS
  ghost drv string = "oracle"
  ghost bh bool = K() == "SID" && conf.Sid != "" || K() == "server" && conf.Servers != "" || K() == "CONNECTION TIMEOUT" && conf.ConnectTimeout != 0
  ghost bv string = ite(K() == "SID", conf.Sid, ite(K() == "server", conf.Servers, itoa(conf.ConnectTimeout)))
  on extern *BuildUrl(h, p, s, u, pw, o)(url) {
    assert("customized when asked for, on the options used", iff(calls == 1, customizer != nil) && implies(calls == 1, o == used))
    assert("every option is used", assembled(o))
    assert("address and credentials are used", h == conf.Host && p == conf.Port && s == conf.Service && u == conf.Username && pw == conf.Password)
    dsn = url
    built = 1
  }
  panics conf.Sid == "" && conf.Service == ""
}
func confs.NewOracleDb(conf, customizer)(r) {
  insert ORACLE
  insert POOL
  insert OPENED
}
func confs.NewOracleDbWithTracer(conf, tracer, customizer)(r) {
  insert ORACLE
  insert POOL
  insert OPENEDT
}

# Redis
spec redisSet(o) = o != nil && o.Addr == rc.Host + ":" + itoa(rc.Port) && o.Password == rc.Password && o.PoolSize == rc.Pool && o.MinIdleConns == rc.MinIdle && o.DB == rc.Db
func confs.NewRedisClient(rc, customizer)(r) {
  requires rc != nil
  ghost calls int
  ghost opened int
  ghost addr string
  ghost pass string
  ghost db int
  ghost made *redis.Client
  on call customizer(o)() {
    assert("customized once, with every setting in its option", calls == 0 && opened == 0 && redisSet(o))
    calls++
    havoc(o)
    addr = o.Addr
    pass = o.Password
    db = o.DB
  }
  on extern *redis*.NewClient(o)(c) {
    assert("customized when asked for", opened == 0 && iff(calls == 1, customizer != nil))
    assert("every setting is in its option", calls == 1 || redisSet(o))
    assert("what the customizer changed is used", implies(calls == 1, o.Addr == addr && o.Password == pass && o.DB == db))
    opened++
    made = c
  }
  ensures[opened once] opened == 1 && r == made
}

# Elasticsearch
spec esAddr(i) = uf("split.row", "arr[int]string", conf.Addrs, ",")[i]
func confs.NewEsClient(conf, customizer)(r) {
  requires conf != nil
  requires typeis(http.DefaultTransport, *http.Transport) && http.DefaultTransport.(*http.Transport) != nil
  ghost calls int
  ghost opened int
  ghost user string
  ghost pass string
  ghost key string
  ghost made *elasticsearch.Client
  on call customizer(o)() {
    assert("customized once, with every setting in its option", calls == 0 && opened == 0 && o.Username == conf.Username && o.Password == conf.Password)
    assert("every address is used", len(o.Addresses) == uf("split.n", "int", conf.Addrs, ",") && forall(i, int, implies(0 <= i && i < len(o.Addresses), o.Addresses[i] == esAddr(i))))
    assert("the transport has the configured limits", typeis(o.Transport, *http.Transport) && o.Transport.(*http.Transport).MaxConnsPerHost == conf.MaxConnsPerHost && o.Transport.(*http.Transport).MaxIdleConnsPerHost == conf.MaxIdleConnsPerHost)
    calls++
    havoc(o)
    user = o.Username
    pass = o.Password
    key = o.APIKey
  }
  on extern *elasticsearch*.NewClient(o)(c, e) {
    assume(implies(e == nil, c != nil))
    assert("customized when asked for", opened == 0 && iff(calls == 1, customizer != nil))
    assert("every setting is in its option", implies(calls == 0, o.Username == conf.Username && o.Password == conf.Password))
    assert("every address is used", implies(calls == 0, len(o.Addresses) == uf("split.n", "int", conf.Addrs, ",") && forall(i, int, implies(0 <= i && i < len(o.Addresses), o.Addresses[i] == esAddr(i)))))
    assert("the transport has the configured limits", implies(calls == 0, typeis(o.Transport, *http.Transport) && o.Transport.(*http.Transport).MaxConnsPerHost == conf.MaxConnsPerHost && o.Transport.(*http.Transport).MaxIdleConnsPerHost == conf.MaxIdleConnsPerHost))
    assert("what the customizer changed is used", implies(calls == 1, o.Username == user && o.Password == pass && o.APIKey == key))
    opened++
    made = c
  }
  ensures[opened once] opened == 1 && r == made
  maypanic
}

# fasthttp
spec isCustom() = hcConf.SslTrustMode == "CUSTOM" && hcConf.SslTrustCerts != ""
spec isInsecure() = hcConf.SslTrustMode == "INSECURE"
spec wantsCert() = hcConf.CertChain != "" || hcConf.PrivateKey != ""
spec timing(c) = c.MaxConnsPerHost == hcConf.MaxConnsPerHost && c.MaxIdleConnDuration == hcConf.MaxIdleConnDuration && c.MaxConnDuration == hcConf.MaxConnDuration && c.ReadTimeout == hcConf.ReadTimeout && c.WriteTimeout == hcConf.WriteTimeout && c.MaxConnWaitTimeout == hcConf.MaxConnWaitTimeout
spec trust(c) = implies(c.TLSConfig == nil, !isCustom() && !isInsecure() && !wantsCert()) && implies(c.TLSConfig != nil, c.TLSConfig.InsecureSkipVerify == isInsecure() && iff(isCustom(), c.TLSConfig.RootCAs != nil) && implies(isCustom(), c.TLSConfig.RootCAs == pool && added == uf("split.n", "int", hcConf.SslTrustCerts, ",")) && len(c.TLSConfig.Certificates) == ite(wantsCert(), 1, 0) && iff(wantsCert(), loaded == 1) && implies(wantsCert(), c.TLSConfig.Certificates[0].PrivateKey == key))
func confs.NewFastHttpClient(hcConf, customizer)(r) {
  requires hcConf != nil
  ghost calls int
  ghost loaded int
  ghost key crypto.PrivateKey
  ghost pool *x509.CertPool
  ghost pools int
  ghost read int
  ghost added int
  ghost text []byte
  ghost used *fasthttp.Client
  invariant[certificates so far](certPool *x509.CertPool, i int) :: added == i && read == i && certPool == pool
  invariant[certificates so far](certPool *x509.CertPool, i int) :: added == i+1 && read == i+1 && certPool == pool
  invariant[certificates so far](i int) :: added == i && read == i
  invariant[certificates so far](i int) :: added == i+1 && read == i+1
  on extern crypto/tls.LoadX509KeyPair(c, k)(p, e) {
    assert("the configured pair is loaded", loaded == 0 && wantsCert() && c == hcConf.CertChain && k == hcConf.PrivateKey)
    loaded++
    key = p.PrivateKey
  }
  on extern *x509.NewCertPool()(p) {
    assert("one pool", pools == 0)
    pools++
    pool = p
  }
  on extern *ReadFile(f)(b, e) {
    assert("every listed file in order", read == added && f == uf("split.row", "arr[int]string", hcConf.SslTrustCerts, ",")[added])
    read++
    text = b
  }
  on extern *AppendCertsFromPEM(p, b)(ok) {
    assert("what was read goes into the pool", read == added + 1 && p == pool && text == b)
    added++
  }
  on call customizer(c)() {
    assert("customized once", calls == 0)
    assert("every setting is in its option", timing(c))
    assert("trust mode and certificate are used", trust(c))
    calls++
    used = c
    havoc(c)
  }
  ensures[customized when asked for] iff(calls == 1, customizer != nil) && implies(calls == 1, r == used)
  ensures[every setting is in its option] r != nil && (calls == 1 || timing(r))
  ensures[trust mode and certificate are used] calls == 1 || trust(r)
  maypanic
}
# PostgreSQL: the DSN holds every setting, escaped; options trimmed as well
spec setting() = K() + "=" + ext("net/url.QueryEscape", ext("strings.TrimSpace", ite(given(npieces()), value(npieces()), bv)))
spec dsnhead() = "postgres://" + fmttext("s", ext("net/url.UserPassword", conf.Username, conf.Password)) + "@" + conf.Host + ":" + itoa(conf.Port) + "/" + ext("net/url.PathEscape", conf.Database) + "?"
block PG {
  insert OPTIONS
  ghost bh bool = K() == "connect_timeout" && conf.ConnectTimeout != 0
  ghost bv string = itoa(conf.ConnectTimeout)
  invariant[starts with the address](s string) :: hasprefix(s, dsnhead())
  invariant[starts with the address](b *strings.Builder) :: hasprefix(written(b), dsnhead())
  invariant[options so far](b *strings.Builder) :: implies(visited(K()), contains(written(b), setting()))
  invariant[options so far](s string) :: implies(visited(K()), contains(s, setting()))
  invariant[options so far](l []string) :: implies(visited(K()), exists(j, int, 0 <= j && j < len(l) && l[j] == setting()))
}
func confs.NewPostgresqlDb(conf, customizer)(r) {
  insert PG
  insert POOL
  on extern database/sql.Open(driver, d)(h, e) {
    # an escaped text has no ampersand
    assume(!hassuffix(setting(), "&") && !hassuffix(dsnhead(), "&"))
    assert("opened once", opened == 0 && driver == "postgres")
    assert("customized when asked for", iff(calls == 1, customizer != nil))
    assert("address and credentials are used", hasprefix(d, dsnhead()))
    assert("every option is used", implies(bh || given(npieces()), contains(d, setting())))
    opened++
    assume(implies(e == nil, h != nil))
  }
}
func confs.NewPostgresqlDbWithTracer(conf, tracer, customizer)(r) {
  insert PG
  insert POOL
  on extern *sql.Open(driver, d, t, o)(h, e) {
    # an escaped text has no ampersand
    assume(!hassuffix(setting(), "&") && !hassuffix(dsnhead(), "&"))
    assert("opened once", opened == 0 && driver == "postgres")
    assert("customized when asked for", iff(calls == 1, customizer != nil))
    assert("address and credentials are used", hasprefix(d, dsnhead()))
    assert("every option is used", implies(bh || given(npieces()), contains(d, setting())))
    opened++
    assume(implies(e == nil, h != nil && h.DB != nil))
  }
}
