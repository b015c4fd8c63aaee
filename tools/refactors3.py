ST='conf/string.go'; EN='conf/env.go'; FL='conf/flag.go'; RF='conf/reflect.go'; CO='conf/conf.go'
r('st-builder','C24 C25',(ST,"""	bs := []byte(path)
	rs := make([]byte, 0, len(bs))

	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(b))
			prevDot = false
		} else if b == '.' {
			rs = append(rs, '-')
			prevDot = true
		} else {
			rs = append(rs, b)
			prevDot = false
		}
	}

	return string(rs)
""","""	var sb strings.Builder
	sb.Grow(len(path))
	boundary := true
	for i := 0; i < len(path); i++ {
		b := path[i]
		switch {
		case isUpperASCII(b):
			if !boundary {
				sb.WriteByte('-')
			}
			sb.WriteByte(lowerASCII(b))
			boundary = false
		case b == '.':
			sb.WriteByte('-')
			boundary = true
		default:
			sb.WriteByte(b)
			boundary = false
		}
	}
	return sb.String()
"""),(ST,"package conf\n","package conf\n\nimport \"strings\"\n"))
r('st-range','C24 C25',(ST,"""	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, '_')
			}
			rs = append(rs, b)
			prevDot = false
		} else if b == '.' {
			rs = append(rs, '_')
			prevDot = true
		} else {
			rs = append(rs, upperASCII(b))
			prevDot = false
		}
	}
""","""	prevDot := true
	for _, b := range bs {
		if b == '.' {
			rs = append(rs, '_')
			prevDot = true
			continue
		}
		if isUpperASCII(b) && !prevDot {
			rs = append(rs, '_')
		}
		rs = append(rs, upperASCII(b))
		prevDot = false
	}
"""))
r('st-common','C24 C25',(ST,"""func flagStyle(path string) string {
	bs := []byte(path)
	rs := make([]byte, 0, len(bs))

	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(b))
			prevDot = false
		} else if b == '.' {
			rs = append(rs, '-')
			prevDot = true
		} else {
			rs = append(rs, b)
			prevDot = false
		}
	}

	return string(rs)
}
""","""func flagStyle(path string) string {
	return convertStyle(path, '-', lowerASCII)
}

func convertStyle(path string, sep byte, caseFn func(b byte) byte) string {
	bs := []byte(path)
	rs := make([]byte, 0, len(bs))

	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, sep)
			}
			rs = append(rs, caseFn(b))
			prevDot = false
		} else if b == '.' {
			rs = append(rs, sep)
			prevDot = true
		} else {
			rs = append(rs, caseFn(b))
			prevDot = false
		}
	}

	return string(rs)
}
"""),(ST,"""
	bs := []byte(path)
	rs := make([]byte, 0, len(bs))

	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, '_')
			}
			rs = append(rs, b)
			prevDot = false
		} else if b == '.' {
			rs = append(rs, '_')
			prevDot = true
		} else {
			rs = append(rs, upperASCII(b))
			prevDot = false
		}
	}

	return string(rs)

}
""","""	return convertStyle(path, '_', upperASCII)
}
"""))
r('st-prev','C24',(ST,"""	prevDot := true
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if isUpperASCII(b) {
			if !prevDot {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(b))
			prevDot = false
		} else if b == '.' {
			rs = append(rs, '-')
			prevDot = true
		} else {
			rs = append(rs, b)
			prevDot = false
		}
	}
""","""	for i, b := range bs {
		if isUpperASCII(b) {
			if i > 0 && bs[i-1] != '.' {
				rs = append(rs, '-')
			}
			rs = append(rs, lowerASCII(b))
		} else if b == '.' {
			rs = append(rs, '-')
		} else {
			rs = append(rs, b)
		}
	}
"""))
BIND="""		vi := basicPtr(v)
		vt := v.Type()
		switch vt {
		case reflect.TypeOf(time.Nanosecond):
			flagSet.DurationVar(vi.(*time.Duration), envName, time.Duration(v.Int()), path)
		default:
			switch k := vt.Kind(); k {
			case reflect.Bool:
				flagSet.BoolVar(vi.(*bool), envName, v.Bool(), path)
			case reflect.Float64:
				flagSet.Float64Var(vi.(*float64), envName, v.Float(), path)
			case reflect.Int:
				flagSet.IntVar(vi.(*int), envName, int(v.Int()), path)
			case reflect.Int64:
				flagSet.Int64Var(vi.(*int64), envName, v.Int(), path)
			case reflect.String:
				flagSet.StringVar(vi.(*string), envName, v.String(), path)
			case reflect.Uint:
				flagSet.UintVar(vi.(*uint), envName, uint(v.Uint()), path)
			case reflect.Uint64:
				flagSet.Uint64Var(vi.(*uint64), envName, v.Uint(), path)
			default:
			}
		}
"""
BINDF=BIND.replace("envName","flagName").replace("basicPtr(v)\n","basicPtr(v)\n\n")
r('cf-bind','C25 C26',(EN,BIND,"		bindFlag(flagSet, envName, path, v)\n"),(FL,BINDF,"		bindFlag(flagSet, flagName, path, v)\n"),
 (FL,'import (\n	"flag"\n	"os"\n	"reflect"\n	"time"\n)\n','import (\n	"flag"\n	"os"\n	"reflect"\n)\n'),(EN,'	"reflect"\n	"time"\n','	"reflect"\n'),
 (RF,'import (\n','import (\n	"flag"\n'),(RF,"// Return the pointer to v.","""func bindFlag(flagSet *flag.FlagSet, name, usage string, v reflect.Value) {
	vi := basicPtr(v)
	if v.Type() == durationType {
		flagSet.DurationVar(vi.(*time.Duration), name, time.Duration(v.Int()), usage)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		flagSet.BoolVar(vi.(*bool), name, v.Bool(), usage)
	case reflect.Float64:
		flagSet.Float64Var(vi.(*float64), name, v.Float(), usage)
	case reflect.Int:
		flagSet.IntVar(vi.(*int), name, int(v.Int()), usage)
	case reflect.Int64:
		flagSet.Int64Var(vi.(*int64), name, v.Int(), usage)
	case reflect.String:
		flagSet.StringVar(vi.(*string), name, v.String(), usage)
	case reflect.Uint:
		flagSet.UintVar(vi.(*uint), name, uint(v.Uint()), usage)
	case reflect.Uint64:
		flagSet.Uint64Var(vi.(*uint64), name, v.Uint(), usage)
	}
}

// Return the pointer to v."""))
r('cf-typeswitch','C25 C26',(FL,BINDF,"""		switch p := basicPtr(v).(type) {
		case *time.Duration:
			flagSet.DurationVar(p, flagName, *p, path)
		case *bool:
			flagSet.BoolVar(p, flagName, *p, path)
		case *float64:
			flagSet.Float64Var(p, flagName, *p, path)
		case *int:
			flagSet.IntVar(p, flagName, *p, path)
		case *int64:
			flagSet.Int64Var(p, flagName, *p, path)
		case *string:
			flagSet.StringVar(p, flagName, *p, path)
		case *uint:
			flagSet.UintVar(p, flagName, *p, path)
		case *uint64:
			flagSet.Uint64Var(p, flagName, *p, path)
		}
"""))
r('cf-load','C26',(CO,"""	for _, resolver := range resolvers {
		if err := resolver.Resolve(p); err != nil {
			fmt.Println(err.Error())
			os.Exit(2)
		}
	}

}
""","""	resolveAll(resolvers, p)
}

func resolveAll(resolvers []confResolver, p interface{}) {
	for i := range resolvers {
		err := resolvers[i].Resolve(p)
		if err == nil {
			continue
		}
		fmt.Println(err)
		os.Exit(2)
	}
}
"""))
r('cf-load2','C26',(CO,"""	if yamlFile != "" {
		yr := &yamlFileResolver{File: yamlFile}
		resolvers = append(resolvers, yr)
	}
	resolvers = append(resolvers, er)
	resolvers = append(resolvers, fr)

	for _, resolver := range resolvers {
		if err := resolver.Resolve(p); err != nil {
			fmt.Println(err.Error())
			os.Exit(2)
		}
	}

}
""","""	if yamlFile != "" {
		must((&yamlFileResolver{File: yamlFile}).Resolve(p))
	}
	must(er.Resolve(p))
	must(fr.Resolve(p))
}

func must(err error) {
	if err != nil {
		fmt.Println(err.Error())
		os.Exit(2)
	}
}
"""),(CO,"	resolvers := make([]confResolver, 0)\n\n",""))
r('cf-env','C26',(EN,"""	for _, env := range r.environ {
		v, ok := os.LookupEnv(env)
		if !ok {
			continue
		}
		if err := flagSet.Set(env, v); err != nil {
			return r.failf("invalid value %q for env %s: %v", v, env, err)
		}
	}
	return nil
""","""	for i := 0; i < len(r.environ); i++ {
		env := r.environ[i]
		if v, ok := os.LookupEnv(env); ok {
			if err := flagSet.Set(env, v); err != nil {
				return r.failf("invalid value %q for env %s: %v", v, env, err)
			}
		}
	}
	return nil
"""))
r('cf-envset','C25 C26',(EN,"""	if r.environ == nil {
		r.environ = make([]string, 0)
	}

	r.flagSet =""","""	r.flagSet ="""))
r('cf-visit','C25',(RF,"""			if f.Anonymous {
				// f is embedded field
				visitExportedFieldsPath(f, fv, path, fn)
			} else {
				if path == "" {
					visitExportedFieldsPath(f, fv, f.Name, fn)
				} else {
					visitExportedFieldsPath(f, fv, path+"."+f.Name, fn)
				}

			}
""","""			p := path
			if !f.Anonymous {
				p = joinPath(path, f.Name)
			}
			visitExportedFieldsPath(f, fv, p, fn)
"""),(RF,"""		if path == "" {
			initPtrValue(fv, f.Name)
		} else {
			initPtrValue(fv, path+"."+f.Name)
		}
""","""		initPtrValue(fv, joinPath(path, f.Name))
"""),(RF,"var (\n	durationType","""func joinPath(path, name string) string {
	if path == "" {
		return name
	}
	return path + "." + name
}

var (
	durationType"""))
r('cf-visit2','C25',(RF,"""	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		fv := v.Field(i)
		if f.Anonymous {
			// f is embedded field
			visitExportedFieldsPath(f, fv, "", fn)
		} else {
			visitExportedFieldsPath(f, fv, f.Name, fn)
		}
	}

}
""","""	visitStruct(v, "", fn)
}

func visitStruct(v reflect.Value, path string, fn visitor) {
	t := v.Type()
	for i, n := 0, v.NumField(); i < n; i++ {
		f := t.Field(i)
		switch {
		case f.Anonymous:
			visitExportedFieldsPath(f, v.Field(i), path, fn)
		case path == "":
			visitExportedFieldsPath(f, v.Field(i), f.Name, fn)
		default:
			visitExportedFieldsPath(f, v.Field(i), path+"."+f.Name, fn)
		}
	}
}
"""),(RF,"""		for i := 0; i < v.NumField(); i++ {
			fv := v.Field(i)
			f := v.Type().Field(i)
			if f.Anonymous {
				// f is embedded field
				visitExportedFieldsPath(f, fv, path, fn)
			} else {
				if path == "" {
					visitExportedFieldsPath(f, fv, f.Name, fn)
				} else {
					visitExportedFieldsPath(f, fv, path+"."+f.Name, fn)
				}

			}
		}
""","		visitStruct(v, path, fn)\n"))
r('cf-visit3','C25',(RF,"""	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}

	if !v.CanSet() {
		return
	}

	switch k := v.Kind(); k {
""","""	v, ok := target(v)
	if !ok {
		return
	}

	switch k := v.Kind(); k {
"""),(RF,"""	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}

	if !v.CanSet() {
		return
	}
	if v.Kind() != reflect.Struct {""","""	v, ok := target(v)
	if !ok || v.Kind() != reflect.Struct {"""),(RF,"var (\n	durationType","""func target(v reflect.Value) (reflect.Value, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, v.CanSet()
}

var (
	durationType"""))
r('cf-initptr','C25',(RF,"""	if v.Kind() == reflect.Ptr {
		if t := v.Type().Elem(); v.IsNil() && v.CanSet() {
			v.Set(reflect.New(t))
		}
		v = v.Elem()
	}

	if !v.CanSet() {
		return
	}

	if v.Kind() != reflect.Struct {
		return
	}
""","""	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if !v.CanSet() {
				return
			}
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}

	if !v.CanSet() || v.Kind() != reflect.Struct {
		return
	}
"""))
MY='confs/mysql.go'; OR='confs/oracle.go'; PG='confs/postgresql.go'; FH='confs/fasthttpclient.go'; ES='confs/es.go'; RD='confs/redis.go'; PP='confs/pprof.go'
def loop(tgt): return """		strs := strings.Split(conf.Params, "&")
		for _, str := range strs {
			p := strings.Split(str, "=")
			if len(p) != 2 {
				continue
			}
			unescape, err := url.QueryUnescape(p[1])
			if err != nil {
				continue
			}
			%s[p[0]] = unescape
		}
"""%tgt
HELP="""
func parseParams(params string, into map[string]string) {
	for _, pair := range strings.Split(params, "&") {
		kv := strings.Split(pair, "=")
		if len(kv) != 2 {
			continue
		}
		if value, err := url.QueryUnescape(kv[1]); err == nil {
			into[kv[0]] = value
		}
	}
}
"""
r('cn-params','C28',(MY,loop("mc.Params"),"		parseParams(conf.Params, mc.Params)\n"),(OR,loop("options"),"		parseParams(conf.Params, options)\n"),
 (PG,loop("options"),"		parseParams(conf.Params, options)\n"),(MY,"\nfunc prepareMySqlNativeConfig",HELP+"\nfunc prepareMySqlNativeConfig"),(OR,'	"net/url"\n',''),(OR,'	"strings"\n',''))
r('cn-idx','C28',(OR,loop("options"),"""		for _, str := range strings.Split(conf.Params, "&") {
			if strings.Count(str, "=") != 1 {
				continue
			}
			i := strings.IndexByte(str, '=')
			if unescape, err := url.QueryUnescape(str[i+1:]); err == nil {
				options[str[:i]] = unescape
			}
		}
"""))
r('cn-pool','C28',(MY,"""	db.SetMaxOpenConns(conf.MaxOpenConns)
	db.SetMaxIdleConns(conf.MaxIdleConns)
	db.SetConnMaxLifetime(conf.ConnMaxLifetime)

	err = db.Ping()
	if err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}

	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", conf.Host, conf.Port)
	return db
}
""","""	return setupMySqlDb(db, conf)
}

func setupMySqlDb(db *sql.DB, conf *MysqlConf) *sql.DB {
	db.SetConnMaxLifetime(conf.ConnMaxLifetime)
	db.SetMaxOpenConns(conf.MaxOpenConns)
	db.SetMaxIdleConns(conf.MaxIdleConns)

	if err := db.Ping(); err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}

	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", conf.Host, conf.Port)
	return db
}
"""),(MY,"""	db.SetMaxOpenConns(conf.MaxOpenConns)
	db.SetMaxIdleConns(conf.MaxIdleConns)
	db.SetConnMaxLifetime(conf.ConnMaxLifetime)

	err = db.Ping()
	if err != nil {
		simplelog.ErrLogger.Fatal("MySQL connection error: ", err)
		panic(err)
	}

	simplelog.StdLogger.Printf("Connected to MySQL: %s:%d", conf.Host, conf.Port)
	return db.DB
}
""","	return setupMySqlDb(db.DB, conf)\n}\n"))
r('cn-mysql','C28',(MY,"""	mc.Timeout = conf.Timeout
	mc.ReadTimeout = conf.ReadTimeout
	mc.WriteTimeout = conf.WriteTimeout
	mc.User = conf.Username
	mc.Passwd = conf.Password
	mc.Net = "tcp"
	mc.Addr = fmt.Sprintf("%s:%d", conf.Host, conf.Port)
""","""	mc.User, mc.Passwd = conf.Username, conf.Password
	mc.Net = "tcp"
	mc.Addr = conf.Host + ":" + strconv.Itoa(conf.Port)
	mc.Timeout, mc.ReadTimeout, mc.WriteTimeout = conf.Timeout, conf.ReadTimeout, conf.WriteTimeout
"""),(MY,"make(map[string]string, 0)","map[string]string{}"),(MY,'	"net/url"\n','	"net/url"\n	"strconv"\n'),(MY,"""		if loc, err := time.LoadLocation(conf.Loc); err != nil {
			simplelog.ErrLogger.Fatal(err)
			panic(err)
		} else {
			mc.Loc = loc
		}
""","""		loc, err := time.LoadLocation(conf.Loc)
		if err != nil {
			simplelog.ErrLogger.Fatal(err)
			panic(err)
		}
		mc.Loc = loc
"""))
r('cn-pg','C28',(PG,"""	for key, val := range options {
		val = strings.TrimSpace(val)
		ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(val))
	}
	ret = strings.TrimRight(ret, "&")
	return ret
""","""	pairs := make([]string, 0, len(options))
	for key, val := range options {
		pairs = append(pairs, key+"="+url.QueryEscape(strings.TrimSpace(val)))
	}
	return ret + strings.Join(pairs, "&")
"""))
r('cn-pg2','C28',(PG,"""	for key, val := range options {
		val = strings.TrimSpace(val)
		ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(val))
	}
	ret = strings.TrimRight(ret, "&")
	return ret
""","""	var sb strings.Builder
	sb.WriteString(ret)
	for key, val := range options {
		sb.WriteString(key + "=" + url.QueryEscape(strings.TrimSpace(val)) + "&")
	}
	return strings.TrimRight(sb.String(), "&")
"""))
r('cn-redis','C28 C27',(RD,"""	redisOpts := &redis.Options{
		Addr:         rc.Host + ":" + strconv.Itoa(rc.Port),
		Password:     rc.Password,
		PoolSize:     rc.Pool,
		MinIdleConns: rc.MinIdle,
		DB:           rc.Db,
	}
""","""	redisOpts := new(redis.Options)
	redisOpts.Addr = fmt.Sprintf("%s:%d", rc.Host, rc.Port)
	redisOpts.Password = rc.Password
	redisOpts.PoolSize = rc.Pool
	redisOpts.MinIdleConns = rc.MinIdle
	redisOpts.DB = rc.Db
"""),(RD,'	"strconv"\n',''))
r('cn-fh','C28',(FH,"""	tlsConfigured := false
	tlsConfig := &tls.Config{}

	if hcConf""","""	tlsConfig := buildTlsConfig(hcConf)

	client := &fasthttp.Client{
		MaxConnsPerHost:     hcConf.MaxConnsPerHost,
		MaxIdleConnDuration: hcConf.MaxIdleConnDuration,
		MaxConnDuration:     hcConf.MaxConnDuration,
		ReadTimeout:         hcConf.ReadTimeout,
		WriteTimeout:        hcConf.WriteTimeout,
		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,
		TLSConfig:           tlsConfig,
	}
	if customizer != nil {
		customizer(client)
	}
	return client
}

func buildTlsConfig(hcConf *FastHttpClientConf) *tls.Config {
	tlsConfigured := false
	tlsConfig := &tls.Config{}

	if hcConf"""),(FH,"""	client := &fasthttp.Client{
		MaxConnsPerHost:     hcConf.MaxConnsPerHost,
		MaxIdleConnDuration: hcConf.MaxIdleConnDuration,
		MaxConnDuration:     hcConf.MaxConnDuration,
		ReadTimeout:         hcConf.ReadTimeout,
		WriteTimeout:        hcConf.WriteTimeout,
		MaxConnWaitTimeout:  hcConf.MaxConnWaitTimeout,
	}

	if tlsConfigured {
		client.TLSConfig = tlsConfig
	}
	if customizer != nil {
		customizer(client)
	}

	return client
}

func app""","""	if !tlsConfigured {
		return nil
	}
	return tlsConfig
}

func app"""))
r('cn-fh2','C28',(FH,"""	tlsConfigured := false
	tlsConfig := &tls.Config{}
""","""	var tlsConfig *tls.Config
	ensure := func() *tls.Config {
		if tlsConfig == nil {
			tlsConfig = &tls.Config{}
		}
		return tlsConfig
	}
"""),(FH,"""		tlsConfig.Certificates = []tls.Certificate{keyPair}
		tlsConfigured = true
""","		ensure().Certificates = []tls.Certificate{keyPair}\n"),(FH,"""		tlsConfig.RootCAs = certPool
		tlsConfigured = true
""","		ensure().RootCAs = certPool\n"),(FH,"""		tlsConfig.InsecureSkipVerify = true
		tlsConfigured = true
""","		ensure().InsecureSkipVerify = true\n"),(FH,"""	if tlsConfigured {
		client.TLSConfig = tlsConfig
	}
""","	client.TLSConfig = tlsConfig\n"))
r('cn-es','C28',(ES,"""	esConf.Transport = transport
	if customizer != nil {
		customizer(esConf)
	}

	es, err := elasticsearch.NewClient(*esConf)
	if err != nil {
		panic(err)
	}

	pingRes, err := es.Ping()
""","""	esConf.Transport = transport
	if customizer != nil {
		customizer(esConf)
	}

	es := mustEsClient(esConf)

	pingRes, err := es.Ping()
"""),(ES,"func NewEsClient(","""func mustEsClient(esConf *elasticsearch.Config) *elasticsearch.Client {
	es, err := elasticsearch.NewClient(*esConf)
	if err != nil {
		panic(err)
	}
	return es
}

func NewEsClient("""))
r('cn-str','C27',(RD,"""	return fmt.Sprintf("{Host: %s, Port: %d, Password: ***, Pool: %d, MinIdle: %d}",
		r.Host, r.Port, r.Pool, r.MinIdle)
""","""	var sb strings.Builder
	sb.WriteString("{Host: " + r.Host)
	sb.WriteString(", Port: " + strconv.Itoa(r.Port))
	sb.WriteString(", Password: ***")
	sb.WriteString(", Pool: " + strconv.Itoa(r.Pool))
	sb.WriteString(", MinIdle: " + strconv.Itoa(r.MinIdle) + "}")
	return sb.String()
"""),(RD,'	"strconv"\n','	"strconv"\n	"strings"\n'),(RD,'	"fmt"\n',''))
r('cn-str2','C27',(ES,"""	return fmt.Sprintf("{Addrs: %s, Username: ***, Password: ***, MaxConnsPerHost: %v, MaxIdleConnsPerHost: %v}",
		m.Addrs,""","""	const mask = "***"
	return fmt.Sprintf("{Addrs: %s, Username: %s, Password: %s, MaxConnsPerHost: %d, MaxIdleConnsPerHost: %d}",
		m.Addrs, mask, mask,"""),(PP,"""	return fmt.Sprintf("{Username: ***, Password: ***, BlockProfileRate: %d, MutexProfileFraction: %d}",
		p.BlockProfileRate, p.MutexProfileFraction)
""","""	masked := *p
	masked.Username, masked.Password = "***", "***"
	return fmt.Sprintf("{Username: %s, Password: %s, BlockProfileRate: %d, MutexProfileFraction: %d}",
		masked.Username, masked.Password, masked.BlockProfileRate, masked.MutexProfileFraction)
"""))
r('pp-helper','C29',(PP,"""		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
		if auth == "" {
			refuse(ctx)
			return nil
		}

		b, err := base64.StdEncoding.DecodeString(auth)
		if err != nil {
			refuse(ctx)
			return nil
		}

		user_pass := strings.SplitN(string(b), ":", 2)
		if len(user_pass) != 2 {
			refuse(ctx)
			return nil
		}

		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {
			refuse(ctx)
			return nil
		}

		pprofhandler.PprofHandler(ctx.RequestCtx)
		return nil
	}
""","""		user, pass, ok := basicAuth(string(ctx.Request.Header.Peek("Authorization")))
		if !ok || user != conf.Username || pass != conf.Password {
			refuse(ctx)
			return nil
		}

		pprofhandler.PprofHandler(ctx.RequestCtx)
		return nil
	}
"""),(PP,"func emptyFasthttpRoutingHandler(","""func basicAuth(header string) (user, pass string, ok bool) {
	auth := strings.TrimPrefix(header, "Basic ")
	if auth == "" {
		return "", "", false
	}
	b, err := base64.StdEncoding.DecodeString(auth)
	if err != nil {
		return "", "", false
	}
	i := strings.Index(string(b), ":")
	if i < 0 {
		return "", "", false
	}
	return string(b[:i]), string(b[i+1:]), true
}

func emptyFasthttpRoutingHandler("""))
r('pp-const','C29',(PP,"""		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {
			refuse(ctx)
			return nil
		}
""","""		userOk := subtle.ConstantTimeCompare([]byte(user_pass[0]), []byte(conf.Username)) == 1
		passOk := subtle.ConstantTimeCompare([]byte(user_pass[1]), []byte(conf.Password)) == 1
		if !userOk || !passOk {
			refuse(ctx)
			return nil
		}
"""),(PP,'import (\n','import (\n	"crypto/subtle"\n'))
r('pp-cut','C29',(PP,"""		user_pass := strings.SplitN(string(b), ":", 2)
		if len(user_pass) != 2 {
			refuse(ctx)
			return nil
		}

		if user_pass[0] != conf.Username || user_pass[1] != conf.Password {
""","""		user, pass, found := strings.Cut(string(b), ":")
		if !found {
			refuse(ctx)
			return nil
		}

		if user != conf.Username || pass != conf.Password {
"""),(PP,"""			c.String(http.StatusNotFound, "404 page not found")
			c.Abort()
			return
""","""			c.Abort()
			c.String(http.StatusNotFound, "404 page not found")
"""))
r('pp-snap','C29',(PP,"""	return func(ctx *routing.Context) error {

		refuse := func(ctx *routing.Context) {
			ctx.Response.Header.Add("WWW-Authenticate", `Basic realm="User Visible Realm"`)
			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
		}
""","""	refuse := func(ctx *routing.Context) {
		ctx.SetStatusCode(fasthttp.StatusUnauthorized)
		ctx.Response.Header.Set("WWW-Authenticate", `Basic realm="User Visible Realm"`)
	}

	return func(ctx *routing.Context) error {
"""))
SR='skywalking/redis/hook.go'; SC='skywalking/fasthttp/client_span.go'; SM='skywalking/fasthttp-routing/middleware.go'; RS='util/rsa/util.go'
r('sk-tag','C30',(SR,"""	if h.opts.reportArgs {
		span.Tag(go2sky.TagDBStatement, cmd.String())
	} else {
		span.Tag(go2sky.TagDBStatement, cmd.Name())
	}

	span.Tag(go2sky.TagDBInstance, h.opts.Db)
	span.Tag(go2sky.TagDBType, "Redis")
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return nCtx, err
}
""","""	stmt := cmd.Name()
	if h.opts.reportArgs {
		stmt = cmd.String()
	}
	h.label(span, stmt)
	return nCtx, nil
}

func (h *tracerHook) label(span go2sky.Span, stmt string) {
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	span.Tag(go2sky.TagDBType, "Redis")
	span.Tag(go2sky.TagDBInstance, h.opts.Db)
	span.Tag(go2sky.TagDBStatement, stmt)
}
"""),(SR,"""		span.Tag(go2sky.TagDBStatement, stmt)
	} else {
		span.Tag(go2sky.TagDBStatement, opName)
	}
	span.Tag(go2sky.TagDBInstance, h.opts.Db)
	span.Tag(go2sky.TagDBType, "Redis")
	span.SetComponent(componentID)
	span.SetSpanLayer(agentv3.SpanLayer_Cache)
	return nCtx, err

}
""","""		h.label(span, stmt)
	} else {
		h.label(span, opName)
	}
	return nCtx, nil
}
"""))
r('sk-join','C30',(SR,"""	sb := &strings.Builder{}
	for i, obj := range objs {
		sb.WriteString(stringer(obj))
		if i < len(objs)-1 {
			sb.WriteString(sep)
		}
	}
	return sb.String()
}
""","""	parts := make([]string, len(objs))
	for i, obj := range objs {
		parts[i] = stringer(obj)
	}
	return strings.Join(parts, sep)
}
"""))
r('sk-join2','C30',(SR,"""	for i, obj := range objs {
		sb.WriteString(stringer(obj))
		if i < len(objs)-1 {
			sb.WriteString(sep)
		}
	}
	return sb.String()
}
""","""	for i := 0; i < len(objs); i++ {
		if i > 0 {
			sb.WriteString(sep)
		}
		sb.WriteString(stringer(objs[i]))
	}
	return sb.String()
}
"""))
r('sk-err','C30',(SR,"""	sb := &strings.Builder{}
	for _, obj := range objs {
		cmdErr := obj.Err()
		if cmdErr != nil {
			failed = true
			if sb.Len() > 0 {
				sb.WriteString(sep)
			}
			sb.WriteString(cmdErr.Error())
		}
	}
	return sb.String(), failed
}
""","""	texts := make([]string, 0)
	for _, obj := range objs {
		if e := obj.Err(); e != nil {
			texts = append(texts, e.Error())
		}
	}
	return strings.Join(texts, sep), len(texts) > 0
}
"""))
r('sk-end','C30',(SR,"""	span := go2sky.ActiveSpan(ctx)
	if span == nil {
		return nil
	}
	cmdErr := cmd.Err()
	if cmdErr != nil {
		now := time.Now()
		if h.opts.logError {
			span.Error(now, cmdErr.Error())
		} else {
			span.Error(now)
		}
	}
	span.End()
	return nil
}
""","""	if span := go2sky.ActiveSpan(ctx); span != nil {
		defer span.End()
		if cmdErr := cmd.Err(); cmdErr != nil {
			h.reportError(span, cmdErr.Error())
		}
	}
	return nil
}

func (h *tracerHook) reportError(span go2sky.Span, text string) {
	if !h.opts.logError {
		span.Error(time.Now())
		return
	}
	span.Error(time.Now(), text)
}
"""),(SR,"""		now := time.Now()
		if h.opts.logError {
			span.Error(now, errs)
		} else {
			span.Error(now)
		}
""","		h.reportError(span, errs)\n"))
r('sk-variadic','C30',(SR,"""		now := time.Now()
		if h.opts.logError {
			span.Error(now, errs)
		} else {
			span.Error(now)
		}
""","""		var texts []string
		if h.opts.logError {
			texts = append(texts, errs)
		}
		span.Error(time.Now(), texts...)
"""))
MID="""		handlerErr := rCtx.Next()
		if err = handlerErr; err != nil {
			if options.logError {
				span.Error(time.Now(), err.Error())
			} else {
				span.Error(time.Now())
			}
		} else if err = rCtx.Err(); err != nil {
			if options.logError {
				span.Error(time.Now(), err.Error())
			} else {
				span.Error(time.Now())
			}
		} else if rCtx.Response.StatusCode() >= 400 {
			if options.log4xxBody {
				span.Error(time.Now(), string(rCtx.Response.Body()))
			} else {
				span.Error(time.Now())
			}
		}
		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
		span.End()
		return handlerErr
	}

}
"""
r('mw-helper','C31',(SM,MID,"""		handlerErr := rCtx.Next()
		options.finish(rCtx, span, handlerErr)
		return handlerErr
	}

}

func (o *options) finish(rCtx *routing.Context, span go2sky.Span, err error) {
	if err == nil {
		err = rCtx.Err()
	}
	switch status := rCtx.Response.StatusCode(); {
	case err != nil && o.logError:
		span.Error(time.Now(), err.Error())
	case err != nil:
		span.Error(time.Now())
	case status >= 400 && o.log4xxBody:
		span.Error(time.Now(), string(rCtx.Response.Body()))
	case status >= 400:
		span.Error(time.Now())
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
	span.End()
}
"""))
r('mw-tag','C31',(SM,MID,"""		handlerErr := rCtx.Next()
		status := rCtx.Response.StatusCode()
		span.Tag(go2sky.TagStatusCode, strconv.Itoa(status))
		err = handlerErr
		if err == nil {
			err = rCtx.Err()
		}
		if err != nil {
			markFailed(span, options.logError, err.Error())
		} else if status >= fasthttp.StatusBadRequest {
			markFailed(span, options.log4xxBody, string(rCtx.Response.Body()))
		}
		span.End()
		return handlerErr
	}

}

func markFailed(span go2sky.Span, detailed bool, text string) {
	if detailed {
		span.Error(time.Now(), text)
	} else {
		span.Error(time.Now())
	}
}
"""),(SM,'	routing "github','	"github.com/valyala/fasthttp"\n	routing "github'))
r('mw-label','C31',(SM,"""		span.SetComponent(componentIDGoHttpServer)
		span.Tag(go2sky.TagHTTPMethod, string(rCtx.RequestCtx.Method()))
		span.Tag(go2sky.TagURL, rCtx.RequestCtx.URI().String())
		span.SetSpanLayer(agentv3.SpanLayer_Http)

		SetSwContext(rCtx, spanCtx)
""","""		SetSwContext(rCtx, spanCtx)
		labelSpan(span, rCtx)
"""),(SM,"func NewMiddleware(","""func labelSpan(span go2sky.Span, rCtx *routing.Context) {
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	span.SetComponent(componentIDGoHttpServer)
	span.Tag(go2sky.TagURL, rCtx.URI().String())
	span.Tag(go2sky.TagHTTPMethod, string(rCtx.Method()))
}

func NewMiddleware("""))
r('cs-end','C31',(SC,"""	if res.StatusCode() >= 400 {
		if fc.options.log4xxBody {
			span.Error(time.Now(), string(res.Body()))
		} else {
			span.Error(time.Now())
		}
	}
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(res.StatusCode()))
	span.End()
}
""","""	defer span.End()
	code := res.StatusCode()
	span.Tag(go2sky.TagStatusCode, strconv.Itoa(code))
	if code < 400 {
		return
	}
	var detail []string
	if fc.options.log4xxBody {
		detail = []string{string(res.Body())}
	}
	span.Error(time.Now(), detail...)
}
"""))
r('cs-create','C31',(SC,"""	if err != nil {
		return
	}
	span.SetComponent(componentIDGoHttpClient)
	span.Tag(go2sky.TagHTTPMethod, string(req.Header.Method()))
	span.Tag(go2sky.TagURL, req.URI().String())
	span.SetSpanLayer(agentv3.SpanLayer_Http)
	return
}
""","""	if err == nil {
		span.SetSpanLayer(agentv3.SpanLayer_Http)
		span.SetComponent(componentIDGoHttpClient)
		span.Tag(go2sky.TagURL, req.URI().String())
		span.Tag(go2sky.TagHTTPMethod, string(req.Header.Method()))
	}
	return span, err
}
"""),(SC,"""		reqHeader := &req.Header
		reqHeader.Set(headerKey, headerValue)
""","""		req.Header.Set(headerKey, headerValue)
"""),(SC,"""	if fc.tracer == nil {
		return
	}
""","""	if fc.tracer == nil {
		return nil, nil
	}
"""))
r('rs-decode','C32',(RS,"""	block, _ := pem.Decode(pemBytes)
	if block == nil {
		return nil, errors.New("invalid RSA PRIVATE KEY")
	}
	if block.Type != "RSA PRIVATE KEY" {
		return nil, errors.New("expected type: RSA PRIVATE KEY, got: " + block.Type)
	}
	return x509.ParsePKCS1PrivateKey(block.Bytes)
""","""	block, err := decodePem(pemBytes, "RSA PRIVATE KEY")
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(block.Bytes)
"""),(RS,"""	block, _ := pem.Decode(pemBytes)
	if block == nil {
		return nil, errors.New("invalid PUBLIC KEY")
	}
	if block.Type != "PUBLIC KEY" {
		return nil, errors.New("expected type: RSA PUBLIC KEY, got: " + block.Type)
	}
	pub, err :=""","""	block, err := decodePem(pemBytes, "PUBLIC KEY")
	if err != nil {
		return nil, err
	}
	pub, err :="""),(RS,"""	block, _ := pem.Decode(pemBytes)
	if block == nil {
		return nil, errors.New("invalid CERTIFICATE")
	}
	if block.Type != "CERTIFICATE" {
		return nil, errors.New("expected type: X509 CERTIFICATE, got: " + block.Type)
	}
	cert, err := x509.ParseCertificate(block.Bytes)
	if err != nil {
		return nil, err
	}
	return cert, nil
}
""","""	block, err := decodePem(pemBytes, "CERTIFICATE")
	if err != nil {
		return nil, err
	}
	return x509.ParseCertificate(block.Bytes)
}

func decodePem(pemBytes []byte, typ string) (*pem.Block, error) {
	block, _ := pem.Decode(pemBytes)
	switch {
	case block == nil:
		return nil, errors.New("invalid " + typ)
	case block.Type != typ:
		return nil, fmt.Errorf("expected type: %s, got: %s", typ, block.Type)
	}
	return block, nil
}
"""))
r('rs-norm','C32',(RS,"""	if strings.Index(pemStr, "-----BEGIN") == -1 || strings.Index(pemStr, "-----END") == -1 {
		pemStr = fmt.Sprintf("-----BEGIN %s-----\\n%s\\n-----END %s-----", typ, pemStr, typ)
	}
	return pemStr
""","""	if strings.Contains(pemStr, "-----BEGIN") && strings.Contains(pemStr, "-----END") {
		return pemStr
	}
	return "-----BEGIN " + typ + "-----\\n" + pemStr + "\\n-----END " + typ + "-----"
"""),(RS,'	"fmt"\n',''))
r('rs-sw','C32',(RS,"""	rsaPub, ok := pub.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("not RSA PUBLIC KEY")
	}
	return rsaPub, nil
""","""	switch key := pub.(type) {
	case *rsa.PublicKey:
		return key, nil
	default:
		return nil, errors.New("not RSA PUBLIC KEY")
	}
"""),(RS,"""	p, err := ReadPrivateKey(pem)
	if err != nil {
		panic(err)
	}
	return p
""","	return MustReadPrivateKeyBytes([]byte(normalizePem(pem, \"RSA PRIVATE KEY\")))\n"))

r('sk-eager','C30',(SR,"""	if h.opts.reportArgs {
		span.Tag(go2sky.TagDBStatement, cmd.String())
	} else {
		span.Tag(go2sky.TagDBStatement, cmd.Name())
	}
""","""	stmt := cmd.String()
	if !h.opts.reportArgs {
		stmt = cmd.Name()
	}
	span.Tag(go2sky.TagDBStatement, stmt)
"""))
r('sk-append','C30',(SR,"""	sb := &strings.Builder{}
	for i, obj := range objs {
		sb.WriteString(stringer(obj))
		if i < len(objs)-1 {
			sb.WriteString(sep)
		}
	}
	return sb.String()
}
""","""	var parts []string
	for _, obj := range objs {
		parts = append(parts, stringer(obj))
	}
	return strings.Join(parts, sep)
}
"""))
r('sk-plus','C30',(SR,"""	sb := &strings.Builder{}
	for i, obj := range objs {
		sb.WriteString(stringer(obj))
		if i < len(objs)-1 {
			sb.WriteString(sep)
		}
	}
	return sb.String()
}
""","""	joined := ""
	for i, obj := range objs {
		if i > 0 {
			joined += sep
		}
		joined += stringer(obj)
	}
	return joined
}
"""))
r('cn-cut','C28',(OR,loop("options"),"""		for _, str := range strings.Split(conf.Params, "&") {
			name, value, ok := strings.Cut(str, "=")
			if !ok || strings.Contains(value, "=") {
				continue
			}
			if unescape, err := url.QueryUnescape(value); err == nil {
				options[name] = unescape
			}
		}
"""))
