property C27
pkgs ./confs ./skywalking
# a labelled value, between the delimiters of the printed form
spec at(l, t) = contains(r, "{" + l + t + ",") || contains(r, ", " + l + t + ",") || contains(r, ", " + l + t + "}")
spec shows(l, t) = at(l + ": ", t) || at(l + ":", t)
spec duration(d) = ext("time.Duration.String", d)
spec flag(b) = ite(b, "true", "false")

func confs.(*MysqlConf).String()(r) {
  ensures[the same whatever the password and username] independent(r, self.Password, self.Username)
  ensures[Host is shown] shows("Host", self.Host)
  ensures[Port is shown] shows("Port", itoa(self.Port))
  ensures[Database is shown] shows("Database", self.Database)
  ensures[MaxOpenConns is shown] shows("MaxOpenConns", itoa(self.MaxOpenConns))
  ensures[MaxIdleConns is shown] shows("MaxIdleConns", itoa(self.MaxIdleConns))
  ensures[ConnMaxLifetime is shown] shows("ConnMaxLifetime", duration(self.ConnMaxLifetime))
  ensures[ReadTimeout is shown] shows("ReadTimeout", duration(self.ReadTimeout))
  ensures[WriteTimeout is shown] shows("WriteTimeout", duration(self.WriteTimeout))
  ensures[Timeout is shown] shows("Timeout", duration(self.Timeout))
  ensures[Loc is shown] shows("Loc", self.Loc)
  ensures[ParseTime is shown] shows("ParseTime", flag(self.ParseTime))
  ensures[Params is shown] shows("Params", self.Params)
}
func confs.(*OracleConf).String()(r) {
  ensures[the same whatever the password and username] independent(r, self.Password, self.Username)
  ensures[Host is shown] shows("Host", self.Host)
  ensures[Port is shown] shows("Port", itoa(self.Port))
  ensures[Service is shown] shows("Service", self.Service)
  ensures[Sid is shown] shows("Sid", self.Sid)
  ensures[Servers is shown] shows("Servers", self.Servers)
  ensures[MaxOpenConns is shown] shows("MaxOpenConns", itoa(self.MaxOpenConns))
  ensures[MaxIdleConns is shown] shows("MaxIdleConns", itoa(self.MaxIdleConns))
  ensures[ConnMaxLifetime is shown] shows("ConnMaxLifetime", duration(self.ConnMaxLifetime))
  ensures[ConnectTimeout is shown] shows("ConnectTimeout", itoa(self.ConnectTimeout))
  ensures[Params is shown] shows("Params", self.Params)
}
func confs.(*PostgresqlConf).String()(r) {
  ensures[the same whatever the password and username] independent(r, self.Password, self.Username)
  ensures[Host is shown] shows("Host", self.Host)
  ensures[Port is shown] shows("Port", itoa(self.Port))
  ensures[Database is shown] shows("Database", self.Database)
  ensures[MaxOpenConns is shown] shows("MaxOpenConns", itoa(self.MaxOpenConns))
  ensures[MaxIdleConns is shown] shows("MaxIdleConns", itoa(self.MaxIdleConns))
  ensures[ConnMaxLifetime is shown] shows("ConnMaxLifetime", duration(self.ConnMaxLifetime))
  ensures[ConnectTimeout is shown] shows("ConnectTimeout", itoa(self.ConnectTimeout))
  ensures[Params is shown] shows("Params", self.Params)
}
func confs.(*RedisConf).String()(r) {
  ensures[the same whatever the password] independent(r, self.Password)
  ensures[Host is shown] shows("Host", self.Host)
  ensures[Port is shown] shows("Port", itoa(self.Port))
  ensures[Pool is shown] shows("Pool", itoa(self.Pool))
  ensures[MinIdle is shown] shows("MinIdle", itoa(self.MinIdle))
}
func confs.(*EsConf).String()(r) {
  ensures[the same whatever the password and username] independent(r, self.Password, self.Username)
  ensures[Addrs is shown] shows("Addrs", self.Addrs)
  ensures[MaxConnsPerHost is shown] shows("MaxConnsPerHost", itoa(self.MaxConnsPerHost))
  ensures[MaxIdleConnsPerHost is shown] shows("MaxIdleConnsPerHost", itoa(self.MaxIdleConnsPerHost))
}
func confs.(*PprofConf).String()(r) {
  ensures[the same whatever the password and username] independent(r, self.Password, self.Username)
  ensures[BlockProfileRate is shown] shows("BlockProfileRate", itoa(self.BlockProfileRate))
  ensures[MutexProfileFraction is shown] shows("MutexProfileFraction", itoa(self.MutexProfileFraction))
}
func confs.(*FastHttpClientConf).String()(r) {
  ensures[CertChain is shown] shows("CertChain", self.CertChain)
  ensures[PrivateKey is shown] shows("PrivateKey", self.PrivateKey)
  ensures[SslTrustMode is shown] shows("SslTrustMode", self.SslTrustMode)
  ensures[SslTrustCerts is shown] shows("SslTrustCerts", self.SslTrustCerts)
  ensures[ReadTimeout is shown] shows("ReadTimeout", duration(self.ReadTimeout))
  ensures[WriteTimeout is shown] shows("WriteTimeout", duration(self.WriteTimeout))
  ensures[MaxConnDuration is shown] shows("MaxConnDuration", duration(self.MaxConnDuration))
  ensures[MaxConnsPerHost is shown] shows("MaxConnsPerHost", itoa(self.MaxConnsPerHost))
  ensures[MaxIdleConnDuration is shown] shows("MaxIdleConnDuration", duration(self.MaxIdleConnDuration))
  ensures[MaxConnWaitTimeout is shown] shows("MaxConnWaitTimeout", duration(self.MaxConnWaitTimeout))
}
func skywalking.(*Conf).String()(r) {
  ensures[ServerAddr is shown] shows("ServerAddr", self.ServerAddr)
  ensures[ServiceName is shown] shows("ServiceName", self.ServiceName)
  ensures[ServiceInstance is shown] shows("ServiceInstance", self.ServiceInstance)
  ensures[ServiceNamespace is shown] shows("ServiceNamespace", self.ServiceNamespace)
}
