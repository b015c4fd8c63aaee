// verif-pkg: confs
package confs

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func TestVerifPprof(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	verifSearch(t, 0.9, func(v *verifRun) string {
		conf := &PprofConf{Username: verifText(v, "ab ", 2), Password: verifText(v, "xy: ", 3)}
		if v.chance(0.15) {
			conf.Username = ""
		}
		if v.chance(0.15) {
			conf.Password = ""
		}
		set := conf.Username != "" && conf.Password != ""
		user, pass := conf.Username, conf.Password
		switch v.Intn(10) {
		case 0:
			user = verifText(v, "ab", 2)
		case 1:
			pass = verifText(v, "xy:", 3)
		case 2:
			pass += verifText(v, ":x ", 1)
		case 3:
			if len(pass) > 0 {
				pass = pass[:len(pass)-1]
			}
		case 4:
			user, pass = pass, user
		case 5:
			user, pass = strings.ToUpper(user), pass
		case 6:
			pass += []string{"\n", " ", "\r\n", "\t", "\x00"}[v.Intn(5)]
		case 7:
			if v.chance(0.5) {
				user = []string{"\n", " ", "\t"}[v.Intn(3)] + user
			} else {
				pass = []string{"\n", " ", "\t"}[v.Intn(3)] + pass
			}
		}
		auth := base64.StdEncoding.EncodeToString([]byte(user + ":" + pass))
		match := user == conf.Username && pass == conf.Password
		if strings.Contains(user, ":") {
			i := strings.Index(user+":"+pass, ":")
			match = (user + ":" + pass)[:i] == conf.Username && (user + ":" + pass)[i+1:] == conf.Password
		}
		header := true
		prefix := "Basic "
		switch v.Intn(9) {
		case 0:
			prefix = ""
		case 1:
			header, match = false, false
		case 2:
			auth = base64.StdEncoding.EncodeToString([]byte(user + pass))
			i := strings.Index(user+pass, ":")
			match = i >= 0 && (user + pass)[:i] == conf.Username && (user + pass)[i+1:] == conf.Password
		case 3:
			auth, match = "!"+auth, false
		case 4:
			prefix, match = []string{"Bearer ", "basic", "Digest "}[v.Intn(3)], false
		case 5:
			auth, match = "", false
		}
		v.log("configured %q:%q, the request carries %v %q (%q:%q)", conf.Username, conf.Password, header, prefix+auth, user, pass)
		// fasthttp
		var req fasthttp.Request
		req.SetRequestURI("/debug/pprof/cmdline")
		if header {
			req.Header.Set("Authorization", prefix+auth)
		}
		var ctx fasthttp.RequestCtx
		ctx.Init(&req, nil, nil)
		h := NewFasthttpRoutingPprofHandler(conf)
		err := h(&routing.Context{RequestCtx: &ctx})
		served := len(ctx.Response.Body()) > 0
		status := ctx.Response.StatusCode()
		challenge := len(ctx.Response.Header.Peek("WWW-Authenticate")) > 0
		if want := set && match; served != want {
			return fmt.Sprintf("fasthttp: a profile is served: %v (status %d, error %v)", served, status, err)
		}
		if set && !match && (status != 401 || !challenge) {
			return fmt.Sprintf("fasthttp: refused with status %d, challenge %v", status, challenge)
		}
		if set && match && status != 200 {
			return fmt.Sprintf("fasthttp: served with status %d", status)
		}
		// gin
		next := 0
		e := gin.New()
		e.GET("/debug", NewGinPprofBasicAuthFilter(conf), func(c *gin.Context) { next++ })
		r := httptest.NewRequest("GET", "/debug", nil)
		if header {
			r.Header.Set("Authorization", prefix+auth)
		}
		w := httptest.NewRecorder()
		e.ServeHTTP(w, r)
		if !set {
			if next != 0 || w.Code != http.StatusNotFound {
				return fmt.Sprintf("gin: without credentials the chain goes on %d times, status %d", next, w.Code)
			}
			return ""
		}
		if prefix != "" && (next == 1) != match {
			return fmt.Sprintf("gin: the chain goes on %d times, status %d", next, w.Code)
		}
		if prefix == "" && next != 0 {
			return fmt.Sprintf("gin: the chain goes on %d times for a header without Basic", next)
		}
		return ""
	})
}
