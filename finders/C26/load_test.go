// verif-pkg: conf
package conf

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

type verifSection struct {
	Note string
	Size int
	Deep struct{ Word string }
}

type VerifEmbedded struct{ Extra uint64 }

type verifConf struct {
	Name          string
	Title         *string
	Count         int
	Large         *int64
	Ratio         float64
	On            bool
	Wait          time.Duration
	Plain         verifSection
	Held          *verifSection
	VerifEmbedded `yaml:",inline"`
}

// one field: its names, and its text for the three sources
type verifField struct {
	yaml, env, flag string
	get             func(c *verifConf) string
	kind            int // 0 text, 1 number, 2 fraction, 3 truth, 4 duration, 5 positive number
}

var verifFields = []verifField{
	{"name", "NAME", "name", func(c *verifConf) string { return c.Name }, 0},
	{"title", "TITLE", "title", func(c *verifConf) string { return *c.Title }, 0},
	{"count", "COUNT", "count", func(c *verifConf) string { return fmt.Sprint(c.Count) }, 1},
	{"large", "LARGE", "large", func(c *verifConf) string { return fmt.Sprint(*c.Large) }, 1},
	{"ratio", "RATIO", "ratio", func(c *verifConf) string { return fmt.Sprint(c.Ratio) }, 2},
	{"on", "ON", "on", func(c *verifConf) string { return fmt.Sprint(c.On) }, 3},
	{"wait", "WAIT", "wait", func(c *verifConf) string { return c.Wait.String() }, 4},
	{"plain.note", "PLAIN_NOTE", "plain-note", func(c *verifConf) string { return c.Plain.Note }, 0},
	{"plain.size", "PLAIN_SIZE", "plain-size", func(c *verifConf) string { return fmt.Sprint(c.Plain.Size) }, 1},
	{"plain.deep.word", "PLAIN_DEEP_WORD", "plain-deep-word", func(c *verifConf) string { return c.Plain.Deep.Word }, 0},
	{"held.note", "HELD_NOTE", "held-note", func(c *verifConf) string { return c.Held.Note }, 0},
	{"held.size", "HELD_SIZE", "held-size", func(c *verifConf) string { return fmt.Sprint(c.Held.Size) }, 1},
	{"held.deep.word", "HELD_DEEP_WORD", "held-deep-word", func(c *verifConf) string { return c.Held.Deep.Word }, 0},
	{"extra", "EXTRA", "extra", func(c *verifConf) string { return fmt.Sprint(c.Extra) }, 5},
}

func verifValue(v *verifRun, kind int) string {
	switch kind {
	case 0:
		return []string{"abc", "x y", "z-1", "Q", "longer text"}[v.Intn(5)]
	case 1:
		return fmt.Sprint(v.Intn(2000) - 1000)
	case 2:
		return fmt.Sprint(float64(v.Intn(2000))/8 + 0.125)
	case 3:
		return fmt.Sprint(v.chance(0.5))
	case 4:
		return (time.Duration(v.Intn(100)+1) * time.Second).String()
	}
	return fmt.Sprint(v.Intn(1000))
}

type verifJob struct {
	Args   []string
	Preset []string // Name, Plain.Note, Held.Note when Held is given
	Held   bool
	File   string // name of the flag
	Out    string
}

func verifChild() {
	var j verifJob
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_LOAD_CHILD")), &j); err != nil {
		os.Exit(9)
	}
	os.Args = append([]string{"prog"}, j.Args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.ExitOnError)
	c := &verifConf{Name: j.Preset[0]}
	c.Plain.Note = j.Preset[1]
	if j.Held {
		c.Held = &verifSection{Note: j.Preset[2]}
	}
	Load(c, j.File)
	var out []string
	for _, f := range verifFields {
		out = append(out, f.get(c))
	}
	b, _ := json.Marshal(out)
	ioutil.WriteFile(j.Out, b, 0600)
	os.Exit(0)
}

func TestVerifLoad(t *testing.T) {
	if os.Getenv("VERIF_LOAD_CHILD") != "" {
		verifChild()
	}
	self, err := os.Executable()
	if err != nil {
		t.Skip(err)
	}
	dir, err := ioutil.TempDir("", "verifload")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	for _, n := range []string{"conf.yaml", "config.yaml", "app.yaml", "application.yaml"} {
		ioutil.WriteFile(filepath.Join(dir, n), []byte("name: nobody asked\n"), 0600)
	}
	verifSearch(t, 0.9, func(v *verifRun) string {
		j := verifJob{Out: filepath.Join(dir, "out"), Preset: []string{"preset", "", "held"}, Held: v.chance(0.5)}
		os.Remove(j.Out)
		if v.chance(0.5) {
			j.Preset[1] = "plain"
		}
		want := []string{"preset", "", "0", "0", "0", "false", "0s", j.Preset[1], "0", "", "", "0", "", "0"}
		if j.Held {
			want[10] = "held"
		}
		fails := ""
		doc := map[string]interface{}{}
		env := []string{"PATH=" + os.Getenv("PATH"), "VERIF_REPLAY=", "VERIF_COUNT="}
		useFile, hasFile := v.chance(0.8), v.chance(0.8)
		if useFile {
			j.File = "config"
		}
		for i, f := range verifFields {
			pick := v.Intn(8)
			if pick&1 != 0 && useFile && hasFile {
				x := verifValue(v, f.kind)
				m := doc
				ks := strings.Split(f.yaml, ".")
				for _, k := range ks[:len(ks)-1] {
					if m[k] == nil {
						m[k] = map[string]interface{}{}
					}
					m = m[k].(map[string]interface{})
				}
				if f.kind == 0 || f.kind == 4 {
					m[ks[len(ks)-1]] = x
				} else {
					m[ks[len(ks)-1]] = json.RawMessage(x)
				}
				want[i] = x
			}
			if pick&2 != 0 {
				x := verifValue(v, f.kind)
				if v.chance(0.06) {
					x = ""
				}
				env = append(env, f.env+"="+x)
				want[i] = x
				if x == "" && f.kind != 0 {
					fails = "an environment variable"
				}
			}
			if pick&4 != 0 && v.chance(0.7) {
				x := verifValue(v, f.kind)
				if f.kind == 0 && v.chance(0.1) {
					x = ""
				}
				j.Args = append(j.Args, "-"+f.flag+"="+x)
				want[i] = x
			}
		}
		if v.chance(0.05) {
			j.Args = append(j.Args, "-count=many")
			fails = "a flag"
		}
		if useFile && hasFile {
			b, _ := json.MarshalIndent(doc, "", " ")
			if v.chance(0.05) {
				b = []byte("count: [1")
				fails = "the file"
			}
			n := filepath.Join(dir, "c.yaml")
			if v.chance(0.05) {
				n = filepath.Join(dir, "missing.yaml")
				fails = "the file"
			}
			ioutil.WriteFile(filepath.Join(dir, "c.yaml"), b, 0600)
			at := v.Intn(len(j.Args) + 1)
			j.Args = append(j.Args[:at:at], append([]string{"-config=" + n}, j.Args[at:]...)...)
			v.log("file: %s", b)
		}
		b, _ := json.Marshal(j)
		v.log("environment: %q", env[3:])
		v.log("arguments: %q", j.Args)
		cmd := exec.Command(self, "-test.run=^TestVerifLoad$")
		cmd.Dir = dir
		cmd.Env = append(env, "VERIF_LOAD_CHILD="+string(b))
		text, err := cmd.CombinedOutput()
		code := 0
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		} else if err != nil {
			return ""
		}
		if fails != "" {
			if code != 2 {
				return fmt.Sprintf("%s is wrong, and the program ends with status %d: %s", fails, code, text)
			}
			if len(strings.TrimSpace(string(text))) == 0 {
				return fails + " is wrong, and no error is printed"
			}
			return ""
		}
		if code != 0 {
			return fmt.Sprintf("loading ends with status %d: %s", code, text)
		}
		out, err := ioutil.ReadFile(j.Out)
		if err != nil {
			return ""
		}
		var got []string
		json.Unmarshal(out, &got)
		for i, f := range verifFields {
			if got[i] != want[i] {
				return fmt.Sprintf("the field %s is %q, not %q", f.yaml, got[i], want[i])
			}
		}
		return ""
	})
}
