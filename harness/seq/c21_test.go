package zzverif

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/rs/zerolog"

	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/pkg/logger"
)

// C21: the configuration decides the ports, the banner and what is logged where.
//
// Three spaces: the logging set-up itself (every sink combination x level x format x directory), the
// reading of a configuration file (every leaf, every switch, in a fresh process each), and the real
// server program started with a configuration.

func init() {
	register("C21", "logging", false, c21Logging)
	register("C21", "rolling", false, c21Rolling)
	register("C21", "file", false, c21File)
	register("C21", "program", false, c21Program)
}

var c21Levels = []zerolog.Level{zerolog.DebugLevel, zerolog.InfoLevel, zerolog.WarnLevel, zerolog.ErrorLevel, zerolog.FatalLevel}
var c21Names = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

func c21Dir() string {
	d, err := os.MkdirTemp("", "verif-c21-")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return d
}

// c21Marks returns the marks of our records in a log text, in order, with their levels; bad is the
// first line of ours that is not in the expected format.
func c21Marks(text string, asJSON bool) (out []string, bad string) {
	for _, l := range strings.Split(text, "\n") {
		i := strings.Index(l, "mark-")
		if i < 0 {
			continue
		}
		var m map[string]any
		isJSON := json.Unmarshal([]byte(l), &m) == nil
		if isJSON != asJSON && bad == "" {
			bad = l
		}
		id := l[i+5:]
		n := 0
		for n < len(id) && (id[n] >= '0' && id[n] <= '9') {
			n++
		}
		lv := "?"
		for _, s := range c21Names {
			if isJSON && strings.EqualFold(fmt.Sprint(m["level"]), s) || !isJSON && strings.Contains(strings.ToUpper(l[:i]), s) {
				lv = s
			}
		}
		out = append(out, id[:n]+lv)
	}
	return
}

func c21Logging(cx *Ctx) {
	dirs := []string{"there", "new", "new/a/b", "new/", "blocked"}
	for _, level := range c21Levels {
		for sw := 0; sw < 8; sw++ {
			for _, dir := range dirs {
				for _, name := range []string{"x.log", "日志"} {
					for rounds := 1; rounds <= 2; rounds++ {
						if !cx.Case("logging") {
							continue
						}
						c21LogCase(cx, level, sw&1 != 0, sw&2 != 0, sw&4 != 0, dir, name, rounds)
					}
				}
			}
		}
	}
}

func c21LogCase(cx *Ctx, level zerolog.Level, console, file, asJSON bool, dir, name string, rounds int) {
	cx.curDesc = fmt.Sprintf("level=%v console=%v file=%v json=%v dir=%s name=%s configured %d time(s)", level, console, file, asJSON, dir, name, rounds)
	base := c21Dir()
	defer os.RemoveAll(base)
	os.Mkdir(base+"/there", 0o755)
	os.WriteFile(base+"/blocked", nil, 0o644)
	ef, err := os.Create(base + "/stderr")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	keep := os.Stderr
	os.Stderr = ef
	var want []string
	func() {
		defer func() {
			os.Stderr = keep
			ef.Close()
			if p := recover(); p != nil {
				cx.Fail("C21", "setting up logging panics: %v", p)
			}
		}()
		for r := 0; r < rounds; r++ {
			lg := logger.Configure(&logger.Config{ConsoleLoggingEnabled: console, FileLoggingEnabled: file, EncodeLogsAsJSON: asJSON,
				LogLevel: int8(level), Directory: base + "/" + dir, Filename: name, MaxSize: 1, MaxBackups: 1, MaxAge: 1})
			n := 0
			for rep := 0; rep < 2; rep++ {
				for i, l := range c21Levels {
					n++
					id := r*100 + n
					lg.WithLevel(l).Str("text", "a\nb\"c 中").Int("n", i).Msgf("mark-%d", id)
					// WithLevel does not apply the logger's level to fatal records, the harness uses it below that
					if l >= level {
						want = append(want, strconv.Itoa(id)+c21Names[i])
					}
					cx.step()
				}
			}
		}
	}()
	if cx.failed {
		return
	}
	cx.state(fmt.Sprint(level, console, file, asJSON, dir == "blocked", want))
	eb, _ := os.ReadFile(base + "/stderr")
	got, _ := c21Marks(string(eb), false)
	if console {
		if !reflect.DeepEqual(got, want) {
			cx.Fail("C21", "console shows records %v, expected %v", got, want)
		}
	} else if len(got) > 0 {
		cx.Fail("C21", "console output is disabled but shows %v", got)
	}
	p := filepath.Join(base, dir, name)
	fb, err := os.ReadFile(p)
	if file && dir != "blocked" {
		got, bad := c21Marks(string(fb), asJSON)
		if !reflect.DeepEqual(got, want) {
			cx.Fail("C21", "log file %s has records %v, expected %v (%v)", p[len(base):], got, want, err)
		} else if bad != "" {
			cx.Fail("C21", "printAsJson=%v but the log file has the line %q", asJSON, bad)
		}
	} else {
		filepath.Walk(base, func(q string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && filepath.Base(q) != "stderr" && filepath.Base(q) != "blocked" {
				cx.Fail("C21", "file logging is off (or impossible) but %s was written", q[len(base):])
			}
			return nil
		})
	}
	cx.outcome(fmt.Sprintf("%d records of %d", len(want), rounds*10))
}

// c21Rolling: file sizes, number of kept files and their age follow the configuration, and no record
// is lost while rolling.
func c21Rolling(cx *Ctx) {
	for size := 1; size <= 2; size++ {
		for backups := 1; backups <= 3; backups++ {
			for age := 2; age <= 3; age++ {
				for _, asJSON := range []bool{true, false} {
					if cx.Case("rolling") {
						c21RollCase(cx, size, backups, age, asJSON)
					}
				}
			}
		}
	}
}

func c21RollCase(cx *Ctx, size, backups, age int, asJSON bool) {
	cx.curDesc = fmt.Sprintf("maxSize=%d MB maxBackups=%d maxAge=%d days json=%v", size, backups, age, asJSON)
	base := c21Dir()
	defer os.RemoveAll(base)
	mk := func(daysAgo float64) string {
		p := base + "/r-" + time.Now().Add(-time.Duration(daysAgo*24)*time.Hour).Format("2006-01-02T15-04-05.000") + ".log"
		os.WriteFile(p, []byte("old\n"), 0o644)
		return p
	}
	young, old := mk(float64(age)-0.5), mk(float64(age)+0.5)
	lg := logger.Configure(&logger.Config{FileLoggingEnabled: true, EncodeLogsAsJSON: asJSON, Directory: base, Filename: "r.log",
		MaxSize: size, MaxBackups: backups, MaxAge: age})
	gone := func(p string) bool { _, err := os.Stat(p); return err != nil }
	lg.Info().Msg("mark-0")
	until := func(f func() bool) bool {
		for i := 0; i < 400; i++ {
			if f() {
				return true
			}
			time.Sleep(10 * time.Millisecond)
		}
		return f()
	}
	if !until(func() bool { return gone(old) }) {
		cx.Fail("C21", "a log file %v days old is kept with maxAge=%d", float64(age)+0.5, age)
	}
	if gone(young) {
		cx.Fail("C21", "a log file %v days old was removed with maxAge=%d maxBackups=%d", float64(age)-0.5, age, backups)
	}
	pad := strings.Repeat("p", 64<<10)
	total := size * (backups + 1) * 16 // as many whole files' worth; a quarter of one more
	total += size * 4
	for i := 1; i <= total; i++ {
		lg.Info().Str("pad", pad).Msgf("mark-%d", i)
		cx.step()
	}
	files := func() []string {
		m, _ := filepath.Glob(base + "/r*.log")
		return m
	}
	if !until(func() bool { return len(files()) == backups+1 }) {
		cx.Fail("C21", "%d log files are kept, expected the current one and %d earlier ones: %v", len(files()), backups, files())
		return
	}
	var all []string
	seen := map[string]bool{}
	for _, p := range files() {
		b, _ := os.ReadFile(p)
		if len(b) > size<<20 {
			cx.Fail("C21", "a log file of %d bytes with maxSize=%d MB", len(b), size)
		}
		got, _ := c21Marks(string(b), asJSON)
		for _, g := range got {
			if seen[g] {
				cx.Fail("C21", "record %s is in the logs twice", g)
			}
			seen[g] = true
		}
		all = append(all, got...)
	}
	// everything but the oldest, removed file's worth is there, without gaps, up to the last record
	for i := total; i > total-len(all); i-- {
		if i > 0 && !seen[strconv.Itoa(i)+"INFO"] {
			cx.Fail("C21", "record %d of %d is missing from the log files", i, total)
			break
		}
	}
	if len(all) < backups*size*14 {
		cx.Fail("C21", "only %d records are kept with maxSize=%d MB and maxBackups=%d", len(all), size, backups)
	}
	cx.state(fmt.Sprint(size, backups, age))
}

// ---- reading a configuration file ----

type c21Leaf struct {
	path string // dotted
	kind byte   // s string, b bool, i int, l level
}

var c21Leaves = []c21Leaf{
	{"log.consoleEnable", 'b'}, {"log.fileEnable", 'b'}, {"log.printAsJson", 'b'}, {"log.logLevel", 'l'}, {"log.logDirectory", 's'}, {"log.logFile", 's'},
	{"log.maxSizeOfRolling", 'i'}, {"log.maxBackupsOfRolling", 'i'}, {"log.maxAgeOfRolling", 'i'},
	{"server.name", 's'}, {"server.port.tcpPort", 's'}, {"server.port.udpPort", 's'}, {"server.port.httpPort", 's'},
	{"server.banner.enable", 'b'}, {"server.banner.bannerPath", 's'},
	{"client.name", 's'}, {"client.conn.remoteAddr", 's'}, {"client.concurrency", 'i'},
	{"client.device.idReg", 's'}, {"client.device.imeiReg", 's'}, {"client.device.phoneReg", 's'}, {"client.device.plateReg", 's'},
	{"client.device.protocolVersion", 's'}, {"client.device.transProto", 's'}, {"client.device.keepalive", 'i'},
	{"client.device.provinceIdReg", 's'}, {"client.device.cityIdReg", 's'}, {"client.device.plateColorReg", 's'},
	{"client.deviceGeo.locationReportInterval", 'i'},
	{"client.deviceGeo.geo.accStatusReg", 's'}, {"client.deviceGeo.geo.locationStatusReg", 's'}, {"client.deviceGeo.geo.latitudeTypeReg", 's'},
	{"client.deviceGeo.geo.longitudeTypeReg", 's'}, {"client.deviceGeo.geo.operatingStatusReg", 's'}, {"client.deviceGeo.geo.drivingStatusReg", 's'},
	{"client.deviceGeo.location.latitudeReg", 's'}, {"client.deviceGeo.location.longitudeReg", 's'}, {"client.deviceGeo.location.altitudeReg", 's'},
	{"client.deviceGeo.drive.speedReg", 's'}, {"client.deviceGeo.drive.directionReg", 's'},
}

func c21Yaml(vals map[string]any) string {
	type node struct {
		kids  map[string]*node
		order []string
		val   any
		leaf  bool
	}
	root := &node{kids: map[string]*node{}}
	for _, l := range c21Leaves {
		v, ok := vals[l.path]
		if !ok {
			continue
		}
		n := root
		for _, k := range strings.Split(l.path, ".") {
			if n.kids[k] == nil {
				n.kids[k] = &node{kids: map[string]*node{}}
				n.order = append(n.order, k)
			}
			n = n.kids[k]
		}
		n.leaf, n.val = true, v
	}
	var b strings.Builder
	var rec func(n *node, ind string)
	rec = func(n *node, ind string) {
		for _, k := range n.order {
			c := n.kids[k]
			if c.leaf {
				s, _ := json.Marshal(c.val)
				fmt.Fprintf(&b, "%s%s: %s\n", ind, k, s)
			} else {
				fmt.Fprintf(&b, "%s%s:\n", ind, k)
				rec(c, ind+"  ")
			}
		}
	}
	rec(root, "")
	return b.String()
}

func c21Default(bool1 int, level string) map[string]any {
	v := map[string]any{}
	nb := 0
	for i, l := range c21Leaves {
		switch l.kind {
		case 's':
			v[l.path] = fmt.Sprintf("v%d-%s", i, l.path)
		case 'i':
			v[l.path] = 100 + i
		case 'b':
			v[l.path] = bool1>>nb&1 == 1
			nb++
		case 'l':
			v[l.path] = level
		}
	}
	return v
}

// TestVerifChild loads one configuration file in its own process (the program loads it once only).
func TestVerifChild(t *testing.T) {
	p := os.Getenv("VCHILD")
	if p == "" {
		t.Skip()
	}
	c := config.Load(p)
	out := map[string]any{"cfg": c, "log": c.ParseLogConf(), "again": config.Load(p+".other") == c}
	b, _ := json.Marshal(out)
	os.WriteFile(os.Getenv("VCHILDOUT"), b, 0o644)
}

func c21Flatten(v any, path string, out map[string]any) {
	if m, ok := v.(map[string]any); ok {
		for k, x := range m {
			c21Flatten(x, path+"."+strings.ToLower(k), out)
		}
		return
	}
	out[strings.TrimPrefix(path, ".")] = v
}

func c21Child(cx *Ctx, conf, yaml string) (map[string]any, map[string]any, bool) {
	base := c21Dir()
	defer os.RemoveAll(base)
	p := base + "/c.yaml"
	if conf != "" {
		p = conf
	} else {
		os.WriteFile(p, []byte(yaml), 0o644)
	}
	self, err := os.Executable()
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	cmd := exec.Command(self, "-test.run", "^TestVerifChild$")
	cmd.Env = append(os.Environ(), "VCHILD="+p, "VCHILDOUT="+base+"/out", "VCHECK=")
	cmd.Dir = base
	text, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(base + "/out")
	if rerr != nil {
		cx.Fail("C21", "the configuration file is not loaded (%v): %.600s", err, text)
		return nil, nil, false
	}
	var r struct {
		Cfg   map[string]any
		Log   map[string]any
		Again bool
	}
	json.Unmarshal(b, &r)
	if !r.Again {
		cx.Fail("C21", "a second load returns another configuration than the one in force")
	}
	f := map[string]any{}
	c21Flatten(r.Cfg, "", f)
	cx.step()
	return f, r.Log, true
}

func c21File(cx *Ctx) {
	var confs []map[string]any
	for b := 0; b < 16; b++ { // all four switches
		confs = append(confs, c21Default(b, c21Names[b%5]))
	}
	for _, lv := range c21Names {
		confs = append(confs, c21Default(5, lv), c21Default(10, lv))
	}
	base := c21Default(15, "WARN")
	for _, l := range c21Leaves { // every leaf on its own with other values, and every leaf left out
		for _, v := range map[byte][]any{'s': {"", "x", "9000", "京 a:b#c", 9001}, 'i': {0, 1, 65536}, 'b': {false}, 'l': {"ERROR"}}[l.kind] {
			m := map[string]any{}
			for k, x := range base {
				m[k] = x
			}
			m[l.path] = v
			confs = append(confs, m)
		}
		m := map[string]any{}
		for k, x := range base {
			if k != l.path {
				m[k] = x
			}
		}
		confs = append(confs, m)
	}
	for _, top := range []string{"server.", "client."} { // a server's file has no client part and the reverse
		m := map[string]any{}
		for k, x := range base {
			if !strings.HasPrefix(k, top) {
				m[k] = x
			}
		}
		confs = append(confs, m)
	}
	logField := map[string]string{"log.consoleEnable": "ConsoleLoggingEnabled", "log.fileEnable": "FileLoggingEnabled", "log.printAsJson": "EncodeLogsAsJSON",
		"log.logLevel": "LogLevel", "log.logDirectory": "Directory", "log.logFile": "Filename", "log.maxSizeOfRolling": "MaxSize",
		"log.maxBackupsOfRolling": "MaxBackups", "log.maxAgeOfRolling": "MaxAge"}
	for _, m := range confs {
		if !cx.Case("file") {
			continue
		}
		y := c21Yaml(m)
		cx.curDesc = y
		flat, lg, ok := c21Child(cx, "", y)
		if !ok {
			continue
		}
		cx.state(y)
		for _, l := range c21Leaves {
			want, given := m[l.path]
			if !given {
				continue
			}
			got, there := flat[strings.ToLower(l.path)]
			if there && fmt.Sprint(got) != fmt.Sprint(want) {
				cx.Fail("C21", "%s is configured as %v but %v is in force", l.path, want, got)
			}
			if f := logField[l.path]; f != "" {
				want := fmt.Sprint(want)
				if l.kind == 'l' {
					for i, n := range c21Names {
						if n == want {
							want = strconv.Itoa(int(c21Levels[i]))
						}
					}
				}
				if got := fmt.Sprint(lg[f]); got != want {
					cx.Fail("C21", "%s is configured as %v but the logger gets %s=%v", l.path, m[l.path], f, got)
				}
			}
		}
	}
	// the embedded defaults are the documented ones
	for _, d := range []struct {
		key  string
		want map[string]string
	}{
		{config.DefaultServConfKey, map[string]string{"server.port.tcpport": "8080", "server.port.httpport": "8008", "server.port.udpport": "8081",
			"log.loglevel": "DEBUG", "log.logdirectory": "./logs/", "log.logfile": "jt808-server-go.log", "log.consoleenable": "true", "log.fileenable": "true", "server.banner.enable": "true"}},
		{config.DefaultCliConfKey, map[string]string{"log.logfile": "jt808-client-go.log", "client.concurrency": "1", "client.device.protocolversion": "2019", "client.device.keepalive": "20"}},
	} {
		if !cx.Case("defaults") {
			continue
		}
		cx.curDesc = d.key
		flat, _, ok := c21Child(cx, d.key, "")
		if !ok {
			continue
		}
		for k, v := range d.want {
			if got, there := flat[k]; there && fmt.Sprint(got) != v {
				cx.Fail("C21", "default of %s is %v, documented %s", k, got, v)
			}
		}
		cx.state(d.key)
	}
}

// ---- the program ----

func c21Port() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func c21Program(cx *Ctx) {
	if os.Getenv("VMAIN") == "" {
		return
	}
	for _, level := range c21Names {
		for sw := 0; sw < 8; sw++ {
			for banner := 0; banner < 4; banner++ {
				if banner == 3 && level != "INFO" {
					continue
				}
				if !cx.Case("program") {
					continue
				}
				cx.curDesc = fmt.Sprintf("level=%s console=%v file=%v json=%v banner=%s", level, sw&1 != 0, sw&2 != 0, sw&4 != 0, []string{"off", "own", "missing", "own, large"}[banner])
				msg := ""
				for try := 0; try < 3; try++ { // ports are taken from the system and can be lost to somebody else
					if msg = c21Run(cx, level, sw, banner, "logs/x"); msg == "" {
						break
					}
				}
				if msg != "" {
					cx.Fail("C21", "%s", msg)
				}
			}
		}
	}
	for sw := 0; sw < 8; sw++ {
		if !cx.Case("blocked-log-directory") {
			continue
		}
		cx.curDesc = fmt.Sprintf("the log directory cannot be created, console=%v file=%v json=%v", sw&1 != 0, sw&2 != 0, sw&4 != 0)
		msg := ""
		for try := 0; try < 3; try++ {
			if msg = c21Run(cx, "DEBUG", sw, 0, "blocked"); msg == "" {
				break
			}
		}
		if msg != "" {
			cx.Fail("C21", "%s", msg)
		}
	}
	// a sink that cannot be written does not keep the records from the other one
	for _, level := range []string{"DEBUG", "INFO"} {
		for _, bad := range []string{"full-console", "file-is-a-directory"} {
			for sw := 0; sw < 8; sw++ {
				if !cx.Case("failing-sink") {
					continue
				}
				cx.curDesc = fmt.Sprintf("%s level=%s console=%v file=%v json=%v", bad, level, sw&1 != 0, sw&2 != 0, sw&4 != 0)
				msg := ""
				for try := 0; try < 3; try++ {
					if msg = c21Run(cx, level, sw, 0, bad); msg == "" {
						break
					}
				}
				if msg != "" {
					cx.Fail("C21", "%s", msg)
				}
			}
		}
	}
	if cx.Case("busy-port") {
		cx.curDesc = "the terminal port is taken"
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		base := c21Dir()
		defer os.RemoveAll(base)
		m := c21Default(0, "ERROR")
		m["server.port.tcpPort"] = fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
		m["server.port.httpPort"] = fmt.Sprint(c21Port())
		os.WriteFile(base+"/c.yaml", []byte(c21Yaml(m)), 0o644)
		cmd := exec.Command(os.Getenv("VMAIN"), "-c", base+"/c.yaml")
		cmd.Dir = base
		if err := cmd.Start(); err != nil {
			panic("HARNESS: " + err.Error())
		}
		ch := make(chan error, 1)
		go func() { ch <- cmd.Wait() }()
		select {
		case err := <-ch:
			if err == nil {
				cx.Fail("C21", "the program ends successfully although it cannot listen on its port")
			}
		case <-time.After(15 * time.Second):
			cmd.Process.Kill()
			<-ch
			cx.Fail("C21", "the program keeps running although it cannot listen on its port")
		}
		l.Close()
		cx.state("busy")
	}
}

func c21Run(cx *Ctx, level string, sw, banner int, logDir string) (msg string) {
	base := c21Dir()
	defer os.RemoveAll(base)
	os.WriteFile(base+"/blocked", nil, 0o644)
	if logDir == "file-is-a-directory" {
		os.MkdirAll(base+"/"+logDir+"/s.log", 0o755)
	}
	tcp, hp := c21Port(), c21Port()
	m := c21Default(0, level)
	m["log.consoleEnable"], m["log.fileEnable"], m["log.printAsJson"] = sw&1 != 0, sw&2 != 0, sw&4 != 0
	m["log.logDirectory"], m["log.logFile"] = base+"/"+logDir, "s.log"
	m["log.maxSizeOfRolling"], m["log.maxBackupsOfRolling"], m["log.maxAgeOfRolling"] = 1, 1, 1
	m["server.port.tcpPort"], m["server.port.httpPort"] = strconv.Itoa(tcp), strconv.Itoa(hp)
	m["server.banner.enable"] = banner > 0
	m["server.banner.bannerPath"] = base + "/banner"
	text := "OWN BANNER TEXT\nsecond line"
	if banner == 3 {
		text += strings.Repeat("\nLARGE", []int{1000, 12000, 50000, 200000}[sw%4]) + "\nlast line"
	}
	if banner == 1 || banner == 3 {
		os.WriteFile(base+"/banner", []byte(text), 0o644)
	}
	os.WriteFile(base+"/c.yaml", []byte(c21Yaml(m)), 0o644)
	cmd := exec.Command(os.Getenv("VMAIN"), "-c", base+"/c.yaml")
	cmd.Dir = base
	of, _ := os.Create(base + "/out")
	ef, _ := os.Create(base + "/err")
	if logDir == "full-console" {
		ef.Close()
		if ef, _ = os.OpenFile("/dev/full", os.O_WRONLY, 0); ef == nil {
			return "" // no such device here
		}
	}
	cmd.Stdout, cmd.Stderr = of, ef
	if err := cmd.Start(); err != nil {
		panic("HARNESS: " + err.Error())
	}
	exited := make(chan struct{})
	go func() { cmd.Wait(); close(exited) }()
	defer func() {
		cmd.Process.Kill()
		<-exited
		of.Close()
		ef.Close()
	}()
	dial := func(port int) (net.Conn, error) {
		var c net.Conn
		var err error
		for i := 0; i < 500; i++ {
			if c, err = net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
				return c, nil
			}
			select {
			case <-exited:
				return nil, fmt.Errorf("the program has ended")
			case <-time.After(10 * time.Millisecond):
			}
		}
		return nil, err
	}
	tail := func() string {
		b, _ := os.ReadFile(base + "/err")
		return string(b[max(0, len(b)-700):])
	}
	c, err := dial(tcp)
	if err != nil {
		return fmt.Sprintf("no terminal service on the configured tcpPort: %v %s", err, tail())
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(15 * time.Second))
	// an unregistered terminal's frame gets an answer or not; a registration always does
	c.Write(c21Registration())
	r := bufio.NewReader(c)
	if b, err := r.ReadByte(); err != nil || b != 0x7e {
		return fmt.Sprintf("registration on the configured tcpPort is not answered: %v %v %s", b, err, tail())
	}
	if _, err := r.ReadBytes(0x7e); err != nil {
		return fmt.Sprintf("registration reply incomplete: %v", err)
	}
	hc, err := dial(hp)
	if err != nil {
		return fmt.Sprintf("no HTTP service on the configured httpPort: %v %s", err, tail())
	}
	hc.Close()
	tr := &http.Transport{DisableKeepAlives: true}
	cl := http.Client{Timeout: 10 * time.Second, Transport: tr}
	resp, err := cl.Get(fmt.Sprintf("http://127.0.0.1:%d/device", hp))
	if err != nil {
		return fmt.Sprintf("HTTP request on the configured httpPort fails: %v", err)
	}
	body, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	if resp.StatusCode != 200 || !bytes.Contains(body, []byte("013012345678")) {
		return fmt.Sprintf("GET /device answers %d %.200s", resp.StatusCode, body)
	}
	cx.step()
	// records: at DEBUG the handling of the registration is logged on every enabled sink, nothing is logged
	// below the configured level
	out, _ := os.ReadFile(base + "/out")
	errOut, _ := os.ReadFile(base + "/err")
	logb, lerr := os.ReadFile(base + "/" + logDir + "/s.log")
	if own := bytes.Contains(out, []byte(text)); own != (banner == 1 || banner == 3) {
		return fmt.Sprintf("banner enabled=%v with a banner file: shown=%v", banner > 0, own)
	}
	if std := bytes.Contains(out, []byte(strings.TrimSpace(config.BannerText))); std != (banner == 2) {
		return fmt.Sprintf("built-in banner shown=%v with banner enabled=%v and file there=%v", std, banner > 0, banner == 1)
	}
	lines := func(b []byte) (n int, worst string) {
		for _, l := range strings.Split(string(b), "\n") {
			var m map[string]any
			lv := ""
			if json.Unmarshal([]byte(l), &m) == nil {
				lv = strings.ToUpper(fmt.Sprint(m["level"]))
			} else if p := strings.SplitN(l, "|", 3); len(p) == 3 {
				lv = strings.TrimSpace(p[1])
			}
			for i, s := range c21Names {
				if lv == s {
					n++
					if i < c21Index(level) {
						worst = l
					}
				}
			}
		}
		return
	}
	fn, worst := lines(logb)
	if worst != "" {
		return fmt.Sprintf("logLevel=%s but the log file has %q", level, worst)
	}
	cn, worst := lines(errOut)
	if worst != "" {
		return fmt.Sprintf("logLevel=%s but the console shows %q", level, worst)
	}
	if sw&2 == 0 && (lerr == nil || fn > 0) {
		return "fileEnable=false but a log file was written"
	}
	if sw&1 == 0 && cn > 0 && logDir != "blocked" { // that the directory cannot be created may be said
		return "consoleEnable=false but records are shown on the console"
	}
	if level == "DEBUG" || level == "INFO" {
		if sw&2 != 0 && fn == 0 && logDir != "blocked" && logDir != "file-is-a-directory" {
			return fmt.Sprintf("logLevel=%s, fileEnable=true but nothing was logged to the file (%v)", level, lerr)
		}
		if sw&1 != 0 && cn == 0 && logDir != "full-console" {
			return fmt.Sprintf("logLevel=%s, consoleEnable=true but nothing was shown on the console", level)
		}
	}
	cx.state(fmt.Sprint(level, sw, banner, logDir, fn > 0, cn > 0))
	return ""
}

func c21Index(level string) int {
	for i, s := range c21Names {
		if s == level {
			return i
		}
	}
	return 0
}

func c21Registration() []byte {
	r := fixedReg
	r.plate = "B12345"
	return refFrame(refContent(refHdr{id: 0x0100, ver: v2013, phone: "013012345678", serial: 7}, r.body(v2013)))
}
