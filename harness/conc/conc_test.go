package zzverif

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/gin-gonic/gin"

	"github.com/fakeyanss/jt808-server-go/internal/api"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"zzs.local/zzsched"
)

// Schedule exploration: a scenario puts the real server into a state, makes several things happen at
// the same instant, and the scheduler runs all interleavings up to a preemption bound. The outcome of
// every interleaving must be one that some order of the same events, one after the other, produces.

// cw is one execution of a scenario.
type cw struct {
	cx     *Ctx
	phones []string
	plates []string
	vers   []int
	codes  map[string]string
	conns  []*wConn
	sn     uint16
	bad    string
	t0     time.Time
	nloc   uint32
	api    []*apiCall
	nums   []uint16
	sess   *model.Session
}

type apiCall struct {
	name string
	rec  *httptest.ResponseRecorder
	done bool
}

type cev struct {
	name string
	key  string // events with the same key keep their order
	do   func(x *cw)
}

type scen struct {
	name  string
	setup func(x *cw)
	evs   []cev
	bound int                  // preemption bound (quick), one more when thorough
	obs   func(x *cw) []string // nil: everything
	later bool                 // observe again after time has passed
	check func(x *cw) string   // additional assertion on every execution
	lin   bool                 // compare with the sequential outcomes
	allow func(o string, allowed map[string]bool) bool
}

func newCw(cx *Ctx, vers ...int) *cw {
	x := &cw{cx: cx, vers: vers, codes: map[string]string{}, sn: 0x100, t0: time.Now()}
	for _, v := range vers {
		x.phones = append(x.phones, newPhone(v))
		x.plates = append(x.plates, newPlate())
	}
	x.plates = append(x.plates, newPlate())
	return x
}

func (x *cw) conn(n int) *wConn {
	for len(x.conns) <= n {
		x.open("")
	}
	return x.conns[n]
}

func (x *cw) open(addr string) *wConn {
	if addr == "" {
		addr = newAddr()
	}
	c := &wConn{fc: newFakeConn(addr), addr: addr, open: true, name: fmt.Sprintf("c%d", len(x.conns))}
	x.conns = append(x.conns, c)
	gLst.ch <- c.fc
	return c
}

func (x *cw) frame(p int, id uint16, body []byte) []byte {
	x.sn++
	return x.frameSn(p, id, x.sn, body)
}

func (x *cw) frameSn(p int, id, sn uint16, body []byte) []byte {
	hv := x.vers[p]
	if hv == v2011 {
		hv = v2013
	}
	return refFrame(refContent(refHdr{id: id, ver: hv, proto: protoOf(x.vers[p]), phone: x.phones[p], serial: sn}, body))
}

// regBody is a registration of terminal p with plate l.
func (x *cw) regBody(p, l int) []byte {
	r := fixedReg
	r.plate = x.plates[l]
	return r.body(x.vers[p])
}

func (x *cw) locBody(n uint32, acc uint32) []byte {
	l := concLoc(n, acc)
	return l.body()
}

func concLoc(n, acc uint32) refLoc {
	return refLoc{status: acc | 2, lat: 39000000 + n, lon: 116000000 + n*7, alt: uint16(10 + n), speed: uint16(100 + n), dir: uint16(n), time: fmt.Sprintf("2301011200%02d", n%60)}
}

// say feeds a frame and lets it be handled (setup only).
func (x *cw) say(c int, b []byte) {
	x.conn(c).fc.feed(b)
	synctest.Wait()
	x.grab()
}

func (x *cw) grab() {
	for i, c := range x.conns {
		b := c.fc.takeOut()
		if len(b) == 0 {
			continue
		}
		fr, rest, err := refSplitOut(b)
		if err != nil || len(rest) > 0 {
			x.bad = fmt.Sprintf("output of connection %d is not a sequence of whole frames: %x", i, b)
			return
		}
		for _, f := range fr {
			cont, err := refDeframe(f)
			if err != nil {
				x.bad = fmt.Sprintf("bad frame on connection %d: %v in %x", i, err, b)
				return
			}
			p, err := refParse(cont)
			if err != nil || p.bodyLen != len(p.body) {
				x.bad = fmt.Sprintf("bad message on connection %d: %v in %x", i, err, b)
				return
			}
			c.got = append(c.got, p)
			if p.id == 0x8100 && len(p.body) > 3 && p.body[2] == 0 {
				x.codes[p.phone] = string(p.body[3:])
			}
		}
	}
}

func (x *cw) reg(c, p, l int) { x.say(c, x.frame(p, 0x0100, x.regBody(p, l))) }
func (x *cw) auth(c, p int)   { x.say(c, x.frame(p, 0x0102, x.authBody(p, true))) }
func (x *cw) loc(c, p int) {
	x.nloc++
	x.say(c, x.frame(p, 0x0200, x.locBody(x.nloc, 1)))
}
func (x *cw) asleep(c, p int) {
	x.nloc++
	x.say(c, x.frame(p, 0x0200, x.locBody(x.nloc, 0)))
}
func (x *cw) online(c, p int) { x.reg(c, p, p); x.auth(c, p) }
func (x *cw) authBody(p int, good bool) []byte {
	code := x.codes[x.phones[p]]
	if !good {
		code += "9"
	}
	return refAuthBody(x.vers[p], code, "123456789012345", "v1.2.3")
}

// ---- events ----

func eReg(c, p, l int) cev {
	return cev{fmt.Sprintf("reg(c%d,p%d,l%d)", c, p, l), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed(x.frame(p, 0x0100, x.regBody(p, l))) }}
}
func eAuth(c, p int, good bool) cev {
	return cev{fmt.Sprintf("auth(c%d,p%d,%v)", c, p, good), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed(x.frame(p, 0x0102, x.authBody(p, good))) }}
}
func eHb(c, p int) cev {
	return cev{fmt.Sprintf("hb(c%d,p%d)", c, p), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed(x.frame(p, 0x0002, nil)) }}
}
func eDereg(c, p int) cev {
	return cev{fmt.Sprintf("dereg(c%d,p%d)", c, p), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed(x.frame(p, 0x0003, nil)) }}
}
func eLoc(c, p int, n, acc uint32) cev {
	return cev{fmt.Sprintf("loc(c%d,p%d,%d,acc%d)", c, p, n, acc), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed(x.frame(p, 0x0200, x.locBody(n, acc))) }}
}
func eClose(c int) cev {
	return cev{fmt.Sprintf("peerclose(c%d)", c), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.peerClose() }}
}
func eOpen(as int) cev {
	return cev{fmt.Sprintf("open(new, address of c%d)", as), "open", func(x *cw) { x.open(x.conn(as).addr) }}
}

func eOpen2(as int) cev {
	e := eOpen(as)
	e.key, e.name = "open2", "second "+e.name
	return e
}

func synctestWait() { synctest.Wait() }

// fragment is one fragment of a message of terminal p.
func (x *cw) fragment(p int, id, sn, total, no uint16, body []byte) []byte {
	hv := x.vers[p]
	if hv == v2011 {
		hv = v2013
	}
	return refFrame(refContent(refHdr{id: id, ver: hv, proto: protoOf(x.vers[p]), phone: x.phones[p], serial: sn, frag: true, total: total, index: no}, body))
}

// eTick: the next keepalive check of the devices registered at t0 falls due.
func eTick(d time.Duration) cev {
	return cev{fmt.Sprintf("expiry check at %v", d), "tick", func(x *cw) { time.Sleep(time.Until(x.t0.Add(d + time.Millisecond))) }}
}

// eTick10 lets the session monitor have a look.
func eTick10() cev {
	return cev{"ten seconds pass", "tick10", func(x *cw) { time.Sleep(10 * time.Second) }}
}
func eAPI(method, name string, path func(x *cw) string, body string) cev {
	return cev{name, name, func(x *cw) {
		a := &apiCall{name: name, rec: httptest.NewRecorder()}
		x.api = append(x.api, a)
		req := httptest.NewRequest(method, path(x), strings.NewReader(body))
		if body != "" {
			req.Header.Set("Content-Type", "application/json")
		}
		zzsched.Go(func() {
			zzsched.Router.ServeHTTP(a.rec, req)
			a.done = true
		})
	}}
}
func eQuery(p int) cev {
	return eAPI(http.MethodGet, fmt.Sprintf("query(p%d)", p), func(x *cw) string { return "/device/" + x.phones[p] + "/params" }, "")
}
func eSet(p int) cev {
	return eAPI(http.MethodPut, fmt.Sprintf("set(p%d)", p), func(x *cw) string { return "/device/" + x.phones[p] + "/params" }, `{"params":[{"paramId":1,"paramValue":7}]}`)
}

// eSet2 sets other values than eSet.
func eSet2(p int) cev {
	return eAPI(http.MethodPut, fmt.Sprintf("set2(p%d)", p), func(x *cw) string { return "/device/" + x.phones[p] + "/params" },
		`{"params":[{"paramId":19,"paramValue":"host"},{"paramId":132,"paramValue":9}]}`)
}

// eSetBig makes a frame of about 2000 bytes.
func eSetBig(p int) cev {
	it := `{"paramId":19,"paramValue":"` + strings.Repeat("~", 245) + `"}`
	return eAPI(http.MethodPut, fmt.Sprintf("setbig(p%d)", p), func(x *cw) string { return "/device/" + x.phones[p] + "/params" }, `{"params":[`+it+","+it+","+it+","+it+`]}`)
}
func eList() cev {
	return eAPI(http.MethodGet, "list", func(x *cw) string { return "/device" }, "")
}
func eGeo(p int) cev {
	return eAPI(http.MethodGet, fmt.Sprintf("geo(p%d)", p), func(x *cw) string { return "/device/" + x.phones[p] + "/geo" }, "")
}

// ---- observation ----

func (x *cw) pi(s string) string {
	for i, p := range x.phones {
		if p == s {
			return fmt.Sprint("p", i)
		}
	}
	return s
}
func (x *cw) li(s string) string {
	for i, p := range x.plates {
		if p == s {
			return fmt.Sprint("l", i)
		}
	}
	return s
}
func (x *cw) ci(c any) string {
	for i, p := range x.conns {
		if any(p.fc) == c {
			return fmt.Sprint("c", i)
		}
	}
	return "?"
}

func (x *cw) showPkt(p refPkt) string {
	body := fmt.Sprintf("%x", p.body)
	if p.id == 0x8100 && len(p.body) >= 3 {
		body = fmt.Sprintf("%x result %d code %v", p.body[:2], p.body[2], len(p.body) > 3)
	}
	return fmt.Sprintf("%04x %s v%d %s", p.id, x.pi(p.phone), p.ver, body)
}

// replies on every connection, in order
func (x *cw) obsReplies() string {
	var s []string
	for _, c := range x.conns {
		// commands and replies are two sequences: either may go first
		var r, cmd []string
		for _, p := range c.got {
			if p.id == 0x8103 || p.id == 0x8104 {
				cmd = append(cmd, x.showPkt(p))
			} else {
				r = append(r, x.showPkt(p))
			}
		}
		sort.Strings(cmd)
		r = append(r, cmd...)
		cl := ""
		if c.fc.isClosed() {
			cl = " closed"
		}
		s = append(s, fmt.Sprintf("%s[%s]%s", c.name, strings.Join(r, ", "), cl))
	}
	return "replies: " + strings.Join(s, " ")
}

func (x *cw) obsAPI() string {
	var s []string
	for _, a := range x.api {
		s = append(s, a.name+"="+x.apiResult(a))
	}
	sort.Strings(s)
	return "api: " + strings.Join(s, " ")
}

func (x *cw) apiResult(a *apiCall) string {
	if !a.done {
		return "unanswered"
	}
	b := a.rec.Body.Bytes()
	switch {
	case a.name == "list":
		var l []map[string]any
		if err := json.Unmarshal(b, &l); err != nil {
			return "unreadable: " + string(b)
		}
		var s []string
		for _, d := range l {
			s = append(s, fmt.Sprintf("%s/%s/%v", x.pi(fmt.Sprint(field(d, "phone"))), x.li(fmt.Sprint(field(d, "plate"))), field(d, "status")))
		}
		sort.Strings(s)
		return fmt.Sprintf("%d%v", a.rec.Code, s)
	case strings.HasPrefix(a.name, "geo"):
		var d map[string]any
		if len(b) == 0 {
			return fmt.Sprintf("%d empty", a.rec.Code)
		}
		if err := json.Unmarshal(b, &d); err != nil {
			return "unreadable: " + string(b)
		}
		g, _ := field(d, "gis").(map[string]any)
		l, _ := field(g, "location").(map[string]any)
		dr, _ := field(g, "drive").(map[string]any)
		return fmt.Sprintf("%d %s %v/%v/%v/%v/%v/%v/%v", a.rec.Code, x.pi(fmt.Sprint(field(d, "phone"))), field(l, "latitude"), field(l, "longitude"), field(l, "altitude"),
			field(dr, "speed"), field(dr, "direction"), field(g, "time"), x.pi(fmt.Sprint(field(g, "phone"))))
	}
	return fmt.Sprint(a.rec.Code)
}

// field looks a key up without regard to case.
func field(m map[string]any, k string) any {
	for n, v := range m {
		if strings.EqualFold(n, k) {
			return v
		}
	}
	return nil
}

func (x *cw) obsDevices() string {
	var s []string
	cache := storage.GetDeviceCache()
	for _, d := range cache.ListDevice() {
		s = append(s, fmt.Sprintf("%s/%s status %d on %s(%v) imei %q", x.pi(d.Phone), x.li(d.Plate), d.Status, x.ci(d.Conn), x.addrOf(d), d.IMEI))
	}
	sort.Strings(s)
	for i, p := range x.phones {
		if d, err := cache.GetDeviceByPhone(p); err == nil {
			s = append(s, fmt.Sprintf("p%d->%s/%s", i, x.pi(d.Phone), x.li(d.Plate)))
		}
	}
	for i, p := range x.plates {
		if d, err := cache.GetDeviceByPlate(p); err == nil {
			s = append(s, fmt.Sprintf("l%d->%s/%s", i, x.pi(d.Phone), x.li(d.Plate)))
		}
	}
	return "devices: " + strings.Join(s, "; ")
}

func (x *cw) addrOf(d *model.Device) bool {
	for _, c := range x.conns {
		if any(c.fc) == any(d.Conn) {
			return c.addr == d.SessionID
		}
	}
	return false
}

func (x *cw) obsGeo() string {
	var s []string
	for i, p := range x.phones {
		if g := implGeo(p); g != nil && g.Location != nil {
			s = append(s, fmt.Sprintf("p%d@%.6f,%.6f %s", i, g.Location.Latitude, g.Location.Longitude, g.Time.Format("150405")))
		}
	}
	return "geo: " + strings.Join(s, " ")
}

func (x *cw) obsSessions() string {
	var s []string
	for i, c := range x.conns {
		if q, err := storage.GetSession(c.addr); err == nil {
			s = append(s, fmt.Sprintf("addr of c%d->%s", i, x.ci(q.Conn)))
		}
	}
	return "sessions: " + strings.Join(s, " ")
}

func (x *cw) obsAll() []string {
	return []string{x.obsReplies(), x.obsAPI(), x.obsDevices(), x.obsGeo(), x.obsSessions()}
}

func (x *cw) observe(sc *scen) string {
	x.grab()
	if x.bad != "" {
		return "BAD: " + x.bad
	}
	f := sc.obs
	if f == nil {
		f = (*cw).obsAll
	}
	o := f(x)
	if sc.later {
		for _, d := range []time.Duration{61 * time.Second, 61 * time.Second, 75 * time.Second} {
			time.Sleep(d)
			synctest.Wait()
			x.grab()
			for _, l := range f(x) {
				o = append(o, "later "+l)
			}
		}
	}
	return strings.Join(o, "\n")
}

// ends reports whether f comes to its end. It must be in the bubble's time.
func ends(f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	tm := time.NewTimer(time.Hour)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
		return false
	}
}

// settle lets error handling (which sleeps a second) finish.
func (x *cw) settle() {
	time.Sleep(2200 * time.Millisecond)
	synctest.Wait()
}

func (x *cw) cleanup() {
	cl := newFakeConn(newAddr())
	gLst.ch <- cl
	for p, ph := range x.phones {
		for k := 0; k < 2; k++ {
			if _, err := storage.GetDeviceCache().GetDeviceByPhone(ph); err == nil {
				cl.feed(x.frameSn(p, 0x0003, 1, nil))
				synctest.Wait()
			}
		}
		storage.GetGeoCache().DelGeoByPhone(ph)
	}
	for _, c := range x.conns {
		c.fc.peerClose()
	}
	cl.peerClose()
	time.Sleep(2500 * time.Millisecond)
	synctest.Wait()
	for _, d := range storage.GetDeviceCache().ListDevice() {
		storage.GetDeviceCache().DelDeviceByPhone(d.Phone)
	}
}

// probe: whatever happened, a newcomer is served and the API answers.
func (x *cw) probe() string {
	n := len(x.conns)
	x.open("")
	synctest.Wait()
	for _, b := range [][]byte{x.frame(2, 0x0100, x.regBody(2, 2)), x.frame(2, 0x0102, nil), x.frame(2, 0x0002, nil)} {
		if len(x.codes[x.phones[2]]) > 0 && rd16(b[1:]) == 0x0102 {
			b = x.frame(2, 0x0102, x.authBody(2, true))
		}
		x.say(n, b)
	}
	var got []string
	for _, p := range x.conns[n].got {
		got = append(got, x.showPkt(p))
	}
	if len(got) != 3 {
		return fmt.Sprintf("afterwards a new terminal is not served: it registers, authenticates and sends a heartbeat and gets %v", got)
	}
	if d, err := storage.GetDeviceCache().GetDeviceByPhone(x.phones[2]); err != nil || d.Status != model.DeviceStatusOnline {
		return "afterwards a new terminal cannot come online"
	}
	rec := httptest.NewRecorder()
	done := false
	go func() {
		zzsched.Router.ServeHTTP(rec, httptest.NewRequest(http.MethodGet, "/device", nil))
		done = true
	}()
	synctest.Wait()
	if !done || rec.Code != http.StatusOK || !strings.Contains(rec.Body.String(), x.phones[2]) {
		return fmt.Sprintf("afterwards the device list is not served: %d %s", rec.Code, rec.Body)
	}
	return ""
}

// orders yields all orders of the events that keep the order of equal keys.
func orders(evs []cev, f func([]int)) {
	var perm []int
	used := make([]bool, len(evs))
	var rec func()
	rec = func() {
		if len(perm) == len(evs) {
			f(append([]int(nil), perm...))
			return
		}
		for i := range evs {
			if used[i] {
				continue
			}
			ok := true
			for j := 0; j < i; j++ {
				if !used[j] && evs[j].key == evs[i].key {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used[i] = true
			perm = append(perm, i)
			rec()
			perm = perm[:len(perm)-1]
			used[i] = false
		}
	}
	rec()
}

var (
	concInit, concBroken bool
	concAllowed          = map[string]map[string]bool{} // sequential outcomes by scenario
)

func needRouter() {
	if concInit {
		return
	}
	concInit = true
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	debug.SetGCPercent(-1)
	zzsched.Debug = os.Getenv("VDEBUG") != ""
	connHook = func(c *fakeConn, write bool) { zzsched.Op(4, unsafe.Pointer(c), write, nil) }
	cfg := config.Load(config.DefaultServConfKey)
	gServ = server.NewTCPServer()
	func() {
		defer func() { recover() }()
		api.Run(gServ, cfg)
	}()
}

// CaseAll announces a case every shard takes part in.
func (cx *Ctx) CaseAll(space string) bool {
	idx := cx.counters[space]
	cx.counters[space] = idx + 1
	if cx.replay != "" && fmt.Sprintf("%s:%d", space, idx) != cx.replay {
		return false
	}
	if cx.replay == "" && cx.stopped() {
		return false
	}
	if realNow().After(cx.deadline) {
		cx.res.Capped = true
		return false
	}
	cx.curSpace, cx.curIdx, cx.curDesc = space, idx, ""
	cx.failed = false
	progressCnt.Add(1)
	if cx.progress != nil {
		cx.progress.WriteAt([]byte(fmt.Sprintf("%-70s\n", fmt.Sprintf("%s:%d", space, idx))), 0)
	}
	return true
}

func (sc scen) explore(cx *Ctx) {
	if concBroken || !cx.CaseAll(sc.name) {
		return
	}
	bound := sc.bound + curPass.extra
	if curPass.limit > 0 {
		if bound = min(bound, curPass.limit); curPass.limit > 1 && sc.bound <= curPass.limit && !curPass.every {
			return // the pass with the scenario's own bound covers it
		}
	}
	var names []string
	for _, e := range sc.evs {
		names = append(names, e.name)
	}
	cx.curDesc = "concurrently: " + strings.Join(names, " || ")
	cx.sample(cx.curDesc)
	prep := func() *cw {
		zzsched.Prepare()
		x := newCw(cx, v2013, v2019, v2011)
		if sc.setup != nil {
			sc.setup(x)
		}
		synctest.Wait()
		x.grab()
		for _, c := range x.conns {
			c.got = nil
		}
		return x
	}
	before := cx.res.Cases
	key := fmt.Sprint(sc.name, names)
	allowed, known := concAllowed[key]
	if !known {
		allowed = map[string]bool{}
	}
	if sc.lin && !known {
		orders(sc.evs, func(o []int) {
			x := prep()
			for _, i := range o {
				x.sn = uint16(0x100 + 16*i)
				sc.evs[i].do(x)
				synctest.Wait()
				if sc.evs[i].key != "tick" {
					time.Sleep(50 * time.Microsecond)
					synctest.Wait()
				}
			}
			x.settle()
			allowed[x.observe(&sc)] = true
			x.cleanup()
		})
	}
	zzsched.ResetShared()
	// an expiry check and a message at the very same moment: the schedules without preemption are the
	// sequential orders
	for _, e := range sc.evs {
		if sc.lin && !known && e.key == "tick" {
			if !sc.schedules(cx, prep, 0, names, allowed, true) {
				return
			}
			break
		}
	}
	concAllowed[key] = allowed
	if !sc.schedules(cx, prep, bound, names, allowed, false) {
		return
	}
	if os.Getenv("VDEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d schedules, %d shared sites, %d allowed outcomes\n", sc.spaceName(), cx.res.Cases-before, zzsched.NShared(), len(allowed))
		if os.Getenv("VDEBUG") == "2" {
			fmt.Fprintln(os.Stderr, strings.Join(zzsched.SharedSites(), "\n"))
		}
	}
}

func (sc scen) spaceName() string {
	return sc.name + curPass.String()
}

// schedules runs all schedules within the preemption bound.
func (sc scen) schedules(cx *Ctx, prep func() *cw, bound int, names []string, allowed map[string]bool, learn bool) bool {
	n, restarts, diverged, retry := 0, 0, 0, 0
	var stack []zzsched.Step
	for {
		if cx.res.Capped || len(cx.res.Violations) >= 8 {
			return false
		}
		if n&15 == 0 && realNow().After(cx.deadline) {
			cx.res.Capped = true
			return false
		}
		x := prep()
		r := zzsched.Execute(stack, bound, func() {
			for i, e := range sc.evs {
				x.sn = uint16(0x100 + 16*i)
				e.do(x)
				synctest.Wait()
			}
		}, true)
		if n++; n%200 == 0 {
			runtime.GC() // no collection during an execution, so that addresses are not reused
		}
		progressCnt.Add(1)
		cx.res.Transitions += int64(len(r.Steps))
		if r.Deadlock && !r.Diverged {
			// nothing may touch the locks any more
			cx.curDesc = "concurrently: " + strings.Join(names, " || ") + " ; schedule: " + strings.Join(r.Trace, ", ")
			cx.Fail("ANY", "threads wait for each other (deadlock): %s", strings.Join(r.Waiting, ", "))
			concBroken = true
			return false
		}
		var o, msg string
		if !ends(func() {
			x.settle()
			o = x.observe(&sc)
		}) {
			cx.curDesc = "concurrently: " + strings.Join(names, " || ") + " ; schedule: " + strings.Join(r.Trace, ", ")
			cx.Fail("ANY", "afterwards the devices and their locations cannot be read any more: a lock is never released")
			concBroken = true
			return false
		}
		if learn && !r.Diverged && !r.Capped {
			allowed[o] = true
		}
		switch {
		case r.Diverged || r.Capped:
		case r.MapClash != "":
			msg = "two threads access one map at the same time, one of them writing, which ends the process: " + r.MapClash
		case r.TextClash != "":
			msg = "one thread reads a text while another one writes it, so that it may be read in part or beyond its end: " + r.TextClash
		case strings.HasPrefix(o, "BAD:"):
			msg = o
		case sc.lin && !allowed[o] && !emptyGeo(o, allowed) && !(sc.allow != nil && sc.allow(o, allowed)):
			msg = "outcome that no order of the events produces:\n" + o + "\npossible outcomes:\n" + strings.Join(sortedKeys(allowed), "\n--\n")
		}
		if msg == "" && !r.Diverged && sc.check != nil {
			msg = sc.check(x)
		}
		if msg != "" && strings.HasPrefix(msg, "afterwards") {
			cx.curDesc = "concurrently: " + strings.Join(names, " || ") + " ; schedule: " + strings.Join(r.Trace, ", ")
			cx.Fail("ANY", "%s", msg)
			concBroken = true // nothing more can be explored in this process
			return false
		}
		x.cleanup()
		if r.NewShared && restarts < 60 {
			restarts++
			stack = nil
			continue
		}
		if r.Diverged && retry < 30 {
			retry++
			continue
		}
		retry = 0
		if r.Diverged {
			if zzsched.Debug {
				fmt.Fprintln(os.Stderr, sc.spaceName(), r.Trace[len(r.Trace)-1])
			}
			diverged++
			cx.outcome("diverged")
			if diverged > 50 {
				// something the scheduler does not control: nothing more is claimed of this scenario
				fmt.Fprintf(os.Stderr, "executions of %s do not repeat\n", sc.name)
				cx.res.Partial = true
				cx.outcome("does not repeat: " + sc.spaceName())
				return false
			}
		} else {
			if r.Capped {
				cx.outcome("endless")
			}
			if o, _ := owner(r.Steps, cx.n); !learn && o == cx.shard {
				cx.res.Cases++
				cx.res.Spaces[sc.spaceName()]++
				cx.res.Traces++
			}
			sig := sc.spaceName()
			for _, s := range r.Steps {
				sig += s.Sig
				cx.state(sig)
			}
			cx.outcome(fmt.Sprintf("%s/%d preemptions or switches", sc.spaceName(), r.Switches))
		}
		if msg != "" {
			cx.curDesc = "concurrently: " + strings.Join(names, " || ") + " ; schedule: " + strings.Join(r.Trace, ", ")
			cx.Fail("ANY", "%s", msg)
			return false
		}
		// next schedule
		steps := r.Steps
		if r.Diverged {
			steps = stack
		}
		if stack = nextSchedule(steps, cx, learn); stack == nil {
			break
		}
	}
	return true
}

// emptyGeo: a location query that overlaps the removal of its device may come back empty.
func emptyGeo(o string, allowed map[string]bool) bool {
	if !strings.Contains(o, "=200 empty") {
		return false
	}
	cut := func(s string) string { return geoRe.ReplaceAllString(s, "$1") }
	for a := range allowed {
		if strings.Contains(a, "=400") && cut(a) == cut(o) {
			return true
		}
	}
	return false
}

var geoRe = regexp.MustCompile(`(geo\(p\d\))=(200 empty|400 <nil> <nil>\S*)`)

// owner: the first two deviations from the default schedule decide which shard explores a subtree; what
// has fewer is run by all and counted by one.
func owner(steps []zzsched.Step, n int64) (shard int64, deviations int) {
	var h uint64
	for i, s := range steps {
		if s.Choice == 0 {
			continue
		}
		h = h*1000003 + uint64(i)*31 + uint64(s.Choice)
		if deviations++; deviations == 2 {
			break
		}
	}
	h ^= h >> 17
	h *= 0x9e3779b97f4a7c15
	return int64((h >> 33) % uint64(n)), deviations
}

// nextSchedule backtracks to the last decision with an untried alternative.
func nextSchedule(steps []zzsched.Step, cx *Ctx, all bool) []zzsched.Step {
	steps = append([]zzsched.Step(nil), steps...)
	for i := len(steps) - 1; i >= 0; i-- {
		for steps[i].Choice+1 < steps[i].N {
			steps[i].Choice++
			if o, d := owner(steps[:i+1], cx.n); all || d < 2 || o == cx.shard {
				return steps[:i+1]
			}
		}
	}
	return nil
}
