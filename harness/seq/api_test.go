package zzverif

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/gin-gonic/gin"

	"github.com/fakeyanss/jt808-server-go/internal/api"
	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
)

// The real HTTP API serves on a loopback port. It runs outside the bubble (real network),
// the requests are made by the harness inside it; the terminals' side has virtual time.
var gHTTP string

func needHTTP() {
	if gHTTP != "" {
		return
	}
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	cfg := config.Load(config.DefaultServConfKey)
	cfg.Server.Port.HTTPPort = strconv.Itoa(port)
	gServ = server.NewTCPServer()
	go api.Run(gServ, cfg)
	gHTTP = fmt.Sprintf("127.0.0.1:%d", port)
	for i := 0; i < 500; i++ {
		if c, err := net.Dial("tcp", gHTTP); err == nil {
			c.Close()
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	panic("HARNESS: the HTTP server does not answer on " + gHTTP)
}

// http does one request on a connection of its own.
func (w *World) http(method, path, ctype, body string) (int, []byte) {
	c, err := net.Dial("tcp", gHTTP)
	if err != nil {
		w.fail("C11 C20", "HTTP server unreachable: %v", err)
		return 0, nil
	}
	defer c.Close()
	req := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n", method, path)
	if ctype != "" {
		req += "Content-Type: " + ctype + "\r\n"
	}
	req += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	if _, err = io.WriteString(c, req); err != nil {
		w.fail("C11 C20", "HTTP request failed: %v", err)
		return 0, nil
	}
	defer passOnCloses()
	r, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		w.fail("C11 C20", "no HTTP response: %v", err)
		return 0, nil
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		w.fail("C11 C20", "broken HTTP response: %v", err)
	}
	w.cx.outcome(fmt.Sprintf("http %s %d", method, r.StatusCode))
	return r.StatusCode, b
}

// apiCommand sends a command through the API and checks what reaches whom.
func (w *World) apiCommand(method, phone, ctype, reqBody string, id uint16, body []byte, desc string) {
	if w.dead {
		return
	}
	w.log("%s(%s)", desc, phone)
	w.noExtra("C13")
	w.also = "C13"
	defer func() { w.also = "" }()
	before := w.implSnapshot()
	d := w.devs[phone]
	code, _ := w.http(method, "/device/"+phone+"/params", ctype, reqBody)
	if w.dead {
		return
	}
	if d == nil || !d.conn.open {
		synctest.Wait()
		w.noExtra("C13 C20")
		if code != 400 && !w.dead {
			w.fail("C20", "answered %d for a device that is not there or not connected", code)
			return
		}
		synctest.Wait()
		w.noExtra("C13 C20")
		w.unchanged(before, "C13 C20")
		w.check("C13 C20")
		return
	}
	if code != 200 {
		w.fail("C13 C20", "answered %d, want 200", code)
		return
	}
	for i := 0; i < 200 && !d.conn.fc.hasOut(); i++ { // the command may be sent after the answer
		syscall.Nanosleep(&syscall.Timespec{Nsec: 5e6}, nil)
	}
	w.await(d.conn, []expReply{{id: id, ph: phone, ver: d.ver, pv: d.proto, body: func(b []byte) string {
		if string(b) != string(body) {
			return fmt.Sprintf("want body %x", body)
		}
		return ""
	}}}, stayOpen, "C13 C20")
	w.unchanged(before, "C13 C20")
	w.check("C13 C20")
}

var setBody = []pv{{1, uint32(0x7d7e0001)}, {0x13, "a~}"}, {0x84, uint8(2)}}

func (w *World) apiQuery(phone string) {
	w.apiCommand("GET", phone, "", "", 0x8104, nil, "apiQuery")
}

func (w *World) apiSet(phone string) {
	w.apiCommand("PUT", phone, "application/json", string(paramJSON(setBody, 3, 4)), 0x8103, refParamList(setBody), "apiSet")
}

// apiRefused: a request that must be refused and change nothing.
func (w *World) apiRefused(method, path, ctype, body, desc string, codes ...int) {
	if w.dead {
		return
	}
	w.log("%s", desc)
	before := w.implSnapshot()
	code, _ := w.http(method, path, ctype, body)
	if w.dead {
		return
	}
	ok := false
	for _, c := range codes {
		ok = ok || c == code
	}
	if !ok {
		w.fail("C20", "%s %s answered %d, want %v", method, path, code, codes)
		return
	}
	synctest.Wait()
	w.noExtra("C13 C20")
	w.unchanged(before, "C20")
	w.check("C20")
}

func (w *World) apiList() {
	if w.dead {
		return
	}
	w.log("apiList")
	before := w.implSnapshot()
	code, b := w.http("GET", "/device", "", "")
	if w.dead {
		return
	}
	var list []struct {
		Plate, Phone    string
		Status          int8
		VersionDesc     int
		ProtocolVersion uint8
		ID              string
	}
	if err := json.Unmarshal(b, &list); code != 200 || err != nil {
		w.fail("C20", "device list: status %d, %v in %s", code, err, b)
		return
	}
	seen := map[string]bool{}
	for _, i := range list {
		d := w.devs[i.Phone]
		switch {
		case d == nil:
			w.fail("C20 C19", "listing has %s, which is not registered", i.Phone)
			return
		case seen[i.Phone]:
			w.fail("C20 C07", "listing has %s twice", i.Phone)
			return
		case i.Plate != d.plate || i.ID != d.id:
			w.fail("C20", "listing has %s with plate %q id %q, want %q %q", i.Phone, i.Plate, i.ID, d.plate, d.id)
			return
		case !d.st[i.Status]:
			w.fail("C20", "listing has %s with status %d, model allows %v", i.Phone, i.Status, d.st)
			return
		case model.VersionType(i.VersionDesc) != verDesc[d.ver] || i.ProtocolVersion != d.proto:
			w.fail("C20 C05", "listing has %s with version %d/%d", i.Phone, i.VersionDesc, i.ProtocolVersion)
			return
		}
		seen[i.Phone] = true
	}
	if len(seen) != len(w.devs) {
		w.fail("C20", "listing has %d devices, %d are registered", len(seen), len(w.devs))
		return
	}
	w.unchanged(before, "C20")
}

func (w *World) apiGeo(phone string) {
	if w.dead {
		return
	}
	d := w.devs[phone]
	if d == nil {
		w.apiRefused("GET", "/device/"+phone+"/geo", "", "", "apiGeo("+phone+")", 400)
		return
	}
	w.log("apiGeo(%s)", phone)
	before := w.implSnapshot()
	code, b := w.http("GET", "/device/"+phone+"/geo", "", "")
	if w.dead {
		return
	}
	w.unchanged(before, "C20")
	var r struct {
		Phone, Plate string
		Gis          *model.DeviceGeo
	}
	if d.geo == nil {
		if len(b) > 0 && json.Unmarshal(b, &r) == nil && r.Gis != nil && r.Gis.Location != nil {
			w.fail("C20 C10 C19", "a position was returned for %s, which reported none: %s", phone, b)
		}
		return
	}
	if err := json.Unmarshal(b, &r); code != 200 || err != nil {
		w.fail("C20 C10", "location query: status %d, %v in %q", code, err, b)
		return
	}
	if r.Phone != phone || r.Plate != d.plate {
		w.fail("C20", "location query returned device %s %s", r.Phone, r.Plate)
		return
	}
	if m := geoMatches(r.Gis, phone, d.geo); m != "" {
		w.fail("C20 C10", "location query: %s", m)
	}
}

func (w *World) apiAll() {
	w.apiList()
	for _, p := range w.phones {
		w.apiGeo(p)
		w.apiQuery(p)
		w.apiSet(p)
	}
}

func opAPIQuery(p int) mop {
	return mop{fmt.Sprintf("apiq%d", p), -1, p, -1, func(w *World, m *mctx) { w.apiQuery(m.phones[p]) }, 0}
}
func opAPISet(p int) mop {
	return mop{fmt.Sprintf("apis%d", p), -1, p, -1, func(w *World, m *mctx) { w.apiSet(m.phones[p]) }, 0}
}
func opClose(c int) mop {
	return mop{fmt.Sprintf("close%d", c), c, -1, -1, func(w *World, m *mctx) { w.peerClose(c) }, 0}
}

func init() {
	prep := func(cx *Ctx) { needHTTP() }
	register("C13", "http", false, prep)
	register("C20", "http", false, prep)
	register("C13", "machine", true, func(cx *Ctx) {
		sfx := func(w *World, m *mctx) {
			for _, p := range w.phones {
				w.apiQuery(p)
				w.apiSet(p)
			}
		}
		ops := []mop{opReg(0, 0, 0), opReg(1, 0, 0), opReg(1, 1, 1), opReg(0, 1, 0), opAuth(0, 0), opAuth(1, 0), opAuth(1, 1), opHb(1, 0), opLoc(1, 0, 0), opBadAuth(0, 0), opDereg(1, 0),
			opClose(0), opClose(1), opCycle(0, true), opCycle(1, true), opCycle(0, false), opAPIQuery(0), opAPISet(1)}
		profile{name: "commands", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(3, 4), suffix: sfx}.explore(cx)
		profile{name: "commands-registered", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, prefix: []mop{opReg(0, 0, 0), opReg(1, 1, 1)}, ops: ops, depth: cx.pick(3, 4), suffix: sfx}.explore(cx)
		ops2 := []mop{opAuth(0, 0), opAuth(1, 0), opAuth(2, 0), opCycle(0, true), opCycle(1, true), opClose(0), opClose(2), opAPIQuery(0), opReg(2, 1, 1)}
		profile{name: "commands-roaming", vers: []int{v2019, v2011}, nslots: 3, nplates: 2, prefix: []mop{opReg(0, 0, 0)}, ops: ops2, depth: cx.pick(4, 5), suffix: sfx}.explore(cx)
		ops3 := []mop{opAuth(0, 0), opHb(0, 0), opHb(1, 1), opAdv(59 * time.Second), opAdv(61 * time.Second), opAdv(121 * time.Second), opAPIQuery(0)}
		profile{name: "commands-expiry", vers: []int{v2019, v2011}, nslots: 2, nplates: 2, prefix: []mop{opReg(0, 0, 0), opReg(1, 1, 1)}, ops: ops3, depth: cx.pick(4, 5), suffix: sfx}.explore(cx)
	})
	register("C13", "address-reuse", true, func(cx *Ctx) {
		// the device's connection ends and another terminal gets the same remote address
		for k := 0; k < 8; k++ {
			for _, ver := range []int{v2011, v2013, v2019} {
				if !cx.Case("address-reuse") {
					continue
				}
				w := newWorld(cx, 2)
				t := w.setup(0, ver, k&1 == 1)
				w.apiQuery(t.ph)
				w.peerClose(0)
				w.apiQuery(t.ph)
				w.reopen(0, true)
				w.apiQuery(t.ph)
				w.apiSet(t.ph)
				u := w.setup(0, v2013, k&2 == 2) // another terminal on the same address
				w.apiSet(t.ph)
				w.apiSet(u.ph)
				w.apiQuery(u.ph)
				if k&4 == 4 { // the first one comes back elsewhere
					w.auth(1, t.ph, ver, w.devs[t.ph].code, "good")
				} else {
					w.dereg(1, t.ph, ver)
				}
				w.apiAll()
				w.finish()
			}
		}
	})
	// the socket fails while a command is written: it is not repeated, there or elsewhere
	register("C13", "failing-socket", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			for at := 0; at < 40; at++ {
				for kind := 0; kind < 4; kind++ {
					if !cx.Case("failing-socket") {
						continue
					}
					w := newWorld(cx, 3)
					t, u := w.setup(0, ver, true), w.setup(1, v2019, true)
					if kind&2 == 2 { // roamed: the connection it registered on is still there
						w.auth(2, t.ph, ver, w.devs[t.ph].code, "good")
					}
					if w.dead {
						w.finish()
						continue
					}
					c := w.devs[t.ph].conn
					c.fc.wErrAt, c.fc.wErr = at, writeErrs[at%len(writeErrs)]
					if kind&1 == 0 {
						w.log("query while the socket fails after %d bytes", at)
						w.http("GET", "/device/"+t.ph+"/params", "", "")
					} else {
						w.log("set while the socket fails after %d bytes", at)
						w.http("PUT", "/device/"+t.ph+"/params", "application/json", string(paramJSON(setBody, 3, 4)))
					}
					synctest.Wait()
					w.sleep(2 * time.Second)
					synctest.Wait()
					out := c.fc.takeOut()
					if frames, rest, _ := refSplitOut(out); !w.dead && (len(frames) > 1 || len(frames) == 1 && len(rest) > 0 || c.fc.offeredAfterErr > 0) {
						w.fail("C13 C15", "after a write error at %d: %d whole frames, %d more bytes, %d bytes offered after the error", at, len(frames), len(rest), c.fc.offeredAfterErr)
					}
					w.noExtra("C13")
					if !w.dead {
						w.devs[u.ph].lastLo = w.devs[u.ph].lastLo.Add(-3e9)
						c.bad = true
						c.open = !c.fc.isClosed() // the platform may give the connection up
						w.also = "C13"
						w.hb(1, u.ph, u.ver)
						w.apiQuery(u.ph)
					}
					w.dead = true
					w.finish()
				}
			}
		}
	})
	register("C13", "content", true, func(cx *Ctx) {
		// every parameter and value through the API, in every version's layout
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, id := range paramIDs() {
				if !cx.Case("content") {
					continue
				}
				w := newWorld(cx, 2)
				t := w.setup(0, ver, true)
				w.setup(1, v2019, true)
				n := len(w.hist)
				for _, v := range paramVals(paramKind[id], false) {
					ps := []pv{{id, v}, {1, uint32(7)}}
					w.hist = w.hist[:n]
					w.apiCommand("PUT", t.ph, "application/json", string(paramJSON(ps, 2, 0)), 0x8103, refParamList(ps), fmt.Sprintf("set %04x=%v", id, v))
				}
				w.finish()
			}
			if cx.Case("content-list") {
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				w.apiCommand("PUT", t.ph, "application/json", `{"params":[]}`, 0x8103, []byte{0}, "set nothing")
				w.apiCommand("PUT", t.ph, "application/json", `{"paramCnt":9,"params":[{"paramId":153,"paramValue":1},{"paramId":1,"paramValue":5}]}`, 0x8103, refParamList([]pv{{1, uint32(5)}}), "set with an unknown id")
				// each request stands alone: nothing of an earlier one is sent again
				reqs := []struct {
					json string
					ps   []pv
				}{{`{}`, nil}, {`{"params":null}`, nil}, {`{"paramCnt":3}`, nil}, {`{"params":[{"paramId":1,"paramValue":5}]}`, []pv{{1, uint32(5)}}},
					{`{"params":[{"paramId":19,"paramValue":"x"},{"paramId":1,"paramValue":6},{"paramId":132,"paramValue":9}],"paramCnt":3}`, []pv{{0x13, "x"}, {1, uint32(6)}, {0x84, uint8(9)}}},
					{`{"params":[{"paramId":153,"paramValue":"u"}]}`, nil}, {`{"params":[]}`, nil}}
				for _, a := range reqs {
					for _, b := range reqs {
						for _, c := range reqs {
							for i, r := range []int{0, 1, 2} {
								q := []struct {
									json string
									ps   []pv
								}{a, b, c}[r]
								w.apiCommand("PUT", t.ph, "application/json", q.json, 0x8103, refParamList(q.ps), fmt.Sprintf("set #%d %s", i, q.json))
							}
						}
					}
				}
				for n := 1; n <= 40; n++ {
					var ps []pv
					for i := 0; i < n; i++ {
						ps = append(ps, pv{uint32(0x10 + i%8), fmt.Sprintf("host-%d~", i)})
					}
					w.apiCommand("PUT", t.ph, "application/json", string(paramJSON(ps, n, 0)), 0x8103, refParamList(ps), fmt.Sprintf("set %d", n))
				}
				// a list that does not fit a message is not sent, and the next one is
				var big []pv
				for i := 0; i < 8; i++ {
					big = append(big, pv{0x13, strings.Repeat("b", 200)})
				}
				before := w.implSnapshot()
				w.http("PUT", "/device/"+t.ph+"/params", "application/json", string(paramJSON(big, 8, 0)))
				synctest.Wait()
				w.noExtra("C13")
				w.unchanged(before, "C13")
				w.apiSet(t.ph)
				w.apiQuery(t.ph)
				w.finish()
			}
		}
	})

	register("C20", "machine", true, func(cx *Ctx) {
		sfx := func(w *World, m *mctx) { w.apiAll() }
		lst := mop{"list", -1, -1, -1, func(w *World, m *mctx) { w.apiList() }, 0}
		geo := func(p int) mop {
			return mop{fmt.Sprintf("geo%d", p), -1, p, -1, func(w *World, m *mctx) { w.apiGeo(m.phones[p]) }, 0}
		}
		ops := []mop{opReg(0, 0, 0), opReg(1, 1, 1), opReg(1, 0, 1), opReg(0, 1, 0), opAuth(0, 0), opAuth(1, 1), opBadAuth(0, 0), opLoc(0, 0, 1), opLoc(1, 0, 0), opLoc(1, 1, 1), opDereg(0, 0),
			opClose(0), opCycle(1, true), opAPIQuery(0), opAPISet(1), lst, geo(0)}
		profile{name: "api", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(3, 4), suffix: sfx}.explore(cx)
		profile{name: "api-registered", vers: []int{v2011, v2019}, nslots: 2, nplates: 2, prefix: []mop{opReg(0, 0, 0), opReg(1, 1, 1), opLoc(1, 1, 1)}, ops: ops, depth: cx.pick(3, 4), suffix: sfx}.explore(cx)
		ops3 := []mop{opAuth(0, 0), opHb(0, 0), opLoc(0, 0, 0), opLoc(1, 1, 1), opAdv(30 * time.Second), opAdv(61 * time.Second), opAdv(121 * time.Second), lst, geo(1)}
		profile{name: "api-expiry", vers: []int{v2019, v2011}, nslots: 2, nplates: 2, prefix: []mop{opReg(0, 0, 0), opReg(1, 1, 1)}, ops: ops3, depth: cx.pick(4, 5), suffix: sfx}.explore(cx)
	})
	register("C20", "population", true, func(cx *Ctx) {
		for n := 0; n <= cx.pick(12, 30); n++ {
			if !cx.Case("population") {
				continue
			}
			w := newWorld(cx, 3)
			for i := 0; i < n; i++ {
				t := w.setup(i%3, []int{v2011, v2013, v2019}[i%3], i%2 == 0)
				if i%4 != 3 {
					w.loc(i%3, t.ph, t.ver, someLoc(uint32(i)))
				}
				w.apiList()
			}
			w.apiAll()
			for i := 0; i < n; i += 2 {
				w.dereg(i%3, w.phones[i], []int{v2011, v2013, v2019}[i%3])
				w.apiList()
			}
			w.apiAll()
			w.finish()
		}
	})
	register("C20", "refusals", true, func(cx *Ctx) {
		bad := []string{"", "{", "[]", "{\"params\":5}", "{\"params\":[5]}", "{\"params\":[{\"paramId\":\"x\"}]}", "{\"params\":[{\"paramId\":-1}]}", "{\"paramCnt\":256}",
			"{\"params\":[{\"paramId\":1,\"paramLen\":300}]}", "{\"params\":[{\"paramId\":1,\"paramValue\":}]}", "\x00", "\"x\"", "{\"params\":[{\"paramId\":1,\"paramValue\":5}]"}
		for _, ver := range []int{v2011, v2013, v2019} {
			for b := range bad {
				if !cx.Case("bad-body") {
					continue
				}
				w := newWorld(cx, 2)
				t := w.setup(0, ver, true)
				u := w.setup(1, v2019, true)
				for _, ph := range []string{t.ph, u.ph, newPhone(ver)} {
					w.apiRefused("PUT", "/device/"+ph+"/params", "application/json", bad[b], fmt.Sprintf("PUT %s %q", ph, bad[b]), 400)
				}
				w.apiAll()
				w.finish()
			}
			// phones that resemble a registered one are still unknown
			if cx.Case("similar-phone") {
				w := newWorld(cx, 2)
				t := w.setup(0, ver, true)
				w.loc(0, t.ph, ver, someLoc(1))
				w.setup(1, v2019, true)
				var similar []string
				for i := range t.ph {
					b := []byte(t.ph)
					b[i] = '0' + (b[i]-'0'+1)%10
					similar = append(similar, string(b), t.ph[:i]+t.ph[i+1:], t.ph[:i]+"0"+t.ph[i:])
				}
				similar = append(similar, strings.TrimLeft(t.ph, "0"), "0"+t.ph, t.ph+"0", "x", "%20", t.pl,
					"%20"+t.ph, t.ph+"%20", "%09"+t.ph, t.ph+"%0a", "+"+t.ph, t.ph+"%00", "%00"+t.ph, "0x"+t.ph, t.ph+",", "%22"+t.ph+"%22", "%EF%BC%90"+t.ph)
				for _, s := range similar {
					known := false
					for _, p := range w.phones {
						known = known || p == s
					}
					if known {
						continue
					}
					w.apiRefused("GET", "/device/"+s+"/geo", "", "", "geo of "+s, 400)
					w.apiRefused("GET", "/device/"+s+"/params", "", "", "query of "+s, 400)
					w.apiRefused("PUT", "/device/"+s+"/params", "application/json", string(paramJSON(setBody, 3, 4)), "set of "+s, 400)
				}
				w.apiAll()
				w.finish()
			}
			// requests the API does not offer
			if cx.Case("unrouted") {
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				w.loc(0, t.ph, ver, someLoc(2))
				for _, m := range []string{"POST", "DELETE", "PUT", "PATCH", "OPTIONS"} {
					for _, p := range []string{"/device", "/device/" + t.ph, "/device/" + t.ph + "/geo", "/device/" + t.ph + "/x", "/", "/devices"} {
						w.apiRefused(m, p, "application/json", "{}", m+" "+p, 404, 405)
					}
				}
				w.apiAll()
				w.finish()
			}
		}
	})
	register("C20", "positions", true, func(cx *Ctx) {
		for i, l := range locCases() {
			if !cx.thorough() && i%8 != 0 {
				continue
			}
			if !cx.Case("positions") {
				continue
			}
			w := newWorld(cx, 2)
			t := w.setup(0, []int{v2011, v2013, v2019}[i%3], true)
			u := w.setup(1, v2019, true)
			if _, err := time.Parse("060102150405", l.time); err != nil {
				l.time = "230101120000"
			}
			w.loc(0, t.ph, t.ver, l)
			w.apiGeo(t.ph)
			w.loc(1, u.ph, u.ver, someLoc(uint32(i)))
			w.apiGeo(t.ph)
			w.apiGeo(u.ph)
			w.finish()
		}
	})
}
