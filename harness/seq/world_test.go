package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

const (
	keepP  = 60 * time.Second // default keepalive period of a device
	checkI = 60 * time.Second // interval of the expiry check
	slack  = time.Second
)

var (
	gServ  *server.TCPServer
	gLst   *fakeListener
	gAddr  int
	gPhone int64
)

func startWorld() {
	if gServ == nil {
		gServ = server.NewTCPServer()
	}
	gLst = newFakeListener()
	gServ.VerifSetListener(gLst)
	go gServ.Start()
	synctest.Wait()
}

func newAddr() string {
	gAddr++
	return fmt.Sprintf("10.%d.%d.%d:%d", gAddr>>16&255, gAddr>>8&255, gAddr&255, 20000+gAddr%40000)
}

// wConn is one connection as the reference model sees it.
type wConn struct {
	fc   *fakeConn
	addr string
	open bool // live in the model
	name string
	got  []refPkt
	bad  bool
	cmds map[uint16]int // serial numbers of platform commands seen on it
}

// rDev is one registered device in the reference model.
type rDev struct {
	phone, plate string
	ver          int
	proto        byte
	id           string
	code         string
	authed       bool
	st           map[int8]bool // statuses the model allows
	lastLo       time.Time     // activity happened not before this
	lastHi       time.Time     // and not after this
	conn         *wConn
	imei, sw     string
	geo          *refLoc
}

type World struct {
	cx     *Ctx
	hist   []string
	slots  []*wConn
	all    []*wConn
	devs   map[string]*rDev
	phones []string // universe for index checks
	plates []string
	serial uint16
	dead   bool // a mismatch happened, stop the history
	slept  time.Duration
	also   string // properties that any mismatch from here on also speaks about
}

func newWorld(cx *Ctx, nslots int) *World {
	w := &World{cx: cx, devs: map[string]*rDev{}, serial: 0x7d7b}
	for i := 0; i < nslots; i++ {
		w.slots = append(w.slots, nil)
		w.open(i, "")
	}
	synctest.Wait()
	return w
}

// newPhone returns an unused phone number of the right width for the version.
func newPhone(ver int) string {
	gPhone++
	if ver == v2019 {
		return fmt.Sprintf("%020d", 13000000000000+gPhone)
	}
	return fmt.Sprintf("%012d", 13000000000+gPhone)
}

func newPlate() string {
	gPhone++
	return fmt.Sprintf("京A%06d", gPhone%1000000)
}

func (w *World) open(slot int, addr string) *wConn {
	if addr == "" {
		addr = newAddr()
	}
	c := &wConn{fc: newFakeConn(addr), addr: addr, open: true, name: fmt.Sprintf("c%d", slot)}
	w.slots[slot] = c
	w.all = append(w.all, c)
	gLst.ch <- c.fc
	return c
}

func (w *World) log(format string, a ...any) {
	w.hist = append(w.hist, fmt.Sprintf(format, a...))
	w.cx.curDesc = strings.Join(w.hist, " ; ")
	w.cx.step()
}

func (w *World) fail(tags, format string, a ...any) {
	w.dead = true
	w.cx.Fail(tags+" "+w.also, "after [%s]: %s", w.last(), fmt.Sprintf(format, a...))
}

func (w *World) last() string {
	if len(w.hist) == 0 {
		return "start"
	}
	return w.hist[len(w.hist)-1]
}

func (w *World) nextSerial() uint16 { w.serial++; return w.serial }

// collect moves written bytes into parsed packets.
func (w *World) collect() {
	passOnCloses()
	for _, c := range w.all {
		b := c.fc.takeOut()
		if len(b) == 0 || c.bad {
			continue
		}
		frames, rest, err := refSplitOut(b)
		if err != nil || len(rest) > 0 {
			c.bad = true
			w.fail("C15 C02 C06", "output of %s is not a sequence of whole frames: %x (%v)", c.name, b, err)
			return
		}
		for _, f := range frames {
			cont, err := refDeframe(f)
			if err != nil {
				c.bad = true
				w.fail("C02 C06", "bad frame on %s: %v", c.name, err)
				return
			}
			p, err := refParse(cont)
			if err != nil {
				c.bad = true
				w.fail("C04 C05 C06", "bad header on %s: %v", c.name, err)
				return
			}
			c.got = append(c.got, p)
		}
	}
}

type expReply struct {
	tags string
	id   uint16
	ph   string
	ver  int
	pv   byte
	body func(b []byte) string // "" if fine
}

const (
	stayOpen = iota
	mustClose
	mayClose
)

// exchange feeds bytes on c and checks the outcome against the expectation.
// tags name the properties a wrong outcome of this operation violates.
func (w *World) exchange(c *wConn, data []byte, exp []expReply, closing int, tags string) {
	if w.dead {
		return
	}
	w.noExtra(tags)
	if w.dead {
		return
	}
	c.fc.feed(data)
	w.await(c, exp, closing, tags)
}

func (w *World) await(c *wConn, exp []expReply, closing int, tags string) {
	w.slept = 0
	for try := 0; ; try++ {
		synctest.Wait()
		w.collect()
		if w.dead {
			return
		}
		done := len(c.got) >= len(exp) && c.fc.idle()
		if closing == mustClose && !c.fc.isClosed() {
			done = false
		}
		if done || try >= 5 || c.fc.isClosed() {
			break
		}
		w.sleep(time.Second)
		w.slept += time.Second
	}
	for _, x := range w.all {
		if x != c && len(x.got) > 0 {
			w.fail("C06 C13 "+tags, "message %04x appeared on %s, addressed was %s", x.got[0].id, x.name, c.name)
			return
		}
	}
	if closing != mayClose || len(c.got) > 0 {
		if len(c.got) != len(exp) {
			w.fail("C06 "+tags, "%d replies on %s, want %d (%s)", len(c.got), c.name, len(exp), showPkts(c.got))
			return
		}
	}
	got := c.got
	c.got = nil
	for i, p := range got {
		e := exp[i]
		if p.id != e.id {
			w.fail("C06 "+tags, "reply %04x, want %04x", p.id, e.id)
			return
		}
		if p.bodyLen != len(p.body) {
			w.fail("C04 C05 C06", "reply header says body length %d, body has %d", p.bodyLen, len(p.body))
			return
		}
		if p.frag || p.enc != 0 {
			w.fail("C06 C16 "+tags, "reply %04x is marked fragmented or encrypted", p.id)
			return
		}
		wantVer := e.ver
		if wantVer == v2011 {
			wantVer = v2013
		}
		if p.ver != wantVer || p.proto != e.pv {
			w.fail("C05", "reply %04x has version layout %d/%d, terminal uses %d/%d", p.id, p.ver, p.proto, wantVer, e.pv)
			return
		}
		if p.phone != e.ph {
			w.fail("C05 C06", "reply %04x names phone %s, want %s", p.id, p.phone, e.ph)
			return
		}
		if p.id != 0x8001 && p.id != 0x8100 { // a command (a history has fewer than 65536)
			if c.cmds == nil {
				c.cmds = map[uint16]int{}
			}
			if n := c.cmds[p.serial]; n != 0 {
				w.fail("C14", "serial %04x of command %04x was already used for command number %d of %d on %s", p.serial, p.id, n, len(c.cmds), c.name)
				return
			}
			c.cmds[p.serial] = len(c.cmds) + 1
		}
		if m := e.body(p.body); m != "" {
			w.fail("C06 "+tags, "reply %04x body %x: %s", p.id, p.body, m)
			return
		}
		w.cx.outcome(fmt.Sprintf("%04x", p.id))
	}
	closed := c.fc.isClosed()
	switch {
	case closing == mustClose && !closed:
		w.fail("C06 C12 "+tags, "connection %s stayed open", c.name)
		return
	case closing == stayOpen && closed:
		w.fail("C11 C06 "+tags, "connection %s was closed", c.name)
		return
	}
	if closed {
		c.open = false
	}
}

// noExtra: nothing may have been sent beyond the expected replies.
func (w *World) noExtra(tags string) {
	w.collect()
	for _, x := range w.all {
		if len(x.got) > 0 && !w.dead {
			w.fail("C06 C13 "+tags, "unexpected message on %s: %s", x.name, showPkts(x.got))
		}
		x.got = nil
	}
}

func showPkts(ps []refPkt) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprintf("%04x:%x", p.id, p.body))
	}
	return strings.Join(s, ",")
}

// sleep advances virtual time; the harness main goroutine is in the bubble.
func (w *World) sleep(d time.Duration) { time.Sleep(d) }

func general(serial, id uint16, result byte) func([]byte) string {
	want := refGeneral(serial, id, result)
	return func(b []byte) string {
		if string(b) != string(want) {
			return fmt.Sprintf("want %x", want)
		}
		return ""
	}
}

// touch records activity of d that happened during the last exchange.
func (w *World) touch(d *rDev) {
	now := time.Now()
	d.lastHi = now
	d.lastLo = now.Add(-w.slept)
}

// hdr of a terminal message
func (w *World) hdr(id uint16, phone string, ver int, proto byte, serial uint16) refHdr {
	hv := ver
	if hv == v2011 {
		hv = v2013
	}
	return refHdr{id: id, ver: hv, proto: proto, phone: phone, serial: serial}
}

func protoOf(ver int) byte {
	if ver == v2019 {
		return 1
	}
	return 0
}

// ---- terminal operations ----

func (w *World) devByPlate(plate string) *rDev {
	for _, d := range w.devs {
		if d.plate == plate {
			return d
		}
	}
	return nil
}

var fixedReg = refReg{prov: 31, city: 115, manu: "FKY", model: "fakeya", id: "1234AB", color: 1}

func (w *World) reg(slot int, phone, plate string, ver int) {
	r := fixedReg
	r.plate = plate
	w.regRaw(slot, phone, r, ver)
}

func (w *World) regRaw(slot int, phone string, r refReg, ver int) {
	w.regBody(slot, phone, r.body(ver), ver, fmt.Sprintf("reg(c%d,%s,%s,%d)", slot, phone, r.plate, ver))
}

// regBody registers with an arbitrary body; the model decodes it with the reference codec.
func (w *World) regBody(slot int, phone string, body []byte, ver int, desc string) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("%s", desc)
	sn := w.nextSerial()
	data := refFrame(refContent(w.hdr(0x0100, phone, ver, protoOf(ver), sn), body))
	r, rver, ok := refParseReg(body, ver == v2019)
	if !ok {
		before := w.implSnapshot()
		w.exchange(c, data, nil, mayClose, "C11")
		w.unchanged(before, "C11 C07")
		w.check("C11")
		return
	}
	want := byte(0)
	if w.devByPlate(r.plate) != nil {
		want = 1
	} else if w.devs[phone] != nil {
		want = 3
	}
	var code string
	w.exchange(c, data, []expReply{{id: 0x8100, ph: phone, ver: ver, pv: protoOf(ver), body: func(b []byte) string {
		if len(b) < 3 || rd16(b) != sn {
			return fmt.Sprintf("does not answer serial %04x", sn)
		}
		if b[2] != want {
			return fmt.Sprintf("result %d, want %d", b[2], want)
		}
		code = string(b[3:])
		if want == 0 && code == "" {
			return "no auth code"
		}
		return ""
	}}}, stayOpen, "C07")
	if w.dead {
		return
	}
	w.cx.outcome(fmt.Sprintf("reg=%d", want))
	if want == 0 {
		d := &rDev{phone: phone, plate: r.plate, ver: rver, proto: protoOf(ver), id: r.id, code: code,
			st: map[int8]bool{0: true}, conn: c}
		w.touch(d)
		w.devs[phone] = d
	}
	w.check("C07 C19 C20")
}

func (w *World) auth(slot int, phone string, ver int, code, desc string) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("auth(c%d,%s,%s)", slot, phone, desc)
	w.authBody(c, phone, ver, refAuthBody(ver, code, "123456789012345", "v1.2.3"), code)
}

func (w *World) authBody(c *wConn, phone string, ver int, body []byte, code string) {
	sn := w.nextSerial()
	data := refFrame(refContent(w.hdr(0x0102, phone, ver, protoOf(ver), sn), body))
	d := w.devs[phone]
	if d == nil {
		w.exchange(c, data, nil, mustClose, "C08")
		w.check("C08 C19")
		return
	}
	res := byte(0)
	if code != d.code {
		res = 1
	}
	w.exchange(c, data, []expReply{{id: 0x8001, ph: phone, ver: ver, pv: protoOf(ver), body: general(sn, 0x0102, res)}}, stayOpen, "C08")
	if w.dead {
		return
	}
	w.cx.outcome(fmt.Sprintf("auth=%d", res))
	if res == 0 {
		d.authed = true
		d.st = map[int8]bool{1: true}
		d.conn = c
		if ver == v2019 {
			d.imei, d.sw = "123456789012345", "v1.2.3"
		} else {
			d.imei, d.sw = "", ""
		}
		w.touch(d)
		w.check("C08")
	} else {
		delete(w.devs, phone)
		w.check("C08 C19")
	}
}

// simple sends a bodyless or fixed-body request answered by a general reply.
func (w *World) request(slot int, id uint16, phone string, ver int, body []byte, name string, apply func(d *rDev), tags string) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("%s(c%d,%s)", name, slot, phone)
	sn := w.nextSerial()
	data := refFrame(refContent(w.hdr(id, phone, ver, protoOf(ver), sn), body))
	w.deliver(c, data, id, sn, phone, ver, apply, tags)
}

// deliver feeds data that completes request id/sn and checks the general reply.
func (w *World) deliver(c *wConn, data []byte, id, sn uint16, phone string, ver int, apply func(d *rDev), tags string) {
	d := w.devs[phone]
	if d == nil {
		w.exchange(c, data, nil, mustClose, tags)
		w.check(tags)
		return
	}
	w.exchange(c, data, []expReply{{id: 0x8001, ph: phone, ver: ver, pv: protoOf(ver), body: general(sn, id, 0)}}, stayOpen, tags)
	if w.dead {
		return
	}
	apply(d)
	w.check(tags)
}

func (w *World) hb(slot int, phone string, ver int) {
	w.request(slot, 0x0002, phone, ver, nil, "hb", func(d *rDev) { w.applyHb(d) }, "C08 C09")
}

func (w *World) applyHb(d *rDev) {
	w.touch(d)
	if d.authed && d.st[2] {
		d.st = map[int8]bool{1: true, 2: true, 0: d.st[0]}
	}
	if d.authed && d.st[0] { // expired but not yet removed: a heartbeat may or may not revive it
		d.st = map[int8]bool{0: true, 1: true, 2: d.st[2]}
	}
}

func (w *World) dereg(slot int, phone string, ver int) {
	w.request(slot, 0x0003, phone, ver, nil, "dereg", func(d *rDev) { delete(w.devs, phone) }, "C19")
}

func (w *World) applyLoc(d *rDev, l *refLoc) {
	w.touch(d)
	d.geo = l
	if d.authed {
		if l.status&1 == 0 {
			if d.st[0] {
				d.st = map[int8]bool{0: true, 1: true, 2: true}
			} else {
				d.st = map[int8]bool{1: true, 2: true}
			}
		} else if d.st[0] {
			d.st = map[int8]bool{0: true, 1: true, 2: true}
		} else if d.st[2] {
			d.st = map[int8]bool{1: true, 2: true}
		}
	} else if l.status&1 == 0 {
		d.st = map[int8]bool{0: true, 2: true}
	}
}

func (w *World) loc(slot int, phone string, ver int, l refLoc) {
	w.request(slot, 0x0200, phone, ver, l.body(), fmt.Sprintf("loc[acc=%d,lat=%d]", l.status&1, l.lat), func(d *rDev) { w.applyLoc(d, &l) }, "C10")
}

// quiet sends a frame that must have no effect at all (other than possibly closing c).
func (w *World) quiet(slot int, data []byte, name string, closing int, tags string) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("%s(c%d)", name, slot)
	before := w.implSnapshot()
	w.exchange(c, data, nil, closing, tags)
	w.unchanged(before, tags)
	w.check(tags)
}

func (w *World) peerClose(slot int) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("close(c%d)", slot)
	c.fc.peerClose()
	w.await(c, nil, mustClose, "C12")
	w.check("C12")
}

func (w *World) reopen(slot int, sameAddr bool) {
	if w.dead || w.slots[slot].open {
		return
	}
	addr := ""
	if sameAddr {
		addr = w.slots[slot].addr
	}
	w.log("open(c%d,same=%v)", slot, sameAddr)
	w.open(slot, addr)
	synctest.Wait()
	w.check("C12")
}

func (w *World) advance(d time.Duration) {
	if w.dead {
		return
	}
	w.log("advance(%v)", d)
	w.sleep(d)
	synctest.Wait()
	w.noExtra("C06")
	w.check("C09 C19")
}

// ---- observation ----

func (w *World) implSnapshot() string {
	var s []string
	for _, d := range storage.GetDeviceCache().ListDevice() {
		s = append(s, fmt.Sprintf("%s|%s|%d|%s|%s|%d|%s|%s|%s", d.Phone, d.Plate, d.Status, d.SessionID, d.AuthCode, d.VersionDesc, d.IMEI, d.SoftwareVersion, d.LastestComTime))
		if g, err := storage.GetGeoCache().GetGeoLatestByPhone(d.Phone); err == nil && g != nil {
			s = append(s, fmt.Sprintf("%s@%v%v%v%v", d.Phone, g.Geo, g.Location, g.Drive, g.Time))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func (w *World) unchanged(before, tags string) {
	if w.dead {
		return
	}
	if after := w.implSnapshot(); after != before {
		w.fail(tags, "state changed from\n%s\nto\n%s", before, after)
	}
}

var verDesc = map[int]model.VersionType{v2011: model.Version2011, v2013: model.Version2013, v2019: model.Version2019}

func geoMatches(g *model.DeviceGeo, phone string, l *refLoc) string {
	if g == nil || g.Geo == nil || g.Location == nil || g.Drive == nil {
		return "incomplete position"
	}
	if g.Phone != phone {
		return "position of phone " + g.Phone
	}
	if g.Location.Latitude != float64(l.lat)/1e6 || g.Location.Longitude != float64(l.lon)/1e6 || g.Location.Altitude != l.alt {
		return fmt.Sprintf("location %+v, want lat %d lon %d alt %d", *g.Location, l.lat, l.lon, l.alt)
	}
	if g.Drive.Speed != float64(l.speed)/10 || g.Drive.Direction != l.dir {
		return fmt.Sprintf("drive %+v, want speed %d dir %d", *g.Drive, l.speed, l.dir)
	}
	if m := geoMetaMatches(g.Geo, l.status); m != "" {
		return m
	}
	if want, err := time.Parse("060102150405", l.time); err == nil && !g.Time.Equal(want) {
		return fmt.Sprintf("time %v, want %v", g.Time, want)
	}
	return ""
}

func geoMetaFields(g *model.GeoMeta) []struct {
	name  string
	shift uint
	mask  uint32
	v     uint8
} {
	type f = struct {
		name  string
		shift uint
		mask  uint32
		v     uint8
	}
	return []f{
		{"ACC", 0, 1, g.ACCStatus}, {"Location", 1, 1, g.LocationStatus}, {"Latitude", 2, 1, g.LatitudeType},
		{"Longitude", 3, 1, g.LongitudeType}, {"Operating", 4, 1, g.OperatingStatus}, {"Encryption", 5, 1, g.GeoEncryptionStatus},
		{"Load", 8, 3, g.LoadStatus}, {"Fuel", 10, 1, g.FuelSystemStatus}, {"Alternator", 11, 1, g.AlternatorSystemStatus},
		{"DoorLocked", 12, 1, g.DoorLockedStatus}, {"FrontDoor", 13, 1, g.FrontDoorStatus}, {"MidDoor", 14, 1, g.MidDoorStatus},
		{"BackDoor", 15, 1, g.BackDoorStatus}, {"DriverDoor", 16, 1, g.DriverDoorStatus}, {"CustomDoor", 17, 1, g.CustomDoorStatus},
		{"GPS", 18, 1, g.GPSLocationStatus}, {"Beidou", 19, 1, g.BeidouLocationStatus}, {"GLONASS", 20, 1, g.GLONASSLocationStatus},
		{"Galileo", 21, 1, g.GalileoLocationStatus}, {"Driving", 22, 1, g.DrivingStatus},
	}
}

func geoMetaMatches(g *model.GeoMeta, status uint32) string {
	for _, f := range geoMetaFields(g) {
		if uint32(f.v) != status>>f.shift&f.mask {
			return fmt.Sprintf("status flag %s is %d, want %d (status %08x)", f.name, f.v, status>>f.shift&f.mask, status)
		}
	}
	return ""
}

// check compares everything observable with the model.
func (w *World) check(tags string) {
	if w.dead {
		return
	}
	now := time.Now()
	list := storage.GetDeviceCache().ListDevice()
	impl := map[string]*model.Device{}
	for _, d := range list {
		if impl[d.Phone] != nil {
			w.fail("C07 C20 "+tags, "phone %s listed twice", d.Phone)
			return
		}
		impl[d.Phone] = d
	}
	// expiry
	expired := map[*wConn]bool{}
	for _, ph := range sortedKeys(w.devs) {
		d := w.devs[ph]
		silentMin, silentMax := now.Sub(d.lastHi), now.Sub(d.lastLo)
		i := impl[ph]
		if i == nil {
			if silentMax <= keepP {
				t := "C09 C07 C11 C19 C20 "
				w.fail(t+tags, "device %s is gone, last active %v ago", ph, silentMin)
				return
			}
			if x, err := storage.GetDeviceCache().GetDeviceByPhone(ph); err == nil && x != nil {
				w.fail("C20 C07 C09 C19 "+tags, "device %s is not listed but still registered", ph)
				return
			}
			// legitimately expired
			delete(w.devs, ph)
			w.cx.outcome("expired")
			expired[d.conn] = true
			if !d.conn.fc.isClosed() {
				w.fail("C09 C12 C19", "device %s expired but its current connection %s is still open", ph, d.conn.name)
				return
			}
			continue
		}
		if silentMin > 3*keepP+slack {
			w.fail("C09 C19", "device %s still listed %v after its last activity", ph, silentMin)
			return
		}
		if silentMax > keepP {
			d.st[0] = true // may have been taken offline
		}
		if silentMin > keepP+checkI+slack {
			delete(d.st, 1)
			d.st[0] = true
		}
		s := int8(i.Status)
		if !d.st[s] {
			t := "C08 C20 "
			if d.authed && s == 0 {
				t = "C09 C20 "
			} else if d.authed && s == 1 && silentMin > keepP+checkI {
				t = "C09 "
			}
			w.fail(t+tags, "device %s has status %d, model allows %v (authenticated=%v, silent %v)", ph, s, d.st, d.authed, silentMin)
			return
		}
		if d.authed && s == 0 {
			w.cx.outcome("offline")
		}
		d.st = map[int8]bool{s: true} // what was observed is what it is, until something happens
	}
	for _, ph := range sortedKeys(impl) {
		if w.devs[ph] == nil {
			w.fail("C19 C20 C07 "+tags, "device %s is listed but not registered in the model", ph)
			return
		}
		d, i := w.devs[ph], impl[ph]
		if i.Plate != d.plate || i.ID != d.id {
			w.fail("C07 C05 C20 "+tags, "device %s listed with plate %q id %q, want %q %q", ph, i.Plate, i.ID, d.plate, d.id)
			return
		}
		if i.VersionDesc != verDesc[d.ver] || i.ProtocolVersion != d.proto {
			w.fail("C05 C20", "device %s listed with version %d/%d, terminal is %d", ph, i.VersionDesc, i.ProtocolVersion, d.ver)
			return
		}
		if i.SessionID != d.conn.addr || i.Conn != any(d.conn.fc) {
			w.fail("C13 "+tags, "device %s is bound to %s, want %s", ph, i.SessionID, d.conn.addr)
			return
		}
		if i.IMEI != d.imei || i.SoftwareVersion != d.sw {
			w.fail("C08 C05", "device %s has imei %q software %q, want %q %q", ph, i.IMEI, i.SoftwareVersion, d.imei, d.sw)
			return
		}
		p, err := storage.GetDeviceCache().GetDeviceByPlate(d.plate)
		if err != nil || p.Phone != i.Phone || p.Plate != i.Plate {
			w.fail("C07 C19 "+tags, "plate %s does not lead to device %s (%v)", d.plate, ph, err)
			return
		}
		p, err = storage.GetDeviceCache().GetDeviceByPhone(ph)
		if err != nil || p.Phone != i.Phone || p.Plate != i.Plate {
			w.fail("C07 "+tags, "phone %s does not lead to its device (%v)", ph, err)
			return
		}
	}
	for _, ph := range w.phones {
		d := w.devs[ph]
		if _, err := storage.GetDeviceCache().GetDeviceByPhone(ph); (err == nil) != (d != nil) {
			w.fail("C07 C19 "+tags, "lookup of phone %s: err=%v, registered=%v", ph, err, d != nil)
			return
		}
		g, err := storage.GetGeoCache().GetGeoLatestByPhone(ph)
		switch {
		case d == nil || d.geo == nil:
			if err == nil && g != nil {
				w.fail("C19 C10 "+tags, "phone %s has a position %+v although nothing was reported since it registered (registered=%v)", ph, g.Location, d != nil)
				return
			}
		case err != nil:
			w.fail("C10 "+tags, "no position for %s: %v", ph, err)
			return
		default:
			if m := geoMatches(g, ph, d.geo); m != "" {
				w.fail("C10 "+tags, "position of %s: %s", ph, m)
				return
			}
		}
	}
	for _, pl := range w.plates {
		d := w.devByPlate(pl)
		if _, err := storage.GetDeviceCache().GetDeviceByPlate(pl); (err == nil) != (d != nil) {
			w.fail("C07 C19 "+tags, "lookup of plate %s: err=%v, registered=%v", pl, err, d != nil)
			return
		}
	}
	// connections and sessions
	owner := map[string]*wConn{}
	for _, c := range w.all {
		if c.open && c.fc.isClosed() {
			if expired[c] {
				c.open = false
			} else {
				w.fail("C12 C09 C11 "+tags, "connection %s was closed by the server", c.name)
				return
			}
		}
		if c.open {
			owner[c.addr] = c
		}
	}
	for _, c := range w.all {
		s, err := storage.GetSession(c.addr)
		o := owner[c.addr]
		if o == nil {
			if err == nil {
				// the serving goroutine may still be winding down: give it time once
				w.sleep(1500 * time.Millisecond)
				synctest.Wait()
				s, err = storage.GetSession(c.addr)
			}
			if err == nil {
				w.fail("C12 "+tags, "closed connection %s (%s) is still registered", c.name, c.addr)
				return
			}
			continue
		}
		if err != nil || s == nil || s.Conn != any(o.fc) {
			w.fail("C12 "+tags, "live connection %s (%s) is not registered: %v", o.name, o.addr, err)
			return
		}
	}
	w.cx.state(w.key(now))
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// key is the canonical model state (phones and plates by index, time by age bucket).
func (w *World) key(now time.Time) string {
	var b strings.Builder
	idx := func(list []string, s string) int {
		for i, x := range list {
			if x == s {
				return i
			}
		}
		return -1
	}
	for _, ph := range sortedKeys(w.devs) {
		d := w.devs[ph]
		ci := -1
		for i, c := range w.slots {
			if c == d.conn {
				ci = i
			}
		}
		g := uint32(0)
		if d.geo != nil {
			g = d.geo.lat + 1
		}
		fmt.Fprintf(&b, "p%d l%d v%d a%v s%v c%d g%d t%d;", idx(w.phones, ph), idx(w.plates, d.plate), d.ver, d.authed, d.st, ci, g, int(now.Sub(d.lastHi)/(5*time.Second)))
	}
	for _, c := range w.slots {
		fmt.Fprintf(&b, "%v,", c.open)
	}
	return b.String()
}

// finish ends a history: everything is deregistered and closed, and nothing is left.
func (w *World) finish() {
	if !w.dead {
		w.sleep(2500 * time.Millisecond)
		synctest.Wait()
		w.noExtra("C06")
		w.cx.res.Traces++
	}
	// clean up through the protocol
	cl := &wConn{fc: newFakeConn(newAddr()), name: "cleanup"}
	gLst.ch <- cl.fc
	for _, ph := range w.phones {
		if _, err := storage.GetDeviceCache().GetDeviceByPhone(ph); err == nil {
			v := v2013
			if len(ph) == 20 {
				v = v2019
			}
			cl.fc.feed(refFrame(refContent(w.hdr(0x0003, ph, v, protoOf(v), 1), nil)))
			synctest.Wait()
		}
		storage.GetGeoCache().DelGeoByPhone(ph)
	}
	for _, c := range w.all {
		c.fc.peerClose()
	}
	cl.fc.peerClose()
	w.sleep(3 * time.Second)
	synctest.Wait()
	if w.dead {
		// do not let a broken history leak into the next one
		for _, d := range storage.GetDeviceCache().ListDevice() {
			storage.GetDeviceCache().DelDeviceByPhone(d.Phone)
		}
	}
}

func implDevice(phone string) *model.Device {
	d, err := storage.GetDeviceCache().GetDeviceByPhone(phone)
	if err != nil {
		return nil
	}
	return d
}

func implGeo(phone string) *model.DeviceGeo {
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(phone)
	if err != nil {
		return nil
	}
	return g
}
