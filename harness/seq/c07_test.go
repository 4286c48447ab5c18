package zzverif

import (
	"fmt"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"net"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/pkg/container"
)

func init() {
	// ---- C07 ----
	register("C07", "machine", true, func(cx *Ctx) {
		var ops []mop
		for c := 0; c < 2; c++ {
			for p := 0; p < 2; p++ {
				for l := 0; l < 2; l++ {
					ops = append(ops, opReg(c, p, l))
				}
				ops = append(ops, opAuth(c, p), opBadAuth(c, p), opDereg(c, p))
			}
		}
		profile{name: "registrations", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(4, 5), symSlots: true, symPlates: true}.explore(cx)
		var ops3 []mop
		for p := 0; p < 3; p++ {
			for l := 0; l < 3; l++ {
				ops3 = append(ops3, opReg(0, p, l))
			}
			ops3 = append(ops3, opDereg(0, p))
		}
		profile{name: "registrations-3", vers: []int{v2011, v2013, v2019}, nslots: 1, nplates: 3, ops: ops3, depth: cx.pick(4, 5), symPlates: true}.explore(cx)
		exp := []mop{opReg(0, 0, 0), opReg(1, 1, 0), opReg(1, 0, 1), opReg(1, 0, 0), opAuth(0, 0), opHb(0, 0), opAdv(61 * time.Second), opAdv(130 * time.Second), opAdv(200 * time.Second)}
		profile{name: "registrations-expiry", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: exp, depth: cx.pick(5, 6)}.explore(cx)
		// connections that end and come back, from the same address or another
		again := []mop{opReg(0, 0, 0), opReg(0, 0, 1), opReg(1, 0, 0), opReg(0, 1, 0), opAuth(0, 0), opCycle(0, true), opCycle(0, false), opAdv(61 * time.Second), opAdv(130 * time.Second)}
		profile{name: "registrations-reconnect", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: again, depth: cx.pick(5, 6)}.explore(cx)
	})
	register("C07", "population", true, func(cx *Ctx) {
		// many devices: every one stays registered exactly once and blocks its plate and phone
		n := cx.pick(40, 120)
		for _, ver := range []int{v2011, v2013, v2019} {
			if !cx.Case("population") {
				continue
			}
			w := newWorld(cx, 2)
			for i := 0; i < n; i++ {
				w.setup(i%2, ver, false)
			}
			for i := 0; i < n && !w.dead; i++ {
				for j := 0; j < n; j += 7 {
					w.reg(0, w.phones[i], w.plates[j], ver) // always refused
				}
				w.reg(1, newPhone(ver), w.plates[i], ver)
			}
			for i := 0; i < n; i += 2 {
				w.dereg(0, w.phones[i], ver)
			}
			for i := 0; i < n; i++ {
				w.reg(1, w.phones[i], w.plates[n-1-i], ver)
			}
			w.finish()
		}
	})

	// plates that look alike are still different plates, equal ones are the same
	register("C07", "similar-plates", true, func(cx *Ctx) {
		variants := func(b string) []string {
			return []string{b, b + " ", " " + b, strings.ToLower(b), b + "0", b[:len(b)-1], b + b[len(b)-1:], "京" + b, b + "京", "0" + b, b + "~", b + "}", b + ".", b[:1] + " " + b[1:], b[:1] + "-" + b[1:]}
		}
		vs := variants("AB1234")
		vs = append(vs, "", " ", "0")
		for _, ver := range []int{v2011, v2013, v2019} {
			for i := range vs {
				for j := range vs {
					if ver == v2013 && (vs[i] == "" || vs[j] == "") {
						continue // 37 bytes: reads as a 2011 registration
					}
					if i == j || !cx.Case("similar-plates") {
						continue
					}
					w := newWorld(cx, 2)
					a, b, c := newPhone(ver), newPhone(ver), newPhone(ver)
					w.phones, w.plates = []string{a, b, c}, []string{vs[i], vs[j]}
					w.reg(0, a, vs[i], ver)
					w.reg(1, b, vs[j], ver)
					w.reg(1, c, vs[i], ver)
					w.reg(0, c, vs[j], ver)
					w.dereg(0, a, ver)
					w.reg(1, c, vs[j], ver)
					w.reg(1, c, vs[i], ver)
					w.finish()
				}
			}
		}
	})
	// the same for phones
	register("C07", "similar-phones", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			n := 12
			if ver == v2019 {
				n = 20
			}
			for base := 0; base < 3; base++ {
				b := []byte(strings.Repeat("0", n))
				for k := range b {
					b[k] = byte('0' + (k*7*base+base)%10)
				}
				for i := 0; i < n; i++ {
					for d := 1; d < 10; d += 4 {
						if !cx.Case("similar-phones") {
							continue
						}
						o := append([]byte(nil), b...)
						o[i] = byte('0' + (int(o[i]-'0')+d)%10)
						w := newWorld(cx, 2)
						x, y := string(b), string(o)
						p, q := newPlate(), newPlate()
						w.phones, w.plates = []string{x, y}, []string{p, q}
						w.reg(0, x, p, ver)
						w.reg(1, y, q, ver)
						w.reg(1, x, newPlate(), ver)
						if !w.dead && w.devs[x] != nil && w.devs[y] != nil {
							w.auth(0, x, ver, w.devs[x].code, "good")
							w.auth(1, y, ver, w.devs[y].code, "good")
						}
						w.dereg(0, x, ver)
						w.hb(1, y, ver)
						w.reg(0, x, p, ver)
						w.finish()
					}
				}
			}
		}
	})

	// phones of different lengths with the same digits are different phones
	register("C07", "phone-lengths", true, func(cx *Ctx) {
		for _, base := range []string{"13000000001", "1", "0", "999999999999", "130000000010", "100000000000"} {
			short := strings.Repeat("0", 12-min(12, len(base))) + base
			for i, long := range []string{strings.Repeat("0", 8) + short, short + strings.Repeat("0", 8), short + short[4:], short[4:] + short} {
				for _, ver := range []int{v2011, v2013} {
					for order := 0; order < 2; order++ {
						if !cx.Case("phone-lengths") {
							continue
						}
						_ = i
						w := newWorld(cx, 2)
						x, vx, y, vy := short, ver, long, v2019
						if order == 1 {
							x, vx, y, vy = y, vy, x, vx
						}
						p, q := newPlate(), newPlate()
						w.phones, w.plates = []string{x, y}, []string{p, q}
						w.reg(0, x, p, vx)
						w.reg(1, y, p, vy)
						w.reg(1, y, q, vy)
						w.reg(1, x, newPlate(), vx)
						if !w.dead && w.devs[x] != nil && w.devs[y] != nil {
							w.auth(0, x, vx, w.devs[x].code, "good")
							w.auth(1, y, vy, w.devs[y].code, "good")
						}
						w.hb(0, x, vx)
						w.dereg(0, x, vx)
						w.hb(1, y, vy)
						w.reg(0, x, p, vx)
						w.finish()
					}
				}
			}
		}
	})

	// ---- C08 ----
	register("C08", "machine", true, func(cx *Ctx) {
		reply := func(c, p int) mop {
			return mop{fmt.Sprintf("plat8001-%d%d", c, p), c, p, -1, func(w *World, m *mctx) {
				t := term{m.phones[p], "", m.vers[p], c}
				w.quiet(c, refFrame(w.content(t, 0x8001, w.nextSerial(), refGeneral(1, 0x0102, 0))), "terminal sends 8001", mayClose, "C08")
			}, 0}
		}
		var ops []mop
		for c := 0; c < 2; c++ {
			ops = append(ops, opReg(c, 0, 0), opAuth(c, 0), opBadAuth(c, 0), opHb(c, 0), opLoc(c, 0, 0), opLoc(c, 0, 1), opDereg(c, 0), reply(c, 0))
		}
		profile{name: "auth-one", vers: []int{v2019}, nslots: 2, nplates: 1, ops: ops, depth: cx.pick(4, 5), symSlots: true}.explore(cx)
		profile{name: "auth-one-2011", vers: []int{v2011}, nslots: 2, nplates: 1, ops: ops, depth: cx.pick(3, 4), symSlots: true}.explore(cx)
		// the same single connection, deeper
		var one []mop
		for _, o := range ops {
			if o.slot == 0 {
				one = append(one, o)
			}
		}
		one = append(one, opAdv(61*time.Second), opAdv(130*time.Second))
		profile{name: "auth-deep", vers: []int{v2013}, nslots: 1, nplates: 1, ops: one, depth: cx.pick(5, 6), prefix: []mop{opReg(0, 0, 0)}}.explore(cx)
		again := []mop{opAuth(0, 0), opAuth(1, 0), opBadAuth(0, 0), opReg(0, 0, 0), opHb(0, 0), opLoc(0, 0, 0), opCycle(0, true), opCycle(1, true), opCycle(0, false), opAdv(61 * time.Second)}
		profile{name: "auth-reconnect", vers: []int{v2019}, nslots: 2, nplates: 1, ops: again, depth: cx.pick(4, 5), prefix: []mop{opReg(0, 0, 0)}}.explore(cx)
	})
	register("C08", "codes", true, func(cx *Ctx) {
		// every single-character variation of the issued code, prefixes, extensions, other devices' codes
		for _, ver := range []int{v2011, v2013, v2019} {
			for variant := 0; ; variant++ {
				w := (*World)(nil)
				if !cx.Case("codes") {
					if variant > 400 {
						break
					}
					continue
				}
				if variant > 400 {
					break
				}
				for mode := 0; mode < 3; mode++ {
					w = newWorld(cx, 2)
					t := w.setup(0, ver, mode > 0) // never authenticated, online, asleep
					o := w.setup(1, ver, true)
					if mode == 2 {
						l := someLoc(2)
						l.status &^= 1
						w.loc(0, t.ph, ver, l)
					}
					if w.dead {
						w.finish()
						continue
					}
					code := w.devs[t.ph].code
					vs := codeVariants(code)
					vs = append(vs, w.devs[o.ph].code, "AuthCode", t.ph, t.pl)
					if variant < len(vs) {
						bad := vs[variant]
						if ver == v2019 && len(bad) > 255 {
							bad = bad[:255]
						}
						w.auth(1, t.ph, ver, bad, fmt.Sprintf("code %q instead of %q", bad, code))
						// expelled: both keys are free again
						w.reg(0, t.ph, t.pl, ver)
						if !w.dead && w.devs[t.ph] != nil {
							w.auth(1, t.ph, ver, w.devs[t.ph].code, "good")
						}
						w.hb(1, o.ph, ver)
					}
					w.finish()
				}
			}
		}
		// the code of an earlier registration of the same phone with another plate
		for _, ver := range []int{v2013, v2019} {
			if !cx.Case("stale-code") {
				continue
			}
			w := newWorld(cx, 1)
			t := w.setup(0, ver, true)
			if !w.dead {
				old := w.devs[t.ph].code
				w.dereg(0, t.ph, ver)
				pl := newPlate()
				w.plates = append(w.plates, pl)
				w.reg(0, t.ph, pl, ver)
				w.auth(0, t.ph, ver, old, "stale code")
			}
			w.finish()
		}
	})
	register("C08", "identity", true, func(cx *Ctx) {
		// IMEI and software version as sent
		for _, imei := range []string{"123456789012345", "000000000000000", "1", "", "A~}456789012345"} {
			for _, sw := range []string{"", "v", "v1.2.3", "01234567890123456789", "a~}b"} {
				for _, again := range []bool{false, true} {
					if !cx.Case("identity") {
						continue
					}
					w := newWorld(cx, 2)
					t := w.setup(0, v2019, again)
					if w.dead {
						w.finish()
						continue
					}
					d := w.devs[t.ph]
					c := w.slots[1]
					sn := w.nextSerial()
					w.log("auth with imei %q software %q", imei, sw)
					w.exchange(c, refFrame(w.content(t, 0x102, sn, refAuthBody(v2019, d.code, imei, sw))), []expReply{{id: 0x8001, ph: t.ph, ver: v2019, pv: 1, body: general(sn, 0x102, 0)}}, stayOpen, "C08")
					d.authed, d.st, d.conn, d.imei, d.sw = true, map[int8]bool{1: true}, c, imei, sw
					w.touch(d)
					w.check("C08")
					w.finish()
				}
			}
		}
	})

	// ---- C09 ----
	register("C09", "one-device", true, func(cx *Ctx) {
		ops := []mop{opHb(0, 0), opLoc(0, 0, 1), opLoc(0, 0, 0), opAuth(0, 0), opAuth(1, 0), opHb(1, 0),
			opAdv(10 * time.Second), opAdv(30500 * time.Millisecond), opAdv(59 * time.Second), opAdv(60 * time.Second), opAdv(61 * time.Second), opAdv(120 * time.Second), opAdv(185 * time.Second)}
		for i, ver := range []int{v2013, v2019} {
			profile{name: fmt.Sprintf("keepalive-%d", ver), vers: []int{ver}, nslots: 2, nplates: 1, ops: ops, depth: cx.pick(5-i, 6-i), prefix: []mop{opReg(0, 0, 0), opAuth(0, 0)}}.explore(cx)
		}
		profile{name: "keepalive-unauthenticated", vers: []int{v2013}, nslots: 2, nplates: 1, ops: ops, depth: cx.pick(4, 5), prefix: []mop{opReg(0, 0, 0)}}.explore(cx)
		// reports with and without a fix, ignition on and off
		opsL := []mop{opHb(0, 0), opLocS(0, 0, 0), opLocS(0, 0, 1), opLocS(0, 0, 2), opLocS(0, 0, 3), opAdv(31 * time.Second), opAdv(59 * time.Second), opAdv(61 * time.Second)}
		profile{name: "keepalive-reports", vers: []int{v2019}, nslots: 1, nplates: 1, ops: opsL, depth: cx.pick(5, 6), prefix: []mop{opReg(0, 0, 0), opAuth(0, 0)}}.explore(cx)
		ops2 := []mop{opHb(0, 0), opLoc(0, 0, 1), opAuth(0, 0), opCycle(0, false), opCycle(0, true), opDereg(0, 0), opReg(0, 0, 0), opAdv(31 * time.Second), opAdv(61 * time.Second), opAdv(100 * time.Second)}
		profile{name: "keepalive-reconnect", vers: []int{v2019}, nslots: 1, nplates: 1, ops: ops2, depth: cx.pick(5, 6), prefix: []mop{opReg(0, 0, 0), opAuth(0, 0)}}.explore(cx)
	})
	register("C09", "two-devices", true, func(cx *Ctx) {
		ops := []mop{opHb(0, 0), opHb(1, 1), opLoc(0, 0, 1), opDereg(0, 0), opReg(0, 0, 0), opAdv(20 * time.Second), opAdv(45 * time.Second), opAdv(61 * time.Second), opAdv(130 * time.Second)}
		profile{name: "keepalive-two", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(5, 6),
			prefix: []mop{opReg(0, 0, 0), opAuth(0, 0), opAdv(7 * time.Second), opReg(1, 1, 1), opAuth(1, 1)}}.explore(cx)
	})
	register("C09", "phases", true, func(cx *Ctx) {
		// last activity at every phase of the check interval (quarter seconds), then silence observed second by second
		step := time.Duration(cx.pick(500, 100)) * time.Millisecond
		for ph := time.Duration(0); ph <= 61*time.Second; ph += step {
			for kind := 0; kind < 3; kind++ {
				if !cx.Case("phases") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, v2013, true)
				w.advance(ph)
				switch kind {
				case 0:
					w.hb(0, t.ph, t.ver)
				case 1:
					w.loc(0, t.ph, t.ver, someLoc(1))
				case 2:
					if !w.dead && w.devs[t.ph] != nil {
						w.auth(0, t.ph, t.ver, w.devs[t.ph].code, "good")
					}
				}
				for s := 0; s < 185 && !w.dead; s++ {
					n := len(w.hist)
					w.advance(time.Second)
					if !w.dead && n > 4 {
						w.hist = w.hist[:n]
					}
				}
				w.finish()
			}
		}
		// steady traffic with every period up to the keepalive: never expired
		for p := time.Second; p <= 60*time.Second; p += time.Second {
			for kind := 0; kind < 5; kind++ {
				if !cx.Case("steady") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, v2019, true)
				for s := time.Duration(0); s < 400*time.Second && !w.dead; s += p {
					n := len(w.hist)
					w.advance(p)
					if kind == 0 {
						w.hb(0, t.ph, t.ver)
					} else {
						l := someLoc(uint32(s / time.Second))
						l.status = l.status&^3 | uint32(kind-1)
						if p%(2*time.Second) == 0 { // a terminal whose clock is behind
							l.time = fmt.Sprintf("0001010000%02d", s/time.Second%60)
						}
						w.loc(0, t.ph, t.ver, l)
					}
					if !w.dead {
						w.hist = w.hist[:n]
					}
				}
				w.finish()
			}
		}
	})

	// ---- C10 ----
	register("C10", "ring", false, func(cx *Ctx) {
		for size := int32(1); size <= 12; size++ {
			if !cx.Case("ring") {
				continue
			}
			rb := container.NewRingBuffer(size)
			if rb.Latest() != nil {
				cx.Fail("C10", "empty ring of size %d has a latest element %v", size, rb.Latest())
			}
			for i := 0; i < int(size)*4+3; i++ {
				cx.step()
				rb.Write(i)
				if l := rb.Latest(); l != any(i) {
					cx.Fail("C10", "ring of size %d: latest after %d writes is %v, want %d", size, i+1, l, i)
					break
				}
			}
			cx.res.Traces++
		}
	})
	register("C10", "many-reports", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			for pat := 0; pat < 8; pat++ {
				if !cx.Case("many-reports") {
					continue
				}
				w := newWorld(cx, 2)
				a, b := w.setup(0, ver, true), w.setup(1, v2019, true)
				for i := uint32(0); i < uint32(cx.pick(350, 1000)) && !w.dead; i++ {
					n := len(w.hist)
					t := a
					if pat>>(i%3)&1 == 1 {
						t = b
					}
					w.loc(t.slot, t.ph, t.ver, someLoc(i*2+1))
					if !w.dead {
						w.hist = w.hist[:n]
					}
				}
				w.finish()
			}
		}
	})
	register("C10", "fields", true, func(cx *Ctx) {
		ls := locCases()
		const chunk = 64
		for i := 0; i < len(ls); i += chunk {
			if !cx.Case("fields") {
				continue
			}
			w := newWorld(cx, 1)
			t := w.setup(0, []int{v2013, v2019}[i/chunk%2], true)
			for _, l := range ls[i:min(i+chunk, len(ls))] {
				l := l
				n := len(w.hist)
				w.loc(0, t.ph, t.ver, l)
				if !w.dead {
					w.hist = w.hist[:n]
				}
			}
			w.finish()
		}
		// every status bit, every alarm bit
		if cx.Case("bits") {
			w := newWorld(cx, 1)
			t := w.setup(0, v2013, true)
			for b := 0; b < 32; b++ {
				for _, inv := range []uint32{0, 0xffffffff} {
					l := someLoc(uint32(b))
					l.status = 1<<b ^ inv
					w.loc(0, t.ph, t.ver, l)
					l2 := someLoc(uint32(b) + 40)
					l2.alarm = 1<<b ^ inv
					w.loc(0, t.ph, t.ver, l2)
				}
			}
			w.finish()
		}
	})
	register("C10", "orders", true, func(cx *Ctx) {
		// the latest is the last received, whatever its time stamp or content
		vals := []refLoc{someLoc(1), someLoc(2), someLoc(3)}
		vals[0].time, vals[1].time, vals[2].time = "230301120000", "220101000000", "991231235959"
		vals[1].status = 0
		vals[2].lat, vals[2].lon = 0, 0
		words2(3, 1, cx.pick(6, 8), func(seq []int) {
			if !cx.Case("orders") {
				return
			}
			w := newWorld(cx, 1)
			t := w.setup(0, v2013, len(seq)%2 == 0)
			for _, k := range seq {
				w.loc(0, t.ph, t.ver, vals[k])
			}
			w.finish()
		})
		// reports mixed with everything that must not disturb them, two devices
		ops := []mop{opLoc(0, 0, 1), opLoc(1, 1, 1), opLoc(1, 0, 0), opHb(0, 0), opAuth(0, 0), opDereg(0, 0), opReg(0, 0, 0), opReg(1, 0, 0), opBadAuth(1, 1), opAdv(200 * time.Second)}
		profile{name: "reports-mixed", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(5, 6), prefix: []mop{opReg(0, 0, 0), opReg(1, 1, 1)}}.explore(cx)
	})

	// ---- C12 ----
	register("C12", "machine", true, func(cx *Ctx) {
		malformed := func(c int) mop {
			return mop{fmt.Sprintf("malformed%d", c), c, -1, -1, func(w *World, m *mctx) {
				w.quiet(c, refFrame([]byte{0x00, 0x02, 0x00}), "malformed", mayClose, "C12 C11")
			}, 0}
		}
		unsup := func(c int) mop {
			return mop{fmt.Sprintf("unsup%d", c), c, -1, -1, func(w *World, m *mctx) {
				w.quiet(c, refFrame(w.content(term{m.phones[0], "", m.vers[0], c}, 0x0777, w.nextSerial(), nil)), "unsupported", stayOpen, "C12 C06")
			}, 0}
		}
		readErr := func(c int) mop {
			return mop{fmt.Sprintf("reset%d", c), c, -1, -1, func(w *World, m *mctx) {
				w.log("reset(c%d)", c)
				k := w.slots[c]
				k.fc.resetOnce(&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET})
				w.await(k, nil, mustClose, "C12")
				w.check("C12")
			}, 0}
		}
		// the peer vanishes while the server pauses after an unsupported message, and a new connection gets the same address
		reuse := func(c int, fail bool) mop {
			return mop{fmt.Sprintf("reuse%d%v", c, fail), c, -1, -1, func(w *World, m *mctx) {
				w.log("reuse(c%d,sendfails=%v)", c, fail)
				k := w.slots[c]
				k.fc.feed(refFrame(w.content(term{m.phones[0], "", m.vers[0], c}, 0x0777, w.nextSerial(), nil)))
				synctest.Wait()
				if fail {
					k.fc.failWrites(net.ErrClosed)
					gServ.Send(k.addr, &model.Msg8104{Header: mkHeader(v2013, 0x8104, 1)})
				} else {
					k.fc.peerClose()
				}
				synctest.Wait()
				k.open = false
				w.open(c, k.addr)
				synctest.Wait()
				w.sleep(3 * time.Second)
				synctest.Wait()
				w.noExtra("C12")
				if !k.fc.isClosed() {
					w.fail("C12", "old connection %s not closed", k.name)
				}
				w.check("C12")
			}, 0}
		}
		sendFail := func(c int) mop {
			return mop{fmt.Sprintf("sendfail%d", c), c, -1, -1, func(w *World, m *mctx) {
				w.log("sendfail(c%d)", c)
				k := w.slots[c]
				k.fc.failWrites(net.ErrClosed)
				gServ.Send(k.addr, &model.Msg8104{Header: mkHeader(v2013, 0x8104, 1)})
				synctest.Wait()
				w.sleep(2 * time.Second)
				synctest.Wait()
				if !k.fc.isClosed() {
					k.fc.peerClose()
					w.sleep(2 * time.Second)
					synctest.Wait()
				}
				k.open = false
				w.check("C12")
			}, 0}
		}
		// a write fails for another reason: the connection is kept or closed, and the registry says which
		writeErr := func(c int) mop {
			return mop{fmt.Sprintf("writeerr%d", c), c, -1, -1, func(w *World, m *mctx) {
				w.log("a write fails (c%d)", c)
				k := w.slots[c]
				k.fc.failWrites(&net.OpError{Op: "write", Net: "tcp", Err: syscall.ETIMEDOUT})
				gServ.Send(k.addr, &model.Msg8104{Header: mkHeader(v2013, 0x8104, 1)})
				synctest.Wait()
				w.sleep(2 * time.Second)
				synctest.Wait()
				k.fc.mu.Lock()
				k.fc.wErrAt, k.fc.wErr, k.fc.out = -1, nil, nil
				k.fc.mu.Unlock()
				k.open = !k.fc.isClosed()
				w.check("C12")
			}, 0}
		}
		var ops []mop
		for c := 0; c < 2; c++ {
			ops = append(ops, writeErr(c))
			ops = append(ops, opCycle(c, true), opCycle(c, false), malformed(c), unsup(c), readErr(c), reuse(c, false), reuse(c, true), sendFail(c), opHb(c, 0), opReg(c, 0, 0))
		}
		ops = append(ops, opAdv(200*time.Second))
		profile{name: "sessions", vers: []int{v2013}, nslots: 2, nplates: 1, ops: ops, depth: cx.pick(4, 5), symSlots: true}.explore(cx)
	})
	register("C12", "many", true, func(cx *Ctx) {
		// many connections at once, closed in several orders, also reusing addresses
		for pat := 0; pat < 6; pat++ {
			if !cx.Case("many") {
				continue
			}
			n := cx.pick(60, 200)
			w := newWorld(cx, n)
			w.check("C12")
			for i := 0; i < n && !w.dead; i++ {
				k := i
				switch pat % 3 {
				case 1:
					k = n - 1 - i
				case 2:
					k = i * 7 % n
				}
				if w.slots[k].open {
					w.peerClose(k)
				}
				if pat >= 3 {
					w.reopen(k, true)
				}
			}
			w.finish()
		}
	})

	// ---- C19 ----
	register("C19", "machine", true, func(cx *Ctx) {
		for _, acc := range []uint32{0, 1} {
			ops := []mop{opReg(0, 0, 0), opReg(1, 0, 1), opAuth(0, 0), opAuth(1, 0), opBadAuth(0, 0), opBadAuth(1, 0), opDereg(0, 0), opDereg(1, 0), opLoc(0, 0, acc), opLoc(1, 0, acc), opHb(1, 0), opAdv(200 * time.Second)}
			profile{name: fmt.Sprintf("removal-%d", acc), vers: []int{v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(5-int(1-acc), 6), prefix: []mop{opReg(0, 0, 0), opLoc(0, 0, acc)}}.explore(cx)
		}
		// any number of positions is gone with the device
		for _, n := range []int{1, 2, 99, 100, 101, 102, 199, 200, 201, cx.pick(250, 1000)} {
			for how := 0; how < 3; how++ {
				if !cx.Case("many-positions") {
					continue
				}
				w := newWorld(cx, 2)
				t := w.setup(0, v2013, true)
				for round := 0; round < 3 && !w.dead; round++ {
					hn := len(w.hist)
					for i := 0; i < n && !w.dead; i++ {
						w.hist = w.hist[:hn]
						w.loc(0, t.ph, t.ver, someLoc(uint32(i)))
					}
					switch how {
					case 0:
						w.dereg(0, t.ph, t.ver)
					case 1:
						w.auth(0, t.ph, t.ver, "0", "bad")
					case 2:
						w.advance(190 * time.Second)
						w.reopen(0, false)
					}
					w.reg(0, t.ph, t.pl, t.ver)
					w.hb(0, t.ph, t.ver)
				}
				w.finish()
			}
		}
		// removal at every point of the old device's expiry schedule, followed by a fresh registration on another connection
		for off := 0; off <= 185; off += cx.pick(5, 1) {
			for how := 0; how < 3; how++ {
				for gap := 0; gap < 3; gap++ {
					if !cx.Case("reregister-phase") {
						continue
					}
					w := newWorld(cx, 2)
					t := w.setup(0, v2013, true)
					w.loc(0, t.ph, t.ver, someLoc(4))
					w.advance(time.Duration(off) * time.Second)
					if !w.dead && w.devs[t.ph] != nil && w.slots[0].open {
						switch how {
						case 0:
							w.dereg(0, t.ph, t.ver)
						case 1:
							w.auth(0, t.ph, t.ver, "0", "bad")
						case 2:
							w.advance(190 * time.Second)
						}
					}
					w.advance(time.Duration(gap*29) * time.Second)
					if w.devs[t.ph] == nil {
						w.reg(1, t.ph, t.pl, t.ver)
					}
					if !w.dead && w.devs[t.ph] != nil {
						w.auth(1, t.ph, t.ver, w.devs[t.ph].code, "good")
					}
					for s := 0; s < 20 && !w.dead; s++ {
						n := len(w.hist)
						w.advance(10 * time.Second)
						w.hb(1, t.ph, t.ver)
						if !w.dead {
							w.hist = w.hist[:n]
						}
					}
					w.finish()
				}
			}
		}
	})
}

func codeVariants(code string) (r []string) {
	seen := map[string]bool{code: true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	add("")
	for i := 0; i <= len(code); i++ {
		add(code[:i])
		add(code[i:])
		for _, c := range "0123456789aA_ \x00" {
			add(code[:i] + string(c) + code[i:])
			if i < len(code) {
				add(code[:i] + string(c) + code[i+1:])
			}
		}
		if i < len(code) {
			add(code[:i] + code[i+1:])
		}
	}
	return
}
