package zzverif

import (
	"bytes"
	"fmt"
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// hostile feeds arbitrary bytes on slot 0 and requires that everybody else is unaffected:
// witness B keeps its state and its answers, nothing appears on B's connection, and
// new connections are still accepted and served.
type arena struct {
	w  *World
	b  term
	a  term
	n  int
	hn int
}

func newArena(cx *Ctx, ver int) *arena {
	w := newWorld(cx, 3)
	ar := &arena{w: w}
	// the witness' number differs from the hostile ones in several bytes, so that no
	// single mutated byte turns a hostile message into a legitimate one of the witness
	gPhone += 777777777
	ar.b = w.setup(1, v2019, true)
	gPhone -= 777777777
	w.loc(1, ar.b.ph, ar.b.ver, someLoc(9))
	ar.a = w.setup(0, ver, true)
	delete(w.devs, ar.a.ph) // from now on A belongs to the hostile side
	w.phones, w.plates = w.phones[:1], w.plates[:1]
	ar.hn = len(w.hist)
	return ar
}

func (ar *arena) bSnapshot() string {
	d, err := storage.GetDeviceCache().GetDeviceByPhone(ar.b.ph)
	if err != nil {
		return "gone: " + err.Error()
	}
	p, err := storage.GetDeviceCache().GetDeviceByPlate(ar.b.pl)
	g, gerr := storage.GetGeoCache().GetGeoLatestByPhone(ar.b.ph)
	geo := fmt.Sprint(gerr)
	if gerr == nil {
		geo = fmt.Sprintf("%v %v %v %v", *g.Geo, *g.Location, *g.Drive, g.Time)
	}
	return fmt.Sprintf("%s|%s|%d|%s|%s|%d|%s|%s|%v|%v|%v", d.Phone, d.Plate, d.Status, d.SessionID, d.AuthCode, d.VersionDesc, d.IMEI, d.SoftwareVersion, p == d, err, geo)
}

// attack returns whether the hostile connection is still open.
func (ar *arena) attack(desc string, chunks ...[]byte) bool {
	w := ar.w
	if w.dead {
		return false
	}
	w.hist = w.hist[:ar.hn]
	c := w.slots[0]
	if !c.open {
		w.open(0, "")
		synctest.Wait()
		c = w.slots[0]
	}
	ar.n++
	w.log("%s(%x)", desc, chunks)
	before := ar.bSnapshot()
	c.fc.feed(chunks...)
	synctest.Wait()
	var extra *wConn
	if ar.n%4 == 1 || !c.fc.idle() && ar.n%2 == 1 { // at the same instant others connect and leave
		extra = w.open(2, "")
		synctest.Wait()
		extra.fc.peerClose()
		extra.open = false
		w.all = w.all[:len(w.all)-1]
		synctest.Wait()
		c.fc.takeOut()
		c.open = !c.fc.isClosed()
		if out := w.slots[1].fc.takeOut(); len(out) > 0 {
			w.fail("C11", "bytes %x appeared on another connection", out)
			return false
		}
		ar.beat()
		if w.dead {
			return false
		}
	}
	for i := 0; i < 12 && !c.fc.idle(); i++ {
		w.sleep(time.Second)
		synctest.Wait()
	}
	for i := 0; i < 3 && extra != nil && !extra.fc.isClosed(); i++ {
		w.sleep(time.Second)
		synctest.Wait()
	}
	if extra != nil && !extra.fc.isClosed() {
		w.fail("C11 C12", "a connection that came and went during the attack is not closed")
		return false
	}
	c.fc.takeOut()
	if c.fc.isClosed() {
		c.open = false
		w.cx.outcome("closed")
	} else {
		w.cx.outcome("open")
		if !c.fc.idle() {
			w.fail("C11", "the server stopped reading connection %s", c.name)
			return false
		}
	}
	if out := w.slots[1].fc.takeOut(); len(out) > 0 {
		w.fail("C11", "bytes %x appeared on another connection", out)
		return false
	}
	if after := ar.bSnapshot(); after != before {
		w.fail("C11", "another device changed from %s to %s", before, after)
		return false
	}
	for _, d := range storage.GetDeviceCache().ListDevice() {
		if d.Phone != ar.b.ph && d.Phone != ar.a.ph { // registered by the attack: remove it again
			storage.GetDeviceCache().DelDeviceByPhone(d.Phone)
		}
	}
	// the witness is still answered
	ar.beat()
	if _, err := storage.GetDeviceCache().GetDeviceByPhone(ar.b.ph); err != nil && !w.dead {
		w.fail("C11", "the witness device is gone")
	}
	return c.open && !w.dead
}

// beat: the witness is answered.
func (ar *arena) beat() {
	w := ar.w
	sn := w.nextSerial()
	w.exchange(w.slots[1], refFrame(w.content(ar.b, 2, sn, nil)), []expReply{{id: 0x8001, ph: ar.b.ph, ver: ar.b.ver, pv: 1, body: general(sn, 2, 0)}}, stayOpen, "C11")
	if !w.dead {
		w.touch(w.devs[ar.b.ph])
	}
}

func (ar *arena) end() {
	w := ar.w
	if !w.dead {
		// new connections are accepted and served
		t := term{newPhone(v2013), newPlate(), v2013, 2}
		w.phones, w.plates = append(w.phones, t.ph), append(w.plates, t.pl)
		storage.GetDeviceCache().DelDeviceByPhone(ar.a.ph)
		w.open(2, "")
		w.hist = w.hist[:ar.hn]
		w.all = []*wConn{w.slots[1], w.slots[2]}
		w.reg(2, t.ph, t.pl, t.ver)
		w.hb(2, t.ph, t.ver)
		w.hb(1, ar.b.ph, ar.b.ver)
	} else {
		storage.GetDeviceCache().DelDeviceByPhone(ar.a.ph)
	}
	w.all = append(w.all, w.slots[0])
	w.finish()
	w.cx.res.Traces += int64(ar.n)
}

func validBodies(ver int, code string) map[uint16][]byte {
	r := fixedReg
	r.plate = "京Z99999"
	p := append([]byte{2}, be32(1)...)
	p = append(append(p, 4), be32(60)...)
	p = append(append(append(p, be32(0x13)...), 3), "abc"...)
	media := append([]byte{1}, unhex("230301000000230302000000")...)
	media = append(media, make([]byte, 11)...)
	return map[uint16][]byte{
		0x0001: refGeneral(1, 0x8104, 0), 0x0002: nil, 0x0003: nil, 0x0100: r.body(ver),
		0x0102: refAuthBody(ver, code, "123456789012345", "v1"), 0x0104: append(be16(1), p...), 0x0200: someLoc(3).body(),
		0x1205: append(append(be16(1), be32(1)...), append(append([]byte{}, media...), be32(9)...)...),
		0x8001: refGeneral(1, 0x0102, 0), 0x8100: append(append(be16(1), 0), "123"...), 0x8103: p, 0x8104: nil, 0x9205: media,
	}
}

var knownIDs = []uint16{1, 2, 3, 0x100, 0x102, 0x104, 0x200, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x0004, 0x0800, 0x0801}

func init() {
	vers := []int{v2013, v2019, v2011}
	register("C11", "truncations", true, func(cx *Ctx) {
		for _, ver := range vers {
			for _, id := range knownIDs {
				for frag := 0; frag < 2; frag++ {
					if !cx.Case("truncations") {
						continue
					}
					ar := newArena(cx, ver)
					body := validBodies(ver, "1")[id]
					for n := 0; n <= 160 && !ar.w.dead; n++ {
						var c []byte
						if frag == 0 {
							c = ar.w.content(ar.a, id, ar.w.nextSerial(), body)
						} else {
							c = ar.w.fragContent(ar.a, id, ar.w.nextSerial(), 1, 1, body)
						}
						if n > len(c)+12 {
							break
						}
						if n <= len(c) {
							c = c[:n]
						} else {
							c = append(c, bytes.Repeat([]byte{0x41}, n-len(c))...)
						}
						ar.attack(fmt.Sprintf("%04x cut to %d", id, n), refFrame(c))
						// the same with a length field that matches what is there
						if n > 4 && len(c) > 4 {
							hl := 12
							if ver == v2019 {
								hl = 17
							}
							if frag == 1 {
								hl += 4
							}
							if bl := len(c) - hl; bl >= 0 {
								c2 := append([]byte(nil), c...)
								at := rd16(c2[2:])&^0x3ff | uint16(bl)
								copy(c2[2:], be16(at))
								ar.attack(fmt.Sprintf("%04x body %d", id, bl), refFrame(c2))
							}
						}
					}
					ar.end()
				}
			}
		}
	})
	register("C11", "attributes", true, func(cx *Ctx) {
		for hi := 0; hi < 256; hi++ {
			for _, id := range []uint16{2, 0x200, 0x100} {
				if id != 2 && !cx.thorough() && hi%4 != 0 {
					continue
				}
				if !cx.Case("attributes") {
					continue
				}
				ar := newArena(cx, v2013)
				for lo := 0; lo < 256 && !ar.w.dead; lo++ {
					c := ar.w.content(ar.a, id, ar.w.nextSerial(), validBodies(v2013, "1")[id])
					c[2], c[3] = byte(hi), byte(lo)
					ar.attack("attribute word", refFrame(c))
				}
				ar.end()
			}
		}
	})
	register("C11", "bodies", true, func(cx *Ctx) {
		for _, ver := range vers {
			for _, id := range knownIDs {
				for _, fill := range []byte{0, 1, 0x20, 0x41, 0x7d, 0x7e, 0x80, 0xff} {
					if !cx.Case("bodies") {
						continue
					}
					ar := newArena(cx, ver)
					max := cx.pick(100, 1023)
					for n := 0; n <= max && !ar.w.dead; n++ {
						ar.attack("filled body", refFrame(ar.w.content(ar.a, id, ar.w.nextSerial(), bytes.Repeat([]byte{fill}, n))))
					}
					ar.end()
				}
			}
		}
	})
	register("C11", "fragments", true, func(cx *Ctx) {
		vals := []uint16{0, 1, 2, 3, 0x7d7e, 0xffff}
		for _, ver := range []int{v2013, v2019} {
			for _, id := range []uint16{0x200, 0x100, 0x102, 0x104, 3, 0x0801} {
				for _, t1 := range vals {
					for _, i1 := range vals {
						if !cx.Case("fragments") {
							continue
						}
						ar := newArena(cx, ver)
						body := validBodies(ver, "1")[id]
						for _, t2 := range vals {
							for _, i2 := range vals {
								k := len(body) / 2
								ar.attack("fragment pair", refFrame(ar.w.fragContent(ar.a, id, ar.w.nextSerial(), t1, i1, body[:k])),
									refFrame(ar.w.fragContent(ar.a, id, ar.w.nextSerial(), t2, i2, body[k:])))
							}
						}
						ar.end()
					}
				}
			}
		}
	})
	register("C11", "garbage", true, func(cx *Ctx) {
		al := []byte{0x7e, 0x7d, 0x00, 0x01, 0x02, 0xff}
		words(al, 0, 2, func(pre []byte) {
			pre = append([]byte(nil), pre...)
			if len(pre) < 2 {
				return
			}
			words(al, 0, 2, func(mid []byte) {
				if !cx.Case("garbage") {
					return
				}
				mid = append([]byte(nil), mid...)
				ar := newArena(cx, v2013)
				words(al, 0, cx.pick(2, 3), func(w []byte) {
					s := append(append(append([]byte{0x7e}, pre...), mid...), w...)
					ar.attack("garbage", s)
				})
				ar.end()
			})
		})
	})
	register("C11", "phones-and-plates", true, func(cx *Ctx) {
		// every byte value in the phone (not only digits), in plates (invalid GBK), in names
		for _, ver := range vers {
			for _, id := range []uint16{2, 3, 0x100, 0x102, 0x200, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x104} {
				if !cx.Case("phone-bytes") {
					continue
				}
				ar := newArena(cx, ver)
				for pos := 0; pos < 10 && !ar.w.dead; pos++ {
					for v := 0; v < 256; v++ {
						c := ar.w.content(ar.a, id, ar.w.nextSerial(), validBodies(ver, "1")[id])
						off := 4
						if ver == v2019 {
							off = 5
						} else if pos > 5 {
							break
						}
						c[off+pos] = byte(v)
						ar.attack("phone byte", refFrame(c))
					}
				}
				ar.end()
			}
			for v := 0; v < 256; v++ {
				if ver != v2013 && !cx.thorough() && v%16 != 0 && v < 0x7c {
					continue
				}
				if !cx.Case("plate-bytes") {
					continue
				}
				ar := newArena(cx, ver)
				b := validBodies(ver, "1")[0x100]
				for v2 := 0; v2 < 256 && !ar.w.dead; v2++ {
					bb := append([]byte(nil), b...)
					bb[len(bb)-2], bb[len(bb)-1] = byte(v), byte(v2)
					if v2%3 == 0 {
						bb[0], bb[1], bb[2], bb[3] = byte(v2), byte(v), byte(v), byte(v2)
						bb[5], bb[12], bb[15] = byte(v), byte(v2), byte(v2)
					}
					t := ar.a
					t.ph = newPhone(ver)
					ar.attack("plate bytes", refFrame(ar.w.content(t, 0x100, ar.w.nextSerial(), bb)))
				}
				ar.end()
			}
		}
	})
	register("C11", "parameters", true, func(cx *Ctx) {
		ids := []uint32{0, 1, 0x10, 0x31, 0x32, 0x75, 0x76, 0x84, 0x110, 0x999, 0xffffffff}
		for _, msg := range []uint16{0x0104, 0x8103} {
			for _, cnt := range []byte{0, 1, 2, 3, 255} {
				for _, id := range ids {
					if !cx.Case("parameters") {
						continue
					}
					ar := newArena(cx, v2013)
					for _, l := range []int{0, 1, 2, 3, 4, 5, 8, 9, 127, 128, 255} {
						for _, have := range []int{0, 1, 2, 4, 5, 200, 300} {
							b := []byte{cnt}
							if msg == 0x104 {
								b = append(be16(7), cnt)
							}
							b = append(append(b, be32(id)...), byte(l))
							b = append(b, bytes.Repeat([]byte{0x81}, have)...)
							ar.attack("parameter list", refFrame(ar.w.content(ar.a, msg, ar.w.nextSerial(), b)))
						}
					}
					ar.end()
				}
			}
		}
	})
	register("C11", "machine", true, func(cx *Ctx) {
		// every ordering of connects, requests, malformed frames, silence; the model watches everybody
		mal := func(c, k int) mop {
			return mop{fmt.Sprintf("malformed%d-%d", c, k), c, -1, -1, func(w *World, m *mctx) {
				t := term{m.phones[0], "", m.vers[0], c}
				full := w.content(t, 0x200, w.nextSerial(), someLoc(1).body())
				fr := [][]byte{refFrame([]byte{0, 2, 0}), refFrame(full[:len(full)-3]), refFrame(w.fragContent(t, 0x200, w.nextSerial(), 0, 0, nil))}[k]
				w.quietFrom(c, fr, "malformed", mayClose, "C11")
			}, 0}
		}
		ops := []mop{opReg(0, 0, 0), opReg(1, 1, 1), opAuth(0, 0), opHb(0, 0), opHb(1, 1), opLoc(1, 1, 1), opDereg(0, 0), mal(0, 0), mal(0, 1), mal(1, 0), mal(1, 2), opCycle(0, true), opAdv(61 * time.Second), opAdv(200 * time.Second)}
		// one device growing old in every state, with and without its connection; afterwards others are served
		gone := mop{"close0", -1, -1, -1, func(w *World, m *mctx) { w.peerClose(0) }, 0}
		aging := []mop{opAuth(0, 0), opBadAuth(0, 0), opHb(0, 0), opLoc(0, 0, 0), opLoc(0, 0, 1), opDereg(0, 0), opReg(0, 0, 0), mal(0, 1), gone, opAdv(61 * time.Second), opAdv(200 * time.Second)}
		profile{name: "aging", vers: []int{v2019, v2013}, nslots: 2, nplates: 2, ops: aging, depth: cx.pick(4, 5), prefix: []mop{opReg(0, 0, 0), opAuth(0, 0)},
			suffix: func(w *World, m *mctx) {
				w.advance(61 * time.Second)
				w.reg(1, m.phones[1], m.plates[1], m.vers[1])
				w.hb(1, m.phones[1], m.vers[1])
			}}.explore(cx)
		profile{name: "robust", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: ops, depth: cx.pick(4, 5), symSlots: true}.explore(cx)
	})
}

// quietFrom is quiet, but replies to the malformed frame itself are not judged.
func (w *World) quietFrom(slot int, data []byte, name string, closing int, tags string) {
	c := w.slots[slot]
	if w.dead || !c.open {
		return
	}
	w.log("%s(c%d)", name, slot)
	w.noExtra(tags)
	c.fc.feed(data)
	synctest.Wait()
	for i := 0; i < 6 && !c.fc.idle(); i++ {
		w.sleep(time.Second)
		synctest.Wait()
	}
	c.fc.takeOut()
	w.noExtra(tags)
	if c.fc.isClosed() {
		c.open = false
	}
	w.check(tags)
}
