package zzverif

import (
	"fmt"
)

// term is a registered and authenticated terminal of a world.
type term struct {
	ph, pl string
	ver    int
	slot   int
}

func (w *World) setup(slot, ver int, auth bool) term {
	t := term{newPhone(ver), newPlate(), ver, slot}
	w.phones = append(w.phones, t.ph)
	w.plates = append(w.plates, t.pl)
	w.reg(slot, t.ph, t.pl, ver)
	if auth && !w.dead {
		w.auth(slot, t.ph, ver, w.devs[t.ph].code, "good")
	}
	return t
}

func (w *World) content(t term, id uint16, sn uint16, body []byte) []byte {
	return refContent(w.hdr(id, t.ph, t.ver, protoOf(t.ver), sn), body)
}

func (w *World) fragContent(t term, id uint16, sn uint16, total, index uint16, body []byte) []byte {
	h := w.hdr(id, t.ph, t.ver, protoOf(t.ver), sn)
	h.frag, h.total, h.index = true, total, index
	return refContent(h, body)
}

func someLoc(n uint32) refLoc {
	return refLoc{alarm: n, status: 3 | n<<8&0x300, lat: 39000000 + n, lon: 116000000 + n*7, alt: uint16(10 + n),
		speed: uint16(100 + n), dir: uint16(n), time: fmt.Sprintf("2301011200%02d", n%60)}
}

// noEffect feeds a bad frame (optionally together with a valid heartbeat) and
// requires that only the heartbeat has consequences.
func (w *World) noEffect(t term, bad []byte, withHb bool, tags string) {
	if w.dead {
		return
	}
	c := w.slots[t.slot]
	before := w.implSnapshot()
	w.noExtra(tags)
	c.fc.feed(bad)
	w.cx.step()
	if !withHb {
		w.sleep(1100e6)
		w.await(c, nil, stayOpen, tags)
		w.unchanged(before, tags)
	}
	w.also = "C03"
	w.hb(t.slot, t.ph, t.ver)
	w.also = ""
}

func init() {
	register("C03", "corrupt", true, func(cx *Ctx) {
		type kind struct {
			name string
			mk   func(w *World, t, other term) (content []byte, pre func(), post func())
		}
		kinds := []kind{
			{"heartbeat", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 2, w.nextSerial(), nil), nil, nil
			}},
			{"location", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 0x200, w.nextSerial(), someLoc(5).body()), nil, nil
			}},
			{"location-off", func(w *World, t, o term) ([]byte, func(), func()) {
				l := someLoc(6)
				l.status &^= 1
				return w.content(t, 0x200, w.nextSerial(), l.body()), nil, nil
			}},
			{"auth", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 0x102, w.nextSerial(), refAuthBody(t.ver, w.devs[t.ph].code, "123456789012345", "v1.2.3")), nil, nil
			}},
			{"badauth", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 0x102, w.nextSerial(), refAuthBody(t.ver, "1", "123456789012345", "v1.2.3")), nil, nil
			}},
			{"dereg", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 3, w.nextSerial(), nil), nil, nil
			}},
			{"dereg-other", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(o, 3, w.nextSerial(), nil), nil, nil
			}},
			{"register", func(w *World, t, o term) ([]byte, func(), func()) {
				n := term{newPhone(t.ver), newPlate(), t.ver, t.slot}
				w.phones = append(w.phones, n.ph)
				w.plates = append(w.plates, n.pl)
				r := fixedReg
				r.plate = n.pl
				return w.content(n, 0x100, w.nextSerial(), r.body(t.ver)), nil, nil
			}},
			{"terminal-reply", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 1, w.nextSerial(), refGeneral(1, 0x8104, 0)), nil, nil
			}},
			{"unsupported", func(w *World, t, o term) ([]byte, func(), func()) {
				return w.content(t, 0x0f0f, w.nextSerial(), []byte{1, 2, 3}), nil, nil
			}},
		}
		vers := []int{v2013, v2019}
		for _, ver := range vers {
			for _, k := range kinds {
				ver, k := ver, k
				maxPos := 50
				if k.name == "register" {
					maxPos = 110
				}
				for pos := 0; pos < maxPos; pos++ {
					if !cx.Case("corrupt-" + k.name) {
						continue
					}
					w := newWorld(cx, 2)
					t := w.setup(0, ver, true)
					o := w.setup(1, vers[0]+vers[1]-ver, true)
					w.loc(0, t.ph, ver, someLoc(1))
					if w.dead {
						w.finish()
						continue
					}
					content, _, _ := k.mk(w, t, o)
					full := append(append([]byte(nil), content...), refXor(content))
					if pos >= len(full) {
						w.finish()
						continue
					}
					w.log("%s with byte %d corrupted in every way", k.name, pos)
					for x := 1; x < 256 && !w.dead; x++ {
						b := append([]byte(nil), full...)
						b[pos] ^= byte(x)
						w.hist = w.hist[:len(w.hist)]
						bad := refFrameCheck(b[:len(b)-1], b[len(b)-1])
						n := len(w.hist)
						w.log("bad(%x)", bad)
						w.noEffect(t, bad, x%3 == 0, "C03")
						if !w.dead {
							w.hist = w.hist[:n]
						}
						if x%64 == 0 && !w.dead {
							w.hb(1, o.ph, o.ver)
							w.hist = w.hist[:n]
						}
					}
					w.finish()
				}
				if cx.thorough() {
					// two bytes corrupted by different values
					for pos := 0; pos < 24; pos++ {
						for p2 := pos + 1; p2 < 30; p2++ {
							if !cx.Case("corrupt2-" + k.name) {
								continue
							}
							w := newWorld(cx, 2)
							t := w.setup(0, ver, true)
							o := w.setup(1, vers[0]+vers[1]-ver, true)
							if w.dead {
								w.finish()
								continue
							}
							content, _, _ := k.mk(w, t, o)
							full := append(append([]byte(nil), content...), refXor(content))
							w.log("%s with bytes %d,%d corrupted", k.name, pos, p2)
							for _, x := range []byte{1, 0x02, 0x03, 0x40, 0x80, 0xff} {
								for _, y := range []byte{1, 2, 0x7c, 0x7f, 0xfe} {
									if x == y || w.dead || p2 >= len(full) {
										continue
									}
									b := append([]byte(nil), full...)
									b[pos] ^= x
									b[p2] ^= y
									n := len(w.hist)
									bad := refFrameCheck(b[:len(b)-1], b[len(b)-1])
									w.log("bad(%x)", bad)
									w.noEffect(t, bad, false, "C03")
									if !w.dead {
										w.hist = w.hist[:n]
									}
								}
							}
							w.finish()
						}
					}
				}
			}
			// a half-received fragmented message is not touched by a corrupted fragment
			for which := 1; which <= 3; which++ {
				for pos := 0; pos < 48; pos++ {
					if !cx.Case("corrupt-fragment") {
						continue
					}
					w := newWorld(cx, 1)
					t := w.setup(0, ver, true)
					w.log("corrupted fragment %d, byte %d", which, pos)
					for x := 1; x < 256 && !w.dead; x++ {
						n := len(w.hist)
						l := someLoc(uint32(x))
						body := l.body()
						sn1, sn2 := w.nextSerial(), w.nextSerial()
						c := w.slots[0]
						f1 := w.fragContent(t, 0x200, sn1, 2, 1, body[:11])
						f2 := w.fragContent(t, 0x200, sn2, 2, 2, body[11:])
						src := f1
						if which == 2 {
							src = f2
						}
						full := append(append([]byte(nil), src...), refXor(src))
						if which == 3 { // only the check byte, in both
							pos = len(full) - 1
						}
						if pos >= len(full) {
							break
						}
						full[pos] ^= byte(x)
						bad := refFrameCheck(full[:len(full)-1], full[len(full)-1])
						w.log("fragment 1/2, bad(%x), fragment 2/2", bad)
						w.exchange(c, refFrame(f1), []expReply{{id: 0x8001, ph: t.ph, ver: t.ver, pv: protoOf(t.ver), body: general(sn1, 0x200, 0)}}, stayOpen, "C16")
						if w.dead {
							break
						}
						before := w.implSnapshot()
						c.fc.feed(bad)
						w.sleep(1100e6)
						w.await(c, nil, stayOpen, "C03")
						w.unchanged(before, "C03")
						w.deliver(c, refFrame(f2), 0x200, sn2, t.ph, t.ver, func(d *rDev) { w.applyLoc(d, &l) }, "C03")
						if !w.dead {
							w.hist = w.hist[:n]
						}
					}
					w.finish()
					if which == 3 {
						break
					}
				}
			}
		}
	})
}

func init() {
	register("C03", "check-values", true, func(cx *Ctx) {
		// every right check value x every wrong one
		for _, ver := range []int{v2013, v2019} {
			for r := 0; r < 256; r++ {
				if !cx.Case("check-values") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				base := w.content(t, 2, 0x0100, nil)
				sn := 0x0100 | uint16(refXor(base)^byte(r))
				content := w.content(t, 2, sn, nil)
				if refXor(content) != byte(r) {
					panic("harness: check value")
				}
				for x := 1; x < 256 && !w.dead; x++ {
					n := len(w.hist)
					bad := refFrameCheck(content, byte(r)^byte(x))
					w.log("bad(%x)", bad)
					w.noEffect(t, bad, x%4 != 0, "C03")
					if !w.dead {
						w.hist = w.hist[:n]
					}
				}
				w.finish()
			}
		}
	})
	// long frames: reports with extra items of every size class, wrong check byte or
	// one byte of the content damaged anywhere
	register("C03", "long", true, func(cx *Ctx) {
		for _, ver := range []int{v2013, v2019} {
			for _, n := range []int{60, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 700, 800, 900, 1000, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1019, 1020, 1021, 1022, 1023} {
				if !cx.Case("long") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				w.loc(0, t.ph, ver, someLoc(1))
				body := someLoc(4).body()
				for len(body) < n {
					body = append(body, byte(0xe0+len(body)%16), 1, byte(len(body)))
				}
				content := w.content(t, 0x200, w.nextSerial(), body[:n])
				right := refXor(content)
				for x := 1; x < 256 && !w.dead; x++ {
					h := len(w.hist)
					bad := refFrameCheck(content, right^byte(x))
					if x%2 == 0 {
						b := append([]byte(nil), content...)
						b[x*(len(b)-1)/255] ^= byte(x)
						bad = refFrameCheck(b, right)
					}
					w.log("bad(%x)", clip(bad))
					w.noEffect(t, bad, x%8 != 0, "C03")
					if !w.dead {
						w.hist = w.hist[:h]
					}
				}
				w.finish()
			}
		}
	})
	// many of them in a row: the connection stays and serves
	register("C03", "runs", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, n := range []int{1, 2, 3, 4, 5, 8, 10, 16, 32, 50, 64, 100, 128, 256, 300} {
				for _, together := range []bool{false, true} {
					if !cx.Case("runs") {
						continue
					}
					w := newWorld(cx, 2)
					t := w.setup(0, ver, true)
					o := w.setup(1, ver, true)
					if w.dead {
						w.finish()
						continue
					}
					c, before := w.slots[0], w.implSnapshot()
					w.log("%d bad frames in a row", n)
					wait := func(k int) {
						w.sleep(1100e6)
						if k%20 == 19 { // another connection keeps the devices alive
							w.also = "C03"
							w.hb(1, o.ph, ver)
							w.hb(1, t.ph, ver)
							w.also = ""
							before = w.implSnapshot()
						}
					}
					for k := 0; k < n; k++ {
						content := w.content(t, [...]uint16{0x0200, 0x0002, 0x0003, 0x0102}[k%4], w.nextSerial(), [][]byte{someLoc(uint32(k)).body(), nil, nil, []byte("1")}[k%4])
						c.fc.feed(refFrameCheck(content, refXor(content)^byte(1+k%255)))
						w.cx.step()
						if !together {
							wait(k)
						}
					}
					for k := 0; together && k <= n; k++ {
						wait(k)
					}
					w.await(c, nil, stayOpen, "C03")
					w.unchanged(before, "C03")
					w.also = "C03"
					w.hb(0, t.ph, ver)
					w.also = ""
					w.check("C03")
					w.finish()
				}
			}
		}
	})
	// frames too short for a header: all contents of 0 and 1 bytes, the 2-byte
	// ones over special bytes, and every truncation of a heartbeat and a report
	register("C03", "short", true, func(cx *Ctx) {
		try := func(w *World, t term, content []byte, x int) {
			n := len(w.hist)
			bad := refFrameCheck(content, refXor(content)^byte(x))
			w.log("bad(%x)", bad)
			w.noEffect(t, bad, x%16 != 0, "C03")
			if !w.dead {
				w.hist = w.hist[:n]
			}
		}
		for _, ver := range []int{v2013, v2019} {
			for a := -1; a < 256; a++ {
				if !cx.Case("short") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				var content []byte
				if a >= 0 {
					content = []byte{byte(a)}
				}
				for x := 1; x < 256 && !w.dead; x++ {
					try(w, t, content, x)
				}
				for _, b := range []byte{0, 1, 2, 0x7d, 0x7e, 0xff} {
					for x := 1; x < 256 && !w.dead && a >= 0; x += 2 {
						try(w, t, append(content, b), x)
					}
				}
				w.finish()
			}
			for _, id := range []uint16{2, 3, 0x100, 0x102, 0x200} {
				if !cx.Case("truncated") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				full := w.content(t, id, w.nextSerial(), someLoc(4).body())
				for n := 0; n < len(full); n++ {
					for x := 1; x < 256 && !w.dead; x += 3 {
						try(w, t, full[:n], x)
					}
				}
				w.finish()
			}
		}
	})
}
