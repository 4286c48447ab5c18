package zzverif

import (
	"fmt"
)

func init() {
	register("C06", "machine", true, func(cx *Ctx) {
		profile{name: "core-mixed", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, ops: coreOps(2, 2, 2), depth: cx.pick(4, 4), symSlots: true, symPlates: true}.explore(cx)
		if cx.thorough() {
			profile{name: "core-one", vers: []int{v2013, v2019}, nslots: 1, nplates: 2, ops: coreOps(1, 2, 2), depth: 5, symSlots: true, symPlates: true}.explore(cx)
			profile{name: "core-2011", vers: []int{v2011, v2011}, nslots: 2, nplates: 2, ops: coreOps(2, 2, 2), depth: 4, symSlots: true, symPlates: true}.explore(cx)
		}
	})
	register("C06", "pipelined", true, func(cx *Ctx) {
		// bursts: several requests in one segment, answered in order, each exactly once
		kinds := []string{"hb", "loc", "auth", "reply0001", "params0104", "media1205", "unsupported", "locOther", "badframe"}
		depth := cx.pick(5, 6)
		words2(len(kinds), 1, depth, func(seq []int) {
			if !cx.Case("pipelined") {
				return
			}
			ver := []int{v2013, v2019, v2011}[len(seq)%3]
			w := newWorld(cx, 2)
			t := w.setup(0, ver, true)
			o := w.setup(1, v2019, true)
			if w.dead {
				w.finish()
				return
			}
			var data []byte
			var exp []expReply
			var apply []func()
			desc := ""
			n := uint32(0)
			for _, k := range seq {
				sn := w.nextSerial()
				id, body, tt := uint16(2), []byte(nil), t
				n++
				switch kinds[k] {
				case "hb":
					apply = append(apply, func() { w.applyHb(w.devs[t.ph]) })
				case "loc", "locOther":
					l := someLoc(n)
					id, body = 0x200, l.body()
					if kinds[k] == "locOther" { // a gateway: two terminals behind one connection
						tt = o
					}
					tt := tt
					apply = append(apply, func() { w.applyLoc(w.devs[tt.ph], &l) })
				case "auth":
					id, body = 0x102, refAuthBody(ver, w.devs[t.ph].code, "123456789012345", "v1.2.3")
					apply = append(apply, func() { d := w.devs[t.ph]; d.st = map[int8]bool{1: true}; w.touch(d) })
				case "reply0001":
					id, body = 1, refGeneral(3, 0x8104, 0)
				case "params0104":
					id, body = 0x104, append(be16(1), 0)
				case "media1205":
					id, body = 0x1205, make([]byte, 6+28)
					copy(body[7:], unhex("230301000000230302000000"))
				case "unsupported":
					id, body = 0x0801, []byte{1, 2, 3, 0x7e}
				}
				fr := refFrame(w.content(tt, id, sn, body))
				if kinds[k] == "badframe" {
					c := w.content(tt, id, sn, body)
					fr = refFrameCheck(c, refXor(c)^1)
					id = 0
				}
				if id == 2 || id == 0x200 || id == 0x102 {
					exp = append(exp, expReply{id: 0x8001, ph: tt.ph, ver: tt.ver, pv: protoOf(tt.ver), body: general(sn, id, 0)})
				}
				data = append(data, fr...)
				desc += kinds[k] + ","
			}
			w.log("burst(%s)", desc)
			c := w.slots[0]
			c.fc.feed(data)
			w.sleep(1100e6 * 6)
			w.await(c, exp, stayOpen, "C06")
			if !w.dead {
				for _, f := range apply {
					f()
				}
				// the burst took up to 7 s of server time
				for _, d := range w.devs {
					d.lastLo = d.lastLo.Add(-8e9)
				}
				w.check("C06")
			}
			w.hb(0, t.ph, ver)
			w.hb(1, o.ph, o.ver)
			w.finish()
		})
	})
	register("C06", "unsupported-ids", true, func(cx *Ctx) {
		known := map[int]bool{1: true, 2: true, 3: true, 0x100: true, 0x102: true, 0x104: true, 0x200: true, 0x1205: true,
			0x8001: true, 0x8100: true, 0x8103: true, 0x8104: true, 0x9205: true}
		step := cx.pick(16, 16)
		for base := 0; base < 65536; base += step {
			if !cx.Case("unsupported-ids") {
				continue
			}
			ver := v2013
			if base/step%2 == 1 {
				ver = v2019
			}
			w := newWorld(cx, 1)
			t := w.setup(0, ver, true)
			for id := base; id < base+step && !w.dead; id++ {
				if known[id] {
					continue
				}
				n := len(w.hist)
				w.quiet(0, refFrame(w.content(t, uint16(id), w.nextSerial(), []byte{0, 1, 0, 2, 0})), fmt.Sprintf("unsupported %04x", id), stayOpen, "C06 C11")
				if (id-base)%4 == 3 || id-base == step-1 {
					w.hb(0, t.ph, ver)
				}
				if !w.dead {
					w.hist = w.hist[:n]
				}
			}
			w.finish()
		}
	})
	register("C06", "serials", true, func(cx *Ctx) {
		// every request serial number (all 65536) is named in its reply
		for _, ver := range []int{v2013, v2019} {
			for hi := 0; hi < 256; hi++ {
				if !cx.Case("serials") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				w.log("heartbeats and reports with serials %02x00..%02xff", hi, hi)
				for lo := 0; lo < 256 && !w.dead; lo++ {
					w.serial = uint16(hi<<8|lo) - 1
					n := len(w.hist)
					w.hb(0, t.ph, ver)
					w.serial--
					w.loc(0, t.ph, ver, someLoc(uint32(lo)))
					if !w.dead {
						w.hist = w.hist[:n]
					}
				}
				w.finish()
			}
		}
	})
	// the same for the other requests, with the serials at which something may go over
	register("C06", "special-serials", true, func(cx *Ctx) {
		sns := []uint16{0, 0xffff, 0x7d7e, 0x7e7d, 0x7d01, 0x7d02, 0x0001, 0x7fff, 0xff00, 0xfffe, 0x00ff}
		for b := uint(0); b < 16; b++ {
			sns = append(sns, 1<<b, 0xffff^1<<b)
		}
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, sn := range sns {
				if !cx.Case("special-serials") {
					continue
				}
				w := newWorld(cx, 2)
				ph, pl := newPhone(ver), newPlate()
				w.phones, w.plates = []string{ph}, []string{pl}
				each := func(f func()) {
					if w.serial = sn - 1; !w.dead {
						f()
					}
				}
				each(func() { w.reg(0, ph, pl, ver) })
				each(func() { w.reg(1, ph, pl, ver) })
				each(func() { w.auth(0, ph, ver, w.devs[ph].code, "good") })
				each(func() { w.hb(0, ph, ver) })
				each(func() { w.loc(0, ph, ver, someLoc(3)) })
				each(func() { w.auth(1, ph, ver, w.devs[ph].code+"1", "bad") })
				each(func() { w.reg(1, ph, pl, ver) })
				each(func() { w.dereg(0, ph, ver) })
				w.finish()
			}
		}
	})
	// a serial number may come again: every request is still answered
	register("C06", "equal-serials", true, func(cx *Ctx) {
		words2(5, 2, cx.pick(4, 5), func(seq []int) {
			for step := uint16(0); step < 2; step++ {
				if !cx.Case("equal-serials") {
					continue
				}
				w := newWorld(cx, 2)
				t := w.setup(0, []int{v2013, v2019}[len(seq)%2], true)
				for i, k := range seq {
					w.serial = 0x0100 + step*uint16(i/2) - 1 // all equal, or pairwise equal
					switch k {
					case 0:
						w.hb(0, t.ph, t.ver)
					case 1:
						w.loc(0, t.ph, t.ver, someLoc(uint32(i)))
					case 2:
						if !w.dead {
							w.auth(0, t.ph, t.ver, w.devs[t.ph].code, "good")
						}
					case 3:
						w.reg(0, t.ph, t.pl, t.ver)
					case 4:
						w.loc(0, t.ph, t.ver, someLoc(1))
					}
				}
				w.finish()
			}
		})
	})
	// reports with additional items of every length
	register("C06", "long-reports", true, func(cx *Ctx) {
		longReports(cx, "C06")
	})
	register("C10", "long-reports", true, func(cx *Ctx) {
		longReports(cx, "C10")
	})
	register("C06", "unregistered", true, func(cx *Ctx) {
		// every request of an unregistered phone: no reply, connection closed, others untouched
		for _, ver := range []int{v2013, v2019} {
			for _, id := range []uint16{2, 3, 0x102, 0x200} {
				for _, when := range []int{0, 1, 2} {
					if !cx.Case("unregistered") {
						continue
					}
					w := newWorld(cx, 2)
					o := w.setup(1, v2019, true)
					t := term{newPhone(ver), newPlate(), ver, 0}
					w.phones, w.plates = append(w.phones, t.ph), append(w.plates, t.pl)
					if when > 0 {
						w.reg(0, t.ph, t.pl, ver)
						if when == 2 && !w.dead {
							w.auth(0, t.ph, ver, w.devs[t.ph].code, "good")
						}
						w.dereg(0, t.ph, ver)
					}
					body := []byte(nil)
					switch id {
					case 0x102:
						body = refAuthBody(ver, "1234567890", "123456789012345", "v1")
					case 0x200:
						body = someLoc(1).body()
					}
					w.log("unregistered %04x", id)
					w.exchange(w.slots[0], refFrame(w.content(t, id, w.nextSerial(), body)), nil, mustClose, "C06")
					w.check("C06")
					w.hb(1, o.ph, o.ver)
					w.finish()
				}
			}
		}
	})
}

// words2 enumerates all sequences over {0..k-1} with length in [lo,hi].
func words2(k, lo, hi int, f func(seq []int)) {
	for n := lo; n <= hi; n++ {
		buf := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(buf)
				return
			}
			for b := 0; b < k; b++ {
				buf[i] = b
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func longReports(cx *Ctx, tag string) {
	const block = 32
	for _, ver := range []int{v2011, v2013, v2019} {
		for base := 28; base <= 1023; base += block {
			if !cx.Case("long-reports") {
				continue
			}
			w := newWorld(cx, 1)
			t := w.setup(0, ver, true)
			w.also = tag
			for n := base; n < base+block && n <= 1023 && !w.dead; n++ {
				l := someLoc(uint32(n))
				h := len(w.hist)
				w.request(0, 0x0200, t.ph, ver, locExtras(l.body(), n), fmt.Sprintf("report of %d bytes", n), func(d *rDev) { w.applyLoc(d, &l) }, "C10")
				if !w.dead {
					w.hist = w.hist[:h]
				}
			}
			w.hb(0, t.ph, ver)
			w.finish()
		}
	}
}

// locExtras fills a report up to n bytes with well-formed additional items where they fit.
func locExtras(body []byte, n int) []byte {
	for i := 0; len(body)+2 <= n; i++ {
		k := min(n-len(body)-2, 4+i%3)
		if rest := n - len(body) - 2 - k; rest == 1 {
			k++
		}
		body = append(body, []byte{0x01, 0x02, 0x03, 0x25, 0x30, 0x31, 0xe1, 0x7e}[i%8], byte(k))
		for j := 0; j < k; j++ {
			body = append(body, byte(i*16+j))
		}
	}
	for len(body) < n {
		body = append(body, 0)
	}
	return body
}
