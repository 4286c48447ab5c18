package zzverif

import (
	"bytes"
	"fmt"
	"testing/synctest"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
)

// ---- fragment token sequences ----

// frTok is one fragment of one of the streams of a history.
type frTok struct {
	stream byte // A: P 0200 of 3, Y: P 0200 of 2, Z: P 0200 of 4, B: Q 0200 of 2, X: P 0102 of 2; W: whole 0200 of P; H: heartbeat of Q
	idx    int
}

var frTotal = map[byte]int{'A': 3, 'Y': 2, 'Z': 4, 'B': 2, 'X': 2}

func (t frTok) String() string {
	if t.idx == 0 {
		return string(t.stream)
	}
	return fmt.Sprintf("%c%d", t.stream, t.idx)
}

// frState is what the model knows about the fragments of one (terminal, message id).
type frRun struct {
	total int
	next  int // next expected index of a clean run; 0: none
	// the same, ignoring repeated fragments and fragments with another count
	lax map[int]int
}

type frWorld struct {
	w    *World
	p, q term
	gen  map[byte]uint32
	runs map[byte]*frRun // by group: 'L' (P 0200), 'X' (P 0102), 'B' (Q 0200)
	msgs map[byte][]byte // body of the current generation of a stream
	sns  map[byte]uint16 // serial of its first fragment
	nloc uint32
}

func newFrWorld(cx *Ctx, ver int) *frWorld {
	w := newWorld(cx, 2)
	f := &frWorld{w: w, gen: map[byte]uint32{}, runs: map[byte]*frRun{}, msgs: map[byte][]byte{}, sns: map[byte]uint16{}}
	f.p = w.setup(0, ver, true)
	f.q = w.setup(1, v2013, true)
	return f
}

func frGroup(s byte) byte {
	if s == 'A' || s == 'Y' || s == 'Z' {
		return 'L'
	}
	return s
}

func (f *frWorld) newBody(s byte) []byte {
	f.nloc++
	if s == 'X' {
		return refAuthBody(f.p.ver, f.w.devs[f.p.ph].code, f.imei(f.nloc), "v1.2.3")
	}
	return someLoc(f.nloc).body()
}

func (f *frWorld) imei(n uint32) string { return fmt.Sprintf("%015d", 100000000000000+uint64(n)) }

func (f *frWorld) step(tok frTok) {
	w := f.w
	if w.dead {
		return
	}
	switch tok.stream {
	case 'W':
		f.nloc++
		w.loc(0, f.p.ph, f.p.ver, someLoc(f.nloc))
		return
	case 'H':
		w.hb(1, f.q.ph, f.q.ver)
		return
	}
	t, id := f.p, uint16(0x0200)
	if tok.stream == 'B' {
		t = f.q
	}
	if tok.stream == 'X' {
		id = 0x0102
	}
	total := frTotal[tok.stream]
	sn := w.nextSerial()
	if tok.idx == 1 || f.msgs[tok.stream] == nil {
		f.msgs[tok.stream] = f.newBody(tok.stream)
		f.gen[tok.stream] = f.nloc
		f.sns[tok.stream] = sn
	}
	body := f.msgs[tok.stream]
	k := len(body) / total
	part := body[(tok.idx-1)*k:]
	if tok.idx < total {
		part = part[:k]
	}
	g := frGroup(tok.stream)
	r := f.runs[g]
	if r == nil {
		r = &frRun{lax: map[int]int{}}
		f.runs[g] = r
	}
	// clean run: fragments of this terminal and message id arrive 1..n with nothing else between
	clean := false
	switch {
	case tok.idx == 1:
		r.total, r.next, clean = total, 2, true
	case r.next == tok.idx && r.total == total:
		r.next, clean = tok.idx+1, true
	default:
		r.next = 0
	}
	must := clean && tok.idx == total
	// lax: in order if repetitions and fragments of another count are ignored
	may := false
	switch {
	case tok.idx == 1:
		r.lax[total] = 2
		may = total == 1
	case r.lax[total] == tok.idx:
		r.lax[total] = tok.idx + 1
		may = tok.idx == total
	case r.lax[total] != 0 && tok.idx < r.lax[total]: // repeated
	default:
		delete(r.lax, total) // something is missing
	}
	if must {
		r.next = 0
	}
	c := w.slots[t.slot]
	w.log("%s", tok)
	w.noExtra("C16")
	d := w.devs[t.ph]
	old := *d
	c.fc.feed(refFrame(w.fragContent(t, id, sn, uint16(total), uint16(tok.idx), part)))
	for try := 0; ; try++ {
		synctest.Wait()
		w.collect()
		if w.dead || try >= 3 || c.fc.idle() && (len(c.got) > 0 || !clean) || c.fc.isClosed() {
			break
		}
		w.sleep(1e9)
	}
	if w.dead {
		return
	}
	got := c.got
	c.got = nil
	w.noExtra("C16")
	if w.dead {
		return
	}
	if c.fc.isClosed() {
		w.fail("C16 C11", "the connection was closed")
		return
	}
	if clean && len(got) != 1 || len(got) > 1 {
		w.fail("C16 C06", "%d replies to fragment %s (%s), want %v", len(got), tok, showPkts(got), clean)
		return
	}
	for _, p := range got {
		okBody := bytes.Equal(p.body, refGeneral(sn, id, 0)) || (must || may) && bytes.Equal(p.body, refGeneral(f.sns[tok.stream], id, 0))
		if p.id != 0x8001 || !okBody || p.phone != t.ph || p.frag || p.bodyLen != len(p.body) || p.ver == v2019 != (t.ver == v2019) {
			w.fail("C16", "fragment %s (serial %04x) is answered by %04x %x phone %s fragmented=%v", tok, sn, p.id, p.body, p.phone, p.frag)
			return
		}
	}
	// effect
	apply := func() {
		if id == 0x0200 {
			l := someLoc(f.gen[tok.stream])
			w.applyLoc(d, &l)
		} else {
			d.authed, d.st, d.conn = true, map[int8]bool{1: true}, c
			if t.ver == v2019 {
				d.imei = f.imei(f.gen[tok.stream])
			}
			w.touch(d)
		}
	}
	switch {
	case must:
		apply()
	case may:
		// processing is allowed but not required: take whichever the server did
		apply()
		if !f.matches(t) {
			*d = old
		} else {
			w.cx.outcome("lenient")
		}
	}
	if must {
		w.cx.outcome("completed")
	} else {
		w.cx.outcome("pending")
	}
	if tok.idx == total { // the message is over, whatever became of it: the next one starts anew
		if must || may {
			delete(r.lax, total)
		}
	}
	w.touch(d) // a fragment may or may not count as activity; nobody waits that long here
	w.check("C16")
}

func (f *frWorld) matches(t term) bool {
	d := f.w.devs[t.ph]
	i := implDevice(t.ph)
	if i == nil || i.IMEI != d.imei {
		return false
	}
	if d.geo == nil {
		return true
	}
	g := implGeo(t.ph)
	return g != nil && geoMatches(g, t.ph, d.geo) == ""
}

func popcount(x int) (n int) {
	for ; x > 0; x &= x - 1 {
		n++
	}
	return
}

func init() {
	register("C16", "sequences", true, func(cx *Ctx) {
		toks := []frTok{{'A', 1}, {'A', 2}, {'A', 3}, {'B', 1}, {'B', 2}, {'X', 1}, {'X', 2}, {'Y', 1}, {'Y', 2}, {'W', 0}}
		run := func(name string, ver int, toks []frTok, depth int) {
			seq := make([]frTok, 0, depth)
			var rec func()
			rec = func() {
				if cx.stopped() {
					return
				}
				if len(seq) == depth {
					if cx.Case(name) {
						f := newFrWorld(cx, ver)
						for _, t := range seq {
							f.step(t)
						}
						// whatever happened before, a complete message goes through
						for _, t := range []frTok{{'A', 1}, {'B', 1}, {'A', 2}, {'X', 1}, {'A', 3}, {'B', 2}, {'X', 2}, {'W', 0}} {
							f.step(t)
						}
						if cx.res.Cases%9973 == 1 {
							cx.sample(cx.curDesc)
						}
						f.w.finish()
					}
					return
				}
				for _, t := range toks {
					seq = append(seq, t)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
		run("sequences", v2019, toks, cx.pick(4, 5))
		run("one-message", v2013, []frTok{{'A', 1}, {'A', 2}, {'A', 3}, {'B', 1}, {'W', 0}}, cx.pick(6, 7))
		run("four-parts", v2013, []frTok{{'Z', 1}, {'Z', 2}, {'Z', 3}, {'Z', 4}}, cx.pick(6, 7))
		run("four-and-two", v2019, []frTok{{'Z', 1}, {'Z', 2}, {'Z', 3}, {'Z', 4}, {'Y', 1}, {'Y', 2}, {'B', 1}}, cx.pick(4, 5))
		run("two-messages", v2019, []frTok{{'A', 1}, {'A', 2}, {'A', 3}, {'X', 1}, {'X', 2}}, cx.pick(6, 7))
		run("two-terminals", v2011, []frTok{{'A', 1}, {'A', 2}, {'A', 3}, {'B', 1}, {'B', 2}}, cx.pick(5, 6))
		run("two-counts", v2019, []frTok{{'A', 1}, {'A', 2}, {'A', 3}, {'Y', 1}, {'Y', 2}}, cx.pick(5, 6))
	})
	register("C16", "splits", true, func(cx *Ctx) {
		// every way to cut a location report into one, two and three parts, live
		for _, ver := range []int{v2011, v2013, v2019} {
			for a := 0; a <= 28; a++ {
				if !cx.Case("splits") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				n := uint32(0)
				send := func(parts ...[]byte) {
					l := someLoc(n)
					for i, p := range parts {
						sn := w.nextSerial()
						w.log("fragment %d/%d (%d bytes)", i+1, len(parts), len(p))
						last := i == len(parts)-1
						w.deliver(w.slots[0], refFrame(w.fragContent(t, 0x200, sn, uint16(len(parts)), uint16(i+1), p)), 0x200, sn, t.ph, ver, func(d *rDev) {
							if last {
								w.applyLoc(d, &l)
							}
						}, "C16 C06")
					}
					w.hist = w.hist[:2]
				}
				for b := a; b <= 28 && !w.dead; b++ {
					n++
					bd := someLoc(n).body()
					send(bd[:a], bd[a:b], bd[b:])
				}
				n++
				bd := someLoc(n).body()
				send(bd[:a], bd[a:])
				if a == 0 {
					n++
					send(someLoc(n).body())
				}
				w.finish()
			}
		}
	})
	// a late part without its predecessors is not a message, even if its bytes alone would make one
	register("C16", "orphans", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			for n := 2; n <= 4; n++ {
				for k := 2; k <= n; k++ {
					for lead := 0; lead < 4; lead++ {
						for kind, id := range []uint16{0x0200, 0x0003, 0x0102, 0x0002, 0x0100} {
							if !cx.Case("orphans") {
								continue
							}
							w := newWorld(cx, 1)
							t := w.setup(0, ver, true)
							w.loc(0, t.ph, ver, someLoc(1))
							if w.dead {
								w.finish()
								continue
							}
							d, c := w.devs[t.ph], w.slots[0]
							body := [][]byte{someLoc(7).body(), nil, refAuthBody(ver, d.code, "999999999999999", "other"), nil, nil}[kind]
							send := func(total, idx int, body []byte) {
								if w.dead {
									return
								}
								sn := w.nextSerial()
								w.log("fragment %d/%d of %04x (%d bytes)", idx, total, id, len(body))
								w.noExtra("C16")
								c.fc.feed(refFrame(w.fragContent(t, id, sn, uint16(total), uint16(idx), body)))
								for try := 0; try < 3; try++ {
									synctest.Wait()
									if c.fc.idle() {
										break
									}
									w.sleep(1e9)
								}
								w.collect()
								if w.dead {
									return
								}
								got := c.got
								c.got = nil
								if c.fc.isClosed() {
									w.fail("C16 C11", "the connection was closed")
									return
								}
								for i, p := range got {
									if i > 0 || p.id != 0x8001 || !bytes.Equal(p.body, refGeneral(sn, id, 0)) || p.frag {
										w.fail("C16", "the fragment is answered by %s", showPkts(got))
										return
									}
								}
								w.touch(d) // may or may not count as activity
								w.check("C16")
							}
							switch lead {
							case 1: // the start of a message of another count
								send(n+1, 1, body)
							case 2: // one part is missing
								for i := 1; i < k-1; i++ {
									send(n, i, nil)
								}
							case 3: // a message starts, a part is missing, and the next comes
								send(n+1, 1, nil)
								send(n+1, n+1, body)
							}
							send(n, k, body)
							w.hb(0, t.ph, ver)
							w.loc(0, t.ph, ver, someLoc(2))
							w.finish()
						}
					}
				}
			}
		}
	})
	register("C16", "long", true, func(cx *Ctx) {
		// messages of many fragments: everything after the position is additional information
		ns := []int{1, 2, 3, 4, 5, 8, 16, 28, 29, 63, 100, 127, 128, 255, 256, 257, 300, 511, 512, 1000}
		if cx.thorough() {
			ns = append(ns, 4096, 32767, 32768, 60000)
		}
		for _, n := range ns {
			for _, ver := range []int{v2013, v2019} {
				if !cx.Case("long") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				l := someLoc(uint32(n))
				body := l.body()
				for len(body) < n {
					body = append(body, 0x01, 0x04, 0, 0, 0, 9)
				}
				k := (len(body) + n - 1) / n
				for i := 1; i <= n && !w.dead; i++ {
					lo, hi := min((i-1)*k, len(body)), min(i*k, len(body))
					sn := w.nextSerial()
					w.hist = w.hist[:2]
					w.log("fragment %d/%d", i, n)
					last := i == n
					data := refFrame(w.fragContent(t, 0x200, sn, uint16(n), uint16(i), body[lo:hi]))
					if n > 600 && !last && i%256 > 1 { // fast path: only the acknowledgement
						w.exchange(w.slots[0], data, []expReply{{id: 0x8001, ph: t.ph, ver: ver, pv: protoOf(ver), body: general(sn, 0x200, 0)}}, stayOpen, "C16")
						continue
					}
					w.deliver(w.slots[0], data, 0x200, sn, t.ph, ver, func(d *rDev) {
						if last {
							w.applyLoc(d, &l)
						}
					}, "C16 C06")
				}
				w.finish()
			}
		}
	})
	// two messages in flight: they mix neither by message id nor by phone nor by count
	register("C16", "mixing", false, func(cx *Ctx) {
		pc := protocol.NewJT808PacketCodec()
		type stream struct {
			h     refHdr
			parts [][]byte
		}
		feed := func(s stream, i int) (bool, []byte, error) {
			h := s.h
			h.frag, h.total, h.index, h.serial = true, uint16(len(s.parts)), uint16(i+1), uint16(i)
			pd, err := pc.Decode(refFrame(refContent(h, s.parts[i])))
			cx.step()
			if err != nil {
				return false, nil, err
			}
			return pd.SegCompleted, pd.Body, nil
		}
		mk := func(ver int, id uint16, ph string, n int, tag byte) stream {
			s := stream{h: refHdr{id: id, ver: ver, proto: protoOf(ver), phone: ph}}
			for i := 0; i < n; i++ {
				s.parts = append(s.parts, bytes.Repeat([]byte{tag, byte(i)}, 3+i))
			}
			return s
		}
		// every merge of the two fragment sequences
		merge := func(desc string, a, b stream) {
			na, nb := len(a.parts), len(b.parts)
			for mask := 0; mask < 1<<uint(na+nb) && !cx.failed; mask++ {
				if popcount(mask) != nb {
					continue
				}
				ia, ib := 0, 0
				for k := 0; k < na+nb; k++ {
					s, i := a, ia
					if mask>>uint(k)&1 == 1 {
						s, i = b, ib
						ib++
					} else {
						ia++
					}
					done, body, err := feed(s, i)
					if err != nil || done != (i == len(s.parts)-1) {
						cx.Fail("C16", "%s, order %b: fragment %d of %d: completed=%v (%v)", desc, mask, i+1, len(s.parts), done, err)
						return
					}
					if done && !bytes.Equal(body, bytes.Join(s.parts, nil)) {
						cx.Fail("C16", "%s, order %b: the parts of %x became %x", desc, mask, bytes.Join(s.parts, nil), body)
						return
					}
				}
			}
			cx.res.Traces++
		}
		ids := []uint16{1, 2, 3, 0x0100, 0x0102, 0x0104, 0x0200, 0x0704, 0x0800, 0x0801, 0x1205, 0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x0010, 0x1000, 0x0201, 0x0020, 0x2000}
		for _, ver := range []int{v2013, v2019} {
			for _, x := range ids {
				if !cx.Case("mixing-ids") {
					continue
				}
				ph := newPhone(ver)
				ys := append([]uint16(nil), ids...)
				for b := uint(0); b < 16; b++ {
					ys = append(ys, x^1<<b)
				}
				ys = append(ys, x<<8|x>>8, x<<4|x>>12)
				for _, y := range ys {
					if x != y {
						merge(fmt.Sprintf("ids %04x and %04x", x, y), mk(ver, x, ph, 2, 'a'), mk(ver, y, ph, 2, 'b'))
						merge(fmt.Sprintf("ids %04x and %04x", x, y), mk(ver, x, ph, 3, 'a'), mk(ver, y, ph, 2, 'b'))
					}
				}
			}
			ph := newPhone(ver)
			for i := 0; i < len(ph); i++ {
				if !cx.Case("mixing-phones") {
					continue
				}
				for d := byte('0'); d <= '9'; d++ {
					o := []byte(ph)
					o[i] = d
					if string(o) == ph {
						continue
					}
					merge("phones "+ph+" and "+string(o), mk(ver, 0x0200, ph, 2, 'a'), mk(ver, 0x0200, string(o), 2, 'b'))
					merge("phones "+ph+" and "+string(o), mk(ver, 0x0801, ph, 3, 'a'), mk(ver, 0x0801, string(o), 3, 'b'))
				}
			}
		}
		// a 2013 and a 2019 terminal whose numbers have the same digits
		if cx.Case("mixing-versions") {
			for k := 0; k < 20; k++ {
				ph := newPhone(v2013)
				merge("versions", mk(v2013, 0x0200, ph, 2, 'a'), mk(v2019, 0x0200, "00000000"+ph, 2, 'b'))
				merge("versions", mk(v2013, 0x0200, ph, 3, 'a'), mk(v2019, 0x0200, ph+"00000000", 2, 'b'))
			}
		}
	})
	// messages longer than any single one can be: the reassembled length counts, not what
	// fits a header's length field
	register("C16", "huge", true, func(cx *Ctx) {
		send := func(w *World, t term, id uint16, body []byte, tail func(sn uint16, data []byte)) {
			const k = 1000
			n := (len(body) + k - 1) / k
			for i := 1; i <= n && !w.dead; i++ {
				sn := w.nextSerial()
				data := refFrame(w.fragContent(t, id, sn, uint16(n), uint16(i), body[(i-1)*k:min(i*k, len(body))]))
				if i == n {
					tail(sn, data)
					return
				}
				w.exchange(w.slots[t.slot], data, []expReply{{id: 0x8001, ph: t.ph, ver: t.ver, pv: protoOf(t.ver), body: general(sn, id, 0)}}, stayOpen, "C16")
			}
		}
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, n := range []int{1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 66000, 131072, 131100, 200000} {
				if !cx.Case("huge-report") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				l := someLoc(uint32(n))
				w.log("report of %d bytes in fragments", n)
				send(w, t, 0x0200, locExtras(l.body(), n), func(sn uint16, data []byte) {
					w.deliver(w.slots[0], data, 0x0200, sn, t.ph, ver, func(d *rDev) { w.applyLoc(d, &l) }, "C16")
				})
				w.hb(0, t.ph, ver)
				w.finish()
			}
			// a code followed by enough to make the truncated length that of the code alone
			for _, n := range []int{1, 256, 512, 1024, 2048, 4096, 32768, 65536, 131072} {
				if ver == v2019 || !cx.Case("huge-code") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, false)
				if !w.dead {
					code := w.devs[t.ph].code
					body := append([]byte(code), bytes.Repeat([]byte{'x'}, n)...)
					w.log("code followed by %d bytes", n)
					send(w, t, 0x0102, body, func(sn uint16, data []byte) {
						w.also = "C16 C08"
						w.exchange(w.slots[0], data, []expReply{{id: 0x8001, ph: t.ph, ver: ver, pv: protoOf(ver), body: general(sn, 0x0102, 1)}}, stayOpen, "C16")
						delete(w.devs, t.ph)
						w.check("C16 C08")
					})
				}
				w.finish()
			}
			// a registration whose body is that long (of a phone that is registered already: refused, but by the right rule)
			for _, n := range []int{37, 38, 100, 1023, 1024, 1024 + 25, 1024 + 30, 1024 + 37, 1024 + 38, 2048 + 30, 65536 + 30} {
				if !cx.Case("huge-registration") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				r := fixedReg
				r.plate = newPlate()
				wver := ver
				if ver == v2011 {
					wver = v2013
				}
				body := r.body(wver)
				for len(body) < n {
					body = append(body, 'P')
				}
				w.log("registration of %d bytes in fragments", n)
				want := byte(3)
				send(w, t, 0x0100, body, func(sn uint16, data []byte) {
					w.exchange(w.slots[0], data, []expReply{{id: 0x8100, ph: t.ph, ver: ver, pv: protoOf(ver), body: func(b []byte) string {
						if len(b) < 3 || rd16(b) != sn || b[2] != want {
							return fmt.Sprintf("want serial %04x result %d", sn, want)
						}
						return ""
					}}}, stayOpen, "C16")
					w.check("C16 C07")
				})
				w.hb(0, t.ph, ver)
				w.finish()
			}
		}
	})
	register("C16", "bodies", false, func(cx *Ctx) {
		// the reassembled body, byte for byte, at the codec
		pc := protocol.NewJT808PacketCodec()
		for _, ver := range []int{v2013, v2019} {
			for n := 1; n <= 40; n++ {
				for _, size := range []int{0, 1, 7, 100, 1000} {
					if !cx.Case("bodies") {
						continue
					}
					ph := newPhone(ver)
					for round := 0; round < 3 && !cx.failed; round++ {
						var whole []byte
						for i := 1; i <= n; i++ {
							part := make([]byte, (size+i)%1009)
							for j := range part {
								part[j] = byte(j*31 + i*7 + round*13)
							}
							whole = append(whole, part...)
							h := refHdr{id: 0x0801, ver: ver, proto: protoOf(ver), phone: ph, serial: uint16(i), frag: true, total: uint16(n), index: uint16(i)}
							frame := refFrame(refContent(h, part))
							pd, err := pc.Decode(frame)
							cx.step()
							for j := range frame { // a receive buffer may be reused
								frame[j] = 0xee
							}
							if err != nil {
								cx.Fail("C16", "fragment %d of %d does not decode: %v", i, n, err)
								break
							}
							if pd.SegCompleted != (i == n) {
								cx.Fail("C16", "fragment %d of %d: completed=%v", i, n, pd.SegCompleted)
								break
							}
							if i == n && (!bytes.Equal(pd.Body, whole) || pd.Header.IsFragmented()) {
								cx.Fail("C16", "%d fragments give a body of %d bytes, want %d (fragmented=%v, equal=%v)", n, len(pd.Body), len(whole), pd.Header.IsFragmented(), bytes.Equal(pd.Body, whole))
								break
							}
						}
					}
					cx.res.Traces++
				}
			}
		}
	})
}
