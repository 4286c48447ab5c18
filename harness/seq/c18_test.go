package zzverif

import (
	"bytes"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/client"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// simTerm is a simulated terminal (the repository's client) and the platform's view of it.
type simTerm struct {
	cx      *Ctx
	fc      *fakeConn
	phone   string
	ver     int
	imei    string
	sw      string
	ended   bool // Start returned
	closed  bool // model: the session is over
	online  bool
	serial  uint16
	set     map[uint32][]byte // values set by the platform
	base    map[uint32][]byte // parameters first reported, before or besides the set ones
	queried bool
	anySet  bool // a setting arrived, perhaps of unknown parameters only
	hist    []string
	dead    bool
}

func newSim(cx *Ctx, ver int) *simTerm {
	s := &simTerm{cx: cx, phone: newPhone(ver), ver: ver, imei: "123456789012345", sw: "fakeyanss.github.io", set: map[uint32][]byte{}, serial: 0x7d79}
	s.fc = newFakeConn(newAddr())
	storage.GetDeviceCache().CacheDevice(&model.Device{ID: "1", Plate: newPlate(), Phone: s.phone, Keepalive: time.Minute, IMEI: s.imei, SoftwareVersion: s.sw,
		Status: model.DeviceStatusOffline, VersionDesc: verDesc[ver], ProtocolVersion: protoOf(ver), LastestComTime: time.Now()})
	cli := &client.TCPClient{Session: &model.Session{Conn: s.fc, ID: s.fc.remote}}
	go func() {
		cli.Start()
		s.fc.mu.Lock()
		s.ended = true
		s.fc.mu.Unlock()
	}()
	synctest.Wait()
	return s
}

func (s *simTerm) over() bool {
	s.fc.mu.Lock()
	defer s.fc.mu.Unlock()
	return s.ended
}

func (s *simTerm) fail(format string, a ...any) {
	if !s.dead {
		s.dead = true
		s.cx.Fail("C18", "after [%s]: %s", strings.Join(s.hist, " ; "), fmt.Sprintf(format, a...))
	}
}

func (s *simTerm) msg(phone string, id uint16, body []byte) ([]byte, uint16) {
	s.serial++
	hv := s.ver
	if hv == v2011 {
		hv = v2013
	}
	return refFrame(refContent(refHdr{id: id, ver: hv, proto: protoOf(s.ver), phone: phone, serial: s.serial}, body)), s.serial
}

// send delivers a platform message and returns what the terminal sent in response.
func (s *simTerm) send(phone string, id uint16, body []byte, desc string) ([]refPkt, uint16) {
	if s.dead || s.closed {
		return nil, 0
	}
	s.hist = append(s.hist, desc)
	s.cx.curDesc = strings.Join(s.hist, " ; ")
	s.cx.step()
	fr, sn := s.msg(phone, id, body)
	s.fc.feed(fr)
	for try := 0; try < 4; try++ {
		synctest.Wait()
		if s.fc.idle() || s.over() {
			break
		}
		time.Sleep(time.Second)
	}
	out := s.fc.takeOut()
	frames, rest, err := refSplitOut(out)
	if err != nil || len(rest) > 0 {
		s.fail("output %x is not a sequence of frames", out)
		return nil, sn
	}
	var ps []refPkt
	for _, f := range frames {
		c, err := refDeframe(f)
		if err != nil {
			s.fail("bad frame %x: %v", f, err)
			return nil, sn
		}
		p, err := refParse(c)
		if err != nil || p.bodyLen != len(p.body) || p.frag || p.phone != phone || (p.ver == v2019) != (s.ver == v2019) {
			s.fail("bad header in %x (%v), phone %s", c, err, p.phone)
			return nil, sn
		}
		ps = append(ps, p)
	}
	return ps, sn
}

func (s *simTerm) expect(ps []refPkt, id uint16) []byte {
	if s.dead {
		return nil
	}
	if s.over() {
		s.fail("the terminal ended its session")
		return nil
	}
	if len(ps) != 1 || ps[0].id != id {
		s.fail("%d messages (%s), want one %04x", len(ps), showPkts(ps), id)
		return nil
	}
	s.cx.outcome(fmt.Sprintf("%04x", id))
	return ps[0].body
}

func (s *simTerm) none(ps []refPkt) {
	if s.dead {
		return
	}
	if len(ps) != 0 {
		s.fail("unexpected messages %s", showPkts(ps))
	}
	if s.over() != s.closed {
		s.fail("session ended=%v, want %v", s.over(), s.closed)
	}
}

func (s *simTerm) regReply(code string) {
	if s.dead || s.closed {
		return
	}
	ps, _ := s.send(s.phone, 0x8100, append(append(be16(1), 0), code...), fmt.Sprintf("8100(%q)", code))
	if b := s.expect(ps, 0x0102); b != nil || !s.dead {
		if want := refAuthBody(s.ver, code, s.imei, s.sw); !bytes.Equal(b, want) {
			s.fail("authentication body %x, want %x", b, want)
		}
	}
	s.check()
}

func (s *simTerm) general(id uint16, res byte) {
	if s.dead || s.closed {
		return
	}
	s.generalSn(3, id, res)
}

func (s *simTerm) generalSn(sn, id uint16, res byte) {
	if s.dead || s.closed {
		return
	}
	ps, _ := s.send(s.phone, 0x8001, refGeneral(sn, id, res), fmt.Sprintf("8001(%04x,%04x,%d)", sn, id, res))
	s.none(ps)
	if res == 0 {
		s.online = true
	}
	s.check()
}

func (s *simTerm) setParams(ps []pv, unknown ...uint32) {
	if s.dead || s.closed {
		return
	}
	list := refParamList(ps)
	for i, u := range unknown { // in front of and behind the known ones
		item := append(append(be32(u), byte(i+2)), bytes.Repeat([]byte{0x31}, i+2)...)
		if i%2 == 0 {
			list = append(append(list[:1:1], item...), list[1:]...)
		} else {
			list = append(list, item...)
		}
		list[0]++
	}
	got, sn := s.send(s.phone, 0x8103, list, fmt.Sprintf("8103(%v)", ps))
	if b := s.expect(got, 0x0001); !s.dead && !bytes.Equal(b, refGeneral(sn, 0x8103, 0)) {
		s.fail("reply body %x, want %x", b, refGeneral(sn, 0x8103, 0))
	}
	s.anySet = true
	for _, p := range ps {
		if p.known() && len(p.raw()) <= 255 {
			s.set[p.id] = p.raw()
		}
	}
	s.check()
}

func (s *simTerm) query() {
	if s.dead || s.closed {
		return
	}
	got, sn := s.send(s.phone, 0x8104, nil, "8104")
	b := s.expect(got, 0x0104)
	if s.dead {
		return
	}
	if len(b) < 3 || rd16(b) != sn {
		s.fail("parameter reply %x does not answer serial %04x", b, sn)
		return
	}
	cnt, rest := int(b[2]), b[3:]
	cur := map[uint32][]byte{}
	n := 0
	for len(rest) > 0 {
		if len(rest) < 5 || len(rest) < 5+int(rest[4]) {
			s.fail("parameter list is cut off: %x", b)
			return
		}
		id := rd32(rest)
		if cur[id] != nil {
			s.fail("parameter %x is reported twice", id)
			return
		}
		cur[id] = append([]byte{}, rest[5:5+int(rest[4])]...)
		rest = rest[5+int(rest[4]):]
		n++
	}
	if n != cnt {
		s.fail("parameter count %d, list has %d", cnt, n)
		return
	}
	for id, v := range s.set {
		if !bytes.Equal(cur[id], v) || cur[id] == nil {
			s.fail("parameter %x is reported as %x, it was set to %x", id, cur[id], v)
			return
		}
	}
	rest2 := map[uint32][]byte{}
	for id, v := range cur {
		if _, ok := s.set[id]; !ok {
			rest2[id] = v
		}
	}
	if s.queried { // what was not set since stays as it was
		for id, v := range s.base {
			if _, ok := s.set[id]; ok {
				continue
			}
			if !bytes.Equal(rest2[id], v) || rest2[id] == nil {
				s.fail("parameter %x is reported as %x, before it was %x and nobody set it", id, rest2[id], v)
				return
			}
		}
		for id := range rest2 {
			if s.base[id] == nil {
				s.fail("parameter %x appeared without being set", id)
				return
			}
		}
	} else {
		if len(s.set) == 0 && len(rest2) == 0 && !s.anySet {
			s.fail("the terminal reports no parameters at all")
			return
		}
		s.base, s.queried = rest2, true
		for id, v := range s.set { // may be overwritten later
			s.base[id] = v
		}
	}
	s.check()
}

func (s *simTerm) media(ch byte, from, to string) {
	if s.dead || s.closed {
		return
	}
	body := append([]byte{ch}, unhex(from+to)...)
	body = append(body, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	got, sn := s.send(s.phone, 0x9205, body, fmt.Sprintf("9205(%d,%s,%s)", ch, from, to))
	b := s.expect(got, 0x1205)
	if s.dead {
		return
	}
	if len(b) < 6 || rd16(b) != sn {
		s.fail("media list %x does not answer serial %04x", b, sn)
		return
	}
	n := int(rd32(b[2:]))
	if n < 1 || len(b) != 6+28*n {
		s.fail("media list says %d entries and has %d bytes", n, len(b)-6)
		return
	}
	lo, hi := "~", ""
	for i := 0; i < n; i++ {
		e := b[6+28*i:]
		f, t := fmt.Sprintf("%x", e[1:7]), fmt.Sprintf("%x", e[7:13])
		if f < lo {
			lo = f
		}
		if t > hi {
			hi = t
		}
		if f > t {
			s.fail("media entry %x ends before it starts", e[:13])
			return
		}
		if e[0] != ch || fmt.Sprintf("%x", e[1:7]) < from || fmt.Sprintf("%x", e[7:13]) > to {
			s.fail("media entry %x is not of channel %d between %s and %s", e[:13], ch, from, to)
			return
		}
	}
	if lo != from || hi != to {
		s.fail("the media list spans %s to %s, asked for was %s to %s", lo, hi, from, to)
		return
	}
	s.check()
}

func (s *simTerm) unsupported(id uint16) {
	if s.dead || s.closed {
		return
	}
	ps, _ := s.send(s.phone, id, []byte{1, 2}, fmt.Sprintf("%04x", id))
	s.none(ps)
	s.check()
}

// foreign: the platform addresses a terminal that is not simulated here.
func (s *simTerm) foreign(id uint16) {
	if s.dead || s.closed {
		return
	}
	body := refGeneral(1, 0x0102, 0)
	if id == 0x8100 {
		body = append(append(be16(1), 0), "99"...)
	}
	ps, _ := s.send(newPhone(s.ver), id, body, fmt.Sprintf("%04x for an unknown terminal", id))
	if s.dead {
		return
	}
	s.closed = true
	s.none(ps)
}

func (s *simTerm) check() {
	if s.dead {
		return
	}
	d := implDevice(s.phone)
	if d == nil {
		s.fail("the terminal lost its own device")
		return
	}
	if on := d.Status == model.DeviceStatusOnline; on != s.online {
		s.fail("terminal online=%v, want %v", on, s.online)
		return
	}
	s.cx.state(fmt.Sprintf("%v %v %v %v", s.online, s.closed, s.queried, len(s.set)))
}

func (s *simTerm) end() {
	s.fc.peerClose()
	time.Sleep(2 * time.Second)
	synctest.Wait()
	if !s.dead && !s.over() {
		s.fail("the terminal does not end when the platform closes the connection")
	}
	s.fc.Close()
	synctest.Wait()
	storage.GetDeviceCache().DelDeviceByPhone(s.phone)
	storage.GetDeviceParamsCache().DelDeviceParamsByPhone(s.phone)
	s.cx.res.Traces++
}

func init() {
	x1 := []pv{{0x01, uint32(30)}}
	x2 := []pv{{0x01, uint32(90)}, {0x84, uint8(2)}}
	y := []pv{{0x13, "10.0.0.1~"}, {0x110, "12345678"}}
	unk := []pv{{0x84, uint8(3)}, {0x55, uint32(80)}}
	type sop struct {
		name string
		run  func(s *simTerm)
	}
	ops := []sop{
		{"reg", func(s *simTerm) { s.regReply("4711~") }}, {"ok", func(s *simTerm) { s.general(0x0102, 0) }}, {"fail", func(s *simTerm) { s.general(0x0102, 1) }},
		{"query", func(s *simTerm) { s.query() }}, {"x1", func(s *simTerm) { s.setParams(x1) }}, {"x2", func(s *simTerm) { s.setParams(x2) }},
		{"y", func(s *simTerm) { s.setParams(y) }}, {"z", func(s *simTerm) { s.setParams(unk) }}, {"u", func(s *simTerm) { s.setParams(x1, 0x999, 0xff00) }}, {"uu", func(s *simTerm) { s.setParams(nil, 0x7d7e) }},
		{"media", func(s *simTerm) { s.media(3, "230101000000", "230102235959") }},
		{"unsupported", func(s *simTerm) { s.unsupported(0x8801) }}, {"foreign", func(s *simTerm) { s.foreign(0x8001) }}, {"foreign-reg", func(s *simTerm) { s.foreign(0x8100) }},
	}
	register("C18", "sequences", true, func(cx *Ctx) {
		for _, ver := range []int{v2019, v2013, v2011} {
			depth := cx.pick(4, 5)
			if ver != v2019 {
				depth--
			}
			seq := make([]sop, 0, depth)
			var rec func()
			rec = func() {
				if cx.stopped() {
					return
				}
				if len(seq) == depth {
					if cx.Case(fmt.Sprintf("sequences-%d", ver)) {
						s := newSim(cx, ver)
						for _, o := range seq {
							o.run(s)
						}
						if !s.closed {
							s.query()
							s.setParams(x1, 0xf364)
							s.query()
						}
						if cx.res.Cases%4999 == 1 {
							cx.sample(cx.curDesc)
						}
						s.end()
					}
					return
				}
				for _, o := range ops {
					if len(seq) > 0 && strings.HasPrefix(seq[len(seq)-1].name, "foreign") && o.name != "query" {
						continue // the session is over
					}
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
	})
	register("C18", "two-terminals", true, func(cx *Ctx) {
		// two simulated terminals in one process do not see each other's parameters
		small := []int{0, 1, 3, 4, 6, 8}
		depth := cx.pick(3, 4)
		n := 1
		for i := 0; i < depth; i++ {
			n *= 2 * len(small)
		}
		for k := 0; k < n; k++ {
			if !cx.Case("two-terminals") {
				continue
			}
			a, b := newSim(cx, v2019), newSim(cx, v2013)
			for i, r := 0, k; i < depth; i++ {
				o := r % (2 * len(small))
				r /= 2 * len(small)
				s := a
				if o%2 == 1 {
					s = b
				}
				ops[small[o/2]].run(s)
			}
			a.query()
			b.query()
			a.setParams(y)
			b.query()
			a.query()
			a.end()
			b.end()
		}
	})
	register("C18", "codes", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			if !cx.Case("codes") {
				continue
			}
			s := newSim(cx, ver)
			for n := 0; n <= 255 && !s.dead; n++ {
				s.hist = nil
				s.regReply(strings.Repeat("7", n))
				if n > 2 {
					s.regReply("~}" + strings.Repeat("\x01", n-2))
				}
			}
			s.end()
		}
		// all short codes of blanks, zero bytes and other characters that are easily trimmed or escaped
		chars := []string{"7", "a", " ", "\x00", "\t", "\n", "\r", "0", "~", "}", "%", "+", "\"", "\\"}
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, a := range append([]string{""}, chars...) {
				if !cx.Case("short-codes") {
					continue
				}
				s := newSim(cx, ver)
				for _, b := range chars {
					s.hist = nil
					s.regReply(a + b)
					for _, c := range chars {
						s.regReply(a + b + c)
						if cx.thorough() {
							for _, d := range chars {
								s.regReply(a + b + c + d)
							}
						}
					}
				}
				s.end()
			}
		}
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, sw := range []string{"", "v", "12345678901234567890", "0", " v1 ", "00v", "V1.0.0~"} {
				for _, im := range []string{"", "1", "123456789012345", "001234567890123", "000000000000000", "0", "123000", " 12 ", "12345678901234~"} {
					if !cx.Case("identity") {
						continue
					}
					s := newSim(cx, ver)
					s.imei, s.sw = im, sw
					d := implDevice(s.phone)
					d.IMEI, d.SoftwareVersion = im, sw
					storage.GetDeviceCache().CacheDevice(d)
					s.regReply("1")
					s.general(0x0102, 0)
					s.end()
				}
			}
		}
	})
	// general replies of every result to every request and serial, before and after coming online
	register("C18", "replies", true, func(cx *Ctx) {
		sns := []uint16{0, 1, 2, 3, 0x7d, 0x7e, 0xff, 0x100, 0x7d7e, 0x7fff, 0x8000, 0xffff}
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, id := range []uint16{0x0002, 0x0102, 0x0200, 0x0003, 0x0100, 0x0801, 0} {
				for _, sn := range sns {
					if !cx.Case("replies") {
						continue
					}
					for i, res := range [][]byte{{0}, {1}, {2}, {3}, {4}, {255}, {1, 0}, {0, 1}, {3, 3, 0}, {0, 0}, {0}, {1, 0}} {
						s := newSim(cx, ver)
						if i >= 10 { // a platform that takes its time
							time.Sleep(time.Duration(1+int(sn)%7*20) * time.Minute)
						}
						for _, r := range res {
							s.generalSn(sn, id, r)
						}
						s.query()
						s.regReply("77")
						s.end()
					}
				}
			}
		}
	})
	register("C18", "media", true, func(cx *Ctx) {
		for _, ver := range []int{v2013, v2019} {
			for ch := 0; ch < 256; ch += 8 {
				if !cx.Case("media") {
					continue
				}
				s := newSim(cx, ver)
				for k := 0; k < 8; k++ {
					for _, tm := range [][2]string{{"230101000000", "230101000000"}, {"000101000000", "991231235959"}, {"240229123456", "240301000001"}, {"200202202020", "211111111111"}} {
						s.hist = nil
						s.media(byte(ch+k), tm[0], tm[1])
					}
				}
				s.end()
			}
		}
	})
	// every class of serial number, in any order of requests
	register("C18", "serials", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, a := range w16 {
				if !cx.Case("serials") {
					continue
				}
				for _, b := range w16 {
					s := newSim(cx, ver)
					for i, sn := range []uint16{a, b, a, b} {
						s.serial = sn - 1
						s.query()
						s.serial = sn - 1
						s.setParams([]pv{{1, uint32(i)}})
						s.serial = sn - 1
						s.media(1, "230101000000", "230102000000")
						s.serial = sn - 1
						s.regReply("7")
					}
					s.end()
				}
			}
		}
	})
	// settings of every size, replacing and adding
	register("C18", "set-sizes", true, func(cx *Ctx) {
		ids := paramIDs()
		take := func(n, from int, k int) (ps []pv) {
			for i := 0; i < n; i++ {
				id := ids[(from+i)%len(ids)]
				vs := paramVals(paramKind[id], false)
				v := vs[k%2]
				if paramKind[id] == 'G' {
					v = []any{"a", "bc"}[k%2]
				}
				if paramKind[id] == 'X' {
					v = []any{"16", "1632"}[k%2]
				}
				if paramKind[id] == 'S' {
					v = []any{"1", "2"}[k%2]
				}
				ps = append(ps, pv{id, v})
			}
			return
		}
		for n := 1; n <= len(ids); n++ {
			for _, from := range []int{0, 17, 50, 80} {
				if !cx.Case("set-sizes") {
					continue
				}
				for first := 0; first < 3; first++ {
					s := newSim(cx, []int{v2013, v2019}[n%2])
					switch first {
					case 1:
						s.query()
					case 2:
						s.setParams(take(5, from+3, 1))
					}
					s.setParams(take(n, from, 0))
					s.query()
					s.setParams(take(n/2+1, from+n/3, 1))
					s.query()
					s.setParams(take(n, from, 1))
					s.query()
					s.end()
				}
			}
		}
	})
	register("C18", "parameters", true, func(cx *Ctx) {
		for _, id := range paramIDs() {
			for _, ver := range []int{v2013, v2019} {
				if !cx.Case("parameters") {
					continue
				}
				for order := 0; order < 2; order++ {
					s := newSim(cx, ver)
					if order == 1 {
						s.query()
					}
					for _, v := range paramVals(paramKind[id], false) {
						if st, ok := v.(string); ok && len(st) > 100 {
							continue // the reply would not fit one message
						}
						s.setParams([]pv{{id, v}})
						s.query()
						s.setParams([]pv{{0x5a, uint32(9)}, {id, v}, {0x29, uint32(5)}})
						s.query()
					}
					s.end()
				}
			}
		}
		// every ordered pair of settings, before and after the first query
		ids := paramIDs()
		for _, a := range ids {
			if !cx.Case("pairs") {
				continue
			}
			for j, b := range ids {
				if !cx.thorough() && j%3 != int(a%3) {
					continue
				}
				s := newSim(cx, v2019)
				s.query()
				s.setParams([]pv{{a, paramVals(paramKind[a], false)[0]}, {b, paramVals(paramKind[b], false)[0]}})
				s.query()
				s.setParams([]pv{{a, paramVals(paramKind[a], false)[1]}})
				s.query()
				s.end()
			}
		}
	})
}
