package zzverif

import (
	"fmt"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// A message that ends before its fixed fields do must not be acted on with bytes that
// were never part of it.
func init() {
	register("C04", "too-short", true, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			type k struct {
				id  uint16
				min int // shortest well-formed body
			}
			ks := []k{{0x0200, 28}, {0x0100, map[int]int{v2011: 25, v2013: 25, v2019: 76}[ver]}}
			if ver == v2019 {
				ks = append(ks, k{0x0102, -1})
			}
			for _, x := range ks {
				for frag := 0; frag < 3; frag++ {
					if !cx.Case("too-short") {
						continue
					}
					for n := 0; ; n++ {
						w := newWorld(cx, 1)
						t := w.setup(0, ver, x.id != 0x0102)
						if w.dead {
							w.finish()
							break
						}
						var body []byte
						switch x.id {
						case 0x0200:
							body = someLoc(3).body()
						case 0x0100:
							r := fixedReg
							r.plate = newPlate()
							w.plates = append(w.plates, r.plate)
							body = r.body(ver)
							t.ph = newPhone(ver)
							w.phones = append(w.phones, t.ph)
						case 0x0102:
							body = refAuthBody(ver, w.devs[t.ph].code, "123456789012345", "v1.2.3")
							x.min = len(body)
						}
						if n >= x.min {
							w.finish()
							break
						}
						cut := body[:n]
						switch frag {
						case 0: // length field as sent
							w.quiet(0, refFrame(w.content(t, x.id, w.nextSerial(), cut)), fmt.Sprintf("%04x with %d bytes", x.id, n), mayClose, "C04 C11")
						case 1: // length field of the whole message
							c := w.content(t, x.id, w.nextSerial(), body)
							c = c[:len(c)-len(body)+n]
							if x.id != 0x0100 || ver != v2011 {
								w.quiet(0, refFrame(c), fmt.Sprintf("%04x cut after %d bytes", x.id, n), mayClose, "C04 C11")
							}
						case 2: // reassembled
							k := n / 2
							if x.id == 0x0100 {
								break // fragments of an unregistered phone are refused anyway
							}
							f1 := refFrame(w.fragContent(t, x.id, w.nextSerial(), 2, 1, cut[:k]))
							f2 := refFrame(w.fragContent(t, x.id, w.nextSerial(), 2, 2, cut[k:]))
							w.quietFrom(0, f1, "first fragment", mayClose, "C04")
							w.quiet(0, f2, fmt.Sprintf("%04x of %d bytes in two fragments", x.id, n), mayClose, "C04 C11")
						}
						w.finish()
						if w.dead {
							break
						}
					}
				}
			}
		}
	})
}

// The same at the codec: for every message type, every prefix of a well-formed body
// that is shorter than its fixed fields (or than the lists it announces) is rejected.
func init() {
	register("C04", "truncations", false, func(cx *Ctx) {
		for _, ver := range []int{v2011, v2013, v2019} {
			type k struct {
				name  string
				id    uint16
				fresh func() model.JT808Msg
				body  []byte
				min   int
			}
			q := append([]byte{3}, unhex("230301123456230301123457")...)
			q = append(append(append(q, be32(1)...), be32(2)...), 1, 2, 3)
			regMin := map[int]int{v2011: 25, v2013: 37, v2019: 76}[ver]
			reg := fixedReg
			reg.plate = "京A12345"
			ks := []k{
				{"0001", 0x0001, func() model.JT808Msg { return &model.Msg0001{} }, refGeneral(0x1234, 0x8104, 1), 5},
				{"8001", 0x8001, func() model.JT808Msg { return &model.Msg8001{} }, refGeneral(0x1234, 0x0200, 1), 5},
				{"8100", 0x8100, func() model.JT808Msg { return &model.Msg8100{} }, []byte{1, 2, 0, '7'}, 3},
				{"0200", 0x0200, func() model.JT808Msg { return &model.Msg0200{} }, someLoc(3).body(), 28},
				{"8004", 0x8004, func() model.JT808Msg { return &model.Msg8004{} }, unhex("230301123456"), 6},
				{"9205", 0x9205, func() model.JT808Msg { return &model.Msg9205{} }, q, len(q)},
				{"1205", 0x1205, func() model.JT808Msg { return &model.Msg1205{} }, append(append([]byte{1, 2, 0, 0, 0, 1}, q...), 0, 0, 1, 0), 6 + len(q) + 4},
			}
			if ver == v2019 {
				ks = append(ks, k{"0100", 0x0100, func() model.JT808Msg { return &model.Msg0100{} }, reg.body(ver), regMin})
				a := refAuthBody(ver, "abcdef", "123456789012345", "v1.2.3")
				ks = append(ks, k{"0102", 0x0102, func() model.JT808Msg { return &model.Msg0102{} }, a, len(a)})
			} else {
				ks = append(ks, k{"0100", 0x0100, func() model.JT808Msg { return &model.Msg0100{} }, reg.body(ver), 25})
			}
			// a list of parameters, each type last
			params := []struct {
				id uint32
				v  []byte
			}{{0x0001, be32(30)}, {0x0013, []byte("1.2.3.4")}, {0x0031, be16(500)}, {0x0084, []byte{7}}, {0x0032, []byte{1, 2, 3, 4}}, {0x00fffff0, []byte{1, 2, 3}}}
			for last := range params {
				var pb []byte
				for i := range params {
					p := params[(last+1+i)%len(params)]
					pb = append(pb, be32(p.id)...)
					pb = append(pb, byte(len(p.v)))
					pb = append(pb, p.v...)
				}
				n := byte(len(params))
				b8 := append([]byte{n}, pb...)
				b1 := append([]byte{1, 2, n}, pb...)
				ks = append(ks, k{fmt.Sprintf("8103 ending in %04x", params[last].id), 0x8103, func() model.JT808Msg { return &model.Msg8103{} }, b8, len(b8)},
					k{fmt.Sprintf("0104 ending in %04x", params[last].id), 0x0104, func() model.JT808Msg { return &model.Msg0104{} }, b1, len(b1)})
			}
			for _, x := range ks {
				if !cx.Case("truncations") {
					continue
				}
				for n := 0; n <= x.min; n++ {
					// plain, and as the payload of a buffer that has more bytes behind it
					for _, junk := range []int{0, 64} {
						cx.step()
						h := mkHeader(ver, x.id, 9)
						c := refContent(refHdr{id: x.id, ver: hdrVer(ver), proto: h.ProtocolVersion, phone: h.PhoneNumber, serial: 9}, x.body[:n])
						fr := append(refFrame(c), make([]byte, junk)...)
						var err error
						p := safely(func() {
							var pd *model.PacketData
							pd, err = protocol.NewJT808PacketCodec().Decode(fr[:len(fr)-junk])
							if err == nil {
								err = x.fresh().Decode(pd)
							}
						})
						if n < x.min && p == nil && err == nil {
							cx.Fail("C04", "%s %d: accepted although its body ends after %d of %d fixed bytes", x.name, ver, n, x.min)
							break
						}
						if n == x.min && (p != nil || err != nil) {
							cx.Fail("C04", "%s %d: complete fixed fields (%d bytes) rejected: %v %v", x.name, ver, n, p, err)
							break
						}
					}
				}
				cx.res.Traces++
			}
		}
	})
}
