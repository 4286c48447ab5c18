package zzverif

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

var phoneOf = map[int]string{v2011: "013912345678", v2013: "013912345678", v2019: "00000013912345678901"}

func mkHeader(ver int, id, sn uint16) *model.MsgHeader {
	h := &model.MsgHeader{MsgID: id, Attr: &model.MsgBodyAttr{VersionDesc: verDesc[ver]}, PhoneNumber: phoneOf[ver], SerialNumber: sn}
	if ver == v2019 {
		h.Attr.VersionSign = 1
		h.ProtocolVersion = 1
	}
	return h
}

// encodeMsg: message -> content via the real codec and the strict reference deframer.
func encodeMsg(m model.JT808Msg) (content []byte, err error, bad string) {
	fr, err := protocol.NewJT808PacketCodec().Encode(m)
	if err != nil {
		return nil, err, ""
	}
	c, e := refDeframe(fr)
	if e != nil {
		return nil, nil, e.Error()
	}
	return c, nil, ""
}

// roundTrip checks: Encode(m) has exactly wantBody after a correct header, and
// decoding the reference-built frame gives m's fields again.
func (cx *Ctx) roundTrip(name string, ver int, m, fresh model.JT808Msg, wantBody []byte, normalize func(model.JT808Msg)) {
	cx.step()
	h := m.GetHeader()
	want := refContent(refHdr{id: h.MsgID, ver: hdrVer(ver), proto: h.ProtocolVersion, phone: h.PhoneNumber, serial: h.SerialNumber}, nil)
	// length field
	l := len(wantBody)
	defer func() {
		if p := recover(); p != nil {
			cx.Fail("C04", "%s %d: panic %v on %+v", name, ver, p, m)
		}
	}()
	got, err, bad := encodeMsg(m)
	if l > 1023 {
		if err == nil {
			cx.Fail("C04", "%s %d: body of %d bytes was encoded instead of being refused", name, ver, l)
		}
		return
	}
	if err != nil || bad != "" {
		cx.Fail("C04", "%s %d: encode failed: %v %s", name, ver, err, bad)
		return
	}
	want = refContent(refHdr{id: h.MsgID, ver: hdrVer(ver), proto: h.ProtocolVersion, phone: h.PhoneNumber, serial: h.SerialNumber}, wantBody)
	if !bytes.Equal(got, want) {
		cx.Fail("C04", "%s %d: encoded %x, want %x", name, ver, clip(got), clip(want))
		return
	}
	pd, err := protocol.NewJT808PacketCodec().Decode(refFrame(want))
	if err != nil || pd == nil {
		cx.Fail("C04", "%s %d: decode failed: %v", name, ver, err)
		return
	}
	if err := fresh.Decode(pd); err != nil {
		cx.Fail("C04", "%s %d: decode failed: %v (%x)", name, ver, err, clip(want))
		return
	}
	fh := fresh.GetHeader()
	if fh.MsgID != h.MsgID || fh.PhoneNumber != h.PhoneNumber || fh.SerialNumber != h.SerialNumber || fh.ProtocolVersion != h.ProtocolVersion ||
		int(fh.Attr.BodyLength) != l || fh.Attr.Encryption != 0 || fh.Attr.PacketFragmented != 0 || fh.IsFragmented() {
		cx.Fail("C04", "%s %d: header decoded as %+v/%+v, want %+v", name, ver, *fh, *fh.Attr, *h)
		return
	}
	if normalize != nil {
		normalize(fresh)
		normalize(m)
	}
	if a, b := fieldDump(m), fieldDump(fresh); a != b {
		cx.Fail("C04", "%s %d: decoded %s, want %s", name, ver, b, a)
		return
	}
	cx.res.Traces++
	cx.state(string(want))
	if cx.res.Traces%5000 == 1 {
		cx.sample(fmt.Sprintf("%s version %d content %x", name, ver, clip(want)))
	}
}

// fieldDump renders all exported fields except the header.
func fieldDump(m any) string {
	var b strings.Builder
	var dump func(v reflect.Value)
	dump = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if t, ok := v.Interface().(*time.Time); ok {
				b.WriteString(t.UTC().Format("2006-01-02T15:04:05"))
				return
			}
			dump(v.Elem())
		case reflect.Struct:
			if t, ok := v.Interface().(time.Time); ok {
				b.WriteString(t.Format("2006-01-02T15:04:05"))
				return
			}
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() || f.Name == "Header" {
					continue
				}
				b.WriteString(f.Name + "=")
				dump(v.Field(i))
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				dump(v.Index(i))
				b.WriteString(",")
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%#v", v.Interface())
		}
	}
	dump(reflect.ValueOf(m))
	return b.String()
}

var (
	w16  = []uint16{0, 1, 0x7d, 0x7e, 0x7f, 0xff, 0x100, 0x7d7e, 0x7e7d, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}
	w32  = []uint32{0, 1, 0x7d, 0x7e, 0xff, 0x100, 0xffff, 0x10000, 0x7e7d7e7d, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	w8   = []uint8{0, 1, 2, 3, 0x7d, 0x7e, 0x7f, 0x80, 0xfe, 0xff}
	tms  = []string{"000101000000", "230301123456", "991231235959", "240229235959", "680101000000", "690101000000", "210630010203"}
	strs = []string{"", "A", "AB", "a}~b", "\x00B", " C ", "1234567", "12345678", "0123456789A", "01234567890123456789", "012345678901234567890123456789"}
)

func parseT(s string) *time.Time {
	t, err := time.Parse("060102150405", s)
	if err != nil {
		panic(err)
	}
	return &t
}

func rep(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func init() {
	allVers := []int{v2011, v2013, v2019}
	register("C04", "messages", false, func(cx *Ctx) {
		for _, ver := range allVers {
			ver := ver
			// header words: serials and ids on a bodyless message
			if cx.Case("header-serials") {
				for s := 0; s < 65536; s++ {
					cx.roundTrip("0002", ver, &model.Msg0002{Header: mkHeader(ver, 2, uint16(s))}, &model.Msg0002{}, nil, nil)
				}
			}
			// phone digits: each digit position x each digit
			if cx.Case("header-phones") {
				n := len(phoneOf[ver])
				for i := 0; i < n; i++ {
					for d := byte('0'); d <= '9'; d++ {
						for _, base := range []byte{'0', '9', '1'} {
							p := bytes.Repeat([]byte{base}, n)
							p[i] = d
							h := mkHeader(ver, 2, 7)
							h.PhoneNumber = string(p)
							cx.roundTrip("0002-phone", ver, &model.Msg0002{Header: h}, &model.Msg0002{}, nil, nil)
						}
					}
				}
			}
			if ver == v2019 && cx.Case("header-protocol-version") {
				for v := 0; v < 256; v++ {
					h := mkHeader(ver, 2, 7)
					h.ProtocolVersion = uint8(v)
					cx.roundTrip("0002-version", ver, &model.Msg0002{Header: h}, &model.Msg0002{}, nil, nil)
				}
			}
			// bodyless
			for _, mk := range []func(h *model.MsgHeader) (string, uint16, model.JT808Msg, model.JT808Msg){
				func(h *model.MsgHeader) (string, uint16, model.JT808Msg, model.JT808Msg) {
					return "0003", 3, &model.Msg0003{Header: h}, &model.Msg0003{}
				},
				func(h *model.MsgHeader) (string, uint16, model.JT808Msg, model.JT808Msg) {
					return "0004", 4, &model.Msg0004{Header: h}, &model.Msg0004{}
				},
				func(h *model.MsgHeader) (string, uint16, model.JT808Msg, model.JT808Msg) {
					return "8104", 0x8104, &model.Msg8104{Header: h}, &model.Msg8104{}
				},
			} {
				for _, s := range w16 {
					if cx.Case("bodyless") {
						h := mkHeader(ver, 0, s)
						n, id, a, b := mk(h)
						h.MsgID = id
						cx.roundTrip(n, ver, a, b, nil, nil)
					}
				}
			}
			// 0001 and 8001: all serial x id x result boundary products
			if cx.Case("general-replies") {
				for _, s := range w16 {
					for _, i := range w16 {
						for r := 0; r < 256; r++ {
							cx.roundTrip("0001", ver, &model.Msg0001{Header: mkHeader(ver, 1, s), AnswerSerialNumber: s, AnswerMessageID: i, Result: uint8(r)}, &model.Msg0001{}, refGeneral(s, i, byte(r)), nil)
							cx.roundTrip("8001", ver, &model.Msg8001{Header: mkHeader(ver, 0x8001, s), AnswerSerialNumber: s, AnswerMessageID: i, Result: model.ResultCode(r)}, &model.Msg8001{}, refGeneral(s, i, byte(r)), nil)
						}
					}
				}
			}
			// 0100
			for _, manu := range strs {
				for _, mode := range strs {
					for _, id := range strs {
						if !cx.Case("registration") {
							continue
						}
						wd := map[int][3]int{v2011: {5, 8, 7}, v2013: {5, 20, 7}, v2019: {11, 30, 30}}[ver]
						for _, plate := range []string{"京A12345", "A", "粤B~}12", "沪", "京ABCDEFGH"} {
							for _, col := range []byte{0, 9, 0x7d, 0x7e, 255} {
								for _, pc := range [][2]uint16{{11, 101}, {0, 0}, {0x7d7e, 0xffff}, {65535, 0x7e7d}} {
									r := refReg{prov: pc[0], city: pc[1], manu: rep(manu, wd[0]), model: rep(mode, wd[1]), id: rep(id, wd[2]), color: col, plate: plate}
									m := &model.Msg0100{Header: mkHeader(ver, 0x100, 9), ProvinceID: r.prov, CityID: r.city, ManufacturerID: r.manu, DeviceMode: r.model, DeviceID: r.id, PlateColor: r.color, PlateNumber: r.plate}
									f := &model.Msg0100{}
									cx.roundTrip("0100", ver, m, f, r.body(ver), func(x model.JT808Msg) { x.(*model.Msg0100).LocationDesc = "" })
									if !cx.failed && f.Header.Attr.VersionDesc != verDesc[ver] {
										cx.Fail("C04 C05", "0100 %d: version decoded as %d", ver, f.Header.Attr.VersionDesc)
									}
								}
							}
						}
					}
				}
			}
			// a plate that GBK cannot express is refused
			if cx.Case("registration-text") {
				for _, pl := range []string{"ñ", "🚗", "京A🚗", "🚗1", "A\u0e01", strings.Repeat("京", 20) + "🚗"} {
					m := &model.Msg0100{Header: mkHeader(ver, 0x100, 9), ManufacturerID: "m", DeviceMode: "d", DeviceID: "i", PlateColor: 1, PlateNumber: pl}
					if b, err := m.Encode(); err == nil {
						cx.Fail("C04", "0100 %d with plate %s encodes to %x", ver, pl, b)
					}
				}
			}
			// over-long fields are cut to their width, the others stay in place
			if cx.Case("registration-overlong") {
				wd := map[int][3]int{v2011: {5, 8, 7}, v2013: {5, 20, 7}, v2019: {11, 30, 30}}[ver]
				long := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrst"
				for k := 0; k < 8; k++ {
					p := func(b int, s string) string {
						if k>>b&1 == 1 {
							return long
						}
						return s
					}
					m := &model.Msg0100{Header: mkHeader(ver, 0x100, 9), ManufacturerID: p(0, "m"), DeviceMode: p(1, "d"), DeviceID: p(2, "i"), PlateColor: 1, PlateNumber: "京A1"}
					r := refReg{manu: rep(m.ManufacturerID, wd[0]), model: rep(m.DeviceMode, wd[1]), id: rep(m.DeviceID, wd[2]), color: 1, plate: "京A1"}
					cx.roundTrip("0100", ver, m, &model.Msg0100{}, r.body(ver), func(x model.JT808Msg) {
						y := x.(*model.Msg0100)
						y.LocationDesc, y.ManufacturerID, y.DeviceMode, y.DeviceID = "", rep(y.ManufacturerID, wd[0]), rep(y.DeviceMode, wd[1]), rep(y.DeviceID, wd[2])
					})
				}
			}
			// 0102
			if cx.Case("authentication") {
				for n := 0; n <= 255; n++ {
					code := strings.Repeat("7", n)
					if n > 3 {
						code = code[:n-3] + "}~" + "\x01"
					}
					for _, imei := range []string{"123456789012345", "", "1", "99999999999999", "}~3456789012345"} {
						for _, sw := range []string{"", "v1", "fakeyanss.github.io", "01234567890123456789"} {
							if ver != v2019 && (imei != "" || sw != "") {
								continue
							}
							m := &model.Msg0102{Header: mkHeader(ver, 0x102, 3), AuthCode: code, IMEI: imei, SoftwareVersion: sw}
							cx.roundTrip("0102", ver, m, &model.Msg0102{}, refAuthBody(ver, code, imei, sw), func(x model.JT808Msg) { x.(*model.Msg0102).AuthCodeLen = 0 })
							// a length left over from another code does not matter: the code itself is what is sent
							for _, stale := range []int{1, n / 2, n + 1, 255} {
								m := &model.Msg0102{Header: mkHeader(ver, 0x102, 3), AuthCodeLen: uint8(stale), AuthCode: code, IMEI: imei, SoftwareVersion: sw}
								cx.roundTrip("0102", ver, m, &model.Msg0102{}, refAuthBody(ver, code, imei, sw), func(x model.JT808Msg) { x.(*model.Msg0102).AuthCodeLen = 0 })
							}
						}
					}
				}
			}
			// 8100
			if cx.Case("registration-reply") {
				for _, s := range w16 {
					for r := 0; r < 6; r++ {
						for n := 0; n <= 40; n++ {
							code := strings.Repeat("3", n)
							if n > 1 {
								code = code[:n-2] + "}~"
							}
							m := &model.Msg8100{Header: mkHeader(ver, 0x8100, s), AnswerSerialNumber: s, Result: model.ResultCodeType(r), AuthCode: code}
							cx.roundTrip("8100", ver, m, &model.Msg8100{}, append(append(be16(s), byte(r)), code...), nil)
						}
					}
				}
			}
			// body lengths 0..1100 through 8100's open-ended code
			if cx.Case("body-lengths") {
				for n := 0; n <= 1100; n++ {
					for _, fill := range []string{"a", "~"} {
						code := strings.Repeat(fill, n)
						m := &model.Msg8100{Header: mkHeader(ver, 0x8100, 1), AnswerSerialNumber: 1, AuthCode: code}
						cx.roundTrip("8100", ver, m, &model.Msg8100{}, append(append(be16(1), 0), code...), nil)
					}
				}
			}
			// 0200: each field over its boundary values, pairs of fields
			if cx.Case("location") {
				locs := locCases()
				for _, l := range locs {
					m := &model.Msg0200{Header: mkHeader(ver, 0x200, 5), AlarmSign: l.alarm, StatusSign: l.status, Latitude: l.lat, Longitude: l.lon, Altitude: l.alt, Speed: l.speed, Direction: l.dir, Time: l.time}
					cx.roundTrip("0200", ver, m, &model.Msg0200{}, l.body(), nil)
				}
			}
			// 8004
			if cx.Case("server-time") {
				for _, ts := range tms {
					cx.roundTrip("8004", ver, &model.Msg8004{Header: mkHeader(ver, 0x8004, 5), ServerTime: parseT(ts)}, &model.Msg8004{}, unhex(ts), nil)
				}
				// the fraction of a second is dropped, the wall clock of the time's own zone is sent
				for _, ts := range tms {
					for _, frac := range []time.Duration{1, 499999999, 500000000, 500000001, 999999999} {
						for _, off := range []int{0, 8 * 3600, -5*3600 - 1800, 14 * 3600} {
							u := *parseT(ts)
							t := time.Date(u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second(), int(frac), time.FixedZone("z", off))
							cx.roundTrip("8004", ver, &model.Msg8004{Header: mkHeader(ver, 0x8004, 5), ServerTime: &t}, &model.Msg8004{}, unhex(ts), func(x model.JT808Msg) {
								y := x.(*model.Msg8004)
								v := *y.ServerTime
								v = time.Date(v.Year(), v.Month(), v.Day(), v.Hour(), v.Minute(), v.Second(), 0, time.UTC)
								y.ServerTime = &v
							})
						}
					}
				}
				// every minute of a day, every day of a leap year
				t0 := *parseT("240101000000")
				for i := 0; i < 366; i++ {
					t := t0.Add(time.Duration(i)*24*time.Hour + time.Duration(i*61)*time.Second)
					cx.roundTrip("8004", ver, &model.Msg8004{Header: mkHeader(ver, 0x8004, 5), ServerTime: &t}, &model.Msg8004{}, unhex(t.Format("060102150405")), nil)
				}
				for i := 0; i < 86400; i += 37 {
					t := t0.Add(time.Duration(i) * time.Second)
					cx.roundTrip("8004", ver, &model.Msg8004{Header: mkHeader(ver, 0x8004, 5), ServerTime: &t}, &model.Msg8004{}, unhex(t.Format("060102150405")), nil)
				}
			}
			// 9205 and 1205
			for _, st := range tms {
				for _, et := range tms {
					if !cx.Case("media") {
						continue
					}
					for _, a := range w32 {
						for _, b := range w8 {
							q := model.DeviceMediaQuery{LogicChannelID: b, StartTime: parseT(st), EndTime: parseT(et), AlarmSign: a, AlarmSignExt: ^a, MediaType: b ^ 1, StreamType: b ^ 2, StorageType: b ^ 4}
							body := append([]byte{b}, unhex(st)...)
							body = append(body, unhex(et)...)
							body = append(body, be32(a)...)
							body = append(body, be32(^a)...)
							body = append(body, b^1, b^2, b^4)
							cx.roundTrip("9205", ver, &model.Msg9205{Header: mkHeader(ver, 0x9205, 5), DeviceMediaQuery: q}, &model.Msg9205{}, body, nil)
							for _, s := range []uint16{0, 0x7d7e, 0xffff} {
								m := &model.Msg1205{Header: mkHeader(ver, 0x1205, 5), AnswerSerialNumber: s, MediaCount: a ^ 5, DeviceMedia: model.DeviceMedia{DeviceMediaQuery: q, Size: a ^ 77}}
								bd := append(be16(s), be32(a^5)...)
								bd = append(bd, body...)
								bd = append(bd, be32(a^77)...)
								cx.roundTrip("1205", ver, m, &model.Msg1205{}, bd, nil)
							}
						}
					}
				}
			}
			// 0104 and 8103 carry a parameter list (details under C17)
			if cx.Case("parameters") {
				for n := 0; n <= 60; n++ {
					var ps []*model.ParamData
					var pb []byte
					for i := 0; i < n; i++ {
						v := strings.Repeat("x", i%20)
						ps = append(ps, &model.ParamData{ParamID: 0x13, ParamLen: uint8(len(v)), ParamValue: v})
						pb = append(pb, be32(0x13)...)
						pb = append(pb, byte(len(v)))
						pb = append(pb, v...)
					}
					for _, s := range []uint16{0, 0x7e7e, 0xffff} {
						mk := func() *model.DeviceParams {
							return &model.DeviceParams{DevicePhone: phoneOf[ver], ParamCnt: uint8(n), Params: ps}
						}
						cx.roundTrip("0104", ver, &model.Msg0104{Header: mkHeader(ver, 0x104, 5), AnswerSerialNumber: s, AnswerParamCnt: uint8(n), Parameters: mk()}, &model.Msg0104{}, append(append(be16(s), byte(n)), pb...), nil)
						cx.roundTrip("8103", ver, &model.Msg8103{Header: mkHeader(ver, 0x8103, s), ParamCnt: uint8(n), Parameters: mk()}, &model.Msg8103{}, append([]byte{byte(n)}, pb...), nil)
					}
				}
			}
		}
	})
	register("C04", "fragment-headers", false, func(cx *Ctx) {
		for _, ver := range allVers {
			for _, tot := range w16 {
				for _, ix := range w16 {
					if !cx.Case("fragment-headers") {
						continue
					}
					for _, n := range []uint16{0, 1, 0x7d, 0x7e, 512, 1023} {
						cx.step()
						h := mkHeader(ver, 0x801, ix)
						h.Attr.PacketFragmented, h.Attr.PacketFragmentedDesc, h.Attr.BodyLength = 1, true, n
						h.Frag = &model.MsgFragmentation{Total: tot, Index: ix}
						want := refContent(refHdr{id: 0x801, ver: hdrVer(ver), proto: h.ProtocolVersion, phone: h.PhoneNumber, serial: ix, frag: true, total: tot, index: ix}, make([]byte, n))
						hl := len(want) - int(n)
						got, err := h.Encode()
						if err != nil || !bytes.Equal(got, want[:hl]) {
							cx.Fail("C04 C16", "fragment header encoded as %x (%v), want %x", got, err, want[:hl])
							break
						}
						d := &model.MsgHeader{}
						if err := d.Decode(want); err != nil || d.Frag == nil || *d.Frag != *h.Frag || d.Attr.BodyLength != n || d.SerialNumber != ix || d.PhoneNumber != h.PhoneNumber || !d.IsFragmented() {
							cx.Fail("C04 C16", "fragment header %x decoded as %+v (%v)", want[:hl], d, err)
							break
						}
					}
					cx.res.Traces++
				}
			}
		}
	})
	register("C04", "attribute-words", false, func(cx *Ctx) {
		for hi := 0; hi < 256; hi++ {
			if !cx.Case("attribute-words") {
				continue
			}
			for lo := 0; lo < 256; lo++ {
				cx.step()
				v := uint16(hi)<<8 | uint16(lo)
				a := &model.MsgBodyAttr{}
				if err := a.Decode(v); err != nil {
					cx.Fail("C04", "attribute word %04x: %v", v, err)
					break
				}
				ver := model.Version2013
				if v>>14&1 == 1 {
					ver = model.Version2019
				}
				if a.BodyLength != v&0x3ff || a.Encryption != uint8(v>>10&7) || a.PacketFragmented != uint8(v>>13&1) || a.VersionSign != uint8(v>>14&1) ||
					a.Extra != uint8(v>>15) || a.VersionDesc != ver || bool(a.PacketFragmentedDesc) != (v>>13&1 == 1) {
					cx.Fail("C04", "attribute word %04x decoded as %+v", v, *a)
					break
				}
				if e := a.Encode(); e != v {
					cx.Fail("C04", "attribute word %04x encoded back as %04x", v, e)
					break
				}
			}
			cx.res.Traces++
		}
	})
	register("C04", "status-words", false, func(cx *Ctx) {
		const mask = 0x7fff3f // defined bits: 0-5, 8-22
		for hi := 0; hi < 1<<11; hi++ {
			if !cx.Case("status-words") {
				continue
			}
			for lo := 0; lo < 1<<12; lo++ {
				v := uint32(hi)<<12 | uint32(lo)
				g := &model.GeoMeta{}
				g.Decode(v)
				if m := geoMetaMatches(g, v); m != "" {
					cx.Fail("C04 C10", "%s", m)
					break
				}
				if e := g.Encode(); e != v&mask {
					cx.Fail("C04", "status word %08x encodes back to %08x, want %08x", v, e, v&mask)
					break
				}
			}
			cx.res.Transitions += 1 << 12
			cx.res.Traces++
		}
		if cx.Case("status-words-reserved") {
			for b := 23; b < 32; b++ {
				for _, base := range []uint32{0, mask} {
					v := base | 1<<b
					g := &model.GeoMeta{}
					g.Decode(v)
					if m := geoMetaMatches(g, v); m != "" {
						cx.Fail("C04 C10", "%s", m)
					}
				}
			}
		}
	})
}

// locCases: all boundary values of every field, and pairwise products.
func locCases() (r []refLoc) {
	base := refLoc{status: 3, lat: 39908823, lon: 116397470, alt: 50, speed: 605, dir: 90, time: "230301123456"}
	set := []func(l *refLoc, i int) bool{
		func(l *refLoc, i int) bool { return i < len(w32) && setv(&l.alarm, w32[i%len(w32)]) },
		func(l *refLoc, i int) bool { return i < len(w32) && setv(&l.status, w32[i%len(w32)]) },
		func(l *refLoc, i int) bool { return i < len(w32) && setv(&l.lat, w32[i%len(w32)]) },
		func(l *refLoc, i int) bool { return i < len(w32) && setv(&l.lon, w32[i%len(w32)]) },
		func(l *refLoc, i int) bool { return i < len(w16) && setv(&l.alt, w16[i%len(w16)]) },
		func(l *refLoc, i int) bool { return i < len(w16) && setv(&l.speed, w16[i%len(w16)]) },
		func(l *refLoc, i int) bool { return i < len(w16) && setv(&l.dir, w16[i%len(w16)]) },
		func(l *refLoc, i int) bool { return i < len(tms) && setv(&l.time, tms[i%len(tms)]) },
	}
	for a := range set {
		for i := 0; i < 16; i++ {
			l := base
			if !set[a](&l, i) {
				continue
			}
			r = append(r, l)
			for b := a + 1; b < len(set); b++ {
				for j := 0; j < 16; j++ {
					l2 := l
					if set[b](&l2, j) {
						r = append(r, l2)
					}
				}
			}
		}
	}
	return
}

func setv[T any](p *T, v T) bool { *p = v; return true }
