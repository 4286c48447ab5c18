package zzverif

import (
	"bytes"
	"context"
	"fmt"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// rawMsg is a message whose encoded content the harness chooses freely.
type rawMsg struct{ content []byte }

func (m *rawMsg) Decode(*model.PacketData) error     { return nil }
func (m *rawMsg) Encode() ([]byte, error)            { return append([]byte(nil), m.content...), nil }
func (m *rawMsg) GetHeader() *model.MsgHeader        { return &model.MsgHeader{Attr: &model.MsgBodyAttr{}} }
func (m *rawMsg) GenOutgoing(_ model.JT808Msg) error { return nil }

func safely(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func (cx *Ctx) encodeRaw(content []byte) {
	cx.step()
	var fr []byte
	var err error
	if p := safely(func() { fr, err = protocol.NewJT808PacketCodec().Encode(&rawMsg{content}) }); p != nil {
		cx.Fail("C02", "encoding content %x panics: %v", clip(content), p)
		return
	}
	if err != nil {
		cx.Fail("C02", "encoding content %x fails: %v", clip(content), err)
		return
	}
	if want := refFrame(content); !bytes.Equal(fr, want) {
		cx.Fail("C02", "content %x is emitted as %x, want %x", clip(content), clip(fr), clip(want))
	}
}

// decodeRaw: content is a complete header+body; the decoded packet must carry exactly it.
func (cx *Ctx) decodeRaw(content []byte) {
	cx.step()
	want, err := refParse(content)
	if err != nil {
		panic("harness: bad content")
	}
	// through the frame handler and the codec, as the pipeline does
	fc := newFakeConn("1.1.1.1:1")
	fr := refFrame(content)
	fc.feed(fr)
	fc.peerClose()
	ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "x", Conn: fc})
	var pd *model.PacketData
	var payload protocol.FramePayload
	p := safely(func() {
		payload, err = protocol.NewJT808FrameHandler(fc).Recv(ctx)
		if err == nil {
			pd, err = protocol.NewJT808PacketCodec().Decode(payload)
		}
	})
	if p != nil || err != nil || pd == nil || pd.Header == nil {
		cx.Fail("C02", "content %x sent as %x is not decoded: panic=%v err=%v", clip(content), clip(fr), p, err)
		return
	}
	if !bytes.Equal(pd.Body, want.body) {
		cx.Fail("C02", "content %x decodes to body %x, want %x", clip(content), clip(pd.Body), clip(want.body))
		return
	}
	h := pd.Header
	if h.MsgID != want.id || h.SerialNumber != want.serial || h.PhoneNumber != want.phone || int(h.Attr.BodyLength) != want.bodyLen || h.ProtocolVersion != want.proto {
		cx.Fail("C02", "content %x decodes to header id=%04x serial=%04x phone=%s len=%d proto=%d", clip(content), h.MsgID, h.SerialNumber, h.PhoneNumber, h.Attr.BodyLength, h.ProtocolVersion)
	}
}

func init() {
	register("C02", "codec", false, func(cx *Ctx) {
		abc := []byte{0x7d, 0x7e, 0x01, 0x02, 0x00, 0x41}
		words(abc, 1, cx.pick(6, 7), func(w []byte) {
			if cx.Case("encode-words") {
				cx.encodeRaw(w)
				cx.state(fmt.Sprintf("e%x", w))
				cx.res.Traces++
			}
		})
		words(abc, 0, cx.pick(5, 6), func(w []byte) {
			if !cx.Case("decode-words") {
				return
			}
			for _, ver := range []int{v2013, v2019} {
				ph := "013912345678"
				if ver == v2019 {
					ph = "00000000013912345678"
				}
				for _, sn := range []uint16{0, 0x7e7d, 0x7d01, 0x7d02, 0x027e} {
					h := refHdr{id: 0x0200, ver: ver, proto: protoOf(ver), phone: ph, serial: sn}
					c := refContent(h, w)
					cx.decodeRaw(c)
					cx.encodeRaw(c)
					// force the check byte to 7e and 7d
					x := refXor(c)
					for _, k := range []byte{0x7e, 0x7d, 0x01, 0x02} {
						b2 := append(append([]byte{}, w...), 0) // length changes, so recompute
						c2 := refContent(h, b2)
						x2 := refXor(c2)
						c2[len(c2)-1] = x2 ^ k
						_ = x
						cx.decodeRaw(c2)
						cx.encodeRaw(c2)
					}
				}
			}
			cx.state(fmt.Sprintf("d%x", w))
			cx.res.Traces++
		})
		for a := 0; a < 256; a++ {
			if !cx.Case("all-pairs") {
				continue
			}
			for b := 0; b < 256; b++ {
				cx.encodeRaw([]byte{byte(a), byte(b)})
				h := refHdr{id: uint16(a)<<8 | uint16(b), ver: v2013, phone: "013912345678", serial: uint16(b)<<8 | uint16(a)}
				cx.decodeRaw(refContent(h, []byte{byte(a), byte(b)}))
			}
			cx.res.Traces++
		}
		// every check byte value, bodies of every length with special bytes at every position
		for n := 0; n <= 1023; n += 1 {
			if !cx.Case("lengths") {
				continue
			}
			body := make([]byte, n)
			for i := range body {
				body[i] = byte(i * 3)
			}
			h := refHdr{id: 0x0801, ver: v2013, phone: "013912345678", serial: uint16(n)}
			c := refContent(h, body)
			cx.decodeRaw(c)
			cx.encodeRaw(c)
			for i := range body {
				body[i] = 0x7e - byte(i&1)
			}
			c = refContent(h, body)
			cx.decodeRaw(c)
			cx.encodeRaw(c)
			cx.res.Traces++
		}
	})
	// long contents made of escape look-alikes: every word repeated to every size class,
	// and one word at every position of a long body
	register("C02", "long", false, func(cx *Ctx) {
		sizes := []int{64, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 700, 900, 1000, 1009, 1010, 1011, 1012, 1020, 1021, 1022, 1023}
		words([]byte{0x7d, 0x7e, 0x01, 0x02}, 1, cx.pick(4, 5), func(wd []byte) {
			if !cx.Case("long-words") {
				return
			}
			for _, n := range sizes {
				body := make([]byte, n)
				for i := range body {
					body[i] = wd[i%len(wd)]
				}
				for _, ver := range []int{v2013, v2019} {
					h := refHdr{id: 0x0801, ver: ver, proto: protoOf(ver), phone: "013912345678", serial: uint16(n)}
					if ver == v2019 {
						h.phone = "00000000013912345678"
					}
					c := refContent(h, body)
					cx.decodeRaw(c)
					cx.encodeRaw(c)
				}
			}
			cx.state(fmt.Sprintf("l%x", wd))
			cx.res.Traces++
		})
		words([]byte{0x7d, 0x7e, 0x01, 0x02}, 2, 3, func(wd []byte) {
			if !cx.Case("long-positions") {
				return
			}
			for _, fill := range []byte{0x00, 0x7e} {
				for k := 0; k+len(wd) <= 1023; k += cx.pick(3, 1) {
					body := bytes.Repeat([]byte{fill}, 1023)
					copy(body[k:], wd)
					h := refHdr{id: 0x0801, ver: v2013, phone: "013912345678", serial: uint16(k)}
					c := refContent(h, body)
					cx.decodeRaw(c)
					cx.encodeRaw(c)
				}
			}
			cx.res.Traces++
		})
	})
	register("C02", "live", true, func(cx *Ctx) {
		// every serial number appears in request and reply of a running server
		const block = 64
		for base := 0; base < 65536; base += block {
			if !cx.Case("live-serials") {
				continue
			}
			ver := []int{v2013, v2019}[base/block%2]
			ph, pl := newPhone(ver), newPlate()
			w := newWorld(cx, 1)
			w.phones, w.plates = []string{ph}, []string{pl}
			w.reg(0, ph, pl, ver)
			w.serial = uint16(base) - 1
			for i := 0; i < block && !w.dead; i++ {
				w.log("hb(serial %04x)", base+i)
				sn := w.nextSerial()
				data := refFrame(refContent(w.hdr(2, ph, ver, protoOf(ver), sn), nil))
				w.exchange(w.slots[0], data, []expReply{{id: 0x8001, ph: ph, ver: ver, pv: protoOf(ver), body: general(sn, 2, 0)}}, stayOpen, "C02")
			}
			w.cx.curDesc = ""
			w.finish()
		}
	})
}
