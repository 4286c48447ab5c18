package zzverif

import (
	"fmt"
	"strings"
	"testing/synctest"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// command sends a platform message to phone's device the way the API does and
// checks that exactly this frame appears on the device's connection.
func (w *World) command(phone string, id uint16, body []byte, msg func(h *model.MsgHeader) model.JT808Msg, tags string) {
	if w.dead {
		return
	}
	d := w.devs[phone]
	w.log("command(%04x,%s)", id, phone)
	w.noExtra(tags)
	w.also = "C13 C05"
	defer func() { w.also = "" }()
	dev, err := storage.GetDeviceCache().GetDeviceByPhone(phone)
	if err != nil {
		w.fail(tags, "device %s not found: %v", phone, err)
		return
	}
	s, err := storage.GetSession(dev.SessionID)
	if err != nil {
		w.fail(tags, "no session for device %s: %v", phone, err)
		return
	}
	h := model.GenMsgHeader(dev, id, s.GetNextSerialNum())
	gServ.Send(s.ID, msg(h))
	w.await(d.conn, []expReply{{id: id, ph: phone, ver: d.ver, pv: d.proto, body: func(b []byte) string {
		if string(b) != string(body) {
			return fmt.Sprintf("want body %x", body)
		}
		return ""
	}}}, stayOpen, tags)
}

func (w *World) queryCmd(phone, tags string) {
	w.command(phone, 0x8104, nil, func(h *model.MsgHeader) model.JT808Msg { return &model.Msg8104{Header: h} }, tags)
}

func (w *World) setCmd(phone, tags string) {
	ps := &model.DeviceParams{DevicePhone: phone, ParamCnt: 2, Params: []*model.ParamData{
		{ParamID: 1, ParamLen: 4, ParamValue: uint32(0x7d7e0001)}, {ParamID: 0x13, ParamLen: 3, ParamValue: "a~}"}}}
	body := append([]byte{2}, be32(1)...)
	body = append(append(body, 4), be32(0x7d7e0001)...)
	body = append(append(append(body, be32(0x13)...), 3), "a~}"...)
	w.command(phone, 0x8103, body, func(h *model.MsgHeader) model.JT808Msg { return &model.Msg8103{Header: h, Parameters: ps} }, tags)
}

func init() {
	vers := []int{v2011, v2013, v2019}
	widths := map[int][3]int{v2011: {5, 8, 7}, v2013: {5, 20, 7}, v2019: {11, 30, 30}}
	// every version x field length combination x plate, full life cycle, commands included
	register("C05", "fields", true, func(cx *Ctx) {
		fill := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
		for _, ver := range vers {
			wd := widths[ver]
			lens := func(n int) []int { return []int{0, 1, n / 2, n - 1, n} }
			for _, a := range lens(wd[0]) {
				for _, b := range lens(wd[1]) {
					for _, c := range lens(wd[2]) {
						for _, pk := range []int{0, 1, 2, 3, 4} {
							if !cx.Case("fields") {
								continue
							}
							gPhone++
							n := gPhone % 100000
							plate := []string{fmt.Sprintf("%05d", n), fmt.Sprintf("京A%05d", n), fmt.Sprintf("粤~}%05d", n), fmt.Sprintf("京沪粤%06d", n), fmt.Sprintf(" a %05d ", n)}[pk]
							w := newWorld(cx, 1)
							ph := newPhone(ver)
							w.phones, w.plates = []string{ph}, []string{plate}
							r := refReg{prov: 11, city: 101, manu: fill[:a], model: fill[1 : 1+b], id: fill[2 : 2+c], color: 2, plate: plate}
							w.regRaw(0, ph, r, ver)
							w.queryCmd(ph, "C05 C13")
							if !w.dead {
								w.auth(0, ph, ver, w.devs[ph].code, "good")
							}
							w.hb(0, ph, ver)
							w.loc(0, ph, ver, someLoc(3))
							w.queryCmd(ph, "C05 C13")
							w.setCmd(ph, "C05 C13")
							w.dereg(0, ph, ver)
							cx.outcome(fmt.Sprintf("version %d", ver))
							w.finish()
						}
					}
				}
			}
		}
	})
	// plate lengths decide between 2011 and 2013
	register("C05", "plate-lengths", true, func(cx *Ctx) {
		for _, ver := range vers {
			for n := 1; n <= 60; n++ {
				if ver == v2011 && n > 12 {
					break // longer 2011 bodies cannot be told from 2013 ones
				}
				for _, gbk := range []bool{false, true} {
					if !cx.Case("plate-lengths") {
						continue
					}
					plate := strings.Repeat("A", n)
					if gbk {
						plate = strings.Repeat("京", n/2) + strings.Repeat("Z", n%2)
					}
					w := newWorld(cx, 1)
					ph := newPhone(ver)
					w.phones, w.plates = []string{ph}, []string{plate}
					r := refReg{prov: 11, city: 101, manu: "FKY", model: "fakey", id: "ID7", color: 1, plate: plate}
					w.regRaw(0, ph, r, ver)
					w.queryCmd(ph, "C05 C13")
					if !w.dead {
						w.auth(0, ph, ver, w.devs[ph].code, "good")
					}
					w.setCmd(ph, "C05 C13")
					w.finish()
				}
			}
		}
	})
	// phone digits, serials, protocol revisions, and switching of layouts between terminals on one connection
	register("C05", "phones", true, func(cx *Ctx) {
		for _, ver := range vers {
			n := 12
			if ver == v2019 {
				n = 20
			}
			for i := 0; i < n; i++ {
				for d := byte('0'); d <= '9'; d++ {
					if !cx.Case("phones") {
						continue
					}
					p := []byte(strings.Repeat("0", n))
					for k := range p {
						p[k] = byte('0' + (k*3+i)%10)
					}
					p[i] = d
					w := newWorld(cx, 1)
					ph := string(p)
					pl := newPlate()
					w.phones, w.plates = []string{ph}, []string{pl}
					w.reg(0, ph, pl, ver)
					w.queryCmd(ph, "C05 C13")
					if !w.dead {
						w.auth(0, ph, ver, w.devs[ph].code, "good")
					}
					w.hb(0, ph, ver)
					w.setCmd(ph, "C05 C13")
					w.dereg(0, ph, ver)
					w.finish()
				}
			}
		}
		// 2019 revisions (protocol version byte)
		for pv := 0; pv < 256; pv++ {
			if !cx.Case("revisions") {
				continue
			}
			w := newWorld(cx, 1)
			ph, pl := newPhone(v2019), newPlate()
			w.phones, w.plates = []string{ph}, []string{pl}
			c := w.slots[0]
			h := refHdr{id: 0x100, ver: v2019, proto: byte(pv), phone: ph, serial: w.nextSerial()}
			r := fixedReg
			r.plate = pl
			w.log("registration with protocol version %d", pv)
			var code string
			w.exchange(c, refFrame(refContent(h, r.body(v2019))), []expReply{{id: 0x8100, ph: ph, ver: v2019, pv: byte(pv), body: func(b []byte) string {
				if len(b) < 4 || b[2] != 0 {
					return "not accepted"
				}
				code = string(b[3:])
				return ""
			}}}, stayOpen, "C05")
			d := &rDev{phone: ph, plate: pl, ver: v2019, proto: byte(pv), id: r.id, code: code, st: map[int8]bool{0: true}, conn: c}
			w.touch(d)
			w.devs[ph] = d
			w.check("C05")
			w.queryCmd(ph, "C05 C13")
			w.setCmd(ph, "C05 C13")
			w.finish()
		}
		// terminals of all versions sharing one connection: every order of operations of depth 4
		type op struct{ t, k int }
		var ops []op
		for t := 0; t < 3; t++ {
			for k := 0; k < 4; k++ {
				ops = append(ops, op{t, k})
			}
		}
		depth := cx.pick(3, 4)
		idx := make([]int, depth)
		for {
			if cx.Case("shared-connection") {
				w := newWorld(cx, 1)
				var ts []term
				for _, v := range vers {
					ts = append(ts, w.setup(0, v, true))
				}
				for _, i := range idx {
					t := ts[ops[i].t]
					if w.dead || w.devs[t.ph] == nil {
						continue
					}
					switch ops[i].k {
					case 0:
						w.hb(0, t.ph, t.ver)
					case 1:
						w.queryCmd(t.ph, "C05 C13")
					case 2:
						w.auth(0, t.ph, t.ver, w.devs[t.ph].code, "good")
					case 3:
						w.setCmd(t.ph, "C05 C13")
					}
				}
				w.finish()
			}
			k := depth - 1
			for k >= 0 {
				idx[k]++
				if idx[k] < len(ops) {
					break
				}
				idx[k] = 0
				k--
			}
			if k < 0 || cx.stopped() {
				break
			}
		}
	})
	// a 2019 registration that ends inside its fixed fields is not read with other widths
	register("C05", "short-2019", true, func(cx *Ctx) {
		for n := 0; n < 76; n++ {
			for _, plate := range []string{"", "京A12345"} {
				if !cx.Case("short-2019") {
					continue
				}
				w := newWorld(cx, 1)
				o := w.setup(0, v2019, true)
				r := fixedReg
				r.plate = newPlate()
				body := r.body(v2019)[:n]
				if k := len(plate); k > 0 && n > k { // something that looks like a plate at the end
					body = append(append([]byte(nil), body[:n-k]...), plate...)[:n]
				}
				w.also = "C05"
				w.regBody(0, newPhone(v2019), body, v2019, fmt.Sprintf("2019 registration of %d bytes", n))
				if w.slots[0].open {
					w.hb(0, o.ph, v2019)
				}
				w.finish()
			}
		}
	})
	// the authentication code is taken as sent: padding around it makes it another code
	register("C05", "auth-code", true, func(cx *Ctx) {
		for _, ver := range vers {
			for _, pad := range []string{"\x00", " ", "\n", "\x00\x00", "0", "\xff"} {
				for where := 0; where < 2; where++ {
					for _, again := range []bool{false, true} {
						if !cx.Case("auth-code") {
							continue
						}
						w := newWorld(cx, 1)
						t := w.setup(0, ver, again)
						if !w.dead {
							w.also = "C05"
							code := w.devs[t.ph].code
							bad := code + pad
							if where == 1 {
								bad = pad + code
							}
							w.auth(0, t.ph, ver, bad, fmt.Sprintf("code %q instead of %q", bad, code))
							w.reg(0, t.ph, t.pl, ver)
						}
						w.finish()
					}
				}
			}
		}
	})
	// a refused registration is answered in the layout of the refused terminal
	register("C05", "refused", true, func(cx *Ctx) {
		for _, v1 := range vers {
			for _, v2 := range vers {
				for _, same := range []bool{false, true} {
					if same && (v1 == v2019) != (v2 == v2019) {
						continue
					}
					if !cx.Case("refused") {
						continue
					}
					w := newWorld(cx, 2)
					t := w.setup(0, v1, true)
					ph := newPhone(v2)
					if same {
						ph = t.ph
					}
					w.phones = append(w.phones, newPhone(v2), ph)
					pl := t.pl
					if same {
						pl = newPlate()
					}
					w.plates = append(w.plates, pl)
					w.reg(1, ph, pl, v2)
					w.hb(0, t.ph, v1)
					w.setCmd(t.ph, "C05 C13")
					synctest.Wait()
					w.finish()
				}
			}
		}
	})
}
