package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// parameter ids and the types the protocol prescribes: D dword, W word, B byte,
// G GBK string, X bytes (written as hex), S raw bytes kept as a string
var paramKind = map[uint32]byte{}

func init() {
	add := func(k byte, ids ...uint32) {
		for _, i := range ids {
			paramKind[i] = k
		}
	}
	add('D', 1, 2, 3, 4, 5, 6, 7, 0x18, 0x19, 0x1b, 0x1c, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x45, 0x46, 0x47,
		0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x64, 0x65, 0x70, 0x71, 0x72, 0x73, 0x74, 0x80, 0x93, 0x95, 0x100, 0x102)
	add('W', 0x31, 0x5b, 0x5c, 0x5d, 0x5e, 0x81, 0x82, 0x101, 0x103)
	add('B', 0x84, 0x90, 0x91, 0x92, 0x94)
	add('G', 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x40, 0x41, 0x42, 0x43, 0x44, 0x48, 0x49, 0x83)
	add('X', 0x32, 0x75, 0x76, 0x77, 0x79, 0x7a, 0x7b, 0x7c)
	add('S', 0x110)
}

func paramIDs() (ids []uint32) {
	for i := range paramKind {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// pv is a parameter in reference form.
type pv struct {
	id  uint32
	val any
}

func (p pv) raw() []byte {
	switch paramKind[p.id] {
	case 'D':
		return be32(p.val.(uint32))
	case 'W':
		return be16(p.val.(uint16))
	case 'B':
		return []byte{p.val.(uint8)}
	case 'G':
		return toGBK(p.val.(string))
	case 'X':
		return unhex(strings.ToLower(p.val.(string)))
	case 'S':
		return []byte(p.val.(string))
	}
	return nil
}

func (p pv) known() bool { return paramKind[p.id] != 0 }

// fits: the protocol can carry it (a length byte, and texts in GBK)
func (p pv) fits() bool {
	return p.known() && (paramKind[p.id] != 'G' || isGBK(p.val.(string))) && len(p.raw()) <= 255
}

func (p pv) item() []byte {
	r := p.raw()
	return append(append(be32(p.id), byte(len(r))), r...)
}

// refParamList: count byte and items; unknown ids, values over 255 bytes and texts that GBK cannot express are left out.
func refParamList(ps []pv) []byte {
	out := []byte{0}
	for _, p := range ps {
		if p.fits() {
			out = append(out, p.item()...)
			out[0]++
		}
	}
	return out
}

func native(ps []pv, cnt, plen uint8) *model.DeviceParams {
	d := &model.DeviceParams{ParamCnt: cnt}
	for _, p := range ps {
		d.Params = append(d.Params, &model.ParamData{ParamID: p.id, ParamLen: plen, ParamValue: p.val})
	}
	return d
}

func paramJSON(ps []pv, cnt, plen int) []byte {
	var items []map[string]any
	for _, p := range ps {
		items = append(items, map[string]any{"paramId": p.id, "paramLen": plen, "paramValue": p.val})
	}
	b, _ := json.Marshal(map[string]any{"paramCnt": cnt, "params": items})
	return b
}

func fromJSON(b []byte) (*model.DeviceParams, error) {
	d := &model.DeviceParams{}
	return d, json.Unmarshal(b, d)
}

// guard turns a panic of the code under test into a failure.
func (cx *Ctx) guard(tags, what string, fn func()) {
	defer func() {
		if p := recover(); p != nil {
			cx.Fail(tags, "%s: panic: %v", what, p)
		}
	}()
	fn()
}

// paramList checks encode (native and JSON) and decode of one list.
func (cx *Ctx) paramList(ps []pv, cnt, plen uint8) {
	if cx.failed {
		return
	}
	cx.step()
	desc := func() string {
		var s []string
		for _, p := range ps {
			v := fmt.Sprintf("%v", p.val)
			if len(v) > 40 {
				v = fmt.Sprintf("%s...(%d)", v[:40], len(v))
			}
			s = append(s, fmt.Sprintf("%04x=%s", p.id, v))
		}
		return strings.Join(s, " ")
	}
	want := refParamList(ps)
	cx.state(string(want))
	cx.res.Traces++
	if cx.res.Traces%20000 == 1 {
		cx.sample(desc())
	}
	cx.guard("C17 C11", desc(), func() {
		got, err := native(ps, cnt, plen).Encode()
		if err != nil || !bytes.Equal(got, want) {
			cx.Fail("C17", "[%s] encodes to %x (%v), want %x", desc(), got, err, want)
			return
		}
		for _, p := range ps {
			if s, ok := p.val.(string); ok && !utf8.ValidString(s) {
				cx.paramDecode(ps, want[0], want[1:], desc)
				return // JSON cannot carry these bytes
			}
		}
		j, err := fromJSON(paramJSON(ps, int(cnt), int(plen)))
		if err != nil {
			cx.Fail("C17", "[%s] JSON: %v", desc(), err)
			return
		}
		got, err = j.Encode()
		if err != nil || !bytes.Equal(got, want) {
			cx.Fail("C17", "[%s] given as JSON encodes to %x (%v), want %x", desc(), got, err, want)
			return
		}
		cx.paramDecode(ps, want[0], want[1:], desc)
	})
}

func (cx *Ctx) paramDecode(ps []pv, cnt byte, items []byte, desc func() string) {
	d := &model.DeviceParams{}
	if err := d.Decode("013000000000", cnt, append([]byte(nil), items...)); err != nil {
		cx.Fail("C17", "[%s] does not decode: %v", desc(), err)
		return
	}
	var kept []pv
	for _, p := range ps {
		if p.fits() {
			kept = append(kept, p)
		}
	}
	if len(d.Params) != len(kept) {
		cx.Fail("C17", "[%s] decodes to %d parameters, want %d", desc(), len(d.Params), len(kept))
		return
	}
	for i, p := range kept {
		q := d.Params[i]
		wv := p.val
		if paramKind[p.id] == 'X' && wv != strings.ToUpper(wv.(string)) { // given in small letters
			wv = strings.ToUpper(wv.(string))
			if s, ok := q.ParamValue.(string); ok {
				q.ParamValue = strings.ToUpper(s)
			}
		}
		if q.ParamID != p.id || q.ParamValue != wv {
			cx.Fail("C17", "[%s] parameter %d decodes to %04x=%v (%T)", desc(), i, q.ParamID, q.ParamValue, q.ParamValue)
			return
		}
	}
	want := refParamList(kept)
	got, err := d.Encode()
	if err != nil || !bytes.Equal(got, want) {
		cx.Fail("C17", "[%s] encodes to %x after decoding, want %x (%v)", desc(), got, want, err)
	}
}

// paramMsg checks a list inside a whole message, framed.
func (cx *Ctx) paramMsg(ver int, ps []pv) {
	if cx.failed {
		return
	}
	cx.step()
	list := refParamList(ps)
	cx.guard("C17 C11", "message", func() {
		pc := protocol.NewJT808PacketCodec()
		for _, id := range []uint16{0x8103, 0x0104} {
			h := mkHeader(ver, id, 0x7d7e)
			var m model.JT808Msg = &model.Msg8103{Header: h, ParamCnt: 77, Parameters: native(ps, 0, 0)}
			body := list
			if id == 0x0104 {
				m = &model.Msg0104{Header: h, AnswerSerialNumber: 0x7e7d, AnswerParamCnt: 99, Parameters: native(ps, 0, 0)}
				body = append(be16(0x7e7d), list...)
			}
			fr, err := pc.Encode(m)
			if len(body) > 1023 {
				if err == nil {
					cx.Fail("C17 C04", "a body of %d bytes was encoded", len(body))
				}
				continue
			}
			if err != nil {
				cx.Fail("C17 C04", "%04x with %d parameters does not encode: %v", id, len(ps), err)
				return
			}
			c, err := refDeframe(fr)
			if err != nil {
				cx.Fail("C02", "%v", err)
				return
			}
			p, err := refParse(c)
			if err != nil || !bytes.Equal(p.body, body) || p.bodyLen != len(body) {
				cx.Fail("C17 C04", "%04x has body %x (header says %d), want %x", id, p.body, p.bodyLen, body)
				return
			}
			pd, err := pc.Decode(fr)
			if err != nil {
				cx.Fail("C17 C04", "%04x does not decode: %v", id, err)
				return
			}
			var got *model.DeviceParams
			if id == 0x8103 {
				x := &model.Msg8103{}
				err = x.Decode(pd)
				got = x.Parameters
			} else {
				x := &model.Msg0104{}
				err = x.Decode(pd)
				got = x.Parameters
				if err == nil && x.AnswerSerialNumber != 0x7e7d {
					cx.Fail("C17 C04", "answered serial %04x", x.AnswerSerialNumber)
				}
			}
			if err != nil || got == nil {
				cx.Fail("C17 C04", "%04x does not decode: %v", id, err)
				return
			}
			re, err := got.Encode()
			if err != nil || !bytes.Equal(re, list) {
				cx.Fail("C17", "%04x decodes to parameters %x, want %x (%v)", id, re, list, err)
				return
			}
		}
	})
}

// paramVals: representative values of a kind; the first is the default one.
func paramVals(kind byte, dense bool) (v []any) {
	switch kind {
	case 'D':
		for _, x := range []uint32{60, 0, 1, 255, 256, 0x7d, 0x7e, 0x7d7e7d7e, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x01020304} {
			v = append(v, x)
		}
		if dense {
			for b := uint(0); b < 32; b++ {
				v = append(v, uint32(1)<<b, uint32(1)<<b-1)
			}
			for x := uint32(0); x < 256; x++ {
				v = append(v, x, x<<8, x<<16, x<<24)
			}
		}
	case 'W':
		v = append(v, uint16(101), uint16(0), uint16(0x7d7e), uint16(0xffff), uint16(0x0102))
		if dense {
			for x := 0; x < 65536; x++ {
				v = append(v, uint16(x))
			}
		}
	case 'B':
		v = append(v, uint8(1), uint8(0), uint8(0x7e), uint8(255))
		if dense {
			for x := 0; x < 256; x++ {
				v = append(v, uint8(x))
			}
		}
	case 'G':
		v = append(v, "abc", "", "京A12345", "~}", strings.Repeat("z", 255), strings.Repeat("京", 127), "a\x00", "\x00", "\x00b", " c ", "d\n", "\te", "京\x00\x00", "0", "007")
		if dense {
			for n := 0; n <= 255; n++ {
				v = append(v, strings.Repeat("a", n))
				if n < 128 {
					v = append(v, strings.Repeat("粤", n))
				}
			}
		}
	case 'X':
		v = append(v, "16320A00", "", "00", "7D7E", "00000000", strings.Repeat("AB", 255))
		if dense {
			for n := 0; n <= 255; n++ {
				v = append(v, strings.Repeat("0F", n), strings.Repeat("7E", n), fmt.Sprintf("%02X", n))
			}
		}
	case 'S':
		v = append(v, "12345678", "", "~}", "a\x00", "\x00b", " c ", "d\n")
		if dense {
			for n := 0; n <= 255; n++ {
				v = append(v, strings.Repeat("b", n), string([]byte{byte(n)}), string([]byte{1, byte(n), 0x7e, 0x7d, byte(255 - n), 0, 0x81, 0xff}))
			}
		}
	}
	return
}

func unknownIDs() (r []uint32) {
	for i := uint32(0); i < 0x180; i++ {
		if paramKind[i] == 0 {
			r = append(r, i)
		}
	}
	return append(r, 0x999, 0xf364, 0xff00, 0xffff, 0x10001, 0x01000000, 0x7d7e7d7e, 0xffffffff)
}

func init() {
	ids := paramIDs()
	register("C17", "values", false, func(cx *Ctx) {
		for _, id := range ids {
			if !cx.Case("values") {
				continue
			}
			for _, v := range paramVals(paramKind[id], true) {
				cx.paramList([]pv{{id, v}}, 1, uint8(len(pv{id, v}.raw())))
			}
			for _, c := range []uint8{0, 1, 2, 255} { // stored count and length are not trusted
				for _, l := range []uint8{0, 1, 4, 255} {
					cx.paramList([]pv{{id, paramVals(paramKind[id], false)[0]}}, c, l)
				}
			}
			for _, ver := range []int{v2013, v2019} {
				for _, v := range paramVals(paramKind[id], false) {
					cx.paramMsg(ver, []pv{{id, v}})
				}
			}
			if paramKind[id] == 'X' { // lower case is accepted as well
				b, err := native([]pv{{id, "0a0b0c"}}, 1, 3).Encode()
				if want := append(append([]byte{1}, be32(id)...), 3, 10, 11, 12); err != nil || !bytes.Equal(b, want) {
					cx.Fail("C17", "%04x=0a0b0c encodes to %x", id, b)
				}
			}
		}
	})
	register("C17", "pairs", false, func(cx *Ctx) {
		for _, a := range ids {
			if !cx.Case("pairs") {
				continue
			}
			for _, b := range ids {
				va, vb := paramVals(paramKind[a], false), paramVals(paramKind[b], false)
				for i := 0; i < 4; i++ {
					cx.paramList([]pv{{a, va[i%len(va)]}, {b, vb[(i*2+1)%len(vb)]}}, uint8(i), 0)
				}
				cx.paramMsg(v2013, []pv{{a, va[0]}, {b, vb[0]}, {a, va[len(va)-1]}})
				if cx.thorough() {
					for _, c := range ids {
						cx.paramList([]pv{{a, va[0]}, {b, vb[1]}, {c, paramVals(paramKind[c], false)[0]}}, 3, 0)
					}
				}
			}
		}
	})
	register("C17", "texts", false, func(cx *Ctx) {
		// texts that GBK cannot express are left out, the others are not disturbed
		good := []pv{{1, uint32(60)}, {0x13, "host"}, {0x84, uint8(2)}, {0x10, ""}, {0x31, uint16(7)}}
		for _, id := range ids {
			if paramKind[id] != 'G' || !cx.Case("texts") {
				continue
			}
			for _, v := range []string{"ñ", "🚗", "a🚗", "🚗a", "京🚗京", "\u0e01", "\ufffd", strings.Repeat("a", 254) + "🚗", strings.Repeat("a", 300) + "🚗"} {
				for pos := 0; pos <= len(good); pos++ {
					ps := append(append(append([]pv{}, good[:pos]...), pv{id, v}), good[pos:]...)
					cx.paramList(ps, uint8(len(ps)), 4)
					cx.paramMsg(v2019, ps)
				}
				cx.paramList([]pv{{id, v}}, 1, 1)
			}
		}
	})
	register("C17", "unknown", false, func(cx *Ctx) {
		good := []pv{{1, uint32(60)}, {0x13, "host"}, {0x84, uint8(2)}, {0x32, "16320A1E"}, {0x31, uint16(7)}}
		for _, u := range unknownIDs() {
			if !cx.Case("unknown") {
				continue
			}
			desc := func() string { return fmt.Sprintf("list with unknown id %x", u) }
			for n := 1; n <= 3; n++ { // nothing but unknown parameters
				for _, l := range []int{0, 1, 4, 255} {
					raw := bytes.Repeat(append(append(be32(u), byte(l)), bytes.Repeat([]byte{0x01}, l)...), n)
					cx.step()
					cx.guard("C17 C11", desc(), func() { cx.paramDecode(nil, byte(n), raw, desc) })
				}
			}
			for pos := 0; pos <= len(good); pos++ {
				// encoding skips it, whatever its value
				for _, v := range []any{uint32(5), "x", uint8(1), nil} {
					ps := append(append(append([]pv{}, good[:pos]...), pv{u, v}), good[pos:]...)
					want := refParamList(good)
					cx.step()
					cx.guard("C17 C11", desc(), func() {
						got, err := native(ps, uint8(len(ps)), 4).Encode()
						if err != nil || !bytes.Equal(got, want) {
							cx.Fail("C17", "unknown id %x at position %d: encodes to %x (%v), want %x", u, pos, got, err, want)
						}
					})
				}
				// decoding skips it, whatever its length
				for _, l := range []int{0, 1, 2, 3, 4, 5, 7, 8, 128, 255} {
					raw := append(append(be32(u), byte(l)), bytes.Repeat([]byte{0x01}, l)...)
					var items []byte
					for _, g := range good[:pos] {
						items = append(items, g.item()...)
					}
					items = append(items, raw...)
					for _, g := range good[pos:] {
						items = append(items, g.item()...)
					}
					cx.step()
					cx.guard("C17 C11", desc(), func() { cx.paramDecode(good, byte(len(good)+1), items, desc) })
					// two in a row
					items2 := append(append([]byte{}, raw...), raw...)
					for _, g := range good {
						items2 = append(items2, g.item()...)
					}
					cx.guard("C17 C11", desc(), func() { cx.paramDecode(good, byte(len(good)+2), items2, desc) })
				}
			}
		}
	})
	register("C17", "oversize", false, func(cx *Ctx) {
		good := []pv{{1, uint32(60)}, {0x13, "host"}, {0x84, uint8(2)}}
		for _, id := range ids {
			k := paramKind[id]
			if k != 'G' && k != 'X' && k != 'S' {
				continue
			}
			if !cx.Case("oversize") {
				continue
			}
			for n := 250; n <= 300; n++ {
				unit, cnt := "q", n
				switch {
				case k == 'X':
					unit = "5A"
				case k == 'G' && n%2 == 0:
					unit, cnt = "京", n/2
				}
				for pos := 0; pos <= len(good); pos++ {
					ps := append(append(append([]pv{}, good[:pos]...), pv{id, strings.Repeat(unit, cnt)}), good[pos:]...)
					cx.paramList(ps, uint8(len(ps)), 0)
				}
			}
			for _, n := range []int{511, 512, 513, 767, 1000} {
				unit := "q"
				if k == 'X' {
					unit = "5A"
				}
				cx.paramList(append([]pv{{id, strings.Repeat(unit, n)}}, good...), 4, 255)
			}
		}
	})
	register("C17", "lists", false, func(cx *Ctx) {
		// lists of every size, and all parameters at once
		for n := 0; n <= 255; n++ {
			if !cx.Case("sizes") {
				continue
			}
			var ps, qs []pv
			for i := 0; i < n; i++ {
				ps = append(ps, pv{0x84, uint8(i)})
				id := ids[i%len(ids)]
				qs = append(qs, pv{id, paramVals(paramKind[id], false)[0]})
			}
			cx.paramList(ps, 0, 0)
			cx.paramList(qs, 0, 0)
			for _, ver := range []int{v2011, v2013, v2019} {
				cx.paramMsg(ver, ps)
				cx.paramMsg(ver, qs)
			}
		}
		for n := 980; n <= 1060; n++ { // around the limit of a message
			if !cx.Case("limit") {
				continue
			}
			var ps []pv
			left := n - 1
			for left > 5 {
				l := min(left-5, 255)
				if r := left - 5 - l; r > 0 && r <= 5 {
					l -= 6
				}
				ps = append(ps, pv{0x13, strings.Repeat("w", l)})
				left -= l + 5
			}
			cx.paramMsg(v2013, ps)
			cx.paramMsg(v2019, ps)
		}
	})
}
