package zzverif

// Reference codec: an independent, deliberately boring implementation of the
// JT/T 808 wire format. It shares no code with the repository.

import (
	"encoding/hex"
	"fmt"
	"strings"

	"golang.org/x/text/encoding/simplifiedchinese"
)

const (
	v2011 = 2011
	v2013 = 2013
	v2019 = 2019
)

// ---- framing ----

func refXor(b []byte) byte {
	var x byte
	for _, v := range b {
		x ^= v
	}
	return x
}

// refFrame: content (header+body) -> bytes on the wire.
func refFrame(content []byte) []byte { return refFrameCheck(content, refXor(content)) }

func refFrameCheck(content []byte, check byte) []byte {
	out := []byte{0x7e}
	put := func(b byte) {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 0x02)
		case 0x7d:
			out = append(out, 0x7d, 0x01)
		default:
			out = append(out, b)
		}
	}
	for _, b := range content {
		put(b)
	}
	put(check)
	return append(out, 0x7e)
}

// refDeframe: strict parse of one frame. Every rule of C02 is enforced.
func refDeframe(fr []byte) ([]byte, error) {
	n := len(fr)
	if n < 2 || fr[0] != 0x7e || fr[n-1] != 0x7e {
		return nil, fmt.Errorf("frame %x is not delimited by 7e", fr)
	}
	var c []byte
	for i := 1; i < n-1; i++ {
		switch fr[i] {
		case 0x7e:
			return nil, fmt.Errorf("frame %x contains an unescaped 7e", fr)
		case 0x7d:
			i++
			if i >= n-1 {
				return nil, fmt.Errorf("frame %x ends inside an escape", fr)
			}
			switch fr[i] {
			case 1:
				c = append(c, 0x7d)
			case 2:
				c = append(c, 0x7e)
			default:
				return nil, fmt.Errorf("frame %x contains the bad escape 7d%02x", fr, fr[i])
			}
		default:
			c = append(c, fr[i])
		}
	}
	if len(c) == 0 {
		return nil, fmt.Errorf("empty frame")
	}
	k := len(c) - 1
	if refXor(c[:k]) != c[k] {
		return nil, fmt.Errorf("frame %x has check byte %02x, want %02x", fr, c[k], refXor(c[:k]))
	}
	return c[:k], nil
}

// refSplitOut: strict split of an output stream into back-to-back frames. rest
// is a trailing incomplete frame.
func refSplitOut(b []byte) (frames [][]byte, rest []byte, err error) {
	for len(b) > 0 {
		if b[0] != 0x7e {
			return frames, b, fmt.Errorf("output byte %02x outside any frame", b[0])
		}
		j := 1
		for j < len(b) && b[j] != 0x7e {
			j++
		}
		if j >= len(b) {
			return frames, b, nil
		}
		if j == 1 {
			return frames, b, fmt.Errorf("empty frame in output")
		}
		frames = append(frames, b[:j+1])
		b = b[j+1:]
	}
	return frames, nil, nil
}

// ---- header ----

type refHdr struct {
	id     uint16
	ver    int // v2013 (also for 2011) or v2019
	proto  byte
	phone  string
	serial uint16
	frag   bool
	total  uint16
	index  uint16
	enc    byte
	extra  byte
}

func be16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func rd16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }
func rd32(b []byte) uint32 { return uint32(rd16(b))<<16 | uint32(rd16(b[2:])) }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("bad hex in harness: " + s)
	}
	return b
}

func refContent(h refHdr, body []byte) []byte {
	attr := uint16(len(body)) | uint16(h.enc)<<10 | uint16(h.extra)<<15
	if h.frag {
		attr |= 1 << 13
	}
	if h.ver == v2019 {
		attr |= 1 << 14
	}
	c := append(be16(h.id), be16(attr)...)
	if h.ver == v2019 {
		c = append(c, h.proto)
	}
	c = append(c, unhex(h.phone)...)
	c = append(c, be16(h.serial)...)
	if h.frag {
		c = append(c, be16(h.total)...)
		c = append(c, be16(h.index)...)
	}
	return append(c, body...)
}

type refPkt struct {
	refHdr
	bodyLen int
	body    []byte
}

func refParse(c []byte) (p refPkt, err error) {
	if len(c) < 4 {
		return p, fmt.Errorf("header too short: %x", c)
	}
	p.id = rd16(c)
	attr := rd16(c[2:])
	p.bodyLen = int(attr & 0x3ff)
	p.enc = byte(attr >> 10 & 7)
	p.frag = attr>>13&1 == 1
	p.extra = byte(attr >> 15)
	p.ver = v2013
	o, pl := 4, 6
	if attr>>14&1 == 1 {
		p.ver, pl = v2019, 10
		if len(c) < 5 {
			return p, fmt.Errorf("header too short: %x", c)
		}
		p.proto = c[4]
		o = 5
	}
	need := o + pl + 2
	if p.frag {
		need += 4
	}
	if len(c) < need {
		return p, fmt.Errorf("header too short: %x", c)
	}
	p.phone = strings.ToUpper(hex.EncodeToString(c[o : o+pl]))
	o += pl
	p.serial = rd16(c[o:])
	o += 2
	if p.frag {
		p.total, p.index = rd16(c[o:]), rd16(c[o+2:])
		o += 4
	}
	p.body = c[o:]
	return p, nil
}

// ---- bodies ----

func toGBK(s string) []byte {
	b, err := simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic("harness: not GBK: " + s)
	}
	return b
}

func isGBK(s string) bool {
	_, err := simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	return err == nil
}

func fromGBK(b []byte) string {
	r, err := simplifiedchinese.GBK.NewDecoder().Bytes(b)
	if err != nil {
		return "\xff<bad gbk>"
	}
	return string(r)
}

func padRight(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

type refReg struct {
	prov, city      uint16
	manu, model, id string
	color           byte
	plate           string
}

func (r refReg) body(ver int) []byte {
	var a, b, c int
	switch ver {
	case v2019:
		a, b, c = 11, 30, 30
	case v2013:
		a, b, c = 5, 20, 7
	default:
		a, b, c = 5, 8, 7
	}
	o := append(be16(r.prov), be16(r.city)...)
	o = append(o, padRight(r.manu, a)...)
	o = append(o, padRight(r.model, b)...)
	o = append(o, padRight(r.id, c)...)
	o = append(o, r.color)
	return append(o, toGBK(r.plate)...)
}

// refParseReg returns ok=false when the body cannot hold the fields.
func refParseReg(body []byte, is2019 bool) (r refReg, ver int, ok bool) {
	if len(body) < 4 {
		return
	}
	r.prov, r.city = rd16(body), rd16(body[2:])
	rest := body[4:]
	var a, b, c int
	if is2019 {
		ver, a, b, c = v2019, 11, 30, 30
	} else if len(rest) > 33 {
		ver, a, b, c = v2013, 5, 20, 7
	} else {
		ver, a, b, c = v2011, 5, 8, 7
	}
	if len(rest) < a+b+c+1 {
		return r, ver, false
	}
	t := func(x []byte) string { return strings.TrimRight(string(x), "\x00") }
	r.manu, r.model, r.id = t(rest[:a]), t(rest[a:a+b]), t(rest[a+b:a+b+c])
	r.color = rest[a+b+c]
	r.plate = fromGBK(rest[a+b+c+1:])
	return r, ver, true
}

func refAuthBody(ver int, code, imei, sw string) []byte {
	if ver != v2019 {
		return []byte(code)
	}
	o := append([]byte{byte(len(code))}, code...)
	o = append(o, padRight(imei, 15)...)
	return append(o, padRight(sw, 20)...)
}

type refLoc struct {
	alarm, status, lat, lon uint32
	alt, speed, dir         uint16
	time                    string // 12 digits
}

func (l refLoc) body() []byte {
	o := be32(l.alarm)
	o = append(o, be32(l.status)...)
	o = append(o, be32(l.lat)...)
	o = append(o, be32(l.lon)...)
	o = append(o, be16(l.alt)...)
	o = append(o, be16(l.speed)...)
	o = append(o, be16(l.dir)...)
	return append(o, unhex(l.time)...)
}

func refGeneral(serial, id uint16, result byte) []byte {
	return append(append(be16(serial), be16(id)...), result)
}
