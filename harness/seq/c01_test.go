package zzverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"testing/synctest"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
)

// refFrames: the specification of C01.
func refFrames(stream []byte) (frames [][]byte) {
	in := false
	var cur []byte
	for _, b := range stream {
		if b != 0x7e {
			if in {
				cur = append(cur, b)
			}
			continue
		}
		switch {
		case !in:
			in, cur = true, nil
		case len(cur) == 0: // doubled delimiter
		default:
			f := append([]byte{0x7e}, cur...)
			frames = append(frames, append(f, 0x7e))
			in, cur = false, nil
		}
	}
	return
}

// runRecv reads frames until an error, through one frame handler.
func runRecv(chunks [][]byte) (frames [][]byte, copies [][]byte, err error) {
	fc := newFakeConn("1.1.1.1:1")
	fc.feed(chunks...)
	fc.peerClose()
	ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "1.1.1.1:1", Conn: fc})
	fh := protocol.NewJT808FrameHandler(fc)
	for i := 0; i < 100000; i++ {
		f, e := fh.Recv(ctx)
		if e != nil {
			if errors.Is(e, protocol.ErrFrameReadEmpty) {
				continue
			}
			return frames, copies, e
		}
		frames = append(frames, f)
		copies = append(copies, append([]byte(nil), f...))
	}
	return frames, copies, nil
}

func (cx *Ctx) checkStream(stream []byte, chunks [][]byte, want [][]byte) {
	cx.step()
	got, copies, err := runRecv(chunks)
	if err == nil || !errors.Is(err, io.EOF) {
		cx.Fail("C01", "stream %x chunks %s: end of stream not reported (%v)", clip(stream), showChunks(chunks), err)
		return
	}
	if len(got) != len(want) {
		cx.Fail("C01", "stream %x chunks %s: %d frames, want %d (%x)", clip(stream), showChunks(chunks), len(got), len(want), clipAll(got))
		return
	}
	for i := range got {
		if !bytes.Equal(copies[i], want[i]) {
			cx.Fail("C01", "stream %x chunks %s: frame %d is %x, want %x", clip(stream), showChunks(chunks), i, clip(copies[i]), clip(want[i]))
			return
		}
		if !bytes.Equal(got[i], copies[i]) {
			cx.Fail("C01", "stream %x chunks %s: frame %d was %x when handed over and later became %x", clip(stream), showChunks(chunks), i, clip(copies[i]), clip(got[i]))
			return
		}
	}
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return append(append([]byte(nil), b[:60]...), b[len(b)-60:]...)
	}
	return b
}

func clipAll(bs [][]byte) (r [][]byte) {
	for i, b := range bs {
		if i < 6 {
			r = append(r, clip(b))
		}
	}
	return
}

func showChunks(ch [][]byte) string {
	s := ""
	for i, c := range ch {
		if i > 12 {
			return s + "..."
		}
		s += fmt.Sprintf("%d,", len(c))
	}
	return s
}

// words enumerates all strings over alphabet with length in [lo,hi].
func words(alphabet []byte, lo, hi int, f func(w []byte)) {
	for n := lo; n <= hi; n++ {
		buf := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(buf)
				return
			}
			for _, b := range alphabet {
				buf[i] = b
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func split(b []byte, mask uint64) (ch [][]byte) {
	start := 0
	for i := 1; i < len(b); i++ {
		if mask>>(i-1)&1 == 1 {
			ch = append(ch, b[start:i])
			start = i
		}
	}
	if start < len(b) {
		ch = append(ch, b[start:])
	}
	return
}

func every(b []byte, n int) (ch [][]byte) {
	for len(b) > n {
		ch = append(ch, b[:n])
		b = b[n:]
	}
	return append(ch, b)
}

func init() {
	register("C01", "streams", false, func(cx *Ctx) {
		// all streams x all chunkings
		words([]byte{0x7e, 0x41, 0x7d}, 0, cx.pick(8, 9), func(w []byte) {
			if !cx.Case("streams") {
				return
			}
			want := refFrames(w)
			cx.state(fmt.Sprintf("%x", w))
			cx.outcome(fmt.Sprintf("frames=%d", len(want)))
			n := uint64(1)
			if len(w) > 1 {
				n = 1 << (len(w) - 1)
			}
			for m := uint64(0); m < n; m++ {
				cx.checkStream(w, split(w, m), want)
				if cx.failed {
					return
				}
			}
			cx.res.Traces++
		})
		// longer streams over delimiter/data, whole and bytewise
		words([]byte{0x7e, 0x41}, 9, cx.pick(14, 17), func(w []byte) {
			if !cx.Case("long-streams") {
				return
			}
			want := refFrames(w)
			cx.checkStream(w, [][]byte{w}, want)
			cx.checkStream(w, every(w, 1), want)
			cx.checkStream(w, every(w, 2), want)
			cx.checkStream(w, every(w, 3), want)
			cx.res.Traces++
		})
		// every byte value and pair as content
		for a := 0; a < 256; a++ {
			if !cx.Case("byte-pairs") {
				continue
			}
			for b := 0; b < 256; b++ {
				w := []byte{0x7e, byte(a), byte(b), 0x7e, byte(b), 0x7e, byte(a), 0x7e}
				want := refFrames(w)
				cx.checkStream(w, [][]byte{w}, want)
				cx.checkStream(w, every(w, 1), want)
			}
			cx.res.Traces++
		}
		// frames around internal buffer sizes, all delimiter positions near the 4096 boundary
		sizes := []int{1, 2, 14, 15, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2068, 2069, 2070, 2071, 2072, 2073, 2074, 4090, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 6000, 8190, 8191, 8192, 8193, 12288, 20000}
		for _, n := range sizes {
			for _, lead := range []int{0, 1, 2, 4000, 4094, 4095, 4096, 4097} {
				if !cx.Case("sizes") {
					continue
				}
				var s []byte
				for i := 0; i < lead; i++ {
					s = append(s, 'j')
				}
				fr := []byte{0x7e}
				for i := 0; i < n; i++ {
					c := byte(i*7 + i>>8)
					if c == 0x7e {
						c = 0
					}
					fr = append(fr, c)
				}
				fr = append(fr, 0x7e)
				s = append(s, fr...)
				s = append(s, 0x7e, 'a', 'b', 0x7e)
				s = append(s, fr...)
				want := refFrames(s)
				for _, ch := range []int{1, 2, 3, 7, 1000, 1448, 4095, 4096, 4097, 1 << 20} {
					cx.checkStream(s, every(s, ch), want)
				}
				cx.res.Traces++
			}
		}
		// an unterminated tail of every length, after nothing, a frame, or junk
		tails := []int{1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193}
		for n := 0; n <= cx.pick(300, 1100); n++ {
			tails = append(tails, n)
		}
		for _, n := range tails {
			if !cx.Case("tails") {
				continue
			}
			for _, lead := range []string{"", "junk", "~ab~", "~ab~cd", "~~", "~ab~~~cd~"} {
				for _, fill := range []byte{'t', 0, 0x7d, 0xff} {
					s := append([]byte(lead), 0x7e)
					s = append(s, bytes.Repeat([]byte{fill}, n)...)
					want := refFrames(s)
					for _, ch := range []int{1, 5, 4096, 1 << 20} {
						if ch == 1 && n > 1100 {
							continue
						}
						cx.checkStream(s, every(s, ch), want)
					}
				}
			}
			cx.res.Traces++
		}
		// many frames on one connection: a delimiter at every offset of the read buffer
		for _, n := range []int{1, 3, 5, 12, 13, 14, 15, 30} {
			if !cx.Case("many") {
				continue
			}
			var s []byte
			for k := 0; len(s) < 12300; k++ {
				s = append(s, 0x7e)
				for i := 0; i < n; i++ {
					s = append(s, byte(0x80+(k+i)%100))
				}
				s = append(s, 0x7e)
			}
			want := refFrames(s)
			for _, ch := range []int{1, 2, 16, 17, 31, 1000, 4095, 4096, 4097, 1 << 20} {
				cx.checkStream(s, every(s, ch), want)
			}
			cx.res.Traces++
		}
	})

	// a frame is handed over as soon as its last byte is there, not when more arrives: delimiters and
	// noise around the frames, every cut into arrivals of n bytes
	register("C01", "arrival", true, func(cx *Ctx) {
		words([]byte{0x7e, 0x41, 0x7d}, 1, cx.pick(7, 9), func(w []byte) {
			if !cx.Case("arriving") {
				return
			}
			fc := newFakeConn("1.1.1.1:1")
			ctx := context.WithValue(context.Background(), model.SessionCtxKey{}, &model.Session{ID: "1.1.1.1:1", Conn: fc})
			var got [][]byte
			go func() {
				fh := protocol.NewJT808FrameHandler(fc)
				for {
					f, e := fh.Recv(ctx)
					if e != nil && !errors.Is(e, protocol.ErrFrameReadEmpty) {
						return
					}
					if e == nil {
						got = append(got, append([]byte(nil), f...))
					}
				}
			}()
			for i := range w {
				cx.step()
				fc.feed(w[i : i+1])
				synctest.Wait()
				if want := refFrames(w[:i+1]); len(got) != len(want) {
					cx.Fail("C01", "after %x arrived, byte by byte, %d frames were handed over, want %d", w[:i+1], len(got), len(want))
					break
				}
			}
			fc.peerClose()
			synctest.Wait()
		})
		for _, ver := range []int{v2011, v2013, v2019} {
			for _, n := range []int{1, 2, 3, 5, 8, 13, 21, 64} {
				for pat := 0; pat < 27; pat++ {
					if !cx.Case("arrival") {
						continue
					}
					w := newWorld(cx, 1)
					t := w.setup(0, ver, true)
					if w.dead {
						w.finish()
						continue
					}
					gaps := []string{"", "~~", "junk"}
					var s []byte
					ends := map[int]uint16{}
					for k, x := 0, pat; k < 3; k, x = k+1, x/3 {
						s = append(s, gaps[x%3]...)
						sn := w.nextSerial()
						s = append(s, refFrame(w.content(t, 0x0002, sn, nil))...)
						ends[len(s)] = sn
					}
					w.log("stream(%x) in pieces of %d", s, n)
					c := w.slots[0]
					for i := 0; i < len(s) && !w.dead; i += n {
						j := min(i+n, len(s))
						var exp []expReply
						for e := i + 1; e <= j; e++ {
							if sn, ok := ends[e]; ok {
								exp = append(exp, expReply{id: 0x8001, ph: t.ph, ver: ver, pv: protoOf(ver), body: general(sn, 2, 0)})
							}
						}
						w.exchange(c, s[i:j], exp, stayOpen, "C01")
						if len(exp) > 0 {
							w.touch(w.devs[t.ph])
						}
					}
					w.check("C01")
					w.finish()
				}
			}
		}
	})

	// live server: the same guarantee end to end
	register("C01", "live", true, func(cx *Ctx) {
		for _, ver := range []int{v2013, v2019} {
			ver := ver
			// 3 heartbeats; one delimiter inserted, removed or doubled at every position, 0-2 cuts
			mk := func() (*World, string, []byte) {
				ph, pl := newPhone(ver), newPlate()
				w := newWorld(cx, 1)
				w.phones, w.plates = []string{ph}, []string{pl}
				w.reg(0, ph, pl, ver)
				var s []byte
				for i := 0; i < 3; i++ {
					s = append(s, refFrame(refContent(w.hdr(0x0002, ph, ver, protoOf(ver), w.nextSerial()), nil))...)
				}
				return w, ph, s
			}
			run := func(name string, mut func(s []byte) [][]byte) {
				if !cx.Case("live-" + name) {
					return
				}
				w, ph, s := mk()
				chunks := mut(s)
				w.log("stream(%x)", chunks)
				w.stream(0, chunks, ph, ver, "C01")
				w.finish()
			}
			n := 3 * (map[int]int{v2013: 15, v2019: 20}[ver] + 1)
			for i := 0; i <= n; i++ {
				i := i
				run("insert", func(s []byte) [][]byte {
					k := min(i, len(s))
					return [][]byte{append(append(append([]byte(nil), s[:k]...), 0x7e), s[k:]...)}
				})
				run("delete", func(s []byte) [][]byte {
					k := min(i, len(s)-1)
					return [][]byte{append(append([]byte(nil), s[:k]...), s[k+1:]...)}
				})
				for j := i; j <= n; j++ {
					j := j
					run("cut", func(s []byte) [][]byte {
						a, b := min(i, len(s)), min(j, len(s))
						return [][]byte{s[:a], s[a:b], s[b:]}
					})
				}
			}
		}
	})
}

// stream feeds raw chunks consisting of (possibly damaged) heartbeats of phone and
// expects exactly the replies the reference framing implies.
func (w *World) stream(slot int, chunks [][]byte, phone string, ver int, tags string) {
	if w.dead {
		return
	}
	c := w.slots[slot]
	var all []byte
	for _, k := range chunks {
		all = append(all, k...)
	}
	// a damaged frame that still passes the check byte is outside this property
	for _, f := range refFrames(append(append([]byte{}, all...), 0x7e)) {
		if cont, ok := lenientContent(f); ok {
			p, err := refParse(cont)
			if err != nil || p.id != 0x0002 || p.phone != phone || len(p.body) != 0 || p.frag || p.bodyLen != 0 || p.ver != hdrVer(ver) {
				w.cx.outcome("skipped: damaged frame passes its check byte")
				return
			}
			if _, err := refDeframe(f); err != nil {
				w.cx.outcome("skipped: unprescribed escape")
				return
			}
		}
	}
	var exp []expReply
	for _, f := range refFrames(all) {
		cont, err := refDeframe(f)
		if err != nil {
			continue
		}
		p, _ := refParse(cont)
		exp = append(exp, expReply{id: 0x8001, ph: phone, ver: ver, pv: protoOf(ver), body: general(p.serial, 2, 0)})
	}
	w.noExtra(tags)
	for _, k := range chunks {
		c.fc.feed(k)
		w.cx.step()
	}
	w.await(c, exp, stayOpen, tags)
	if w.dead {
		return
	}
	if d := w.devs[phone]; d != nil && len(exp) > 0 {
		w.touch(d)
	}
	// the connection is still usable: after two delimiters the stream is in sync again
	sn := w.nextSerial()
	hb := refFrame(refContent(w.hdr(0x0002, phone, ver, protoOf(ver), sn), nil))
	tail := append([]byte{}, hb...)
	open := openFrame(all)
	exp = []expReply{{id: 0x8001, ph: phone, ver: ver, pv: protoOf(ver), body: general(sn, 2, 0)}}
	if open {
		// the pending frame swallows the first delimiter of tail; a second copy must get through
		sn2 := w.nextSerial()
		tail = append(tail, refFrame(refContent(w.hdr(0x0002, phone, ver, protoOf(ver), sn2), nil))...)
		exp = nil
		for _, f := range refFrames(append(append([]byte{}, all...), tail...)) {
			cont, err := refDeframe(f)
			if err != nil {
				continue
			}
			p, err := refParse(cont)
			if err == nil && (p.serial == sn || p.serial == sn2) {
				exp = append(exp, expReply{id: 0x8001, ph: phone, ver: ver, pv: protoOf(ver), body: general(p.serial, 2, 0)})
			}
		}
	}
	w.exchange(c, tail, exp, stayOpen, tags)
	if d := w.devs[phone]; d != nil && !w.dead {
		w.touch(d)
	}
	w.check(tags)
}

// openFrame reports whether the stream ends inside a frame (or right after a start delimiter).
func openFrame(b []byte) bool {
	in := false
	n := 0
	for _, c := range b {
		if c == 0x7e {
			if !in {
				in, n = true, 0
			} else if n > 0 {
				in = false
			}
		} else if in {
			n++
		}
	}
	return in
}

func hdrVer(ver int) int {
	if ver == v2011 {
		return v2013
	}
	return ver
}

// lenientContent: would a decoder that passes unknown escapes through accept the frame?
func lenientContent(fr []byte) ([]byte, bool) {
	var c []byte
	for i := 1; i < len(fr)-1; i++ {
		if fr[i] == 0x7d && i+1 < len(fr)-1 && (fr[i+1] == 1 || fr[i+1] == 2) {
			c = append(c, 0x7c+fr[i+1]) // 1 -> 7d, 2 -> 7e
			i++
			continue
		}
		c = append(c, fr[i])
	}
	if len(c) == 0 {
		return nil, false
	}
	k := len(c) - 1
	return c[:k], refXor(c[:k]) == c[k]
}
