package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
)

// serials watches the numbers handed out on one connection.
type serials struct {
	n    int
	last [65536]int
}

// add returns a description of a premature repetition.
func (s *serials) add(v uint16) string {
	s.n++
	if p := s.last[v]; p != 0 && s.n-p < 65536 {
		return fmt.Sprintf("serial %04x assigned as number %d and again as number %d", v, p, s.n)
	}
	s.last[v] = s.n
	return ""
}

func init() {
	register("C14", "http", false, func(cx *Ctx) { needHTTP() })
	register("C14", "assign", false, func(cx *Ctx) {
		// three full cycles on one connection, with a second one assigning at every phase in between
		for k := 0; k < 8; k++ {
			if !cx.Case("assign") {
				continue
			}
			a, b := &model.Session{ID: "a"}, &model.Session{ID: "b"}
			sa, sb := &serials{}, &serials{}
			for i := 0; i < 3*65536+10; i++ {
				cx.step()
				if m := sa.add(a.GetNextSerialNum()); m != "" {
					cx.Fail("C14", "%s", m)
					return
				}
				if k > 0 && i%k == 0 {
					if m := sb.add(b.GetNextSerialNum()); m != "" {
						cx.Fail("C14", "second connection: %s", m)
						return
					}
				}
			}
			cx.res.Traces++
		}
	})
	register("C14", "wire", true, func(cx *Ctx) {
		// serial numbers as they appear on the wire
		for k := 0; k < cx.pick(8, 24); k++ {
			if !cx.Case("wire") {
				continue
			}
			w := newWorld(cx, 2)
			ts := []term{w.setup(0, []int{v2011, v2013, v2019}[k%3], true), w.setup(1, v2019, true)}
			if w.dead {
				w.finish()
				continue
			}
			sn := []*serials{{}, {}}
			sess := []*model.Session{}
			dev := []*model.Device{}
			for _, t := range ts {
				d, err := storage.GetDeviceCache().GetDeviceByPhone(t.ph)
				if err != nil {
					w.fail("C14", "device lookup: %v", err)
					break
				}
				s, err := storage.GetSession(d.SessionID)
				if err != nil {
					w.fail("C14", "session lookup: %v", err)
					break
				}
				sess, dev = append(sess, s), append(dev, d)
			}
			w.log("commands in turn, every %d-th to the other terminal, past the wrap-around", k+2)
			take := func(i int) {
				for _, f := range mustFrames(w, i) {
					if m := sn[i].add(f.serial); m != "" && !w.dead {
						w.fail("C14", "connection %d: %s", i, m)
					}
				}
			}
			total := 65536*2 + 50
			for i := 0; i < total && !w.dead; i++ {
				c := 0
				if i%(k+2) == 0 {
					c = 1
				}
				cx.step()
				// number 0 mod 1000 and those around the wrap-around go through the HTTP API, the others
				// through the same calls it makes
				if n := sn[c].n % 65536; i%1000 < 3 || n < 8 || n > 65528 {
					if (n+k)&1 == 0 {
						w.http("GET", "/device/"+ts[c].ph+"/params", "", "")
					} else {
						w.http("PUT", "/device/"+ts[c].ph+"/params", "application/json", `{"params":[{"paramId":1,"paramValue":7}]}`)
					}
				} else {
					gServ.Send(sess[c].ID, &model.Msg8104{Header: model.GenMsgHeader(dev[c], 0x8104, sess[c].GetNextSerialNum())})
				}
				take(0)
				take(1)
				if i%2000 == 0 { // a terminal's own traffic does not use up or repeat numbers
					w.hb(0, ts[0].ph, ts[0].ver)
					w.hb(1, ts[1].ph, ts[1].ver)
				}
			}
			if !w.dead && sn[0].n+sn[1].n != total {
				w.fail("C14 C13", "%d commands appeared, %d were sent", sn[0].n+sn[1].n, total)
			}
			cx.state(fmt.Sprint(k))
			w.finish()
		}
	})

	// nothing a terminal sends in between makes numbers repeat
	register("C14", "machine", true, func(cx *Ctx) {
		ops := []mop{opAPIQuery(0), opAPISet(0), opAPIQuery(1), opAuth(0, 0), opAuth(1, 0), opHb(0, 0), opLoc(0, 0, 0), opReg(0, 0, 0), opReg(0, 1, 1), opBadAuth(0, 0), opDereg(0, 0), opCycle(1, true), opAdv(61 * time.Second)}
		sfx := func(w *World, m *mctx) {
			for i := 0; i < 2; i++ {
				w.apiQuery(m.phones[0])
				w.apiSet(m.phones[1])
			}
		}
		profile{name: "command-serials", vers: []int{v2013, v2019}, nslots: 2, nplates: 2, prefix: []mop{opReg(0, 0, 0), opReg(0, 1, 1), opAPIQuery(0)}, ops: ops, depth: cx.pick(3, 4), suffix: sfx}.explore(cx)
		ops2 := []mop{opAPIQuery(0), opAPISet(0), opAuth(0, 0), opHb(0, 0), opDereg(0, 0), opReg(0, 0, 0)}
		profile{name: "command-serials-deep", vers: []int{v2019}, nslots: 1, nplates: 1, prefix: []mop{opReg(0, 0, 0), opAPIQuery(0)}, ops: ops2, depth: cx.pick(5, 6), suffix: func(w *World, m *mctx) { w.apiQuery(m.phones[0]) }}.explore(cx)
	})
	register("C15", "writes", false, func(cx *Ctx) {
		// every way a socket can take a frame in pieces
		for n := 1; n <= cx.pick(13, 17); n++ {
			if !cx.Case("compositions") {
				continue
			}
			frame := make([]byte, n)
			for i := range frame {
				frame[i] = byte(i + 1)
			}
			for mask := 0; mask < 1<<uint(n-1) && !cx.failed; mask++ {
				var plan []int
				run := 1
				for i := 0; i < n-1; i++ {
					if mask>>uint(i)&1 == 1 {
						plan = append(plan, run)
						run = 0
					}
					run++
				}
				plan = append(plan, run)
				fc := newFakeConn("x")
				fc.wPlan = append([]int(nil), plan...)
				err := protocol.NewJT808FrameHandler(fc).Send(append([]byte(nil), frame...))
				cx.step()
				if err != nil || !bytes.Equal(fc.out, frame) {
					cx.Fail("C15", "frame %x taken in pieces %v came out as %x (%v)", frame, plan, fc.out, err)
				}
			}
			// an error after any number of bytes, after any first piece
			for at := 0; at <= n && !cx.failed; at++ {
				for first := 1; first <= n; first++ {
					werr := writeErrs[(at+first)%len(writeErrs)]
					fc := newFakeConn("x")
					fc.wErrAt, fc.wErr = at, werr
					fc.wPlan = []int{first}
					err := protocol.NewJT808FrameHandler(fc).Send(append([]byte(nil), frame...))
					cx.step()
					if at < n && (err == nil || !errors.Is(err, werr)) {
						cx.Fail("C15", "write error after %d of %d bytes is reported as %v", at, n, err)
					}
					if fc.wAfter > len(frame) || !bytes.HasPrefix(frame, fc.out) || fc.nWrite > 3 {
						cx.Fail("C15", "after an error at %d of %d bytes %d writes were made, %x came out", at, n, fc.nWrite, fc.out)
					}
					if at < n && fc.offeredAfterErr > 0 {
						cx.Fail("C15", "%d bytes were offered after the write error", fc.offeredAfterErr)
					}
				}
			}
		}
		// long frames: every position of a single split, and piece sizes 1..64
		for _, n := range []int{15, 100, 1024, 1460, 2072, 4096, 5000} {
			if !cx.Case("long-frames") {
				continue
			}
			frame := make([]byte, n)
			for i := range frame {
				frame[i] = byte(i*7 + i>>8)
			}
			for s := 1; s <= n && !cx.failed; s++ {
				fc := newFakeConn("x")
				fc.wPlan = []int{s}
				if s <= 64 {
					for i := 0; i < n/s+1; i++ {
						fc.wPlan = append(fc.wPlan, s)
					}
				}
				err := protocol.NewJT808FrameHandler(fc).Send(append([]byte(nil), frame...))
				cx.step()
				if err != nil || !bytes.Equal(fc.out, frame) {
					cx.Fail("C15", "frame of %d bytes split at %d came out wrong (%d bytes, %v)", n, s, len(fc.out), err)
				}
			}
		}
	})
	register("C15", "live", true, func(cx *Ctx) {
		// replies and commands in order on one connection, each taken in pieces
		for _, ver := range []int{v2011, v2013, v2019} {
			for piece := 1; piece <= 24; piece++ {
				if !cx.Case("live-pieces") {
					continue
				}
				w := newWorld(cx, 2)
				for _, c := range w.slots {
					c.fc.wPlan = make([]int, 4000)
					for i := range c.fc.wPlan {
						c.fc.wPlan[i] = piece
					}
				}
				t := w.setup(0, ver, true)
				for i := 0; i < 4; i++ {
					w.hb(0, t.ph, ver)
					w.queryCmd(t.ph, "C15")
					w.setCmd(t.ph, "C15")
					w.loc(0, t.ph, ver, someLoc(uint32(i)))
					w.reg(0, t.ph, t.pl, ver)
				}
				w.dereg(0, t.ph, ver)
				w.finish()
			}
			// commands of every size, content full of escapes
			for n := 0; n < 200; n++ {
				if !cx.Case("live-sizes") {
					continue
				}
				w := newWorld(cx, 1)
				t := w.setup(0, ver, true)
				for k := 0; k < 4; k++ {
					val := bytes.Repeat([]byte{'~'}, n)
					var ps []*model.ParamData
					var want []pv
					for j := 0; j <= k; j++ {
						ps = append(ps, &model.ParamData{ParamID: 0x13, ParamValue: string(val)})
						want = append(want, pv{0x13, string(val)})
					}
					w.command(t.ph, 0x8103, refParamList(want), func(h *model.MsgHeader) model.JT808Msg {
						return &model.Msg8103{Header: h, Parameters: &model.DeviceParams{Params: ps}}
					}, "C15 C13")
					w.hb(0, t.ph, ver)
				}
				w.finish()
			}
			// a failing socket: the frame stops there, and other connections are not affected
			for at := 0; at < 20; at++ {
				if !cx.Case("live-errors") {
					continue
				}
				w := newWorld(cx, 2)
				t, u := w.setup(0, ver, true), w.setup(1, v2019, true)
				if !w.dead {
					w.log("write error after %d bytes", at)
					c := w.slots[0]
					c.fc.wErrAt, c.fc.wErr = at, writeErrs[at%len(writeErrs)]
					d, _ := storage.GetDeviceCache().GetDeviceByPhone(t.ph)
					s, err := storage.GetSession(d.SessionID)
					if err == nil {
						gServ.Send(s.ID, &model.Msg8104{Header: model.GenMsgHeader(d, 0x8104, s.GetNextSerialNum())})
					}
					synctest.Wait()
					out := c.fc.takeOut()
					if len(out) > at || c.fc.offeredAfterErr > 0 {
						w.fail("C15", "%d bytes came out and %d more were offered although the socket failed after %d", len(out), c.fc.offeredAfterErr, at)
					}
					c.bad = true // no longer judged
					w.hb(1, u.ph, u.ver)
				}
				w.dead = true
				w.finish()
			}
		}
	})
}

// what a socket's Write may return
var writeErrs = []error{syscall.EPIPE, os.ErrDeadlineExceeded, syscall.ECONNRESET, io.ErrClosedPipe, syscall.EAGAIN, net.ErrClosed, syscall.EINTR, io.ErrShortWrite,
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "write", Net: "tcp", Err: syscall.ENOBUFS}, io.EOF}

// mustFrames takes the packets written on slot i since the last call.
func mustFrames(w *World, i int) []refPkt {
	w.collect()
	p := w.slots[i].got
	w.slots[i].got = nil
	return p
}
