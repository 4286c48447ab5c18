package zzverif

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"
)

// A peer that does not read: the write of its reply, or of a command for it, blocks. Everybody else has to
// be served meanwhile, by terminals' side and API, and the silent device still expires.

// jobs run outside the bubble.
var gJobs chan func()

func needJobs() {
	needHTTP()
	if gJobs == nil {
		gJobs = make(chan func(), 64)
		go func() {
			for j := range gJobs {
				go j()
			}
		}()
	}
}

// spin waits in real time; virtual time stands still.
func spin(f func() bool) bool {
	for t := realMono(); !f(); {
		if realMono()-t > int64(20*time.Second) {
			return false
		}
		runtime.Gosched()
	}
	return true
}

type stuckOp struct {
	name string
	run  func(w *World, s *stuck)
}

type stuck struct {
	a, b term
	c    term
	done atomic.Bool
}

var stuckOps = []stuckOp{
	{"hb", func(w *World, s *stuck) { w.hb(1, s.b.ph, s.b.ver) }},
	{"loc", func(w *World, s *stuck) { w.loc(1, s.b.ph, s.b.ver, someLoc(7)) }},
	{"come-and-go", func(w *World, s *stuck) {
		if !w.slots[2].open {
			w.reopen(2, false)
		}
		w.reg(2, s.c.ph, s.c.pl, s.c.ver)
		w.dereg(2, s.c.ph, s.c.ver)
		w.peerClose(2)
	}},
	{"register", func(w *World, s *stuck) {
		if !w.slots[2].open {
			w.reopen(2, false)
		}
		w.reg(2, s.c.ph, s.c.pl, s.c.ver)
		w.hb(2, s.c.ph, s.c.ver)
	}},
	{"rejected", func(w *World, s *stuck) {
		if !w.slots[2].open {
			w.reopen(2, false)
		}
		w.hb(2, "013999999999", v2013)
	}},
	{"list", func(w *World, s *stuck) { w.apiList() }},
	{"geo", func(w *World, s *stuck) { w.apiGeo(s.b.ph); w.apiGeo(s.a.ph) }},
	{"query", func(w *World, s *stuck) { w.apiQuery(s.b.ph) }},
	{"set", func(w *World, s *stuck) { w.apiSet(s.b.ph) }},
	{"wait", func(w *World, s *stuck) { w.advance(31 * time.Second); w.hb(1, s.b.ph, s.b.ver) }},
	{"expire", func(w *World, s *stuck) {
		for i := 0; i < 7; i++ {
			w.advance(30 * time.Second)
			w.hb(1, s.b.ph, s.b.ver)
		}
	}},
}

func init() {
	register("C11", "http", false, func(cx *Ctx) { needJobs() })
	register("C11", "accept", true, func(cx *Ctx) {
		for _, e := range acceptErrs {
			for n := 1; n <= cx.pick(4, 12); n++ {
				for gap := 0; gap < 3; gap++ {
					if cx.Case("accept-errors") {
						runAccept(cx, e, n, gap)
					}
				}
			}
		}
		for n := 0; n < 2; n++ {
			if cx.Case("listener-closed") {
				runListenerClosed(cx, n)
			}
		}
	})
	register("C11", "stuck-peer", true, func(cx *Ctx) {
		depth := cx.pick(3, 4)
		for kind := 0; kind < 6; kind++ {
			kind := kind
			var rec func(seq []stuckOp)
			rec = func(seq []stuckOp) {
				if cx.stopped() {
					return
				}
				if len(seq) == depth {
					if cx.Case(fmt.Sprintf("stuck-%d", kind)) {
						runStuck(cx, kind, seq)
					}
					return
				}
				for _, o := range stuckOps {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
			rec(nil)
		}
	})
}

// The listener may fail for a while: no descriptors left, a connection gone before it was accepted.
var acceptErrs = []error{syscall.EMFILE, syscall.ENFILE, syscall.ECONNABORTED, syscall.EAGAIN, syscall.ENOBUFS, syscall.ENOMEM, syscall.EINTR, syscall.ECONNRESET, syscall.EPERM, os.ErrDeadlineExceeded, io.EOF}

func acceptErr(e error) error {
	if n, ok := e.(syscall.Errno); ok {
		e = os.NewSyscallError("accept4", n)
	}
	return &net.OpError{Op: "accept", Net: "tcp", Addr: fakeAddr("127.0.0.1:8080"), Err: e}
}

func runAccept(cx *Ctx, e error, n, gap int) {
	w := newWorld(cx, 3)
	b := w.setup(1, v2019, true)
	a := term{newPhone(v2013), newPlate(), v2013, 0}
	c := term{newPhone(v2019), newPlate(), v2019, 2}
	w.phones, w.plates = append(w.phones, a.ph, c.ph), append(w.plates, a.pl, c.pl)
	w.peerClose(0)
	w.peerClose(2)
	for i := 0; i < n && !w.dead; i++ {
		w.log("accept fails: %v", e)
		gLst.errs <- acceptErr(e)
		synctest.Wait()
		if gap == 1 {
			w.hb(1, b.ph, b.ver)
		}
		if gap == 2 && i == n/2 {
			w.arrive(2)
			w.reg(2, c.ph, c.pl, c.ver)
		}
	}
	w.hb(1, b.ph, b.ver)
	w.arrive(0)
	w.reg(0, a.ph, a.pl, a.ver)
	w.hb(0, a.ph, a.ver)
	w.hb(1, b.ph, b.ver)
	w.finish()
}

// arrive opens a connection; an accept loop that pauses after errors has the time to come back.
func (w *World) arrive(slot int) {
	if w.dead {
		return
	}
	w.log("open(c%d)", slot)
	w.open(slot, "")
	synctest.Wait()
	for i := 0; i < 6 && len(gLst.ch) > 0; i++ {
		time.Sleep(time.Second)
		synctest.Wait()
	}
	if !w.dead && len(gLst.ch) > 0 {
		w.fail("C11", "no connection is accepted any more")
		for len(gLst.ch) > 0 {
			(<-gLst.ch).Close()
		}
		startWorld()
	}
	w.check("C11 C12")
}

func runListenerClosed(cx *Ctx, n int) {
	w := newWorld(cx, 2)
	b := w.setup(1, v2013, true)
	for i := 0; i < n; i++ {
		gLst.errs <- acceptErr(syscall.EMFILE)
		synctest.Wait()
	}
	w.log("the listener is closed")
	l := gLst
	gServ.Stop()
	synctest.Wait()
	time.Sleep(6 * time.Second)
	if l.late.Load() > 50 {
		w.fail("C11", "the accept loop spins on a closed listener")
	}
	w.hb(1, b.ph, b.ver)
	startWorld()
	w.finish()
}

func runStuck(cx *Ctx, kind int, seq []stuckOp) {
	w := newWorld(cx, 3)
	s := &stuck{}
	s.b = w.setup(1, v2019, true)
	w.loc(1, s.b.ph, s.b.ver, someLoc(9))
	s.a = w.setup(0, v2013, true)
	s.c = term{newPhone(v2013), newPlate(), v2013, 2}
	w.phones, w.plates = append(w.phones, s.c.ph), append(w.plates, s.c.pl)
	if w.dead {
		w.finish()
		return
	}
	a := w.slots[0]
	d := w.devs[s.a.ph]
	a.fc.stick(true)
	sn := w.nextSerial()
	var exp []expReply
	ask := func(id uint16, body []byte, result byte) {
		w.log("%04x from a terminal that does not read", id)
		a.fc.feed(refFrame(w.content(s.a, id, sn, body)))
		exp = []expReply{{id: 0x8001, ph: s.a.ph, ver: s.a.ver, body: general(sn, id, result)}}
		synctest.Wait()
	}
	switch kind {
	case 0:
		ask(2, nil, 0)
		w.applyHb(d)
	case 1:
		l := someLoc(5)
		ask(0x200, l.body(), 0)
		w.applyLoc(d, &l)
	case 2:
		ask(3, nil, 0)
		delete(w.devs, s.a.ph)
	case 3:
		ask(0x102, refAuthBody(s.a.ver, "0", "", ""), 1)
		delete(w.devs, s.a.ph)
	case 4, 5:
		method, body, id, want := "GET", "", uint16(0x8104), []byte(nil)
		if kind == 5 {
			method, body, id, want = "PUT", string(paramJSON(setBody, 3, 4)), 0x8103, refParamList(setBody)
		}
		w.log("%s params of a terminal that does not read", method)
		exp = []expReply{{id: id, ph: s.a.ph, ver: s.a.ver, body: func(b []byte) string {
			if string(b) != string(want) {
				return fmt.Sprintf("want body %x", want)
			}
			return ""
		}}}
		gJobs <- func() { outsideRequest(method, "/device/"+s.a.ph+"/params", body); s.done.Store(true) }
		if !spin(func() bool { return a.fc.writers() > 0 || s.done.Load() }) {
			w.fail("C11 C13", "the command neither reaches the connection nor is it answered")
		}
	}
	for _, o := range seq {
		o.run(w, s)
	}
	a.fc.stick(false)
	if kind >= 4 && !spin(s.done.Load) {
		w.fail("C11 C13 C20", "the command is not answered although the terminal reads again")
	}
	passOnCloses()
	synctest.Wait()
	if !w.dead && a.open {
		w.await(a, exp, stayOpen, "C11 C06 C13")
		w.check("C11")
	}
	for _, x := range []struct {
		c *wConn
		t term
	}{{w.slots[1], s.b}, {a, s.a}} {
		if !w.dead && x.c.open && w.devs[x.t.ph] != nil {
			w.hb(x.t.slot, x.t.ph, x.t.ver)
		}
	}
	w.finish()
}

func outsideRequest(method, path, body string) {
	c, err := net.Dial("tcp", gHTTP)
	if err != nil {
		return
	}
	defer c.Close()
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", method, path, len(body), body)
	if r, err := http.ReadResponse(bufio.NewReader(c), nil); err == nil {
		io.Copy(io.Discard, r.Body)
	}
}
