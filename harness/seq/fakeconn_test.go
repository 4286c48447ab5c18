package zzverif

import (
	"bytes"
	"errors"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

// fakeConn is the server side of an in-memory connection. The harness decides
// how input is chunked into reads, how many bytes a write takes and when it fails.
type fakeConn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	remote   string
	chunks   [][]byte // pending input; a Read returns at most one chunk
	eof      bool     // peer closed
	rdOnce   bool
	waiting  bool  // a reader is blocked for input
	rdErr    error // returned after the pending input
	closed   bool  // closed by the code under test
	nClose   int
	out      []byte
	wPlan    []int // sizes accepted by the next writes (short writes); empty: take all
	wErrAt   int   // fail writes once this many bytes were taken (-1: never)
	wErr     error
	nWrite   int
	wAfter   int // bytes offered after an error
	wErrored bool
	stuck    bool // the peer does not read: writes block
	blocked  int  // writers blocked at present

	offeredAfterErr int // bytes offered once a write has failed
	onWrite         func([]byte)
	reads           int
	consumed        int
}

// connHook, if set, is called before every operation on a connection.
var connHook func(c *fakeConn, write bool)

func newFakeConn(remote string) *fakeConn {
	c := &fakeConn{remote: remote, wErrAt: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *fakeConn) feed(chunks ...[]byte) {
	c.mu.Lock()
	for _, k := range chunks {
		if len(k) > 0 {
			c.chunks = append(c.chunks, append([]byte(nil), k...))
		}
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *fakeConn) peerClose() {
	c.mu.Lock()
	c.eof = true
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *fakeConn) readErr(e error) {
	c.mu.Lock()
	c.rdErr = e
	c.mu.Unlock()
	c.cond.Broadcast()
}

// resetOnce: one read fails with e, later ones report end of stream (as a TCP reset does).
func (c *fakeConn) resetOnce(e error) {
	c.mu.Lock()
	c.rdErr, c.rdOnce, c.eof = e, true, true
	c.mu.Unlock()
	c.cond.Broadcast()
}

// failWrites: every later write fails with e.
func (c *fakeConn) failWrites(e error) {
	c.mu.Lock()
	c.wErrAt, c.wErr = 0, e
	c.mu.Unlock()
}

// stick: from now on writes block until released (or closed).
func (c *fakeConn) stick(on bool) {
	c.mu.Lock()
	c.stuck = on
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *fakeConn) writers() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.blocked
}

func (c *fakeConn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// idle: everything delivered was read and the server waits for more (or gave up).
func (c *fakeConn) idle() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed || c.waiting && len(c.chunks) == 0
}

func (c *fakeConn) takeOut() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := c.out
	c.out = nil
	return o
}

func (c *fakeConn) Read(p []byte) (int, error) {
	if connHook != nil {
		connHook(c, false)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.chunks) > 0 {
			k := c.chunks[0]
			n := copy(p, k)
			if n == len(k) {
				c.chunks = c.chunks[1:]
			} else {
				c.chunks[0] = k[n:]
			}
			c.reads++
			c.consumed += n
			return n, nil
		}
		if e := c.rdErr; e != nil {
			if c.rdOnce {
				c.rdErr = nil
			}
			return 0, e
		}
		if c.eof {
			return 0, io.EOF
		}
		c.waiting = true
		c.cond.Wait()
		c.waiting = false
	}
}

var errFakeWrite = errors.New("fake write error")

func (c *fakeConn) Write(p []byte) (int, error) {
	if connHook != nil {
		connHook(c, true)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nWrite++
	for c.blocked++; c.stuck && !c.closed; {
		if inBubble() {
			c.cond.Wait()
		} else {
			c.mu.Unlock()
			time.Sleep(time.Millisecond)
			c.mu.Lock()
		}
	}
	c.blocked--
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	if c.wErrored {
		c.offeredAfterErr += len(p)
	}
	if c.wErrAt >= 0 && len(c.out) >= c.wErrAt {
		c.wAfter += len(p)
		c.wErrored = true
		return 0, c.wErr
	}
	n := len(p)
	if len(c.wPlan) > 0 {
		if c.wPlan[0] < n {
			n = c.wPlan[0]
		}
		c.wPlan = c.wPlan[1:]
	}
	if c.wErrAt >= 0 && len(c.out)+n > c.wErrAt {
		n = c.wErrAt - len(c.out)
		c.out = append(c.out, p[:n]...)
		c.wErrored = true
		return n, c.wErr
	}
	c.out = append(c.out, p[:n]...)
	if c.onWrite != nil {
		c.onWrite(p[:n])
	}
	return n, nil
}

func (c *fakeConn) Close() error {
	if connHook != nil {
		connHook(c, true)
	}
	c.mu.Lock()
	c.nClose++
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	if inBubble() {
		c.cond.Broadcast()
	} else { // a goroutine of the HTTP server: the harness passes it on
		lateMu.Lock()
		lateClose = append(lateClose, c)
		lateMu.Unlock()
	}
	if was {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	return nil
}

func (c *fakeConn) hasOut() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.out) > 0 || c.wErrored || c.closed
}

func (c *fakeConn) LocalAddr() net.Addr              { return fakeAddr("127.0.0.1:8080") }
func (c *fakeConn) RemoteAddr() net.Addr             { return fakeAddr(c.remote) }
func (c *fakeConn) SetDeadline(time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(time.Time) error { return nil }

type fakeListener struct {
	ch   chan net.Conn
	errs chan error // what Accept fails with
	done chan struct{}
	once sync.Once

	late atomic.Int32 // calls of Accept after the listener was closed
}

func newFakeListener() *fakeListener {
	return &fakeListener{ch: make(chan net.Conn, 1024), errs: make(chan error, 64), done: make(chan struct{})}
}

func (l *fakeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case err := <-l.errs:
		return nil, err
	case <-l.done:
		if l.late.Add(1) > 100 { // the loop spins
			time.Sleep(time.Hour)
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}
func (l *fakeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *fakeListener) Addr() net.Addr { return fakeAddr("127.0.0.1:8080") }

// Closing a connection wakes its reader. The runtime does not allow that from outside
// the bubble, where the HTTP server runs; such wake-ups are handed to the harness.
var (
	lateMu    sync.Mutex
	lateClose []*fakeConn
)

func passOnCloses() {
	lateMu.Lock()
	l := lateClose
	lateClose = nil
	lateMu.Unlock()
	for _, c := range l {
		c.cond.Broadcast()
	}
}

// inBubble: the header of a goroutine's stack names its bubble.
func inBubble() bool {
	if gHTTP == "" {
		return true
	}
	var b [96]byte
	h := b[:runtime.Stack(b[:], false)]
	if i := bytes.IndexByte(h, '\n'); i >= 0 {
		h = h[:i]
	}
	return bytes.Contains(h, []byte("bubble"))
}
