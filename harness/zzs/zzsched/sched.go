// Package zzsched is the cooperative scheduler behind the instrumented build.
//
// The instrumenter puts a Point before every statement; a point reports the memory the statement
// touches. Points whose memory is touched by two threads (one of them writing) in some explored
// execution become scheduling points: there the thread parks until the controller grants it. The
// controller runs in the same synctest bubble and grants one thread at a time, so every execution is
// determined by the controller's choices.
package zzsched

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

type Thread struct {
	id      int
	ch      chan struct{}
	parked  bool
	fresh   bool // has not been granted since it was created or woken by an event
	foreign bool
	site    uint32
	last    uint32
	enabled func() bool
	bit     uint64
	epoch   int
	pend    []pending // accesses to maps and texts the statement about to run makes at once
	idx     int
	vc      []uint32 // happens-before clock, per thread of the execution
}

type pending struct {
	p    uintptr
	w    bool
	text bool // a string or slice in a struct, several words
}

type rec struct {
	r, w  uint64
	sites map[uint32]struct{}
	acc   map[int]*access // by thread
}

// access: what one thread did to one address.
type access struct {
	r, w  uint32 // its clock at its last read and write
	sites map[uint32]struct{}
}

var (
	mu      sync.Mutex
	on      bool
	epoch   int
	nthread int
	threads = map[uintptr]*Thread{}
	parked  []*Thread
	shared  = map[uint32]bool{}
	recs    = map[uintptr]*rec{}
	nbit    int
	npoints int64
	ctl     uintptr // the controller itself is not scheduled
	racy    = map[uint32]bool{}
	clocks  = map[uintptr][]uint32{} // of synchronisation objects

	// Every makes each statement that touches memory of two threads a scheduling point. Otherwise only
	// synchronisation operations and accesses not ordered by them are: executions that differ only in
	// the order of other accesses have the same outcome.
	Every = true
)

// Rec collects the accesses of one statement.
type Rec struct{ t *Thread }

func (r *Rec) note(f func() unsafe.Pointer, w bool) {
	defer func() { recover() }()
	p := uintptr(f())
	if p == 0 {
		return
	}
	record(r.t, p, w, true)
}

func (r *Rec) R(f func() unsafe.Pointer) { r.note(f, false) }
func (r *Rec) W(f func() unsafe.Pointer) { r.note(f, true) }

// MR and MW: the same for the contents of a map.
func (r *Rec) MR(f func() unsafe.Pointer) { r.pend(f, false) }
func (r *Rec) MW(f func() unsafe.Pointer) { r.pend(f, true) }

func (r *Rec) pend(f func() unsafe.Pointer, w bool) {
	defer func() { recover() }()
	if p := uintptr(f()); p != 0 {
		r.t.pend = append(r.t.pend, pending{p, w, false})
	}
}

// SR and SW: a string or slice in a struct.
func (r *Rec) SR(f func() unsafe.Pointer) { r.text(f, false) }
func (r *Rec) SW(f func() unsafe.Pointer) { r.text(f, true) }

func (r *Rec) text(f func() unsafe.Pointer, w bool) {
	defer func() { recover() }()
	if p := uintptr(f()); p != 0 {
		r.t.pend = append(r.t.pend, pending{p, w, true})
	}
}

// CR and CW: a whole struct is copied or overwritten.
func (r *Rec) CR(f func() any) { r.copied(f, false) }
func (r *Rec) CW(f func() any) { r.copied(f, true) }

func (r *Rec) copied(f func() any, w bool) {
	defer func() { recover() }()
	v := reflect.ValueOf(f()).Elem()
	for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
		p := v.Field(i).UnsafeAddr()
		record(r.t, p, w, true)
		if k := v.Field(i).Kind(); k == reflect.String || k == reflect.Slice {
			r.t.pend = append(r.t.pend, pending{p, w, true})
		}
	}
}

// clash: two threads are about to access the same map or text, one of them writing it.
func clash(en []*Thread, text bool) string {
	for i, a := range en {
		for _, b := range en[:i] {
			for _, x := range a.pend {
				for _, y := range b.pend {
					if x.p == y.p && (x.w || y.w) && x.text == text && y.text == text {
						return SiteName(a.site) + " and " + SiteName(b.site)
					}
				}
			}
		}
	}
	return ""
}

func record(t *Thread, p uintptr, w, data bool) {
	x := recs[p]
	if x == nil {
		x = &rec{sites: map[uint32]struct{}{}, acc: map[int]*access{}}
		recs[p] = x
	}
	if w {
		x.w |= t.bit
	}
	x.r |= t.bit
	x.sites[t.last] = struct{}{}
	if !data {
		return
	}
	a := x.acc[t.idx]
	if a == nil {
		a = &access{sites: map[uint32]struct{}{}}
		x.acc[t.idx] = a
	}
	a.sites[t.last] = struct{}{}
	if w {
		a.w = t.vc[t.idx]
	} else {
		a.r = t.vc[t.idx]
	}
	for i, b := range x.acc {
		if i != t.idx && (b.w > at(t.vc, i) || w && b.r > at(t.vc, i)) {
			racy[t.last] = true
			for s := range b.sites {
				racy[s] = true
			}
		}
	}
}

func at(c []uint32, i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func join(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// Acquire and Release order what precedes a release of p before what follows a later acquire.
func Acquire(p unsafe.Pointer) {
	if !on || getg() == ctl {
		return
	}
	mu.Lock()
	t := cur()
	t.vc = join(t.vc, clocks[uintptr(p)])
	mu.Unlock()
}

func Release(p unsafe.Pointer) {
	if !on || getg() == ctl {
		return
	}
	mu.Lock()
	t := cur()
	clocks[uintptr(p)] = join(clocks[uintptr(p)], t.vc)
	t.vc[t.idx]++
	mu.Unlock()
}

// Word returns the data word of an interface value: the pointer of maps, channels and pointers.
func Word(v any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1] }

func Slice[T any](s []T) unsafe.Pointer {
	if cap(s) == 0 {
		return nil
	}
	return *(*unsafe.Pointer)(unsafe.Pointer(&s))
}

func cur() *Thread {
	g := getg()
	t := threads[g]
	if t == nil {
		t = newThread()
		t.foreign, t.fresh = true, true
		threads[g] = t
	}
	t.join(nil)
	return t
}

// join makes the thread one of this execution.
func (t *Thread) join(parent []uint32) {
	if t.epoch == epoch {
		return
	}
	t.epoch = epoch
	t.idx = nbit
	t.bit = 1 << uint(nbit&63)
	nbit++
	t.vc = join(make([]uint32, nbit), parent)
	t.vc[t.idx] = 1
}

func newThread() *Thread {
	nthread++
	return &Thread{id: nthread, ch: make(chan struct{}, 1)}
}

// Point announces the statement about to run.
func Point(site uint32, fn func(*Rec)) {
	if !on || getg() == ctl {
		return
	}
	mu.Lock()
	npoints++
	t := cur()
	t.last = site
	t.pend = t.pend[:0]
	if fn != nil {
		fn(&Rec{t})
	}
	stop := t.fresh || shared[site]
	mu.Unlock()
	if stop {
		park(t, site, nil)
	}
}

// Op is a point of a synchronisation primitive or of the harness' connections.
func Op(kind uint32, p unsafe.Pointer, write bool, enabled func() bool) {
	if !on || getg() == ctl {
		return
	}
	mu.Lock()
	npoints++
	t := cur()
	saved := t.last
	t.pend = t.pend[:0]
	t.last = saved&0xffffff | kind<<24
	record(t, uintptr(p), write, false)
	stop := t.fresh || shared[t.last] || enabled != nil && !enabled()
	site := t.last
	mu.Unlock()
	if stop {
		park(t, site, enabled)
	}
	t.last = saved
}

func park(t *Thread, site uint32, enabled func() bool) {
	mu.Lock()
	if !on { // released meanwhile
		mu.Unlock()
		return
	}
	t.site, t.enabled, t.parked = site, enabled, true
	parked = append(parked, t)
	mu.Unlock()
	<-t.ch
}

// G identifies the running thread.
func G() uintptr { return getg() }

// On reports whether the controller is in charge.
func On() bool { return on }

// Go starts a thread.
func Go(f func()) {
	mu.Lock()
	t := newThread()
	if on && getg() != ctl {
		c := cur()
		t.join(c.vc)
		c.vc[c.idx]++
	}
	mu.Unlock()
	go func() {
		g := getg()
		mu.Lock()
		t.fresh = on
		threads[g] = t
		mu.Unlock()
		defer func() {
			mu.Lock()
			if threads[g] == t {
				delete(threads, g)
			}
			mu.Unlock()
		}()
		Point(0, nil)
		f()
	}()
}

func Go0(f func())                                               { Go(f) }
func Go1[A any](f func(A), a A)                                  { Go(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { Go(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { Go(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { Go(func() { f(a, b, c, d) }) }

// ---- controller ----

// Step is one decision of an execution.
type Step struct {
	N      int    // alternatives the bound allows
	Choice int    // taken
	Sig    string // thread/site of the alternatives, to detect divergence
}

type Run struct {
	Steps     []Step
	Deadlock  bool
	Waiting   []string // where, in a deadlock
	Diverged  bool
	Capped    bool
	NewShared bool
	MapClash  string // places of two unsynchronised accesses to one map
	TextClash string // the same for a text
	Trace     []string
	Switches  int
}

// Execute runs inject (which makes threads runnable) and then schedules until nothing is left to run.
// prefix gives the choices to repeat; later choices are the default (0: go on with the same thread).
func Execute(prefix []Step, bound int, inject func(), trace bool) *Run {
	r := &Run{}
	synctest.Wait()
	mu.Lock()
	on = true
	ctl = getg()
	epoch++
	nbit = 0
	recs = map[uintptr]*rec{}
	clocks = map[uintptr][]uint32{}
	racy = map[uint32]bool{}
	parked = nil
	mu.Unlock()
	inject()
	synctest.Wait()
	var curT *Thread
	pre, idle := 0, 0
	for {
		mu.Lock()
		var en []*Thread
		for _, t := range parked {
			if t.enabled == nil || t.enabled() {
				en = append(en, t)
			}
		}
		np := len(parked)
		if r.MapClash == "" {
			r.MapClash = clash(en, false)
		}
		if r.TextClash == "" {
			r.TextClash = clash(en, true)
		}
		sort.Slice(en, func(i, j int) bool {
			a, b := en[i], en[j]
			if (a == curT) != (b == curT) {
				return a == curT
			}
			return a.id < b.id
		})
		mu.Unlock()
		if len(en) == 0 {
			if idle < 2 { // sleeping threads get their turn
				idle++
				time.Sleep(1100 * time.Millisecond)
				synctest.Wait()
				continue
			}
			r.Deadlock = np > 0
			mu.Lock()
			for _, t := range parked {
				r.Waiting = append(r.Waiting, fmt.Sprintf("thread %d at %s", t.id, SiteName(t.site)))
			}
			mu.Unlock()
			break
		}
		idle = 0
		if len(r.Steps) >= 4000 {
			r.Capped = true
			break
		}
		n := len(en)
		if en[0] == curT && pre >= bound {
			n = 1
		}
		sig := ""
		for _, t := range en[:n] {
			sig += fmt.Sprintf("%x,", t.site)
		}
		c := 0
		if k := len(r.Steps); k < len(prefix) {
			c = prefix[k].Choice
			if prefix[k].Sig != sig || c >= n {
				r.Diverged = true
				if Debug {
					r.Trace = append(r.Trace, fmt.Sprintf("diverged at step %d: expected %s now %s", k, names(prefix[k].Sig), names(sig)))
				}
				break
			}
		}
		r.Steps = append(r.Steps, Step{n, c, sig})
		t := en[c]
		if c != 0 {
			r.Switches++
			if en[0] == curT {
				pre++
			}
		}
		if trace && t != curT {
			r.Trace = append(r.Trace, fmt.Sprintf("%s: thread %d continues at %s", fmt.Sprint(len(r.Steps)), t.id, SiteName(t.site)))
		}
		curT = t
		mu.Lock()
		for i, x := range parked {
			if x == t {
				parked = append(parked[:i], parked[i+1:]...)
				break
			}
		}
		t.parked, t.fresh = false, false
		mu.Unlock()
		t.ch <- struct{}{}
		synctest.Wait()
	}
	// release whatever is left
	mu.Lock()
	on = false
	for _, t := range parked {
		t.parked, t.fresh = false, false
		t.ch <- struct{}{}
	}
	parked = nil
	for _, x := range recs {
		if x.w != 0 && x.r&(x.r-1) != 0 {
			for s := range x.sites {
				if k := s >> 24; !Every && !racy[s] && (k == 0 || k == 7 || k == 8) {
					continue
				}
				if !shared[s] {
					shared[s] = true
					r.NewShared = true
				}
			}
		}
	}
	for g, t := range threads {
		if t.foreign {
			delete(threads, g)
		}
	}
	mu.Unlock()
	synctest.Wait()
	return r
}

// Debug adds to the trace why an execution did not repeat.
var Debug bool

func names(sig string) (s string) {
	for _, x := range strings.Split(strings.TrimSuffix(sig, ","), ",") {
		var n uint32
		fmt.Sscanf(x, "%x", &n)
		s += SiteName(n) + ", "
	}
	return
}

var generation int

// Prepare announces that a new execution is being prepared.
func Prepare()        { generation++ }
func Generation() int { return generation }

// ResetShared forgets which sites are scheduling points.
func ResetShared()  { shared = map[uint32]bool{} }
func NShared() int  { return len(shared) }
func Points() int64 { return npoints }

func SharedSites() (s []string) {
	for k := range shared {
		s = append(s, SiteName(k))
	}
	sort.Strings(s)
	return
}

var Sites []string

func SiteName(s uint32) string {
	n := "start"
	if i := int(s & 0xffffff); i > 0 && i <= len(Sites) {
		n = Sites[i-1]
	}
	if k := s >> 24; k != 0 {
		n += map[uint32]string{1: " (lock)", 2: " (atomic)", 3: " (after atomic)", 4: " (conn)", 5: " (rlock)", 6: " (once)", 7: " (between read and write)", 8: " (passed to a library)"}[k]
	}
	return n
}
