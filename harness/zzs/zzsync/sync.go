// Package zzsync replaces sync in the instrumented build.
package zzsync

import (
	"sync"
	"unsafe"

	"zzs.local/zzsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

var imu sync.Mutex // guards the state of all locks, never held while blocking

type Mutex struct {
	held bool
	wait []chan struct{}
	_    int
}

func (m *Mutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *Mutex) Lock() {
	zzsched.Op(1, m.p(), true, func() bool { return !m.held })
	for {
		imu.Lock()
		if !m.held {
			m.held = true
			imu.Unlock()
			zzsched.Acquire(m.p())
			return
		}
		c := make(chan struct{})
		m.wait = append(m.wait, c)
		imu.Unlock()
		<-c
		zzsched.Op(1, m.p(), true, func() bool { return !m.held })
	}
}

func (m *Mutex) TryLock() bool {
	zzsched.Op(1, m.p(), true, nil)
	imu.Lock()
	ok := !m.held
	m.held = true
	imu.Unlock()
	if ok {
		zzsched.Acquire(m.p())
	}
	return ok
}

func (m *Mutex) Unlock() {
	zzsched.Release(m.p())
	imu.Lock()
	if !m.held {
		imu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	w := m.wait
	m.wait = nil
	imu.Unlock()
	for _, c := range w {
		close(c)
	}
}

type RWMutex struct {
	w    bool
	r    int
	wait []chan struct{}
	rd   int // address for the readers' release
	ww   int // writers that have called Lock
	by   map[uintptr]int
}

func (m *RWMutex) p() unsafe.Pointer { return unsafe.Pointer(m) }

func (m *RWMutex) acquire(kind uint32, free func() bool, take func()) {
	zzsched.Op(kind, m.p(), true, free)
	for {
		imu.Lock()
		if free() {
			take()
			imu.Unlock()
			return
		}
		c := make(chan struct{})
		m.wait = append(m.wait, c)
		imu.Unlock()
		<-c
		zzsched.Op(kind, m.p(), true, free)
	}
}

func (m *RWMutex) release(drop func() bool) {
	imu.Lock()
	ok := drop()
	w := m.wait
	m.wait = nil
	imu.Unlock()
	for _, c := range w {
		close(c)
	}
	if !ok {
		panic("sync: unlock of unlocked RWMutex")
	}
}

func (m *RWMutex) Lock() {
	imu.Lock()
	m.ww++
	imu.Unlock()
	m.acquire(1, func() bool { return !m.w && m.r == 0 }, func() { m.w = true; m.ww-- })
	zzsched.Acquire(m.p())
	zzsched.Acquire(unsafe.Pointer(&m.rd))
}
func (m *RWMutex) Unlock() {
	zzsched.Release(m.p())
	m.release(func() bool { ok := m.w; m.w = false; return ok })
}
func (m *RWMutex) RLock() {
	// a waiting writer keeps readers out: one that reads already waits for ever
	g := zzsched.G()
	m.acquire(5, func() bool { return !m.w && !(m.ww > 0 && m.by[g] > 0) }, func() {
		m.r++
		if m.by == nil {
			m.by = map[uintptr]int{}
		}
		m.by[g]++
	})
	zzsched.Acquire(m.p())
}
func (m *RWMutex) RUnlock() {
	zzsched.Release(unsafe.Pointer(&m.rd))
	g := zzsched.G()
	m.release(func() bool {
		m.r--
		if m.by[g]--; m.by[g] <= 0 {
			delete(m.by, g)
		}
		return m.r >= 0
	})
}
func (m *RWMutex) TryLock() (ok bool) {
	zzsched.Op(1, m.p(), true, nil)
	imu.Lock()
	ok = !m.w && m.r == 0
	if ok {
		m.w = true
	}
	imu.Unlock()
	zzsched.Acquire(m.p())
	zzsched.Acquire(unsafe.Pointer(&m.rd))
	return
}
func (m *RWMutex) TryRLock() (ok bool) {
	zzsched.Op(1, m.p(), true, nil)
	imu.Lock()
	ok = !m.w
	if ok {
		m.r++
	}
	imu.Unlock()
	zzsched.Acquire(m.p())
	return
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	zzsched.Op(6, unsafe.Pointer(o), false, nil)
	if o.done {
		zzsched.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			zzsched.Release(unsafe.Pointer(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

// Pool hands out what was put last. It forgets everything when a new execution is prepared, so that
// executions repeat.
type Pool struct {
	New  func() any
	gen  int
	free []any
}

func (p *Pool) at() {
	zzsched.Op(2, unsafe.Pointer(p), true, nil)
	if g := zzsched.Generation(); p.gen != g {
		p.gen, p.free = g, nil
	}
}

func (p *Pool) Get() any {
	p.at()
	imu.Lock()
	n := len(p.free)
	if n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		imu.Unlock()
		zzsched.Acquire(unsafe.Pointer(p))
		return x
	}
	imu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.at()
	zzsched.Release(unsafe.Pointer(p))
	imu.Lock()
	p.free = append(p.free, x)
	imu.Unlock()
}

// Map keeps its keys in the order they came, so that executions repeat.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) op(write bool, f func()) {
	p := unsafe.Pointer(m)
	zzsched.Op(2, p, write, nil)
	zzsched.Acquire(p)
	imu.Lock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
	imu.Unlock()
	zzsched.Release(p)
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.op(false, func() { v, ok = m.m[k] })
	return
}

func (m *Map) Store(k, v any) { m.op(true, func() { m.set(k, v) }) }

func (m *Map) LoadOrStore(k, v any) (actual any, loaded bool) {
	m.op(true, func() {
		if actual, loaded = m.m[k]; !loaded {
			m.set(k, v)
			actual = v
		}
	})
	return
}

func (m *Map) LoadAndDelete(k any) (v any, loaded bool) {
	m.op(true, func() { v, loaded = m.m[k]; m.del(k) })
	return
}

func (m *Map) Delete(k any) { m.op(true, func() { m.del(k) }) }

func (m *Map) Swap(k, v any) (prev any, loaded bool) {
	m.op(true, func() { prev, loaded = m.m[k]; m.set(k, v) })
	return
}

func (m *Map) CompareAndSwap(k, old, v any) (ok bool) {
	m.op(true, func() {
		cur, has := m.m[k]
		if ok = has && cur == old; ok {
			m.set(k, v)
		}
	})
	return
}

func (m *Map) CompareAndDelete(k, old any) (ok bool) {
	m.op(true, func() {
		cur, has := m.m[k]
		if ok = has && cur == old; ok {
			m.del(k)
		}
	})
	return
}

func (m *Map) Range(f func(k, v any) bool) {
	var keys []any
	m.op(false, func() { keys = append(keys, m.keys...) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() { m.op(true, func() { m.m, m.keys = nil, nil }) }
