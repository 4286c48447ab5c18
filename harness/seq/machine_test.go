package zzverif

import (
	"fmt"
	"time"
)

// machine: all operation sequences up to a depth over an alphabet of terminal
// operations on a few connections, phones and plates, executed on the real server.

type mop struct {
	name             string
	slot, phone, plt int // -1: unused; used for symmetry reduction
	run              func(w *World, m *mctx)
	weight           int
}

type mctx struct {
	vers   []int
	phones []string
	plates []string
	nloc   uint32
}

func (m *mctx) loc(acc uint32) refLoc {
	m.nloc++
	day := "2301011200" // the terminal's clock is ahead of, or behind, the server's (2000-01-01 UTC)
	if m.nloc%2 == 1 {
		day = "0001010000"
	}
	return refLoc{alarm: 0, status: acc | 2 | m.nloc<<8&0x300, lat: 39000000 + m.nloc, lon: 116000000 + m.nloc*7, alt: uint16(10 + m.nloc),
		speed: uint16(100 + m.nloc), dir: uint16(m.nloc), time: fmt.Sprintf("%s%02d", day, m.nloc%60)}
}

type profile struct {
	name                string
	vers                []int
	nslots, nplates     int
	ops                 []mop
	depth               int
	prefix              []mop // fixed operations before the enumerated ones
	suffix              func(w *World, m *mctx)
	symSlots, symPlates bool
}

func opReg(c, p, l int) mop {
	return mop{fmt.Sprintf("reg%d%d%d", c, p, l), c, p, l, func(w *World, m *mctx) { w.reg(c, m.phones[p], m.plates[l], m.vers[p]) }, 0}
}
func opAuth(c, p int) mop {
	return mop{fmt.Sprintf("auth%d%d", c, p), c, p, -1, func(w *World, m *mctx) {
		code := "1234567890"
		if d := w.devs[m.phones[p]]; d != nil {
			code = d.code
		}
		w.auth(c, m.phones[p], m.vers[p], code, "good")
	}, 0}
}
func opBadAuth(c, p int) mop {
	return mop{fmt.Sprintf("bad%d%d", c, p), c, p, -1, func(w *World, m *mctx) {
		code := "0"
		if d := w.devs[m.phones[p]]; d != nil {
			code = d.code + "1"
		}
		w.auth(c, m.phones[p], m.vers[p], code, "bad")
	}, 0}
}
func opHb(c, p int) mop {
	return mop{fmt.Sprintf("hb%d%d", c, p), c, p, -1, func(w *World, m *mctx) { w.hb(c, m.phones[p], m.vers[p]) }, 0}
}
func opDereg(c, p int) mop {
	return mop{fmt.Sprintf("dereg%d%d", c, p), c, p, -1, func(w *World, m *mctx) { w.dereg(c, m.phones[p], m.vers[p]) }, 0}
}
func opLoc(c, p int, acc uint32) mop {
	return mop{fmt.Sprintf("loc%d%d%d", c, p, acc), c, p, -1, func(w *World, m *mctx) { w.loc(c, m.phones[p], m.vers[p], m.loc(acc)) }, 0}
}
func opLocS(c, p int, status uint32) mop {
	return mop{fmt.Sprintf("loc%d%ds%d", c, p, status), c, p, -1, func(w *World, m *mctx) {
		l := m.loc(0)
		l.status = l.status&^3 | status
		w.loc(c, m.phones[p], m.vers[p], l)
	}, 0}
}
func opCycle(c int, same bool) mop {
	return mop{fmt.Sprintf("cycle%d%v", c, same), c, -1, -1, func(w *World, m *mctx) {
		if w.slots[c].open {
			w.peerClose(c)
		}
		w.reopen(c, same)
	}, 0}
}
func opAdv(d time.Duration) mop {
	return mop{fmt.Sprintf("adv%v", d), -1, -1, -1, func(w *World, m *mctx) { w.advance(d) }, 0}
}

func (w *World) runOps(m *mctx, ops []mop) {
	for _, o := range ops {
		if w.dead {
			return
		}
		if o.slot >= 0 && !w.slots[o.slot].open {
			w.reopen(o.slot, false) // the terminal reconnects
		}
		o.run(w, m)
	}
}

func (pf profile) explore(cx *Ctx) {
	seq := make([]mop, 0, pf.depth)
	var rec func(maxSlot, maxPlate int)
	rec = func(maxSlot, maxPlate int) {
		if cx.stopped() {
			return
		}
		if len(seq) == pf.depth {
			if cx.Case(pf.name) {
				pf.execute(cx, seq)
			}
			return
		}
		for _, o := range pf.ops {
			ms, mp := maxSlot, maxPlate
			if pf.symSlots && o.slot >= 0 {
				if o.slot > ms+1 {
					continue
				}
				ms = max(ms, o.slot)
			}
			if pf.symPlates && o.plt >= 0 {
				if o.plt > mp+1 {
					continue
				}
				mp = max(mp, o.plt)
			}
			seq = append(seq, o)
			rec(ms, mp)
			seq = seq[:len(seq)-1]
		}
	}
	ms, mp := -1, -1
	for _, o := range pf.prefix {
		ms, mp = max(ms, o.slot), max(mp, o.plt)
	}
	rec(ms, mp)
}

func (pf profile) execute(cx *Ctx, seq []mop) {
	m := &mctx{vers: pf.vers}
	for _, v := range pf.vers {
		m.phones = append(m.phones, newPhone(v))
	}
	for i := 0; i < pf.nplates; i++ {
		m.plates = append(m.plates, newPlate())
	}
	w := newWorld(cx, pf.nslots)
	w.phones, w.plates = m.phones, m.plates
	w.check("ANY")
	w.runOps(m, pf.prefix)
	w.runOps(m, seq)
	if pf.suffix != nil && !w.dead {
		pf.suffix(w, m)
	}
	if cx.res.Cases%997 == 1 {
		cx.sample(cx.curDesc)
	}
	w.finish()
}

func coreOps(nslots, nphones, nplates int) (ops []mop) {
	for c := 0; c < nslots; c++ {
		for p := 0; p < nphones; p++ {
			for l := 0; l < nplates; l++ {
				ops = append(ops, opReg(c, p, l))
			}
			ops = append(ops, opAuth(c, p), opBadAuth(c, p), opHb(c, p), opDereg(c, p), opLoc(c, p, 1))
		}
	}
	return
}
