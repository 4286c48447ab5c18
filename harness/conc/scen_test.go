package zzverif

import (
	"fmt"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"zzs.local/zzsched"
)

const sec = time.Second

var concProps = []string{"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20"}

// A pass explores every scenario of a family: with a scheduling point at every statement that touches
// memory of two threads (every), or at synchronisation operations and unordered accesses only, and with at
// most limit preemptions or switches (0: the scenario's own bound). Small bounds come first, so that a
// scenario with very many schedules does not keep the others from being looked at.
type pass struct {
	every bool
	limit int
	extra int // added to the scenario's own bound
}

var (
	quickPasses    = []pass{{true, 1, 0}, {false, 2, 0}, {false, 0, 0}}
	thoroughPasses = []pass{{true, 1, 0}, {false, 2, 0}, {false, 0, 0}, {true, 2, 0}, {false, 0, 1}, {true, 3, 0}}
	curPass        pass
)

func (p pass) String() string {
	s := ""
	if p.every {
		s = " (all accesses)"
	}
	if p.limit > 0 {
		s += fmt.Sprintf(" (bound %d)", p.limit)
	}
	if p.extra > 0 {
		s += fmt.Sprintf(" (bound +%d)", p.extra)
	}
	return s
}

func conc(prop, name string, f func(cx *Ctx)) {
	register("conc:"+prop, name, true, func(cx *Ctx) {
		start := map[string]int64{}
		for k, v := range cx.counters {
			start[k] = v
		}
		passes := quickPasses
		if cx.thorough() {
			passes = thoroughPasses
		}
		for _, curPass = range passes {
			zzsched.Every = curPass.every
			cx.counters = map[string]int64{}
			for k, v := range start {
				cx.counters[k] = v
			}
			f(cx)
		}
	})
}

// states a scenario starts from
func stEmpty(x *cw)      { x.conn(2) }
func stRegistered(x *cw) { x.conn(2); x.reg(0, 0, 0) }
func stOnline(x *cw)     { x.conn(2); x.online(0, 0) }
func stReported(x *cw)   { x.conn(2); x.online(0, 0); x.loc(0, 0) }
func stSleeping(x *cw)   { x.conn(2); x.online(0, 0); x.asleep(0, 0) }
func stTwo(x *cw)        { x.conn(2); x.online(0, 0); x.loc(0, 0); x.online(1, 1); x.loc(1, 1) }
func stAt(st func(x *cw), d time.Duration) func(x *cw) {
	return func(x *cw) {
		// the timer counts in whole seconds
		x.t0 = time.Now().Truncate(time.Second).Add(time.Second)
		time.Sleep(time.Until(x.t0.Add(300 * time.Millisecond)))
		st(x)
		time.Sleep(time.Until(x.t0.Add(d - 100*time.Millisecond)))
	}
}

// pairs explores every given event against every other event of the list (different keys).
func pairs(cx *Ctx, base scen, a, b []cev) {
	for _, e := range a {
		for _, f := range b {
			if e.key == f.key {
				continue
			}
			s := base
			s.evs = []cev{e, f}
			s.explore(cx)
		}
	}
}

func all(cx *Ctx, base scen, sets ...[]cev) {
	for _, evs := range sets {
		s := base
		s.evs = evs
		s.explore(cx)
	}
}

func init() {
	for _, p := range concProps {
		register("conc:"+p, "router", false, func(cx *Ctx) { needRouter() })
	}
	conc("C07", "register", func(cx *Ctx) {
		base := scen{name: "register", bound: 4, lin: true, setup: stEmpty}
		regs := []cev{eReg(0, 0, 0), eReg(0, 0, 1), eReg(0, 1, 0), eReg(0, 1, 1)}
		regs1 := []cev{eReg(1, 0, 0), eReg(1, 0, 1), eReg(1, 1, 0), eReg(1, 1, 1)}
		pairs(cx, base, regs, regs1)
		three := base
		three.name, three.bound = "register-three", 2
		all(cx, three, []cev{eReg(0, 0, 0), eReg(1, 0, 0), eReg(2, 0, 0)}, []cev{eReg(0, 0, 0), eReg(1, 1, 0), eReg(2, 0, 1)}, []cev{eReg(0, 0, 0), eReg(1, 0, 1), eReg(2, 1, 1)})
		freed := scen{name: "register-freed", bound: 3, lin: true, setup: stOnline}
		pairs(cx, freed, []cev{eDereg(0, 0), eAuth(0, 0, false)}, regs1)
		all(cx, freed, []cev{eDereg(0, 0), eReg(1, 0, 0), eReg(2, 1, 0)}, []cev{eAuth(0, 0, false), eReg(1, 0, 0), eReg(2, 1, 0)}, []cev{eDereg(0, 0), eReg(0, 0, 0), eReg(2, 1, 0)})
		exp := scen{name: "register-expiring", bound: 3, lin: true, setup: stAt(stRegistered, 120*sec)}
		pairs(cx, exp, []cev{eTick(120 * sec)}, regs1)
	})
	conc("C08", "auth", func(cx *Ctx) {
		base := scen{name: "auth", bound: 3, lin: true, setup: stRegistered, later: true}
		pairs(cx, base, []cev{eAuth(0, 0, true), eAuth(0, 0, false)}, []cev{eAuth(1, 0, true), eAuth(1, 0, false), eHb(1, 0), eLoc(1, 0, 5, 1), eLoc(1, 0, 5, 0), eDereg(1, 0), eReg(1, 0, 0), eReg(1, 1, 0)})
		two := scen{name: "auth-two", bound: 3, lin: true, setup: func(x *cw) { x.conn(2); x.reg(0, 0, 0); x.reg(1, 1, 1) }}
		pairs(cx, two, []cev{eAuth(0, 0, true), eAuth(0, 0, false)}, []cev{eAuth(1, 1, true), eAuth(1, 1, false)})
	})
	ticks := func(cx *Ctx, name string, others []cev) {
		for _, d := range []time.Duration{60 * sec, 120 * sec, 180 * sec} {
			pairs(cx, scen{name: fmt.Sprintf("%s-online-%v", name, d), bound: 3, lin: true, later: true, setup: stAt(stReported, d)}, []cev{eTick(d)}, others)
		}
		for _, d := range []time.Duration{60 * sec, 120 * sec} {
			pairs(cx, scen{name: fmt.Sprintf("%s-registered-%v", name, d), bound: 3, lin: true, later: true, setup: stAt(stRegistered, d)}, []cev{eTick(d)}, others)
		}
	}
	conc("C09", "expiry", func(cx *Ctx) {
		ticks(cx, "expiry", []cev{eHb(0, 0), eHb(1, 0), eLoc(0, 0, 5, 1), eLoc(1, 0, 5, 0), eAuth(0, 0, true), eAuth(1, 0, true), eClose(0)})
		two := scen{name: "expiry-two", bound: 2, lin: true, later: true, setup: stAt(stTwo, 120*sec)}
		all(cx, two, []cev{eTick(120 * sec)}, []cev{eTick(120 * sec), eHb(0, 0), eHb(1, 1)})
	})
	conc("C19", "removal", func(cx *Ctx) {
		ticks(cx, "removal", []cev{eDereg(0, 0), eDereg(1, 0), eAuth(1, 0, false), eReg(1, 0, 0), eReg(1, 1, 0)})
		base := scen{name: "removal", bound: 3, lin: true, later: true, setup: stReported}
		pairs(cx, base, []cev{eDereg(1, 0), eAuth(1, 0, false)}, []cev{eHb(0, 0), eLoc(0, 0, 5, 1), eLoc(0, 0, 5, 0), eAuth(0, 0, true), eAuth(0, 0, false), eDereg(0, 0), eReg(0, 0, 0), eClose(0), eQuery(0), eGeo(0)})
		again := scen{name: "removal-again", bound: 2, lin: true, later: true, setup: stReported}
		for _, e := range []cev{eHb(0, 0), eLoc(0, 0, 5, 1), eLoc(0, 0, 5, 0), eAuth(0, 0, true), eAuth(0, 0, false), eDereg(0, 0)} {
			all(cx, again, []cev{eDereg(1, 0), eReg(1, 0, 0), e}, []cev{eDereg(1, 0), eReg(1, 0, 1), eAuth(1, 0, true), e})
		}
		// the plate goes to another terminal meanwhile
		for i, st := range []func(*cw){stReported, stSleeping, stRegistered} {
			plate := scen{name: fmt.Sprintf("removal-plate-%d", i), bound: 2, lin: true, later: true, setup: st}
			all(cx, plate, []cev{eDereg(0, 0), eDereg(1, 0), eReg(1, 1, 0)}, []cev{eDereg(0, 0), eAuth(1, 0, false), eReg(1, 1, 0)}, []cev{eAuth(0, 0, false), eDereg(1, 0), eReg(1, 1, 0)})
		}
		sl := scen{name: "removal-sleeping", bound: 2, lin: true, later: true, setup: stSleeping}
		pairs(cx, sl, []cev{eDereg(1, 0), eAuth(1, 0, false)}, []cev{eHb(0, 0), eLoc(0, 0, 5, 1), eAuth(0, 0, true), eReg(0, 0, 0)})
		for _, d := range []time.Duration{60 * sec, 120 * sec, 180 * sec} {
			all(cx, scen{name: fmt.Sprintf("removal-again-%v", d), bound: 2, lin: true, later: true, setup: stAt(stReported, d)},
				[]cev{eTick(d), eDereg(1, 0), eReg(1, 0, 0)}, []cev{eTick(d), eReg(1, 0, 0), eHb(2, 0)}, []cev{eTick(d), eDereg(1, 0), eHb(2, 0)})
		}
	})
	conc("C10", "positions", func(cx *Ctx) {
		for _, n := range []int{0, 1, 98, 99, 100, 199} {
			n := n
			base := scen{name: fmt.Sprintf("positions-after-%d", n), bound: 3, lin: true, setup: func(x *cw) {
				x.conn(2)
				x.online(0, 0)
				x.online(1, 1)
				for i := 0; i < n; i++ {
					x.loc(0, 0)
				}
			}}
			all(cx, base, []cev{eLoc(0, 0, 501, 1), eGeo(0)}, []cev{eLoc(0, 0, 501, 1), eLoc(0, 0, 502, 1), eGeo(0)}, []cev{eLoc(0, 0, 501, 1), eLoc(1, 1, 502, 1)},
				[]cev{eLoc(0, 0, 501, 1), eLoc(2, 0, 502, 1)}, []cev{eLoc(0, 0, 501, 1), eLoc(2, 0, 502, 1), eGeo(0)}, []cev{eLoc(0, 0, 501, 1), eLoc(1, 1, 502, 1), eGeo(1)})
			// reported in the same second as the last one
			same := eLoc(0, 0, uint32(n+60), 1)
			all(cx, base, []cev{same, eGeo(0)}, []cev{same, eLoc(0, 0, uint32(n+120), 1), eGeo(0)})
		}
	})
	conc("C11", "anything", func(cx *Ctx) {
		bad := func(c int) cev {
			return cev{fmt.Sprintf("malformed(c%d)", c), fmt.Sprint("c", c), func(x *cw) { x.conn(c).fc.feed([]byte{0x7e, 1, 2, 3, 0, 0x7e}) }}
		}
		frag := func(c, no int) cev {
			return cev{fmt.Sprintf("fragment %d of 2 (c%d,p0)", no, c), fmt.Sprint("c", c), func(x *cw) {
				x.conn(c).fc.feed(x.fragment(0, 0x0200, uint16(7+no), 2, uint16(no), x.locBody(5, 1)[(no-1)*14:no*14]))
			}}
		}
		on := func(c int) []cev {
			return []cev{eReg(c, 0, 0), eReg(c, 0, 3), eAuth(c, 0, true), eAuth(c, 0, false), eHb(c, 0), eDereg(c, 0), eLoc(c, 0, 5, 1), eLoc(c, 0, 5, 0), eClose(c), bad(c), frag(c, 1), frag(c, 2)}
		}
		base := scen{name: "anything", bound: 2, setup: stTwo, check: (*cw).probe}
		pairs(cx, base, on(0), on(2))
		api := []cev{eQuery(0), eSet(0), eList(), eGeo(0), eOpen(0)}
		pairs(cx, base, on(0), api)
		pairs(cx, base, api, api)
		newcomers := base
		newcomers.name, newcomers.setup = "anything-new", stEmpty
		pairs(cx, newcomers, []cev{eReg(1, 1, 1)}, []cev{eReg(0, 0, 0), eReg(0, 0, 1), eReg(0, 1, 0), eList(), eTick10()})
		newcomers.name, newcomers.setup = "anything-new-beside", stOnline
		pairs(cx, newcomers, []cev{eReg(1, 1, 1)}, append(on(0), api...))
		// what runs every ten seconds
		pairs(cx, base, []cev{eTick10()}, append([]cev{eOpen(2), eClose(1)}, append(on(0), api...)...))
		for _, d := range []time.Duration{60 * sec, 120 * sec, 180 * sec} {
			exp := base
			exp.name, exp.setup = fmt.Sprintf("anything-%v", d), stAt(stTwo, d)
			if d == 180*sec {
				exp.bound = 1 // two devices are removed here: long executions
			}
			pairs(cx, exp, []cev{eTick(d)}, append(on(0), api...))
		}
		three := base
		three.name, three.bound = "anything-three", 1
		all(cx, three, []cev{eHb(0, 0), eDereg(1, 0), eList()}, []cev{eLoc(0, 0, 5, 1), eDereg(1, 0), eGeo(0)}, []cev{eClose(0), eOpen(0), eQuery(0)},
			[]cev{eReg(0, 0, 3), eDereg(1, 0), eQuery(0)}, []cev{eAuth(0, 0, false), eLoc(1, 0, 5, 0), eGeo(0)}, []cev{eSet(0), eQuery(0), eClose(0)})
	})
	conc("C12", "sessions", func(cx *Ctx) {
		obs := func(x *cw) []string {
			var s []string
			for _, c := range x.conns {
				s = append(s, fmt.Sprintf("%s closed=%v", c.name, c.fc.isClosed()))
			}
			return append(s, x.obsSessions())
		}
		base := scen{name: "sessions", bound: 3, lin: true, obs: obs, setup: stTwo}
		unreg := cev{"hb of an unregistered phone on c0", "c0", func(x *cw) { x.conn(0).fc.feed(x.frameSn(0, 0x0003, 5, nil), x.frameSn(0, 0x0002, 6, nil)) }}
		all(cx, base,
			[]cev{eClose(0), eClose(1)}, []cev{eClose(0), eOpen(0)}, []cev{eClose(0), eOpen(0), eClose(1)}, []cev{unreg, eOpen(0)}, []cev{unreg, eClose(1)},
			[]cev{eClose(0), eQuery(0)}, []cev{eClose(0), eQuery(1)}, []cev{unreg, eQuery(0)}, []cev{eClose(0), eOpen(0), eQuery(0)}, []cev{eClose(0), eSet(0), eQuery(0)},
			[]cev{unreg, eOpen(0), eClose(2)}, []cev{eOpen(2), eOpen2(1)})
		exp := base
		exp.name = "sessions-expiring"
		exp.bound = 2
		exp.setup = stAt(func(x *cw) {
			stReported(x)
			time.Sleep(3 * sec) // the other device is not due yet
			x.online(1, 1)
		}, 180*sec)
		all(cx, exp, []cev{eTick(180 * sec), eClose(0)}, []cev{eTick(180 * sec), eOpen(0)}, []cev{eTick(180 * sec), eClose(0), eOpen(0)}, []cev{eTick(180 * sec), eQuery(0)})
	})
	conc("C13", "commands", func(cx *Ctx) {
		base := scen{name: "commands", bound: 3, lin: true, setup: stTwo}
		all(cx, base, []cev{eQuery(0), eQuery(1)}, []cev{eQuery(0), eSet(0)}, []cev{eQuery(0), eSet(1)}, []cev{eSet(0), eHb(0, 0)}, []cev{eSet(0), eLoc(0, 0, 5, 1)}, []cev{eQuery(0), eHb(2, 0)},
			[]cev{eQuery(0), eAuth(2, 0, true)}, []cev{eQuery(0), eDereg(1, 0)}, []cev{eQuery(0), eAuth(2, 0, false)}, []cev{eQuery(0), eSet(0), eHb(0, 0)}, []cev{eSet(0), eSet(1), eHb(1, 1)},
			[]cev{eSet(0), eSet2(1)}, []cev{eSet(0), eSet2(0)}, []cev{eSet2(0), eSet2(1)}, []cev{eSetBig(0), eSet(1)})
	})
	conc("C14", "serials", func(cx *Ctx) {
		for _, start := range []int{0, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537} {
			for _, ths := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}} {
				start, ths := start, ths
				var evs []cev
				for i, k := range ths {
					i, k := i, k
					evs = append(evs, cev{fmt.Sprintf("draw %d", k), fmt.Sprint("t", i), func(x *cw) {
						s := x.sess
						if s == nil {
							return
						}
						zzsched.Go(func() {
							for j := 0; j < k; j++ {
								n := s.GetNextSerialNum()
								x.nums = append(x.nums, n)
							}
						})
					}})
				}
				scen{name: fmt.Sprintf("serials-after-%d", start), bound: 3, evs: evs, setup: func(x *cw) {
					x.conn(0)
					synctestWait()
					s, err := storage.GetSession(x.conn(0).addr)
					if err != nil {
						x.bad = "no session"
						return
					}
					x.sess = s
					for i := 0; i < start; i++ {
						s.GetNextSerialNum()
					}
				}, check: func(x *cw) string {
					s, err := storage.GetSession(x.conn(0).addr)
					if err != nil {
						return "no session"
					}
					var at [65536]bool
					for _, n := range x.nums {
						if at[n] {
							return fmt.Sprintf("serial %d was assigned twice: %v", n, x.nums)
						}
						at[n] = true
					}
					for i := len(x.nums); i < 65536; i++ {
						n := s.GetNextSerialNum()
						if at[n] {
							return fmt.Sprintf("serial %d was assigned twice within %d assignments (concurrently drawn: %v)", n, i+1, x.nums)
						}
						at[n] = true
					}
					return ""
				}}.explore(cx)
			}
		}
	})
	conc("C14", "command-serials", func(cx *Ctx) {
		seg := cev{"first fragment of two on c0", "c0", func(x *cw) { x.conn(0).fc.feed(x.fragment(0, 0x0200, 9, 2, 1, x.locBody(5, 1)[:10])) }}
		check := func(x *cw) string {
			seen := map[uint16]bool{}
			for _, p := range x.conns[0].got {
				if p.id == 0x8103 || p.id == 0x8104 || p.id == 0x8001 && rd16(p.body) == 9 {
					if seen[p.serial] {
						return fmt.Sprintf("two platform messages carry serial %d", p.serial)
					}
					seen[p.serial] = true
				}
			}
			return ""
		}
		all(cx, scen{name: "command-serials", bound: 3, setup: stTwo, check: check}, []cev{eQuery(0), eSet(0)}, []cev{eQuery(0), seg}, []cev{eQuery(0), eSet(0), seg})
	})
	conc("C15", "writes", func(cx *Ctx) {
		base := scen{name: "writes", bound: 3, lin: true, setup: stTwo, obs: func(x *cw) []string { return []string{x.obsReplies()} }}
		all(cx, base, []cev{eHb(0, 0), eQuery(0)}, []cev{eHb(0, 0), eSet(0)}, []cev{eQuery(0), eSet(0)}, []cev{eHb(0, 0), eHb(0, 0), eQuery(0)}, []cev{eHb(0, 0), eQuery(0), eSet(0)},
			[]cev{eHb(0, 0), eHb(1, 1)}, []cev{eHb(0, 0), eHb(1, 1), eQuery(1)}, []cev{eLoc(0, 0, 5, 1), eLoc(1, 1, 6, 1)}, []cev{eAuth(0, 0, true), eAuth(1, 1, true)}, []cev{eReg(0, 0, 0), eReg(1, 1, 1)},
			[]cev{eHb(0, 0), eLoc(0, 0, 5, 1), eSet(0), eHb(1, 1)},
			[]cev{eSetBig(0), eHb(0, 0)}, []cev{eSetBig(0), eQuery(0)}, []cev{eSetBig(0), eSet(0)}, []cev{eSetBig(0), eSetBig(1)}, []cev{eSetBig(0), eSet2(0), eHb(0, 0)})
	})
	conc("C16", "fragments", func(cx *Ctx) {
		frag := func(c, p int, total, no int, n uint32) cev {
			return cev{fmt.Sprintf("fragment %d/%d of loc %d (c%d,p%d)", no, total, n, c, p), fmt.Sprint("c", c), func(x *cw) {
				b := x.locBody(n, 1)
				step := (len(b) + total - 1) / total
				lo, hi := (no-1)*step, no*step
				if hi > len(b) {
					hi = len(b)
				}
				x.conn(c).fc.feed(x.fragment(p, 0x0200, uint16(0x200+no), uint16(total), uint16(no), b[lo:hi]))
			}}
		}
		// the acknowledgements carry a fresh serial, which showPkt leaves out
		base := scen{name: "fragments", bound: 3, lin: true, setup: stTwo}
		all(cx, base,
			[]cev{frag(0, 0, 2, 1, 5), frag(0, 0, 2, 2, 5), frag(1, 1, 2, 1, 6), frag(1, 1, 2, 2, 6)},
			[]cev{frag(0, 0, 2, 1, 5), frag(1, 1, 2, 1, 6)},
			[]cev{frag(0, 0, 2, 1, 5), frag(0, 0, 2, 2, 5), eLoc(1, 1, 6, 1)},
			[]cev{frag(0, 0, 2, 1, 5), frag(0, 0, 2, 2, 5), eHb(1, 0)},
			[]cev{frag(0, 0, 2, 1, 5), frag(0, 0, 2, 2, 5), eQuery(0)},
			[]cev{frag(0, 0, 3, 1, 5), frag(0, 0, 3, 2, 5), frag(0, 0, 3, 3, 5), frag(1, 1, 2, 1, 6), frag(1, 1, 2, 2, 6)})
		half := base
		half.name = "fragments-second-half"
		half.setup = func(x *cw) {
			stTwo(x)
			frag(0, 0, 2, 1, 5).do(x)
			frag(1, 1, 2, 1, 6).do(x)
		}
		all(cx, half, []cev{frag(0, 0, 2, 2, 5), frag(1, 1, 2, 2, 6)}, []cev{frag(0, 0, 2, 2, 5), frag(2, 0, 2, 2, 5)}, []cev{frag(0, 0, 2, 2, 5), eLoc(1, 1, 7, 1)})
	})
	conc("C20", "api", func(cx *Ctx) {
		base := scen{name: "api", bound: 3, lin: true, setup: stTwo}
		pairs(cx, base, []cev{eList(), eGeo(0)}, []cev{eReg(2, 0, 2), eAuth(0, 0, true), eDereg(0, 0), eLoc(0, 0, 5, 1), eLoc(1, 1, 5, 1), eHb(0, 0), eQuery(0), eList(), eGeo(1)})
		all(cx, base, []cev{eSet(0), eSet2(1)}, []cev{eSet(0), eSet2(0)}, []cev{eSet(0), eGeo(0)}, []cev{eSet(0), eList(), eSet2(1)}, []cev{eGeo(0), eGeo(1), eLoc(0, 0, 5, 1)}, []cev{eGeo(0), eLoc(0, 0, 61, 1)}, []cev{eGeo(1), eLoc(1, 1, 62, 0)})
		pairs(cx, scen{name: "api-registered", bound: 3, lin: true, setup: stRegistered}, []cev{eList(), eGeo(0)}, []cev{eReg(1, 1, 1), eAuth(0, 0, true), eAuth(0, 0, false), eDereg(0, 0), eLoc(0, 0, 5, 1)})
	})
}
