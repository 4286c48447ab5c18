package zzverif

// Many terminals at once, each on a connection of its own: whatever the server does for one of them must
// not depend on how many others there are.

func init() {
	crowd := func(n int) func(cx *Ctx) {
		return func(cx *Ctx) {
			vers := []int{v2013, v2019, v2011}
			// populations around the sizes at which a table, a channel or a list is usually bounded
			sizes := []int{9, 17, 33, 65, 101, 129, n, 513}
			if cx.thorough() {
				sizes = append(sizes, 1025)
			}
			for _, n := range sizes {
				if !cx.Case("crowd") {
					continue
				}
				w := newWorld(cx, n)
				ts := make([]term, 0, n)
				trim := func() { w.hist = w.hist[:0]; w.log("%d terminals", n) }
				for i := 0; i < n && !w.dead; i++ {
					ts = append(ts, w.setup(i, vers[i%3], i%5 != 4))
					trim()
				}
				for i := 0; i < n && !w.dead; i++ {
					t := ts[i]
					w.loc(i, t.ph, t.ver, someLoc(uint32(i)))
					trim()
				}
				if gHTTP != "" {
					w.apiList()
					for i := 0; i < n && !w.dead; i += 1 + n/64 {
						w.apiGeo(ts[i].ph)
						w.apiQuery(ts[i].ph)
						w.apiSet(ts[i].ph)
						trim()
					}
				}
				// every third one leaves, and comes back through a new connection
				for i := 0; i < n && !w.dead; i += 3 {
					w.peerClose(i)
					trim()
				}
				for i := 0; i < n && !w.dead; i += 3 {
					t := ts[i]
					w.reopen(i, false)
					if w.dead {
						break
					}
					w.reg(i, t.ph, t.pl, t.ver) // refused or not, as the model says
					if d := w.devs[t.ph]; d != nil {
						w.auth(i, t.ph, t.ver, d.code, "auth")
					}
					trim()
				}
				for i := 0; i < n && !w.dead; i += 1 + n/64 {
					w.hb(i, ts[i].ph, ts[i].ver)
					trim()
				}
				for i := 0; i < n && !w.dead; i += 2 {
					w.dereg(i, ts[i].ph, ts[i].ver)
					trim()
				}
				if gHTTP != "" {
					w.apiList()
				}
				w.finish()
			}
		}
	}
	register("C06", "crowd", true, crowd(150))
	register("C07", "crowd", true, crowd(260))
	register("C10", "crowd", true, crowd(150))
	register("C12", "crowd", true, crowd(260))
	register("C13", "crowd", true, crowd(260))
	register("C20", "crowd", true, crowd(260))
}
