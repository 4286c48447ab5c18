package zzverif

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Ctx is one run of one check over its case space (or one shard of it).
type Ctx struct {
	prop     string
	tier     string
	shard, n int64
	replay   string // "space:idx" or ""
	res      Result
	states   map[uint64]struct{}
	outcomes map[string]int64
	curSpace string
	curIdx   int64
	curDesc  string
	counters map[string]int64
	deadline time.Time
	progress *os.File
	failed   bool // current case already failed
}

type Violation struct {
	Space string   `json:"space"`
	Idx   int64    `json:"idx"`
	Tags  []string `json:"tags"`
	Msg   string   `json:"msg"`
	Desc  string   `json:"desc"`
}

type Result struct {
	Check       string           `json:"check"`
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	StateHashes []uint64         `json:"state_hashes,omitempty"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Spaces      map[string]int64 `json:"spaces"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Violations  []Violation      `json:"violations"`
	Foreign     map[string]int64 `json:"foreign"` // mismatches that belong to other properties
	Samples     []string         `json:"samples"`
	Capped      bool             `json:"capped"`
	Partial     bool             `json:"partial"`
	Done        bool             `json:"done"`
	Stall       string           `json:"stall,omitempty"`
	Assumptions []string         `json:"assumptions,omitempty"`
}

var (
	progressCnt atomic.Int64
	realStart   = time.Now()
)

func (cx *Ctx) thorough() bool { return cx.tier == "thorough" }

// pick returns q in the quick tier and t in the thorough tier.
func (cx *Ctx) pick(q, t int) int {
	if cx.thorough() {
		return t
	}
	return q
}

// Case announces the next case of a space and says whether this run executes it.
func (cx *Ctx) Case(space string) bool {
	idx := cx.counters[space]
	cx.counters[space] = idx + 1
	if cx.replay != "" {
		if fmt.Sprintf("%s:%d", space, idx) != cx.replay {
			return false
		}
	} else {
		if idx%cx.n != cx.shard {
			return false
		}
		if cx.res.Capped || len(cx.res.Violations) >= 8 {
			return false
		}
		if idx&15 == 0 && realNow().After(cx.deadline) {
			cx.res.Capped = true
			return false
		}
	}
	if idx&1023 == cx.shard && cx.curDesc != "" {
		cx.sample(cx.curDesc)
	}
	cx.curSpace, cx.curIdx, cx.curDesc = space, idx, ""
	cx.failed = false
	cx.res.Cases++
	cx.res.Spaces[space]++
	progressCnt.Add(1)
	if cx.progress != nil {
		cx.progress.WriteAt([]byte(fmt.Sprintf("%-70s\n", fmt.Sprintf("%s:%d", space, idx))), 0)
	}
	return true
}

// stopped reports that enumeration can end early.
func (cx *Ctx) stopped() bool {
	return cx.replay == "" && (cx.res.Capped || len(cx.res.Violations) >= 8)
}

func (cx *Ctx) step() { cx.res.Transitions++; progressCnt.Add(1) }

func (cx *Ctx) state(s string) {
	if len(cx.states) >= 400000 { // enough to report; the count becomes a lower bound
		return
	}
	h := fnv.New64a()
	io.WriteString(h, s)
	cx.states[h.Sum64()] = struct{}{}
}

func (cx *Ctx) outcome(s string) { cx.outcomes[s]++ }

func (cx *Ctx) sample(s string) {
	if len(cx.res.Samples) < 3 {
		cx.res.Samples = append(cx.res.Samples, s)
	}
}

// Fail records a mismatch. Only mismatches tagged with the property under check count.
func (cx *Ctx) Fail(tags string, format string, a ...any) {
	cx.failed = true
	ts := strings.Fields(tags)
	mine := false
	for _, t := range ts {
		if t == cx.prop || t == "ANY" {
			mine = true
		}
	}
	msg := fmt.Sprintf(format, a...)
	if !mine {
		for _, t := range ts {
			cx.res.Foreign[t]++
		}
		if os.Getenv("VDEBUG") != "" {
			fmt.Fprintf(os.Stderr, "FOREIGN %v %s | %s\n", ts, msg, cx.curDesc)
		}
		return
	}
	if len(cx.res.Violations) < 8 {
		cx.res.Violations = append(cx.res.Violations, Violation{cx.curSpace, cx.curIdx, ts, msg, cx.curDesc})
	}
}

type checkFn func(cx *Ctx)

// checks: property -> list of parts. bubble parts run inside the synctest bubble.
type part struct {
	name   string
	bubble bool
	fn     checkFn
}

var checks = map[string][]part{}

func register(prop, name string, bubble bool, fn checkFn) {
	checks[prop] = append(checks[prop], part{name, bubble, fn})
}

func realNow() time.Time { return realStart.Add(time.Duration(realMono())) }

// real monotonic nanoseconds, usable inside the bubble (time.Now is virtual there).
var realTick atomic.Int64

func realMono() int64 { return realTick.Load() }

func TestVerif(t *testing.T) {
	prop := os.Getenv("VCHECK")
	if prop == "" {
		t.Skip("no VCHECK")
	}
	level := zerolog.DebugLevel
	if os.Getenv("VLOG") == "warn" {
		level = zerolog.WarnLevel
	}
	log.Logger = zerolog.New(io.Discard).Level(level)
	shard, n := int64(0), int64(1)
	if s := os.Getenv("VSHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &shard, &n)
	}
	dl := 600
	if s := os.Getenv("VDEADLINE"); s != "" {
		dl, _ = strconv.Atoi(s)
	}
	cx := &Ctx{prop: prop, tier: os.Getenv("VTIER"), shard: shard, n: n, replay: os.Getenv("VREPLAY"),
		states: map[uint64]struct{}{}, outcomes: map[string]int64{}, counters: map[string]int64{},
		deadline: realStart.Add(time.Duration(dl) * time.Second)}
	cx.res.Check = prop
	cx.res.Spaces = map[string]int64{}
	cx.res.Foreign = map[string]int64{}
	out := os.Getenv("VOUT")
	if p := os.Getenv("VPROGRESS"); p != "" {
		cx.progress, _ = os.Create(p)
	}
	write := func() {
		cx.res.States = int64(len(cx.states))
		{
			for h := range cx.states {
				cx.res.StateHashes = append(cx.res.StateHashes, h)
			}
			sort.Slice(cx.res.StateHashes, func(i, j int) bool { return cx.res.StateHashes[i] < cx.res.StateHashes[j] })
		}
		cx.res.Outcomes = cx.outcomes
		if len(cx.res.Samples) == 0 && cx.curSpace != "" {
			cx.sample(strings.TrimSpace(fmt.Sprintf("case %d of space %s %s", cx.curIdx, cx.curSpace, cx.curDesc)))
		}
		b, _ := json.Marshal(cx.res)
		if out == "" {
			cx.res.StateHashes = nil
			b, _ = json.MarshalIndent(cx.res, "", " ")
			os.Stdout.Write(append(b, '\n'))
		} else {
			os.WriteFile(out, b, 0o644)
		}
	}
	// real clock + watchdog, outside any bubble
	go func() {
		base := time.Now()
		last, lastAt := int64(-1), time.Now()
		limit := 60 * time.Second
		if cx.replay != "" {
			limit = 25 * time.Second
		}
		for {
			time.Sleep(20 * time.Millisecond)
			realTick.Store(int64(time.Since(base)) + int64(base.Sub(realStart)))
			if c := progressCnt.Load(); c != last {
				last, lastAt = c, time.Now()
			} else if time.Since(lastAt) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				b, _ := json.Marshal(map[string]any{"check": prop, "stall": string(buf), "space": cx.curSpace, "idx": cx.curIdx, "desc": cx.curDesc})
				if out != "" {
					os.WriteFile(out, b, 0o644)
				}
				fmt.Fprintf(os.Stderr, "STALL at %s:%d\n%s\n", cx.curSpace, cx.curIdx, buf)
				os.Exit(3)
			}
		}
	}()
	parts := checks[os.Getenv("VENGINE")+prop]
	if len(parts) == 0 {
		t.Fatalf("unknown check %s", prop)
	}
	only := os.Getenv("VPART")
	for _, p := range parts {
		if !p.bubble && (only == "" || only == p.name || p.name == "http") {
			p.fn(cx)
		}
	}
	anyBubble := false
	for _, p := range parts {
		anyBubble = anyBubble || p.bubble && (only == "" || only == p.name)
	}
	if anyBubble {
		synctest.Test(t, func(t *testing.T) {
			startWorld()
			for _, p := range parts {
				if p.bubble && (only == "" || only == p.name) {
					p.fn(cx)
				}
			}
			cx.res.Done = true
			write()
			os.Exit(0)
		})
	}
	cx.res.Done = true
	write()
	os.Exit(0)
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
