package c15

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const unknown = "UNKNOWN"

// TestC15History: add/release histories against a model; every stream's reset count is checked
// after every step.
func TestC15History(t *testing.T) {
	h.Rule("C15 history: 1..60 add/release steps over 1..5 ceremonies and the unattributed group (also releases of ceremonies never seen, nil streams, streams whose reset fails, repeated releases, and bursts of up to 1100 streams of one ceremony or of as many ceremonies); after every step the reset count of every stream is compared with the model; at the end everything is released and must have been reset exactly once; non-trivial: at least one release with recorded streams while another ceremony has streams")
	h.Check(t, 4000, 120000, 30*time.Second, 8*time.Minute, func(rt *rapid.T) {
		sm := p2p.NewStreamMgr()
		groups := append([]string{unknown}, rapid.SliceOfNDistinct(rapid.StringMatching(rapid.SampledFrom([]string{`[a-z0-9]{1,6}`, `[a-f0-9]{2}abcdef[a-f0-9]{2}`, `[ab]{1,3}UNKNOWN`}).Draw(rt, "kind of names")), 1, 5, rapid.ID[string]).Draw(rt, "groups")...)
		type st struct {
			s     *h.Stream
			group string
			want  int
		}
		var all []*st
		interesting := false
		var hist []string
		verify := func(step string) {
			for i, x := range all {
				if got := x.s.ResetCount(); got != x.want {
					rt.Fatalf("after %v (%s): stream %d of %q reset %d times, want %d", hist, step, i, x.group, got, x.want)
				}
			}
		}
		release := func(g string) {
			hist = append(hist, "release "+g)
			own, other := false, false
			for _, x := range all {
				if x.want == 0 {
					if x.group == g || x.group == unknown {
						x.want = 1
						own = true
					} else {
						other = true
					}
				}
			}
			interesting = interesting || (own && other)
			sm.ReleaseStream(g)
			verify("release")
		}
		bursts := 0
		n := rapid.IntRange(1, 60).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			g := rapid.SampledFrom(groups).Draw(rt, "group")
			switch rapid.SampledFrom([]string{"add", "add", "add", "release", "nil", "many"}).Draw(rt, "op") {
			case "many": // a long ceremony, or many of them; rarely, as it takes its time
				if bursts > 0 || rapid.IntRange(0, 9).Draw(rt, "burst") > 0 {
					continue
				}
				bursts++
				k := rapid.SampledFrom([]int{20, 70, 150, 300, 1100}).Draw(rt, "how many")
				spread := rapid.Bool().Draw(rt, "each its own")
				hist = append(hist, fmt.Sprintf("add %d to %s, own %v", k, g, spread))
				h.Label("many")
				for j := 0; j < k; j++ {
					x := &st{s: h.NewStream(nil), group: g}
					if spread {
						x.group = fmt.Sprintf("crowd%d", j)
						groups = append(groups, x.group)
					}
					all = append(all, x)
					sm.AddStream(x.group, x.s)
				}
				verify("many")
			case "add":
				x := &st{s: h.NewStream(nil), group: g}
				if rapid.IntRange(0, 5).Draw(rt, "bad") == 0 {
					x.s.BadReset = true // say, because the peer is gone
					h.Label("failing reset")
				}
				all = append(all, x)
				hist = append(hist, fmt.Sprintf("add %s%v", g, x.s.BadReset))
				sm.AddStream(g, x.s)
				verify("add")
			case "nil":
				sm.AddStream(g, nil)
			case "release":
				if rapid.IntRange(0, 9).Draw(rt, "foreign") == 0 {
					g = "never-seen"
				}
				release(g)
			}
		}
		for _, g := range groups {
			release(g)
		}
		for _, g := range groups { // nothing is retained
			release(g)
		}
		key := ""
		if interesting {
			key = fmt.Sprint(hist)
		}
		h.Seen("history", key, hist)
	})
}

// TestC15Concurrent: streams recorded while releases run; at the end nothing is lost or reset twice.
func TestC15Concurrent(t *testing.T) {
	h.Rule("C15 concurrent: 2..6 goroutines recording streams in 1..3 ceremonies (and unattributed) while 1..3 goroutines release; a release may run inside a Reset; then all are released: every stream reset exactly once, and while only ceremony A is released no stream of another is reset; non-trivial: all")
	h.Check(t, 250, 6000, 30*time.Second, 8*time.Minute, func(rt *rapid.T) {
		sm := p2p.NewStreamMgr()
		groups := []string{unknown, "a", "b", "keep"}
		writers := rapid.IntRange(2, 6).Draw(rt, "writers")
		per := rapid.IntRange(5, 60).Draw(rt, "per")
		releasers := rapid.IntRange(1, 3).Draw(rt, "releasers")
		pick := rapid.SliceOfN(rapid.IntRange(0, 3), writers*per, writers*per).Draw(rt, "pick")
		reent := rapid.Bool().Draw(rt, "addDuringReset")
		streams := make([]*h.Stream, writers*per)
		var late sync.Map
		for i := range streams {
			streams[i] = h.NewStream(nil)
			streams[i].BadReset = i%11 == 3
			if reent && i%7 == 0 {
				g := groups[pick[i]]
				streams[i].OnReset = func() {
					x := h.NewStream(nil)
					late.Store(x, true)
					done := make(chan struct{})
					go func() { sm.AddStream(g, x); close(done) }()
					select { // recording must not depend on the release being over
					case <-done:
					case <-time.After(50 * time.Millisecond):
					}
				}
			}
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for w := 0; w < writers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < per; i++ {
					sm.AddStream(groups[pick[w*per+i]], streams[w*per+i])
				}
			}(w)
		}
		var wr sync.WaitGroup
		for r := 0; r < releasers; r++ {
			wr.Add(1)
			go func(r int) {
				defer wr.Done()
				for {
					select {
					case <-stop:
						return
					default:
						sm.ReleaseStream([]string{"a", "b"}[r%2])
					}
				}
			}(r)
		}
		wg.Wait()
		close(stop)
		wr.Wait()
		for i, s := range streams {
			if groups[pick[i]] == "keep" && s.ResetCount() != 0 {
				rt.Fatalf("stream of a ceremony that was not released was reset")
			}
		}
		for k := 0; k < 4; k++ {
			for _, g := range []string{"a", "b", "keep", unknown} {
				sm.ReleaseStream(g)
			}
		}
		time.Sleep(2 * time.Millisecond)
		sm.ReleaseStream("a")
		sm.ReleaseStream("b")
		sm.ReleaseStream("keep")
		for i, s := range streams {
			if got := s.ResetCount(); got != 1 {
				rt.Fatalf("stream %d of %q reset %d times, want once (writers %d releasers %d)", i, groups[pick[i]], got, writers, releasers)
			}
		}
		h.Seen("concurrent", fmt.Sprint(pick, releasers, reent), map[string]interface{}{"writers": writers, "per": per, "releasers": releasers, "addDuringReset": reent})
	})
}
