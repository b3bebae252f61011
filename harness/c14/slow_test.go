package c14

import (
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"

	"verif/h"
	"verif/sim"
)

// TestSlow: a ceremony that is busy for a while still gets everything sent to it.
func TestSlow(t *testing.T) {
	h.Rule("slow: two real nodes on the loopback; 3..24 ceremonies subscribed at once at one of them, each with a channel of capacity 0..3, that first reads after 0..3.5 s and rests up to 1.3 s between reads, and 1..5 messages sent to each at once; each message arrives exactly once at its own ceremony while that stays subscribed; non-trivial: a ceremony with more messages than its channel holds rests for over a second; keyed by everything drawn")
	a, b := h.NodeN(55), h.NodeN(56)
	ca, cb := sim.Comm(a), sim.Comm(b)
	h.Connect(ca.GetHost(), cb.GetHost())
	round := 0
	h.Shrink(5 * time.Second)
	h.Check(t, 4, 400, 30*time.Second, 10*time.Minute, func(rt *rapid.T) {
		round++
		type plan struct {
			id          string
			typ         messages.THORChainTSSMessageType
			cap, n      int
			first, rest int
		}
		var plans []plan
		busy := 0
		for i := rapid.IntRange(3, 24).Draw(rt, "ceremonies"); i > 0; i-- {
			p := plan{fmt.Sprintf("slow%d-%d", round, i), messages.THORChainTSSMessageType(rapid.IntRange(0, 3).Draw(rt, "type")), rapid.IntRange(0, 3).Draw(rt, "cap"), rapid.IntRange(1, 5).Draw(rt, "messages"),
				rapid.SampledFrom([]int{0, 300, 1200, 2100, 3500}).Draw(rt, "first"), rapid.SampledFrom([]int{0, 0, 0, 50, 1300}).Draw(rt, "rest")}
			if p.n > p.cap && (p.first > 1000 || p.rest > 1000) {
				busy++
			}
			plans = append(plans, p)
		}
		h.Case("%+v", plans)
		bad := make([]string, len(plans))
		var wg sync.WaitGroup
		for i, p := range plans {
			i, p := i, p
			wg.Add(1)
			go func() {
				defer wg.Done()
				ch := make(chan *p2p.Message, p.cap)
				ca.SetSubscribe(p.typ, p.id, ch)
				defer ca.CancelSubscribe(p.typ, p.id)
				defer ca.ReleaseStream(p.id)
				defer cb.ReleaseStream(p.id)
				want := map[string]int{}
				for k := 0; k < p.n; k++ {
					w := messages.WrappedMessage{MessageType: p.typ, MsgID: p.id, Payload: []byte(fmt.Sprintf("%s/%d", p.id, k))}
					body, err := json.Marshal(w)
					h.Must(err)
					want[string(body)]++
					cb.Broadcast([]peer.ID{a.Peer}, body, p.id)
				}
				time.Sleep(time.Duration(p.first) * time.Millisecond)
				for k := 0; k < p.n; k++ {
					select {
					case m := <-ch:
						if want[string(m.Payload)] != 1 || m.PeerID != b.Peer {
							bad[i] = fmt.Sprintf("%.200q from %v was not sent, or came twice", m.Payload, m.PeerID)
							return
						}
						want[string(m.Payload)]--
					case <-time.After(15 * time.Second):
						bad[i] = fmt.Sprintf("%d of %d messages arrived", k, p.n)
						return
					}
					time.Sleep(time.Duration(p.rest) * time.Millisecond)
				}
				select {
				case m := <-ch:
					bad[i] = fmt.Sprintf("one message too many: %.200q", m.Payload)
				case <-time.After(20 * time.Millisecond):
				}
			}()
		}
		wg.Wait()
		for i, why := range bad {
			if why != "" {
				rt.Fatalf("ceremony %+v, subscribed all along: %s", plans[i], why)
			}
		}
		key := ""
		if busy > 0 {
			key = fmt.Sprintf("%+v", plans)
		}
		h.Seen("slow", key, map[string]interface{}{"ceremonies": len(plans), "busy": busy})
	})
}
