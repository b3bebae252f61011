// Package c14 decides C14: messages reach only the ceremony and message type subscribed for them.
package c14

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"

	"verif/h"
	"verif/party"
	"verif/sim"
)

func TestMain(m *testing.M) { h.Main(m) }

const tssProto protocol.ID = "/p2p/tss"

// slot is a message type and ceremony at a node.
type slot struct {
	node int
	typ  messages.THORChainTSSMessageType
	id   string
}

// sub is one subscription: the channel and when it was in force.
type sub struct {
	slot
	n    int
	ch   chan *p2p.Message
	mu   sync.Mutex
	got  []*p2p.Message
	from int // the steps in which it was in force
	to   int
	stop chan struct{}
}

func (s *sub) run() {
	for {
		select {
		case m := <-s.ch:
			s.mu.Lock()
			s.got = append(s.got, m)
			s.mu.Unlock()
		case <-s.stop:
			return
		}
	}
}

// sent is one message on its way to one node.
type sent struct {
	step   int
	from   int
	to     slot
	raw    []byte
	expect *sub
}

func TestRouting(t *testing.T) {
	h.Rule("routing: three real nodes and a raw host on the loopback; histories of 2..14 steps over 2..6 slots (type and ceremony id; ids that are prefixes of each other, empty, unicode): subscribe, replace, cancel (also twice, also unknown), and batches of up to 12 concurrent messages (to a drawn set of nodes, which may hold the sender, an unreachable peer or nobody; through Broadcast or the broadcast channel, or raw with any type number) while slots not addressed in that step are subscribed and cancelled; every message must reach exactly the subscription in force, once, with sender and bytes; non-trivial: at least one delivery and one message without subscriber or one replaced or cancelled subscription, keyed by the history")
	nodes := []*h.Node{h.NodeN(50), h.NodeN(51), h.NodeN(52), h.NodeN(53), h.NodeN(54)}
	var comms []*p2p.Communication
	for i := 0; i < 3; i++ {
		comms = append(comms, sim.Comm(nodes[i]))
		for j := 0; j < i; j++ {
			h.Connect(comms[i].GetHost(), comms[j].GetHost())
		}
	}
	round := 0
	h.Check(t, 1500, 40000, 40*time.Second, 15*time.Minute, func(rt *rapid.T) {
		round++
		raw := h.RawHost(nodes[3])
		defer raw.Close()
		for i := range comms {
			h.Connect(raw, comms[i].GetHost())
		}
		base := fmt.Sprintf("%d~", round)
		ids := []string{base + "a", base + "ab", base + "", base + "é\"<", base + "A"}
		var slots []slot
		for k := rapid.IntRange(2, 6).Draw(rt, "slots"); k > 0; k-- {
			slots = append(slots, slot{rapid.IntRange(0, 2).Draw(rt, "node"), messages.THORChainTSSMessageType(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5}).Draw(rt, "type")), rapid.SampledFrom(ids).Draw(rt, "id")})
		}
		var subs []*sub
		var mu sync.Mutex
		current := map[slot]*sub{}
		var all []*sent
		var hist []string
		used := map[string]bool{}
		subscribe := func(step int, s slot) {
			n := &sub{slot: s, ch: make(chan *p2p.Message, 64), stop: make(chan struct{}), from: step, to: 1 << 30}
			mu.Lock()
			n.n = len(subs)
			if o := current[s]; o != nil {
				o.to = step
			}
			current[s] = n
			subs = append(subs, n)
			mu.Unlock()
			go n.run()
			comms[s.node].SetSubscribe(s.typ, s.id, n.ch)
		}
		cancel := func(step int, s slot) {
			mu.Lock()
			if o := current[s]; o != nil {
				o.to = step
			}
			delete(current, s)
			mu.Unlock()
			comms[s.node].CancelSubscribe(s.typ, s.id)
		}
		defer func() {
			for _, s := range subs {
				comms[s.node].CancelSubscribe(s.typ, s.id)
				close(s.stop)
			}
			for i := range comms {
				for id := range used {
					comms[i].ReleaseStream(id)
				}
				comms[i].ReleaseStream("nothing")
			}
		}()
		var streams []network.Stream
		defer func() {
			for _, s := range streams {
				_ = s.Reset()
			}
		}()
		serial := 0
		changed, dropped := 0, 0
		steps := rapid.IntRange(2, 14).Draw(rt, "steps")
		for step := 0; step < steps; step++ {
			switch op := rapid.SampledFrom([]string{"subscribe", "subscribe", "cancel", "send", "send", "send"}).Draw(rt, "op"); op {
			case "subscribe":
				s := rapid.SampledFrom(slots).Draw(rt, "slot")
				if current[s] != nil {
					changed++
				}
				hist = append(hist, fmt.Sprintf("subscribe%v", s))
				subscribe(step, s)
			case "cancel":
				s := rapid.SampledFrom(slots).Draw(rt, "slot")
				if current[s] != nil {
					changed++
				}
				hist = append(hist, fmt.Sprintf("cancel%v", s))
				cancel(step, s)
			case "send":
				addressed := map[slot]bool{}
				var jobs []func()
				for k := rapid.IntRange(1, 12).Draw(rt, "messages"); k > 0; k-- {
					s := rapid.SampledFrom(slots).Draw(rt, "slot")
					from := rapid.IntRange(0, 3).Draw(rt, "from")
					typ := s.typ
					if rapid.IntRange(0, 9).Draw(rt, "oddtype") == 0 {
						typ = messages.THORChainTSSMessageType(rapid.IntRange(0, 255).Draw(rt, "anytype"))
					}
					id := s.id
					if rapid.IntRange(0, 9).Draw(rt, "oddid") == 0 {
						id = rapid.SampledFrom(ids).Draw(rt, "anyid")
					}
					to := map[int]bool{s.node: true}
					for i := 0; i < 3; i++ {
						if rapid.IntRange(0, 2).Draw(rt, "also") == 0 {
							to[i] = true
						}
					}
					serial++
					w := messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte(fmt.Sprintf("%s%d-%s", base, serial, h.Bytes(uint64(serial), serial%40)))}
					body, err := json.Marshal(w)
					h.Must(err)
					used[id] = true
					var ps []peer.ID
					var tos []int
					for i := 0; i < 3; i++ {
						if to[i] {
							ps = append(ps, nodes[i].Peer)
							tos = append(tos, i)
							if i == from {
								continue
							}
							x := &sent{step: step, from: from, to: slot{i, typ, id}, raw: body}
							x.expect = current[x.to]
							if x.expect == nil {
								dropped++
							}
							all = append(all, x)
							addressed[x.to] = true
						}
					}
					how := rapid.SampledFrom([]string{"broadcast", "channel"}).Draw(rt, "how")
					if from == 3 {
						how = "raw"
						for _, i := range tos {
							i := i
							jobs = append(jobs, func() {
								ctx, done := context.WithTimeout(context.Background(), 10*time.Second)
								defer done()
								st, err := raw.NewStream(ctx, nodes[i].Peer, tssProto)
								if err != nil {
									h.Infra("stream: %v", err)
								}
								_, err = st.Write(party.Frame(body))
								h.Must(err)
								mu.Lock()
								streams = append(streams, st)
								mu.Unlock()
							})
						}
					} else {
						if rapid.IntRange(0, 6).Draw(rt, "ghost") == 0 {
							ps = append([]peer.ID{nodes[4].Peer}, ps...)
							how += "+unreachable"
						}
						if how[0] == 'b' {
							jobs = append(jobs, func() { comms[from].Broadcast(ps, body, id) })
						} else {
							jobs = append(jobs, func() {
								comms[from].BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: w, PeersID: ps}
							})
						}
					}
					hist = append(hist, fmt.Sprintf("%d>%v:%d/%s(%s)", from, tos, typ, id, how))
				}
				// meanwhile other slots change
				for _, s := range slots {
					s := s
					if !addressed[s] && rapid.IntRange(0, 2).Draw(rt, "meanwhile") == 0 {
						addressed[s] = true
						if rapid.Bool().Draw(rt, "meansub") {
							hist = append(hist, fmt.Sprintf("|subscribe%v", s))
							jobs = append(jobs, func() { subscribe(step, s) })
						} else {
							hist = append(hist, fmt.Sprintf("|cancel%v", s))
							jobs = append(jobs, func() { cancel(step, s) })
						}
						changed++
					}
				}
				h.Case("%v", hist)
				var wg sync.WaitGroup
				for _, j := range jobs {
					j := j
					wg.Add(1)
					go func() { defer wg.Done(); j() }()
				}
				wg.Wait()
				if rapid.IntRange(0, 9).Draw(rt, "nobody") == 0 {
					comms[rapid.IntRange(0, 2).Draw(rt, "nobodyfrom")].Broadcast(nil, []byte("x"), "x")
				}
				// what is due arrives before the next change
				deadline := time.Now().Add(20 * time.Second)
				for _, x := range all {
					for x.step == step && x.expect != nil && x.expect.count(x) == 0 {
						if time.Now().After(deadline) {
							rt.Fatalf("%v: message %s from %d to %v never reached its subscription", hist, x.raw, x.from, x.to)
						}
						time.Sleep(200 * time.Microsecond)
					}
				}
			}
		}
		time.Sleep(15 * time.Millisecond)
		delivered := 0
		for _, s := range subs {
			s.mu.Lock()
			got := append([]*p2p.Message{}, s.got...)
			s.mu.Unlock()
			seen := map[string]bool{}
			for _, m := range got {
				var x *sent
				for _, y := range all {
					if bytes.Equal(y.raw, m.Payload) && y.to == s.slot {
						x = y
					}
				}
				if x == nil {
					rt.Fatalf("%v: subscription %v was given %.200q, which nobody sent to it", hist, s.slot, m.Payload)
				}
				if seen[string(m.Payload)] {
					rt.Fatalf("%v: message delivered twice: %.200q", hist, m.Payload)
				}
				seen[string(m.Payload)] = true
				if m.PeerID != nodes[x.from].Peer {
					rt.Fatalf("%v: message of %d is attributed to %v", hist, x.from, m.PeerID)
				}
				if x.expect == nil && s.from > x.step {
					continue // it had no subscriber when it was sent, and was slow
				}
				if x.expect != s {
					rt.Fatalf("%v: message %.200q reached subscription %d (steps %d..%d) of %v, not the one in force", hist, m.Payload, s.n, s.from, s.to, s.slot)
				}
				delivered++
			}
		}
		key := ""
		if delivered > 0 && (dropped > 0 || changed > 0) {
			key = fmt.Sprint(hist)
		}
		sort.Slice(subs, func(a, b int) bool { return subs[a].n < subs[b].n })
		h.Seen("routing", key, map[string]interface{}{"history": hist, "delivered": delivered, "without subscriber": dropped})
	})
}

func (s *sub) count(x *sent) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, m := range s.got {
		if bytes.Equal(m.Payload, x.raw) {
			n++
		}
	}
	return n
}
