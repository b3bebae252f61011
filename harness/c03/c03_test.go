// Package c03 decides C03: a broadcast share is applied only once, confirmed, and in the
// majority version.
package c03

import (
	"fmt"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type slot struct {
	owner int
	round cer.Round
	wires []*messages.WireMessage // versions
	hash  []string
	// model
	conf      map[int]int // first confirmation of each peer: version
	ownerConf bool
	delivered map[int]bool
	replyOf   map[int]bool
	applied   map[string]int // ident -> times
}

func (s *slot) key() string { return fmt.Sprintf("%d-%s", s.owner, s.round.Name) }

func history(rt *rapid.T, honest bool) {
	n := rapid.IntRange(2, 7).Draw(rt, "n")
	nodes := h.DistinctNodes(rt, n, 30, "members")
	me := rapid.IntRange(0, n-1).Draw(rt, "me")
	isKeygen := rapid.Bool().Draw(rt, "keygen")
	idents := []string{""}
	if !isKeygen {
		idents = nil
		for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
			idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
		}
	}
	e := cer.New(nodes, me, isKeygen, fmt.Sprintf("msgid-%d", rapid.IntRange(0, 3).Draw(rt, "msgid")), idents, common.TssConfig{})
	threshold := cer.Threshold(n)
	nSlots := rapid.IntRange(1, 3).Draw(rt, "slots")
	versions := 3
	if honest {
		versions = 1
	}
	var slots []*slot
	byKey := map[string]*slot{}
	owner := map[string]*slot{}
	for i := 0; i < nSlots; i++ {
		o := rapid.IntRange(0, n-2).Draw(rt, "owner")
		if o >= me {
			o++
		}
		s := &slot{owner: o, round: rapid.SampledFrom(e.BroadcastRounds()).Draw(rt, "round"), conf: map[int]int{}, delivered: map[int]bool{}, replyOf: map[int]bool{}, applied: map[string]int{}}
		if byKey[s.key()] != nil {
			continue
		}
		for v := 0; v < versions; v++ {
			w := e.Wire(o, s.round, fmt.Sprintf("%s/v%d", s.key(), v))
			s.wires = append(s.wires, w)
			s.hash = append(s.hash, cer.Hash(w.Message))
		}
		byKey[s.key()] = s
		slots = append(slots, s)
		for v, w := range s.wires {
			for _, id := range idents {
				owner[string(e.Share(o, s.round, id, fmt.Sprintf("%s/v%d/%s", s.key(), v, id)).WiredBulkMsgs)] = s
				_ = w
			}
		}
	}
	type ev struct {
		Kind    string
		Slot    int
		From, V int
	}
	var evs []ev
	if honest {
		// every honest message exactly in the order of the network: all arrive, in any order, with repeats
		for si, s := range slots {
			evs = append(evs, ev{"wire", si, s.owner, 0})
			for p := 0; p < n; p++ {
				if p != me && p != s.owner {
					evs = append(evs, ev{"ver", si, p, 0})
				}
			}
		}
		for k := rapid.IntRange(0, 6).Draw(rt, "dups"); k > 0; k-- {
			evs = append(evs, evs[rapid.IntRange(0, len(evs)-1).Draw(rt, "dup")])
		}
		evs = h.Permute(rt, evs, "order")
	} else {
		kinds := []string{"wire", "wire", "ver", "ver", "ver", "ver", "ver", "ver", "over", "outsider", "reply", "spoof"}
		evs = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) ev {
			v := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2}).Draw(rt, "v")
			return ev{rapid.SampledFrom(kinds).Draw(rt, "kind"), rapid.IntRange(0, len(slots)-1).Draw(rt, "slot"), rapid.IntRange(0, n-1).Draw(rt, "from"), v}
		}), 1, 40).Draw(rt, "events")
	}
	requested := map[string]bool{}
	conflicts, appliedAny, repeats := 0, 0, 0
	seen := map[string]bool{}
	taken := 0
	for i, x := range evs {
		s := slots[x.Slot]
		w := s.wires[x.V]
		desc := fmt.Sprint(x)
		if seen[desc] {
			repeats++
		}
		seen[desc] = true
		switch x.Kind {
		case "wire":
			_ = e.DeliverWire(s.owner, w)
			s.delivered[x.V] = true
		case "ver":
			if x.From == me {
				continue
			}
			if x.From == s.owner {
				s.ownerConf = true
			} else if _, ok := s.conf[x.From]; !ok {
				s.conf[x.From] = x.V
			}
			_ = e.DeliverVer(e.Nodes[x.From].Peer, s.key(), s.hash[x.V])
		case "over":
			s.ownerConf = true
			_ = e.DeliverVer(e.Nodes[s.owner].Peer, s.key(), s.hash[x.V])
		case "outsider":
			_ = e.DeliverVer(h.NodeN(100+x.From).Peer, s.key(), s.hash[x.V])
		case "spoof":
			// a member who confirms in the name of others
			if x.From == me || x.From == s.owner {
				continue
			}
			if _, ok := s.conf[x.From]; !ok {
				s.conf[x.From] = x.V
			}
			for p := 0; p < n; p++ {
				_ = e.Deliver(e.Nodes[x.From].Peer, e.Wrap(e.VerType(), &messages.BroadcastConfirmMessage{P2PID: e.Nodes[p].Peer.String(), Key: s.key(), Hash: s.hash[x.V]}))
			}
		case "reply":
			_ = e.Deliver(e.Nodes[x.From].Peer, e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: s.hash[x.V], ReqKey: s.key(), RequestType: e.MsgType(), Msg: w}))
			if requested[s.hash[x.V]] {
				s.delivered[x.V] = true
				delete(requested, s.hash[x.V])
			}
		}
		for _, o := range e.Drain() {
			if o.Ctl != nil && o.Ctl.Msg == nil {
				requested[o.Ctl.ReqHash] = true
			}
		}
		got := e.Applied()
		for _, a := range got[taken:] {
			sl := owner[a.Wire]
			if sl == nil {
				rt.Fatalf("event %d %v: a share nobody sent was applied: %+v", i, x, a)
			}
			appliedAny++
			sl.applied[a.Ident]++
			if sl.applied[a.Ident] > 1 {
				rt.Fatalf("event %d %v: share %s of message %q applied %d times", i, x, sl.key(), a.Ident, sl.applied[a.Ident])
			}
			v := -1
			for c := range sl.wires {
				if string(e.Share(sl.owner, sl.round, a.Ident, fmt.Sprintf("%s/v%d/%s", sl.key(), c, a.Ident)).WiredBulkMsgs) == a.Wire {
					v = c
				}
			}
			if v < 0 || !sl.delivered[v] {
				rt.Fatalf("event %d %v: version %d of %s applied, never received", i, x, v, sl.key())
			}
			if len(sl.conf)+1 < threshold {
				rt.Fatalf("event %d %v: %s applied with confirmations %v + own of n=%d, threshold %d; events %v", i, x, sl.key(), sl.conf, n, threshold, evs[:i+1])
			}
			votes := map[int]int{v: 1}
			for _, c := range sl.conf {
				votes[c]++
			}
			for c, k := range votes {
				if k > votes[v] {
					rt.Fatalf("event %d %v: version %d of %s applied with %d votes, version %d has %d; events %v", i, x, v, sl.key(), votes[v], c, k, evs[:i+1])
				}
			}
		}
		taken = len(got)
		// as soon as: no owner confirmation, no conflict, own copy, threshold
		for _, sl := range slots {
			if sl.ownerConf || len(sl.delivered) != 1 {
				continue
			}
			v := -1
			for c := range sl.delivered {
				v = c
			}
			conflict := false
			for _, c := range sl.conf {
				conflict = conflict || c != v
			}
			if conflict {
				conflicts++
				continue
			}
			if len(sl.conf)+1 >= threshold {
				for _, id := range idents {
					if sl.applied[id] != 1 {
						rt.Fatalf("after event %d %v: %s (message %q) not applied although confirmations %v + own reach threshold %d of n=%d; events %v", i, x, sl.key(), id, sl.conf, threshold, n, evs[:i+1])
					}
				}
			}
		}
	}
	key, group := "", "adversarial"
	if honest {
		group = "honest"
	}
	if appliedAny > 0 && (conflicts > 0 || repeats > 0 || honest) {
		key = fmt.Sprint(n, me, isKeygen, len(idents), nSlots, evs)
	}
	h.Seen(group, key, map[string]interface{}{"n": n, "me": me, "keygen": isKeygen, "batch": len(idents), "events": fmt.Sprint(evs), "applied": appliedAny, "conflict states": conflicts})
	if appliedAny > 0 {
		h.Label("applied")
	}
	if conflicts > 0 {
		h.Label("with conflict")
	}
	if honest {
		for _, s := range slots {
			for _, id := range idents {
				if s.applied[id] != 1 {
					rt.Fatalf("honest delivery of %s: message %q applied %d times", s.key(), id, s.applied[id])
				}
			}
		}
	}
}

func TestHonest(t *testing.T) {
	h.Rule("honest: n=2..7, keygen or keysign batch of 1..3, 1..3 broadcast slots; every wire message and every confirmation arrives, in a generated order with repeats; every case non-trivial (applied), keyed by the whole history")
	h.Check(t, 700, 20000, 15*time.Second, 8*time.Minute, func(rt *rapid.T) { history(rt, true) })
}

func TestAdversarial(t *testing.T) {
	h.Rule("adversarial: up to 40 events over 1..3 slots with 3 versions each: wire messages, confirmations (repeated, changed, by the owner, by outsiders, in the name of others), replies asked for or not; non-trivial: something was applied and there was a conflict or a repeat")
	h.Check(t, 2500, 60000, 25*time.Second, 15*time.Minute, func(rt *rapid.T) { history(rt, false) })
}
