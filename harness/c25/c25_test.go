// Package c25 decides C25: every local share is sent out exactly once, to the right peers, signed.
package c25

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"gitlab.com/thorchain/tss/go-tss/common"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type out struct {
	ident int
	round cer.Round
	to    int // -1: broadcast
	seed  string
}

func TestOutgoing(t *testing.T) {
	h.Rule("outgoing: n=2..7, keygen or keysign batch of 1..5; the local parties emit all their shares of a generated prefix of rounds in a generated interleaving of the batch (each message's own order kept); the outgoing messages are compared after every emission; non-trivial: batch>1 with at least one complete group, or a keygen, keyed by the interleaving")
	h.Check(t, 1500, 30000, 30*time.Second, 10*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(2, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		isKeygen := rapid.IntRange(0, 3).Draw(rt, "keygen") == 0
		idents := []string{""}
		if !isKeygen {
			idents = nil
			for i := rapid.IntRange(1, 5).Draw(rt, "batch"); i > 0; i-- {
				idents = append(idents, fmt.Sprintf("%d:%d", 7000+i, i))
			}
		}
		e := cer.New(nodes, me, isKeygen, fmt.Sprintf("id-%d", rapid.IntRange(0, 9).Draw(rt, "msgid")), idents, common.TssConfig{})
		// per message of the batch, the shares in protocol order; unicasts of a round in any order
		queues := make([][]out, len(idents))
		for i := range idents {
			last := rapid.IntRange(1, len(e.Rounds())).Draw(rt, "rounds")
			for _, r := range e.Rounds()[:last] {
				if r.Broadcast {
					queues[i] = append(queues[i], out{i, r, -1, fmt.Sprintf("%d/%s", i, r.Name)})
					continue
				}
				var us []out
				for p := 0; p < n; p++ {
					if p != me {
						us = append(us, out{i, r, p, fmt.Sprintf("%d/%s/%d", i, r.Name, p)})
					}
				}
				queues[i] = append(queues[i], h.Permute(rt, us, "unicasts")...)
			}
		}
		type group struct {
			round string
			to    int
		}
		pending := map[group][]out{}
		var order []string
		sent := 0
		left := 0
		for _, q := range queues {
			left += len(q)
		}
		for ; left > 0; left-- {
			i := rapid.IntRange(0, len(queues)-1).Draw(rt, "next")
			for len(queues[i]) == 0 {
				i = (i + 1) % len(queues)
			}
			x := queues[i][0]
			queues[i] = queues[i][1:]
			order = append(order, fmt.Sprintf("%d.%s.%d", x.ident, x.round.Name, x.to))
			// a party object of its own per message of the batch, as in keysign
			from := btss.NewPartyID(e.IDs[me].Id, idents[x.ident], e.IDs[me].KeyInt())
			from.Index = e.IDs[me].Index
			var to []*btss.PartyID
			if x.to >= 0 {
				p := btss.NewPartyID(e.IDs[x.to].Id, "", e.IDs[x.to].KeyInt())
				p.Index = e.IDs[x.to].Index
				to = []*btss.PartyID{p}
			}
			if err := e.C.ProcessOutCh(cer.Message(from, to, x.round, []byte(x.seed)), e.MsgType()); err != nil {
				rt.Fatalf("ProcessOutCh(%v): %v", x, err)
			}
			g := group{x.round.Name, x.to}
			pending[g] = append(pending[g], x)
			msgs := e.Drain()
			if len(pending[g]) < len(idents) {
				if len(msgs) != 0 {
					rt.Fatalf("after %v: %d messages sent although only %d of %d shares are there", order, len(msgs), len(pending[g]), len(idents))
				}
				continue
			}
			if len(msgs) != 1 {
				rt.Fatalf("after %v: %d messages sent, want 1", order, len(msgs))
			}
			sent++
			m := msgs[0]
			want := e.Peers(me)
			if x.to >= 0 {
				want = []string{e.Nodes[x.to].Peer.String()}
			}
			if !reflect.DeepEqual(m.To, want) {
				rt.Fatalf("after %v: sent to %v, want %v", order, m.To, want)
			}
			if m.MsgID != e.MsgID || m.Type != e.MsgType() || m.Wire == nil {
				rt.Fatalf("after %v: sent as %v for %q", order, m.Type, m.MsgID)
			}
			w := m.Wire
			if !cer.Verify(e.Nodes[me], w.Message, w.Sig, e.MsgID) {
				rt.Fatalf("after %v: bad signature", order)
			}
			if w.RoundInfo != x.round.Name || w.Routing == nil || w.Routing.From == nil || w.Routing.From.Id != fmt.Sprint(me) || w.Routing.IsBroadcast != x.round.Broadcast {
				rt.Fatalf("after %v: envelope %q %+v", order, w.RoundInfo, w.Routing)
			}
			if x.to >= 0 && (len(w.Routing.To) != 1 || w.Routing.To[0].Id != fmt.Sprint(x.to)) {
				rt.Fatalf("after %v: envelope to %v", order, w.Routing.To)
			}
			var b []common.BulkWireMsg
			if err := json.Unmarshal(w.Message, &b); err != nil {
				rt.Fatalf("after %v: body: %v", order, err)
			}
			var got, exp []string
			for _, s := range b {
				if s.Routing == nil || s.Routing.From == nil || s.Routing.From.Id != fmt.Sprint(me) || s.Routing.IsBroadcast != x.round.Broadcast {
					rt.Fatalf("after %v: share routing %+v", order, s.Routing)
				}
				got = append(got, s.MsgIdentifier+"="+string(s.WiredBulkMsgs))
			}
			for _, s := range pending[g] {
				exp = append(exp, idents[s.ident]+"="+string(cer.ShareBytes(e.IDs[me], s.round, []byte(s.seed))))
			}
			sort.Strings(got)
			sort.Strings(exp)
			if !reflect.DeepEqual(got, exp) {
				rt.Fatalf("after %v: shares %q want %q", order, got, exp)
			}
			delete(pending, g)
			// it is accepted by an addressee
			if sent <= 3 {
				for p := 0; p < n; p++ {
					if p == me || (x.to >= 0 && x.to != p) {
						continue
					}
					r := cer.New(nodes, p, isKeygen, e.MsgID, idents, common.TssConfig{})
					if err := r.DeliverWire(me, w); err != nil {
						rt.Fatalf("after %v: party %d rejects the message: %v", order, p, err)
					}
					if x.to >= 0 || cer.Threshold(n) <= 1 {
						if len(r.Applied()) != len(idents) {
							rt.Fatalf("after %v: party %d applied %d shares of %d", order, p, len(r.Applied()), len(idents))
						}
					}
					break
				}
			}
		}
		key := ""
		if sent > 0 && (isKeygen || len(idents) > 1) {
			key = fmt.Sprint(n, me, len(idents), order)
		}
		h.Seen("outgoing", key, map[string]interface{}{"n": n, "keygen": isKeygen, "batch": len(idents), "order": fmt.Sprint(order), "sent": sent})
	})
}

// TestDone: the completion notice goes to every other member, tagged with the ceremony.
func TestDone(t *testing.T) {
	h.Rule("done: n=2..7; the completion notice goes to exactly the other members")
	h.Check(t, 200, 2000, 5*time.Second, time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(2, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		e := cer.New(nodes, me, rapid.Bool().Draw(rt, "keygen"), "the-id", []string{""}, common.TssConfig{})
		if err := e.C.NotifyTaskDone(); err != nil {
			rt.Fatalf("%v", err)
		}
		m := e.Drain()
		h.Seen("done", fmt.Sprint(n, me, h.Bech32s(nodes)), map[string]int{"n": n, "me": me})
		if len(m) != 1 || m[0].Done == nil || !m[0].Done.TaskDone || m[0].MsgID != "the-id" || !reflect.DeepEqual(m[0].To, e.Peers(me)) {
			rt.Fatalf("sent %+v", m)
		}
	})
}
