// Package c05 decides C05: no bytes from a peer can crash a node or stop a healthy ceremony's processing.
package c05

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/sim"
)

func TestMain(m *testing.M) { h.Main(m) }

// junk makes a malformed message of a peer: a message it could have sent, spoiled at one place or more.
func junk(rt *rapid.T, e *cer.Env, byz int) ([]byte, string) {
	n := len(e.Nodes)
	rng := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(rt, "jseed"))))
	r := rapid.SampledFrom(e.Rounds()).Draw(rt, "jround")
	any := rapid.IntRange(0, n-1).Draw(rt, "jowner")
	var w *messages.WrappedMessage
	kind := rapid.SampledFrom([]string{"own", "own", "own", "other", "ver", "request", "reply", "done", "type"}).Draw(rt, "jkind")
	seed := fmt.Sprint("junk", rng.Int63())
	ownWire := func() *messages.WireMessage {
		wm := e.Wire(byz, r, seed)
		if rapid.IntRange(0, 4).Draw(rt, "jinner") > 0 { // spoil the signed part and sign it
			body, _ := sim.JunkJSON(rng, wm.Message)
			wm.Message, wm.Sig = body, cer.Sign(e.Nodes[byz], body, e.MsgID)
		}
		return wm
	}
	switch kind {
	case "own":
		w = e.Wrap(e.MsgType(), ownWire())
	case "other":
		w = e.Wrap(e.MsgType(), e.WireOf(any, byz, r, e.Bulk(any, r, seed), e.MsgID))
	case "ver":
		w = e.Wrap(e.VerType(), &messages.BroadcastConfirmMessage{P2PID: e.Nodes[any].Peer.String(), Key: rapid.SampledFrom([]string{e.Wire(byz, r, seed).GetCacheKey(), "", "-", "0-", "x-" + r.Name, fmt.Sprint(byz, "-nothing")}).Draw(rt, "jkey"), Hash: cer.Hash([]byte(seed))})
	case "request":
		w = e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: cer.Hash([]byte(seed)), ReqKey: e.Wire(any, r, seed).GetCacheKey(), RequestType: rapid.SampledFrom([]messages.THORChainTSSMessageType{0, 1, 2, 3, 4, 5, 6, 200}).Draw(rt, "jreq")})
	case "reply":
		wm := ownWire()
		w = e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: cer.Hash(wm.Message), ReqKey: "x", RequestType: e.MsgType(), Msg: wm})
	case "done":
		w = e.Wrap(messages.TSSTaskDone, &messages.TssTaskNotifier{TaskDone: rapid.Bool().Draw(rt, "jdone")})
	case "type":
		w = e.Wrap(messages.THORChainTSSMessageType(rapid.IntRange(0, 255).Draw(rt, "jtype")), ownWire())
	}
	buf, err := json.Marshal(w)
	h.Must(err)
	where := ""
	switch rapid.IntRange(0, 6).Draw(rt, "jhow") {
	case 0:
		return sim.JunkBytes(rng, buf), kind + " raw"
	case 1, 2, 3:
		for k := rapid.IntRange(1, 3).Draw(rt, "jtimes"); k > 0; k-- {
			var p string
			buf, p = sim.JunkJSON(rng, buf)
			where += p + ";"
		}
	}
	return buf, kind + " " + r.Name + " " + where
}

// receive is how a node takes a message from the network: the outer decoding, then the engine.
func receive(rt *rapid.T, e *cer.Env, from peer.ID, raw []byte, what string) {
	var w messages.WrappedMessage
	if json.Unmarshal(raw, &w) != nil {
		return
	}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		_ = e.Deliver(from, &w)
	}()
	select {
	case r := <-done:
		if r != nil {
			rt.Fatalf("%s makes the node panic: %v\n%.2000s", what, r, raw)
		}
	case <-time.After(60 * time.Second):
		rt.Fatalf("%s blocks the node\n%.2000s", what, raw)
	}
}

// TestEngine: malformed messages among valid ones.
func TestEngine(t *testing.T) {
	h.Rule("engine: n=4..7, keygen or keysign batch of 1..3, a malicious member and an outsider send 1..25 malformed messages (a message of each kind the malicious member could have sent, with 0..3 JSON values at any depth replaced, removed, repeated or swapped, the signed part spoiled before signing, or raw garbage), shuffled among the valid messages of all honest members for one to three rounds; every valid share of the honest members must be applied exactly once per signed message, and no call may panic or block; non-trivial: at least one malformed message decoded to a message, keyed by the history")
	h.Check(t, 2500, 60000, 35*time.Second, 15*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(4, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n+1, 30, "members")
		out := nodes[n]
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		isKeygen := rapid.Bool().Draw(rt, "keygen")
		idents := []string{""}
		if !isKeygen {
			idents = nil
			for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
				idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
			}
		}
		e := cer.New(nodes[:n], me, isKeygen, cer.ID, idents, common.TssConfig{})
		byz := (me + rapid.IntRange(1, n-1).Draw(rt, "byz")) % n
		type ev struct {
			junk        bool
			from, owner int
			ver         bool
			round       int
		}
		var evs []ev
		var rounds []cer.Round
		for _, k := range h.Permute(rt, seq(len(e.Rounds())), "rounds")[:rapid.IntRange(1, 3).Draw(rt, "nrounds")] {
			ri := len(rounds)
			rounds = append(rounds, e.Rounds()[k])
			for o := 0; o < n; o++ {
				if o == me || o == byz {
					continue
				}
				evs = append(evs, ev{from: o, owner: o, round: ri})
				if rounds[ri].Broadcast {
					for p := 0; p < n; p++ {
						if p != me && p != o && p != byz {
							evs = append(evs, ev{from: p, owner: o, ver: true, round: ri})
						}
					}
				}
			}
		}
		for k := rapid.IntRange(1, 25).Draw(rt, "njunk"); k > 0; k-- {
			evs = append(evs, ev{junk: true})
		}
		evs = h.Permute(rt, evs, "order")
		want := map[string]bool{}
		decoded := 0
		desc := fmt.Sprintf("n=%d me=%d byz=%d keygen=%v idents=%v", n, me, byz, isKeygen, idents)
		for _, x := range evs {
			if x.junk {
				raw, what := junk(rt, e, byz)
				from := e.Nodes[byz].Peer
				if rapid.IntRange(0, 3).Draw(rt, "outsider") == 0 {
					from = out.Peer
				}
				h.Case("%s %s\n%s", desc, what, raw)
				desc += " | " + what
				var w messages.WrappedMessage
				if json.Unmarshal(raw, &w) == nil {
					decoded++
				}
				receive(rt, e, from, raw, what)
			} else {
				w := e.Wire(x.owner, rounds[x.round], "good")
				var m *messages.WrappedMessage
				if x.ver {
					m = e.Wrap(e.VerType(), &messages.BroadcastConfirmMessage{Key: w.GetCacheKey(), Hash: cer.Hash(w.Message)})
				} else {
					m = e.Wrap(e.MsgType(), w)
					for _, b := range e.Bulk(x.owner, rounds[x.round], "good") {
						want[b.MsgIdentifier+"|"+string(b.WiredBulkMsgs)+"|"+e.IDs[x.owner].Id] = true
					}
				}
				raw, err := json.Marshal(m)
				h.Must(err)
				desc += fmt.Sprintf(" | %d>%d.%d%v", x.from, x.owner, x.round, x.ver)
				receive(rt, e, e.Nodes[x.from].Peer, raw, "a valid message")
			}
			_ = e.Drain()
		}
		key := ""
		if decoded > 0 {
			key = desc
		}
		h.Seen("engine", key, map[string]interface{}{"case": desc[:min(len(desc), 1500)]})
		got := map[string]int{}
		for _, a := range e.Applied() {
			k := a.Ident + "|" + a.Wire + "|" + a.From
			got[k]++
		}
		for k := range want {
			if got[k] != 1 {
				rt.Fatalf("a valid share was applied %d times: %.80q\n%s", got[k], k, desc)
			}
		}
	})
}

// TestFailedParty: a local party that failed is not run on.
func TestFailedParty(t *testing.T) {
	h.Rule("failed party: keysign batch of 2..3, n=3..6; the local party of one signature rejects a drawn share; shares arrive in generated order and grouping; the failed signature takes no further share, the other signatures of the batch take all of theirs; every case non-trivial, keyed by the history")
	h.Check(t, 400, 8000, 8*time.Second, 4*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 6).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		var idents []string
		for i := rapid.IntRange(2, 3).Draw(rt, "batch"); i > 0; i-- {
			idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
		}
		e := cer.New(nodes, me, false, cer.ID, idents, common.TssConfig{})
		bad := (me + rapid.IntRange(1, n-1).Draw(rt, "bad")) % n
		badIdent := rapid.SampledFrom(idents).Draw(rt, "ident")
		var unicast []cer.Round
		for _, r := range e.Rounds() {
			if !r.Broadcast {
				unicast = append(unicast, r)
			}
		}
		rounds := h.Permute(rt, unicast, "rounds")
		badRound := rapid.SampledFrom(rounds).Draw(rt, "round")
		failed := 0
		lock := make(chan struct{}, 1)
		after := map[string]int{}
		e.Reject = func(ident string, wire []byte, from *btss.PartyID) []*btss.PartyID {
			lock <- struct{}{}
			defer func() { <-lock }()
			if failed > 0 {
				after[ident]++
			}
			ri, err := common.GetMsgRound(wire, from, false)
			h.Must(err)
			if failed == 0 && ident == badIdent && ri.RoundMsg == badRound.Name && from.Id == e.IDs[bad].Id {
				failed++
				return []*btss.PartyID{from}
			}
			return nil
		}
		type ev struct{ round, owner int }
		var evs []ev
		for ri := range rounds {
			for o := 0; o < n; o++ {
				if o != me {
					evs = append(evs, ev{ri, o})
				}
			}
		}
		evs = h.Permute(rt, evs, "order")
		expect := 0 // shares of each other signature that arrive after the failure, from others
		seenBad := false
		for _, x := range evs {
			if seenBad && x.owner != bad {
				expect++
			}
			_ = e.DeliverWire(x.owner, e.Wire(x.owner, rounds[x.round], "s"))
			if x.owner == bad && rounds[x.round].Name == badRound.Name {
				seenBad = true
			}
		}
		what := fmt.Sprintf("n=%d me=%d bad=%d ident=%s round=%s idents=%v evs=%v", n, me, bad, badIdent, badRound.Name, idents, evs)
		h.Seen("failed party", what, map[string]interface{}{"case": what})
		if after[badIdent] > 0 {
			rt.Fatalf("%s: the failed signature was given %d more shares", what, after[badIdent])
		}
		for _, id := range idents {
			// the shares of the same bulk as the rejected one may come before or after it
			if d := after[id] - expect; id != badIdent && d != 0 && d != 1 {
				rt.Fatalf("%s: signature %s was given %d further shares of %d", what, id, after[id], expect)
			}
		}
	})
}

func seq(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}
