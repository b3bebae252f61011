// Package c04 decides C04: only shares signed by their owner for this ceremony reach the
// local party.
package c04

import (
	"encoding/json"
	"fmt"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type share struct {
	owner int
	ident string
	wire  string
	bcast bool
}

var attacks = []string{"bytes", "swapshares", "othersigner", "otherceremony", "boundary", "innersender", "innersendersome", "envelopesender", "roundlabel", "envelopeflag", "innerflag", "bothflags", "duplicate", "addressee", "othermsgident", "nosig", "sigbit", "control"}

// attack turns a genuine situation into a hostile wire message. The attacker holds the keys of
// member atk only, and has seen the genuine messages of the victim.
func attack(rt *rapid.T, e *cer.Env, kind string, atk, victim int, r cer.Round, seed string) *messages.WireMessage {
	rounds := e.Rounds()
	other := rapid.SampledFrom(rounds).Draw(rt, "otherRound")
	bulk := e.Bulk(victim, r, seed)
	w := e.WireOf(victim, victim, r, bulk, e.MsgID)
	switch kind {
	case "bytes":
		b := append([]byte(nil), w.Message...)
		i := rapid.IntRange(0, len(b)-1).Draw(rt, "pos")
		b[i] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit")))
		w.Message = b
	case "swapshares":
		// a well-formed body with other content under the old signature
		buf, err := json.Marshal(e.Bulk(victim, r, seed+"forged"))
		h.Must(err)
		w.Message = buf
	case "othersigner":
		w = e.WireOf(victim, atk, r, e.Bulk(victim, r, seed+"forged"), e.MsgID)
	case "otherceremony":
		w = e.WireOf(victim, victim, r, e.Bulk(victim, r, seed+"oldceremony"), cer.OtherID(rt, e.MsgID))
	case "boundary":
		// the boundary between body and ceremony id shifted
		w = e.WireOf(victim, victim, r, bulk, "")
		sig := cer.Sign(e.Nodes[victim], w.Message, e.MsgID)
		w.Message = append(append([]byte(nil), w.Message...), e.MsgID[:1]...)
		w.Sig = sig
	case "innersender":
		// the attacker signs, envelope in its own name, shares in the victim's name
		for i := range bulk {
			bulk[i] = e.Share(victim, r, bulk[i].MsgIdentifier, seed+"forged")
		}
		w = e.WireOf(atk, atk, r, bulk, e.MsgID)
	case "innersendersome":
		bulk = e.Bulk(atk, r, seed)
		i := rapid.IntRange(0, len(bulk)-1).Draw(rt, "which")
		bulk[i] = e.Share(victim, r, bulk[i].MsgIdentifier, seed+"forged")
		w = e.WireOf(atk, atk, r, bulk, e.MsgID)
	case "envelopesender":
		// the attacker's own signed message under the victim's name
		w = e.WireOf(atk, atk, r, e.Bulk(atk, r, seed+"atk"), e.MsgID)
		w.Routing.From = e.IDs[victim]
	case "roundlabel":
		w = e.WireOf(atk, atk, r, e.Bulk(atk, r, seed+"atk"), e.MsgID)
		if rapid.Bool().Draw(rt, "relay") {
			w = e.WireOf(victim, victim, r, bulk, e.MsgID)
		}
		w.RoundInfo = rapid.SampledFrom([]string{other.Name, "", "x", w.RoundInfo + " ", "0-" + w.RoundInfo}).Draw(rt, "label")
	case "envelopeflag":
		if rapid.Bool().Draw(rt, "own") {
			w = e.WireOf(atk, atk, r, e.Bulk(atk, r, seed+"atk"), e.MsgID)
		}
		rt2 := *w.Routing
		rt2.IsBroadcast = !rt2.IsBroadcast
		w.Routing = &rt2
	case "innerflag":
		b := e.Bulk(atk, r, seed+"atk")
		for i := range b {
			m := *b[i].Routing
			m.IsBroadcast = !m.IsBroadcast
			b[i].Routing = &m
		}
		w = e.WireOf(atk, atk, r, b, e.MsgID)
	case "bothflags":
		b := e.Bulk(atk, r, seed+"atk")
		for i := range b {
			m := *b[i].Routing
			m.IsBroadcast = !m.IsBroadcast
			m.To = []*btss.PartyID{e.IDs[e.Me]}
			b[i].Routing = &m
		}
		w = e.WireOf(atk, atk, r, b, e.MsgID)
		m := *w.Routing
		m.IsBroadcast = !m.IsBroadcast
		w.Routing = &m
	case "duplicate":
		b := e.Bulk(atk, r, seed+"atk")
		b = append(b, e.Share(atk, r, b[0].MsgIdentifier, seed+"second"))
		w = e.WireOf(atk, atk, r, b, e.MsgID)
	case "addressee":
		// the victim's share for somebody else, passed on
		for i := range bulk {
			m := *bulk[i].Routing
			if !r.Broadcast {
				m.To = []*btss.PartyID{e.IDs[atk]}
			}
			bulk[i].Routing = &m
		}
		w = e.WireOf(victim, victim, r, bulk, e.MsgID)
	case "othermsgident":
		b := e.Bulk(atk, r, seed+"atk")
		b[0].MsgIdentifier = "77:77"
		w = e.WireOf(atk, atk, r, b, e.MsgID)
	case "nosig":
		w.Sig = nil
	case "sigbit":
		s := append([]byte(nil), w.Sig...)
		s[rapid.IntRange(0, len(s)-1).Draw(rt, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		w.Sig = s
	case "control":
	}
	return w
}

func TestForgery(t *testing.T) {
	h.Rule("forgery: n=3..7 with an attacker holding one member's key, keygen or keysign batch of 1..3; 1..12 hostile wire messages (altered body, other signer, other ceremony, inner sender/flag/round label/addressee mismatch, duplicate entries, broken signature), broadcasts followed by honest or hostile confirmations, then genuine messages which must be applied; non-trivial: every case (keyed by attacks, rounds, n)")
	h.Check(t, 2500, 60000, 30*time.Second, 15*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		isKeygen := rapid.Bool().Draw(rt, "keygen")
		idents := []string{""}
		if !isKeygen {
			idents = nil
			for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
				idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
			}
		}
		roles := rapid.Permutation([]int{0, 1, 2}).Draw(rt, "roles")
		me, atk, victim := roles[0], roles[1], roles[2]
		e := cer.New(nodes, me, isKeygen, cer.ID, idents, common.TssConfig{})
		threshold := cer.Threshold(n)
		conf := map[string]map[int]bool{}
		var desc []string
		// what each member really signed for this ceremony, in a consistent way
		legit := map[share]string{} // -> slot key
		note := func(w *messages.WireMessage, signer int) {
			var b []common.BulkWireMsg
			if json.Unmarshal(w.Message, &b) != nil || !cer.Verify(e.Nodes[signer], w.Message, w.Sig, e.MsgID) {
				return
			}
			for _, x := range b {
				if x.Routing == nil || x.Routing.From == nil || x.Routing.From.Id != fmt.Sprint(signer) {
					continue
				}
				for _, r := range e.Rounds() {
					if ri, err := common.GetMsgRound(x.WiredBulkMsgs, e.IDs[signer], r.Broadcast); err == nil && ri.RoundMsg == r.Name && r.Broadcast == x.Routing.IsBroadcast {
						if !r.Broadcast && (len(x.Routing.To) != 1 || x.Routing.To[0].Id != fmt.Sprint(me)) {
							continue
						}
						legit[share{signer, x.MsgIdentifier, string(x.WiredBulkMsgs), r.Broadcast}] = fmt.Sprintf("%d-%s", signer, r.Name)
					}
				}
			}
		}
		taken := 0
		applied := map[share]int{}
		check := func(where string) {
			_ = e.Drain()
			got := e.Applied()
			for _, a := range got[taken:] {
				var o int
				fmt.Sscan(a.From, &o)
				s := share{o, a.Ident, a.Wire, a.Broadcast}
				slot, ok := legit[s]
				if !ok {
					rt.Fatalf("%s: a share reached the local party as %q of party %s (broadcast %v), which that party did not sign as such for this ceremony and this node; attacks %v", where, a.Ident, a.From, a.Broadcast, desc)
				}
				if a.Broadcast && len(conf[slot])+1 < threshold {
					rt.Fatalf("%s: broadcast %s applied with %d confirmations of n=%d; attacks %v", where, slot, len(conf[slot])+1, n, desc)
				}
				if applied[s]++; applied[s] > 1 {
					rt.Fatalf("%s: the same share of %s applied twice", where, slot)
				}
			}
			taken = len(got)
		}
		confirm := func(key, hash string, owner int, who int) {
			if who == me || who == owner {
				return
			}
			if conf[key] == nil {
				conf[key] = map[int]bool{}
			}
			conf[key][who] = true
			_ = e.DeliverVer(e.Nodes[who].Peer, key, hash)
		}
		k := rapid.IntRange(1, 12).Draw(rt, "attacks")
		for i := 0; i < k; i++ {
			kind := rapid.SampledFrom(attacks).Draw(rt, "attack")
			r := rapid.SampledFrom(e.Rounds()).Draw(rt, "round")
			seed := fmt.Sprintf("%d", i)
			w := attack(rt, e, kind, atk, victim, r, seed)
			desc = append(desc, kind+"/"+r.Name)
			note(w, victim)
			note(w, atk)
			if rapid.IntRange(0, 3).Draw(rt, "via") == 0 {
				_ = e.Deliver(e.Nodes[atk].Peer, e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: cer.Hash(w.Message), ReqKey: w.GetCacheKey(), RequestType: e.MsgType(), Msg: w}))
			} else {
				_ = e.DeliverWire(atk, w)
			}
			h.Label("attack " + kind)
			check(fmt.Sprintf("attack %d (%s %s)", i, kind, r.Name))
			if rapid.Bool().Draw(rt, "confirmed") {
				owner := victim
				if w.Routing.From.Id == fmt.Sprint(atk) {
					owner = atk
				}
				for p := 0; p < n; p++ {
					confirm(w.GetCacheKey(), cer.Hash(w.Message), owner, p)
					check(fmt.Sprintf("attack %d (%s %s) confirmed by %d", i, kind, r.Name, p))
				}
			}
		}
		h.Seen("forgery", fmt.Sprint(n, isKeygen, len(idents), roles, desc), map[string]interface{}{"n": n, "keygen": isKeygen, "batch": len(idents), "attacks": desc})
		// a member the attacker has not touched, or the victim in the name of whom nothing was ever accepted: genuine
		// messages still go through
		touched := map[string]bool{}
		for s := range legit {
			touched[legit[s]] = true
		}
		for key := range conf {
			touched[key] = true
		}
		for _, r := range e.Rounds() {
			if touched[fmt.Sprintf("%d-%s", victim, r.Name)] {
				continue
			}
			w := e.Wire(victim, r, "genuine")
			note(w, victim)
			_ = e.DeliverWire(victim, w)
			if r.Broadcast {
				for p := 0; p < n; p++ {
					confirm(w.GetCacheKey(), cer.Hash(w.Message), victim, p)
				}
			}
			check("genuine")
			for _, id := range idents {
				s := e.Share(victim, r, id, "genuine/"+id)
				if applied[share{victim, id, string(s.WiredBulkMsgs), r.Broadcast}] != 1 {
					rt.Fatalf("after the attacks %v the genuine %s of the victim is not applied", desc, r.Name)
				}
			}
		}
	})
}
