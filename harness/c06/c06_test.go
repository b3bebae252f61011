// Package c06 decides C06: blame for a bad share names only its owner and carries verifiable evidence.
package c06

import (
	"fmt"
	"strings"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// checkBlame: only the given members are named, evidence verifies.
func checkBlame(rt *rapid.T, e *cer.Env, reason string, allowed map[int]bool, what string) map[int]int {
	b := e.C.GetBlameMgr().GetBlame()
	named := map[int]int{}
	for _, nd := range b.BlameNodes {
		who := -1
		for i, m := range e.Nodes {
			if m.Bech32 == nd.Pubkey {
				who = i
			}
		}
		if who < 0 || !allowed[who] {
			rt.Fatalf("%s: member %d (%s) is blamed (me=%d), only %v may be; blame %s", what, who, nd.Pubkey, e.Me, allowed, b)
		}
		named[who]++
		if len(nd.BlameData) > 0 || len(nd.BlameSignature) > 0 {
			if !cer.Verify(e.Nodes[who], nd.BlameData, nd.BlameSignature, e.MsgID) {
				rt.Fatalf("%s: the evidence against %d does not verify under its key: %q sig %x", what, who, nd.BlameData, nd.BlameSignature)
			}
		}
	}
	if len(named) > 0 && b.FailReason != reason {
		rt.Fatalf("%s: reason %q want %q", what, b.FailReason, reason)
	}
	return named
}

// TestRejected: the local party rejects shares, naming culprits.
func TestRejected(t *testing.T) {
	h.Rule("rejected: n=3..7, keygen or keysign batch of 1..3, 1..2 bad members; all members' shares of the rounds arrive in order with a generated interleaving; the local party rejects either at once (naming the sender) or with the last share of a round (naming the bad members in any order, as tss-lib's round checks do, or nobody) or with the first bad share (naming all bad members); non-trivial: somebody was blamed, keyed by the history")
	h.Check(t, 1500, 30000, 25*time.Second, 12*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		isKeygen := rapid.Bool().Draw(rt, "keygen")
		idents := []string{""}
		if !isKeygen {
			idents = nil
			for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
				idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
			}
		}
		e := cer.New(nodes, me, isKeygen, cer.ID, idents, common.TssConfig{})
		var others []int
		for i := 0; i < n; i++ {
			if i != me {
				others = append(others, i)
			}
		}
		bad := map[int]bool{}
		blameOrder := h.Permute(rt, others, "bad")[:rapid.IntRange(1, 2).Draw(rt, "nbad")]
		for _, i := range blameOrder {
			bad[i] = true
		}
		mode := rapid.SampledFrom([]string{"sender", "round", "round", "early", "nobody"}).Draw(rt, "mode")
		badRound := rapid.IntRange(0, len(e.Rounds())-1).Draw(rt, "badRound")
		badIdent := map[string]bool{rapid.SampledFrom(idents).Draw(rt, "badIdent"): true}
		if rapid.Bool().Draw(rt, "allIdents") {
			for _, id := range idents {
				badIdent[id] = true
			}
		}
		count := map[string]int{}
		rejected := map[int]bool{}
		ids := e.IDs
		lock := make(chan struct{}, 1)
		e.Reject = func(ident string, wire []byte, from *btss.PartyID) []*btss.PartyID {
			lock <- struct{}{}
			defer func() { <-lock }()
			ri, err := common.GetMsgRound(wire, from, true)
			if err != nil || ri.RoundMsg != e.Rounds()[badRound].Name || !badIdent[ident] {
				return nil
			}
			count[ident]++
			switch mode {
			case "sender":
				var i int
				fmt.Sscan(from.Id, &i)
				if bad[i] {
					rejected[i] = true
					return []*btss.PartyID{from}
				}
			case "round", "early":
				// early: with the first bad share, so the shares of others it names may not be there yet
				var sender int
				fmt.Sscan(from.Id, &sender)
				if mode == "round" && count[ident] == n-1 || mode == "early" && bad[sender] {
					var out []*btss.PartyID
					for _, i := range blameOrder {
						rejected[i] = true
						out = append(out, ids[i])
					}
					return out
				}
			case "nobody":
				if count[ident] == n-1 {
					return []*btss.PartyID{}
				}
			}
			return nil
		}
		var desc []string
		for ri, r := range e.Rounds() {
			if ri > badRound {
				break
			}
			type ev struct{ kind, from, owner int }
			var evs []ev
			for _, o := range others {
				evs = append(evs, ev{0, o, o})
				if r.Broadcast {
					for _, p := range others {
						if p != o {
							evs = append(evs, ev{1, p, o})
						}
					}
				}
			}
			for _, x := range h.Permute(rt, evs, "order") {
				w := e.Wire(x.owner, r, r.Name+fmt.Sprint(x.owner))
				if x.kind == 0 {
					_ = e.DeliverWire(x.owner, w)
				} else {
					_ = e.DeliverVer(e.Nodes[x.from].Peer, w.GetCacheKey(), cer.Hash(w.Message))
				}
				desc = append(desc, fmt.Sprintf("%d%v", ri, x))
			}
			_ = e.Drain()
			for _, a := range e.Applied() {
				_ = a
			}
		}
		what := fmt.Sprintf("n=%d me=%d bad=%v mode=%s round=%s idents=%v", n, me, bad, mode, e.Rounds()[badRound].Name, badIdent)
		allowed := bad
		if mode == "nobody" {
			allowed = map[int]bool{}
		}
		named := checkBlame(rt, e, blame.TssBrokenMsg, allowed, what)
		key := ""
		if len(named) > 0 {
			key = fmt.Sprint(what, desc)
		}
		h.Seen("rejected", key, map[string]interface{}{"case": what})
		if mode == "nobody" {
			return
		}
		if len(rejected) == 0 {
			rt.Fatalf("%s: no bad share was ever applied", what)
		}
		for i := range rejected {
			if named[i] == 0 {
				rt.Fatalf("%s: member %d, whose share was rejected, is not blamed: %s", what, i, e.C.GetBlameMgr().GetBlame())
			}
		}
		if e.C.GetBlameMgr().GetBlame().FailReason != blame.TssBrokenMsg {
			rt.Fatalf("%s: reason %q", what, e.C.GetBlameMgr().GetBlame().FailReason)
		}
		// a rejected broadcast is on record, so its evidence is there
		if e.Rounds()[badRound].Broadcast {
			for _, nd := range e.C.GetBlameMgr().GetBlame().BlameNodes {
				if mode == "sender" && len(nd.BlameSignature) == 0 {
					rt.Fatalf("%s: no evidence for a rejected broadcast", what)
				}
				if len(nd.BlameSignature) > 0 && !strings.Contains(string(nd.BlameData), "WiredBulkMsgs") {
					rt.Fatalf("%s: the evidence is not the message: %q", what, nd.BlameData)
				}
			}
		}
	})
}

// TestConfirmation: the owner tampers with the confirmation of its broadcast.
func TestConfirmation(t *testing.T) {
	h.Rule("confirmation: n=3..7, up to 3 broadcasts; one owner either confirms its own share or sends different versions to the (honest) members; honest members confirm what they got, all in generated order; non-trivial: the owner was blamed, keyed by the history")
	h.Check(t, 2000, 40000, 25*time.Second, 12*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		e := cer.New(nodes, me, rapid.Bool().Draw(rt, "keygen"), cer.ID, []string{""}, common.TssConfig{})
		threshold := cer.Threshold(n)
		var others []int
		for i := 0; i < n; i++ {
			if i != me {
				others = append(others, i)
			}
		}
		evil := rapid.SampledFrom(others).Draw(rt, "evil")
		mode := rapid.SampledFrom([]string{"own", "versions", "both"}).Draw(rt, "mode")
		r := rapid.SampledFrom(e.BroadcastRounds()).Draw(rt, "round")
		type ev struct {
			kind     string
			from, ow int
			v        int
		}
		var evs []ev
		votes := map[int]int{}
		for _, o := range others {
			if o != evil && rapid.Bool().Draw(rt, "absent") {
				continue
			}
			for _, p := range append([]int{me}, others...) {
				if p == o {
					continue
				}
				v := 0
				if o == evil && mode != "own" {
					v = rapid.IntRange(0, 3).Draw(rt, "v")
				}
				if o == evil {
					votes[v]++
				}
				if p == me {
					evs = append(evs, ev{"wire", o, o, v})
				} else {
					evs = append(evs, ev{"ver", p, o, v})
				}
			}
		}
		if mode != "versions" {
			evs = append(evs, ev{"ver", evil, evil, rapid.IntRange(0, 1).Draw(rt, "ownv")})
		}
		evs = h.Permute(rt, evs, "order")
		ownBefore, applied, asked := false, false, false
		for _, x := range evs {
			w := e.Wire(x.ow, r, fmt.Sprintf("v%d", x.v))
			if x.kind == "wire" {
				_ = e.DeliverWire(x.ow, w)
			} else {
				if x.from == evil && x.ow == evil && !applied {
					ownBefore = true
				}
				_ = e.DeliverVer(e.Nodes[x.from].Peer, w.GetCacheKey(), cer.Hash(w.Message))
			}
			for _, a := range e.Applied() {
				applied = applied || a.From == fmt.Sprint(evil)
			}
			for _, o := range e.Drain() {
				// the own copy may be given up for another version, which nobody here sends
				asked = asked || (o.Ctl != nil && strings.HasPrefix(o.Ctl.ReqKey, fmt.Sprint(evil)+"-"))
			}
		}
		what := fmt.Sprintf("n=%d me=%d evil=%d mode=%s events=%v", n, me, evil, mode, evs)
		named := checkBlame(rt, e, blame.HashCheckFail, map[int]bool{evil: true}, what)
		key := ""
		if named[evil] > 0 {
			key = what
			h.Label("owner blamed")
		}
		h.Seen("confirmation", key, map[string]interface{}{"case": what})
		for _, nd := range e.C.GetBlameMgr().GetBlame().BlameNodes {
			if len(nd.BlameSignature) == 0 {
				rt.Fatalf("%s: no evidence", what)
			}
		}
		best := 0
		for _, k := range votes {
			if k > best {
				best = k
			}
		}
		if named[evil] == 0 && (mode == "own" || !asked) && (ownBefore || (best < threshold-1 && !applied)) {
			rt.Fatalf("%s: the owner is not blamed (own confirmation before use %v, best version %d votes, threshold %d)", what, ownBefore, best, threshold)
		}
	})
}

// TestForgedNotBlamed: messages the member did not sign never bring blame on it.
func TestForgedNotBlamed(t *testing.T) {
	h.Rule("framed: forged or foreign messages in the name of a member (wrong signer, other ceremony, altered, a unicast meant for another party) with a local party that rejects everything; nobody may be blamed; every case counts, keyed by kind/round/n")
	h.Check(t, 800, 10000, 10*time.Second, 3*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		roles := rapid.Permutation([]int{0, 1, 2}).Draw(rt, "roles")
		me, atk, victim := roles[0], roles[1], roles[2]
		e := cer.New(nodes, me, rapid.Bool().Draw(rt, "keygen"), cer.ID, []string{""}, common.TssConfig{})
		e.Reject = func(ident string, wire []byte, from *btss.PartyID) []*btss.PartyID { return []*btss.PartyID{from} }
		r := rapid.SampledFrom(e.Rounds()).Draw(rt, "round")
		kind := rapid.SampledFrom([]string{"signer", "ceremony", "altered", "addressee"}).Draw(rt, "kind")
		var w *messages.WireMessage
		switch kind {
		case "signer":
			w = e.WireOf(victim, atk, r, e.Bulk(victim, r, "x"), e.MsgID)
		case "ceremony":
			w = e.WireOf(victim, victim, r, e.Bulk(victim, r, "x"), cer.OtherID(rt, e.MsgID))
		case "altered":
			w = e.Wire(victim, r, "x")
			w.Message = e.Wire(victim, r, "y").Message
		case "addressee":
			if r.Broadcast {
				return
			}
			b := e.Bulk(victim, r, "x")
			b[0].Routing.To = []*btss.PartyID{e.IDs[atk]}
			w = e.WireOf(victim, victim, r, b, e.MsgID)
		}
		_ = e.DeliverWire(atk, w)
		for p := 0; p < n; p++ {
			if p != me && p != victim {
				_ = e.DeliverVer(e.Nodes[p].Peer, w.GetCacheKey(), cer.Hash(w.Message))
			}
		}
		h.Seen("framed", fmt.Sprint(n, kind, r.Name, e.Keygen, roles, h.Bech32s(nodes)), map[string]interface{}{"n": n, "kind": kind, "round": r.Name})
		if b := e.C.GetBlameMgr().GetBlame(); len(b.BlameNodes) != 0 {
			rt.Fatalf("%s %s: %s is blamed", kind, r.Name, b)
		}
	})
}
