// Package c26 decides C26: a node obtains a broadcast it lacks from its peers and serves those it has.
package c26

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func setup(rt *rapid.T, minN int) (*cer.Env, int, []string) {
	n := rapid.IntRange(minN, 7).Draw(rt, "n")
	nodes := h.DistinctNodes(rt, n, 30, "members")
	me := rapid.IntRange(0, n-1).Draw(rt, "me")
	isKeygen := rapid.Bool().Draw(rt, "keygen")
	idents := []string{""}
	if !isKeygen {
		idents = nil
		for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
			idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
		}
	}
	return cer.New(nodes, me, isKeygen, cer.ID, idents, common.TssConfig{}), n, idents
}

func otherThan(rt *rapid.T, n int, label string, not ...int) int {
	var c []int
	for i := 0; i < n; i++ {
		ok := true
		for _, x := range not {
			ok = ok && x != i
		}
		if ok {
			c = append(c, i)
		}
	}
	return rapid.SampledFrom(c).Draw(rt, label)
}

// TestObtain: confirmations for versions of one broadcast arrive; the owner's message may arrive in a version too.
func TestObtain(t *testing.T) {
	h.Rule("obtain: n=3..7, confirmations of up to 3 versions of one broadcast in generated order, at a generated point this node's own copy; every request must name a version no other confirmed version outnumbers and go to exactly the peers that confirmed it; once threshold-1 confirmations of a strict majority version are in and it is not the own copy, a request must have been sent; replies: from a peer asked, with the version asked for, altered, of another round, not asked for; non-trivial: a request was sent, keyed by the history")
	h.Check(t, 2500, 50000, 25*time.Second, 12*time.Minute, func(rt *rapid.T) {
		e, n, idents := setup(rt, 3)
		threshold := cer.Threshold(n)
		owner := otherThan(rt, n, "owner", e.Me)
		r := rapid.SampledFrom(e.BroadcastRounds()).Draw(rt, "round")
		var wires []*messages.WireMessage
		var hash []string
		for v := 0; v < 3; v++ {
			w := e.Wire(owner, r, fmt.Sprintf("v%d", v))
			wires = append(wires, w)
			hash = append(hash, cer.Hash(w.Message))
		}
		key := wires[0].GetCacheKey()
		var peers []int
		for p := 0; p < n; p++ {
			if p != e.Me && p != owner {
				peers = append(peers, p)
			}
		}
		peers = h.Permute(rt, peers, "order")
		ownAt := rapid.IntRange(-1, len(peers)).Draw(rt, "ownAt")
		ownV := rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "ownV")
		conf := map[int]int{}
		var desc []string
		outstanding := map[string]bool{}
		requests := 0
		own := -1
		applied := func() bool { return len(e.Applied()) > 0 }
		check := func(what string) {
			desc = append(desc, what)
			asked := ""
			for _, o := range e.Drain() {
				if o.Ctl == nil {
					continue
				}
				if o.Ctl.Msg != nil {
					rt.Fatalf("%v: an answer was sent to %v without a question", desc, o.To)
				}
				if applied() {
					// a confirmation that came after the share was applied
					outstanding[o.Ctl.ReqHash] = true
					continue
				}
				requests++
				asked = o.Ctl.ReqHash
				outstanding[asked] = true
				if o.Ctl.ReqKey != key || o.Ctl.RequestType != e.MsgType() || o.MsgID != e.MsgID {
					rt.Fatalf("%v: request %+v", desc, o.Ctl)
				}
				var want []string
				votes := map[string]int{}
				if own >= 0 {
					votes[hash[own]]++
				}
				for p, v := range conf {
					votes[hash[v]]++
					if hash[v] == o.Ctl.ReqHash {
						want = append(want, e.Nodes[p].Peer.String())
					}
				}
				sort.Strings(want)
				if len(want) == 0 && len(o.To) == 0 {
					continue
				}
				if !reflect.DeepEqual(o.To, want) {
					rt.Fatalf("%v: request for %.6s went to %v, it was confirmed by %v (confirmations %v)", desc, o.Ctl.ReqHash, o.To, want, conf)
				}
				for x, k := range votes {
					if k > votes[o.Ctl.ReqHash] {
						rt.Fatalf("%v: request for a version with %d votes, %.6s has %d", desc, votes[o.Ctl.ReqHash], x, k)
					}
				}
			}
			if applied() {
				return
			}
			votes := map[int]int{}
			if own >= 0 {
				votes[own]++
			}
			for _, v := range conf {
				votes[v]++
			}
			for v, k := range votes {
				strict := true
				for x, l := range votes {
					strict = strict && (x == v || l < k)
				}
				if strict && k >= threshold-1 && v != own && (own < 0 || len(conf)+1 >= threshold) && !outstanding[hash[v]] {
					rt.Fatalf("%v: version %d has %d confirmations (threshold %d) and was not asked for", desc, v, k, threshold)
				}
			}
			_ = asked
		}
		for i := 0; i <= len(peers); i++ {
			if i == ownAt {
				own = ownV
				_ = e.DeliverWire(owner, wires[ownV])
				check(fmt.Sprintf("own v%d", ownV))
			}
			if i < len(peers) {
				v := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(rt, "v")
				conf[peers[i]] = v
				_ = e.DeliverVer(e.Nodes[peers[i]].Peer, key, hash[v])
				check(fmt.Sprintf("%d confirms v%d", peers[i], v))
			}
		}
		k := ""
		if requests > 0 {
			k = fmt.Sprint(n, e.Me, owner, r.Name, len(idents), desc)
			h.Label("a request was sent")
		}
		h.Seen("obtain", k, map[string]interface{}{"n": n, "round": r.Name, "batch": len(idents), "history": desc, "requests": requests})
		if applied() {
			return
		}
		// replies
		had := len(e.Applied())
		asker := otherThan(rt, n, "replier", e.Me)
		reply := func(w *messages.WireMessage, reqHash string) {
			_ = e.Deliver(e.Nodes[asker].Peer, e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: reqHash, ReqKey: key, RequestType: e.MsgType(), Msg: w}))
		}
		for v := range wires {
			if !outstanding[hash[v]] {
				// not asked for
				reply(wires[v], hash[v])
				if len(e.Applied()) != had {
					rt.Fatalf("%v: version %d was used although it was not asked for", desc, v)
				}
			}
		}
		bad := rapid.SampledFrom([]string{"other version", "forged signature", "other round", "other owner"}).Draw(rt, "bad")
		var asked []int
		for v := range wires {
			if outstanding[hash[v]] {
				asked = append(asked, v)
			}
		}
		if len(asked) != 1 {
			return
		}
		v := asked[0]
		switch bad {
		case "other version":
			reply(wires[(v+1)%3], hash[v])
		case "forged signature":
			w := *wires[v]
			w.Sig = cer.Sign(e.Nodes[asker], w.Message, e.MsgID)
			if asker == owner {
				w.Sig = append([]byte(nil), w.Sig[1:]...)
			}
			buf, err := json.Marshal(w)
			h.Must(err)
			_ = buf
			reply(&w, hash[v])
			// the question is used up: nothing more to check
			if len(e.Applied()) != had {
				rt.Fatalf("%v: a reply with a forged signature was used", desc)
			}
			return
		case "other round":
			for _, x := range e.BroadcastRounds() {
				if x.Name != r.Name {
					reply(e.Wire(owner, x, "v0"), hash[v])
				}
			}
		case "other owner":
			if n > 3 {
				reply(e.Wire(otherThan(rt, n, "oo", e.Me, owner), r, "v0"), hash[v])
			}
		}
		if len(e.Applied()) != had {
			rt.Fatalf("%v: a reply (%s) other than the one asked for was used", desc, bad)
		}
		own = v
		reply(wires[v], hash[v])
		votes := map[int]int{v: 1}
		for _, c := range conf {
			votes[c]++
		}
		best := true
		for c, k := range votes {
			best = best && (c == v || k < votes[v])
		}
		if best && len(conf)+1 >= threshold && votes[v] >= threshold-1 {
			if len(e.Applied()) != had+len(idents) {
				rt.Fatalf("%v: the reply that was asked for (v%d) was not used; confirmations %v threshold %d", desc, v, conf, threshold)
			}
			h.Label("obtained and applied")
			for _, o := range e.Drain() {
				if o.Ver != nil && len(o.To) > 0 {
					rt.Fatalf("%v: a share obtained from a peer is confirmed to %v", desc, o.To)
				}
			}
		}
	})
}

// TestServe: asked for a broadcast.
func TestServe(t *testing.T) {
	h.Rule("serve: a node that accepted a generated subset of broadcasts (others received but unconfirmed, or unknown) is asked for keys by members; non-trivial: at least one answered and one not, keyed by the history")
	h.Check(t, 1500, 30000, 20*time.Second, 8*time.Minute, func(rt *rapid.T) {
		e, n, idents := setup(rt, 4)
		type item struct {
			w     *messages.WireMessage
			state string
		}
		items := map[string]*item{}
		var keys []string
		for o := 0; o < n; o++ {
			if o == e.Me {
				continue
			}
			for _, r := range e.BroadcastRounds() {
				w := e.Wire(o, r, "x")
				it := &item{w, rapid.SampledFrom([]string{"accepted", "unconfirmed", "unknown", "confirmedonly", "unicastof"}).Draw(rt, "state")}
				items[w.GetCacheKey()] = it
				keys = append(keys, w.GetCacheKey())
				key, hash := w.GetCacheKey(), cer.Hash(w.Message)
				switch it.state {
				case "accepted":
					_ = e.DeliverWire(o, w)
					for p := 0; p < n; p++ {
						if p != e.Me && p != o {
							_ = e.DeliverVer(e.Nodes[p].Peer, key, hash)
						}
					}
				case "unconfirmed":
					if cer.Threshold(n) < 2 {
						it.state = "unknown"
						continue
					}
					_ = e.DeliverWire(o, w)
				case "confirmedonly":
					_ = e.DeliverVer(e.Nodes[otherThan(rt, n, "c", e.Me, o)].Peer, key, hash)
				}
			}
			// unicast shares are secret and never served
			for _, r := range e.Rounds() {
				if !r.Broadcast {
					w := e.Wire(o, r, "secret")
					_ = e.DeliverWire(o, w)
					items[w.GetCacheKey()] = &item{w, "unicast"}
					keys = append(keys, w.GetCacheKey())
				}
			}
		}
		_ = e.Drain()
		answered, silent := 0, 0
		var desc []string
		for k := rapid.IntRange(1, 8).Draw(rt, "questions"); k > 0; k-- {
			key := rapid.SampledFrom(append(append([]string(nil), keys...), "", "x", keys[0]+" ")).Draw(rt, "key")
			who := otherThan(rt, n, "asker", e.Me)
			reqHash := ""
			it := items[key]
			if it != nil {
				reqHash = cer.Hash(it.w.Message)
			}
			desc = append(desc, fmt.Sprintf("%d asks %q", who, key))
			_ = e.Deliver(e.Nodes[who].Peer, e.Wrap(messages.TSSControlMsg, &messages.TssControl{ReqHash: reqHash, ReqKey: key, RequestType: e.MsgType()}))
			outs := e.Drain()
			if it == nil || it.state != "accepted" {
				silent++
				if len(outs) != 0 {
					rt.Fatalf("%v: answered %+v to %v", desc, outs[0].Ctl, outs[0].To)
				}
				continue
			}
			answered++
			if len(outs) != 1 || outs[0].Ctl == nil || outs[0].Ctl.Msg == nil || !reflect.DeepEqual(outs[0].To, []string{e.Nodes[who].Peer.String()}) {
				rt.Fatalf("%v: sent %+v", desc, outs)
			}
			c := outs[0].Ctl
			a, _ := json.Marshal(it.w)
			b, _ := json.Marshal(c.Msg)
			if string(a) != string(b) || c.ReqHash != reqHash || c.ReqKey != key || c.RequestType != e.MsgType() {
				rt.Fatalf("%v: answered with %s (%+v), want %s", desc, b, c, a)
			}
			if !cer.Verify(e.Nodes[atoi(c.Msg.Routing.From.Id)], c.Msg.Message, c.Msg.Sig, e.MsgID) {
				rt.Fatalf("%v: the answer is not signed by the owner", desc)
			}
			// the peer that asked can use it
			q := cer.New(e.Nodes, who, e.Keygen, e.MsgID, idents, common.TssConfig{})
			o := atoi(c.Msg.Routing.From.Id)
			if o == who {
				continue
			}
			for p := 0; p < n; p++ {
				if p != who && p != o {
					_ = q.DeliverVer(q.Nodes[p].Peer, key, reqHash)
				}
			}
			if err := q.Deliver(e.Nodes[e.Me].Peer, q.Wrap(messages.TSSControlMsg, c)); err != nil {
				rt.Fatalf("%v: the asking peer rejects the answer: %v", desc, err)
			}
			if len(q.Applied()) != len(idents) {
				rt.Fatalf("%v: the asking peer applied %d of %d shares of the answer", desc, len(q.Applied()), len(idents))
			}
		}
		k := ""
		if answered > 0 && silent > 0 {
			k = fmt.Sprint(n, e.Me, desc)
		}
		h.Seen("serve", k, map[string]interface{}{"n": n, "questions": desc, "answered": answered, "silent": silent})
	})
}

func atoi(s string) int {
	var i int
	_, err := fmt.Sscan(s, &i)
	h.Must(err)
	return i
}
