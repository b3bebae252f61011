// Package c07 decides C07: timeout blame names exactly the parties whose shares are missing.
package c07

import (
	"fmt"
	"reflect"
	"sort"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func names(rt *rapid.T, e *cer.Env, what string, nodes []blame.Node) []int {
	out := []int{}
	for _, nd := range nodes {
		who := -1
		for i, m := range e.Nodes {
			if m.Bech32 == nd.Pubkey {
				who = i
			}
		}
		if who < 0 {
			rt.Fatalf("%s: stranger %s named", what, nd.Pubkey)
		}
		for _, x := range out {
			if x == who {
				rt.Fatalf("%s: %d named twice", what, who)
			}
		}
		if who == e.Me {
			rt.Fatalf("%s: the node names itself", what)
		}
		out = append(out, who)
	}
	sort.Ints(out)
	return out
}

func TestRecord(t *testing.T) {
	h.Rule("record: n=2..7, keygen or keysign batch of 1..3; per member and round: nothing, a message with all or some of the batch's shares, unconfirmed, or forged; arriving in generated order with repeats; the three reports must equal the missing members computed from what was accepted; non-trivial: a report is neither empty nor everybody, keyed by the record")
	h.Check(t, 1500, 30000, 40*time.Second, 12*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(2, 7).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		me := rapid.IntRange(0, n-1).Draw(rt, "me")
		isKeygen := rapid.Bool().Draw(rt, "keygen")
		idents := []string{""}
		if !isKeygen {
			idents = nil
			for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
				idents = append(idents, fmt.Sprintf("%d:%d", 1000+i, i))
			}
		}
		e := cer.New(nodes, me, isKeygen, cer.ID, idents, common.TssConfig{})
		threshold := cer.Threshold(n)
		rounds := e.Rounds()
		// the likelihood that a share is there falls after a stopping round
		type item struct {
			owner, round int
			state        string
			idents       []string
		}
		var items []item
		stop := map[int]int{}
		for o := 0; o < n; o++ {
			stop[o] = rapid.IntRange(0, len(rounds)).Draw(rt, "stop")
			if rapid.IntRange(0, 2).Draw(rt, "full") > 0 {
				stop[o] = len(rounds)
			}
		}
		accepted := map[string]map[int]map[int]bool{} // ident -> round -> owner
		gotUnicast := map[int]map[int]bool{}
		gotBroadcast := map[int]map[int]bool{}
		for o := 0; o < n; o++ {
			if o == me {
				continue
			}
			for ri := range rounds {
				if ri >= stop[o] {
					continue
				}
				it := item{o, ri, rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "some", "unconfirmed", "forged", "none"}).Draw(rt, "state"), idents}
				if it.state == "none" {
					continue
				}
				if it.state == "some" {
					it.idents = h.Permute(rt, idents, "sub")[:rapid.IntRange(1, len(idents)).Draw(rt, "nsub")]
				}
				items = append(items, it)
				for k := rapid.IntRange(0, 5).Draw(rt, "repeat"); k > 4; k-- {
					items = append(items, it)
				}
			}
		}
		items = h.Permute(rt, items, "order")
		for _, it := range items {
			r := rounds[it.round]
			w := e.Wire(it.owner, r, "x")
			if it.state == "some" {
				var b []common.BulkWireMsg
				for _, id := range it.idents {
					b = append(b, e.Share(it.owner, r, id, "x/"+id))
				}
				w = e.WireOf(it.owner, it.owner, r, b, e.MsgID)
			}
			if it.state == "forged" {
				w.Sig[5] ^= 1
			}
			_ = e.DeliverWire(it.owner, w)
			if it.state == "forged" {
				continue
			}
			if r.Broadcast {
				if it.state != "unconfirmed" {
					for p := 0; p < n; p++ {
						if p != me && p != it.owner {
							_ = e.DeliverVer(e.Nodes[p].Peer, w.GetCacheKey(), cer.Hash(w.Message))
						}
					}
				} else if threshold > 1 {
					continue
				}
				if gotBroadcast[it.round] == nil {
					gotBroadcast[it.round] = map[int]bool{}
				}
				gotBroadcast[it.round][it.owner] = true
			} else {
				if gotUnicast[it.round] == nil {
					gotUnicast[it.round] = map[int]bool{}
				}
				gotUnicast[it.round][it.owner] = true
			}
			for _, id := range it.idents {
				if accepted[id] == nil {
					accepted[id] = map[int]map[int]bool{}
				}
				if accepted[id][it.round] == nil {
					accepted[id][it.round] = map[int]bool{}
				}
				accepted[id][it.round][it.owner] = true
			}
		}
		_ = e.Drain()
		bm := e.C.GetBlameMgr()
		what := fmt.Sprintf("n=%d me=%d keygen=%v batch=%d record=%v", n, me, isKeygen, len(idents), items)
		missing := func(have map[int]bool) []int {
			out := []int{}
			for o := 0; o < n; o++ {
				if o != me && !have[o] {
					out = append(out, o)
				}
			}
			return out
		}
		partial := false
		for ri, r := range rounds {
			if r.Broadcast {
				got, err := bm.GetBroadcastBlame(r.Name)
				if err != nil {
					rt.Fatalf("%s: broadcast blame: %v", what, err)
				}
				ns := names(rt, e, what, got)
				if len(gotBroadcast[ri]) == 0 {
					continue // nobody delivered: no standard to hold anybody to
				}
				want := missing(gotBroadcast[ri])
				partial = partial || (len(want) > 0 && len(want) < n-1)
				if !reflect.DeepEqual(ns, want) {
					rt.Fatalf("%s: broadcast blame for %s names %v want %v", what, r.Name, ns, want)
				}
			} else {
				got, err := bm.GetUnicastBlame(r.Name)
				ns := names(rt, e, what, got)
				if len(gotUnicast[ri]) == 0 {
					if len(ns) != 0 {
						rt.Fatalf("%s: unicast blame for %s names %v although nobody delivered", what, r.Name, ns)
					}
					continue
				}
				if err != nil {
					rt.Fatalf("%s: unicast blame for %s: %v", what, r.Name, err)
				}
				want := missing(gotUnicast[ri])
				partial = partial || (len(want) > 0 && len(want) < n-1)
				if !reflect.DeepEqual(ns, want) {
					rt.Fatalf("%s: unicast blame for %s names %v want %v", what, r.Name, ns, want)
				}
			}
		}
		total := messages.TSSKEYGENROUNDS
		if !isKeygen {
			total = messages.TSSKEYSIGNROUNDS
		}
		got, _, err := bm.TssMissingShareBlame(total)
		if err != nil {
			rt.Fatalf("%s: missing share blame: %v", what, err)
		}
		ns := names(rt, e, what, got)
		set := map[int]bool{}
		for _, byRound := range accepted {
			for ri := range rounds {
				if len(byRound[ri]) < n-1 {
					for _, o := range missing(byRound[ri]) {
						set[o] = true
					}
					break
				}
			}
		}
		want := []int{}
		for o := range set {
			want = append(want, o)
		}
		sort.Ints(want)
		partial = partial || (len(want) > 0 && len(want) < n-1)
		if !reflect.DeepEqual(ns, want) {
			rt.Fatalf("%s: missing share blame names %v want %v", what, ns, want)
		}
		key := ""
		if partial {
			key = what
		}
		h.Seen("record", key, map[string]interface{}{"case": what})
	})
}
