// Package c08 decides C08: party-formation failure blames exactly the absent participants.
package c08

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// TestNodeSync: the blame is the set difference participants minus online, by the requested keys.
func TestNodeSync(t *testing.T) {
	h.Rule("node sync: 1..12 distinct participants in generated order, online = generated subset plus outsiders and repeats; non-trivial: at least one absent and one online, keyed by participants, online list")
	h.Check(t, 1500, 20000, 15*time.Second, 5*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 40, "participants")
		mode := rapid.SampledFrom([]string{"subset", "subset", "none", "all"}).Draw(rt, "mode")
		var online []peer.ID
		want := map[string]bool{}
		for i, nd := range nodes {
			on := mode == "all"
			if mode == "subset" {
				on = rapid.Bool().Draw(rt, fmt.Sprintf("on%d", i))
			}
			if on {
				for k := rapid.IntRange(1, 2).Draw(rt, "repeat"); k > 0; k-- {
					online = append(online, nd.Peer)
				}
			} else {
				want[nd.Bech32] = true
			}
		}
		for k := rapid.IntRange(0, 3).Draw(rt, "outsiders"); k > 0; k-- {
			online = append(online, h.NodeN(40+rapid.IntRange(0, 20).Draw(rt, "o")).Peer)
		}
		if rapid.Bool().Draw(rt, "nilPeer") {
			online = append(online, peer.ID(""))
		}
		if len(online) > 0 {
			online = h.Permute(rt, online, "order")
		}
		keys := h.Bech32s(nodes)
		in := append([]string(nil), keys...)
		b, err := blame.NewBlameManager().NodeSyncBlame(in, online)
		if err != nil {
			rt.Fatalf("NodeSyncBlame(%v, %v): %v", keys, online, err)
		}
		key := ""
		if len(want) > 0 && len(want) < n {
			key = fmt.Sprint(keys, online)
		}
		h.Seen("nodesync", key, map[string]interface{}{"participants": keys, "online": fmt.Sprint(online), "absent": len(want)})
		if b.FailReason != blame.TssSyncFail {
			rt.Fatalf("reason %q", b.FailReason)
		}
		got := map[string]bool{}
		for _, nd := range b.BlameNodes {
			if got[nd.Pubkey] {
				rt.Fatalf("%s blamed twice", nd.Pubkey)
			}
			got[nd.Pubkey] = true
		}
		if !reflect.DeepEqual(got, want) {
			rt.Fatalf("participants %v online %v: blamed %v want %v", keys, online, got, want)
		}
		if !reflect.DeepEqual(in, keys) {
			rt.Fatalf("the caller's participant list was changed")
		}
		if b.AlreadyBlame() != (len(want) > 0) {
			rt.Fatalf("AlreadyBlame %v with %d nodes", b.AlreadyBlame(), len(want))
		}
	})
}

// TestNodeSyncBadKey: a participant that has no peer id cannot be judged.
func TestNodeSyncBadKey(t *testing.T) {
	h.Rule("bad key: one participant key replaced by text that is no key; expected an error")
	h.Check(t, 300, 3000, 5*time.Second, time.Minute, func(rt *rapid.T) {
		nodes := h.DistinctNodes(rt, rapid.IntRange(1, 6).Draw(rt, "n"), 40, "participants")
		keys := h.Bech32s(nodes)
		i := rapid.IntRange(0, len(keys)-1).Draw(rt, "i")
		bad := rapid.SampledFrom([]string{"", " ", "thorpub1", keys[i] + "x", keys[i][:len(keys[i])-1], "invalid"}).Draw(rt, "bad")
		keys[i] = bad
		var online []peer.ID
		for j, nd := range nodes {
			if j != i {
				online = append(online, nd.Peer)
			}
		}
		_, err := blame.NewBlameManager().NodeSyncBlame(keys, online)
		h.Seen("badkey", fmt.Sprint(keys), keys)
		if err == nil {
			rt.Fatalf("no error for key %q", bad)
		}
	})
}

type entry struct{ pk, sig string }

// TestAdd: adding nodes, in batches, possibly concurrently, keeps the list a set and loses nothing.
func TestAdd(t *testing.T) {
	h.Rule("add: up to 8 batches of up to 6 nodes out of a small pool (so that repeats within a batch, across batches and with the initial list occur), added in sequence or from concurrent goroutines; non-trivial: at least one repeat and two different nodes")
	h.Check(t, 2500, 40000, 15*time.Second, 5*time.Minute, func(rt *rapid.T) {
		node := rapid.Custom(func(rt *rapid.T) blame.Node {
			pk := h.NodeN(rapid.IntRange(0, 3).Draw(rt, "pk")).Bech32
			switch rapid.IntRange(0, 3).Draw(rt, "evidence") {
			case 0:
				return blame.NewNode(pk, nil, nil)
			case 1:
				return blame.NewNode(pk, []byte("data1"), []byte("sig1"))
			case 2:
				return blame.NewNode(pk, []byte("data2"), []byte("sig2"))
			default:
				return blame.NewNode(pk, []byte("data12"), []byte("sig12"))
			}
		})
		want := map[entry]string{}
		total := 0
		var initial []blame.Node
		for _, nd := range rapid.SliceOfN(node, 0, 3).Draw(rt, "initial") {
			e := entry{nd.Pubkey, string(nd.BlameSignature)}
			if _, ok := want[e]; !ok {
				want[e] = string(nd.BlameData)
				initial = append(initial, nd)
			}
		}
		total += len(initial)
		b := blame.NewBlame("reason", initial)
		if rapid.Bool().Draw(rt, "manager") {
			mb := blame.NewBlameManager().GetBlame()
			mb.SetBlame("reason", initial, false)
			b = *mb
		}
		batches := rapid.SliceOfN(rapid.SliceOfN(node, 0, 6), 1, 8).Draw(rt, "batches")
		for _, ba := range batches {
			for _, nd := range ba {
				total++
				want[entry{nd.Pubkey, string(nd.BlameSignature)}] = string(nd.BlameData)
			}
		}
		concurrent := rapid.Bool().Draw(rt, "concurrent")
		if concurrent {
			var wg sync.WaitGroup
			for _, ba := range batches {
				wg.Add(1)
				go func(ba []blame.Node) {
					defer wg.Done()
					b.AddBlameNodes(ba...)
				}(ba)
			}
			wg.Wait()
		} else {
			for _, ba := range batches {
				b.AddBlameNodes(ba...)
			}
		}
		key := ""
		if total > len(want) && len(want) > 1 {
			key = fmt.Sprint(initial, batches, concurrent)
		}
		h.Seen("add", key, map[string]interface{}{"initial": len(initial), "batches": len(batches), "added": total, "distinct": len(want), "concurrent": concurrent})
		got := map[entry]string{}
		for _, nd := range b.BlameNodes {
			e := entry{nd.Pubkey, string(nd.BlameSignature)}
			if _, ok := got[e]; ok {
				rt.Fatalf("%v is in the list twice: %v", e, b.BlameNodes)
			}
			got[e] = string(nd.BlameData)
		}
		if !reflect.DeepEqual(got, want) {
			rt.Fatalf("initial %v batches %v: list %v want %v", initial, batches, keysOf(got), keysOf(want))
		}
		if b.AlreadyBlame() != (len(want) > 0) {
			rt.Fatalf("AlreadyBlame %v with %d nodes", b.AlreadyBlame(), len(want))
		}
		if b.FailReason != "reason" {
			rt.Fatalf("reason became %q", b.FailReason)
		}
	})
}

func keysOf(m map[entry]string) []string {
	var out []string
	for k, v := range m {
		out = append(out, k.pk+"/"+k.sig+"/"+v)
	}
	sort.Strings(out)
	return out
}
