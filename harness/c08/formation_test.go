package c08

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

// outcome is what a node answers to a request whose party does not form.
type outcome struct {
	node   int
	err    error
	status common.Status
	b      blame.Blame
	result bool
}

// TestFormation: nodes get a request that some of its participants never get (or that are not running).
func TestFormation(t *testing.T) {
	h.Rule("formation: 3-6 connected nodes, 1 or more of the requested participants (never the last one left) not asked or stopped, the others asked up to 300 ms apart, each with its own order of the keys; leaderless key generation and signing: every asked node fails and blames exactly those; key generation with a leader: the leader named by all, an absent leader alone, a present one with nobody that was asked; signing with a leader: one node, the same for all; non-trivial: every case, identified by request and absent nodes")
	h.Shrink(time.Second)
	conf := cluster.Conf(4*time.Second, 30*time.Second, 6*time.Second)
	h.Check(t, 5, 60, 55*time.Second, 15*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 6).Draw(rt, "nodes")
		var nodes []*h.Node
		for i := 0; i < n; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		states := h.States(n)
		c := cluster.New(nodes, conf, states)
		defer c.Close()
		stopped := map[int]bool{}
		for attempt := rapid.IntRange(1, 3).Draw(rt, "attempts"); attempt > 0; attempt-- {
			signing := rapid.Bool().Draw(rt, "signing")
			version := rapid.SampledFrom([]string{"0.13.0", "0.13.0", "0.14.0"}).Draw(rt, "version")
			order := rapid.Permutation(seq(n)).Draw(rt, "participants")
			quorum := (2*n + 2) / 3
			switch {
			case signing:
				order = order[:rapid.IntRange(quorum, n).Draw(rt, "how many")]
			default:
				order = order[:rapid.IntRange(2, n).Draw(rt, "how many")]
			}
			absent := map[int]bool{}
			for _, i := range order {
				if stopped[i] {
					absent[i] = true
				}
			}
			all := len(order)
			leader := version == "0.14.0"
			if leader && signing {
				all = n // with a leader every holder of a share may take part
				order = seq(n)
				absent = map[int]bool{}
				for i := range stopped {
					absent[i] = true
				}
			}
			lo, hi := 1, all-1
			if leader && signing {
				lo = n - quorum + 1 // too few are left
			}
			if len(absent) > hi {
				continue
			}
			want := rapid.IntRange(lo, hi).Draw(rt, "absent")
			for _, i := range h.Permute(rt, order, "who is absent") {
				if len(absent) >= want {
					break
				}
				if absent[i] {
					continue
				}
				absent[i] = true
				if rapid.IntRange(0, 3).Draw(rt, "stopped") == 0 && len(stopped) < n-2 {
					stopped[i] = true
					c.Servers[i].Stop()
					c.Servers[i] = nil
				}
			}
			var participants []*h.Node
			var asked, gone []int
			var keys []string
			for _, i := range order {
				participants = append(participants, nodes[i])
				if absent[i] {
					gone = append(gone, i)
					keys = append(keys, nodes[i].Bech32)
				} else {
					asked = append(asked, i)
				}
			}
			sort.Ints(asked)
			sort.Ints(gone)
			sort.Strings(keys)
			msg := base64.StdEncoding.EncodeToString(append([]byte{1}, h.Bytes(rapid.Uint64().Draw(rt, "message"), 31)...))
			height := int64(rapid.IntRange(1, 1000).Draw(rt, "height"))
			what := fmt.Sprintf("%d nodes, signing %v (%s), version %s, height %d, participants %v, absent %v, stopped %v", n, signing, msg, version, height, order, gone, h.Keys(stoppedNames(stopped)))
			kind := "keygen"
			if signing {
				kind = "keysign"
			}
			h.Seen("formation "+kind+" "+version, what, what)
			out := make([]outcome, len(asked))
			var wg sync.WaitGroup
			for k, i := range asked {
				ks := h.Permute(rt, h.Bech32s(participants), "order of the keys")
				delay := time.Duration(rapid.SampledFrom([]int{0, 0, 5, 100, 300}).Draw(rt, "delay")) * time.Millisecond
				wg.Add(1)
				go func(k, i int) {
					defer wg.Done()
					time.Sleep(delay)
					o := outcome{node: i}
					if signing {
						r, err := c.Servers[i].KeySign(keysign.NewRequest(states[0].PubKey, []string{msg}, height, ks, version))
						o.err, o.status, o.b, o.result = err, r.Status, r.Blame, len(r.Signatures) > 0
					} else {
						r, err := c.Servers[i].Keygen(keygen.NewRequest(ks, height, version))
						o.err, o.status, o.b, o.result = err, r.Status, r.Blame, r.PubKey != ""
					}
					out[k] = o
				}(k, i)
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(90 * time.Second):
				rt.Fatalf("%s: a call has not returned after 90 s", what)
			}
			var named []string
			for k, o := range out {
				if o.err != nil || o.status != common.Fail || o.result {
					rt.Fatalf("%s: node %d answers %+v", what, o.node, o)
				}
				if o.b.FailReason != blame.TssSyncFail {
					rt.Fatalf("%s: node %d gives the reason %q: %+v", what, o.node, o.b.FailReason, o)
				}
				var got []string
				seen := map[string]bool{}
				for _, nd := range o.b.BlameNodes {
					if seen[nd.Pubkey] {
						rt.Fatalf("%s: node %d blames %s twice", what, o.node, nd.Pubkey)
					}
					seen[nd.Pubkey] = true
					got = append(got, nd.Pubkey)
				}
				sort.Strings(got)
				if !leader {
					if !reflect.DeepEqual(got, keys) {
						rt.Fatalf("%s: node %d blames %v", what, o.node, names(nodes, got))
					}
					continue
				}
				// with a leader all nodes name it, and nobody else that was asked
				var present, away []string
				for _, pk := range got {
					if contains(keys, pk) {
						away = append(away, pk)
					} else {
						present = append(present, pk)
					}
				}
				if len(present) > 1 || len(got) == 0 || (signing && len(got) != 1) {
					rt.Fatalf("%s: node %d blames %v", what, o.node, names(nodes, got))
				}
				one := got
				if len(present) == 1 {
					one = present
					h.Label("leader present")
					if present[0] == nodes[o.node].Bech32 && !signing && !reflect.DeepEqual(away, keys) {
						rt.Fatalf("%s: the leader, node %d, blames %v", what, o.node, names(nodes, got))
					}
				} else if len(away) > 1 {
					rt.Fatalf("%s: node %d blames %v and no leader", what, o.node, names(nodes, got))
				} else {
					h.Label("leader absent")
				}
				if k == 0 {
					named = one
				} else if !reflect.DeepEqual(one, named) {
					rt.Fatalf("%s: node %d takes %v for the leader, node %d %v", what, o.node, names(nodes, one), out[0].node, names(nodes, named))
				}
			}
		}
	})
}

func stoppedNames(m map[int]bool) map[string]bool {
	out := map[string]bool{}
	for i := range m {
		out[fmt.Sprint(i)] = true
	}
	return out
}

func names(nodes []*h.Node, keys []string) []string {
	var out []string
	for _, k := range keys {
		name := k
		for i, n := range nodes {
			if n.Bech32 == k {
				name = fmt.Sprint("node ", i)
			}
		}
		out = append(out, name)
	}
	return out
}

func contains(s []string, v string) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
