// Package c01 decides C01: every party of a key generation ends with the same pool key and a usable share.
package c01

import (
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"testing"
	"time"

	bk "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/btcsuite/btcd/btcec"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/sim"
)

func TestMain(m *testing.M) { h.Main(m) }

func subsets(n, k int) [][]int {
	var out [][]int
	var rec func(start int, cur []int)
	rec = func(start int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := start; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return out
}

func TestKeygen(t *testing.T) {
	h.Rule("keygen: n=2..7 real parties (real tss-lib), participant list permuted per node, message order fifo/lifo/random/starve one node/confirmations first/later rounds first/per pair, 0..40% of messages duplicated, sometimes a node whose share cannot be saved; oracle: same pool key, state saved, share polynomial (all subsets of threshold+1 for n<=5); every case non-trivial, keyed by n, policy, members")
	h.Shrink(5 * time.Second)
	h.Check(t, 40, 4000, 70*time.Second, 75*time.Minute, func(rt *rapid.T) {
		n := rapid.SampledFrom([]int{3, 4, 5, 4, 3, 2, 4, 6, 7}).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		pol := sim.Policy{
			Order:   rapid.SampledFrom([]string{"random", "lifo", "starve", "vermsgfirst", "laterfirst", "pernode", "fifo"}).Draw(rt, "order"),
			Seed:    int64(rapid.Uint32().Draw(rt, "seed")),
			Dup:     rapid.SampledFrom([]int{0, 20, 40}).Draw(rt, "dup"),
			Victim:  rapid.IntRange(0, n-1).Draw(rt, "victim"),
			Settle:  3 * time.Millisecond,
			Timeout: 90 * time.Second,
		}
		failing := -1
		if rapid.IntRange(0, 4).Draw(rt, "savefails") == 4 {
			failing = rapid.IntRange(0, n-1).Draw(rt, "who")
		}
		permSeed := rapid.IntRange(0, 1000).Draw(rt, "permseed")
		desc := fmt.Sprintf("n=%d policy=%+v members=%v savefails=%d", n, pol, idx(nodes), failing)
		h.Case("%s", desc)
		net, run := sim.Keygen(nodes, "keygen-id", pol, sim.DefaultConf(), func(i int) *bk.LocalPreParams { return h.PreParams(i + permSeed) }, func(i int, k []string) []string {
			for j := range k {
				l := int(uint(permSeed*31+i*17+j*7) % uint(len(k)))
				k[j], k[l] = k[l], k[j]
			}
			return k
		})
		if failing >= 0 {
			net.Nodes[failing].Store.Fail = errors.New("disk full")
		}
		run()
		h.Seen("keygen", desc, map[string]interface{}{"n": n, "order": pol.Order, "dup": pol.Dup, "messages": net.Delivered, "savefails": failing})
		pool := ""
		var states []storage.KeygenLocalState
		keys := h.Sorted(h.Bech32s(nodes))
		for i, nd := range net.Nodes {
			if i == failing {
				if nd.Err == nil || nd.Pool != "" {
					rt.Fatalf("%s: node %d reports a key although its share could not be saved", desc, i)
				}
				continue
			}
			if nd.Err != nil {
				rt.Fatalf("%s: node %d failed: %v (blame %v); last deliveries %v", desc, i, nd.Err, net.Blamed(nd), tail(net.Trace))
			}
			if pool == "" {
				pool = nd.Pool
			}
			if nd.Pool != pool || pool == "" {
				rt.Fatalf("%s: node %d has pool key %q, another %q", desc, i, nd.Pool, pool)
			}
			if len(nd.Store.Saved) != 1 {
				rt.Fatalf("%s: node %d saved %d states", desc, i, len(nd.Store.Saved))
			}
			s := nd.Store.Saved[0]
			if s.PubKey != pool || s.LocalPartyKey != nd.N.Bech32 || !reflect.DeepEqual(s.ParticipantKeys, keys) {
				rt.Fatalf("%s: node %d saved under %q as %q with participants %v", desc, i, s.PubKey, s.LocalPartyKey, s.ParticipantKeys)
			}
			if len(nd.Blame().BlameNodes) != 0 {
				rt.Fatalf("%s: node %d blames %v after success", desc, i, net.Blamed(nd))
			}
			states = append(states, s)
		}
		// the shares
		var want []*big.Int
		for _, nd := range nodes {
			want = append(want, new(big.Int).SetBytes(nd.Pub))
		}
		sort.Slice(want, func(i, j int) bool { return want[i].Cmp(want[j]) < 0 })
		for i, s := range states {
			d := s.LocalData
			if len(d.Ks) != n || len(d.BigXj) != n {
				rt.Fatalf("%s: state %d holds %d ids, %d public shares", desc, i, len(d.Ks), len(d.BigXj))
			}
			for j := range d.Ks {
				if d.Ks[j].Cmp(want[j]) != 0 {
					rt.Fatalf("%s: state %d: share id %d is not the participant's key", desc, i, j)
				}
				if d.ShareID.Cmp(d.Ks[j]) == 0 {
					x, y := btcec.S256().ScalarBaseMult(d.Xi.Bytes())
					if d.BigXj[j].X().Cmp(x) != 0 || d.BigXj[j].Y().Cmp(y) != 0 {
						rt.Fatalf("%s: state %d: own public share does not match the share", desc, i)
					}
				}
			}
			if !d.ECDSAPub.Equals(states[0].LocalData.ECDSAPub) {
				rt.Fatalf("%s: state %d has another public key", desc, i)
			}
			if me := new(big.Int).SetBytes(pubOf(nodes, s.LocalPartyKey)); d.ShareID.Cmp(me) != 0 {
				rt.Fatalf("%s: state %d holds the share of somebody else", desc, i)
			}
		}
		th := cer.Threshold(n)
		if len(states) >= th+1 {
			ss := subsets(len(states), th+1)
			if len(ss) > 12 {
				ss = append(ss[:6], ss[len(ss)-6:]...)
			}
			for _, sub := range ss {
				if got := sim.PoolOf(sim.SecretOf(states, sub)); got != pool {
					rt.Fatalf("%s: shares %v give the key %q, the pool is %q", desc, sub, got, pool)
				}
			}
		}
		if th >= 1 && len(states) >= th {
			ss := subsets(len(states), th)
			for _, sub := range [][]int{ss[0], ss[len(ss)-1]} {
				if sim.PoolOf(sim.SecretOf(states, sub)) == pool {
					rt.Fatalf("%s: only %d shares %v give the pool's secret", desc, th, sub)
				}
			}
		}
	})
}

func pubOf(nodes []*h.Node, b string) []byte {
	for _, n := range nodes {
		if n.Bech32 == b {
			return n.Pub
		}
	}
	return nil
}

func idx(nodes []*h.Node) []int {
	var out []int
	for _, n := range nodes {
		out = append(out, n.Idx)
	}
	return out
}

func tail(s []string) []string {
	if len(s) > 30 {
		return s[len(s)-30:]
	}
	return s
}
