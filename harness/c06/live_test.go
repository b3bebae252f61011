package c06

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	bk "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/sim"
)

var keygenLabels = []string{messages.KEYGEN1, messages.KEYGEN2aUnicast, messages.KEYGEN2b, messages.KEYGEN3}
var keysignLabels = []string{messages.KEYSIGN1aUnicast, messages.KEYSIGN1b, messages.KEYSIGN2Unicast, messages.KEYSIGN3, messages.KEYSIGN4, messages.KEYSIGN5, messages.KEYSIGN6, messages.KEYSIGN7}

// TestWrongShare: real ceremonies in which one member's share of a round is wrong.
func TestWrongShare(t *testing.T) {
	h.Rule("wrong share: real keygen (n=3..4) or keysign (pools 3..5, batch 1..2); one member alters one value (12 ways) in its share of a generated round and signs that, to all or (unicast) one member; every node that reports a broken share names only that member, itself never, with evidence verifying under its key; nodes without a wrong share to report name only that member or (unicast) the one that could not go on; non-trivial: somebody reported a broken share, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 14, 900, 110*time.Second, 45*time.Minute, func(rt *rapid.T) {
		wrongShare(t, rt, rapid.IntRange(0, 2).Draw(rt, "keygen") == 0, "", nil, 9*time.Second)
	})
}

// TestModulus: the first keygen share of a member has a modulus of another size.
func TestModulus(t *testing.T) {
	h.Rule("modulus: real keygen (n=3..4) in which one member's first share carries a Paillier modulus or NTilde of 0..4200 bits, to all or one member; same oracle as for wrong shares: tss-lib must not be left running with it, so everybody who stops in time names that member; non-trivial: somebody reported a broken share")
	h.Shrink(5 * time.Second)
	h.Check(t, 6, 300, 40*time.Second, 20*time.Minute, func(rt *rapid.T) {
		bits := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 1024, 2047, 2049, 2056, 4096}), rapid.IntRange(3, 4200)).Draw(rt, "bits")
		if bits == 2048 {
			bits++
		}
		wrongShare(t, rt, true, messages.KEYGEN1, []string{fmt.Sprintf("modulus %d", bits)}, 4*time.Second)
	})
}

// wrongShare runs a ceremony in which one member's share is wrong; label and kinds restrict which and how.
func wrongShare(t *testing.T, rt *rapid.T, isKeygen bool, label string, kinds []string, limit time.Duration) {
	var nodes []*h.Node
	var st []storage.KeygenLocalState
	var msgs [][]byte
	labels := keysignLabels
	if isKeygen {
		labels = keygenLabels
		nodes = h.DistinctNodes(rt, rapid.SampledFrom([]int{3, 4}).Draw(rt, "n"), 30, "members")
	} else {
		pool := rapid.SampledFrom([]int{4, 3, 5}).Draw(rt, "pool")
		all := h.States(pool)
		k := rapid.IntRange(cer.Threshold(pool)+1, pool).Draw(rt, "k")
		for _, i := range h.Permute(rt, seq(pool), "who")[:k] {
			nodes = append(nodes, h.NodeN(i))
			st = append(st, all[i])
		}
		for i := rapid.IntRange(1, 2).Draw(rt, "batch"); i > 0; i-- {
			msgs = append(msgs, h.Bytes(uint64(i)+7, 32))
		}
	}
	n := len(nodes)
	byz := rapid.IntRange(0, n-1).Draw(rt, "byz")
	victim := (byz + rapid.IntRange(1, n-1).Draw(rt, "victim")) % n
	one := rapid.Bool().Draw(rt, "one")
	if label == "" {
		label, kinds = rapid.SampledFrom(labels).Draw(rt, "label"), sim.Alterations
	}
	kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
	seed := int64(rapid.Uint32().Draw(rt, "altseed"))
	pol := sim.Policy{
		Order:   rapid.SampledFrom([]string{"fifo", "random", "pernode"}).Draw(rt, "order"),
		Seed:    int64(rapid.Uint32().Draw(rt, "seed")),
		Settle:  3 * time.Millisecond,
		Timeout: 120 * time.Second,
	}
	desc := fmt.Sprintf("keygen=%v n=%d byz=%d victim=%d one=%v label=%s kind=%s seed=%d policy=%+v batch=%d", isKeygen, n, byz, victim, one, label, kind, seed, pol, len(msgs))
	h.Case("%s", desc)
	conf := sim.DefaultConf()
	conf.KeyGenTimeout, conf.KeySignTimeout = limit, limit
	var net *sim.Net
	var run func()
	if isKeygen {
		net, run = sim.Keygen(nodes, "id", pol, conf, func(i int) *bk.LocalPreParams { return h.PreParams(i) }, nil)
	} else {
		net, run = sim.Keysign(nodes, "id", pol, conf, st, h.Bech32s(nodes), msgs, nil)
	}
	var mu sync.Mutex
	cache := map[string][]byte{}
	what := "unchanged"
	net.Filter = func(m sim.Msg) []sim.Msg {
		if m.From != byz || m.Round != label {
			return []sim.Msg{m}
		}
		mu.Lock()
		defer mu.Unlock()
		unicast := label == messages.KEYGEN2aUnicast || label == messages.KEYSIGN1aUnicast || label == messages.KEYSIGN2Unicast
		if unicast && one && m.To != victim {
			return []sim.Msg{m}
		}
		b, ok := cache[string(m.Body)]
		if !ok {
			var d string
			b, d = net.AlterBody(rand.New(rand.NewSource(seed)), m, kind)
			if b != nil {
				what = d
			}
			cache[string(m.Body)] = b
		}
		if b != nil {
			m.Body = b
		}
		return []sim.Msg{m}
	}
	busy := sim.BusyAtTheEnd(run)
	desc += " altered: " + what
	reported := 0
	// who could not go on because of a wrong share
	stuck := map[int]bool{byz: true}
	for i, nd := range net.Nodes {
		if i != byz && nd.Blame().FailReason == blame.TssBrokenMsg {
			stuck[i] = true
		}
	}
	for i, nd := range net.Nodes {
		if i == byz {
			continue
		}
		b := nd.Blame()
		broken := b.FailReason == blame.TssBrokenMsg
		for _, x := range b.BlameNodes {
			who := -1
			for j, y := range net.Nodes {
				if y.N.Bech32 == x.Pubkey {
					who = j
				}
			}
			if who == i {
				rt.Fatalf("%s: node %d blames itself: %s (err %v)", desc, i, b, nd.Err)
			}
			if !broken && busy && who != i {
				// the machine is so slow that the nodes were still computing when their time was up
				h.Label("wrong share: no time left")
				return
			}
			if broken && who != byz || !stuck[who] {
				rt.Fatalf("%s: node %d blames %d: %v (%v)", desc, i, who, b.FailReason, net.Blamed(nd))
			}
			if len(x.BlameSignature) > 0 || len(x.BlameData) > 0 {
				if !cer.Verify(net.Nodes[who].N, x.BlameData, x.BlameSignature, net.MsgID) {
					rt.Fatalf("%s: node %d has evidence against %d that does not verify", desc, i, who)
				}
			}
		}
		if broken && len(b.BlameNodes) > 0 {
			reported++
		}
		h.Label(fmt.Sprintf("wrong share %s: %s", label, map[bool]string{true: "reported", false: "not reported"}[broken]))
		if nd.Err == nil && broken {
			h.Label("wrong share: success in spite of blame")
		}
	}
	if testing.Verbose() {
		var s string
		for i, nd := range net.Nodes {
			s += fmt.Sprintf("  %d: %v blame %q %v\n", i, sim.Short(nd.Err), nd.Blame().FailReason, net.Blamed(nd))
		}
		t.Logf("%s\n%s", desc, s)
	}
	if reported > 0 {
		h.Seen("wrong share", desc, map[string]interface{}{"keygen": isKeygen, "n": n, "altered": what, "reported by": reported})
	}
}

func seq(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}
