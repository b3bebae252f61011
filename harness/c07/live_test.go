package c07

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	bk "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/sim"
)

// rounds after whose end a party can stop: the labels of what it then no longer sends
var keygenRounds = [][]string{{messages.KEYGEN1}, {messages.KEYGEN2aUnicast, messages.KEYGEN2b}, {messages.KEYGEN3}}
var keysignRounds = [][]string{{messages.KEYSIGN1aUnicast, messages.KEYSIGN1b}, {messages.KEYSIGN2Unicast}, {messages.KEYSIGN3}, {messages.KEYSIGN4}, {messages.KEYSIGN5}, {messages.KEYSIGN6}, {messages.KEYSIGN7}}

func TestStop(t *testing.T) {
	h.Rule("stop: real keygen (n=3..5) or keysign (pools of 3..7, batch 1..2); up to a third of the parties go silent at the boundary before a generated round (never having sent anything of it), generated schedule; every survivor must end with the timeout error and blame a non-empty subset of the silent ones; every case non-trivial, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 12, 600, 110*time.Second, 45*time.Minute, func(rt *rapid.T) {
		isKeygen := rapid.IntRange(0, 2).Draw(rt, "keygen") == 0
		var nodes []*h.Node
		var st []storage.KeygenLocalState
		var keys []string
		var msgs [][]byte
		if isKeygen {
			n := rapid.SampledFrom([]int{4, 3, 5}).Draw(rt, "n")
			nodes = h.DistinctNodes(rt, n, 30, "members")
		} else {
			pool := rapid.SampledFrom([]int{4, 5, 7, 6}).Draw(rt, "pool")
			all := h.States(pool)
			k := rapid.IntRange(cer.Threshold(pool)+1, pool).Draw(rt, "k")
			for _, i := range h.Permute(rt, seq(pool), "who")[:k] {
				nodes = append(nodes, h.NodeN(i))
				st = append(st, all[i])
			}
			for i := rapid.IntRange(1, 2).Draw(rt, "batch"); i > 0; i-- {
				msgs = append(msgs, h.Bytes(uint64(i)+7, 32))
			}
		}
		keys = h.Bech32s(nodes)
		n := len(nodes)
		f := rapid.IntRange(1, n/3).Draw(rt, "silent")
		silent := map[int]bool{}
		for _, i := range h.Permute(rt, seq(n), "which")[:f] {
			silent[i] = true
		}
		rounds := keysignRounds
		if isKeygen {
			rounds = keygenRounds
		}
		at := rapid.IntRange(0, len(rounds)-1).Draw(rt, "at")
		late := map[string]bool{}
		for _, r := range rounds[at:] {
			for _, x := range r {
				late[x] = true
			}
		}
		pol := sim.Policy{
			Order:   rapid.SampledFrom([]string{"random", "lifo", "vermsgfirst", "pernode", "fifo"}).Draw(rt, "order"),
			Seed:    int64(rapid.Uint32().Draw(rt, "seed")),
			Dup:     rapid.SampledFrom([]int{0, 20}).Draw(rt, "dup"),
			Settle:  3 * time.Millisecond,
			Timeout: 240 * time.Second,
		}
		desc := fmt.Sprintf("keygen=%v n=%d silent=%v from=%v policy=%+v members=%v batch=%d", isKeygen, n, silent, rounds[at], pol, idx(nodes), len(msgs))
		h.Case("%s", desc)
		attempt := func(limit time.Duration) (string, bool) {
			conf := sim.DefaultConf()
			conf.KeyGenTimeout, conf.KeySignTimeout = limit, limit
			var net *sim.Net
			var run func()
			if isKeygen {
				net, run = sim.Keygen(nodes, "id", pol, conf, func(i int) *bk.LocalPreParams { return h.PreParams(i) }, nil)
			} else {
				net, run = sim.Keysign(nodes, "id", pol, conf, st, keys, msgs, nil)
			}
			var mu sync.Mutex
			stopped := map[int]bool{}
			net.Filter = func(m sim.Msg) []sim.Msg {
				mu.Lock()
				defer mu.Unlock()
				if silent[m.From] && late[m.Round] {
					stopped[m.From] = true
				}
				if stopped[m.From] {
					return nil
				}
				return []sim.Msg{m}
			}
			busy := sim.BusyAtTheEnd(run)
			for i, nd := range net.Nodes {
				if silent[i] {
					continue
				}
				if !errors.Is(nd.Err, blame.ErrTssTimeOut) {
					return fmt.Sprintf("survivor %d ends with %v", i, nd.Err), busy
				}
				bl := net.Blamed(nd)
				if len(bl) == 0 {
					return fmt.Sprintf("survivor %d blames nobody", i), busy
				}
				if n-f > 1 && len(bl) != f {
					return fmt.Sprintf("survivor %d blames %v, %d stopped and somebody else delivered", i, bl, f), busy
				}
				for j, b := range bl {
					if b < 0 || !silent[b] {
						return fmt.Sprintf("survivor %d blames %v", i, bl), busy
					}
					if j > 0 && bl[j-1] == b {
						return fmt.Sprintf("survivor %d blames %d twice", i, b), busy
					}
				}
			}
			return "", busy
		}
		// if the machine is so slow that the nodes were still computing when their time was up, they get more of it
		for limit := 9 * time.Second; ; limit *= 4 {
			problem, busy := attempt(limit)
			if problem == "" {
				break
			}
			if busy && limit < time.Minute {
				h.Label("once more, with more time")
				continue
			}
			rt.Fatalf("%s: %s", desc, problem)
		}
		h.Seen("stop", desc, map[string]interface{}{"keygen": isKeygen, "n": n, "silent": f, "from": rounds[at], "order": pol.Order})
		h.Label(fmt.Sprintf("stop keygen=%v from %v", isKeygen, rounds[at]))
	})
}

func seq(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func idx(nodes []*h.Node) []int {
	var out []int
	for _, n := range nodes {
		out = append(out, n.Idx)
	}
	return out
}
