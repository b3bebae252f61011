// Package c02 decides C02: any threshold+1 holders of a pool key sign any batch validly and alike.
package c02

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"sort"
	"testing"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/sim"
)

func TestMain(m *testing.M) { h.Main(m) }

var n256 = btcec.S256().N

// hashInt is the number a message stands for: its leftmost 32 bytes.
func hashInt(m []byte) *big.Int {
	if len(m) > 32 {
		m = m[:32]
	}
	return new(big.Int).SetBytes(m)
}

func genMessage(rt *rapid.T, label string) []byte {
	l := rapid.SampledFrom([]int{32, 32, 32, 1, 20, 31, 33, 64}).Draw(rt, label+"-len")
	m := rapid.SliceOfN(rapid.Byte(), l, l).Draw(rt, label)
	switch rapid.SampledFrom([]string{"", "", "", "leading zeros", "one"}).Draw(rt, label+"-shape") {
	case "leading zeros":
		for i := 0; i < len(m)/2; i++ {
			m[i] = 0
		}
	case "one":
		m = make([]byte, 32)
		m[31] = 1
	}
	if hashInt(m).Cmp(n256) >= 0 || hashInt(m).Sign() == 0 {
		m[0] = 0x7f // not signable
	}
	return m
}

func sigKey(s *tsslibcommon.ECSignature) string {
	return fmt.Sprintf("%x/%x/%x/%x/%x", s.M, s.R, s.S, s.SignatureRecovery, s.Signature)
}

// checkSig says what is wrong with a signature of msg under pool.
func checkSig(s *tsslibcommon.ECSignature, msg []byte, pub *btcec.PublicKey) string {
	if s == nil {
		return "nil signature"
	}
	r, ss := new(big.Int).SetBytes(s.R), new(big.Int).SetBytes(s.S)
	if !ecdsa.Verify(pub.ToECDSA(), msg, r, ss) {
		return fmt.Sprintf("does not verify for %x", msg)
	}
	if new(big.Int).SetBytes(s.M).Cmp(hashInt(msg)) != 0 {
		return fmt.Sprintf("carries the message %x, not %x", s.M, msg)
	}
	if new(big.Int).Lsh(ss, 1).Cmp(n256) > 0 {
		return "s is in the upper half"
	}
	if len(s.SignatureRecovery) != 1 || s.SignatureRecovery[0] > 3 {
		return fmt.Sprintf("recovery id %x", s.SignatureRecovery)
	}
	compact := make([]byte, 65)
	compact[0] = 27 + 4 + s.SignatureRecovery[0]
	r.FillBytes(compact[1:33])
	ss.FillBytes(compact[33:])
	got, _, err := btcec.RecoverCompact(btcec.S256(), compact, msg)
	if err != nil || !got.IsEqual(pub) {
		return fmt.Sprintf("recovery id %d does not recover the pool key (%v)", s.SignatureRecovery[0], err)
	}
	// tss-lib leaves leading zeros out of the combined form
	if !bytes.Equal(s.Signature, compact[1:]) && !bytes.Equal(s.Signature, append(r.Bytes(), ss.Bytes()...)) {
		return "the combined signature differs from r and s"
	}
	return ""
}

func TestKeysign(t *testing.T) {
	h.Rule("keysign: pools of n=2..7 (committed share files), a subset of threshold+1..n signers plus sometimes a holder that is not a signer, batches of 1..5 messages (lengths 1..64, leading zeros, zero, repeated, listed in another order per node as the server sorts them), all scheduling policies; oracle: every signer returns the same set in the batch's descending order, each verifies (ecdsa), low S, recovery id, M; non-signer returns no signature; a batch with a message that is zero or not below the group order is refused by every signer; every case non-trivial, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 60, 6000, 60*time.Second, 60*time.Minute, func(rt *rapid.T) {
		n := rapid.SampledFrom([]int{4, 3, 2, 5, 4, 6, 7}).Draw(rt, "n")
		states := h.States(n)
		th := cer.Threshold(n)
		k := th + 1
		if k < n {
			k = rapid.SampledFrom([]int{th + 1, th + 1, th + 1, n}).Draw(rt, "k")
		}
		who := h.Permute(rt, seq(n), "who")
		signers := append([]int(nil), who[:k]...)
		outsider := -1
		if k < n && rapid.Bool().Draw(rt, "outsider") {
			outsider = who[k]
		}
		nm := rapid.SampledFrom([]int{1, 2, 1, 3, 2, 5}).Draw(rt, "messages")
		if k > 4 && nm > 2 {
			nm = 2
		}
		var msgs [][]byte
		for i := 0; i < nm; i++ {
			if i > 0 && rapid.IntRange(0, 7).Draw(rt, "repeat") == 7 {
				msgs = append(msgs, append([]byte(nil), msgs[rapid.IntRange(0, i-1).Draw(rt, "which")]...))
				continue
			}
			msgs = append(msgs, genMessage(rt, fmt.Sprintf("m%d", i)))
		}
		unsignable := ""
		if rapid.IntRange(0, 9).Draw(rt, "unsignable") == 9 {
			unsignable = rapid.SampledFrom([]string{"zero", "order", "max", "empty"}).Draw(rt, "why")
			at := rapid.IntRange(0, len(msgs)-1).Draw(rt, "at")
			switch unsignable {
			case "zero":
				msgs[at] = make([]byte, len(msgs[at]))
			case "order":
				msgs[at] = n256.Bytes()
			case "max":
				msgs[at] = bytes.Repeat([]byte{0xff}, 40)
			case "empty":
				msgs[at] = nil
			}
		}
		sort.SliceStable(msgs, func(i, j int) bool { return hashInt(msgs[i]).Cmp(hashInt(msgs[j])) > 0 })
		var all []*h.Node
		for i := 0; i < n; i++ {
			all = append(all, h.NodeN(i))
		}
		var nodes []*h.Node
		var st []storage.KeygenLocalState
		var keys []string
		for _, i := range signers {
			nodes = append(nodes, all[i])
			st = append(st, states[i])
			keys = append(keys, all[i].Bech32)
		}
		if outsider >= 0 {
			nodes = append(nodes, all[outsider])
			st = append(st, states[outsider])
		}
		pol := sim.Policy{
			Order:   rapid.SampledFrom([]string{"random", "lifo", "starve", "vermsgfirst", "laterfirst", "pernode", "fifo"}).Draw(rt, "order"),
			Seed:    int64(rapid.Uint32().Draw(rt, "seed")),
			Dup:     rapid.SampledFrom([]int{0, 20, 40}).Draw(rt, "dup"),
			Victim:  rapid.IntRange(0, k-1).Draw(rt, "victim"),
			Settle:  3 * time.Millisecond,
			Timeout: 90 * time.Second,
		}
		desc := fmt.Sprintf("n=%d signers=%v outsider=%d policy=%+v messages=%x unsignable=%s", n, signers, outsider, pol, msgs, unsignable)
		h.Case("%s", desc)
		permSeed := rapid.IntRange(0, 1000).Draw(rt, "permseed")
		net, run := sim.Keysign(nodes, "keysign-id", pol, sim.DefaultConf(), st, keys, msgs, func(i int, ks []string) []string {
			for j := range ks {
				l := int(uint(permSeed*31+i*17+j*7) % uint(len(ks)))
				ks[j], ks[l] = ks[l], ks[j]
			}
			return ks
		})
		run()
		h.Seen("keysign", desc, map[string]interface{}{"n": n, "signers": signers, "order": pol.Order, "dup": pol.Dup, "batch": nm, "deliveries": net.Delivered})
		raw, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, states[0].PubKey)
		h.Must(err)
		pub, err := btcec.ParsePubKey(raw.Bytes()[len(raw.Bytes())-33:], btcec.S256())
		h.Must(err)
		var first []string
		for i, nd := range net.Nodes {
			if i == k {
				if len(nd.Sigs) != 0 {
					rt.Fatalf("%s: the non-signer returns %v, %v", desc, nd.Sigs, nd.Err)
				}
				continue
			}
			if unsignable != "" {
				if nd.Err == nil || len(nd.Sigs) != 0 {
					rt.Fatalf("%s: signer %d returns %v, %v for a batch that cannot be signed", desc, i, nd.Sigs, nd.Err)
				}
				continue
			}
			if nd.Err != nil {
				rt.Fatalf("%s: signer %d failed: %v (blame %v); last deliveries %v", desc, i, nd.Err, net.Blamed(nd), tail(net.Trace))
			}
			if len(nd.Sigs) != len(msgs) {
				rt.Fatalf("%s: signer %d returns %d signatures", desc, i, len(nd.Sigs))
			}
			var mine []string
			for j, s := range nd.Sigs {
				if why := checkSig(s, msgs[j], pub); why != "" {
					rt.Fatalf("%s: signer %d, signature %d: %s", desc, i, j, why)
				}
				mine = append(mine, sigKey(s))
			}
			sort.Strings(mine) // those of identical messages may come in any order
			if first == nil {
				first = mine
			}
			if fmt.Sprint(first) != fmt.Sprint(mine) {
				rt.Fatalf("%s: signer %d returns %v, another %v", desc, i, mine, first)
			}
			for j := 1; j < len(mine); j++ {
				if mine[j] == mine[j-1] {
					rt.Fatalf("%s: signer %d returns one signature twice", desc, i)
				}
			}
			if len(nd.Blame().BlameNodes) != 0 {
				rt.Fatalf("%s: signer %d blames %v after success", desc, i, net.Blamed(nd))
			}
		}
	})
}

func seq(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func tail(s []string) []string {
	if len(s) > 30 {
		return s[len(s)-30:]
	}
	return s
}

// TestRefused: a batch that holds anything but numbers from 1 to the group order minus one is refused as a whole.
func TestRefused(t *testing.T) {
	h.Rule("refused: pools of n=2..7, batches of 1..4 messages of which at least one stands for zero, the group order or more (the order itself, the order plus a little, all ones, only the first 32 of 33..64 bytes counting, zeros, nothing); every signer must refuse the batch and return nothing; every case non-trivial, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 40, 3000, 40*time.Second, 20*time.Minute, func(rt *rapid.T) {
		n := rapid.SampledFrom([]int{4, 3, 2, 5, 7}).Draw(rt, "n")
		states := h.States(n)
		k := cer.Threshold(n) + 1
		who := h.Permute(rt, seq(n), "who")[:k]
		var msgs [][]byte
		for i := rapid.IntRange(0, 3).Draw(rt, "signable"); i > 0; i-- {
			msgs = append(msgs, genMessage(rt, fmt.Sprintf("m%d", i)))
		}
		above := new(big.Int).Add(n256, new(big.Int).SetUint64(rapid.Uint64().Draw(rt, "above")))
		tail := rapid.SliceOfN(rapid.Byte(), 0, 32).Draw(rt, "tail")
		var odd []byte
		switch rapid.SampledFrom([]string{"above", "order", "ones", "zeros", "nothing", "above+tail", "zeros+tail"}).Draw(rt, "why") {
		case "above":
			odd = above.Bytes()
		case "order":
			odd = n256.Bytes()
		case "ones":
			odd = bytes.Repeat([]byte{0xff}, rapid.IntRange(32, 64).Draw(rt, "ones"))
		case "zeros":
			odd = make([]byte, rapid.IntRange(1, 64).Draw(rt, "zeros"))
		case "above+tail":
			odd = append(above.Bytes(), tail...)
		case "zeros+tail":
			odd = append(make([]byte, 32), tail...)
		}
		msgs = append(msgs, odd)
		sort.SliceStable(msgs, func(i, j int) bool { return hashInt(msgs[i]).Cmp(hashInt(msgs[j])) > 0 })
		var nodes []*h.Node
		var st []storage.KeygenLocalState
		var keys []string
		for _, i := range who {
			nodes = append(nodes, h.NodeN(i))
			st = append(st, states[i])
			keys = append(keys, h.NodeN(i).Bech32)
		}
		desc := fmt.Sprintf("n=%d signers=%v messages=%x, of which %x cannot be signed", n, who, msgs, odd)
		h.Case("%s", desc)
		net, run := sim.Keysign(nodes, "keysign-id", sim.Policy{Order: "fifo", Settle: time.Millisecond, Timeout: 60 * time.Second}, sim.DefaultConf(), st, keys, msgs, nil)
		run()
		h.Seen("refused", desc, map[string]interface{}{"n": n, "batch": len(msgs), "unsignable": fmt.Sprintf("%x", odd)})
		for i, nd := range net.Nodes {
			if nd.Err == nil || len(nd.Sigs) != 0 {
				rt.Fatalf("%s: signer %d returns %v, %v", desc, i, nd.Sigs, nd.Err)
			}
		}
	})
}
