// Package c27 checks the node API: whole nodes connected over the loopback get requests.
package c27

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/binance-chain/tss-lib/crypto"
	"github.com/btcsuite/btcd/btcec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	leaderless = "0.13.0"
	withLeader = "0.14.0"
)

var conf = cluster.Conf(40*time.Second, 120*time.Second, 120*time.Second)

func decodePub(bech string) *btcec.PublicKey {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, bech)
	if err != nil {
		return nil
	}
	p, err := btcec.ParsePubKey(pk.Bytes()[len(pk.Bytes())-33:], btcec.S256())
	if err != nil {
		return nil
	}
	return p
}

// bad tells what is wrong with a successful signing response, "" if nothing is.
func bad(pool string, msgs []string, resp keysign.Response) string {
	if resp.Status != common.Success {
		return fmt.Sprintf("status %d, blame %+v", resp.Status, resp.Blame)
	}
	if len(resp.Signatures) != len(msgs) {
		return fmt.Sprintf("%d signatures for %d messages", len(resp.Signatures), len(msgs))
	}
	var got []string
	for _, s := range resp.Signatures {
		got = append(got, s.Msg)
	}
	if !reflect.DeepEqual(h.Sorted(got), h.Sorted(msgs)) {
		return fmt.Sprintf("signatures are labelled %v, requested %v", got, msgs)
	}
	pub := decodePub(pool)
	if pub == nil {
		return "the pool key is not a public key"
	}
	for i, s := range resp.Signatures {
		var part [4][]byte
		for j, v := range []string{s.Msg, s.R, s.S, s.RecoveryID} {
			b, err := base64.StdEncoding.DecodeString(v)
			if err != nil {
				return fmt.Sprintf("signature %d: %q is not base64", i, v)
			}
			part[j] = b
		}
		if !ecdsa.Verify(pub.ToECDSA(), part[0], new(big.Int).SetBytes(part[1]), new(big.Int).SetBytes(part[2])) {
			return fmt.Sprintf("signature %d does not verify for the message %x it is labelled with", i, part[0])
		}
	}
	return ""
}

// message draws the base64 of something to sign.
func message(rt *rapid.T, label string) string {
	n := rapid.SampledFrom([]int{32, 32, 32, 1, 20, 31}).Draw(rt, label+" size")
	b := h.Bytes(rapid.Uint64().Draw(rt, label), n)
	if n == 32 {
		b[0] &= 0x7f // below the curve order
	}
	if n > 1 && rapid.IntRange(0, 2).Draw(rt, label+" zeros") == 0 {
		copy(b, make([]byte, rapid.IntRange(1, n-1).Draw(rt, label+" zeros")))
	}
	if b[n-1] == 0 {
		b[n-1] = 1
	}
	return base64.StdEncoding.EncodeToString(b)
}

func batch(rt *rapid.T, max int) []string {
	var out []string
	seen := map[string]bool{}
	for n := rapid.IntRange(1, max).Draw(rt, "batch"); len(out) < n; {
		m := message(rt, "message")
		b, _ := base64.StdEncoding.DecodeString(m)
		if v := new(big.Int).SetBytes(b).String(); !seen[v] {
			seen[v] = true
			out = append(out, m)
		}
	}
	return out
}

// delays draws how much later than the first each node gets the request.
func delays(rt *rapid.T, n int) []time.Duration {
	out := make([]time.Duration, n)
	for i := range out {
		out[i] = time.Duration(rapid.SampledFrom([]int{0, 0, 1, 20, 100, 300}).Draw(rt, "delay")) * time.Millisecond
	}
	return out
}

type answer struct {
	resp keysign.Response
	err  error
}

// within runs f for every i at once, each after its delay, and ends the case if that takes too long.
func within(rt *rapid.T, what string, ds []time.Duration, limit time.Duration, f func(i int)) {
	var wg sync.WaitGroup
	done := make(chan struct{})
	for i := range ds {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(ds[i])
			f(i)
		}(i)
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		rt.Fatalf("%s: a call has not returned after %v", what, limit)
	}
}

func sign(rt *rapid.T, c *cluster.Cluster, what string, ds []time.Duration, reqs []keysign.Request) []answer {
	out := make([]answer, len(reqs))
	within(rt, what, ds, 300*time.Second, func(i int) {
		out[i].resp, out[i].err = c.Servers[i].KeySign(reqs[i])
	})
	return out
}

// order is a signing all nodes are asked for.
type order struct {
	pool, version string
	msgs, signers []string
	height        int64
	nodes         []*h.Node
}

func newOrder(rt *rapid.T, pool string, participants []*h.Node) order {
	n := len(participants)
	quorum := (2*n + 2) / 3
	o := order{pool: pool, nodes: participants}
	o.version = rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version")
	o.msgs = batch(rt, 4)
	o.signers = rapid.Permutation(h.Bech32s(participants)).Draw(rt, "signers")[:rapid.IntRange(quorum, n).Draw(rt, "signer count")]
	o.height = int64(rapid.IntRange(1, 1000).Draw(rt, "height"))
	return o
}

// good has every node sign, all of the orders at once, and checks the answers.
func good(rt *rapid.T, c *cluster.Cluster, label string, orders ...order) {
	var reqs []keysign.Request
	var ds []time.Duration
	what := label + ":"
	n := len(c.Servers)
	for _, o := range orders {
		d := delays(rt, n)
		ds = append(ds, d...)
		for range c.Servers {
			reqs = append(reqs, keysign.NewRequest(o.pool, h.Permute(rt, o.msgs, "messages"), o.height, h.Permute(rt, o.signers, "signers"), o.version))
		}
		one := fmt.Sprintf(" signing %v, version %s, signers %v of %d nodes, height %d, delays %v;", o.msgs, o.version, index(o.nodes, o.signers), n, o.height, d)
		h.Seen(fmt.Sprintf("%s %s", label, o.version), one, one)
		what += one
		if o.version == leaderless && len(o.signers) < n {
			h.Label("with observers")
		}
		if len(o.msgs) > 1 {
			h.Label("batches")
		}
	}
	out := make([]answer, len(reqs))
	within(rt, what, ds, 300*time.Second, func(i int) {
		out[i].resp, out[i].err = c.Servers[i%n].KeySign(reqs[i])
	})
	for i, a := range out {
		if a.err != nil {
			rt.Fatalf("%s order %d, node %d: %v", what, i/n, i%n, a.err)
		}
		if b := bad(orders[i/n].pool, orders[i/n].msgs, a.resp); b != "" {
			rt.Fatalf("%s order %d, node %d: %s", what, i/n, i%n, b)
		}
	}
}

func index(ns []*h.Node, keys []string) []int {
	var out []int
	for _, k := range keys {
		for i, n := range ns {
			if n.Bech32 == k {
				out = append(out, i)
			}
		}
	}
	sort.Ints(out)
	return out
}

// refused sends a request that cannot be served to some of the nodes.
func refused(rt *rapid.T, c *cluster.Cluster, pool string, participants []*h.Node) {
	n := len(participants)
	quorum := (2*n + 2) / 3
	kind := rapid.SampledFrom([]string{"unknown pool", "no pool", "undecodable", "no messages", "few signers", "no signers", "bad version", "zero message", "long message", "path pool"}).Draw(rt, "refused")
	req := keysign.NewRequest(pool, batch(rt, 3), int64(rapid.IntRange(1, 1000).Draw(rt, "height")), h.Permute(rt, h.Bech32s(participants), "signers"), rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version"))
	all := false
	switch kind {
	case "unknown pool":
		req.PoolPubKey = h.NodeN(500 + rapid.IntRange(0, 100).Draw(rt, "pool")).Bech32
	case "no pool":
		req.PoolPubKey = rapid.SampledFrom([]string{"", "thorpub", "x"}).Draw(rt, "pool")
	case "path pool":
		req.PoolPubKey = rapid.SampledFrom([]string{"../0/" + pool, "/etc/passwd", "..", "."}).Draw(rt, "pool")
	case "undecodable":
		req.Messages = append(req.Messages, rapid.SampledFrom([]string{"%%%", "abc", "A", "====", "aGVsbG8", "aGVs bG8="}).Draw(rt, "undecodable"))
		req.Messages = h.Permute(rt, req.Messages, "order")
	case "no messages":
		req.Messages = nil
		if rapid.Bool().Draw(rt, "empty") {
			req.Messages = []string{}
		}
	case "few signers":
		req.Version = leaderless
		req.SignerPubKeys = req.SignerPubKeys[:rapid.IntRange(1, quorum-1).Draw(rt, "signer count")]
	case "no signers":
		req.Version = leaderless
		req.SignerPubKeys = nil
	case "bad version":
		req.Version = rapid.SampledFrom([]string{"", "abc", "0.14", "v0.14.0", "0.14.0.1", "-1.0.0"}).Draw(rt, "version")
	case "zero message":
		// nothing can be signed: all nodes get it
		all = true
		req.Messages = append(req.Messages, base64.StdEncoding.EncodeToString(make([]byte, rapid.IntRange(1, 32).Draw(rt, "zeros"))))
	case "long message":
		all = true
		b := h.Bytes(rapid.Uint64().Draw(rt, "long"), 32)
		for i := 0; i < 16; i++ {
			b[i] = 0xff // not below the curve order
		}
		req.Messages = append(req.Messages, base64.StdEncoding.EncodeToString(b))
	}
	ds := make([]time.Duration, n)
	k := n
	if !all {
		k = rapid.IntRange(1, n).Draw(rt, "nodes asked")
	}
	what := fmt.Sprintf("refused (%s): pool %q, messages %v, signers %v, version %q, %d nodes asked", kind, req.PoolPubKey, req.Messages, index(participants, req.SignerPubKeys), req.Version, k)
	h.Seen("refused/"+kind, what, what)
	reqs := make([]keysign.Request, k)
	for i := range reqs {
		reqs[i] = req
		reqs[i].Messages = append([]string(nil), req.Messages...)
		reqs[i].SignerPubKeys = append([]string(nil), req.SignerPubKeys...)
	}
	start := time.Now()
	for i, a := range sign(rt, c, what, ds[:k], reqs) {
		if a.err == nil && a.resp.Status == common.Success {
			rt.Fatalf("%s: node %d reports success: %+v", what, i, a.resp)
		}
		if a.err == nil && a.resp.Status != common.Fail {
			rt.Fatalf("%s: node %d reports neither an error nor a failed status: %+v", what, i, a.resp)
		}
		if len(a.resp.Signatures) > 0 {
			rt.Fatalf("%s: node %d returns signatures: %+v", what, i, a.resp)
		}
	}
	if d := time.Since(start); d > 100*time.Second && !strings.Contains(kind, "message") {
		rt.Fatalf("%s: refused only after %v", what, d)
	}
}

// refusedKeygen asks one node for a key generation that cannot be served.
func refusedKeygen(rt *rapid.T, c *cluster.Cluster, participants []*h.Node) {
	n := len(participants)
	req := keygen.NewRequest(h.Permute(rt, h.Bech32s(participants), "keys"), 10, rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version"))
	kind := rapid.SampledFrom([]string{"bad version", "no keys", "bad key", "not a member"}).Draw(rt, "refused keygen")
	i := rapid.IntRange(0, n-1).Draw(rt, "node")
	switch kind {
	case "bad version":
		req.Version = rapid.SampledFrom([]string{"", "abc", "0.14"}).Draw(rt, "version")
	case "no keys":
		req.Keys = nil
		req.Version = withLeader
	case "bad key":
		req.Keys[rapid.IntRange(0, n-1).Draw(rt, "which")] = rapid.SampledFrom([]string{"", "thorpub", "x", "thorpub1addwnpepq"}).Draw(rt, "key")
	case "not a member":
		return
	}
	what := fmt.Sprintf("refused keygen (%s): %v version %q at node %d", kind, req.Keys, req.Version, i)
	h.Seen("refused keygen/"+kind, what, what)
	within(rt, what, []time.Duration{0}, 100*time.Second, func(int) {
		resp, err := c.Servers[i].Keygen(req)
		if err == nil && resp.Status != common.Fail {
			rt.Errorf("%s: %+v, no error", what, resp)
		}
		if resp.PubKey != "" {
			rt.Errorf("%s: a pool key is returned: %+v", what, resp)
		}
	})
}

// TestServe: nodes holding a pool's shares get sequences of requests.
func TestServe(t *testing.T) {
	h.Rule("serve: 3-5 connected nodes holding a pool's shares get a sequence of requests: signings (1-4 messages, any quorum of signers, either join protocol, every node listing messages and signers in its own order, up to 300 ms apart) and requests that cannot be served; non-trivial: every request, identified by its content")
	h.Shrink(time.Second)
	h.Check(t, 6, 60, 45*time.Second, 20*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 5).Draw(rt, "nodes")
		var nodes []*h.Node
		for i := 0; i < n; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		states := h.States(n)
		c := cluster.New(nodes, conf, states)
		defer c.Close()
		pool := states[0].PubKey
		h.Label(fmt.Sprintf("%d nodes", n))
		var last order
		for step := rapid.IntRange(2, 5).Draw(rt, "steps"); step > 0; step-- {
			switch rapid.IntRange(0, 7).Draw(rt, "step") {
			case 0, 1:
				last = newOrder(rt, pool, nodes)
				good(rt, c, "serve", last)
			case 2:
				last = newOrder(rt, pool, nodes)
				good(rt, c, "serve, two at once", last, newOrder(rt, pool, nodes))
			case 3:
				if last.pool != "" {
					time.Sleep(time.Second)
					good(rt, c, "serve, once more", last)
				}
			case 4, 5, 6:
				refused(rt, c, pool, nodes)
			case 7:
				refusedKeygen(rt, c, nodes)
			}
		}
		good(rt, c, "serve, at the end", newOrder(rt, pool, nodes))
	})
}

// TestGenerate: key generation among connected nodes, then signing with the new key.
func TestGenerate(t *testing.T) {
	h.Rule("generate: 2-4 connected nodes generate a key (each listing the participants in its own order, either join protocol), all get the same key and address, and sign with it; non-trivial: every case, identified by participants, version and order")
	h.Shrink(time.Second)
	h.Check(t, 2, 20, 50*time.Second, 20*time.Minute, func(rt *rapid.T) {
		nodes := h.DistinctNodes(rt, rapid.IntRange(3, 4).Draw(rt, "nodes"), 12, "identities")
		n := len(nodes)
		c := cluster.New(nodes, conf, nil)
		defer c.Close()
		if rapid.Bool().Draw(rt, "refused first") {
			refusedKeygen(rt, c, nodes)
		}
		version := rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version")
		ds := delays(rt, n)
		reqs := make([]keygen.Request, n)
		for i := range reqs {
			reqs[i] = keygen.NewRequest(h.Permute(rt, h.Bech32s(nodes), "keys"), 11, version)
		}
		what := fmt.Sprintf("key generation among %v, version %s, delays %v", h.Bech32s(nodes), version, ds)
		h.Seen("generate "+version, what, what)
		resp := make([]keygen.Response, n)
		errs := make([]error, n)
		within(rt, what, ds, 300*time.Second, func(i int) { resp[i], errs[i] = c.Servers[i].Keygen(reqs[i]) })
		for i := range resp {
			if errs[i] != nil || resp[i].Status != common.Success {
				rt.Fatalf("%s: node %d: %+v, error %v", what, i, resp[i], errs[i])
			}
			if resp[i].PubKey != resp[0].PubKey || resp[i].PoolAddress != resp[0].PoolAddress {
				rt.Fatalf("%s: node %d has %s / %s, node 0 %s / %s", what, i, resp[i].PubKey, resp[i].PoolAddress, resp[0].PubKey, resp[0].PoolAddress)
			}
			if len(resp[i].Blame.BlameNodes) > 0 {
				rt.Fatalf("%s: node %d blames after a success: %+v", what, i, resp[i].Blame)
			}
		}
		pub := decodePub(resp[0].PubKey)
		if pub == nil {
			rt.Fatalf("%s: %q is not a public key", what, resp[0].PubKey)
		}
		pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, resp[0].PubKey)
		h.Must(err)
		_, raw, err := bech32.DecodeAndConvert(resp[0].PoolAddress)
		if err != nil || !bytes.Equal(raw, pk.Address().Bytes()) {
			rt.Fatalf("%s: address %s (%x, %v), the key's is %x", what, resp[0].PoolAddress, raw, err, pk.Address().Bytes())
		}
		good(rt, c, "after key generation", newOrder(rt, resp[0].PubKey, nodes))
	})
}

// TestAbsent: some nodes do not get the request.
func TestAbsent(t *testing.T) {
	h.Rule("absent: 4-6 connected nodes, some of which never get the request; leaderless with all signers asked: every asked node succeeds; with a leader and a quorum asked: all asked nodes succeed, or all fail naming one node that was not asked; below a quorum, or with a signer not asked: no success anywhere; afterwards a request to all is served; non-trivial: every case, identified by nodes asked and signers")
	h.Shrink(time.Second)
	quick := cluster.Conf(6*time.Second, 30*time.Second, 20*time.Second)
	h.Check(t, 2, 40, 35*time.Second, 15*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(4, 6).Draw(rt, "nodes")
		quorum := (2*n + 2) / 3
		var nodes []*h.Node
		for i := 0; i < n; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		c := cluster.New(nodes, quick, h.States(n))
		defer c.Close()
		o := newOrder(rt, h.States(n)[0].PubKey, nodes)
		perm := rapid.Permutation(seq(n)).Draw(rt, "nodes in order")
		kind := rapid.SampledFrom([]string{"observers absent", "a signer absent", "below quorum"}).Draw(rt, "absent")
		isSigner := map[int]bool{}
		for _, i := range index(nodes, o.signers) {
			isSigner[i] = true
		}
		var asked []int
		switch {
		case kind == "below quorum":
			asked = perm[:rapid.IntRange(1, quorum-1).Draw(rt, "asked")]
		case o.version == withLeader:
			asked = perm[:rapid.IntRange(quorum, n-1).Draw(rt, "asked")]
			kind = "with a leader"
		case kind == "observers absent":
			for _, i := range perm {
				if isSigner[i] {
					asked = append(asked, i)
				}
			}
		default:
			gone := index(nodes, o.signers)[rapid.IntRange(0, len(o.signers)-1).Draw(rt, "gone")]
			for _, i := range perm {
				if i != gone && isSigner[i] {
					asked = append(asked, i)
				}
			}
		}
		what := fmt.Sprintf("%s: signing %v, version %s, signers %v of %d nodes, height %d, asked %v", kind, o.msgs, o.version, index(nodes, o.signers), n, o.height, asked)
		h.Seen(kind+" "+o.version, what, what)
		in := map[string]bool{}
		for _, i := range asked {
			in[nodes[i].Bech32] = true
		}
		out := make([]answer, len(asked))
		within(rt, what, make([]time.Duration, len(asked)), 200*time.Second, func(k int) {
			out[k].resp, out[k].err = c.Servers[asked[k]].KeySign(keysign.NewRequest(o.pool, append([]string(nil), o.msgs...), o.height, append([]string(nil), o.signers...), o.version))
		})
		succeeded := 0
		for k, a := range out {
			if a.err != nil || a.resp.Status != common.Success {
				if len(a.resp.Signatures) > 0 {
					rt.Fatalf("%s: node %d fails with signatures: %+v", what, asked[k], a.resp)
				}
				continue
			}
			succeeded++
			if b := bad(o.pool, o.msgs, a.resp); b != "" {
				rt.Fatalf("%s: node %d: %s", what, asked[k], b)
			}
		}
		switch kind {
		case "observers absent":
			if succeeded != len(asked) {
				rt.Fatalf("%s: %d of %d nodes succeed: %+v", what, succeeded, len(asked), out)
			}
		case "with a leader":
			if succeeded == len(asked) {
				h.Label("leader present")
				break
			}
			h.Label("leader absent")
			for k, a := range out {
				if b := a.resp.Blame.BlameNodes; a.err != nil || a.resp.Status != common.Fail || len(b) != 1 || in[b[0].Pubkey] || b[0].Pubkey != out[0].resp.Blame.BlameNodes[0].Pubkey {
					rt.Fatalf("%s: %d of %d nodes succeed; node %d: %+v, error %v", what, succeeded, len(asked), asked[k], a.resp, a.err)
				}
			}
		default:
			if succeeded > 0 {
				rt.Fatalf("%s: %d of %d nodes succeed: %+v", what, succeeded, len(asked), out)
			}
		}
		good(rt, c, "after absences", newOrder(rt, o.pool, nodes))
	})
}

// TestFailed: a signer holds a share that is not its own, so signing with it fails.
func TestFailed(t *testing.T) {
	h.Rule("failed: 3-5 connected nodes of which one holds an altered share (alone, or with what belongs to it, so that only the others notice); all get a request whose signers include it (leaderless) or may include it (with a leader); expected: either it was not chosen and every node succeeds, or no node succeeds, every node reports an error or a failed status, and no node but the altered one blames another; then all get a request that leaves it out, and all succeed; non-trivial: the altered one took part, identified by request")
	h.Shrink(time.Millisecond)
	short := cluster.Conf(20*time.Second, 60*time.Second, 14*time.Second)
	h.Check(t, 2, 40, 40*time.Second, 15*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 5).Draw(rt, "nodes")
		var nodes []*h.Node
		for i := 0; i < n; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		states := h.States(n)
		k := rapid.IntRange(0, n-1).Draw(rt, "altered")
		// either the share alone is altered, which its owner notices, or what belongs to it as well
		d := &states[k].LocalData
		consistent := rapid.Bool().Draw(rt, "consistent")
		old := crypto.ScalarBaseMult(btcec.S256(), d.Xi)
		d.Xi = new(big.Int).Add(d.Xi, big.NewInt(int64(rapid.IntRange(1, 9).Draw(rt, "by"))))
		for j, x := range d.BigXj {
			if consistent && x.X().Cmp(old.X()) == 0 {
				d.BigXj = append([]*crypto.ECPoint(nil), d.BigXj...)
				d.BigXj[j] = crypto.ScalarBaseMult(btcec.S256(), d.Xi)
			}
		}
		c := cluster.New(nodes, short, states)
		defer c.Close()
		o := newOrder(rt, states[0].PubKey, nodes)
		if len(index(nodes[k:k+1], o.signers)) == 0 {
			o.signers[rapid.IntRange(0, len(o.signers)-1).Draw(rt, "place")] = nodes[k].Bech32
		}
		what := fmt.Sprintf("node %d of %d has an altered share (noticed by itself: %v): signing %v, version %s, signers %v, height %d", k, n, !consistent, o.msgs, o.version, index(nodes, o.signers), o.height)
		out := make([]answer, n)
		within(rt, what, delays(rt, n), 100*time.Second, func(i int) {
			out[i].resp, out[i].err = c.Servers[i].KeySign(keysign.NewRequest(o.pool, append([]string(nil), o.msgs...), o.height, append([]string(nil), o.signers...), o.version))
		})
		ok := 0
		for _, a := range out {
			if a.err == nil && a.resp.Status == common.Success {
				ok++
			}
		}
		if ok > 0 {
			h.Seen("not chosen", "", what)
			if ok < n || o.version == leaderless {
				rt.Fatalf("%s: %d nodes succeed: %+v", what, ok, out)
			}
			for i, a := range out {
				if b := bad(o.pool, o.msgs, a.resp); b != "" {
					rt.Fatalf("%s: node %d: %s", what, i, b)
				}
			}
		} else {
			h.Seen("failed "+o.version, what, what)
			named, late := 0, ""
			for i, a := range out {
				if a.err == nil && a.resp.Status != common.Fail {
					rt.Fatalf("%s: node %d reports neither an error nor a failed status: %+v", what, i, a.resp)
				}
				if len(a.resp.Signatures) > 0 {
					rt.Fatalf("%s: node %d fails with signatures: %+v", what, i, a.resp)
				}
				if r := a.resp.Blame; o.version == withLeader && r.FailReason == blame.TssSyncFail && len(r.BlameNodes) == 1 && (late == "" || late == r.BlameNodes[0].Pubkey) {
					late = r.BlameNodes[0].Pubkey // came after the party was formed: the leader does not answer
					continue
				}
				for _, b := range a.resp.Blame.BlameNodes {
					if b.Pubkey == nodes[k].Bech32 {
						named++
					} else if i != k {
						rt.Fatalf("%s: node %d blames %v", what, i, index(nodes, []string{b.Pubkey}))
					}
				}
			}
			// of two signers, the other one has nothing to tell who of them is missing
			signers := len(o.signers)
			if o.version == withLeader {
				signers = (2*n + 2) / 3
			}
			if named == 0 && (consistent || signers > 2) {
				rt.Fatalf("%s: nobody blames the altered node: %+v", what, out)
			}
		}
		next := newOrder(rt, o.pool, nodes)
		next.version = leaderless
		next.signers = nil
		for i, nd := range nodes {
			if i != k {
				next.signers = append(next.signers, nd.Bech32)
			}
		}
		good(rt, c, "after a failure", next)
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
