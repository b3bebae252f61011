package c05

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	tcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/party"
	"verif/sim"
)

const (
	notifierProto protocol.ID = "/p2p/signatureNotifier"
	tssProto      protocol.ID = "/p2p/tss"
)

// junkFrame spoils the bytes of a frame or its payload.
func junkFrame(rng *rand.Rand, payload []byte) []byte {
	p := append([]byte(nil), payload...)
	switch rng.Intn(6) {
	case 0:
		p = make([]byte, rng.Intn(100))
		rng.Read(p)
	case 1, 2:
		for k := 0; k <= rng.Intn(4) && len(p) > 0; k++ {
			p[rng.Intn(len(p))] = byte(rng.Intn(256))
		}
	case 3:
		p = p[:rng.Intn(len(p)+1)]
	}
	f := party.Frame(p)
	switch rng.Intn(6) {
	case 0:
		f = f[:rng.Intn(len(f)+1)]
	case 1:
		binary.LittleEndian.PutUint32(f, rng.Uint32())
	case 2:
		f = append(f, f...)
	}
	return f
}

func send(from host.Host, to peer.ID, pid protocol.ID, b []byte, how int) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	s, err := from.NewStream(ctx, to, pid)
	if err != nil {
		return
	}
	_, _ = s.Write(b)
	switch how {
	case 0:
		_ = s.Reset()
	default:
		_ = s.Close()
	}
}

func ecdsaSet(priv *btcec.PrivateKey, msgs [][]byte) []*tcommon.ECSignature {
	var out []*tcommon.ECSignature
	for _, m := range msgs {
		c, err := btcec.SignCompact(btcec.S256(), priv, m, true)
		h.Must(err)
		out = append(out, &tcommon.ECSignature{Signature: append([]byte(nil), c[1:]...), SignatureRecovery: []byte{(c[0] - 27) & 3}, R: append([]byte(nil), c[1:33]...), S: append([]byte(nil), c[33:]...), M: m})
	}
	return out
}

// TestProtocols: malformed frames on the party formation and signature notification protocols.
func TestProtocols(t *testing.T) {
	h.Rule("protocols: an attacker host sends 5..60 malformed frames (spoiled, cut, oversized or repeated frames of valid payloads of the very ceremonies under way, random bytes, reset streams) on the join-party, join-party-leader and signature-notification protocols of a node, before and while it forms a leaderless party, a leader-led party and waits for a signature set; all three must succeed and no handler may panic; every case non-trivial, keyed by the frames")
	h.Shrink(15 * time.Second)
	h.Check(t, 18, 900, 30*time.Second, 15*time.Minute, func(rt *rapid.T) {
		nodes := h.DistinctNodes(rt, 3, 30, "nodes")
		seed := int64(rapid.Uint32().Draw(rt, "seed"))
		count := rapid.IntRange(5, 60).Draw(rt, "count")
		gap := rapid.SampledFrom([]int{0, 1, 5}).Draw(rt, "gap")
		rng := rand.New(rand.NewSource(seed))
		id := fmt.Sprint("ceremony", rng.Int63())
		ids := []string{nodes[0].Peer.String(), nodes[1].Peer.String()}
		height := int64(1)
		wantLeader := nodes[rng.Intn(2)].Peer.String()
		for ; ; height++ {
			if l, err := p2p.LeaderNode(id, height, ids); err != nil {
				rt.Fatalf("LeaderNode: %v", err)
			} else if l == wantLeader {
				break
			}
		}
		pool := rng.Intn(1000)
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), h.Bytes(uint64(pool), 32))
		msgs := [][]byte{h.Bytes(uint64(pool)+1, 32), h.Bytes(uint64(pool)+2, 32)}
		set := ecdsaSet(priv, msgs)
		var sigs [][]byte
		for _, s := range set {
			b, err := proto.Marshal(s)
			h.Must(err)
			sigs = append(sigs, b)
		}
		valid, err := proto.Marshal(&messages.KeysignSignature{ID: id, KeysignStatus: messages.KeysignSignature_Success, Signatures: sigs})
		h.Must(err)
		h.Case("seed=%d count=%d gap=%d nodes=%v", seed, count, gap, []int{nodes[0].Idx, nodes[1].Idx, nodes[2].Idx})
		m := party.New(nodes, 20*time.Second, func(i, j int) time.Duration { return 0 })
		defer m.Close()
		notifier := keysign.NewSignatureNotifier(m.Hosts[0])
		payloads := map[protocol.ID][][]byte{
			party.Leaderless: {party.Request(id, false)[4:]},
			party.Leader:     {party.Request(id, true)[4:], party.Response(id, messages.JoinPartyLeaderComm_Success, []string{nodes[2].Peer.String(), ids[0]})[4:], party.Response(id, messages.JoinPartyLeaderComm_Timeout, nil)[4:]},
			notifierProto:    {valid, valid[:len(valid)/2], {}},
		}
		bad := ecdsaSet(priv, [][]byte{msgs[1], msgs[0]})
		for _, s := range [][]*tcommon.ECSignature{bad, bad[:1], {set[0], {}}, {{}, {}}, {{R: []byte{0}, S: []byte{0}, SignatureRecovery: []byte{9}}, set[1]}} {
			var raw [][]byte
			for _, x := range s {
				b, err := proto.Marshal(x)
				h.Must(err)
				raw = append(raw, b)
			}
			b, err := proto.Marshal(&messages.KeysignSignature{ID: id, KeysignStatus: messages.KeysignSignature_Success, Signatures: raw})
			h.Must(err)
			payloads[notifierProto] = append(payloads[notifierProto], b)
		}
		attack := func(k int) {
			pid := []protocol.ID{party.Leaderless, party.Leader, notifierProto}[rng.Intn(3)]
			ps := payloads[pid]
			b := ps[rng.Intn(len(ps))]
			var f []byte
			if !bytes.Equal(b, valid) && rng.Intn(4) == 0 {
				f = party.Frame(b) // well formed, not valid
			} else {
				f = junkFrame(rng, b)
			}
			send(m.Hosts[2], nodes[0].Peer, pid, f, rng.Intn(5))
			time.Sleep(time.Duration(gap) * time.Millisecond)
		}
		for k := 0; k < count/3; k++ {
			attack(k)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		problems := ""
		report := func(f string, a ...interface{}) {
			mu.Lock()
			problems += fmt.Sprintf(f, a...) + "; "
			mu.Unlock()
		}
		for i := 0; i < 2; i++ {
			i := i
			wg.Add(2)
			go func() {
				defer wg.Done()
				ps, err := m.PC[i].JoinPartyWithRetry(id, ids)
				if err != nil || len(ps) != 2 {
					report("leaderless party at %d: %v %v", i, m.Indices(ps), err)
				}
			}()
			go func() {
				defer wg.Done()
				ps, _, err := m.PC[i].JoinPartyWithLeader(id+"L", height, ids, 1, make(chan string, 1))
				if err != nil || len(ps) != 2 {
					report("leader-led party at %d: %v %v", i, m.Indices(ps), err)
				}
			}()
		}
		// the leader-led party has its own id; its frames too
		payloads[party.Leader] = [][]byte{party.Request(id+"L", true)[4:], party.Response(id+"L", messages.JoinPartyLeaderComm_Success, []string{nodes[2].Peer.String(), ids[0]})[4:], party.Response(id+"L", messages.JoinPartyLeaderComm_Timeout, nil)[4:]}
		wg.Add(1)
		attacked := make(chan struct{})
		go func() {
			defer wg.Done()
			got, err := notifier.WaitForSignature(id, msgs, h.Bech32Pub(pub.SerializeCompressed()), 20*time.Second, make(chan string, 1))
			if err != nil || len(got) != 2 {
				report("waiting for the signatures: %v %v", len(got), err)
			}
		}()
		go func() {
			for k := 0; k < count-count/3; k++ {
				attack(k)
			}
			close(attacked)
		}()
		time.Sleep(30 * time.Millisecond)
		<-attacked
		send(m.Hosts[1], nodes[0].Peer, notifierProto, party.Frame(valid), 1)
		wg.Wait()
		h.Seen("protocols", fmt.Sprint(seed, count, gap), map[string]interface{}{"seed": seed, "frames": count})
		if problems != "" {
			rt.Fatalf("after %d malformed frames: %s", count, problems)
		}
	})
}

// TestTransport: malformed frames on the ceremony protocol of a real node.
func TestTransport(t *testing.T) {
	h.Rule("transport: a raw host sends 1..25 malformed frames (spoiled JSON of a wrapped message at any place, spoiled frames, reset streams) on the ceremony protocol of a real node, then a valid message; the node delivers it; non-trivial always, keyed by the frames")
	nodes := []*h.Node{h.NodeN(40), h.NodeN(41)}
	c := sim.Comm(nodes[0])
	n := 0
	h.Check(t, 3000, 60000, 12*time.Second, 6*time.Minute, func(rt *rapid.T) {
		seed := int64(rapid.Uint32().Draw(rt, "seed"))
		rng := rand.New(rand.NewSource(seed))
		count := rapid.IntRange(1, 25).Draw(rt, "count")
		n++
		id := fmt.Sprintf("id%d-%d", n, seed)
		ch := make(chan *p2p.Message, 200)
		typ := messages.THORChainTSSMessageType(rapid.IntRange(0, 6).Draw(rt, "type"))
		c.SetSubscribe(typ, id, ch)
		defer c.CancelSubscribe(typ, id)
		good, err := json.Marshal(messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte(`{"hello":[1,2]}`)})
		h.Must(err)
		h.Case("seed=%d count=%d type=%d", seed, count, typ)
		// one connection per case: yamux limits the streams a closing peer leaves unacknowledged
		raw := h.RawHost(nodes[1])
		defer raw.Close()
		h.Connect(raw, c.GetHost())
		for k := 0; k < count; k++ {
			var f []byte
			if rng.Intn(2) == 0 {
				b, _ := sim.JunkJSON(rng, good)
				f = party.Frame(b)
			} else {
				f = junkFrame(rng, sim.JunkBytes(rng, good))
			}
			send(raw, nodes[0].Peer, tssProto, f, rng.Intn(6))
		}
		good, err = json.Marshal(messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte("the valid one")})
		h.Must(err)
		send(raw, nodes[0].Peer, tssProto, party.Frame(good), 1)
		h.Seen("transport", fmt.Sprint(seed, count), map[string]interface{}{"seed": seed, "frames": count})
		deadline := time.After(15 * time.Second)
		for {
			select {
			case m := <-ch:
				if bytes.Equal(m.Payload, good) && m.PeerID == nodes[1].Peer {
					return
				}
			case <-deadline:
				rt.Fatalf("seed %d: after %d malformed frames the node does not deliver a valid message", seed, count)
			}
		}
	})
}

var keygenLabels = []string{messages.KEYGEN1, messages.KEYGEN2aUnicast, messages.KEYGEN2b, messages.KEYGEN3}
var keysignLabels = []string{messages.KEYSIGN1aUnicast, messages.KEYSIGN1b, messages.KEYSIGN2Unicast, messages.KEYSIGN3, messages.KEYSIGN4, messages.KEYSIGN5, messages.KEYSIGN6, messages.KEYSIGN7}

func ceremony(rt *rapid.T, timeout time.Duration) (*sim.Net, func(), string) {
	isKeygen := rapid.IntRange(0, 3).Draw(rt, "keygen") == 0
	pol := sim.Policy{
		Order:   rapid.SampledFrom([]string{"fifo", "random", "pernode", "vermsgfirst", "lifo"}).Draw(rt, "order"),
		Seed:    int64(rapid.Uint32().Draw(rt, "seed")),
		Settle:  2 * time.Millisecond,
		Timeout: 120 * time.Second,
	}
	conf := sim.DefaultConf()
	conf.KeyGenTimeout, conf.KeySignTimeout = timeout, timeout
	if isKeygen {
		n := rapid.SampledFrom([]int{3, 4}).Draw(rt, "n")
		nodes := h.DistinctNodes(rt, n, 30, "members")
		net, run := sim.Keygen(nodes, "id", pol, conf, h.PreParams, nil)
		return net, run, fmt.Sprintf("keygen n=%d policy=%+v", n, pol)
	}
	size := rapid.SampledFrom([]int{4, 3, 5}).Draw(rt, "pool")
	all := h.States(size)
	k := rapid.IntRange(cer.Threshold(size)+1, size).Draw(rt, "k")
	var nodes []*h.Node
	var st []storage.KeygenLocalState
	for _, i := range h.Permute(rt, seq(size), "who")[:k] {
		nodes = append(nodes, h.NodeN(i))
		st = append(st, all[i])
	}
	var msgs [][]byte
	for i := rapid.IntRange(1, 2).Draw(rt, "batch"); i > 0; i-- {
		msgs = append(msgs, h.Bytes(uint64(i)+7, 32))
	}
	net, run := sim.Keysign(nodes, "id", pol, conf, st, h.Bech32s(nodes), msgs, nil)
	return net, run, fmt.Sprintf("keysign pool=%d k=%d batch=%d policy=%+v", size, k, len(msgs), pol)
}

// TestNoise: real ceremonies with malformed messages in between; they must succeed.
func TestNoise(t *testing.T) {
	h.Rule("noise: a real keygen (n=3..4) or keysign in which 40% of the messages are followed by spoiled copies of them (JSON spoiled at any depth or raw garbage), sent by a member other than the owner, or by messages of unknown kinds; every party succeeds; every case non-trivial, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 10, 600, 40*time.Second, 30*time.Minute, func(rt *rapid.T) {
		net, run, desc := ceremony(rt, 60*time.Second)
		n := len(net.Nodes)
		rng := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(rt, "noise"))))
		byz := rapid.IntRange(0, n-1).Draw(rt, "byz")
		h.Case("noise %s byz=%d", desc, byz)
		count := 0
		net.Filter = func(m sim.Msg) []sim.Msg {
			out := []sim.Msg{m}
			for rng.Intn(100) < 40 {
				x := m
				// only what an honest owner sent is spoiled, and it is not signed again: nobody may be taken in by it
				switch {
				case m.Type == messages.TSSKeyGenMsg || m.Type == messages.TSSKeySignMsg:
					if m.From == byz {
						return out
					}
					x.Body, _ = sim.JunkJSON(rng, m.Body)
				case m.Type == messages.TSSKeyGenVerMsg || m.Type == messages.TSSKeySignVerMsg:
					x.Body = sim.JunkBytes(rng, []byte(`{"message_type":2,"message_id":"id","payload":"e30="}`))
				default:
					x.Body = sim.JunkBytes(rng, m.Body)
				}
				if bytes.Equal(x.Body, m.Body) || m.To == byz {
					return out
				}
				x.From = byz
				count++
				out = append(out, x)
			}
			return out
		}
		run()
		h.Seen("noise", fmt.Sprint(desc, byz), map[string]interface{}{"case": desc, "spoiled": count})
		for i, nd := range net.Nodes {
			if nd.Panic != nil {
				rt.Fatalf("%s: node %d panics: %v", desc, i, nd.Panic)
			}
			if nd.Err != nil {
				rt.Fatalf("%s byz=%d: node %d fails: %v, blames %v", desc, byz, i, nd.Err, net.Blamed(nd))
			}
		}
	})
}

// TestSpoiled: real ceremonies in which one member's own messages are spoiled and signed; nobody may crash.
func TestSpoiled(t *testing.T) {
	h.Rule("spoiled: a real keygen or keysign in which one member's messages of a drawn round are spoiled (one value of the share altered in 12 ways, or its JSON at any depth) and signed by it; every other node ends its call, with a result or an error; non-trivial: something was spoiled, keyed by everything drawn")
	h.Shrink(5 * time.Second)
	h.Check(t, 16, 900, 55*time.Second, 40*time.Minute, func(rt *rapid.T) {
		net, run, desc := ceremony(rt, 4*time.Second)
		n := len(net.Nodes)
		byz := rapid.IntRange(0, n-1).Draw(rt, "byz")
		labels := keysignLabels
		if desc[:6] == "keygen" {
			labels = keygenLabels
		}
		label := rapid.SampledFrom(labels).Draw(rt, "label")
		kind := rapid.SampledFrom(append([]string{"json", "json"}, sim.Alterations...)).Draw(rt, "kind")
		aseed := int64(rapid.Uint32().Draw(rt, "altseed"))
		desc += fmt.Sprintf(" byz=%d %s %s %d", byz, label, kind, aseed)
		h.Case("spoiled %s", desc)
		rng := rand.New(rand.NewSource(aseed))
		var mu sync.Mutex
		what := ""
		cache := map[string][]byte{}
		net.Filter = func(m sim.Msg) []sim.Msg {
			if m.From != byz || m.Round != label {
				return []sim.Msg{m}
			}
			mu.Lock()
			defer mu.Unlock()
			b, ok := cache[string(m.Body)]
			if !ok {
				var d string
				if kind == "json" {
					b, d = spoilJSON(rng, net, m)
				} else {
					b, d = net.AlterBody(rng, m, kind)
				}
				if b == nil {
					b = m.Body
				} else {
					what += d + "; "
				}
				cache[string(m.Body)] = b
			}
			x := m
			x.Body = b
			return []sim.Msg{x}
		}
		run()
		key := ""
		if what != "" {
			key = desc
		}
		h.Seen("spoiled", key, map[string]interface{}{"case": desc, "what": what[:min(len(what), 300)]})
		for i, nd := range net.Nodes {
			if nd.Panic != nil {
				rt.Fatalf("%s (%s): node %d panics: %v", desc, what, i, nd.Panic)
			}
			if nd.Err == nil {
				h.Label("went through")
			} else if errors.Is(nd.Err, blame.ErrTssTimeOut) {
				h.Label("timed out")
			} else {
				h.Label("failed")
			}
		}
	})
}

// spoilJSON spoils the signed part of a message and signs it.
func spoilJSON(rng *rand.Rand, net *sim.Net, m sim.Msg) ([]byte, string) {
	var w messages.WrappedMessage
	h.Must(json.Unmarshal(m.Body, &w))
	var wire messages.WireMessage
	h.Must(json.Unmarshal(w.Payload, &wire))
	body, where := sim.JunkJSON(rng, wire.Message)
	wire.Message = body
	wire.Sig = cer.Sign(net.Nodes[m.From].N, body, net.MsgID)
	var err error
	w.Payload, err = json.Marshal(wire)
	h.Must(err)
	out, err := json.Marshal(w)
	h.Must(err)
	return out, where
}
