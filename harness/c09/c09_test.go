// Package c09 decides C09: a signature set received from a peer is accepted only if complete and valid.
package c09

import (
	"context"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"math/big"
	"testing"
	"time"

	tcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/golang/protobuf/proto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const proto09 protocol.ID = "/p2p/signatureNotifier"

var order = btcec.S256().N

// pool is a pool key whose secret the harness knows.
type pool struct {
	priv *btcec.PrivateKey
	pub  *btcec.PublicKey
	b32  string
}

func poolN(i int) pool {
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), h.Bytes(uint64(1000+i), 32))
	return pool{priv, pub, h.Bech32Pub(pub.SerializeCompressed())}
}

// sign gives a signature as the parties of the pool would.
func (p pool) sign(msg []byte) *tcommon.ECSignature {
	c, err := btcec.SignCompact(btcec.S256(), p.priv, msg, true)
	h.Must(err)
	m := msg
	if len(m) > 32 {
		m = m[:32]
	}
	return &tcommon.ECSignature{
		Signature:         append([]byte(nil), c[1:]...),
		SignatureRecovery: []byte{(c[0] - 27) & 3},
		R:                 append([]byte(nil), c[1:33]...),
		S:                 append([]byte(nil), c[33:]...),
		M:                 new(big.Int).SetBytes(m).Bytes(),
	}
}

// valid is the oracle: one signature per message, each verifying and recovering the pool key.
func valid(p pool, set []*tcommon.ECSignature, msgs [][]byte) bool {
	if len(set) != len(msgs) {
		return false
	}
	for i, s := range set {
		if s == nil {
			return false
		}
		r, ss := new(big.Int).SetBytes(s.R), new(big.Int).SetBytes(s.S)
		if !ecdsa.Verify(p.pub.ToECDSA(), msgs[i], r, ss) {
			return false
		}
		if len(s.SignatureRecovery) != 1 || s.SignatureRecovery[0] > 3 {
			return false
		}
		c := make([]byte, 65)
		c[0] = 31 + s.SignatureRecovery[0]
		r.FillBytes(c[1:33])
		ss.FillBytes(c[33:])
		got, _, err := btcec.RecoverCompact(btcec.S256(), c, msgs[i])
		if err != nil || !got.IsEqual(p.pub) {
			return false
		}
	}
	return true
}

func clone(s *tcommon.ECSignature) *tcommon.ECSignature {
	if s == nil {
		return nil
	}
	b := func(x []byte) []byte { return append([]byte(nil), x...) }
	return &tcommon.ECSignature{Signature: b(s.Signature), SignatureRecovery: b(s.SignatureRecovery), R: b(s.R), S: b(s.S), M: b(s.M)}
}

func genMsgs(rt *rapid.T) [][]byte {
	var out [][]byte
	for i := rapid.IntRange(1, 5).Draw(rt, "batch"); i > 0; i-- {
		if len(out) > 0 && rapid.IntRange(0, 9).Draw(rt, "again") == 9 {
			out = append(out, out[0])
			continue
		}
		l := rapid.SampledFrom([]int{32, 32, 1, 20, 33, 64}).Draw(rt, "len")
		out = append(out, rapid.SliceOfN(rapid.Byte(), l, l).Draw(rt, "msg"))
	}
	return out
}

var kinds = []string{"drop", "extra copy", "extra foreign", "swap", "rotate", "other key", "other message", "flip r", "flip s", "flip recovery", "no recovery", "long recovery", "high s", "nil entry", "empty entry", "no signature field", "zero r", "zero s", "order r", "s plus order", "long r", "leading zero r", "empty", "one for all", "duplicate one", "m swapped", "none"}

// spoil derives a set from a valid one.
func spoil(rt *rapid.T, p pool, set []*tcommon.ECSignature, msgs [][]byte, kind string) []*tcommon.ECSignature {
	out := make([]*tcommon.ECSignature, len(set))
	for i := range set {
		out[i] = clone(set[i])
	}
	at := rapid.IntRange(0, len(out)-1).Draw(rt, "at")
	s := out[at]
	switch kind {
	case "drop":
		return append(out[:at], out[at+1:]...)
	case "extra copy":
		return append(out, clone(s))
	case "extra foreign":
		return append(out, p.sign([]byte("another")))
	case "swap":
		b := rapid.IntRange(0, len(out)-1).Draw(rt, "with")
		out[at], out[b] = out[b], out[at]
	case "rotate":
		return append(out[1:], out[0])
	case "other key":
		out[at] = poolN(77).sign(msgs[at])
	case "other message":
		out[at] = p.sign(append([]byte("x"), msgs[at]...))
	case "flip r":
		s.R[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
	case "flip s":
		s.S[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
	case "flip recovery":
		s.SignatureRecovery[0] ^= byte(rapid.IntRange(1, 255).Draw(rt, "mask"))
	case "no recovery":
		s.SignatureRecovery = nil
	case "long recovery":
		s.SignatureRecovery = append(s.SignatureRecovery, 0)
	case "high s":
		s.S = new(big.Int).Sub(order, new(big.Int).SetBytes(s.S)).Bytes()
		if rapid.Bool().Draw(rt, "and recovery") {
			s.SignatureRecovery[0] ^= 1
		}
	case "nil entry":
		out[at] = nil
	case "empty entry":
		out[at] = &tcommon.ECSignature{}
	case "no signature field":
		s.Signature = nil
	case "zero r":
		s.R = []byte{0}
	case "zero s":
		s.S = nil
	case "order r":
		s.R = order.Bytes()
	case "s plus order":
		s.S = new(big.Int).Add(order, new(big.Int).SetBytes(s.S)).Bytes()
	case "long r":
		s.R = h.Bytes(5, 100)
	case "leading zero r":
		s.R = append(make([]byte, rapid.IntRange(1, 40).Draw(rt, "zeros")), s.R...)
	case "empty":
		return nil
	case "one for all":
		for i := range out {
			out[i] = clone(s)
		}
	case "duplicate one":
		out[(at+1)%len(out)] = clone(s)
	case "m swapped":
		s.M = []byte("something else")
	}
	return out
}

func same(a, b []*tcommon.ECSignature) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || !proto.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// TestNotifier: the decision itself.
func TestNotifier(t *testing.T) {
	h.Rule("decision: a notifier for a batch of 1..5 messages (lengths 1..64, repeats), fed 1..4 sets derived from the valid one in 27 ways, then the valid one; finished exactly for the sets an independent check (ecdsa.Verify + public key recovery per message) calls valid, and the result is that very set; non-trivial: at least one set is neither valid nor empty, keyed by kinds and batch")
	h.Check(t, 1500, 60000, 20*time.Second, 10*time.Minute, func(rt *rapid.T) {
		p := poolN(rapid.IntRange(0, 20).Draw(rt, "pool"))
		msgs := genMsgs(rt)
		var good []*tcommon.ECSignature
		for _, m := range msgs {
			good = append(good, p.sign(m))
		}
		n, err := keysign.NewNotifier("id", msgs, p.b32)
		if err != nil {
			rt.Fatalf("NewNotifier: %v", err)
		}
		var tried []string
		bad := false
		for i := rapid.IntRange(1, 4).Draw(rt, "sets"); i >= 0; i-- {
			kind := "none"
			if i > 0 {
				kind = rapid.SampledFrom(kinds).Draw(rt, "kind")
			}
			set := spoil(rt, p, good, msgs, kind)
			tried = append(tried, kind)
			desc := fmt.Sprintf("batch %d, sets %v", len(msgs), tried)
			h.Case("%s", desc)
			want := valid(p, set, msgs)
			dontcare := want && kind == "no signature field"
			done, err := n.ProcessSignature(set)
			if !want && len(set) > 0 {
				bad = true
			}
			if dontcare && !done {
				continue
			}
			if done != want {
				rt.Fatalf("%s: finished=%v (%v), the set is valid=%v", desc, done, err, want)
			}
			if !want && len(set) > 0 && err == nil {
				rt.Fatalf("%s: an invalid set is not reported as an error", desc)
			}
			if done {
				select {
				case got := <-n.GetResponseChannel():
					if !same(got, set) {
						rt.Fatalf("%s: another set is handed out", desc)
					}
				default:
					rt.Fatalf("%s: nothing is handed out", desc)
				}
				break
			}
			select {
			case got := <-n.GetResponseChannel():
				rt.Fatalf("%s: %v is handed out though not finished", desc, got)
			default:
			}
		}
		if bad {
			h.Seen("decision", fmt.Sprint(len(msgs), tried, p.b32), map[string]interface{}{"batch": len(msgs), "sets": tried})
		}
	})
}

// send writes a framed payload to the notifier protocol of a host and waits for the reply.
func send(from, to host.Host, payload []byte, raw bool) error {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s, err := from.NewStream(ctx, to.ID(), proto09)
	if err != nil {
		return err
	}
	defer func() { _ = s.Reset() }()
	if raw {
		_, err = s.Write(payload)
		_ = s.Close()
		time.Sleep(2 * time.Millisecond)
		return err
	}
	if err := p2p.WriteStreamWithBuffer(payload, s); err != nil {
		return err
	}
	_ = s.SetReadDeadline(time.Now().Add(5 * time.Second))
	_, err = s.Read(make([]byte, 8))
	return err
}

func marshal(id string, status messages.KeysignSignature_Status, set []*tcommon.ECSignature) []byte {
	m := &messages.KeysignSignature{ID: id, KeysignStatus: status}
	for _, s := range set {
		if s == nil {
			m.Signatures = append(m.Signatures, nil)
			continue
		}
		b, err := proto.Marshal(s)
		h.Must(err)
		m.Signatures = append(m.Signatures, b)
	}
	b, err := proto.Marshal(m)
	h.Must(err)
	return b
}

type result struct {
	set []*tcommon.ECSignature
	err error
}

// TestWait: waiting nodes over real connections.
func TestWait(t *testing.T) {
	h.Rule("wait: two hosts wait for two ceremonies each; a third host delivers 0..5 bad things (spoiled sets, sets of the other ceremony, failed status, garbage frames and protobufs), then the valid set (raw, or broadcast by a signature notifier), or nothing; the wait returns exactly the valid set for its ceremony, or the timeout, or ErrSigGenerated when told so; non-trivial: something bad came before, keyed by the history")
	var hosts []host.Host
	var notifiers []*keysign.SignatureNotifier
	for i := 0; i < 3; i++ {
		hst := h.RawHost(h.NodeN(i))
		hosts = append(hosts, hst)
		notifiers = append(notifiers, keysign.NewSignatureNotifier(hst))
	}
	h.Connect(hosts[2], hosts[0])
	h.Connect(hosts[2], hosts[1])
	seqNo := 0
	h.Check(t, 250, 8000, 40*time.Second, 15*time.Minute, func(rt *rapid.T) {
		seqNo++
		type wait struct {
			node int
			id   string
			p    pool
			msgs [][]byte
			good []*tcommon.ECSignature
			sig  chan string
			res  chan result
		}
		var waits []*wait
		ids := []string{fmt.Sprintf("a-%d", seqNo), fmt.Sprintf("b-%d", seqNo)}
		ends := make([]string, 0, 4)
		timeout := 20 * time.Second
		for i := 0; i < 4; i++ {
			ends = append(ends, rapid.SampledFrom([]string{"raw", "raw", "broadcast", "generated"}).Draw(rt, "end"))
		}
		if rapid.IntRange(0, 14).Draw(rt, "all time out") == 14 {
			timeout = 600 * time.Millisecond
			for i := range ends {
				ends[i] = "timeout"
			}
		}
		for c := 0; c < 2; c++ {
			p := poolN(rapid.IntRange(0, 20).Draw(rt, "pool"))
			msgs := genMsgs(rt)
			var good []*tcommon.ECSignature
			for _, m := range msgs {
				good = append(good, p.sign(m))
			}
			for node := 0; node < 2; node++ {
				waits = append(waits, &wait{node: node, id: ids[c], p: p, msgs: msgs, good: good, sig: make(chan string, 2), res: make(chan result, 1)})
			}
		}
		start := time.Now()
		for _, w := range waits {
			go func(w *wait) {
				set, err := notifiers[w.node].WaitForSignature(w.id, w.msgs, w.p.b32, timeout, w.sig)
				w.res <- result{set, err}
			}(w)
		}
		time.Sleep(3 * time.Millisecond)
		var hist []string
		for i := rapid.IntRange(0, 5).Draw(rt, "bad"); i > 0; i-- {
			w := waits[rapid.IntRange(0, 3).Draw(rt, "to")]
			kind := rapid.SampledFrom(append([]string{"garbage frame", "garbage proto", "failed status", "other ceremony", "unknown id", "garbage entry", "empty frame"}, kinds...)).Draw(rt, "kind")
			var payload []byte
			raw := false
			switch kind {
			case "garbage frame":
				payload, raw = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "bytes"), true
			case "garbage proto":
				payload = rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "bytes")
			case "failed status":
				payload = marshal(w.id, messages.KeysignSignature_Failed, w.good)
			case "other ceremony":
				for _, x := range waits {
					if x.id != w.id {
						payload = marshal(w.id, messages.KeysignSignature_Success, x.good)
					}
				}
			case "unknown id":
				payload = marshal(w.id+"x", messages.KeysignSignature_Success, w.good)
			case "garbage entry":
				var m messages.KeysignSignature
				h.Must(proto.Unmarshal(marshal(w.id, messages.KeysignSignature_Success, w.good), &m))
				m.Signatures[0] = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "entry")
				var err error
				payload, err = proto.Marshal(&m)
				h.Must(err)
			case "empty frame":
				payload = []byte{}
			default:
				set := spoil(rt, w.p, w.good, w.msgs, kind)
				if valid(w.p, set, w.msgs) {
					continue
				}
				payload = marshal(w.id, messages.KeysignSignature_Success, set)
			}
			hist = append(hist, fmt.Sprintf("%s@%d:%s", kind, w.node, w.id[:1]))
			h.Case("%v", hist)
			err := send(hosts[2], hosts[w.node], payload, raw)
			if err != nil && kind != "garbage frame" && kind != "empty frame" {
				rt.Fatalf("%v: the delivery is not acknowledged: %v", hist, err)
			}
		}
		// what was handled is handled
		time.Sleep(4 * time.Millisecond)
		for i, w := range waits {
			desc := fmt.Sprintf("%v, then %s for node %d ceremony %s (batch %d)", hist, ends[i], w.node, w.id[:1], len(w.msgs))
			select {
			case r := <-w.res:
				if ends[i] == "timeout" && time.Since(start) > timeout {
					w.res <- r
				} else {
					rt.Fatalf("%s: the wait ended early with %v, %v", desc, r.set, r.err)
				}
			default:
			}
			switch ends[i] {
			case "raw":
				h.Must(send(hosts[2], hosts[w.node], marshal(w.id, messages.KeysignSignature_Success, w.good), false))
			case "broadcast":
				if err := notifiers[2].BroadcastSignature(w.id, w.good, []peer.ID{hosts[2].ID(), hosts[w.node].ID()}); err != nil {
					rt.Fatalf("%s: %v", desc, err)
				}
			case "generated":
				w.sig <- "signature generated"
			}
			var r result
			select {
			case r = <-w.res:
			case <-time.After(timeout + 10*time.Second):
				rt.Fatalf("%s: the wait never ends", desc)
			}
			switch ends[i] {
			case "raw", "broadcast":
				if r.err != nil || !same(r.set, w.good) {
					rt.Fatalf("%s: the wait returns %v, %v", desc, r.set, r.err)
				}
			case "generated":
				if !errors.Is(r.err, p2p.ErrSigGenerated) || len(r.set) != 0 {
					rt.Fatalf("%s: the wait returns %v, %v", desc, r.set, r.err)
				}
			case "timeout":
				if r.err == nil || errors.Is(r.err, p2p.ErrSigGenerated) || len(r.set) != 0 {
					rt.Fatalf("%s: the wait returns %v, %v", desc, r.set, r.err)
				}
			}
		}
		for _, n := range notifiers {
			for _, id := range ids {
				n.ReleaseStream(id)
			}
			n.ReleaseStream("x")
		}
		if len(hist) > 0 {
			h.Seen("wait", fmt.Sprint(hist, ends, len(waits[0].msgs), len(waits[2].msgs)), map[string]interface{}{"before": hist, "ends": ends})
		}
	})
}
