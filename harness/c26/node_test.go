package c26

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/cluster"
	"verif/h"
)

const (
	tssProtocol  protocol.ID = "/p2p/tss"
	joinProtocol protocol.ID = "/p2p/join-party"
)

// lame is a member that joins and confirms what others confirm, but has no shares of its own to send.
type lame struct {
	hst   host.Host
	nodes []*h.Node // the real ones
	mu    sync.Mutex
	id    string
	kind  messages.THORChainTSSMessageType
	wires map[string]*messages.WireMessage // broadcasts received, by key
	owner map[string]peer.ID
	gave  map[string]map[string]*messages.TssControl // replies, by node and key
}

func framed(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

func (l *lame) send(to peer.ID, p protocol.ID, b []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	s, err := l.hst.NewStream(ctx, to, p)
	if err != nil {
		return
	}
	defer s.Close()
	_ = s.SetDeadline(time.Now().Add(3 * time.Second))
	_, _ = s.Write(framed(b))
}

func (l *lame) wrapped(to peer.ID, id string, kind messages.THORChainTSSMessageType, v interface{}) {
	b, err := json.Marshal(v)
	h.Must(err)
	w, err := json.Marshal(messages.WrappedMessage{MessageType: kind, MsgID: id, Payload: b})
	h.Must(err)
	l.send(to, tssProtocol, w)
}

func read(s network.Stream) []byte {
	_ = s.SetDeadline(time.Now().Add(10 * time.Second))
	head := make([]byte, 4)
	if _, err := io.ReadFull(s, head); err != nil {
		return nil
	}
	b := make([]byte, binary.LittleEndian.Uint32(head)&0xffffff)
	if _, err := io.ReadFull(s, b); err != nil {
		return nil
	}
	return b
}

func newLame(me *h.Node, nodes []*h.Node) *lame {
	l := &lame{hst: h.RawHost(me), nodes: nodes, wires: map[string]*messages.WireMessage{}, owner: map[string]peer.ID{}, gave: map[string]map[string]*messages.TssControl{}}
	l.hst.SetStreamHandler(joinProtocol, func(s network.Stream) {
		defer s.Close()
		b := read(s)
		var m messages.JoinPartyRequest
		if b == nil || proto.Unmarshal(b, &m) != nil {
			return
		}
		b, err := proto.Marshal(&messages.JoinPartyRequest{ID: m.ID})
		h.Must(err)
		l.send(s.Conn().RemotePeer(), joinProtocol, b)
	})
	l.hst.SetStreamHandler(tssProtocol, func(s network.Stream) {
		defer s.Close()
		from := s.Conn().RemotePeer()
		b := read(s)
		var w messages.WrappedMessage
		if b == nil || json.Unmarshal(b, &w) != nil {
			return
		}
		switch w.MessageType {
		case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
			var m messages.WireMessage
			if json.Unmarshal(w.Payload, &m) != nil || m.Routing == nil || m.Routing.From == nil || !m.Routing.IsBroadcast {
				return
			}
			l.mu.Lock()
			l.id, l.kind = w.MsgID, w.MessageType
			l.wires[m.GetCacheKey()] = &m
			l.owner[m.GetCacheKey()] = from
			l.mu.Unlock()
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			var m messages.BroadcastConfirmMessage
			if json.Unmarshal(w.Payload, &m) != nil {
				return
			}
			m.P2PID = l.hst.ID().String()
			for _, nd := range l.nodes {
				l.wrapped(nd.Peer, w.MsgID, w.MessageType, m)
			}
		case messages.TSSControlMsg:
			var m messages.TssControl
			if json.Unmarshal(w.Payload, &m) != nil || m.Msg == nil {
				return
			}
			l.mu.Lock()
			if l.gave[from.String()] == nil {
				l.gave[from.String()] = map[string]*messages.TssControl{}
			}
			l.gave[from.String()][m.ReqKey] = &m
			l.mu.Unlock()
		}
	})
	return l
}

// TestServeNode: whole nodes are asked for broadcasts in the middle of a ceremony.
func TestServeNode(t *testing.T) {
	h.Rule("serve node: real nodes (2..4) and a lame member, which joins and confirms but sends no shares, so that the ceremony does not go past its first rounds, are in a signing (batch 1..3) or key generation; the member asks every node for every broadcast of another node it saw, and for keys that do not exist; every node answers each of the former with the very message, and none of the latter; non-trivial when at least two broadcasts were asked for, keyed by everything drawn")
	h.Shrink(time.Second)
	h.Check(t, 3, 100, 40*time.Second, 10*time.Minute, func(rt *rapid.T) {
		k := rapid.IntRange(3, 5).Draw(rt, "pool")
		isKeygen := rapid.IntRange(0, 2).Draw(rt, "keygen") == 0
		me := rapid.IntRange(0, k-1).Draw(rt, "lame")
		var batch []string
		for i := rapid.IntRange(1, 3).Draw(rt, "batch"); i > 0; i-- {
			batch = append(batch, base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, "message"), 31)))
		}
		desc := fmt.Sprintf("pool %d keygen %v lame %d batch %v", k, isKeygen, me, batch)
		if problem := h.Once(desc, func() string { return serve(k, isKeygen, me, batch, desc) }); problem != "" {
			rt.Fatalf("%s\n%s", problem, desc)
		}
	})
}

func serve(k int, isKeygen bool, me int, batch []string, desc string) string {
	all := h.States(k)
	var nodes []*h.Node
	st := all[:0:0]
	var keys []string
	for i := 0; i < k; i++ {
		keys = append(keys, h.NodeN(i).Bech32)
		if i != me {
			nodes = append(nodes, h.NodeN(i))
			st = append(st, all[i])
		}
	}
	c := cluster.New(nodes, cluster.Conf(15*time.Second, 18*time.Second, 18*time.Second), st)
	defer c.Close()
	l := newLame(h.NodeN(me), nodes)
	defer l.hst.Close()
	c.Know(l.hst)
	for _, nd := range nodes {
		h.Must(l.hst.Connect(context.Background(), l.hst.Peerstore().PeerInfo(nd.Peer)))
	}
	var wg sync.WaitGroup
	done := make(chan struct{})
	for _, s := range c.Servers {
		s := s
		wg.Add(1)
		go func() {
			defer wg.Done()
			if isKeygen {
				_, _ = s.Keygen(keygen.NewRequest(append([]string(nil), keys...), 9, "0.13.0"))
			} else {
				_, _ = s.KeySign(keysign.NewRequest(all[0].PubKey, append([]string(nil), batch...), 9, append([]string(nil), keys...), "0.13.0"))
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	asked := map[string]bool{}
	since := map[string]time.Time{} // that a broadcast is known
	missing := ""
	for over := false; !over; {
		select {
		case <-done:
			over = true
		case <-time.After(700 * time.Millisecond):
		}
		l.mu.Lock()
		id, kind := l.id, l.kind
		wires := map[string]*messages.WireMessage{}
		for key, w := range l.wires {
			wires[key] = w
		}
		l.mu.Unlock()
		missing = ""
		for _, nd := range nodes {
			for key, w := range wires {
				l.mu.Lock()
				reply, owner := l.gave[nd.Peer.String()][key], l.owner[key]
				l.mu.Unlock()
				if owner == nd.Peer {
					continue
				}
				asked[key] = true
				if since[key].IsZero() {
					since[key] = time.Now()
				}
				if reply == nil && over && time.Since(since[key]) < 7*time.Second {
					h.Label("seen too late to ask")
					continue
				}
				if reply == nil {
					missing += fmt.Sprintf("; node %d does not give %s", nd.Idx, key)
					if !over {
						hash, err := conversion.BytesToHashString(w.Message)
						h.Must(err)
						l.wrapped(nd.Peer, id, messages.TSSControlMsg, &messages.TssControl{ReqHash: hash, ReqKey: key, RequestType: kind})
					}
					continue
				}
				a, _ := json.Marshal(w)
				b, _ := json.Marshal(reply.Msg)
				if string(a) != string(b) || reply.RequestType != kind {
					return fmt.Sprintf("node %d gives %s (type %v) instead of %s", nd.Idx, b, reply.RequestType, a)
				}
			}
			if id != "" && !over {
				l.wrapped(nd.Peer, id, messages.TSSControlMsg, &messages.TssControl{ReqHash: cer.Hash([]byte("x")), ReqKey: "no such", RequestType: kind})
			}
		}
		if missing == "" && len(wires) >= 2 && len(asked) == len(wires) && !over {
			l.mu.Lock()
			n := len(l.wires)
			l.mu.Unlock()
			if n == len(wires) {
				h.Label("all given while the ceremony runs")
			}
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	for nd, m := range l.gave {
		for key := range m {
			if l.wires[key] == nil {
				return fmt.Sprintf("%s gives %q", nd, key)
			}
		}
	}
	if missing != "" {
		return missing
	}
	var names []string
	for x := range asked {
		names = append(names, x)
	}
	sort.Strings(names)
	key := ""
	if len(names) >= 2 {
		key = desc
	}
	h.Seen("serve node", key, map[string]interface{}{"case": desc, "asked": names})
	return ""
}
