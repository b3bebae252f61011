package c10

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

const leaderProtocol protocol.ID = "/p2p/join-party-leader"

// heard is what the other participants were told about the parties with a leader.
type heard struct {
	mu  sync.Mutex
	got map[string]map[string]map[int]bool // by ceremony and kind of message
}

func (r *heard) listen(i int, hst host.Host) {
	hst.SetStreamHandler(leaderProtocol, func(s network.Stream) {
		defer s.Close()
		_ = s.SetDeadline(time.Now().Add(10 * time.Second))
		head := make([]byte, 4)
		if _, err := io.ReadFull(s, head); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(head)&0xffffff)
		if _, err := io.ReadFull(s, b); err != nil {
			return
		}
		_, _ = s.Write([]byte("\x04\x00\x00\x00done"))
		var m messages.JoinPartyLeaderComm
		if err := proto.Unmarshal(b, &m); err != nil {
			return
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.got[m.ID] == nil {
			r.got[m.ID] = map[string]map[int]bool{}
		}
		if r.got[m.ID][m.MsgType] == nil {
			r.got[m.ID][m.MsgType] = map[int]bool{}
		}
		r.got[m.ID][m.MsgType][i] = true
	})
}

func (r *heard) take() map[string]map[string]map[int]bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := r.got
	r.got = map[string]map[string]map[int]bool{}
	return out
}

type ask struct {
	keygen  bool
	who     []int // for a key generation
	signers []int
	msgs    []string
	height  int64
}

// TestC10Asked: what a node does with its requests.
func TestC10Asked(t *testing.T) {
	h.Rule("C10 asked: one real node holds a share of a pool of 3..7, the other members only listen; 2..4 signings with a leader (any messages, with signer keys or without) or key generations (any subset of the members with the node), at any height but 0; the node asks the leader that LeaderNode gives for the ceremony it names, the height of the request and the participants, and nobody else, or, if that is the node itself, it answers all others; non-trivial when the node asked or answered somebody in every request, keyed by pool, node and requests")
	h.Shrink(time.Second)
	h.Check(t, 6, 300, 40*time.Second, 10*time.Minute, func(rt *rapid.T) {
		k := rapid.IntRange(3, 7).Draw(rt, "pool")
		me := rapid.IntRange(0, k-1).Draw(rt, "node")
		var asks []ask
		seen := map[string]bool{}
		for i := rapid.IntRange(2, 4).Draw(rt, "requests"); i > 0; i-- {
			a := ask{keygen: rapid.IntRange(0, 3).Draw(rt, "keygen") == 0}
			a.height = rapid.OneOf(rapid.Int64Range(1, 40), rapid.Int64Range(1, 40), rapid.Int64().Filter(func(v int64) bool { return v != 0 })).Draw(rt, "height")
			if a.keygen {
				a.who = []int{me}
				for _, x := range h.Permute(rt, upTo(k), "members")[:rapid.IntRange(1, k-1).Draw(rt, "others")] {
					if x != me {
						a.who = append(a.who, x)
					}
				}
				if len(a.who) < 2 {
					a.who = upTo(k)
				}
			} else {
				a.msgs = []string{base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, "message"), 31))}
				a.signers = h.Permute(rt, upTo(k), "signers")[:rapid.IntRange(0, k).Draw(rt, "signer count")]
			}
			if name := fmt.Sprint(a.keygen, h.Sorted(a.msgs), sorted(a.who), sorted(a.signers)); !seen[name] {
				seen[name] = true
				asks = append(asks, a)
			}
		}
		desc := fmt.Sprintf("pool %d node %d requests %+v", k, me, asks)
		if problem := h.Once(desc, func() string { return asked(k, me, asks, desc) }); problem != "" {
			rt.Fatalf("%s\n%s", problem, desc)
		}
	})
}

func upTo(k int) []int {
	out := make([]int, k)
	for i := range out {
		out[i] = i
	}
	return out
}

func sorted(in []int) []int {
	out := append([]int(nil), in...)
	sort.Ints(out)
	return out
}

func asked(k, me int, asks []ask, desc string) string {
	states := h.States(k)
	c := cluster.New([]*h.Node{h.NodeN(me)}, cluster.Conf(1300*time.Millisecond, 1500*time.Millisecond, 1500*time.Millisecond), states[me:me+1])
	defer c.Close()
	r := &heard{}
	r.take()
	for i := 0; i < k; i++ {
		if i == me {
			continue
		}
		hst := h.RawHost(h.NodeN(i))
		defer hst.Close()
		r.listen(i, hst)
		c.Know(hst)
		h.Must(hst.Connect(context.Background(), hst.Peerstore().PeerInfo(h.NodeN(me).Peer)))
	}
	keys := func(is []int) []string {
		var out []string
		for _, i := range is {
			out = append(out, h.NodeN(i).Bech32)
		}
		return out
	}
	all, over := 0, map[string]bool{}
	for _, a := range asks {
		who := a.who
		if a.keygen {
			_, _ = c.Servers[0].Keygen(keygen.NewRequest(keys(a.who), a.height, "0.14.0"))
		} else {
			who = upTo(k)
			_, _ = c.Servers[0].KeySign(keysign.NewRequest(states[me].PubKey, append([]string(nil), a.msgs...), a.height, keys(a.signers), "0.14.0"))
		}
		got := r.take()
		for id := range got { // what is late
			if over[id] {
				delete(got, id)
			}
			over[id] = true
		}
		if len(got) > 1 {
			return fmt.Sprintf("%+v: several ceremonies: %v", a, got)
		}
		for id, kinds := range got {
			all++
			var peers []string
			for _, i := range who {
				peers = append(peers, h.NodeN(i).Peer.String())
			}
			leader, err := p2p.LeaderNode(id, a.height, peers)
			if err != nil {
				return fmt.Sprintf("%+v: there is no leader: %v", a, err)
			}
			for _, i := range who {
				isLeader := leader == h.NodeN(i).Peer.String()
				if isLeader && i == me {
					h.Label("is the leader")
					if len(kinds["request"]) > 0 {
						return fmt.Sprintf("%+v: the node is the leader and asks %v", a, kinds)
					}
				} else if isLeader {
					h.Label("asks the leader")
					if len(kinds["request"]) != 1 || !kinds["request"][i] || len(kinds["response"]) > 0 {
						return fmt.Sprintf("%+v: the leader is %d, messages were sent to %v", a, i, kinds)
					}
				}
			}
		}
	}
	key := ""
	if all == len(asks) {
		key = desc
	}
	h.Seen("asked", key, desc)
	return ""
}
