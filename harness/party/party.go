// Package party runs party formation among in-memory hosts.
package party

import (
	"context"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	mocknet "github.com/libp2p/go-libp2p/p2p/net/mock"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"google.golang.org/protobuf/proto"

	"verif/h"
)

const (
	Leaderless protocol.ID = "/p2p/join-party"
	Leader     protocol.ID = "/p2p/join-party-leader"
)

// Mesh is a set of hosts linked with each other, all with a coordinator.
type Mesh struct {
	Hosts  []host.Host
	Nodes  []*h.Node
	PC     []*p2p.PartyCoordinator
	cancel func()
}

// New links the hosts of these nodes; latency gives the one-way delay of each link.
func New(nodes []*h.Node, timeout time.Duration, latency func(i, j int) time.Duration) *Mesh {
	p2p.ApplyDeadline = false // the in-memory transport has no deadlines
	ctx, cancel := context.WithCancel(context.Background())
	mn := mocknet.New(ctx)
	m := &Mesh{Nodes: nodes, cancel: cancel}
	for i, n := range nodes {
		a, err := ma.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 20000+i))
		h.Must(err)
		hst, err := mn.AddPeer(n.LPriv, a)
		h.Must(err)
		m.Hosts = append(m.Hosts, hst)
	}
	for i := range nodes {
		for j := 0; j < i; j++ {
			l, err := mn.LinkPeers(nodes[i].Peer, nodes[j].Peer)
			h.Must(err)
			l.SetOptions(mocknet.LinkOptions{Latency: latency(i, j)})
		}
	}
	h.Must(mn.ConnectAllButSelf())
	for _, hst := range m.Hosts {
		m.PC = append(m.PC, p2p.NewPartyCoordinator(hst, timeout))
	}
	return m
}

// Unhandle makes node i deaf on both protocols.
func (m *Mesh) Unhandle(i int) {
	m.Hosts[i].RemoveStreamHandler(Leaderless)
	m.Hosts[i].RemoveStreamHandler(Leader)
}

// Close ends the mesh.
func (m *Mesh) Close() {
	for _, hst := range m.Hosts {
		_ = hst.Close()
	}
	m.cancel()
}

// Frame is the wire form of a payload.
func Frame(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

// Raw writes bytes from host i to host j on that protocol.
func (m *Mesh) Raw(i, j int, proto protocol.ID, b []byte) error {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	s, err := m.Hosts[i].NewStream(ctx, m.Hosts[j].ID(), proto)
	if err != nil {
		return err
	}
	_, err = s.Write(b)
	_ = s.Close()
	return err
}

// Request is a join request of either kind.
func Request(id string, leader bool) []byte {
	var b []byte
	var err error
	if leader {
		b, err = proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: "request"})
	} else {
		b, err = proto.Marshal(&messages.JoinPartyRequest{ID: id})
	}
	h.Must(err)
	return Frame(b)
}

// Response is what a leader answers.
func Response(id string, t messages.JoinPartyLeaderComm_ResponseType, ids []string) []byte {
	b, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: t, PeerIDs: ids})
	h.Must(err)
	return Frame(b)
}

// Indices translates peers to node indices (-1: unknown).
func (m *Mesh) Indices(ps []peer.ID) []int {
	var out []int
	for _, p := range ps {
		k := -1
		for i, n := range m.Nodes {
			if n.Peer == p {
				k = i
			}
		}
		out = append(out, k)
	}
	return out
}
