// Package cer puts one node's ceremony engine (common.TssCommon) under test: the local tss
// parties are recorders, the other members are keys in the hands of the test.
package cer

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"pgregory.net/rapid"

	"verif/h"
)

// Applied is one share handed to the local party.
type Applied struct {
	Ident     string
	Wire      string
	From      string
	FromIndex int
	Broadcast bool
	Step      int
}

// Rec stands in for a local tss party and records what it is given.
type Rec struct {
	btss.Party
	id   *btss.PartyID
	name string
	env  *Env
}

// PartyID is the local party id.
func (r *Rec) PartyID() *btss.PartyID { return r.id }

// UpdateFromBytes records the share.
func (r *Rec) UpdateFromBytes(wire []byte, from *btss.PartyID, isBroadcast bool) (bool, *btss.Error) {
	r.env.mu.Lock()
	r.env.Got = append(r.env.Got, Applied{Ident: r.name, Wire: string(wire), From: from.Id, FromIndex: from.Index, Broadcast: isBroadcast, Step: r.env.Step})
	r.env.mu.Unlock()
	if r.env.Reject != nil {
		if culprits := r.env.Reject(r.name, wire, from); culprits != nil {
			return false, btss.NewError(fmt.Errorf("scripted rejection"), "verif", 1, r.id, culprits...)
		}
	}
	return true, nil
}

// Env is one node in a ceremony.
type Env struct {
	MsgID   string
	Keygen  bool
	Nodes   []*h.Node // by party id (string index in the sorted key list)
	IDs     []*btss.PartyID
	Me      int
	Idents  []string
	C       *common.TssCommon
	Out     chan *messages.BroadcastMsgChan
	Parties *sync.Map

	mu     sync.Mutex
	Got    []Applied
	Step   int
	Reject func(ident string, wire []byte, from *btss.PartyID) []*btss.PartyID
}

// ID is a ceremony id of the usual form.
const ID = "5cf7d01b8ab83e0a53a1d9c1b3fcd5df3f0a7f4b8ee2ae64f02f1ce9b1fb24a7"

// OtherID draws a ceremony id different from id, often one that differs in few characters.
func OtherID(rt *rapid.T, id string) string {
	b := []byte(id)
	switch k := rapid.IntRange(0, 5).Draw(rt, "other id"); {
	case k == 0 || len(b) == 0:
		return rapid.SampledFrom([]string{"x", "other", strings.Repeat("0", 64)}).Draw(rt, "plain id")
	case k == 1:
		return id + rapid.SampledFrom([]string{"x", "0", " ", id}).Draw(rt, "suffix")
	case k == 2:
		return id[:rapid.IntRange(0, len(b)-1).Draw(rt, "prefix")]
	case k == 3:
		return id[rapid.IntRange(1, len(b)).Draw(rt, "tail"):]
	default:
		i := rapid.SampledFrom([]int{0, len(b) - 1, rapid.IntRange(0, len(b)-1).Draw(rt, "position")}).Draw(rt, "at")
		b[i] ^= rapid.SampledFrom([]byte{1, 2, 0x20}).Draw(rt, "flip")
		return string(b)
	}
}

// New sets up node me (an index into the members sorted by key) of a ceremony.
func New(nodes []*h.Node, me int, isKeygen bool, msgID string, idents []string, conf common.TssConfig) *Env {
	keys := h.Sorted(h.Bech32s(nodes))
	byKey := map[string]*h.Node{}
	for _, n := range nodes {
		byKey[n.Bech32] = n
	}
	e := &Env{MsgID: msgID, Keygen: isKeygen, Me: me, Idents: idents, Out: make(chan *messages.BroadcastMsgChan, 4096), Parties: new(sync.Map)}
	for _, k := range keys {
		e.Nodes = append(e.Nodes, byKey[k])
	}
	parties, local, err := conversion.GetParties(append([]string(nil), keys...), keys[me])
	h.Must(err)
	// party ids are named by the place of the key in the sorted list
	e.IDs = make([]*btss.PartyID, len(parties))
	for _, p := range parties {
		for i, n := range e.Nodes {
			if string(p.Key) == string(n.Pub) {
				e.IDs[i] = p
			}
		}
	}
	for i, p := range e.IDs {
		if p == nil || p.Id != fmt.Sprint(i) {
			h.Infra("party ids are not what the harness expects: %v", parties)
		}
	}
	e.C = common.NewTssCommon(e.Nodes[me].Peer.String(), e.Out, conf, msgID, e.Nodes[me].Priv, len(idents))
	for _, id := range idents {
		p := btss.NewPartyID(local.Id, id, local.KeyInt())
		p.Index = local.Index
		e.Parties.Store(id, &Rec{id: p, name: id, env: e})
	}
	m := conversion.SetupPartyIDMap(parties)
	h.Must(conversion.SetupIDMaps(m, e.C.PartyIDtoP2PID))
	h.Must(conversion.SetupIDMaps(m, e.C.GetBlameMgr().PartyIDtoP2PID))
	e.C.SetPartyInfo(&common.PartyInfo{PartyMap: e.Parties, PartyIDMap: m})
	e.C.GetBlameMgr().SetPartyInfo(e.Parties, m)
	e.C.P2PPeersLock.Lock()
	e.C.P2PPeers = conversion.GetPeersID(e.C.PartyIDtoP2PID, e.C.GetLocalPeerID())
	e.C.P2PPeersLock.Unlock()
	return e
}

// Applied returns what the local parties were given so far.
func (e *Env) Applied() []Applied {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]Applied(nil), e.Got...)
}

// Round is one kind of share.
type Round struct {
	Name      string
	Broadcast bool
	Index     int
}

// KeygenRounds and KeysignRounds list the kinds of shares in protocol order.
var (
	// modulus has the size of the moduli of real shares
	modulus = bytes.Repeat([]byte{0xff}, 256)

	KeygenRounds = []Round{{"KGRound1Message", true, 0}, {"KGRound2Message1", false, 1}, {"KGRound2Message2", true, 2}, {"KGRound3Message", true, 3}}

	KeysignRounds = []Round{{"SignRound1Message1", false, 0}, {"SignRound1Message2", true, 1}, {"SignRound2Message", false, 2}, {"SignRound3Message", true, 3}, {"SignRound4Message", true, 4}, {"SignRound5Message", true, 5}, {"SignRound6Message", true, 6}, {"SignRound7Message", true, 7}}
)

// Rounds lists the rounds of this ceremony.
func (e *Env) Rounds() []Round {
	if e.Keygen {
		return KeygenRounds
	}
	return KeysignRounds
}

// BroadcastRounds lists the broadcast rounds of this ceremony.
func (e *Env) BroadcastRounds() []Round {
	var out []Round
	for _, r := range e.Rounds() {
		if r.Broadcast {
			out = append(out, r)
		}
	}
	return out
}

// Content builds a share of a round with the given bytes in it.
func Content(round string, b []byte) btss.MessageContent {
	switch round {
	case "KGRound1Message":
		return &keygen.KGRound1Message{Commitment: b, PaillierN: modulus, NTilde: modulus}
	case "KGRound2Message1":
		return &keygen.KGRound2Message1{Share: b}
	case "KGRound2Message2":
		return &keygen.KGRound2Message2{DeCommitment: [][]byte{b}}
	case "KGRound3Message":
		return &keygen.KGRound3Message{PaillierProof: [][]byte{b}}
	case "SignRound1Message1":
		return &signing.SignRound1Message1{C: b}
	case "SignRound1Message2":
		return &signing.SignRound1Message2{Commitment: b}
	case "SignRound2Message":
		return &signing.SignRound2Message{C1: b}
	case "SignRound3Message":
		return &signing.SignRound3Message{DeltaI: b}
	case "SignRound4Message":
		return &signing.SignRound4Message{DeCommitment: [][]byte{b}}
	case "SignRound5Message":
		return &signing.SignRound5Message{ProofPdlWSlack: [][]byte{b}}
	case "SignRound6Message":
		return &signing.SignRound6Message{Content: &signing.SignRound6Message_Success{Success: &signing.SignRound6Message_SuccessData{StProofT: b}}}
	case "SignRound7Message":
		return &signing.SignRound7Message{Content: &signing.SignRound7Message_SI{SI: b}}
	}
	h.Infra("unknown round %s", round)
	return nil
}

// Message is a tss-lib message as a local party would emit it.
func Message(from *btss.PartyID, to []*btss.PartyID, r Round, b []byte) btss.Message {
	meta := btss.MessageRouting{From: from, To: to, IsBroadcast: r.Broadcast}
	c := Content(r.Name, b)
	return btss.NewMessage(meta, c, btss.NewMessageWrapper(meta, c))
}

// ShareBytes are the wire bytes of a share.
func ShareBytes(from *btss.PartyID, r Round, b []byte) []byte {
	w, _, err := Message(from, nil, r, b).WireBytes()
	h.Must(err)
	return w
}

// Share is the wire entry of one share, from a member (index) for one ident.
func (e *Env) Share(owner int, r Round, ident string, seed string) common.BulkWireMsg {
	meta := &btss.MessageRouting{From: e.IDs[owner], IsBroadcast: r.Broadcast}
	if !r.Broadcast {
		meta.To = []*btss.PartyID{e.IDs[e.Me]}
	}
	return common.NewBulkWireMsg(ShareBytes(e.IDs[owner], r, []byte(seed)), ident, meta)
}

// Bulk holds one share per ident.
func (e *Env) Bulk(owner int, r Round, seed string) []common.BulkWireMsg {
	var out []common.BulkWireMsg
	for _, id := range e.Idents {
		out = append(out, e.Share(owner, r, id, seed+"/"+id))
	}
	return out
}

// Sign signs a message body for a ceremony.
func Sign(n *h.Node, body []byte, msgID string) []byte {
	s, err := n.Priv.Sign(append(append([]byte(nil), body...), msgID...))
	h.Must(err)
	return s
}

// Verify checks a signature over a message body for a ceremony.
func Verify(n *h.Node, body, sig []byte, msgID string) bool {
	return n.Priv.PubKey().VerifySignature(append(append([]byte(nil), body...), msgID...), sig)
}

// Wire is the genuine signed message of a member for a round.
func (e *Env) Wire(owner int, r Round, seed string) *messages.WireMessage {
	return e.WireOf(owner, owner, r, e.Bulk(owner, r, seed), e.MsgID)
}

// WireOf puts a bulk into an envelope of owner signed by signer for msgID.
func (e *Env) WireOf(owner, signer int, r Round, bulk []common.BulkWireMsg, msgID string) *messages.WireMessage {
	buf, err := json.Marshal(bulk)
	h.Must(err)
	meta := &btss.MessageRouting{From: e.IDs[owner], IsBroadcast: r.Broadcast}
	if !r.Broadcast {
		meta.To = []*btss.PartyID{e.IDs[e.Me]}
	}
	return &messages.WireMessage{Routing: meta, RoundInfo: r.Name, Message: buf, Sig: Sign(e.Nodes[signer], buf, msgID)}
}

// Hash is the hash under which a message is confirmed.
func Hash(body []byte) string {
	s := sha256.Sum256(body)
	return hex.EncodeToString(s[:])
}

// MsgType is the type tag of wire messages of this ceremony.
func (e *Env) MsgType() messages.THORChainTSSMessageType {
	if e.Keygen {
		return messages.TSSKeyGenMsg
	}
	return messages.TSSKeySignMsg
}

// VerType is the type tag of confirmations.
func (e *Env) VerType() messages.THORChainTSSMessageType {
	if e.Keygen {
		return messages.TSSKeyGenVerMsg
	}
	return messages.TSSKeySignVerMsg
}

// Wrap builds the outer message.
func (e *Env) Wrap(t messages.THORChainTSSMessageType, payload interface{}) *messages.WrappedMessage {
	buf, err := json.Marshal(payload)
	h.Must(err)
	return &messages.WrappedMessage{MessageType: t, MsgID: e.MsgID, Payload: buf}
}

// Deliver hands a message of a peer to the engine, as it arrives from the network: through
// its serialised form.
func (e *Env) Deliver(from peer.ID, w *messages.WrappedMessage) error {
	e.Step++
	return e.C.ProcessOneMessage(w, from.String())
}

// DeliverWire delivers a wire message.
func (e *Env) DeliverWire(from int, w *messages.WireMessage) error {
	return e.Deliver(e.Nodes[from].Peer, e.Wrap(e.MsgType(), w))
}

// DeliverVer delivers a confirmation.
func (e *Env) DeliverVer(from peer.ID, key, hash string) error {
	return e.Deliver(from, e.Wrap(e.VerType(), &messages.BroadcastConfirmMessage{Key: key, Hash: hash}))
}

// Sent is one outgoing message.
type Sent struct {
	Type  messages.THORChainTSSMessageType
	MsgID string
	To    []string
	Raw   []byte
	Wire  *messages.WireMessage
	Ver   *messages.BroadcastConfirmMessage
	Ctl   *messages.TssControl
	Done  *messages.TssTaskNotifier
}

// Drain takes the outgoing messages.
func (e *Env) Drain() []Sent {
	var out []Sent
	for {
		select {
		case m := <-e.Out:
			s := Sent{Type: m.WrappedMessage.MessageType, MsgID: m.WrappedMessage.MsgID, Raw: m.WrappedMessage.Payload}
			for _, p := range m.PeersID {
				s.To = append(s.To, p.String())
			}
			sort.Strings(s.To)
			switch s.Type {
			case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
				s.Wire = new(messages.WireMessage)
				h.Must(json.Unmarshal(s.Raw, s.Wire))
			case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
				s.Ver = new(messages.BroadcastConfirmMessage)
				h.Must(json.Unmarshal(s.Raw, s.Ver))
			case messages.TSSControlMsg:
				s.Ctl = new(messages.TssControl)
				h.Must(json.Unmarshal(s.Raw, s.Ctl))
			case messages.TSSTaskDone:
				s.Done = new(messages.TssTaskNotifier)
				h.Must(json.Unmarshal(s.Raw, s.Done))
			}
			out = append(out, s)
		default:
			return out
		}
	}
}

// Threshold is the ceremony threshold: two thirds rounded up, minus one.
func Threshold(n int) int { return (2*n+2)/3 - 1 }

// Peers lists the peer ids of the members except one.
func (e *Env) Peers(except ...int) []string {
	var out []string
	for i, n := range e.Nodes {
		skip := false
		for _, x := range except {
			skip = skip || x == i
		}
		if !skip {
			out = append(out, n.Peer.String())
		}
	}
	sort.Strings(out)
	return out
}
