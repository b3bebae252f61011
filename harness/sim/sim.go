// Package sim runs whole key generations and signings of n real nodes (keygen.TssKeyGen,
// keysign.TssKeySign with the real tss-lib) in one process. Every message between them passes
// through one scheduler that decides order, delay and repetition, and through which faults enter.
package sim

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/storage"

	"verif/h"
)

// Store keeps share files in memory and records the saves.
type Store struct {
	mu    sync.Mutex
	Saved []storage.KeygenLocalState
	Fail  error
	Books int
}

// SaveLocalState records.
func (s *Store) SaveLocalState(st storage.KeygenLocalState) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Fail != nil {
		return s.Fail
	}
	// through its serialised form, as on disk
	buf, err := json.Marshal(st)
	if err != nil {
		return err
	}
	var c storage.KeygenLocalState
	if err := json.Unmarshal(buf, &c); err != nil {
		return err
	}
	s.Saved = append(s.Saved, c)
	return nil
}

// GetLocalState finds by pool key.
func (s *Store) GetLocalState(pubKey string) (storage.KeygenLocalState, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.Saved {
		if x.PubKey == pubKey {
			return x, nil
		}
	}
	return storage.KeygenLocalState{}, errors.New("not found")
}

// SaveAddressBook counts.
func (s *Store) SaveAddressBook(map[peer.ID]addr.AddrList) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Books++
	return nil
}

// RetrieveP2PAddresses has none.
func (s *Store) RetrieveP2PAddresses() (addr.AddrList, error) { return nil, errors.New("none") }

// Msg is one message in flight.
type Msg struct {
	From, To int
	Type     messages.THORChainTSSMessageType
	Round    string
	Owner    string
	Body     []byte // the wrapped message
	prio     int64
	seq      int
	dup      bool
}

// Policy is how the scheduler orders messages.
type Policy struct {
	Order   string // fifo lifo random starve vermsgfirst laterfirst pernode
	Seed    int64
	Dup     int // percent of messages delivered twice
	Victim  int // for starve
	Settle  time.Duration
	Timeout time.Duration
}

// Node is one participant.
type Node struct {
	Idx    int
	N      *h.Node
	Common *common.TssCommon
	In     chan *p2p.Message
	Out    chan *messages.BroadcastMsgChan
	Stop   chan struct{}
	Done   chan struct{}
	Store  *Store
	// outcome
	Pool   string
	PoolXY string
	Sigs   []*tsslibcommon.ECSignature
	Err    error
	Panic  interface{}
	Sent   map[string]int
}

// Net is a ceremony.
type Net struct {
	Nodes  []*Node
	Byz    map[int]bool
	MsgID  string
	Policy Policy
	// Filter sees each message before it is queued; it may change it, drop it (nil), or add some
	Filter func(m Msg) []Msg
	// Delivered sees each delivery
	Trace     []string
	mu        sync.Mutex
	queue     []Msg
	seq       int
	rng       *rand.Rand
	kick      chan struct{}
	Delivered int
	lastEvent time.Time
	byPeer    map[string]int
	inject    []Msg
}

var (
	commOnce sync.Mutex
	comms    = map[int]*p2p.Communication{}
)

// Comm gives a started communication object for an identity (its host is only asked for its
// id and addresses).
func Comm(n *h.Node) *p2p.Communication {
	commOnce.Lock()
	defer commOnce.Unlock()
	if c, ok := comms[n.Idx]; ok {
		return c
	}
	c, err := p2p.NewCommunication("verif", nil, 0, "")
	h.Must(err)
	h.Must(c.Start(n.Priv))
	comms[n.Idx] = c
	return c
}

// DefaultConf has time limits that only a stuck ceremony meets.
func DefaultConf() common.TssConfig {
	return common.TssConfig{PartyTimeout: time.Minute, KeyGenTimeout: 60 * time.Second, KeySignTimeout: 60 * time.Second, PreParamTimeout: time.Minute}
}

func newNet(nodes []*h.Node, msgID string, pol Policy) *Net {
	n := &Net{MsgID: msgID, Policy: pol, rng: rand.New(rand.NewSource(pol.Seed)), kick: make(chan struct{}, 1), byPeer: map[string]int{}, Byz: map[int]bool{}}
	for i, x := range nodes {
		n.Nodes = append(n.Nodes, &Node{Idx: i, N: x, Out: make(chan *messages.BroadcastMsgChan, 256), Stop: make(chan struct{}), Done: make(chan struct{}), Store: &Store{}, Sent: map[string]int{}})
		n.byPeer[x.Peer.String()] = i
	}
	return n
}

// Keygen prepares a key generation among nodes. Each gets its own permutation of the keys.
func Keygen(nodes []*h.Node, msgID string, pol Policy, conf common.TssConfig, pre func(i int) *bkeygen.LocalPreParams, perm func(i int, keys []string) []string) (*Net, func()) {
	n := newNet(nodes, msgID, pol)
	keys := h.Bech32s(nodes)
	var insts []*keygen.TssKeyGen
	for i, nd := range n.Nodes {
		inst := keygen.NewTssKeyGen(nd.N.Peer.String(), conf, nd.N.Bech32, nd.Out, nd.Stop, pre(i), msgID, nd.Store, nd.N.Priv, Comm(nd.N))
		nd.In = inst.GetTssKeyGenChannels()
		nd.Common = inst.GetTssCommonStruct()
		insts = append(insts, inst)
	}
	return n, func() {
		n.run(func(nd *Node) {
			k := append([]string(nil), keys...)
			if perm != nil {
				k = perm(nd.Idx, k)
			}
			pt, err := insts[nd.Idx].GenerateNewKey(keygen.NewRequest(k, 10, "0.14.0"))
			nd.Err = err
			if err == nil && pt != nil {
				nd.PoolXY = fmt.Sprintf("%x-%x", pt.X(), pt.Y())
				nd.Pool, _, _ = conversion.GetTssPubKey(pt)
			}
		})
	}
}

// Keysign prepares a signing. states holds each node's share; signers are the keys taking part.
func Keysign(nodes []*h.Node, msgID string, pol Policy, conf common.TssConfig, states []storage.KeygenLocalState, signers []string, msgs [][]byte, perm func(i int, keys []string) []string) (*Net, func()) {
	n := newNet(nodes, msgID, pol)
	var insts []*keysign.TssKeySign
	for _, nd := range n.Nodes {
		inst := keysign.NewTssKeySign(nd.N.Peer.String(), conf, nd.Out, nd.Stop, msgID, nd.N.Priv, Comm(nd.N), nd.Store, len(msgs))
		nd.In = inst.GetTssKeySignChannels()
		nd.Common = inst.GetTssCommonStruct()
		insts = append(insts, inst)
	}
	return n, func() {
		n.run(func(nd *Node) {
			k := append([]string(nil), signers...)
			if perm != nil {
				k = perm(nd.Idx, k)
			}
			mm := make([][]byte, len(msgs))
			for i := range msgs {
				mm[i] = append([]byte(nil), msgs[i]...)
			}
			nd.Sigs, nd.Err = insts[nd.Idx].SignMessage(mm, states[nd.Idx], k)
		})
	}
}

// Inject queues a message from outside (a byzantine node's own doing).
func (n *Net) Inject(from, to int, body []byte) {
	n.mu.Lock()
	n.push(n.describe(from, to, body))
	n.mu.Unlock()
	n.wake()
}

func (n *Net) wake() {
	select {
	case n.kick <- struct{}{}:
	default:
	}
}

func (n *Net) describe(from, to int, body []byte) Msg {
	m := Msg{From: from, To: to, Body: body}
	var w messages.WrappedMessage
	if json.Unmarshal(body, &w) == nil {
		m.Type = w.MessageType
		var wire messages.WireMessage
		switch w.MessageType {
		case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
			if json.Unmarshal(w.Payload, &wire) == nil {
				m.Round = wire.RoundInfo
			}
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			var b messages.BroadcastConfirmMessage
			if json.Unmarshal(w.Payload, &b) == nil {
				m.Owner = b.Key
			}
		}
	}
	return m
}

func hash64(s string, seed int64) int64 {
	x := uint64(seed)*0x9E3779B97F4A7C15 + 1469598103934665603
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	x ^= x >> 29
	return int64(x >> 1)
}

// push queues under the lock.
func (n *Net) push(m Msg) {
	n.seq++
	m.seq = n.seq
	switch n.Policy.Order {
	case "lifo":
		m.prio = -int64(m.seq)
	case "random":
		m.prio = n.rng.Int63()
	case "vermsgfirst":
		m.prio = int64(m.seq)
		if m.Type == messages.TSSKeyGenMsg || m.Type == messages.TSSKeySignMsg {
			m.prio += 1 << 40
		}
	case "laterfirst":
		m.prio = -hash64(m.Round, 7)
	case "pernode":
		m.prio = hash64(fmt.Sprintf("%d>%d", m.From, m.To), n.Policy.Seed)
	case "starve":
		m.prio = int64(m.seq)
		if m.From == n.Policy.Victim || m.To == n.Policy.Victim {
			m.prio += 1 << 40
		}
	default:
		m.prio = int64(m.seq)
	}
	n.queue = append(n.queue, m)
	if !m.dup && n.Policy.Dup > 0 && n.rng.Intn(100) < n.Policy.Dup {
		m.dup = true
		n.push(m)
	}
}

func (n *Net) run(body func(nd *Node)) {
	n.lastEvent = time.Now()
	for _, nd := range n.Nodes {
		go func(nd *Node) {
			for {
				select {
				case <-nd.Done:
					// what is left in the channel
					select {
					case m := <-nd.Out:
						n.accept(nd, m)
						continue
					default:
						return
					}
				case m := <-nd.Out:
					n.accept(nd, m)
				}
			}
		}(nd)
		go func(nd *Node) {
			defer close(nd.Done)
			defer n.wake()
			body(nd)
		}(nd)
	}
	alive := func() int {
		c := 0
		for _, nd := range n.Nodes {
			select {
			case <-nd.Done:
			default:
				c++
			}
		}
		return c
	}
	deadline := time.Now().Add(n.Policy.Timeout)
	stopped := false
	for alive() > 0 {
		if !stopped && time.Now().After(deadline) {
			stopped = true
			for _, nd := range n.Nodes {
				close(nd.Stop)
			}
			deadline = time.Now().Add(30 * time.Second)
		} else if stopped && time.Now().After(deadline) {
			for _, nd := range n.Nodes {
				select {
				case <-nd.Done:
				default:
					nd.Err = errors.New("the node does not even stop when told to")
				}
			}
			return
		}
		n.mu.Lock()
		if len(n.queue) == 0 {
			n.mu.Unlock()
			select {
			case <-n.kick:
			case <-time.After(20 * time.Millisecond):
			}
			continue
		}
		// let the nodes say what they have to say, so that the policy has a choice
		if n.Policy.Order != "fifo" && time.Since(n.lastEvent) < n.Policy.Settle {
			n.mu.Unlock()
			select {
			case <-n.kick:
			case <-time.After(n.Policy.Settle / 2):
			}
			continue
		}
		best := 0
		for i := range n.queue {
			if n.queue[i].prio < n.queue[best].prio || (n.queue[i].prio == n.queue[best].prio && n.queue[i].seq < n.queue[best].seq) {
				best = i
			}
		}
		m := n.queue[best]
		n.queue = append(n.queue[:best], n.queue[best+1:]...)
		n.mu.Unlock()
		to := n.Nodes[m.To]
		select {
		case to.In <- &p2p.Message{PeerID: n.Nodes[m.From].N.Peer, Payload: m.Body}:
			n.mu.Lock()
			n.Delivered++
			n.lastEvent = time.Now()
			if len(n.Trace) < 400 {
				n.Trace = append(n.Trace, fmt.Sprintf("%d>%d %v %s%s", m.From, m.To, m.Type, m.Round, m.Owner))
			}
			n.mu.Unlock()
		case <-to.Done:
		case <-time.After(500 * time.Millisecond):
			// busy (or winding down): try again later
			n.mu.Lock()
			n.queue = append(n.queue, m)
			n.mu.Unlock()
		}
	}
}

func (n *Net) accept(nd *Node, m *messages.BroadcastMsgChan) {
	body, err := json.Marshal(m.WrappedMessage)
	h.Must(err)
	n.mu.Lock()
	defer n.mu.Unlock()
	n.lastEvent = time.Now()
	for _, p := range m.PeersID {
		to, ok := n.byPeer[p.String()]
		if !ok || to == nd.Idx {
			continue
		}
		x := n.describe(nd.Idx, to, body)
		nd.Sent[x.Round]++
		out := []Msg{x}
		if n.Filter != nil {
			out = n.Filter(x)
		}
		for _, y := range out {
			n.push(y)
		}
	}
	n.wake()
}

// Blame is the blame of a node.
func (nd *Node) Blame() *blame.Blame { return nd.Common.GetBlameMgr().GetBlame() }

// Blamed lists the indices of the nodes a node blames (-1 for a stranger).
func (n *Net) Blamed(nd *Node) []int {
	var out []int
	for _, b := range nd.Blame().BlameNodes {
		who := -1
		for i, x := range n.Nodes {
			if x.N.Bech32 == b.Pubkey {
				who = i
			}
		}
		out = append(out, who)
	}
	sort.Ints(out)
	return out
}

// Short describes an error.
func Short(err error) string {
	if err == nil {
		return "ok"
	}
	return strings.Split(err.Error(), "\n")[0]
}
