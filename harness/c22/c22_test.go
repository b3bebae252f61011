// Package c22 checks the ceremony ids of requests: nodes get requests, plain hosts that are
// among the participants see the id in the join-party messages the nodes send.
package c22

import (
	"context"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	nAskers = 16 // nodes of the repository: identities 0..
	nRaw    = 6  // plain hosts: identities 20..
	nOther  = 24 // participants that are not there: identities 40..
)

// watch records the ids seen by the plain hosts, per sender.
type watch struct {
	sync.Mutex
	ids map[peer.ID][]seenID
}

type seenID struct {
	id     string
	leader bool // with the protocol that has a leader
}

// versions of which the first four meet without a leader
var versions = []string{"0.13.0", "0.13.0", "0.13.99", "0.9.9", "0.14.0", "0.14.1", "0.100.0", "1.0.0"}

func leaderless(v string) bool {
	for _, x := range versions[:4] {
		if v == x {
			return true
		}
	}
	return false
}

func (w *watch) handle(st network.Stream) {
	var l [4]byte
	_ = st.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, err := io.ReadFull(st, l[:]); err != nil {
		return
	}
	buf := make([]byte, binary.LittleEndian.Uint32(l[:])&0xfffff)
	if _, err := io.ReadFull(st, buf); err != nil {
		return
	}
	var id string
	if st.Protocol() == "/p2p/join-party" {
		var m messages.JoinPartyRequest
		if proto.Unmarshal(buf, &m) != nil {
			return
		}
		id = m.ID
	} else {
		var m messages.JoinPartyLeaderComm
		if proto.Unmarshal(buf, &m) != nil || m.MsgType != "request" {
			return
		}
		id = m.ID
	}
	w.Lock()
	defer w.Unlock()
	p := st.Conn().RemotePeer()
	w.ids[p] = append(w.ids[p], seenID{id, st.Protocol() != "/p2p/join-party"})
}

func (w *watch) take(p peer.ID) map[seenID]bool {
	w.Lock()
	defer w.Unlock()
	out := map[seenID]bool{}
	for _, s := range w.ids[p] {
		out[s] = true
	}
	delete(w.ids, p)
	return out
}

type request struct {
	keys    []string
	msgs    []string // nil: key generation
	version string
	height  int64
	node    int
	want    string // "same", "other" or "boundary"
	why     string
}

func (r request) String() string {
	keys := make([]string, len(r.keys))
	for i, k := range r.keys {
		keys[i] = k[len(k)-5:]
	}
	if r.msgs == nil {
		return fmt.Sprintf("keygen keys %v version %s at node %d (%s)", keys, r.version, r.node, r.why)
	}
	msgs := make([]string, len(r.msgs))
	for i, m := range r.msgs {
		if msgs[i] = m; len(m) > 90 {
			msgs[i] = m[:44] + "..." + m[len(m)-5:]
		}
	}
	return fmt.Sprintf("keysign messages %v signers %v version %s height %d at node %d (%s)", msgs, keys, r.version, r.height, r.node, r.why)
}

func msg(rt *rapid.T) string {
	n := rapid.SampledFrom([]int{32, 32, 3, 30, 1}).Draw(rt, "size")
	b := h.Bytes(rapid.Uint64().Draw(rt, "message"), n)
	b[0] |= 1
	return base64.StdEncoding.EncodeToString(b)
}

func clone(s []string) []string { return append([]string(nil), s...) }

// change makes a request that differs in participants or messages.
func change(rt *rapid.T, r request, spare []string, fixed map[string]bool) (request, bool) {
	out := r
	out.keys, out.msgs = clone(r.keys), clone(r.msgs)
	out.want = "other"
	free := func() int { // a participant that may go
		var idx []int
		for i, k := range out.keys {
			if !fixed[k] {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return -1
		}
		return rapid.SampledFrom(idx).Draw(rt, "which participant")
	}
	kinds := []string{"participant added", "participant gone", "participant replaced"}
	if r.msgs != nil {
		kinds = append(kinds, "message changed", "message added", "message replaced", "message gone", "messages joined", "message order and participant", "key generation instead")
	}
	out.why = rapid.SampledFrom(kinds).Draw(rt, "change")
	switch out.why {
	case "participant added":
		out.keys = append(out.keys, rapid.SampledFrom(spare).Draw(rt, "spare"))
	case "participant gone":
		i := free()
		if i < 0 || len(out.keys) < 5 {
			return out, false
		}
		out.keys = append(out.keys[:i], out.keys[i+1:]...)
	case "participant replaced":
		i := free()
		if i < 0 {
			return out, false
		}
		out.keys[i] = rapid.SampledFrom(spare).Draw(rt, "spare")
	case "message changed":
		i := rapid.IntRange(0, len(out.msgs)-1).Draw(rt, "which message")
		b, err := base64.StdEncoding.DecodeString(out.msgs[i])
		h.Must(err)
		b[rapid.IntRange(0, len(b)-1).Draw(rt, "byte")] ^= byte(1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit")))
		out.msgs[i] = base64.StdEncoding.EncodeToString(b)
	case "message added":
		out.msgs = append(out.msgs, msg(rt))
	case "message replaced":
		out.msgs[rapid.IntRange(0, len(out.msgs)-1).Draw(rt, "which message")] = msg(rt)
	case "message gone":
		if len(out.msgs) < 2 {
			return out, false
		}
		i := rapid.IntRange(0, len(out.msgs)-1).Draw(rt, "which message")
		out.msgs = append(out.msgs[:i], out.msgs[i+1:]...)
	case "messages joined":
		if len(out.msgs) < 2 {
			return out, false
		}
		s := h.Sorted(out.msgs)
		a, err := base64.StdEncoding.DecodeString(s[0])
		h.Must(err)
		b, err := base64.StdEncoding.DecodeString(s[1])
		h.Must(err)
		out.msgs = append(s[2:], base64.StdEncoding.EncodeToString(append(a, b...)))
	case "message order and participant":
		i := free()
		if i < 0 {
			return out, false
		}
		out.msgs = h.Permute(rt, out.msgs, "messages")
		out.keys[i] = rapid.SampledFrom(spare).Draw(rt, "spare")
	case "key generation instead":
		out.msgs = nil
	}
	return out, true
}

func distinct(s []string) bool {
	seen := map[string]bool{}
	for _, x := range s {
		if seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

func TestIDs(t *testing.T) {
	h.Rule("ids: a request to several nodes (key generation or signing, both join protocols), each with the participants and messages in its own order, together with requests derived from it by adding, removing or replacing a participant or message; the id seen by participants of the former must be one, and differ from the id of each of the latter; non-trivial: every case, identified by the requests")
	h.Shrink(20 * time.Second)
	var askers, raws []*h.Node
	var spare []string
	for i := 0; i < nAskers; i++ {
		askers = append(askers, h.NodeN(i))
	}
	for i := 0; i < nRaw; i++ {
		raws = append(raws, h.NodeN(20+i))
	}
	for i := 0; i < nOther; i++ {
		spare = append(spare, h.NodeN(40+i).Bech32)
	}
	// the share file of each node: the plain hosts are its fellow participants
	st := h.States(4)[0]
	pool := st.PubKey
	states := make([]storage.KeygenLocalState, nAskers)
	for i := range states {
		states[i] = st
		states[i].LocalPartyKey = askers[i].Bech32
		states[i].ParticipantKeys = append([]string{askers[i].Bech32}, h.Bech32s(raws[:3])...)
	}
	c := cluster.New(askers, cluster.Conf(300*time.Millisecond, time.Second, 300*time.Millisecond), states)
	defer c.Close()
	w := &watch{ids: map[peer.ID][]seenID{}}
	var hosts []host.Host
	for _, n := range raws {
		hst := h.RawHost(n)
		defer hst.Close()
		hst.SetStreamHandler("/p2p/join-party", w.handle)
		hst.SetStreamHandler("/p2p/join-party-leader", w.handle)
		c.Know(hst)
		hosts = append(hosts, hst)
		for _, a := range askers {
			if _, err := hst.Network().DialPeer(context.Background(), a.Peer); err != nil {
				h.Infra("connect: %v", err)
			}
		}
	}
	_ = hosts
	before := map[peer.ID]seenID{}

	h.Check(t, 60, 1200, 45*time.Second, 20*time.Minute, func(rt *rapid.T) {
		same := rapid.IntRange(2, 6).Draw(rt, "nodes with the same request")
		order := rapid.Permutation(seq(nAskers)).Draw(rt, "nodes")
		base := request{height: int64(rapid.IntRange(1, 500).Draw(rt, "height")), want: "same", why: "as is"}
		base.version = rapid.SampledFrom(versions).Draw(rt, "version")
		fixed := map[string]bool{}
		for _, a := range askers {
			fixed[a.Bech32] = true
		}
		base.keys = append(h.Bech32s(askers), h.Bech32s(raws)[:rapid.IntRange(1, nRaw).Draw(rt, "plain hosts")]...)
		fixed[raws[0].Bech32] = true
		base.keys = append(base.keys, rapid.SliceOfNDistinct(rapid.SampledFrom(spare), 0, 5, rapid.ID[string]).Draw(rt, "others")...)
		if rapid.IntRange(0, 2).Draw(rt, "signing") > 0 {
			for n := rapid.IntRange(1, 4).Draw(rt, "messages"); len(base.msgs) < n; {
				if m := msg(rt); distinct(append(clone(base.msgs), m)) {
					base.msgs = append(base.msgs, m)
				}
			}
		}
		var reqs []request
		for i := 0; i < same; i++ {
			r := base
			r.keys, r.node = h.Permute(rt, base.keys, "participants"), order[i]
			if base.msgs != nil {
				r.msgs = h.Permute(rt, base.msgs, "messages")
			}
			reqs = append(reqs, r)
		}
		for i := same; i < nAskers; i++ {
			if i == nAskers-1 && len(base.msgs) > 0 && rapid.IntRange(0, 3).Draw(rt, "boundary") == 0 {
				// two more requests: in the second the four smallest participants' keys end the greatest message
				r := base
				r.why, r.want, r.node = "keys and a message", "boundary", order[i-1]
				r.keys = boundaryKeys(askers[order[i-1]], askers[order[i]], raws[0], spare)
				if reqs[len(reqs)-1].node == order[i-1] {
					reqs = reqs[:len(reqs)-1]
				}
				r.version = "0.13.0"
				r.msgs = []string{base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, "message"), 30))}
				q := r
				q.node = order[i]
				q.why = "the keys in the message"
				k := h.Sorted(r.keys)
				q.msgs, q.keys = []string{r.msgs[0] + k[0] + k[1] + k[2] + k[3]}, k[4:]
				reqs = append(reqs, r, q)
				break
			}
			r, ok := change(rt, base, spare, fixed)
			if !ok || !distinct(r.keys) || !distinct(r.msgs) || samesets(r, base) {
				continue
			}
			r.node = order[i]
			if rapid.IntRange(0, 2).Draw(rt, "another version") == 0 {
				r.version = rapid.SampledFrom(versions).Draw(rt, "version")
			}
			r.keys = h.Permute(rt, r.keys, "participants")
			reqs = append(reqs, r)
		}
		h.Seen(map[bool]string{true: "keygen", false: "keysign"}[base.msgs == nil]+map[bool]string{true: " leaderless", false: " leader"}[leaderless(base.version)], fmt.Sprint(reqs), fmt.Sprint(reqs))
		for _, r := range reqs {
			h.Label(r.want + ": " + r.why)
			w.take(askers[r.node].Peer)
		}
		ids := make([]string, len(reqs))
		var wg sync.WaitGroup
		for i, r := range reqs {
			wg.Add(1)
			go func(i int, r request) {
				defer wg.Done()
				if r.msgs == nil {
					_, _ = c.Servers[r.node].Keygen(keygen.NewRequest(clone(r.keys), r.height, r.version))
				} else {
					_, _ = c.Servers[r.node].KeySign(keysign.NewRequest(pool, clone(r.msgs), r.height, clone(r.keys), r.version))
				}
			}(i, r)
		}
		wg.Wait()
		time.Sleep(50 * time.Millisecond)
		for i, r := range reqs {
			p := askers[r.node].Peer
			seen := w.take(p)
			if len(seen) > 1 {
				delete(seen, before[p]) // a straggler of the previous case
			}
			if len(seen) > 1 {
				rt.Fatalf("%v: the node joins several ceremonies: %v", r, seen)
			}
			for s := range seen {
				if s != before[p] && s.leader == leaderless(r.version) {
					rt.Fatalf("%v: the node joins with the protocol of other versions (with a leader: %v)", r, s.leader)
				}
				h.Label(fmt.Sprintf("joins as version %s", r.version))
				ids[i], before[p] = s.id, s
			}
			if ids[i] == "" {
				h.Label("id not observed")
				if leaderless(r.version) {
					h.Label("leaderless id not observed")
				}
			}
		}
		ref := -1
		for i, r := range reqs {
			if r.want == "same" && ids[i] != "" {
				if ref >= 0 && ids[i] != ids[ref] {
					rt.Fatalf("the same request has two ceremony ids:\n%v: %s\n%v: %s", reqs[ref], ids[ref], r, ids[i])
				}
				ref = i
			}
		}
		for i, r := range reqs {
			for j, q := range reqs[:i] {
				if ids[i] == "" || ids[i] != ids[j] || samesets(r, q) {
					continue
				}
				if (r.want == "boundary" || q.want == "boundary") && joined(r) == joined(q) && h.Known("C22-boundary", "") {
					continue
				}
				rt.Fatalf("different requests share ceremony id %s:\n%v\n%v", ids[i], q, r)
			}
		}
	})
}

// boundaryKeys draws participants of whom the four smallest are neither nodes nor plain hosts.
func boundaryKeys(a, b, r *h.Node, spare []string) []string {
	keys := []string{a.Bech32, b.Bech32, r.Bech32}
	least := h.Sorted(keys)[0]
	for _, s := range spare {
		if s < least && len(keys) < 7 {
			keys = append(keys, s)
		}
	}
	for i := 200; len(keys) < 7; i++ {
		if s := h.NodeN(i).Bech32; s < least {
			keys = append(keys, s)
		}
	}
	return keys
}

// joined tells the messages and participants of a request strung together.
func joined(r request) string {
	out := ""
	for i, m := range h.Sorted(r.msgs) {
		if i > 0 {
			out += ","
		}
		out += m
	}
	for _, k := range h.Sorted(r.keys) {
		out += k
	}
	return out
}

func samesets(a, b request) bool {
	return (a.msgs == nil) == (b.msgs == nil) && fmt.Sprint(h.Sorted(a.msgs), h.Sorted(a.keys)) == fmt.Sprint(h.Sorted(b.msgs), h.Sorted(b.keys))
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
