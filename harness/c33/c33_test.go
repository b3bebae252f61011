// Package c33 checks that ended requests and stray messages leave nothing behind on a node.
package c33

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	leaderless = "0.13.0"
	withLeader = "0.14.0"
	module     = "gitlab.com/thorchain/tss/go-tss/"

	tssProtocol       protocol.ID = "/p2p/tss"
	joinProtocol      protocol.ID = "/p2p/join-party"
	leaderProtocol    protocol.ID = "/p2p/join-party-leader"
	signatureProtocol protocol.ID = "/p2p/signatureNotifier"
)

var conf = cluster.Conf(4*time.Second, 25*time.Second, 15*time.Second)

var hexID = regexp.MustCompile(`[0-9a-f]{64}`)

// goroutines are those with a frame in the repository, by that frame.
func goroutines() (int, string) {
	var buf bytes.Buffer
	h.Must(pprof.Lookup("goroutine").WriteTo(&buf, 1))
	sum, text := 0, ""
	for _, block := range strings.Split(buf.String(), "\n\n") {
		var n int
		if strings.HasPrefix(block, "goroutine profile") {
			block = block[strings.Index(block, "\n")+1:]
		}
		if _, err := fmt.Sscanf(block, "%d @", &n); err != nil {
			continue
		}
		for _, l := range strings.Split(block, "\n") {
			if i := strings.Index(l, module); i >= 0 && strings.HasPrefix(l, "#") {
				sum += n
				text += fmt.Sprintf(" %d in %s;", n, strings.Fields(l[i+len(module):])[0])
				break
			}
		}
	}
	return sum, text
}

var hostType = reflect.TypeOf((*host.Host)(nil)).Elem()

// walker finds the libp2p hosts and the ceremony names among the fields of a node's objects. It takes no
// locks: use it while the node is idle.
type walker struct {
	seen  map[unsafe.Pointer]bool
	hosts map[string]host.Host
	ids   map[string]bool
}

func look(v interface{}) *walker {
	w := &walker{map[unsafe.Pointer]bool{}, map[string]host.Host{}, map[string]bool{}}
	w.walk(reflect.ValueOf(v), 0)
	return w
}

func (w *walker) walk(v reflect.Value, depth int) {
	if depth > 30 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		for _, s := range hexID.FindAllString(v.String(), -1) {
			w.ids[s] = true
		}
	case reflect.Ptr:
		if v.IsNil() || w.seen[unsafe.Pointer(v.Pointer())] {
			return
		}
		w.seen[unsafe.Pointer(v.Pointer())] = true
		w.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == hostType {
			hst := v.Interface().(host.Host)
			w.hosts[hst.ID().String()] = hst
			return
		}
		w.walk(v.Elem(), depth+1)
	case reflect.Struct:
		p := v.Type().PkgPath()
		if p != "" && !strings.HasPrefix(p+"/", module) {
			return
		}
		if !v.CanAddr() {
			x := reflect.New(v.Type()).Elem()
			x.Set(v)
			v = x
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			w.walk(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), depth+1)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			w.walk(it.Key(), depth+1)
			w.walk(it.Value(), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k == reflect.Uint8 || v.Len() > 10000 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i), depth+1)
		}
	}
}

// streams counts what is open with the repository's protocols.
func streams(hst host.Host) (int, string) {
	n, m := 0, map[string]int{}
	for _, c := range hst.Network().Conns() {
		for _, s := range c.GetStreams() {
			p := string(s.Protocol())
			if p == "" || strings.HasPrefix(p, "/ipfs/") || strings.HasPrefix(p, "/libp2p/") {
				continue
			}
			n++
			m[p]++
		}
	}
	return n, fmt.Sprint(m)
}

// member is a participant that does nothing of its own accord but remember the names of what goes on.
type member struct {
	hst host.Host
	mu  sync.Mutex
	ids []string

	// what it answers when it is asked as a leader
	answers answers
	manner  string
}

// manners are what the member does with a stream opened to it: it replies and closes it, reads it but never
// replies or closes it, leaves it alone, or resets it.
var manners = []string{"replies", "replies", "replies", "is silent", "does not read", "resets"}

type answers struct {
	n     int
	kind  messages.JoinPartyLeaderComm_ResponseType
	peers []string
}

func frame(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

func newMember(n *h.Node) *member {
	m := &member{hst: h.RawHost(n), manner: manners[0]}
	handle := func(s network.Stream) {
		m.mu.Lock()
		manner := m.manner
		m.mu.Unlock()
		switch manner {
		case "does not read":
			return
		case "resets":
			_ = s.Reset()
			return
		case "replies":
			defer s.Close()
		}
		_ = s.SetDeadline(time.Now().Add(10 * time.Second))
		head := make([]byte, 4)
		if _, err := io.ReadFull(s, head); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(head)&0xffffff)
		if _, err := io.ReadFull(s, b); err != nil {
			return
		}
		if manner == "replies" {
			_, _ = s.Write(frame([]byte("done")))
		}
		m.mu.Lock()
		defer m.mu.Unlock()
		id := hexID.Find(b)
		if id == nil {
			return
		}
		m.ids = append(m.ids, string(id))
		if s.Protocol() == leaderProtocol && m.answers.n > 0 {
			go m.lead(s.Conn().RemotePeer(), string(id), m.answers)
		}
	}
	for _, p := range []protocol.ID{tssProtocol, joinProtocol, leaderProtocol, signatureProtocol} {
		m.hst.SetStreamHandler(p, handle)
	}
	return m
}

// lead answers a request to join its party, as often as it likes.
func (m *member) lead(to peer.ID, id string, a answers) {
	b, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: a.kind, PeerIDs: a.peers})
	h.Must(err)
	var wg sync.WaitGroup
	for k := 0; k < a.n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.write(to, leaderProtocol, frame(b), true)
		}()
	}
	wg.Wait()
}

func (m *member) write(to peer.ID, p protocol.ID, b []byte, whole bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	st, err := m.hst.NewStream(ctx, to, p)
	if err != nil {
		return
	}
	_ = st.SetDeadline(time.Now().Add(3 * time.Second))
	_, _ = st.Write(b)
	if whole {
		_ = st.Close()
	}
}

func (m *member) learnt() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	seen := map[string]bool{}
	var out []string
	for _, id := range m.ids {
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// stray is something the member sends to a node.
type stray struct {
	kind string
	to   int
	at   time.Duration
	n    int
	id   string // "" stands for the latest one it has learnt
	typ  int
}

func (s stray) String() string {
	return fmt.Sprintf("%d x %s (type %d, id %.6q) to %d at %v", s.n, s.kind, s.typ, s.id, s.to, s.at)
}

func (m *member) send(to *h.Node, s stray) {
	id := s.id
	if id == "" {
		ids := m.learnt()
		if len(ids) == 0 {
			return
		}
		id = ids[len(ids)-1]
	}
	var p protocol.ID
	var b []byte
	switch s.kind {
	case "message":
		p = tssProtocol
		j, err := json.Marshal(messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(s.typ), MsgID: id, Payload: []byte(`{"x":1}`)})
		h.Must(err)
		b = frame(j)
	case "garbage":
		p, b = []protocol.ID{tssProtocol, joinProtocol, leaderProtocol, signatureProtocol}[s.typ%4], frame([]byte("{garbage"))
	case "join":
		p = joinProtocol
		j, err := proto.Marshal(&messages.JoinPartyRequest{ID: id})
		h.Must(err)
		b = frame(j)
	case "join with a leader":
		p = leaderProtocol
		j, err := proto.Marshal(&messages.JoinPartyLeaderComm{ID: id, MsgType: []string{"request", "response", "x"}[s.typ%3]})
		h.Must(err)
		b = frame(j)
	case "signature":
		p = signatureProtocol
		x := &messages.KeysignSignature{ID: id, KeysignStatus: messages.KeysignSignature_Failed}
		if s.typ%2 == 0 {
			x.KeysignStatus = messages.KeysignSignature_Success
			x.Signatures = [][]byte{{1, 2, 3}}
		}
		j, err := proto.Marshal(x)
		h.Must(err)
		b = frame(j)
	case "half":
		p, b = []protocol.ID{tssProtocol, joinProtocol, leaderProtocol, signatureProtocol}[s.typ%4], []byte{40, 0, 0, 0, 1, 2, 3}
	}
	for k := 0; k < s.n; k++ {
		m.write(to.Peer, p, b, k%2 == 0)
	}
}

// step is a request, to the three nodes.
type step struct {
	kind, version string
	manner        string
	msgs          []string
	signers       []int
	height        int64
	asked         int
	delays        []time.Duration
	strays        []stray
	lead          answers
}

func (s step) String() string {
	return fmt.Sprintf("%s version %s messages %v signers %v height %d asked %d delays %v, the member %s, as leader answers %d times %v with %d peers, meanwhile %v", s.kind, s.version, s.msgs, s.signers, s.height, s.asked, s.delays, s.manner, s.lead.n, s.lead.kind, len(s.lead.peers), s.strays)
}

func (s step) run(c *cluster.Cluster, m *member, nodes []*h.Node, pool string) {
	var keys []string
	for _, i := range s.signers {
		keys = append(keys, nodes[i].Bech32)
	}
	switch s.kind {
	case "unknown pool":
		pool = h.NodeN(300).Bech32
	case "bad message":
		s.msgs = append(append([]string(nil), s.msgs...), "%%%")
	case "few signers":
		keys = keys[:1]
	}
	m.mu.Lock()
	m.answers, m.manner = s.lead, s.manner
	m.mu.Unlock()
	var wg sync.WaitGroup
	for i := 0; i < s.asked; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(s.delays[i])
			if s.kind == "keygen" {
				_, _ = c.Servers[i].Keygen(keygen.NewRequest(append([]string(nil), keys...), s.height, s.version))
				return
			}
			r, err := c.Servers[i].KeySign(keysign.NewRequest(pool, append([]string(nil), s.msgs...), s.height, append([]string(nil), keys...), s.version))
			if err == nil && r.Status == common.Success {
				h.Label(s.kind + " succeeds")
			}
		}(i)
	}
	for _, x := range s.strays {
		wg.Add(1)
		go func(x stray) {
			defer wg.Done()
			time.Sleep(x.at)
			m.send(nodes[x.to], x)
		}(x)
	}
	wg.Wait()
}

func drawStep(rt *rapid.T) step {
	s := step{kind: rapid.SampledFrom([]string{"sign", "sign", "sign", "signer away", "unknown pool", "bad message", "few signers", "keygen", "nothing"}).Draw(rt, "kind")}
	s.version = rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version")
	for k := rapid.IntRange(1, 2).Draw(rt, "messages"); k > 0; k-- {
		b := h.Bytes(rapid.Uint64().Draw(rt, "message"), 31)
		s.msgs = append(s.msgs, base64.StdEncoding.EncodeToString(b))
	}
	s.signers = []int{0, 1, 2}
	if s.kind == "signer away" || s.kind == "keygen" && rapid.Bool().Draw(rt, "with one away") {
		s.signers = []int{0, 1, 2, 3}
	}
	s.height = int64(rapid.IntRange(1, 50).Draw(rt, "height"))
	s.asked = rapid.SampledFrom([]int{3, 3, 3, 3, 2, 1}).Draw(rt, "asked")
	if s.kind == "nothing" {
		s.asked = 0
	}
	for i := 0; i < s.asked; i++ {
		s.delays = append(s.delays, time.Duration(rapid.SampledFrom([]int{0, 0, 5, 100, 700}).Draw(rt, "delay"))*time.Millisecond)
	}
	s.manner = rapid.SampledFrom(manners).Draw(rt, "manner")
	s.lead.n = rapid.SampledFrom([]int{0, 1, 3, 10}).Draw(rt, "answers")
	s.lead.kind = messages.JoinPartyLeaderComm_ResponseType(rapid.IntRange(0, 3).Draw(rt, "answer"))
	for _, i := range [][]int{nil, {0, 1, 3}, {0, 1, 2, 3}, {0}}[rapid.IntRange(0, 3).Draw(rt, "answered peers")] {
		s.lead.peers = append(s.lead.peers, h.NodeN(i).Peer.String())
	}
	for k := rapid.IntRange(0, 3).Draw(rt, "strays"); k > 0; k-- {
		x := stray{kind: rapid.SampledFrom([]string{"message", "message", "message", "garbage", "join", "join with a leader", "signature", "half"}).Draw(rt, "stray")}
		x.to = rapid.IntRange(0, 2).Draw(rt, "to")
		x.at = time.Duration(rapid.SampledFrom([]int{0, 200, 1000, 2000, 3000, 6000}).Draw(rt, "at")) * time.Millisecond
		x.n = rapid.SampledFrom([]int{1, 2, 5, 30}).Draw(rt, "times")
		x.typ = rapid.IntRange(0, 8).Draw(rt, "type")
		if rapid.IntRange(0, 2).Draw(rt, "own id") == 0 {
			x.id = fmt.Sprintf("%x", h.Bytes(rapid.Uint64().Draw(rt, "id"), 32))
		}
		s.strays = append(s.strays, x)
	}
	return s
}

// settle waits until the nodes hold no more than told; the text is what they still hold.
func settle(c *cluster.Cluster, flush func(), most int, hosts map[int]map[string]host.Host, open map[int]int, ids []string, limit time.Duration) string {
	text := ""
	for end := time.Now().Add(limit); ; time.Sleep(time.Second) {
		flush()
		text = ""
		if n, t := goroutines(); n > most {
			text += fmt.Sprintf("; %d goroutines, %d before:%s", n, most, t)
		}
		for i := range c.Servers {
			for _, hst := range hosts[i] {
				if n, t := streams(hst); n > open[i] {
					text += fmt.Sprintf("; node %d has %d open streams, %d before: %s", i, n, open[i], t)
				}
			}
		}
		if text == "" {
			for i, s := range c.Servers {
				held := look(s).ids
				for _, id := range ids {
					if held[id] {
						text += fmt.Sprintf("; node %d still holds the id %s", i, id)
					}
				}
			}
		}
		if text == "" || time.Now().After(end) {
			return text
		}
	}
}

// TestIdle: after any requests and stray messages the nodes are as before.
func TestIdle(t *testing.T) {
	h.Rule("idle: three nodes and a fourth member, which takes no part and may leave streams opened to it unanswered, unread or reset, get a sequence of 2-5 signings, key generations, failing requests and, during and after them, stray messages of that member (for running, ended and unknown ceremonies, on all protocols, also garbage and half messages, up to 30 times); when all calls have returned and a further, refused request has ended, the nodes have no more goroutines in the repository's code and no more open streams than after the first request, and hold the name of no ceremony; stopped, they have no goroutines at all; non-trivial: the member learnt the name of a ceremony, identified by all steps")
	h.Shrink(time.Second)
	h.Check(t, 4, 60, 55*time.Second, 20*time.Minute, func(rt *rapid.T) {
		var steps []step
		for k := rapid.IntRange(2, 5).Draw(rt, "steps"); k > 0; k-- {
			steps = append(steps, drawStep(rt))
		}
		var nodes []*h.Node
		for i := 0; i < 4; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		if problem := h.Once(fmt.Sprint(steps), func() string { return idle(nodes, steps) }); problem != "" {
			rt.Fatalf("%s\nsteps: %v", problem, steps)
		}
	})
}

func idle(nodes []*h.Node, steps []step) string {
	initial, before := goroutines()
	states := h.States(4)
	pool := states[0].PubKey
	c := cluster.New(nodes[:3], conf, states[:3])
	closed := false
	defer func() {
		if !closed {
			c.Close()
		}
	}()
	m := newMember(nodes[3])
	defer m.hst.Close()
	c.Know(m.hst)
	for _, nd := range nodes[:3] {
		h.Must(m.hst.Connect(context.Background(), m.hst.Peerstore().PeerInfo(nd.Peer)))
	}
	flushes, served := 0, 0
	flush := func() {
		flushes++
		for i := range c.Servers {
			_, err := c.Servers[i].KeySign(keysign.NewRequest(h.NodeN(301).Bech32, []string{"AAAA" + strconv.Itoa(1000+flushes)}, 1, []string{nodes[0].Bech32}, leaderless))
			if err == nil {
				served++
			}
		}
	}
	step{kind: "sign", version: leaderless, msgs: []string{base64.StdEncoding.EncodeToString(h.Bytes(99, 31))}, manner: manners[0], signers: []int{0, 1, 2}, height: 1, asked: 3, delays: make([]time.Duration, 3)}.run(c, m, nodes, pool)
	flush()
	time.Sleep(1500 * time.Millisecond)
	flush()
	most, _ := goroutines()
	open, hosts := map[int]int{}, map[int]map[string]host.Host{}
	for i, s := range c.Servers {
		w := look(s)
		hosts[i] = w.hosts
		if len(w.hosts) == 0 {
			h.Label("host not found")
		}
		for _, hst := range w.hosts {
			open[i], _ = streams(hst)
		}
	}
	first := m.learnt()
	if len(first) > 0 {
		h.Label("first ceremony learnt")
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for _, s := range steps {
			s.run(c, m, nodes, pool)
		}
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(len(steps)) * 120 * time.Second):
		return fmt.Sprintf("a call has not returned")
	}
	ids := m.learnt()
	for _, s := range steps {
		h.Label(s.kind)
		h.Label("the member " + s.manner)
		for _, x := range s.strays {
			h.Label("stray " + x.kind)
			if x.id != "" {
				ids = append(ids, x.id)
			}
		}
	}
	sort.Strings(ids)
	key := ""
	if len(m.learnt()) > 1 {
		key = fmt.Sprint(steps)
	}
	h.Seen("idle", key, fmt.Sprint(steps))
	if text := settle(c, flush, most, hosts, open, ids, 80*time.Second); text != "" {
		return fmt.Sprintf("left behind%s", text)
	}
	closed = true
	c.Close()
	for end := time.Now().Add(30 * time.Second); ; time.Sleep(200 * time.Millisecond) {
		n, text := goroutines()
		if n <= initial {
			break
		}
		if time.Now().After(end) {
			return fmt.Sprintf("after all nodes were stopped:%s\nbefore they were started:%s", text, before)
		}
	}
	if served > 0 {
		return "a request for an unknown pool gives no error"
	}
	return ""
}
