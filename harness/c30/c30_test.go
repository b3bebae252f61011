// Package c30 decides C30: a node that stops or dies at any moment loses nothing and takes no other node with it.
// Every node is a process of its own (this test binary, started with C30_NODE set).
package c30

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) {
	if os.Getenv("C30_NODE") != "" {
		node()
		return
	}
	h.Main(m)
}

// ---- the node process ----

type start struct {
	Node, Port int
	Base       string
	Boot       []string
	Conf       common.TssConfig
}

type ask struct {
	ID      int
	Keygen  *keygen.Request  `json:",omitempty"`
	Keysign *keysign.Request `json:",omitempty"`
	Stop    bool             `json:",omitempty"`
}

type reply struct {
	ID      int
	Err     string            `json:",omitempty"`
	Keygen  *keygen.Response  `json:",omitempty"`
	Keysign *keysign.Response `json:",omitempty"`
	gone    bool              // the process ended before it answered
}

func node() {
	in := bufio.NewReader(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	var mu sync.Mutex
	say := func(r reply) {
		mu.Lock()
		defer mu.Unlock()
		h.Must(out.Encode(r))
	}
	var st start
	line, err := in.ReadBytes('\n')
	h.Must(err)
	h.Must(json.Unmarshal(line, &st))
	var boot []ma.Multiaddr
	for _, b := range st.Boot {
		a, err := ma.NewMultiaddr(b)
		h.Must(err)
		boot = append(boot, a)
	}
	nd := h.NodeN(st.Node)
	s, err := tss.NewTss(boot, st.Port, nd.Priv, "verif", st.Base, st.Conf, h.PreParams(st.Node), "")
	if err != nil {
		say(reply{Err: err.Error()})
		return
	}
	say(reply{})
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return // the test is done with this node
		}
		var a ask
		h.Must(json.Unmarshal(line, &a))
		go func() {
			r := reply{ID: a.ID}
			var err error
			switch {
			case a.Keygen != nil:
				var resp keygen.Response
				resp, err = s.Keygen(*a.Keygen)
				r.Keygen = &resp
			case a.Keysign != nil:
				var resp keysign.Response
				resp, err = s.KeySign(*a.Keysign)
				r.Keysign = &resp
			case a.Stop:
				s.Stop()
			}
			if err != nil {
				r.Err = err.Error()
			}
			say(r)
		}()
	}
}

// ---- the test's side ----

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	log    *bytes.Buffer
	mu     sync.Mutex
	next   int
	wait   map[int]chan reply
	dead   bool
	ended  chan struct{}
	killed bool
}

func launch(st start) (*proc, error) {
	p := &proc{wait: map[int]chan reply{}, ended: make(chan struct{}), log: &bytes.Buffer{}}
	p.cmd = exec.Command(os.Args[0])
	p.cmd.Env = append(os.Environ(), "C30_NODE=1")
	p.cmd.Stderr = &tail{b: p.log}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	p.in, err = p.cmd.StdinPipe()
	h.Must(err)
	stdout, err := p.cmd.StdoutPipe()
	h.Must(err)
	h.Must(p.cmd.Start())
	first := make(chan reply, 1)
	p.wait[0] = first
	p.next = 1
	go func() {
		dec := json.NewDecoder(stdout)
		for {
			var r reply
			if dec.Decode(&r) != nil {
				break
			}
			p.mu.Lock()
			ch := p.wait[r.ID]
			delete(p.wait, r.ID)
			p.mu.Unlock()
			if ch != nil {
				ch <- r
			}
		}
		_ = p.cmd.Wait()
		p.mu.Lock()
		p.dead = true
		for _, ch := range p.wait {
			ch <- reply{gone: true}
		}
		p.wait = nil
		p.mu.Unlock()
		close(p.ended)
	}()
	b, err := json.Marshal(st)
	h.Must(err)
	_, _ = p.in.Write(append(b, '\n'))
	select {
	case r := <-first:
		if r.gone {
			return p, fmt.Errorf("the process ended: %s", p.log.String())
		}
		if r.Err != "" {
			return p, fmt.Errorf("%s", r.Err)
		}
		return p, nil
	case <-time.After(2 * time.Minute):
		p.kill()
		return p, fmt.Errorf("not started after two minutes")
	}
}

// tail keeps what a node reports of a crash.
type tail struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, l := range bytes.SplitAfter(b, []byte("\n")) {
		if len(l) > 0 && l[0] != '{' && t.b.Len() < 1<<16 {
			t.b.Write(l)
		}
	}
	return len(b), nil
}

func (p *proc) ask(a ask) chan reply {
	ch := make(chan reply, 1)
	p.mu.Lock()
	if p.dead {
		p.mu.Unlock()
		ch <- reply{gone: true}
		return ch
	}
	a.ID = p.next
	p.next++
	p.wait[a.ID] = ch
	p.mu.Unlock()
	b, err := json.Marshal(a)
	h.Must(err)
	_, _ = p.in.Write(append(b, '\n'))
	return ch
}

func (p *proc) kill() {
	p.killed = true
	_ = p.cmd.Process.Kill()
	<-p.ended
}

const (
	leaderless = "0.13.0"
	withLeader = "0.14.0"
	margin     = 40 * time.Second
)

var conf = cluster.Conf(8*time.Second, 30*time.Second, 18*time.Second)

// longest is how long a call may take, by the configured time-outs.
const longest = (8 + 30) * time.Second

type network struct {
	rt    *rapid.T
	nodes []*h.Node
	procs []*proc
	ports []int
	dir   string
	what  string
}

func (w *network) base(i int) string { return filepath.Join(w.dir, fmt.Sprint(i)) }
func (w *network) addr(i int) string {
	return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", w.ports[i], w.nodes[i].Peer)
}

func (w *network) launch(i int, boot []int) error {
	st := start{Node: w.nodes[i].Idx, Port: w.ports[i], Base: w.base(i), Conf: conf}
	for _, j := range boot {
		st.Boot = append(st.Boot, w.addr(j))
	}
	p, err := launch(st)
	w.procs[i] = p
	return err
}

func build(rt *rapid.T, n int) *network {
	w := &network{rt: rt, dir: h.TempDir(), procs: make([]*proc, n), ports: make([]int, n)}
	states := h.States(n)
	for i := 0; i < n; i++ {
		w.nodes = append(w.nodes, h.NodeN(i))
		m, err := storage.NewFileStateMgr(w.base(i))
		h.Must(err)
		h.Must(m.SaveLocalState(states[i]))
	}
	for i := 0; i < n; i++ {
		var boot []int
		for j := 0; j < i; j++ {
			boot = append(boot, j)
		}
		var err error
		for try := 0; try < 6; try++ {
			w.ports[i] = cluster.FreePort()
			if err = w.launch(i, boot); err == nil {
				break
			}
			w.procs[i].kill()
		}
		if err != nil {
			h.Infra("node %d does not start: %v", i, err)
		}
	}
	return w
}

func (w *network) close() {
	for _, p := range w.procs {
		if p != nil {
			p.kill()
		}
	}
	_ = os.RemoveAll(w.dir)
}

// get waits for an answer.
func (w *network) get(i int, what string, ch chan reply, limit time.Duration) reply {
	select {
	case r := <-ch:
		if r.gone && !w.procs[i].killed {
			w.rt.Fatalf("%s: %s: node %d crashed: %s", w.what, what, i, w.procs[i].log.String())
		}
		return r
	case <-time.After(limit):
		w.rt.Fatalf("%s: %s: node %d has not returned after %v", w.what, what, i, limit)
	}
	return reply{}
}

func messages(rt *rapid.T) []string {
	var out []string
	for n := rapid.IntRange(1, 3).Draw(rt, "batch"); len(out) < n; {
		b := h.Bytes(rapid.Uint64().Draw(rt, "message"), 32)
		b[0] = byte(len(out) + 1)
		out = append(out, base64.StdEncoding.EncodeToString(b))
	}
	return out
}

func (w *network) indexes(keys []string) []int {
	var out []int
	for _, k := range keys {
		for i, n := range w.nodes {
			if n.Bech32 == k {
				out = append(out, i)
			}
		}
	}
	sort.Ints(out)
	return out
}

// sign has the nodes in who sign, all of which must succeed.
func (w *network) sign(label, pool, version string, who, signers []int) {
	rt := w.rt
	msgs := messages(rt)
	var keys []string
	for _, i := range signers {
		keys = append(keys, w.nodes[i].Bech32)
	}
	what := fmt.Sprintf("%s: signing %v, version %s, signers %v", label, msgs, version, signers)
	chs := map[int]chan reply{}
	for _, i := range who {
		req := keysign.NewRequest(pool, h.Permute(rt, msgs, "messages"), 10, h.Permute(rt, keys, "signers"), version)
		chs[i] = w.procs[i].ask(ask{Keysign: &req})
	}
	for _, i := range who {
		r := w.get(i, what, chs[i], longest+margin)
		if r.Err != "" || r.Keysign.Status != common.Success {
			rt.Fatalf("%s: %s: node %d fails: %s %+v", w.what, what, i, r.Err, r.Keysign)
		}
		if b := cluster.Bad(pool, msgs, r.Keysign); b != "" {
			rt.Fatalf("%s: %s: node %d: %s", w.what, what, i, b)
		}
	}
}

// stored checks that node i holds a share for the pool.
func (w *network) stored(i int, pool string) {
	m, err := storage.NewFileStateMgr(w.base(i))
	h.Must(err)
	st, err := m.GetLocalState(pool)
	if err != nil {
		w.rt.Fatalf("%s: node %d holds no share of the key %s it had reported: %v", w.what, i, pool, err)
	}
	if st.PubKey != pool || st.LocalPartyKey != w.nodes[i].Bech32 || st.LocalData.Xi == nil {
		w.rt.Fatalf("%s: node %d holds another share for the key %s it had reported: %+v", w.what, i, pool, st.PubKey)
	}
}

// run interrupts a request and then asks for more.
func run(rt *rapid.T, gen bool) {
	n := rapid.IntRange(3, 5).Draw(rt, "nodes")
	if gen {
		n = rapid.IntRange(3, 4).Draw(rt, "nodes")
	}
	quorum := (2*n + 2) / 3
	w := build(rt, n)
	defer w.close()
	states := h.States(n)
	pool := states[0].PubKey
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	version := rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version")
	perm := rapid.Permutation(all).Draw(rt, "victims")
	nv := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "victim count")
	victims, survivors := perm[:nv], perm[nv:]
	mode := map[int]string{}
	at, frozen := map[int]time.Duration{}, map[int]time.Duration{}
	upto := 2500
	if gen {
		upto = 5000
	}
	event := rapid.IntRange(0, 3).Draw(rt, "as soon as a share is stored") == 0 && gen
	for _, v := range victims {
		mode[v] = rapid.SampledFrom([]string{"kill", "kill", "stop", "freeze", "freeze"}).Draw(rt, "mode")
		if mode[v] == "freeze" {
			// until the others have answered, or shorter
			frozen[v] = time.Duration(rapid.SampledFrom([]int{0, 0, 100, 500, 1500, 4000}).Draw(rt, "frozen for")) * time.Millisecond
		}
		at[v] = time.Duration(rapid.IntRange(0, upto).Draw(rt, "after")) * time.Millisecond
		if event {
			at[v] = time.Duration(rapid.IntRange(0, 40).Draw(rt, "after")) * time.Millisecond
		}
	}
	var msgs []string
	var signers []string
	if !gen {
		msgs = messages(rt)
		signers = rapid.Permutation(h.Bech32s(w.nodes)).Draw(rt, "signers")[:rapid.IntRange(quorum, n).Draw(rt, "signer count")]
	}
	w.what = fmt.Sprintf("%d nodes, version %s, keygen %v (messages %v, signers %v), %v end (%v) after %v (of the first stored share: %v), frozen ones for %v", n, version, gen, msgs, w.indexes(signers), victims, mode, at, event, frozen)
	chs := make([]chan reply, n)
	for i := range w.nodes {
		if gen {
			req := keygen.NewRequest(h.Permute(rt, h.Bech32s(w.nodes), "keys"), 10, version)
			chs[i] = w.procs[i].ask(ask{Keygen: &req})
		} else {
			req := keysign.NewRequest(pool, append([]string(nil), msgs...), 10, append([]string(nil), signers...), version)
			chs[i] = w.procs[i].ask(ask{Keysign: &req})
		}
	}
	if event {
		end := time.Now().Add(longest)
		for !w.newShare(pool) && time.Now().Before(end) {
			time.Sleep(2 * time.Millisecond)
		}
	}
	var wg sync.WaitGroup
	stops := map[int]chan reply{}
	var mu sync.Mutex
	running := false
	for _, v := range victims {
		wg.Add(1)
		go func(v int) {
			defer wg.Done()
			time.Sleep(at[v])
			p := w.procs[v]
			p.mu.Lock()
			busy := len(p.wait) > 0
			p.mu.Unlock()
			mu.Lock()
			running = running || busy
			mu.Unlock()
			if mode[v] == "kill" {
				p.kill()
				return
			}
			if mode[v] == "freeze" {
				h.Must(p.cmd.Process.Signal(syscall.SIGSTOP))
				if frozen[v] > 0 {
					time.Sleep(frozen[v])
					h.Must(p.cmd.Process.Signal(syscall.SIGCONT))
				}
				return
			}
			ch := p.ask(ask{Stop: true})
			mu.Lock()
			stops[v] = ch
			mu.Unlock()
		}(v)
	}
	wg.Wait()
	key := ""
	if running {
		key = w.what
	}
	kind := "signing"
	if gen {
		kind = "key generation"
	}
	h.Seen(kind+" "+version, key, w.what)
	// every call ends, with nothing wrong
	newPool := ""
	holders := []int{}
	ok := 0
	for _, i := range append(append([]int(nil), survivors...), victims...) {
		if mode[i] == "freeze" && frozen[i] == 0 {
			h.Must(w.procs[i].cmd.Process.Signal(syscall.SIGCONT))
		}
		r := w.get(i, "the interrupted request", chs[i], longest+margin)
		if r.gone || r.Err != "" {
			continue
		}
		switch {
		case gen && r.Keygen.Status == common.Success:
			if cluster.DecodePub(r.Keygen.PubKey) == nil {
				rt.Fatalf("%s: node %d reports success with the key %q", w.what, i, r.Keygen.PubKey)
			}
			if newPool == "" {
				newPool = r.Keygen.PubKey
			}
			if newPool != r.Keygen.PubKey {
				rt.Fatalf("%s: node %d reports the key %s, another one %s", w.what, i, r.Keygen.PubKey, newPool)
			}
			holders = append(holders, i)
			w.stored(i, newPool)
			ok++
		case !gen && r.Keysign.Status == common.Success:
			if b := cluster.Bad(pool, msgs, r.Keysign); b != "" {
				rt.Fatalf("%s: node %d reports success: %s", w.what, i, b)
			}
			ok++
		}
	}
	for v, ch := range stops {
		w.get(v, "stop", ch, longest+margin)
		l, err := net.Listen("tcp4", fmt.Sprintf("0.0.0.0:%d", w.ports[v]))
		if err != nil {
			rt.Fatalf("%s: node %d has stopped, but its port is taken: %v", w.what, v, err)
		}
		l.Close()
	}
	switch {
	case ok == 0:
		h.Label(kind + ": no node succeeds")
	case ok == n:
		h.Label(kind + ": every node succeeds")
	default:
		h.Label(kind + ": some succeed")
	}
	if running {
		h.Label(kind + ": a running call was cut")
	}
	// the ended ones come back
	up := append([]int(nil), survivors...)
	for _, v := range victims {
		if mode[v] == "freeze" {
			h.Label("goes on after it was frozen")
			up = append(up, v)
			continue
		}
		w.procs[v].kill()
		boot := rapid.Permutation(up).Draw(rt, "boot")[:rapid.IntRange(1, len(up)).Draw(rt, "boot count")]
		if err := w.launch(v, boot); err != nil {
			rt.Fatalf("%s: node %d does not start again: %v", w.what, v, err)
		}
		up = append(up, v)
	}
	for i := range w.nodes {
		m, err := storage.NewFileStateMgr(w.base(i))
		h.Must(err)
		st, err := m.GetLocalState(pool)
		if err != nil {
			rt.Fatalf("%s: node %d lost its share: %v", w.what, i, err)
		}
		if d := h.SameState(st, states[i]); d != "" {
			rt.Fatalf("%s: node %d holds another share than before: %s", w.what, i, d)
		}
	}
	for _, i := range holders {
		w.stored(i, newPool)
	}
	v2 := rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "next version")
	w.sign("afterwards", pool, v2, all, rapid.Permutation(all).Draw(rt, "next signers")[:rapid.IntRange(quorum, n).Draw(rt, "next signer count")])
	if gen && len(holders) >= quorum {
		w.sign("with the key of those that succeeded", newPool, leaderless, holders, holders)
		h.Label("signed with the key of an interrupted generation")
	}
	if gen {
		// the same request again
		for i := range w.nodes {
			req := keygen.NewRequest(h.Permute(rt, h.Bech32s(w.nodes), "keys"), 10, version)
			chs[i] = w.procs[i].ask(ask{Keygen: &req})
		}
		again := ""
		for i, ch := range chs {
			r := w.get(i, "the same key generation again", ch, longest+margin)
			if r.Err != "" || r.Keygen.Status != common.Success {
				rt.Fatalf("%s: node %d fails in the same key generation again: %s %+v", w.what, i, r.Err, r.Keygen)
			}
			if again == "" {
				again = r.Keygen.PubKey
			}
			if again != r.Keygen.PubKey || again == newPool {
				rt.Fatalf("%s: key generation again: %s and %s, before %s", w.what, again, r.Keygen.PubKey, newPool)
			}
			w.stored(i, again)
		}
		w.stop()
		return
	}
	for i := range w.nodes {
		req := keysign.NewRequest(pool, append([]string(nil), msgs...), 10, append([]string(nil), signers...), version)
		chs[i] = w.procs[i].ask(ask{Keysign: &req})
	}
	for i, ch := range chs {
		r := w.get(i, "the same signing again", ch, longest+margin)
		if r.Err != "" || r.Keysign.Status != common.Success {
			rt.Fatalf("%s: node %d fails in the same signing again: %s %+v", w.what, i, r.Err, r.Keysign)
		}
		if b := cluster.Bad(pool, msgs, r.Keysign); b != "" {
			rt.Fatalf("%s: node %d in the same signing again: %s", w.what, i, b)
		}
	}
	w.stop()
}

// stop stops every node at the end.
func (w *network) stop() {
	var chs []chan reply
	for _, p := range w.procs {
		chs = append(chs, p.ask(ask{Stop: true}))
	}
	for i, ch := range chs {
		w.get(i, "stop at the end", ch, 60*time.Second)
		l, err := net.Listen("tcp4", fmt.Sprintf("0.0.0.0:%d", w.ports[i]))
		if err != nil {
			w.rt.Fatalf("%s: node %d has stopped at the end, but its port is taken: %v", w.what, i, err)
		}
		l.Close()
	}
}

// newShare tells whether some node has stored a share of another pool.
func (w *network) newShare(pool string) bool {
	for i := range w.nodes {
		fs, _ := ioutil.ReadDir(w.base(i))
		for _, f := range fs {
			if strings.HasPrefix(f.Name(), "localstate-") && strings.HasSuffix(f.Name(), ".json") && !strings.Contains(f.Name(), pool) {
				return true
			}
		}
	}
	return false
}

// TestSign: nodes end during a signing.
func TestSign(t *testing.T) {
	h.Rule("sign: 3-5 nodes, each a process of its own, get a signing request; 1-2 of them are killed, stopped or frozen (for 0.1-4 s or until the others have answered) 0-2.5 s later; every call on the others (and on stopped and frozen ones) ends in time with an error, a failed status or valid signatures, and no process crashes; a stopped node's port is free; then killed and stopped ones are started again from their folders, hold their shares, and a further signing and the same one again succeed everywhere, and every node can be stopped; non-trivial: a call was running on a node that ended, identified by everything drawn")
	h.Shrink(time.Millisecond)
	h.Check(t, 3, 60, 60*time.Second, 20*time.Minute, func(rt *rapid.T) { run(rt, false) })
}

// TestGenerate: nodes end during a key generation.
func TestGenerate(t *testing.T) {
	h.Rule("generate: as sign, during a key generation of 3-4 nodes, 0-5 s after the request or right after the first node has stored its share; nodes reporting success report one key and have stored its share; afterwards a signing with the old key, one with the new key if a quorum reported it, and the same key generation again succeed")
	h.Shrink(time.Millisecond)
	h.Check(t, 2, 40, 60*time.Second, 20*time.Minute, func(rt *rapid.T) { run(rt, true) })
}
