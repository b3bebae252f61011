// Package c31 decides C31: the daemon, built from cmd/tss, driven by flags, stdin, HTTP and signals only.
package c31

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/libp2p/go-libp2p-core/peerstore"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const party = 10 * time.Second // how long nodes wait for one another when nothing is configured

type daemon struct {
	node           *h.Node
	web, p2p       int
	dir, home      string
	ip             string // told with -external-ip, "" if not
	monitor        bool
	preTimeout     string
	env            string // the network
	cmd            *exec.Cmd
	out            *tail
	ended          chan struct{}
	code           int
	success, fails map[string]int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, b...)
	if len(t.b) > 1<<15 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<14:]...)
	}
	return len(b), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func (t *tail) has(s string) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return bytes.Contains(t.b, []byte(s))
}

func key(n *h.Node) string {
	return base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(n.Priv[:])))
}

// flags writes name-value pairs the ways the flag package knows, in some order.
func flags(rt *rapid.T, kv [][2]string) []string {
	idx := make([]int, len(kv))
	for i := range idx {
		idx[i] = i
	}
	var out []string
	for _, i := range rapid.Permutation(idx).Draw(rt, "flag order") {
		k, v := kv[i][0], kv[i][1]
		style := rapid.IntRange(0, 3).Draw(rt, "style")
		if k == "enablemonitor" || k == "pretty-log" {
			style &= 1 // the value of a truth flag needs the equals sign
		}
		switch style {
		case 0:
			out = append(out, "-"+k+"="+v)
		case 1:
			out = append(out, "--"+k+"="+v)
		case 2:
			out = append(out, "-"+k, v)
		case 3:
			out = append(out, "--"+k, v)
		}
	}
	return out
}

func newDaemon(dir string, i int) *daemon {
	d := &daemon{node: h.NodeN(i), dir: filepath.Join(dir, fmt.Sprint(i)), monitor: true, preTimeout: "5m0s", success: map[string]int{}, fails: map[string]int{}}
	d.home = filepath.Join(d.dir, "home")
	h.Must(os.MkdirAll(filepath.Join(d.dir, "cwd"), 0o755))
	buf, err := json.Marshal(h.PreParams(i))
	h.Must(err)
	h.Must(ioutil.WriteFile(filepath.Join(d.dir, "preparams"), buf, 0o600))
	return d
}

func (d *daemon) start(args []string, stdin string) {
	d.out = &tail{}
	d.ended = make(chan struct{})
	d.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "tss"), args...)
	d.cmd.Dir = filepath.Join(d.dir, "cwd")
	d.cmd.Env = []string{"HOME=" + d.cmd.Dir, "PATH=/usr/bin:/bin", "VERIF_PREPARAMS=" + filepath.Join(d.dir, "preparams"), "GOMAXPROCS=4", "NET=" + d.env}
	d.cmd.Stdin = strings.NewReader(stdin)
	d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	h.Must(d.cmd.Start())
	go func() {
		_ = d.cmd.Wait()
		d.code = d.cmd.ProcessState.ExitCode()
		close(d.ended)
	}()
}

func (d *daemon) gone() bool {
	select {
	case <-d.ended:
		return true
	default:
		return false
	}
}

// up waits until the API answers or the process has ended.
func (d *daemon) up(limit time.Duration) bool {
	for end := time.Now().Add(limit); time.Now().Before(end) && !d.gone(); time.Sleep(20 * time.Millisecond) {
		if code, _, err := d.call("GET", "/ping", "", time.Second); err == nil && code == 200 {
			return !d.gone()
		}
	}
	return false
}

func (d *daemon) call(method, path, body string, limit time.Duration) (int, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, fmt.Sprintf("http://127.0.0.1:%d%s", d.web, path), strings.NewReader(body))
	h.Must(err)
	req.Close = true
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

func (d *daemon) kill() {
	if d.cmd != nil && d.cmd.Process != nil {
		_ = d.cmd.Process.Kill()
		<-d.ended
	}
}

func (d *daemon) addr() ma.Multiaddr {
	ip := d.ip
	if ip == "" {
		ip = "127.0.0.1"
	}
	a, err := ma.NewMultiaddr(fmt.Sprintf("/ip4/%s/tcp/%d/p2p/%s", ip, d.p2p, d.node.Peer))
	h.Must(err)
	return a
}

func free(port int) bool {
	l, err := net.Listen("tcp4", fmt.Sprintf("0.0.0.0:%d", port))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// end sends a signal and waits; "" or what is wrong.
func (d *daemon) end(sig syscall.Signal) string {
	_ = d.cmd.Process.Signal(sig)
	begin := time.Now()
	select {
	case <-d.ended:
	case <-time.After(60 * time.Second):
		return fmt.Sprintf("still running a minute after signal %v: %s", sig, d.out)
	}
	if d.code != 0 {
		return fmt.Sprintf("signal %v: exit code %d: %s", sig, d.code, d.out)
	}
	for _, p := range []int{d.web, d.p2p} {
		if !free(p) {
			return fmt.Sprintf("ended after %v, but port %d is taken", time.Since(begin), p)
		}
	}
	return ""
}

// litter lists what a daemon left outside of its home.
func (d *daemon) litter() string {
	var out []string
	fs, err := ioutil.ReadDir(filepath.Join(d.dir, "cwd"))
	h.Must(err)
	for _, f := range fs {
		out = append(out, f.Name())
	}
	return strings.Join(out, " ")
}

func messages(rt *rapid.T) []string {
	var out []string
	for n := rapid.IntRange(1, 3).Draw(rt, "batch"); len(out) < n; {
		b := h.Bytes(rapid.Uint64().Draw(rt, "message"), 32)
		b[0] = byte(len(out) + 1)
		out = append(out, base64.StdEncoding.EncodeToString(b))
	}
	return out
}

type net31 struct {
	rt        *rapid.T
	ds        []*daemon
	what      string
	gen, sign time.Duration
}

func (w *net31) fail(format string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf("%s: %s", w.what, fmt.Sprintf(format, a...))
}

func (w *net31) launch(i int, peers []int, base [][2]string) {
	rt, d := w.rt, w.ds[i]
	for try := 0; ; try++ {
		if try == 6 {
			h.Infra("daemon %d does not start: %s", i, d.out)
		}
		if base == nil || try > 0 {
			d.web, d.p2p = cluster.FreePort(), cluster.FreePort()
		}
		kv := [][2]string{{"tss-port", fmt.Sprintf("%s:%d", rapid.SampledFrom([]string{"127.0.0.1", "", "localhost"}).Draw(rt, "web host"), d.web)},
			{"p2p-port", fmt.Sprint(d.p2p)}, {"home", d.home}, {"gentimeout", w.gen.String()}, {"signtimeout", w.sign.String()}}
		if d.ip != "" {
			kv = append(kv, [2]string{"external-ip", d.ip})
		}
		if !d.monitor || rapid.Bool().Draw(rt, "say monitor") {
			kv = append(kv, [2]string{"enablemonitor", fmt.Sprint(d.monitor)})
		}
		if d.preTimeout != "5m0s" {
			kv = append(kv, [2]string{"preparamtimeout", d.preTimeout})
		}
		if l := rapid.SampledFrom([]string{"", "debug", "error", "loud"}).Draw(rt, "log level"); l != "" {
			kv = append(kv, [2]string{"loglevel", l})
		}
		if rapid.IntRange(0, 3).Draw(rt, "pretty") == 0 {
			kv = append(kv, [2]string{"pretty-log", "true"})
		}
		if r := rapid.SampledFrom([]string{"", "friends"}).Draw(rt, "rendezvous"); r != "" {
			kv = append(kv, [2]string{"rendezvous", r})
		}
		for _, j := range peers {
			kv = append(kv, [2]string{"peer", w.ds[j].addr().String()})
		}
		d.start(flags(rt, kv), key(d.node)+rapid.SampledFrom([]string{"\n", "\r\n", "\nmore\n"}).Draw(rt, "after the key"))
		if d.up(60 * time.Second) {
			return
		}
		if d.out.has("address already in use") {
			d.kill()
			continue
		}
		w.fail("daemon %d (flags %v) does not serve (ended %v): %s", i, kv, d.gone(), d.out)
	}
}

type answer struct {
	code int
	body string
	err  error
	took time.Duration
}

// ask posts to the daemons in who at once.
func (w *net31) ask(who []int, path string, limit time.Duration, body func(i int) string) map[int]answer {
	out := map[int]answer{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, i := range who {
		b := body(i)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			begin := time.Now()
			var a answer
			a.code, a.body, a.err = w.ds[i].call("POST", path, b, limit)
			a.took = time.Since(begin)
			mu.Lock()
			out[i] = a
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	for i, a := range out {
		if w.ds[i].gone() {
			w.fail("daemon %d ended (code %d) on %s: %s", i, w.ds[i].code, path, w.ds[i].out)
		}
		if a.err != nil {
			w.fail("daemon %d: %s: %v after %v", i, path, a.err, a.took)
		}
	}
	return out
}

func encode(v interface{}) string {
	b, err := json.Marshal(v)
	h.Must(err)
	return string(b)
}

func (w *net31) keys(idx []int) []string {
	var out []string
	for _, i := range idx {
		out = append(out, w.ds[i].node.Bech32)
	}
	return out
}

// signing has the daemons in who sign.
func (w *net31) signing(label, pool, version string, who, signers []int) {
	rt := w.rt
	msgs := messages(rt)
	limit := 2*party + w.sign + 40*time.Second
	got := w.ask(who, "/keysign", limit, func(int) string {
		return encode(keysign.NewRequest(pool, h.Permute(rt, msgs, "messages"), 10, h.Permute(rt, w.keys(signers), "signers"), version))
	})
	alone := len(who) < (2*len(w.ds)+2)/3
	for i, a := range got {
		var r keysign.Response
		if a.code == 200 {
			if err := json.Unmarshal([]byte(a.body), &r); err != nil {
				w.fail("%s: daemon %d answers %q", label, i, a.body)
			}
		}
		switch {
		case alone || w.sign < time.Second:
			if a.code != 500 && r.Status != common.Fail {
				w.fail("%s by %v (time-out %v): daemon %d answers %d %q", label, who, w.sign, i, a.code, a.body)
			}
			w.ds[i].fails["keysign"]++
		case a.code != 200 || r.Status != common.Success:
			w.fail("%s, version %s, by %v: daemon %d answers %d %q after %v", label, version, who, i, a.code, a.body, a.took)
		default:
			if b := cluster.Bad(pool, msgs, &r); b != "" {
				w.fail("%s: daemon %d: %s", label, i, b)
			}
			w.ds[i].success["keysign"]++
		}
	}
}

// generating has all generate a key; "" if it must fail by the configured time-out.
func (w *net31) generating(version string, all []int) string {
	got := w.ask(all, "/keygen", 2*party+w.gen+40*time.Second, func(int) string {
		return encode(keygen.NewRequest(h.Permute(w.rt, w.keys(all), "keys"), 10, version))
	})
	pool := ""
	for i, a := range got {
		var r keygen.Response
		if a.code != 200 || json.Unmarshal([]byte(a.body), &r) != nil {
			w.fail("key generation: daemon %d answers %d %q", i, a.code, a.body)
		}
		if w.gen < time.Second {
			if r.Status == common.Success {
				w.fail("key generation succeeds at daemon %d in %v, the time-out is %v", i, a.took, w.gen)
			}
			w.ds[i].fails["keygen"]++
			continue
		}
		if r.Status != common.Success || cluster.DecodePub(r.PubKey) == nil {
			w.fail("key generation, version %s: daemon %d answers %q after %v", version, i, a.body, a.took)
		}
		if pool == "" {
			pool = r.PubKey
		}
		prefix := "bnb"
		if e := w.ds[i].env; e == "testnet" || e == "mocknet" {
			prefix = "tbnb"
		}
		if want, err := bech32.ConvertAndEncode(prefix, cluster.Address(pool)); err != nil || r.PoolAddress != want {
			w.fail("daemon %d (network %q) gives key %s the address %s, not %s", i, w.ds[i].env, pool, r.PoolAddress, want)
		}
		if pool != r.PubKey {
			w.fail("key generation: %s and %s", pool, r.PubKey)
		}
		w.ds[i].success["keygen"]++
		m, err := storage.NewFileStateMgr(w.ds[i].home)
		h.Must(err)
		st, err := m.GetLocalState(pool)
		if err != nil || st.LocalPartyKey != w.ds[i].node.Bech32 {
			w.fail("daemon %d has no share of the generated key in its home: %v", i, err)
		}
	}
	return pool
}

// counters checks /metrics against what the daemon answered.
func (w *net31) counters(i int) {
	d := w.ds[i]
	code, body, err := d.call("GET", "/metrics", "", 10*time.Second)
	if err != nil || code != 200 {
		w.fail("daemon %d: /metrics: %d %v", i, code, err)
	}
	for _, kind := range []string{"keygen", "keysign"} {
		for status, want := range map[string]int{"success": d.success[kind], "failure": d.fails[kind]} {
			line := fmt.Sprintf("Tss_Tss_%s{status=%q} ", kind, status)
			got := 0
			if at := strings.Index(body, line); at >= 0 {
				_, _ = fmt.Sscan(body[at+len(line):], &got)
			}
			if !d.monitor {
				if got != 0 {
					w.fail("daemon %d counts %s%d, it was told not to", i, line, got)
				}
				continue
			}
			if got != want {
				w.fail("daemon %d counts %s%d, it has answered %d: %v %v", i, line, got, want, d.success, d.fails)
			}
		}
	}
}

// TestNetwork: daemons that know one another serve requests.
func TestNetwork(t *testing.T) {
	h.Rule("network: 2-4 daemons with generated flags (ports, home, time-outs, external address, monitoring, log options, NET variable; every way and order of writing them) and keys on stdin, each told of 1-2 earlier ones, serve 2-4 requests over HTTP (key generation, signing by all or by too few, malformed, wrong method), with time-outs that suffice or are too short for one of the two kinds; p2pid, the advertised address, answers, counters at /metrics, share files and anything left outside of home are checked; then some are ended with SIGTERM or SIGINT, idle or in the middle of a request, started again with the same home, and another signing must succeed; non-trivial: every case, identified by everything drawn")
	h.Shrink(time.Millisecond)
	h.Check(t, 3, 60, 60*time.Second, 20*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(2, 4).Draw(rt, "daemons")
		w := &net31{rt: rt, gen: 60 * time.Second, sign: 60 * time.Second}
		must := "generate"
		switch rapid.IntRange(0, 4).Draw(rt, "time-outs") {
		case 0, 1:
			w.gen = 100 * time.Millisecond
		case 2, 3:
			w.sign, must = time.Millisecond, "sign"
		}
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		states := h.States(n)
		pool := states[0].PubKey
		all := make([]int, n)
		quorum := (2*n + 2) / 3
		for i := 0; i < n; i++ {
			all[i] = i
			d := newDaemon(dir, i)
			w.ds = append(w.ds, d)
			defer d.kill()
			d.env = rapid.SampledFrom([]string{"", "testnet", "mocknet", "mainnet"}).Draw(rt, "network")
			d.monitor = rapid.IntRange(0, 3).Draw(rt, "monitor") > 0
			if rapid.Bool().Draw(rt, "external address") {
				d.ip = fmt.Sprintf("127.0.1.%d", i+1)
			}
			if rapid.IntRange(0, 2).Draw(rt, "say pre-parameter time-out") == 0 {
				d.preTimeout = "7m30s"
			}
			m, err := storage.NewFileStateMgr(d.home)
			h.Must(err)
			h.Must(m.SaveLocalState(states[i]))
		}
		type step struct {
			kind, version string
			who           []int
		}
		var steps []step
		for k := rapid.IntRange(2, 4).Draw(rt, "steps"); len(steps) < k; {
			s := step{kind: rapid.SampledFrom([]string{"sign", "sign", "generate", "alone", "malformed"}).Draw(rt, "step"), version: rapid.SampledFrom([]string{"0.13.0", "0.14.0"}).Draw(rt, "version")}
			s.who = rapid.Permutation(all).Draw(rt, "who")[:rapid.IntRange(quorum, n).Draw(rt, "how many")]
			steps = append(steps, s)
		}
		steps[rapid.IntRange(0, len(steps)-1).Draw(rt, "place")].kind = must
		ending := rapid.Permutation(all).Draw(rt, "ended")[:rapid.IntRange(1, n).Draw(rt, "how many end")]
		busy := rapid.IntRange(0, 2).Draw(rt, "in the middle of a request") == 0
		w.what = fmt.Sprintf("%d daemons, time-outs %v %v, steps %v, %v end (busy %v)", n, w.gen, w.sign, steps, ending, busy)
		h.Seen("network", w.what, w.what)
		for i, d := range w.ds {
			var peers []int
			if i > 0 {
				peers = append(peers, rapid.IntRange(0, i-1).Draw(rt, "peer"))
				if j := rapid.IntRange(0, i-1).Draw(rt, "second peer"); j != peers[0] {
					peers = append(peers, j)
				}
			}
			w.launch(i, peers, nil)
			code, body, err := d.call("GET", "/p2pid", "", 10*time.Second)
			if err != nil || code != 200 || body != d.node.Peer.String() {
				w.fail("daemon %d with the key of %s says it is %q (%d, %v)", i, d.node.Peer, body, code, err)
			}
			if b, err := ioutil.ReadFile(filepath.Join(d.dir, "preparams.timeout")); err != nil || string(b) != d.preTimeout {
				w.fail("daemon %d searches pre-parameters for %s, it was told %s", i, b, d.preTimeout)
			}
		}
		w.advertised()
		for k, s := range steps {
			label := fmt.Sprintf("step %d %v", k, s)
			h.Label(s.kind + " " + s.version)
			switch s.kind {
			case "generate":
				if p := w.generating(s.version, all); p != "" {
					pool = p
				}
			case "sign":
				// with a leader those that hold the key are asked, without one the signers
				w.signing(label, pool, s.version, all, s.who)
			case "alone":
				w.signing(label, pool, s.version, s.who[:1], all)
			case "malformed":
				for path, body := range map[string]string{"/keygen": `{"keys":3}`, "/keysign": rapid.SampledFrom([]string{"", "{", `{"messages":"x"}`}).Draw(rt, "body")} {
					for i, a := range w.ask(all, path, 30*time.Second, func(int) string { return body }) {
						if a.code != 400 {
							w.fail("daemon %d answers %d to %s %q", i, a.code, path, body)
						}
					}
					if code, _, err := w.ds[0].call("GET", path, "", 10*time.Second); err != nil || code/100 != 4 {
						w.fail("GET %s: %d %v", path, code, err)
					}
				}
			}
		}
		for i := range w.ds {
			w.counters(i)
		}
		var wg sync.WaitGroup
		if busy {
			for _, i := range all {
				body := encode(keysign.NewRequest(pool, []string{"aGVsbG8="}, 10, w.keys(all), "0.13.0"))
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					_, _, _ = w.ds[i].call("POST", "/keysign", body, 2*party+w.sign+40*time.Second)
				}(i)
			}
			time.Sleep(time.Duration(rapid.IntRange(0, 1500).Draw(rt, "after")) * time.Millisecond)
		}
		wrong := make([]string, n)
		var ends sync.WaitGroup
		for _, i := range ending {
			sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")
			ends.Add(1)
			go func(i int) {
				defer ends.Done()
				wrong[i] = w.ds[i].end(sig)
			}(i)
		}
		ends.Wait()
		wg.Wait()
		for i, s := range wrong {
			if s != "" {
				w.fail("daemon %d: %s", i, s)
			}
			if l := w.ds[i].litter(); l != "" {
				w.fail("daemon %d keeps files outside of its home: %s", i, l)
			}
		}
		up := map[int]bool{}
		for i := range w.ds {
			up[i] = true
		}
		for _, i := range ending {
			up[i] = false
		}
		w.gen, w.sign = 60*time.Second, 60*time.Second
		for _, i := range all {
			if up[i] && len(ending) < n {
				// its time-outs are those of before; end it, too
				if s := w.ds[i].end(syscall.SIGTERM); s != "" {
					w.fail("daemon %d: %s", i, s)
				}
			}
		}
		for _, i := range all {
			var peers []int
			if i > 0 {
				peers = append(peers, rapid.IntRange(0, i-1).Draw(rt, "peer"))
			}
			// remembered peers that are not up yet must not keep the first from starting
			_ = os.Remove(filepath.Join(w.ds[i].home, "address_book.seed"))
			w.launch(i, peers, nil)
		}
		w.signing("after the restart", pool, rapid.SampledFrom([]string{"0.13.0", "0.14.0"}).Draw(rt, "version"), all, all)
	})
}

// advertised: the address a daemon tells others is the one it was told to.
func (w *net31) advertised() {
	hst := h.RawHost(h.NodeN(60))
	defer hst.Close()
	for i, d := range w.ds {
		// reached at an address that it has not told anybody
		a, err := ma.NewMultiaddr(fmt.Sprintf("/ip4/127.0.9.9/tcp/%d", d.p2p))
		h.Must(err)
		hst.Peerstore().AddAddrs(d.node.Peer, []ma.Multiaddr{a}, peerstore.PermanentAddrTTL)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		_, err = hst.Network().DialPeer(ctx, d.node.Peer)
		cancel()
		if err != nil {
			w.fail("daemon %d is not at its port %d: %v", i, d.p2p, err)
		}
		if d.ip == "" {
			continue
		}
		want := fmt.Sprintf("/ip4/%s/tcp/%d", d.ip, d.p2p)
		var told []string
		for end := time.Now().Add(10 * time.Second); len(told) == 0 && time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			for _, x := range hst.Peerstore().Addrs(d.node.Peer) {
				if x.String() != a.String() {
					told = append(told, x.String())
				}
			}
		}
		if len(told) != 1 || told[0] != want {
			w.fail("daemon %d tells the addresses %v, not the %s it was told", i, told, want)
		}
	}
}

// TestAlone: a daemon whose input is not usable ends without serving; the others serve and end when told.
func TestAlone(t *testing.T) {
	h.Rule("alone: 16 daemons at a time, each with a usable or unusable key on stdin (other length, characters, encoding, nothing), peers, external address, port or flag; an unusable one ends without ever serving, with a non-zero code if it was the flags, the key's value or the start that failed; a usable one serves under the identity of its key and ends with code 0 and both ports free at SIGTERM or SIGINT; non-trivial: every case, identified by the input")
	h.Shrink(time.Millisecond)
	h.Check(t, 2, 30, 60*time.Second, 15*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		type single struct {
			d        *daemon
			kind     string
			flags    []string
			stdin    string
			ok       bool
			zero     bool // may end with code 0
			sig      syscall.Signal
			delay    time.Duration
			p2pTaken net.Listener
		}
		var ss []*single
		for i := 0; i < 16; i++ {
			s := &single{d: newDaemon(dir, i), sig: rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(rt, "signal")}
			s.kind = rapid.SampledFrom([]string{"fine", "fine", "key", "key", "key", "no key", "dead peer", "bad peer", "external", "flag", "port", "help"}).Draw(rt, "kind")
			d := s.d
			d.web, d.p2p = cluster.FreePort(), cluster.FreePort()
			s.stdin = key(d.node) + "\n"
			kv := map[string]string{"tss-port": fmt.Sprintf("127.0.0.1:%d", d.web), "p2p-port": fmt.Sprint(d.p2p), "home": d.home}
			var more [][2]string
			switch s.kind {
			case "fine":
				s.ok = true
				s.delay = time.Duration(rapid.IntRange(0, 1500).Draw(rt, "ended after")) * time.Millisecond
				if rapid.Bool().Draw(rt, "home exists") {
					h.Must(os.MkdirAll(d.home, 0o755))
				} else {
					kv["home"] = filepath.Join(d.home, "in", "depth")
				}
			case "key":
				raw := hex.EncodeToString(d.node.Priv[:])
				how := rapid.SampledFrom([]string{"raw hex", "a byte short", "a byte long", "not hex", "not base64", "cut", "in quotes"}).Draw(rt, "key")
				s.kind += " " + how
				enc := func(x string) string { return base64.StdEncoding.EncodeToString([]byte(x)) }
				switch how {
				case "raw hex":
					s.stdin = raw
				case "a byte short":
					s.stdin = enc(raw[:62])
				case "a byte long":
					s.stdin = enc(raw + "01")
				case "not hex":
					at := rapid.IntRange(0, 63).Draw(rt, "at")
					s.stdin = enc(raw[:at] + "g" + raw[at+1:])
				case "not base64":
					at := rapid.IntRange(0, 80).Draw(rt, "at")
					s.stdin = enc(raw)[:at] + "*" + enc(raw)[at+1:]
				case "cut":
					s.stdin = enc(raw)[:rapid.IntRange(8, 86).Draw(rt, "at")]
				case "in quotes":
					s.stdin = `"` + enc(raw) + `"`
				}
				s.stdin += "\n"
			case "no key":
				s.zero = true
				s.stdin = rapid.SampledFrom([]string{"", "\n", "short\n", "short", "\n" + s.stdin}).Draw(rt, "stdin")
			case "dead peer":
				more = append(more, [2]string{"peer", fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", cluster.FreePort(), h.NodeN(60).Peer)})
			case "bad peer":
				more = append(more, [2]string{"peer", rapid.SampledFrom([]string{"127.0.0.1:80", "/ip4/1.2.3/tcp/1", "/ip4/127.0.0.1/tcp/1/p2p/x", "/ip4/127.0.0.1/tcp/1"}).Draw(rt, "peer")})
			case "external":
				more = append(more, [2]string{"external-ip", rapid.SampledFrom([]string{"1.2.3", "host", "1.2.3.4.5", "256.1.1.1"}).Draw(rt, "ip")})
			case "flag":
				more = append(more, rapid.SampledFrom([][2]string{{"gentimeout", "10"}, {"signtimeout", "soon"}, {"enablemonitor", "maybe"}, {"p2p-ports", "1"}, {"preparamtimeout", ""}}).Draw(rt, "flag"))
			case "port":
				l, err := net.Listen("tcp4", "0.0.0.0:0")
				h.Must(err)
				s.p2pTaken = l
				defer l.Close()
				kv["p2p-port"] = fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
				if rapid.Bool().Draw(rt, "no port") {
					kv["p2p-port"] = rapid.SampledFrom([]string{"70000", "x"}).Draw(rt, "port")
				}
			case "help":
				more = append(more, [2]string{"h", "true"})
				s.zero = true
			}
			for _, k := range []string{"tss-port", "p2p-port", "home"} {
				more = append(more, [2]string{k, kv[k]})
			}
			for _, f := range more {
				s.flags = append(s.flags, "-"+f[0]+"="+f[1])
			}
			h.Label(s.kind)
			h.Seen("alone", fmt.Sprint(s.kind, s.stdin, more[:len(more)-3], kv["home"]), s.kind)
			ss = append(ss, s)
		}
		wrong := make([]string, len(ss))
		var wg sync.WaitGroup
		for i, s := range ss {
			defer s.d.kill()
			wg.Add(1)
			go func(i int, s *single) {
				defer wg.Done()
				d := s.d
				d.start(s.flags, s.stdin)
				served := d.up(90 * time.Second)
				if s.ok {
					if !served {
						if d.out.has("address already in use") {
							return
						}
						wrong[i] = fmt.Sprintf("does not serve (ended %v): %s", d.gone(), d.out)
						return
					}
					code, body, err := d.call("GET", "/p2pid", "", 10*time.Second)
					if err != nil || code != 200 || body != d.node.Peer.String() {
						wrong[i] = fmt.Sprintf("says it is %q (%d, %v)", body, code, err)
						return
					}
					time.Sleep(s.delay)
					wrong[i] = d.end(s.sig)
				} else {
					switch {
					case served:
						wrong[i] = "serves"
					case !d.gone():
						wrong[i] = "neither serves nor ends: " + d.out.String()
					case d.code == 0 && !s.zero:
						wrong[i] = "ends with code 0: " + d.out.String()
					}
				}
				if l := d.litter(); l != "" && wrong[i] == "" {
					wrong[i] = "leaves files outside of its home: " + l
				}
			}(i, s)
		}
		wg.Wait()
		for i, f := range wrong {
			if f != "" {
				rt.Fatalf("daemon with flags %v, stdin %q (%s): %s", ss[i].flags, ss[i].stdin, ss[i].kind, f)
			}
		}
	})
}
