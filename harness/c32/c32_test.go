// Package c32 checks that requests a node serves at the same time do not disturb one another.
package c32

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	leaderless = "0.13.0"
	withLeader = "0.14.0"
	n          = 6
)

var conf = cluster.Conf(20*time.Second, 120*time.Second, 50*time.Second)

// op is one request, to all the nodes it is for.
type op struct {
	kind    string // "sign", "absent" (as sign, but a signer is not asked), "refused", "keygen"
	nodes   []int  // who is asked
	members []int  // who holds the pool, or generates it
	delays  []time.Duration
	version string
	pool    string // "" stands for the one this client generated before
	msgs    []string
	signers []int
	absent  int
	height  int64
	keygen  keygen.Request
	order   []int // differs from node to node
}

func (o op) String() string {
	return fmt.Sprintf("%s of nodes %v (asked %v, signers %v) version %s height %d pool %.12s messages %v", o.kind, o.members, o.nodes, o.signers, o.version, o.height, o.pool, o.msgs)
}

// weak is the node that may be away.
var weak = n - 1

// at is the place of a node in the cluster: the weak one starts first, so that the others connect to it.
func at(i int) int { return (i + n - weak) % n }

func without(in []int, i int) []int {
	var out []int
	for _, x := range in {
		if x != i {
			out = append(out, x)
		}
	}
	return out
}

func seq(k int) []int {
	out := make([]int, k)
	for i := range out {
		out[i] = i
	}
	return out
}

// plan draws requests that have different names: no two of them have both the same messages and the same signers.
type plan struct {
	rt     *rapid.T
	pools  map[int]string // by how many nodes, from the first one, hold it
	sets   [][]string     // batches used so far
	used   map[string]bool
	keygen bool
	down   string // what is wrong with the weak node, which nobody asks then
}

func (p *plan) message() string {
	b := h.Bytes(rapid.Uint64().Draw(p.rt, "message"), rapid.SampledFrom([]int{32, 32, 32, 1, 20}).Draw(p.rt, "size"))
	b[0] &= 0x7f
	if b[len(b)-1] == 0 {
		b[len(b)-1] = 1
	}
	return base64.StdEncoding.EncodeToString(b)
}

// batch draws messages, sometimes those of another request or a part of them.
func (p *plan) batch() []string {
	rt := p.rt
	var out []string
	have := map[string]bool{}
	add := func(m string) {
		b, err := base64.StdEncoding.DecodeString(m)
		h.Must(err)
		if v := new(big.Int).SetBytes(b).String(); !have[v] {
			have[v] = true
			out = append(out, m)
		}
	}
	if len(p.sets) > 0 && rapid.IntRange(0, 2).Draw(rt, "shared messages") == 0 {
		old := rapid.SampledFrom(p.sets).Draw(rt, "shared with")
		for _, m := range old[:rapid.IntRange(1, len(old)).Draw(rt, "shared")] {
			add(m)
		}
		if rapid.Bool().Draw(rt, "only shared") {
			return out
		}
	}
	for k := rapid.IntRange(1, 3).Draw(rt, "batch"); k > 0 && len(out) < 4; k-- {
		add(p.message())
	}
	return out
}

func (p *plan) sign(kind, pool string, members []int) op {
	rt := p.rt
	o := op{kind: kind, pool: pool, members: members}
	k := len(members)
	quorum := (2*k + 2) / 3
	o.version = rapid.SampledFrom([]string{leaderless, withLeader, withLeader}).Draw(rt, "version")
	o.height = int64(rapid.IntRange(1, 40).Draw(rt, "height"))
	o.nodes = members
	for {
		o.msgs = p.batch()
		if kind == "refused" { // its own, so that it has a name of its own however it is spoilt
			o.msgs = []string{p.message()}
		}
		o.signers = append([]int(nil), rapid.Permutation(members).Draw(rt, "signers")[:rapid.IntRange(quorum, k).Draw(rt, "signer count")]...)
		s := append([]int(nil), o.signers...)
		sort.Ints(s)
		name := fmt.Sprint(h.Sorted(o.msgs), s)
		if !p.used[name] {
			p.used[name] = true
			break
		}
	}
	if kind != "refused" {
		p.sets = append(p.sets, o.msgs)
	}
	switch {
	case p.down == "" || len(without(members, weak)) == k:
	case kind == "sign" && o.version == withLeader:
		o.kind = "perhaps"
	case kind == "sign" && len(without(o.signers, weak)) < len(o.signers):
		o.kind = "absent"
	}
	if p.down != "" {
		o.nodes = without(members, weak)
		o.absent = weak
	} else if kind == "absent" {
		o.version = leaderless
		o.absent = o.signers[rapid.IntRange(0, len(o.signers)-1).Draw(rt, "absent")]
		o.nodes = without(members, o.absent)
	}
	p.finish(&o)
	return o
}

func (p *plan) finish(o *op) {
	for range o.nodes {
		o.delays = append(o.delays, time.Duration(rapid.SampledFrom([]int{0, 0, 1, 20, 100, 300}).Draw(p.rt, "delay"))*time.Millisecond)
		o.order = append(o.order, rapid.IntRange(0, 1000).Draw(p.rt, "order"))
	}
}

// client draws what one client asks for, one after the other.
func (p *plan) client(first bool) []op {
	rt := p.rt
	var out []op
	if first && p.down != "" { // one that the weak node would have a part in
		out = append(out, p.sign("sign", p.pools[n], seq(n)))
	}
	absent := false
	for k := rapid.IntRange(1, 4).Draw(rt, "requests"); k > 0; k-- {
		size := rapid.SampledFrom([]int{3, 4, n}).Draw(rt, "pool")
		members := seq(size)
		switch c := rapid.IntRange(0, 9).Draw(rt, "kind"); {
		case c == 0 && !p.keygen:
			p.keygen = true
			among := seq(n)
			if p.down != "" {
				among = without(among, weak)
			}
			o := op{kind: "keygen", version: rapid.SampledFrom([]string{leaderless, withLeader}).Draw(rt, "version")}
			o.members = append([]int(nil), rapid.Permutation(among).Draw(rt, "members")[:rapid.IntRange(3, 4).Draw(rt, "member count")]...)
			o.nodes = o.members
			o.height = 7
			p.finish(&o)
			out = append(out, o, p.sign("sign", "", o.members))
		case c == 1 && !absent && p.down == "":
			absent = true // waits as long as nodes wait for signatures
			out = append(out, p.sign("absent", p.pools[size], members))
		case c == 2 || c == 3:
			o := p.sign("refused", p.pools[size], members)
			switch rapid.IntRange(0, 3).Draw(rt, "refused") {
			case 0:
				o.pool = h.NodeN(700).Bech32
			case 1:
				o.msgs = append(append([]string(nil), o.msgs...), "%%%")
			case 2:
				o.version = leaderless
				o.signers = o.signers[:(2*size+2)/3-1]
			case 3:
				o.version = "abc"
			}
			out = append(out, o)
		default:
			out = append(out, p.sign("sign", p.pools[size], members))
		}
	}
	return out
}

// turn is a list in another order.
func turn(in []string, by int) []string {
	out := append([]string(nil), in...)
	for i := len(out) - 1; i > 0; i-- {
		j := by % (i + 1)
		out[i], out[j] = out[j], out[i]
		by = by*31 + 7
	}
	return out
}

// run carries one request out; the text is what is wrong with its outcome. pool is what the client generated.
func run(c *cluster.Cluster, o op, pool *string) string {
	if o.pool == "" {
		o.pool = *pool
	}
	keys := func(is []int) []string {
		var out []string
		for _, i := range is {
			out = append(out, c.Nodes[at(i)].Bech32)
		}
		return out
	}
	sr := make([]keysign.Response, len(o.nodes))
	kr := make([]keygen.Response, len(o.nodes))
	errs := make([]error, len(o.nodes))
	var wg sync.WaitGroup
	for k, i := range o.nodes {
		wg.Add(1)
		go func(k, i int) {
			defer wg.Done()
			time.Sleep(o.delays[k])
			if o.kind == "keygen" {
				kr[k], errs[k] = c.Servers[at(i)].Keygen(keygen.NewRequest(turn(keys(o.members), o.order[k]), o.height, o.version))
				return
			}
			sr[k], errs[k] = c.Servers[at(i)].KeySign(keysign.NewRequest(o.pool, turn(o.msgs, o.order[k]), o.height, turn(keys(o.signers), o.order[k]), o.version))
		}(k, i)
	}
	wg.Wait()
	for k, i := range o.nodes {
		switch o.kind {
		case "keygen":
			if errs[k] != nil || kr[k].Status != common.Success || len(kr[k].Blame.BlameNodes) > 0 {
				return fmt.Sprintf("node %d: %+v, error %v", i, kr[k], errs[k])
			}
			if kr[k].PubKey != kr[0].PubKey || kr[k].PoolAddress != kr[0].PoolAddress || cluster.DecodePub(kr[k].PubKey) == nil {
				return fmt.Sprintf("node %d: %+v, node %d: %+v", i, kr[k], o.nodes[0], kr[0])
			}
			*pool = kr[k].PubKey
		case "sign":
			if errs[k] != nil || sr[k].Status != common.Success {
				return fmt.Sprintf("node %d: %+v, error %v", i, sr[k], errs[k])
			}
			if b := cluster.Bad(o.pool, o.msgs, &sr[k]); b != "" {
				return fmt.Sprintf("node %d: %s", i, b)
			}
		case "perhaps": // if the weak node is not the leader
			if ok := errs[0] == nil && sr[0].Status == common.Success; errs[k] != nil || ok != (sr[k].Status == common.Success) {
				return fmt.Sprintf("node %d: %+v, error %v; node %d: %+v, error %v", i, sr[k], errs[k], o.nodes[0], sr[0], errs[0])
			} else if ok {
				if b := cluster.Bad(o.pool, o.msgs, &sr[k]); b != "" {
					return fmt.Sprintf("node %d: %s", i, b)
				}
				break
			}
			if b := sr[k].Blame.BlameNodes; len(sr[k].Signatures) > 0 || len(b) != 1 || b[0].Pubkey != c.Nodes[at(o.absent)].Bech32 {
				return fmt.Sprintf("node %d: %+v", i, sr[k])
			}
		default:
			if errs[k] == nil && sr[k].Status != common.Fail || len(sr[k].Signatures) > 0 {
				return fmt.Sprintf("node %d: %+v, error %v", i, sr[k], errs[k])
			}
			for _, b := range sr[k].Blame.BlameNodes {
				if o.kind != "absent" || b.Pubkey != c.Nodes[at(o.absent)].Bech32 {
					return fmt.Sprintf("node %d blames %s: %+v", i, b.Pubkey, sr[k])
				}
			}
		}
	}
	return ""
}

// TestTogether: several clients ask for things at the same time.
func TestTogether(t *testing.T) {
	h.Rule("together: 6 connected nodes hold the shares of three pools (of the first 3, the first 4 and all nodes); 2-4 clients each ask, one after the other, for 1-4 things: signings with any pool and protocol (with messages shared with other requests), a key generation and a signing with its key, signings a signer of which is never asked, and requests that cannot be served; one of the last three nodes may meanwhile be stopped, frozen (connected, nothing comes through) or replaced by a port that never answers, and is not asked then; each has the outcome it has alone, and afterwards, with that node back, every pool signs once more; non-trivial: at least two requests overlapped in time, identified by all the requests")
	h.Shrink(time.Second)
	h.Check(t, 3, 60, 55*time.Second, 25*time.Minute, func(rt *rapid.T) {
		weak = rapid.SampledFrom([]int{3, 4, 5}).Draw(rt, "the weak node")
		nodes := make([]*h.Node, n)
		for i := 0; i < n; i++ {
			nodes[at(i)] = h.NodeN(i)
		}
		p := &plan{rt: rt, down: rapid.SampledFrom([]string{"", "", "stopped", "stopped", "frozen", "silent"}).Draw(rt, "it is"), pools: map[int]string{}, used: map[string]bool{}}
		states := map[int][]storage.KeygenLocalState{}
		for _, k := range []int{3, 4, n} {
			states[k] = h.States(k)
			p.pools[k] = states[k][0].PubKey
		}
		var clients [][]op
		var text []string
		for k := rapid.IntRange(2, 4).Draw(rt, "clients"); k > 0; k-- {
			ops := p.client(len(clients) == 0)
			clients = append(clients, ops)
			text = append(text, fmt.Sprintf("client %d: %v", len(clients)-1, ops))
		}
		var after []op
		down := p.down
		p.down = ""
		for _, k := range []int{3, 4, n} {
			after = append(after, p.sign("sign", p.pools[k], seq(k)))
		}
		what := strings.Join(text, "; ")
		if down != "" {
			what += "; while node " + strconv.Itoa(weak) + " is " + down
		}
		if problem := h.Once(what, func() string { return together(nodes, states, down, what, clients, after) }); problem != "" {
			rt.Fatalf("%s", problem)
		}
	})
}

func together(nodes []*h.Node, states map[int][]storage.KeygenLocalState, down, what string, clients [][]op, after []op) string {
	var proxy *cluster.Proxy
	opt := cluster.Options{
		More: func(place int) []storage.KeygenLocalState {
			i := (place + weak) % n
			var out []storage.KeygenLocalState
			for _, k := range []int{3, 4, n} {
				if i < k {
					out = append(out, states[k][i])
				}
			}
			return out
		},
		Via: func(place, port int) int {
			if down != "frozen" || place != at(weak) {
				return port
			}
			if proxy == nil {
				proxy, port = cluster.NewProxy(port)
			}
			return port
		},
	}
	c := cluster.With(nodes, conf, nil, opt)
	defer c.Close()
	var silent net.Listener
	switch down {
	case "frozen":
		defer proxy.Close()
		proxy.Freeze(true)
	case "stopped":
		c.Stop(at(weak))
	case "silent":
		c.Stop(at(weak))
		var err error
		silent, err = net.Listen("tcp4", fmt.Sprintf("127.0.0.1:%d", c.Port(at(weak))))
		h.Must(err)
	}
	h.Seen(fmt.Sprintf("%d clients", len(clients)), what, what)
	h.Label("weak node: " + down)
	for _, ops := range clients {
		for _, o := range ops {
			h.Label(o.kind + " " + o.version)
		}
	}
	bad := make(chan string, 100)
	done := make(chan struct{})
	var wg sync.WaitGroup
	for k, ops := range clients {
		wg.Add(1)
		go func(k int, ops []op) {
			defer wg.Done()
			pool := ""
			for _, o := range ops {
				if b := run(c, o, &pool); b != "" {
					bad <- fmt.Sprintf("client %d, %v: %s", k, o, b)
					return
				}
			}
		}(k, ops)
	}
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(500 * time.Second):
		return fmt.Sprintf("%s: a call has not returned", what)
	}
	select {
	case b := <-bad:
		return fmt.Sprintf("%s\nin: %s", b, what)
	default:
	}
	switch down {
	case "frozen":
		proxy.Freeze(false)
	case "stopped", "silent":
		if silent != nil {
			_ = silent.Close()
		}
		if err := c.Start(at(weak), c.Addrs[1:]); err != nil {
			return fmt.Sprintf("the weak node does not start again: %v\nafter: %s", err, what)
		}
	}
	for _, o := range after {
		pool := ""
		if b := run(c, o, &pool); b != "" {
			return fmt.Sprintf("afterwards, %v: %s\nafter: %s", o, b, what)
		}
	}
	return ""
}
