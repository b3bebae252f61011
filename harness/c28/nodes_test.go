package c28

import (
	"encoding/base64"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

// own is where one node registers its metrics; a node that has to start again replaces those of its last try.
type own struct{ *prometheus.Registry }

func (o *own) MustRegister(cs ...prometheus.Collector) {
	for _, c := range cs {
		err := o.Register(c)
		if old, ok := err.(prometheus.AlreadyRegisteredError); ok {
			o.Unregister(old.ExistingCollector)
			err = o.Register(c)
		}
		h.Must(err)
	}
}

// asked is a request to some nodes.
type asked struct {
	kind, version string
	msgs          []string
	members, to   []int
	height        int64
	delays        []time.Duration
}

func drawAsked(rt *rapid.T, last *asked) asked {
	a := asked{kind: rapid.SampledFrom([]string{"sign", "sign", "sign", "away", "keygen", "keygen away", "refused", "unsignable", "again"}).Draw(rt, "kind")}
	if a.kind == "again" {
		if last != nil {
			return *last
		}
		a.kind = "sign"
	}
	a.version = rapid.SampledFrom([]string{"0.13.0", "0.14.0"}).Draw(rt, "version")
	for k := rapid.IntRange(1, 2).Draw(rt, "messages"); k > 0; k-- {
		a.msgs = append(a.msgs, base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, "message"), 31)))
	}
	if a.kind == "unsignable" {
		// nothing but zeros: every signer refuses to start
		a.msgs[len(a.msgs)-1] = base64.StdEncoding.EncodeToString(make([]byte, 31))
	}
	a.members = rapid.SampledFrom([][]int{{0, 1, 2}, {0, 1}, {0, 2}, {1, 2}}).Draw(rt, "members")
	a.to = []int{0, 1, 2}
	a.height = int64(rapid.IntRange(1, 50).Draw(rt, "height"))
	switch a.kind {
	case "keygen":
		a.members = a.to
	case "away", "keygen away":
		// leaderless, so that whoever is away is missed
		a.version, a.members = "0.13.0", a.to
		a.to = rapid.SampledFrom([][]int{{0, 1}, {0, 2}, {1, 2}, {0}, {1}, {2}}).Draw(rt, "there")
	}
	for range a.to {
		a.delays = append(a.delays, time.Duration(rapid.SampledFrom([]int{0, 0, 20, 300}).Draw(rt, "delay"))*time.Millisecond)
	}
	return a
}

func (a asked) isMember(i int) bool {
	for _, k := range a.members {
		if k == i {
			return true
		}
	}
	return false
}

type outcome struct {
	ok   bool
	err  error
	wall time.Duration
}

func (a asked) run(c *cluster.Cluster, pool string) map[int]outcome {
	var keys []string
	for _, i := range a.members {
		keys = append(keys, c.Nodes[i].Bech32)
	}
	if a.kind == "refused" {
		pool = h.NodeN(300).Bech32
	}
	out := map[int]outcome{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k, i := range a.to {
		wg.Add(1)
		go func(i int, delay time.Duration) {
			defer wg.Done()
			time.Sleep(delay)
			var o outcome
			t0 := time.Now()
			if a.kind == "keygen" || a.kind == "keygen away" {
				r, err := c.Servers[i].Keygen(keygen.NewRequest(append([]string(nil), keys...), a.height, a.version))
				o.ok, o.err = err == nil && r.Status == common.Success, err
			} else {
				r, err := c.Servers[i].KeySign(keysign.NewRequest(pool, append([]string(nil), a.msgs...), a.height, append([]string(nil), keys...), a.version))
				o.ok, o.err = err == nil && r.Status == common.Success, err
			}
			o.wall = time.Since(t0)
			mu.Lock()
			defer mu.Unlock()
			out[i] = o
		}(i, a.delays[k])
	}
	wg.Wait()
	return out
}

// judge compares what a node's metrics say before and after a request with its outcome there.
func (a asked) judge(i int, o outcome, before, after map[string]float64) string {
	gen := a.kind == "keygen" || a.kind == "keygen away"
	main, join := 1, 3
	if gen {
		main, join = 0, 2
	}
	for k := 0; k < 4; k++ {
		var more [2]float64
		for r, ok := range []bool{true, false} {
			key := counterKey(op{Kind: k, OK: ok})
			more[r] = after[key] - before[key]
		}
		sum := more[0] + more[1]
		what := fmt.Sprintf("node %d, with outcome %v (%v): the counters of %s rose by %v (successes) and %v (failures)", i, o.ok, o.err, kinds[k], more[0], more[1])
		switch {
		case more[0] < 0 || more[1] < 0:
			return what
		case k == main && a.kind == "refused":
			if more[0] != 0 || more[1] > 1 {
				return what
			}
		case k == main:
			if sum != 1 || (more[0] == 1) != o.ok {
				return what
			}
		case k == join && a.kind == "refused":
			if sum != 0 {
				return what
			}
		case k == join && (gen || a.version == "0.13.0" && a.isMember(i)):
			// this node took part in forming the party
			if sum != 1 || o.ok && more[0] != 1 || len(a.to) < len(a.members) && more[0] != 0 {
				return what
			}
		case k == join && a.version == "0.13.0":
			if sum != 0 {
				return what
			}
		case k == join:
			// with a leader a node stops joining when it gets the signature
			if sum > 1 {
				return what
			}
		case sum != 0:
			return what
		}
		was, _ := gauge(before, k)
		is, _ := gauge(after, k)
		if more[0] == 0 && is != was {
			return fmt.Sprintf("node %d: without a success the time of %s went from %v to %v", i, kinds[k], was, is)
		}
		if more[0] == 1 && (is == was || is <= 0 || is > float64(o.wall)) {
			return fmt.Sprintf("node %d: after a success within %v the time of %s is %v, before %v", i, o.wall, kinds[k], time.Duration(is), time.Duration(was))
		}
	}
	return ""
}

// TestNodes: whole nodes record each request they serve once, under the result they give their caller.
func TestNodes(t *testing.T) {
	h.Rule("nodes: three connected nodes, each with its own metrics, get 2-5 requests: signings (1-2 messages, any quorum, either join protocol, also the same one again), key generations, such that a member never gets, signings that fail at once as their message cannot be signed, and signings for an unknown pool; after each one the counters of every asked node have risen by its outcome, those of the others not at all, and the times are those of the successes; non-trivial: every case, identified by its requests")
	h.Shrink(time.Second)
	h.Check(t, 4, 40, 45*time.Second, 10*time.Minute, func(rt *rapid.T) {
		var as []asked
		var last *asked
		for k := rapid.IntRange(2, 5).Draw(rt, "requests"); k > 0; k-- {
			a := drawAsked(rt, last)
			as = append(as, a)
			if a.kind == "sign" {
				last = &a
			}
		}
		if problem := h.Once(fmt.Sprintf("%+v", as), func() string { return nodes(as) }); problem != "" {
			rt.Fatalf("%s\nrequests: %+v", problem, as)
		}
	})
}

func nodes(as []asked) string {
	var ns []*h.Node
	for i := 0; i < 3; i++ {
		ns = append(ns, h.NodeN(i))
	}
	states := h.States(3)
	old := prometheus.DefaultRegisterer
	defer func() { prometheus.DefaultRegisterer = old }()
	regs := make([]*own, 3)
	conf := cluster.Conf(4*time.Second, 60*time.Second, 30*time.Second)
	conf.EnableMonitor = true
	c := cluster.With(ns, conf, states, cluster.Options{Boot: func(i int) []int {
		regs[i] = &own{prometheus.NewRegistry()}
		prometheus.DefaultRegisterer = regs[i]
		var all []int
		for j := 0; j < i; j++ {
			all = append(all, j)
		}
		return all
	}})
	defer c.Close()
	h.Seen("nodes", fmt.Sprintf("%+v", as), fmt.Sprintf("%+v", as))
	for step, a := range as {
		h.Label("node " + a.kind)
		// what the nodes still send for the request before has arrived by then
		time.Sleep(500 * time.Millisecond)
		before := make([]map[string]float64, 3)
		for i := range regs {
			before[i] = gather(regs[i].Registry)
		}
		out := a.run(c, states[0].PubKey)
		for i := range regs {
			after := gather(regs[i].Registry)
			o, ok := out[i]
			if !ok {
				for k := 0; k < 4; k++ {
					for _, r := range []bool{true, false} {
						if key := counterKey(op{Kind: k, OK: r}); after[key] != before[i][key] {
							return fmt.Sprintf("request %d: node %d, which did not get it, counted %s", step, i, key)
						}
					}
				}
				continue
			}
			if o.ok {
				h.Label(a.kind + " succeeds")
			}
			if text := a.judge(i, o, before[i], after); text != "" {
				return fmt.Sprintf("request %d: %s", step, text)
			}
		}
	}
	return ""
}
