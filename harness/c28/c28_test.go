// Package c28 decides C28: metrics count each outcome once and keep the latest success time.
package c28

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"gitlab.com/thorchain/tss/go-tss/monitor"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// gather reads every sample of the metric as name{labels} -> value.
func gather(reg *prometheus.Registry) map[string]float64 {
	out := map[string]float64{}
	fams, err := reg.Gather()
	h.Must(err)
	for _, f := range fams {
		for _, m := range f.GetMetric() {
			k := f.GetName()
			for _, l := range m.GetLabel() {
				k += "," + l.GetName() + "=" + l.GetValue()
			}
			switch f.GetType() {
			case dto.MetricType_COUNTER:
				out[k] = m.GetCounter().GetValue()
			case dto.MetricType_GAUGE:
				out[k] = m.GetGauge().GetValue()
			default:
				h.Infra("unexpected metric type %v", f.GetType())
			}
		}
	}
	return out
}

type op struct {
	Kind int // 0 keygen 1 keysign 2 keygen join 3 keysign join
	D    time.Duration
	OK   bool
}

var kinds = []string{"keygen", "keysign", "keygen-join", "keysign-join"}

func apply(m *monitor.Metric, o op) {
	switch o.Kind {
	case 0:
		m.UpdateKeyGen(o.D, o.OK)
	case 1:
		m.UpdateKeySign(o.D, o.OK)
	case 2:
		m.KeygenJoinParty(o.D, o.OK)
	default:
		m.KeysignJoinParty(o.D, o.OK)
	}
}

func counterKey(o op) string {
	r := "failure"
	if o.OK {
		r = "success"
	}
	switch o.Kind {
	case 0:
		return "Tss_Tss_keygen,status=" + r
	case 1:
		return "Tss_Tss_keysign,status=" + r
	case 2:
		return "Tss_Tss_join_party,result=" + r + ",type=keygen"
	default:
		return "Tss_Tss_join_party,result=" + r + ",type=keysign"
	}
}

func gaugeKey(k int) string {
	switch k {
	case 0:
		return "Tss_Tss_keygen_time"
	case 1:
		return "Tss_Tss_keysign_time"
	case 2:
		return "keygen"
	default:
		return "keysign"
	}
}

// gauge reads a time gauge; the join-party gauge is found by its label value.
func gauge(g map[string]float64, k int) (float64, bool) {
	if k < 2 {
		v, ok := g[gaugeKey(k)]
		return v, ok
	}
	for name, v := range g {
		if len(name) > 10 && name[:7] == "Tss_Tss" && hasSuffix(name, "="+gaugeKey(k)) && !hasSub(name, "result=") {
			return v, true
		}
	}
	return 0, false
}

func hasSuffix(s, x string) bool { return len(s) >= len(x) && s[len(s)-len(x):] == x }
func hasSub(s, x string) bool {
	for i := 0; i+len(x) <= len(s); i++ {
		if s[i:i+len(x)] == x {
			return true
		}
	}
	return false
}

// TestHistory: after every recorded outcome the exported samples are those of the model.
func TestHistory(t *testing.T) {
	h.Rule("history: 1..40 outcomes of the four kinds with generated durations and results, checked after each one against counters and gauges kept by a model; enabled before the history or after it; non-trivial: at least two kinds, a success and a failure")
	h.Check(t, 600, 8000, 20*time.Second, 5*time.Minute, func(rt *rapid.T) {
		reg := prometheus.NewRegistry()
		prometheus.DefaultRegisterer = reg
		m := monitor.NewMetric()
		m.Enable()
		ops := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
			return op{
				Kind: rapid.IntRange(0, 3).Draw(rt, "kind"),
				D:    time.Duration(rapid.Int64Range(0, int64(time.Hour)).Draw(rt, "d")),
				OK:   rapid.Bool().Draw(rt, "ok"),
			}
		}), 1, 40).Draw(rt, "ops")
		cnt := map[string]float64{}
		last := map[int]float64{}
		seen := map[int]bool{}
		var s, f bool
		for i, o := range ops {
			seen[o.Kind] = true
			s, f = s || o.OK, f || !o.OK
			apply(m, o)
			cnt[counterKey(o)]++
			if o.OK {
				last[o.Kind] = float64(o.D)
			}
			check(rt, fmt.Sprintf("after op %d %+v", i, o), gather(reg), cnt, last)
		}
		key := ""
		if len(seen) > 1 && s && f {
			key = fmt.Sprint(ops)
		}
		h.Seen("history", key, fmt.Sprint(ops[:int(math.Min(4, float64(len(ops))))]))
	})
}

type failer interface {
	Fatalf(format string, args ...interface{})
}

func check(rt failer, when string, g, cnt map[string]float64, last map[int]float64) {
	for k := 0; k < 4; k++ {
		for _, ok := range []bool{true, false} {
			key := counterKey(op{Kind: k, OK: ok})
			if g[key] != cnt[key] {
				rt.Fatalf("%s: counter %s is %v, want %v", when, key, g[key], cnt[key])
			}
		}
		v, ok := gauge(g, k)
		want, wok := last[k]
		if !wok {
			if ok && v != 0 {
				rt.Fatalf("%s: %s time gauge is %v before any success", when, kinds[k], v)
			}
			continue
		}
		if !ok || v != want {
			rt.Fatalf("%s: %s time gauge is %v (present %v), want %v", when, kinds[k], v, ok, want)
		}
	}
}

// TestConcurrent: outcomes recorded from concurrent ceremonies are all counted.
func TestConcurrent(t *testing.T) {
	h.Rule("concurrent: the outcomes of a history split over 2..6 goroutines; the counters at the end are the model's, each gauge holds the duration of one of that kind's successes")
	h.Check(t, 150, 2000, 15*time.Second, 3*time.Minute, func(rt *rapid.T) {
		reg := prometheus.NewRegistry()
		prometheus.DefaultRegisterer = reg
		m := monitor.NewMetric()
		m.Enable()
		var lists [][]op
		for i := rapid.IntRange(2, 6).Draw(rt, "goroutines"); i > 0; i-- {
			lists = append(lists, rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
				return op{
					Kind: rapid.IntRange(0, 3).Draw(rt, "kind"),
					D:    time.Duration(rapid.Int64Range(1, 1000).Draw(rt, "d")),
					OK:   rapid.Bool().Draw(rt, "ok"),
				}
			}), 1, 40).Draw(rt, "ops"))
		}
		cnt := map[string]float64{}
		times := map[int]map[float64]bool{}
		for _, l := range lists {
			for _, o := range l {
				cnt[counterKey(o)]++
				if o.OK {
					if times[o.Kind] == nil {
						times[o.Kind] = map[float64]bool{}
					}
					times[o.Kind][float64(o.D)] = true
				}
			}
		}
		var wg sync.WaitGroup
		for _, l := range lists {
			wg.Add(1)
			go func(l []op) {
				defer wg.Done()
				for _, o := range l {
					apply(m, o)
				}
			}(l)
		}
		wg.Wait()
		g := gather(reg)
		h.Seen("concurrent", fmt.Sprint(lists), fmt.Sprintf("%d goroutines", len(lists)))
		for k := 0; k < 4; k++ {
			for _, ok := range []bool{true, false} {
				key := counterKey(op{Kind: k, OK: ok})
				if g[key] != cnt[key] {
					rt.Fatalf("counter %s is %v, want %v", key, g[key], cnt[key])
				}
			}
			if v, _ := gauge(g, k); len(times[k]) > 0 && !times[k][v] {
				rt.Fatalf("%s time gauge is %v, no success took that long", kinds[k], v)
			}
		}
	})
}
