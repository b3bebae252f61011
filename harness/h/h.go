// Package h holds what all property tests share: budgets, statistics, the record of the
// case under execution (so that a crash of the process can be replayed) and known findings.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one test process covered.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	Keys        []uint64       `json:"keys"`
	Rule        []string       `json:"rule"`
	Samples     []interface{}  `json:"samples"`
	Labels      map[string]int `json:"labels"`
	Known       []string       `json:"known"`
}

var (
	mu        sync.Mutex
	evals     int
	keys      = map[uint64]struct{}{}
	samples   = map[string][]interface{}{}
	labels    = map[string]int{}
	rules     []string
	knownHit  = map[string]struct{}{}
	lastFlush time.Time
)

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Rule records how cases are made and what makes one non-trivial.
func Rule(s string) {
	mu.Lock()
	defer mu.Unlock()
	for _, r := range rules {
		if r == s {
			return
		}
	}
	rules = append(rules, s)
}

// Seen counts one executed case. key identifies it; an empty key counts it as trivial.
// sample is kept for the evidence file (a few per group).
func Seen(group, key string, sample interface{}) {
	mu.Lock()
	defer mu.Unlock()
	evals++
	labels[group]++
	if key != "" {
		f := fnv.New64a()
		_, _ = f.Write([]byte(group + "\x00" + key))
		k := f.Sum64()
		if _, ok := keys[k]; !ok {
			keys[k] = struct{}{}
			if len(samples[group]) < 3 && sample != nil {
				samples[group] = append(samples[group], map[string]interface{}{"group": group, "case": sample})
			}
		}
	}
	if time.Since(lastFlush) > time.Second {
		flush()
	}
}

// Label counts an observation about the cases (shown in the evidence).
func Label(s string) {
	mu.Lock()
	labels[s]++
	mu.Unlock()
}

// Known reports whether the finding is listed in known-findings; if so it is noted as hit.
func Known(id, what string) bool {
	raw, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING:") && strings.Contains(l, " id="+id+" ") {
			mu.Lock()
			knownHit[id] = struct{}{}
			mu.Unlock()
			return true
		}
	}
	return false
}

func flush() {
	lastFlush = time.Now()
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	s := Stats{Evaluations: evals, Rule: rules, Labels: labels}
	for k := range keys {
		s.Keys = append(s.Keys, k)
		if len(s.Keys) >= 400000 {
			break
		}
	}
	var groups []string
	for g := range samples {
		groups = append(groups, g)
	}
	sort.Strings(groups)
	for _, g := range groups {
		s.Samples = append(s.Samples, samples[g]...)
	}
	for k := range knownHit {
		s.Known = append(s.Known, k)
	}
	buf, err := json.Marshal(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "VERIF-INFRA: stats:", err)
		return
	}
	_ = os.WriteFile(p+".tmp", buf, 0o644)
	_ = os.Rename(p+".tmp", p)
}

// Case writes down the case about to run, for a replay of a crash of the process.
func Case(format string, a ...interface{}) {
	p := os.Getenv("VERIF_CASE")
	if p == "" {
		return
	}
	_ = os.WriteFile(p, []byte(fmt.Sprintf(format, a...)), 0o644)
}

// Infra ends the process with a status that is not a violation.
func Infra(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "VERIF-INFRA: "+format+"\n", a...)
	mu.Lock()
	flush()
	os.Exit(99)
}

// Must ends the process as an infrastructure failure if err is set.
func Must(err error) {
	if err != nil {
		Infra("%v", err)
	}
}

// Main is the body of TestMain.
func Main(m *testing.M) {
	flag.Parse()
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_RSEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if f := flag.Lookup("rapid.failfile"); f != nil && f.Value.String() == "" {
		Must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	}
	code := m.Run()
	mu.Lock()
	flush()
	mu.Unlock()
	os.Exit(code)
}

// Check runs prop on n generated cases (quick, thorough), within a budget of seconds per
// tier: once it is used up the remaining cases are skipped (and not counted).
func Check(t *testing.T, quick, thorough int, budgetQuick, budgetThorough time.Duration, prop func(*rapid.T)) {
	t.Helper()
	n, budget := quick, budgetQuick
	if Thorough() {
		n, budget = thorough, budgetThorough
	}
	Must(flag.Set("rapid.checks", strconv.Itoa(n)))
	if f := flag.Lookup("rapid.shrinktime"); f != nil && f.Value.String() == "30s" {
		Must(flag.Set("rapid.shrinktime", "20s"))
	}
	start := time.Now()
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			return
		}
		ok := false
		defer func() {
			if !ok {
				failed = true
			}
		}()
		prop(rt)
		ok = true
	})
}

// Shrink sets the time rapid may spend on shrinking.
func Shrink(d time.Duration) { Must(flag.Set("rapid.shrinktime", d.String())) }
