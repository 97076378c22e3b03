//go:build testing
// +build testing

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed breach of the property.
type Violation struct {
	Sig    string          `json:"signature"` // what fails, stable across runs
	Msg    string          `json:"message"`
	Where  string          `json:"where"`
	Replay json.RawMessage `json:"replay,omitempty"`
	Detail []string        `json:"detail,omitempty"`
}

// Known is an entry of known-findings.json.
type Known struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
}

type Report struct {
	beats    int64 // counts signs of life
	mu       sync.Mutex
	Property string
	Tier     string
	Seed     int64
	start    time.Time

	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []interface{}
	viol     []Violation
	known    map[string]Known
	seen     map[string]int
	knownHit map[string]int
	need     map[string]int64
	fatal    []string
	rule     string
}

func newReport(property, tier string, seed int64) *Report {
	return &Report{Property: property, Tier: tier, Seed: seed, start: time.Now(), distinct: map[uint64]struct{}{}, counts: map[string]int64{}, known: map[string]Known{}, seen: map[string]int{}, knownHit: map[string]int{}, need: map[string]int64{}}
}

func (r *Report) loadKnown(path string) {
	bz, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var f struct {
		Known []Known `json:"known"`
	}
	must(json.Unmarshal(bz, &f))
	for _, k := range f.Known {
		if k.Property == r.Property {
			r.known[k.Signature] = k
		}
	}
}

// Eval records one oracle evaluation, with a description of the situation it was made in.
func (r *Report) Eval(situation string, a ...interface{}) {
	atomic.AddInt64(&r.beats, 1)
	h := fnv.New64a()
	fmt.Fprintf(h, situation, a...)
	r.mu.Lock()
	r.evals++
	r.distinct[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

func (r *Report) Count(name string, n int64) {
	atomic.AddInt64(&r.beats, 1)
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// Need makes the run inconclusive unless the counter reaches n.
func (r *Report) Need(name string, n int64) {
	r.mu.Lock()
	r.need[name] = n
	r.mu.Unlock()
}

func (r *Report) Sample(x interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

func (r *Report) Violate(w *World, sig, msg string, a ...interface{}) {
	v := Violation{Sig: sig, Msg: fmt.Sprintf(msg, a...)}
	if w != nil {
		v.Where = w.where()
		v.Replay = w.replayInfo()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[sig]; ok {
		r.knownHit[sig]++
		return
	}
	r.seen[sig]++
	if r.seen[sig] <= 3 && len(r.viol) < 40 {
		r.viol = append(r.viol, v)
	}
}

// Full says that there is nothing more to learn from going on.
func (r *Report) Full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, x := range r.seen {
		n += x
	}
	return n > 60
}

func (r *Report) Fatal(f string, a ...interface{}) {
	r.mu.Lock()
	r.fatal = append(r.fatal, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Finish writes the evidence and returns the exit code.
func (r *Report) Finish(evidence, replayDir string) int {
	sort.SliceStable(r.viol, func(i, j int) bool { return r.viol[i].Sig+r.viol[i].Where < r.viol[j].Sig+r.viol[j].Where })
	samples := r.samples
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.rule, "samples": samples, "observed": r.counts, "known_findings_observed": r.knownHit,
		},
		"wall_s":     time.Since(r.start).Seconds(),
		"violations": len(r.viol),
	}
	bz, _ := json.MarshalIndent(ev, "", " ")
	if evidence != "" {
		must(os.MkdirAll(filepath.Dir(evidence), 0o755))
		must(os.WriteFile(evidence, append(bz, '\n'), 0o644))
	}
	var ks []string
	for k := range r.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (observed %d times)\n", r.Property, r.known[k].What, r.knownHit[k])
	}
	if len(r.viol) > 0 {
		must(os.MkdirAll(replayDir, 0o755))
		p := filepath.Join(replayDir, r.Property+".json")
		vb, _ := json.MarshalIndent(map[string]interface{}{"property": r.Property, "tier": r.Tier, "seed": r.Seed, "violations": r.viol}, "", " ")
		must(os.WriteFile(p, append(vb, '\n'), 0o644))
		for i, v := range r.viol {
			if i >= 12 {
				fmt.Printf("... %d more\n", len(r.viol)-i)
				break
			}
			fmt.Printf("  [%s] %s: %s\n", v.Sig, v.Where, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
		return 1
	}
	if len(r.fatal) > 0 {
		for _, f := range r.fatal {
			fmt.Println("ERROR:", f)
		}
		return 2
	}
	var missing []string
	for k, n := range r.need {
		if r.counts[k] < n {
			missing = append(missing, fmt.Sprintf("%s: %d < %d", k, r.counts[k], n))
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 || r.evals == 0 {
		fmt.Println("INCONCLUSIVE: not enough was observed:", missing)
		return 3
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", r.Property, r.evals, len(r.distinct), time.Since(r.start).Seconds())
	return 0
}
