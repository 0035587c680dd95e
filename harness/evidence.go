package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func writeEvidence(p *Prop, st *stats, hashes, ihashes map[uint64]bool, sites map[int]bool, samples []string, raceRuns int, searchWall, wall time.Duration, violations int, msg string) error {
	perHour := func(n int) int {
		if searchWall < time.Millisecond {
			return 0
		}
		return int(float64(n) / searchWall.Hours())
	}
	files := map[string][2]int{} // file -> visited, total
	if *fSites != "" {
		b, err := os.ReadFile(*fSites)
		if err != nil {
			return err
		}
		for id, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			f := strings.Fields(l)
			if len(f) != 2 {
				continue
			}
			k := f[1][:strings.LastIndexByte(f[1], ':')]
			k = strings.TrimPrefix(k, "/repo/")
			v := files[k]
			v[1]++
			if sites[id+1] {
				v[0]++
			}
			files[k] = v
		}
	}
	var cov []string
	for k, v := range files {
		if v[0] > 0 {
			cov = append(cov, k+" "+itoa(v[0])+"/"+itoa(v[1]))
		}
	}
	sort.Strings(cov)
	if samples == nil {
		samples = []string{}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	ev := map[string]interface{}{
		"property":   p.ID,
		"tier":       *fTier,
		"seed":       *fSeed,
		"level":      "exploration",
		"wall_s":     wall.Seconds(),
		"violations": violations,
		"assumptions": append([]string{
			"the simulated file system, readers, writers and callbacks stand for the real ones (see components_stub)",
			"goroutines are interleaved at statement and synchronisation granularity under sequential consistency; in the race build the Go race detector judges the synchronisation itself",
		}, p.Assume...),
		"coverage": map[string]interface{}{
			"evaluations":              st.Evals,
			"simulated_runs":           st.Runs,
			"race_build_runs":          raceRuns,
			"distinct_nontrivial":      len(hashes),
			"rule":                     p.Rule + " Distinct: different history hash (all events of the run with goroutine, path, sizes).",
			"samples":                  samples,
			"runs_per_hour":            perHour(st.Runs),
			"seeds_per_hour":           perHour(st.Runs),
			"simulated_seconds":        float64(st.SimTime) / 1e9,
			"steps":                    st.Steps,
			"context_switches":         st.Switches,
			"preemptions":              st.Preempts,
			"distinct_interleavings":   len(ihashes),
			"interleaving_measure":     "hash of the sequence (goroutine switched to, number of history events so far) over all context switches, counted over non-trivial runs",
			"faults_injected":          st.Faults,
			"run_outcomes":             st.Outcomes,
			"replayed_for_determinism": st.SelfTest,
			"statements_reached":       cov,
			"components_real":          p.Real,
			"components_stub":          p.Stub,
		},
	}
	if msg != "" {
		ev["violation"] = clip(msg, 2000)
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(*fEvidence), 0o755)
	return os.WriteFile(*fEvidence, append(b, '\n'), 0o644)
}

func itoa(n int) string {
	b, _ := json.Marshal(n)
	return string(b)
}
