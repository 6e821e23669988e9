package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	prop, key, text string
}

// readKnown parses known_findings.txt: "finding: property=ID key=LABEL text".
func readKnown() []knownFinding {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		var rest []string
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[9:]
			case strings.HasPrefix(w, "key=") && k.key == "":
				k.key = w[4:]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

type replayRec struct {
	Property string              `json:"property"`
	Harness  string              `json:"harness"`
	Tier     string              `json:"tier"`
	Label    string              `json:"label"`
	Kind     string              `json:"kind"`
	Detail   string              `json:"detail,omitempty"`
	Where    string              `json:"where,omitempty"`
	Inputs   map[string]InputVal `json:"inputs"`
	Native   string              `json:"native_result"`
}

func (o *NatOut) labels() []string {
	switch {
	case len(o.Fails) > 0:
		return o.Fails
	case o.Panic != "":
		return []string{"panic"}
	}
	return []string{"hang"}
}

func knownAs(known []knownFinding, prop, key string) *knownFinding {
	for i, k := range known {
		if k.prop == prop && k.key == key {
			return &known[i]
		}
	}
	return nil
}

type cand struct {
	j *Job
	v Violation
}

// watch replays candidates while the exploration still runs and ends it once
// one of them is confirmed and not a known finding.
func (d *Driver) watch(known []knownFinding) {
	if d.native.wait() != nil {
		return
	}
	tries := map[string]int{}
	for c := range d.found {
		key := c.j.h.Name + "/" + c.v.Label
		if d.stop.Load() || tries[key] >= 3 {
			continue
		}
		tries[key]++
		o := d.native.run(c.j.h, c.v.Inputs)
		if !o.bad() || o.Hang {
			continue
		}
		for _, l := range o.labels() {
			if knownAs(known, d.prop, c.j.h.Name+"/"+l) == nil {
				d.stop.Store(true)
			}
		}
	}
}

func (d *Driver) check() int {
	budget := 420 * time.Second
	if d.tier == "thorough" {
		budget = 4 * time.Hour
	}
	d.deadline = time.Now().Add(budget)
	outDir := filepath.Join(verifDir, "out", d.prop)
	os.RemoveAll(outDir)
	if err := d.prepare(); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	d.native = d.startNative()
	if err := d.loadOnly(); err != nil {
		fmt.Println("ERROR:", err)
		d.native.wait()
		return 2
	}
	var hs []*Harness
	for _, h := range d.harness {
		if h.Prop == d.prop && (!h.Thorough || d.tier == "thorough") {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", d.prop)
		d.native.wait()
		return 2
	}
	js := d.jobs(hs)
	// longest first
	sort.SliceStable(js, func(a, b int) bool { return js[a].h.Timeout > js[b].h.Timeout })
	known := readKnown()
	d.stop, d.found = new(atomic.Bool), make(chan cand, 64)
	go d.watch(known)
	d.runJobs(js)
	if err := d.native.wait(); err != nil {
		fmt.Println("ERROR: native build:", err)
		return 2
	}
	type outcome struct {
		j *Job
		v *Violation
		w *Witness
		o *NatOut
	}
	var todo []*outcome
	for _, j := range js {
		if j.res == nil {
			continue
		}
		for i := range j.res.Viol {
			todo = append(todo, &outcome{j: j, v: &j.res.Viol[i]})
		}
		for i := range j.res.Witness {
			todo = append(todo, &outcome{j: j, w: &j.res.Witness[i]})
		}
	}
	sem := make(chan bool, 6)
	var hungMu sync.Mutex
	hung := map[string]int{}
	var wg sync.WaitGroup
	for _, t := range todo {
		wg.Add(1)
		sem <- true
		go func(t *outcome) {
			defer func() { <-sem; wg.Done() }()
			if t.v != nil {
				key := t.j.h.Name + "/" + t.v.Label
				hungMu.Lock()
				skip := hung[key] > 0
				hungMu.Unlock()
				if skip {
					return
				}
				t.o = d.native.run(t.j.h, t.v.Inputs)
				if t.o.Hang {
					hungMu.Lock()
					hung[key]++
					hungMu.Unlock()
				}
			} else {
				t.o = d.native.run(t.j.h, t.w.Inputs)
			}
		}(t)
	}
	wg.Wait()

	var samples []interface{}
	validated, mismatched, unconfirmed := 0, 0, 0
	var violations []string
	knownHit := map[string]bool{}
	var notes []string
	n := 0
	for _, t := range todo {
		if t.o == nil {
			continue
		}
		ok := !t.o.bad()
		label, kind, detail, where := "", "", "", ""
		var in map[string]InputVal
		if t.v != nil {
			label, kind, detail, where, in = t.v.Label, t.v.Kind, t.v.Detail, t.v.Where, t.v.Inputs
			if ok {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("%s: candidate for %q (%s %s) did not reproduce on the real code (%s)", t.j.h.Name, label, kind, detail, clip(t.o.summary(), 300)))
				continue
			}
		} else {
			in = t.w.Inputs
			if ok {
				mm := t.o.mismatch(*t.w)
				if mm != "" || t.o.AssumeFail || !t.o.Done {
					mismatched++
					notes = append(notes, fmt.Sprintf("%s: witness differs: %s %s", t.j.h.Name, mm, clip(t.o.summary(), 300)))
				} else {
					validated++
					if len(samples) < 8 {
						samples = append(samples, map[string]interface{}{"harness": t.j.h.Name, "inputs": compact(in), "reached": t.w.Reached, "observed": t.w.Observed})
					}
				}
				continue
			}
			label, kind = strings.Join(t.o.Fails, "+"), "witness"
		}
		// confirmed on the real code
		allKnown := true
		for _, f := range t.o.labels() {
			if k := knownAs(known, d.prop, t.j.h.Name+"/"+f); k != nil {
				knownHit[k.text] = true
			} else {
				allKnown = false
			}
		}
		if allKnown {
			continue
		}
		n++
		if n > 20 {
			continue
		}
		os.MkdirAll(outDir, 0755)
		p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", t.j.h.Name, n))
		b, _ := json.MarshalIndent(replayRec{Property: d.prop, Harness: t.j.h.Name, Tier: d.tier, Label: label, Kind: kind, Detail: detail, Where: where, Inputs: in, Native: t.o.summary()}, "", " ")
		os.WriteFile(p, b, 0644)
		violations = append(violations, p)
		fmt.Printf("%s: %s %s %s; real code: %s\n", t.j.h.Name, label, kind, detail, clip(strings.ReplaceAll(t.o.summary(), "\n", " | "), 400))
	}

	// evidence
	var bounds, outside, assume, encoded []string
	enc := map[string]bool{}
	states, trans := 0, int64(0)
	asserts, trivial, discharged, undecided, queries, forks, infeasible := 0, 0, 0, 0, 0, 0, 0
	var stime float64
	exhaustive := true
	reached := map[string]map[string]int{}
	seenH := map[string]bool{}
	var per []interface{}
	truncs := map[string]int{}
	vac := []string{}
	for _, j := range js {
		if !seenH[j.h.Name] {
			seenH[j.h.Name] = true
			for _, b := range j.h.Bounds {
				bounds = append(bounds, j.h.Name+": "+b)
			}
			for _, b := range j.h.Outside {
				outside = append(outside, b)
			}
			for _, b := range j.h.Assume {
				assume = append(assume, b)
			}
		}
		if j.err != "" {
			notes = append(notes, j.h.Name+": "+j.err)
			exhaustive = false
		}
		if j.res == nil {
			continue
		}
		r := j.res
		states += r.Paths
		infeasible += r.Infeasible
		trans += j.instrs
		asserts += r.Asserts
		trivial += r.Trivial
		discharged += r.Discharged
		undecided += r.Undecided
		forks += j.forks
		queries += j.solver.Queries
		stime += j.solver.Time.Seconds()
		if !r.Exhausted || len(r.Truncated) > 0 || r.Undecided > 0 {
			exhaustive = false
		}
		for k, v := range r.Truncated {
			truncs[j.h.Name+": "+k] += v
		}
		for k, v := range r.Notes {
			notes = append(notes, fmt.Sprintf("%s: %s (%d)", j.h.Name, k, v))
		}
		if reached[j.h.Name] == nil {
			reached[j.h.Name] = map[string]int{}
		}
		for k, v := range r.Reached {
			reached[j.h.Name][k] += v
		}
		for f := range j.used {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !strings.HasPrefix(f.Pkg.Pkg.Path(), zz) {
				enc[f.String()] = true
			}
		}
		per = append(per, map[string]interface{}{"harness": j.h.Name, "shard": fmt.Sprintf("%d/%d", j.shard, j.n), "paths": r.Paths, "instructions": j.instrs,
			"asserts": r.Asserts, "solver_s": round(j.solver.Time.Seconds()), "wall_s": round(j.wall), "exhausted": r.Exhausted && len(r.Truncated) == 0})
	}
	for _, j := range js {
		if j.shard != 0 {
			continue
		}
		for _, k := range j.h.Reach {
			if reached[j.h.Name][k] == 0 {
				vac = append(vac, j.h.Name+"/"+k)
			}
		}
	}
	for f := range enc {
		encoded = append(encoded, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(encoded)
	var tr []string
	for k, v := range truncs {
		tr = append(tr, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(tr)
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive":             exhaustive,
		"explanation":            "states = symbolic paths explored to the end, transitions = SSA instructions executed symbolically; every assertion is decided by the solver for all inputs within the bounds",
		"functions_encoded":      encoded,
		"bounds":                 bounds,
		"outside_bounds":         outside,
		"solver_queries":         queries,
		"solver_time_s":          round(stime),
		"asserts_checked":        asserts,
		"asserts_by_solver":      discharged,
		"asserts_by_rewriting":   trivial,
		"asserts_undecided":      undecided,
		"forks":                  forks,
		"infeasible_paths":       infeasible,
		"reachability_witnesses": reached,
		"witness_mismatches":     mismatched,
		"unconfirmed_candidates": unconfirmed,
		"reduced_bound":          tr,
		"per_harness":            per,
		"notes":                  notes,
	}
	ev := map[string]interface{}{"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(assume, commonAssumptions...), "wall_s": round(time.Since(d.start).Seconds()), "violations": len(violations)}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", d.prop+".json"), b, 0644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d instructions, %d assertions (%d by solver, %d by rewriting, %d undecided), %d queries, solver %.1fs, %d traces validated, exhaustive=%v, %.1fs\n",
		d.prop, d.tier, states, trans, asserts, discharged, trivial, undecided, queries, stime, validated, exhaustive, time.Since(d.start).Seconds())
	for _, x := range tr {
		fmt.Println("REDUCED-BOUND:", x)
	}
	sort.Strings(notes)
	for i, x := range notes {
		if i < 30 {
			fmt.Println("NOTE:", x)
		}
	}
	var kk []string
	for k := range knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k)
	}
	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, v)
		}
		return 1
	}
	if len(vac) > 0 {
		fmt.Println("ERROR: vacuous, never reached:", strings.Join(vac, " "))
		return 2
	}
	return 0
}

var commonAssumptions = []string{
	"the SSA construction of golang.org/x/tools, the engine's encoding of SSA into terms, and z3 are trusted; sampled paths are replayed against the real build",
	"library code outside the module (bbolt, cobra, pflag, pb, os, fmt, time formatting, tabwriter) is replaced by models in the encoding; replays use the real libraries",
	"goroutines and signals are not modelled; the code under test is sequential",
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func compact(in map[string]InputVal) map[string]string {
	out := map[string]string{}
	for k, v := range in {
		if v.Kind == "bytes" {
			n := 0
			s := fmt.Sprintf("%d bytes", v.Len)
			var ks []string
			for c := range v.Cells {
				ks = append(ks, c)
			}
			sort.Slice(ks, func(a, b int) bool { return len(ks[a]) < len(ks[b]) || len(ks[a]) == len(ks[b]) && ks[a] < ks[b] })
			for _, c := range ks {
				if n < 12 {
					s += fmt.Sprintf(" [%s]=%02x", c, v.Cells[c])
				}
				n++
			}
			out[k] = s
		} else {
			out[k] = v.Val
		}
	}
	return out
}

func (d *Driver) replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	var r replayRec
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	d.tier = r.Tier
	if err := d.prepare(); err != nil {
		fatal("%v", err)
	}
	d.native = d.startNative()
	if err := d.native.wait(); err != nil {
		fatal("%v", err)
	}
	o := d.native.run(&Harness{Name: r.Harness, NatTO: 60}, r.Inputs)
	fmt.Println(o.summary())
	if o.bad() {
		return 1
	}
	return 0
}
