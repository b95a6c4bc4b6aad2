// mc runs the exploration of one property in parallel shards and writes its
// evidence file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/eng"
	_ "verif/mc/props"
)

type finding struct {
	Property string   `json:"property"`
	What     string   `json:"what"`
	Inputs   []string `json:"inputs"`
	Fixed    string   `json:"fixed,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "root of the framework")
	child := flag.String("child", "", "internal: shard/n")
	out := flag.String("out", "", "internal: result file")
	cur := flag.String("cur", "", "internal: current case file")
	shards := flag.Int("shards", 8, "processes")
	all := flag.Bool("all", false, "report all failures")
	limit := flag.Duration("limit", 0, "internal time limit")
	flag.Parse()
	p := eng.Registry[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	finds := loadFindings(filepath.Join(*verif, "known_findings.json"), *prop)
	known := map[string]bool{}
	for _, f := range finds {
		for _, i := range f.Inputs {
			known[i] = true
		}
	}
	if *limit == 0 {
		*limit = 600 * time.Second
		if *tier == "thorough" {
			*limit = 780 * time.Second
		}
	}
	if *child != "" {
		a := strings.Split(*child, "/")
		s, _ := strconv.Atoi(a[0])
		n, _ := strconv.Atoi(a[1])
		eng.RunShard(p, *tier, s, n, *all, known, os.Getenv("TMPDIR"), *cur, *limit, func(r *eng.Result) {
			b, _ := json.Marshal(r)
			os.WriteFile(*out, b, 0600)
		})
		os.Exit(0)
	}
	os.Exit(parent(p, *tier, *verif, *shards, *all, *limit, finds))
}

func loadFindings(path, prop string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var all, r []finding
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("bad known_findings.json:", err)
		os.Exit(2)
	}
	for _, f := range all {
		if f.Property == prop && f.Fixed == "" {
			r = append(r, f)
		}
	}
	return r
}

// head keeps the beginning of what is written to it.
type head struct{ bytes.Buffer }

func (h *head) Write(b []byte) (int, error) {
	if h.Len() < 1<<16 {
		h.Buffer.Write(b)
	}
	return len(b), nil
}

func runShard(scratch string, s, n int, p *eng.Prop, tier, verif string, all bool, limit time.Duration) (*eng.Result, *eng.Failure) {
	dir := filepath.Join(scratch, fmt.Sprintf("s%d", s))
	os.MkdirAll(dir, 0700)
	out := filepath.Join(scratch, fmt.Sprintf("out%d", s))
	cur := filepath.Join(scratch, fmt.Sprintf("cur%d", s))
	os.Remove(out)
	exe, _ := os.Executable()
	args := []string{"-prop", p.ID, "-tier", tier, "-verif", verif, "-child", fmt.Sprintf("%d/%d", s, n), "-out", out, "-cur", cur, "-limit", limit.String()}
	if all {
		args = append(args, "-all")
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = dir
	var errb head
	cmd.Stderr = &errb
	if os.Getenv("MC_DEBUG") != "" {
		cmd.Stdout = os.Stdout
		cmd.Stderr = os.Stderr
	}
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOMAXPROCS=2", "GODEBUG=cgocheck=0", "GOGC=200")
	err := cmd.Run()
	if b, e := os.ReadFile(out); e == nil && err == nil {
		r := &eng.Result{}
		if json.Unmarshal(b, r) == nil {
			return r, nil
		}
	}
	cs, _ := os.ReadFile(cur)
	if i := bytes.IndexByte(cs, 0); i >= 0 {
		cs = cs[:i]
	}
	kind := "crash"
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 97 {
		kind = "no end in sight (150 s or 3 GB in one small case)"
	}
	tail := errb.String()
	if len(tail) > 3000 {
		tail = tail[:3000]
	}
	return nil, &eng.Failure{Sig: "crash:" + string(cs), Detail: fmt.Sprintf("%s: %v\n%s", kind, err, tail), Case: string(cs)}
}

func parent(p *eng.Prop, tier, verif string, shards int, all bool, limit time.Duration, finds []finding) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	if p.Serial {
		shards = 1
	}
	var wg sync.WaitGroup
	res := make([]*eng.Result, shards)
	crash := make([]*eng.Failure, shards)
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			res[s], crash[s] = runShard(scratch, s, shards, p, tier, verif, all, limit)
			if crash[s] != nil { // believe it only if it happens again
				r2, c2 := runShard(scratch, s, shards, p, tier, verif, all, limit)
				if c2 == nil {
					res[s], crash[s] = r2, nil
				}
			}
		}(s)
	}
	wg.Wait()
	states, outs := map[uint64]struct{}{}, map[uint64]struct{}{}
	var trans, traces uint64
	samples := []string{}
	caps := map[string]bool{}
	counts := map[string]uint64{}
	fails := []eng.Failure{}
	hit := map[string]bool{}
	done := true
	cases := 0
	for s := range res {
		if crash[s] != nil {
			fails = append(fails, *crash[s])
			done = false
			continue
		}
		r := res[s]
		for _, h := range r.States {
			states[h] = struct{}{}
		}
		for _, h := range r.Outcomes {
			outs[h] = struct{}{}
		}
		trans += r.Trans
		traces += r.Traces
		if len(samples) < 4 {
			samples = append(samples, r.Samples...)
		}
		for _, k := range r.Caps {
			caps[k] = true
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		fails = append(fails, r.Fails...)
		for _, k := range r.KnownHit {
			hit[k] = true
		}
		done = done && r.Done
		if r.Cases > cases {
			cases = r.Cases
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	timedOut := caps["internal time limit reached"]
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	capl := []string{}
	for k := range caps {
		capl = append(capl, k)
	}
	sort.Strings(capl)
	cov := map[string]interface{}{
		"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
		"samples": samples, "distinct_outcomes": len(outs), "cases_enumerated": cases,
		"rule": p.Rule, "bounds_hit": capl, "exhaustive": done && !timedOut && len(fails) == 0, "counters": counts,
		"processes": shards,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, f := range finds {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d cases=%d complete=%v %.1fs\n",
		p.ID, tier, len(states), trans, traces, len(outs), cases, done && !timedOut, time.Since(start).Seconds())
	if len(fails) == 0 {
		return 0
	}
	rd := filepath.Join(verif, "replays")
	os.MkdirAll(rd, 0755)
	n := len(fails)
	if !all && n > 5 {
		fails = fails[:5]
	}
	for i, f := range fails {
		path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.ID, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "tier": tier, "input": f.Sig, "case": f.Case, "detail": f.Detail}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("  input: %s\n  %s\n", f.Sig, f.Detail)
		if i == 0 || !all {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
	}
	return 1
}
