package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// report writes the evidence, prints the verdict and returns the exit code.
func report(w *World, rs []*Result, prop, tier, out, repo string, miss []string, t0 time.Time) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := loadKnown(filepath.Join(out, "known-findings.json"))
	nOb, nOk, nInst := 0, 0, 0
	backends := map[string]int{}
	assump := map[string]bool{}
	modelsUsed := map[string]bool{}
	inl := map[string]bool{}
	var funcs []any
	var fails []*Obligation
	var undec []string
	var bounded []string
	solverMs := 0.0
	queries := 0
	knownHit := map[string]knownFinding{}
	for _, m := range miss {
		undec = append(undec, m)
	}
	for _, r := range rs {
		ok, bad := 0, 0
		for _, o := range r.Obs {
			if o.Status == "proved" {
				nOb++
				nInst += o.Count
				ok++
				nOk++
				backends[o.By]++
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.Property == prop && k.Fixed == "" && k.Obligation == o.Name {
					knownHit[o.Name] = k
					isKnown = true
				}
			}
			if !isKnown {
				nOb++
				bad++
				nInst += o.Count
				fails = append(fails, o)
			}
		}
		if r.Err != "" {
			undec = append(undec, r.Con+": "+r.Err)
		}
		for _, a := range r.Assump {
			assump[a] = true
		}
		for _, m := range r.Models {
			modelsUsed[m] = true
		}
		for _, m := range r.Inlined {
			inl[m] = true
		}
		for k, n := range r.Bounded {
			bounded = append(bounded, fmt.Sprintf("%s: %s bounded to %d", r.Con, k, n))
		}
		solverMs += r.SolverMs
		queries += r.Queries
		funcs = append(funcs, map[string]any{"function": r.Fn, "contract": r.Con, "obligations": ok + bad, "discharged": ok, "paths": r.Paths, "returning_paths": r.Returns, "solver_ms": r.SolverMs, "wall_ms": r.WallMs, "error": r.Err})
		if len(r.Init) > 0 {
			for _, i := range r.Init {
				assump["package variables left arbitrary: "+i] = true
			}
		}
	}
	var trusted []string
	seenNote := map[string]bool{}
	for m := range modelsUsed {
		n := trustNote[m]
		if n == "" {
			n = "model of " + m
		}
		if !seenNote[n] {
			seenNote[n] = true
			trusted = append(trusted, n)
		}
	}
	sort.Strings(trusted)
	trusted = append(trusted, "govc (the verification-condition generator in /verif/govc), golang.org/x/tools/go/ssa, z3", "go toolchain: the SSA form is the program that runs")
	if nOb == 0 {
		undec = append(undec, "no obligation was generated")
	}
	as := sortedKeys(assump)
	as = append(as, "byte strings and slices are at most 2^40 long", "distinct parameters and memory reachable from them do not overlap unless they are the same reference", "no other goroutine changes the memory a verified function works on while it runs")
	violations := len(fails) + len(undec)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": as,
		"coverage": map[string]any{
			"obligations": nOb, "discharged": nOk, "obligation_instances": nInst,
			"checker_cmd":  "bash /verif/check.sh " + prop,
			"trusted_base": trusted, "functions_under_contract": funcs, "functions_inlined": sortedKeys(inl),
			"discharged_by": backends, "solver_queries": queries, "solver_ms": solverMs, "bounded": bounded, "modelled_functions": sortedKeys(modelsUsed), "known_findings": len(knownHit),
		},
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	os.WriteFile(filepath.Join(out, "evidence", prop+".json"), append(data, '\n'), 0o644)
	var kn []string
	for n := range knownHit {
		kn = append(kn, n)
	}
	sort.Strings(kn)
	for _, n := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", prop, knownHit[n].What, n)
	}
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d solver queries, %.1fs\n", prop, len(rs), nOb, nOk, queries, time.Since(t0).Seconds())
	if violations == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(out, "evidence", "replay"), 0o755)
	rp := filepath.Join(out, "evidence", "replay", prop+".txt")
	var sb strings.Builder
	for _, u := range undec {
		fmt.Fprintf(&sb, "NOT DISCHARGED (outside the verifier's reach): %s\n\n", u)
		fmt.Println("not discharged:", firstLine(u))
	}
	for _, f := range fails {
		fmt.Fprintf(&sb, "FAILED OBLIGATION %s (%s)\n%s\n\n", f.Name, f.Status, f.Detail)
		fmt.Println("failed obligation:", f.Name)
	}
	concrete, text := replay(prop, out, repo)
	sb.WriteString(text)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	if concrete {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// replay runs the property's concrete search against the real code: Go tests laid over the repository.
func replay(prop, out, repo string) (bool, string) {
	files, _ := filepath.Glob(filepath.Join(out, "replay", prop, "*_test.go"))
	if len(files) == 0 {
		return false, ""
	}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return false, ""
	}
	defer os.RemoveAll(dir)
	repl := map[string]string{}
	pkgs := map[string]bool{}
	for _, f := range files {
		data, _ := os.ReadFile(f)
		l := firstLine(string(data))
		l = strings.Replace(l, "// pkg:", "//pkg:", 1)
		p := strings.TrimSpace(strings.TrimPrefix(l, "//pkg:"))
		if p == "" || !strings.HasPrefix(l, "//pkg:") {
			continue
		}
		pkgs["./"+p] = true
		repl[filepath.Join(repo, p, "govc_replay_"+filepath.Base(f))] = f
	}
	common, _ := filepath.Glob(filepath.Join(out, "replay", "common", "*_test.go"))
	for _, f := range common {
		data, _ := os.ReadFile(f)
		p := strings.TrimSpace(strings.TrimPrefix(firstLine(string(data)), "//pkg:"))
		if pkgs["./"+p] {
			repl[filepath.Join(repo, p, "govc_replay_common_"+filepath.Base(f))] = f
		}
	}
	ov := filepath.Join(dir, "overlay.json")
	data, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, data, 0o644)
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	ctx, cancel := context.WithTimeout(context.Background(), 220*time.Second)
	defer cancel()
	args := append([]string{"test", "-count=1", "-vet=off", "-timeout=180s", "-overlay", ov, "-run", "^TestReplay" + prop}, ps...)
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOVC_SCRATCH="+dir, "TMPDIR="+dir)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Run()
	text := buf.String()
	conc := strings.Contains(text, "REPLAY-FAIL") || strings.Contains(text, "panic: runtime error")
	if len(text) > 20000 {
		text = text[:20000]
	}
	return conc, "CONCRETE SEARCH (go test over the real code)\n" + text
}
