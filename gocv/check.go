package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // obligation name or witness key
	What     string `json:"what"`
}

type knownFile struct {
	Known []knownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

type witness struct {
	key, text string
}

// propCfg: how a property is checked besides its contracts
type propCfg struct {
	Harness []string `json:"harness"` // harness files to compile
	Run     string   `json:"run"`     // test name pattern
	Main    bool     `json:"main"`    // also verify package main
	Tool    bool     `json:"tool"`    // the bounded check runs the command line tool
	Bounded []string `json:"bounded"` // functions covered only by the bounded check
	Level   string   `json:"level"`
}

// wants reports whether an obligation belongs to a property.
func wants(o *Obl, con *Contract, prop string) bool {
	switch prop {
	case "C01":
		if o.kind == "term" {
			return false
		}
	case "C02":
		if o.kind == "safe" || o.kind == "frame" {
			return false
		}
	}
	if len(o.props) == 0 {
		if o.kind == "func" && (prop == "C01" || prop == "C02") {
			return true
		}
		return true
	}
	for _, p := range o.props {
		if p == prop {
			return true
		}
	}
	return false
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func check(prop string, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier == "" {
		tier = "quick"
	}
	var cfgs map[string]propCfg
	if b, err := os.ReadFile(filepath.Join(verifDir, "props.json")); err == nil {
		if err := json.Unmarshal(b, &cfgs); err != nil {
			fmt.Println("props.json:", err)
			return 2
		}
	}
	cfg := cfgs[prop]
	var kf knownFile
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		json.Unmarshal(b, &kf)
	}
	known := func(m string) (knownFinding, bool) {
		for _, k := range kf.Known {
			if k.Property == prop && k.Match == m {
				return k, true
			}
		}
		return knownFinding{}, false
	}

	// the bounded complement runs while the proofs are redone
	type hres struct {
		w     []witness
		n     int
		d     int
		rule  string
		samp  []string
		note  string
		err   string
		extra string
	}
	hch := make(chan hres, 1)
	go func() {
		if len(cfg.Harness) == 0 {
			hch <- hres{note: "none"}
			return
		}
		out, err := runHarness(cfg, seed, tier)
		r := hres{}
		sc := bufio.NewScanner(strings.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		done := false
		for sc.Scan() {
			l := sc.Text()
			switch {
			case strings.HasPrefix(l, "WITNESS "):
				p := strings.SplitN(l[8:], " ", 2)
				t := ""
				if len(p) > 1 {
					t = p[1]
				}
				r.w = append(r.w, witness{p[0], t})
			case strings.HasPrefix(l, "CASES "):
				var a, b int
				fmt.Sscanf(l[6:], "%d %d", &a, &b)
				r.n += a
				r.d += b
			case strings.HasPrefix(l, "RULE "):
				r.rule += l[5:] + " "
			case strings.HasPrefix(l, "SAMPLE "):
				if len(r.samp) < 5 {
					r.samp = append(r.samp, l[7:])
				}
			case strings.HasPrefix(l, "ok "), l == "PASS":
				done = true
			}
		}
		r.extra = out
		switch {
		case err != nil && (strings.Contains(out, "[build failed]") || strings.Contains(out, "[setup failed]")):
			r.err = "the bounded harness does not compile against this tree"
			if os.Getenv("GOCVDBG") != "" {
				fmt.Fprintln(os.Stderr, out)
			}
		case strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: "):
			// a crash of the code under test that the harness could not contain
			k := strings.Index(out, "panic: ")
			if j := strings.Index(out, "fatal error: "); j >= 0 && (k < 0 || j < k) {
				k = j
			}
			r.w = append(r.w, witness{"crash", trimLines(out[k:], 12) + "\nlast input: " + nowOf(out)})
		case err == errTimeout:
			if last := nowOf(out); last != "" {
				r.w = append(r.w, witness{"hang", "the harness ran out of time; last input: " + last})
			} else {
				r.err = "the bounded harness ran out of time"
			}
		case !done && len(r.w) == 0:
			r.err = "the bounded harness gave no answer: " + trimLines(out, 6)
		}
		for _, w := range r.w {
			if _, ok := known(w.key); !ok {
				atomic.StoreInt32(&haveWitness, 1)
			}
		}
		hch <- r
	}()

	var results []*FuncResult
	var all []*Obl
	undec := map[string]string{}
	funcs := map[string]bool{}
	lemmas := map[string]bool{}
	assumptions := map[string]bool{}
	trusted := map[string]bool{}
	inl := map[string]bool{}
	loadErr := ""
	b := budget{6, 20, 20}
	if tier == "thorough" {
		b = budget{20, 60, 60}
	}
	type target struct{ pkg, spec, con string }
	targets := []target{{pkgPath, "spec", "contracts"}}
	if cfg.Main {
		targets = append(targets, target{mainPath, "spec_main", "contracts_main"})
	}
	oblCon := map[*Obl]*Contract{}
	for _, tg := range targets {
		v, err := loadAll(tg.pkg, tg.spec, tg.con)
		if err != nil {
			loadErr = err.Error()
			undec["package "+tg.pkg] = loadErr
			continue
		}
		var todo []string
		for _, k := range sortedKeys(v.cs.m) {
			c := v.cs.m[k]
			if c.spec || c.trusted || c.inlineAlways {
				continue
			}
			if prop == "C01" || prop == "C02" || has(c.props, prop) {
				todo = append(todo, k)
			}
		}
		done := map[string]bool{}
		for len(todo) > 0 {
			var obls []*Obl
			for _, k := range todo {
				done[k] = true
				r := v.gen(k)
				results = append(results, r)
				con := v.cs.m[k]
				if r.undec != "" {
					undec[k] = r.undec
				}
				if con.spec {
					lemmas[k] = true
				} else {
					funcs[k] = true
				}
				for _, o := range r.obls {
					if !wants(o, con, prop) {
						continue
					}
					o.smt = ""
					oblCon[o] = con
					obls = append(obls, o)
				}
			}
			v.solveAll(obls, b)
			// a few stubborn obligations get a longer run
			var left []*Obl
			for _, o := range obls {
				if o.status == "unproved" {
					left = append(left, o)
				}
			}
			if len(left) > 0 && len(left) <= 4 && atomic.LoadInt32(&haveWitness) == 0 {
				v.solveAll(left, budget{b.slow, b.slow * 2, 4})
			}
			all = append(all, obls...)
			todo = nil
			for _, s := range sortedKeys(v.usedSpec) {
				if c := v.cs.m[s]; c != nil && c.spec && !c.uninterp && !done[s] {
					todo = append(todo, s)
				}
			}
		}
		for k := range v.usedExt {
			trusted[k] = true
		}
		for k := range v.assume {
			assumptions[k] = true
		}
		for k := range v.inlined {
			inl[k] = true
		}
	}

	h := <-hch

	// verdict
	var failed []*Obl
	disch, triv := 0, 0
	bySolver := map[string]int{}
	solverSecs := 0.0
	vac := 0
	var knownHit []string
	for _, o := range all {
		solverSecs += o.secs
		switch o.status {
		case "proved":
			disch++
			bySolver[o.solver]++
			if o.trivial {
				triv++
			}
		case "ok":
			vac++
		default:
			if k, ok := known(o.name()); ok {
				knownHit = append(knownHit, k.What)
				continue
			}
			failed = append(failed, o)
		}
	}
	var wit []witness
	for _, w := range h.w {
		if k, ok := known(w.key); ok {
			knownHit = append(knownHit, k.What)
			continue
		}
		wit = append(wit, w)
	}
	seenK := map[string]bool{}
	for _, k := range knownHit {
		if !seenK[k] {
			seenK[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	nobl := 0
	for _, o := range all {
		if !o.vacuity {
			nobl++
		}
	}
	rc := 0
	violations := 0
	if len(failed) > 0 || len(wit) > 0 || len(undec) > 0 {
		rc = 1
		violations = len(failed) + len(undec)
		if violations == 0 {
			violations = len(wit)
		}
		rp := filepath.Join(verifDir, "evidence", "replay_"+prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\n", prop)
		for i, w := range wit {
			if i < 20 {
				fmt.Fprintf(&sb, "failing input (replayed against the real code) [%s]:\n  %s\n", w.key, w.text)
			}
		}
		if len(wit) > 0 {
			fmt.Fprintf(&sb, "\nrerun: VERIF_SEED=%d VERIF_TIER=%s %s check %s\n\n", seed, tier, filepath.Join(verifDir, "check.sh"), prop)
		}
		for _, k := range sortedKeys(undec) {
			fmt.Fprintf(&sb, "failed obligation: %s/contract-applies\n  the contract can not be checked against the current source: %s\n", k, undec[k])
		}
		for i, o := range failed {
			fmt.Fprintf(&sb, "failed obligation: %s%s at %s\n  back end %s answered %s after %.1fs\n  goal: %s\n", o.name(), caseStr(o), o.where, o.solver, o.output, o.secs, o.goal)
			if i < 3 {
				for _, f := range o.facts {
					fmt.Fprintf(&sb, "    assuming: %s\n", f)
				}
			}
		}
		os.MkdirAll(filepath.Dir(rp), 0o755)
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, o := range failed {
			if i < 8 {
				fmt.Printf("failed obligation %s%s at %s\n", o.name(), caseStr(o), o.where)
			}
		}
		for _, k := range sortedKeys(undec) {
			fmt.Printf("failed obligation %s/contract-applies: %s\n", k, undec[k])
		}
		for i, w := range wit {
			if i < 5 {
				fmt.Printf("failing input [%s] %s\n", w.key, trimLines(w.text, 6))
			}
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp)
		if len(wit) == 0 {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	if h.err != "" {
		fmt.Printf("UNDECIDED harness: %s\n", h.err)
		undec["bounded harness"] = h.err
	}
	if len(all) == 0 && h.n == 0 && rc == 0 {
		fmt.Println("nothing was checked: this tree is outside what the machinery can read")
	}

	// evidence
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	var assume []string
	for _, k := range sortedKeys(trusted) {
		assume = append(assume, "assumed contract: "+k)
	}
	for _, k := range sortedKeys(assumptions) {
		assume = append(assume, k)
	}
	assume = append(assume, "no slice or string is longer than 2^40 bytes", "the goroutine stack and memory are large enough", "floating point values are uninterpreted; conversions of integers below 2^53 are exact", "the gocv translation of Go to verification conditions and the SMT solvers are correct")
	sort.Strings(assume)
	trust := []string{"gocv (verification condition generator, /verif/gocv)", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "go/types"}
	cov := map[string]interface{}{
		"obligations":            nobl,
		"discharged":             disch,
		"checker_cmd":            fmt.Sprintf("/verif/check.sh check %s", prop),
		"trusted_base":           trust,
		"functions":              sortedKeys(funcs),
		"lemmas":                 sortedKeys(lemmas),
		"inlined":                sortedKeys(inl),
		"discharged_by":          bySolver,
		"solver_seconds":         solverSecs,
		"reachability_checks_ok": vac,
		"undecided":              undec,
		"bounded_functions":      cfg.Bounded,
		"evaluations":            h.n,
		"distinct_nontrivial":    h.d,
		"rule":                   strings.TrimSpace(h.rule),
		"samples":                h.samp,
		"explanation":            "obligations are generated from /repo's current source and discharged by SMT; evaluations count the bounded differential runs of the real code against the executable specification, which complement the proof and never count as proved",
	}
	if h.samp == nil {
		cov["samples"] = []string{"(no bounded runs)"}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d functions, %d lemmas, %d/%d obligations discharged, %d reachability checks, %d bounded cases, %.1fs\n", prop, len(funcs), len(lemmas), disch, nobl, vac, h.n, time.Since(t0).Seconds())
	return rc
}

// nowOf is the input that was being run last.
func nowOf(out string) string {
	last := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "NOW ") {
			last = l[4:]
		}
	}
	return last
}

var errTimeout = fmt.Errorf("timeout")

const mainPath = "github.com/KarmaPenny/pdfparser"

// runHarness runs the bounded differential tests of the real code through an overlay.
func runHarness(cfg propCfg, seed int, tier string) (string, error) {
	dir, err := os.MkdirTemp("", "gocv-harness")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0o755)
	rep := map[string]string{}
	add := func(f, as string) { rep[filepath.Join(repoDir, "pdf", as)] = f }
	specs, _ := filepath.Glob(filepath.Join(verifDir, "spec", "*.go"))
	for _, f := range specs {
		if strings.HasSuffix(f, "_proof.go") {
			continue
		}
		add(f, "zz_spec_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
	}
	for _, f := range append([]string{"common"}, cfg.Harness...) {
		add(filepath.Join(verifDir, "harness", f+"_test.go"), "zz_verif_"+f+"_test.go")
	}
	// the repository's own tests are not needed here
	ents, _ := filepath.Glob(filepath.Join(repoDir, "pdf", "*_test.go"))
	for _, f := range ents {
		rep[f] = filepath.Join(verifDir, "harness", "empty_test.go")
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, ob, 0o644)
	limit := 120 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit+60*time.Second)
	defer cancel()
	bin := filepath.Join(dir, "verif.test")
	build := exec.CommandContext(ctx, "go", "test", "-c", "-overlay", ov, "-o", bin, "./pdf")
	build.Dir = repoDir
	var bb bytes.Buffer
	build.Stdout, build.Stderr = &bb, &bb
	if err := build.Run(); err != nil {
		return bb.String() + "\n[build failed]", err
	}
	os.Chmod(bin, 0o755)
	tool := ""
	if cfg.Tool {
		tool = filepath.Join(dir, "pdfparser")
		b := exec.CommandContext(ctx, "go", "build", "-o", tool, ".")
		b.Dir = repoDir
		if out, err := b.CombinedOutput(); err != nil {
			return string(out) + "\n[build failed]", err
		}
		os.Chmod(tool, 0o755)
	}
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0o777)
	os.Chmod(work, 0o777)
	args := []string{bin, "-test.run", cfg.Run, "-test.v", "-test.count=1", "-test.timeout=0"}
	// code that can delete or write files runs as an unprivileged user inside a scratch folder
	if os.Getuid() == 0 {
		if _, err := os.Stat("/usr/bin/setpriv"); err == nil {
			args = append([]string{"/usr/bin/setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"}, args...)
		}
	}
	run := exec.CommandContext(ctx, args[0], args[1:]...)
	run.Dir = work
	run.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_WORK="+work, "VERIF_REPO="+repoDir, "VERIF_MAIN="+tool, "TMPDIR="+work, "HOME="+work, fmt.Sprintf("VERIF_LIMIT=%d", int(limit.Seconds())))
	var rb bytes.Buffer
	run.Stdout, run.Stderr = &rb, &rb
	run.WaitDelay = 2 * time.Second
	if err := run.Start(); err != nil {
		return err.Error(), err
	}
	timer := time.AfterFunc(limit, func() { run.Process.Kill() })
	t0 := time.Now()
	err = run.Wait()
	timer.Stop()
	if now, e := os.ReadFile(filepath.Join(work, "now")); e == nil {
		rb.WriteString("\nNOW " + strings.ReplaceAll(strings.TrimRight(string(now), "\x00"), "\n", " ") + "\n")
	}
	if err != nil && time.Since(t0) >= limit-time.Second {
		return rb.String(), errTimeout
	}
	return rb.String(), err
}
