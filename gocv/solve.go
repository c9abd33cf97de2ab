package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverCfg struct {
	name string
	args func(secs int) []string
	pre  string
}

var solvers = map[string]solverCfg{
	"z3-new":        {"z3-new", func(s int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"},
	"z3-new-arith2": {"z3-new-arith2", func(s int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n(set-option :smt.case_split 3)\n"},
	"z3-4.8":        {"z3-4.8", func(s int) []string { return []string{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n"},
	"z3-new-r0":     {"z3-new-r0", func(s int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", s)} }, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.relevancy 0)\n"},
	"cvc5": {"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000)}
	}, ""},
}

type answer struct {
	res, solver, out string
	secs             float64
}

var solverCalls int64

// haveWitness is set once a failing input is known: proof effort beyond the
// first attempts is then pointless.
var haveWitness int32

func runSolver(ctx context.Context, cfg solverCfg, text string, secs int) answer {
	atomic.AddInt64(&solverCalls, 1)
	a := cfg.args(secs)
	c, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, "/usr/bin/nice", append([]string{"-n", "1"}, a...)...)
	if _, err := os.Stat("/usr/bin/nice"); err != nil {
		cmd = exec.CommandContext(c, a[0], a[1:]...)
	}
	cmd.Stdin = strings.NewReader(cfg.pre + text)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	cmd.Run()
	out := ob.String()
	res := "unknown"
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			res = l
			break
		}
		if strings.Contains(l, "error") {
			res = "error"
			break
		}
	}
	return answer{res, cfg.name, out, time.Since(t0).Seconds()}
}

// entry is one text for one solver.
type entry struct{ text, solver string }

func race(text string, secs int, names ...string) answer {
	var es []entry
	for _, n := range names {
		es = append(es, entry{text, n})
	}
	return raceOf(secs, es...)
}

// raceOf is the first proof any of the entries gives.
func raceOf(secs int, es ...entry) answer {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan answer, len(es))
	for _, e := range es {
		go func(e entry) { ch <- runSolver(ctx, solvers[e.solver], e.text, secs) }(e)
	}
	var last answer
	var tot float64
	for range es {
		a := <-ch
		if a.secs > tot {
			tot = a.secs
		}
		if a.res == "unsat" {
			a.secs = tot
			return a
		}
		if last.res == "" || a.res == "error" || a.res == "sat" {
			last = a
		}
	}
	last.secs = tot
	return last
}

type budget struct {
	fast, slow int // seconds
	maxSlow    int64
}

var dumpDir = os.Getenv("GOCV_DUMP")
var cacheDir = os.Getenv("GOCV_CACHE")

type job struct {
	o     *Obl
	texts []string
}

// solveAll discharges obligations in parallel.
func (v *Verifier) solveAll(obls []*Obl, b budget) {
	var slowUsed int64
	var jobs []*job
	for _, o := range obls {
		if o.trivial {
			o.status, o.solver = "proved", "simplifier"
			continue
		}
		jobs = append(jobs, &job{o: o})
	}
	var mu sync.Mutex // term tables are not concurrent
	run := func(j *job) {
		o := j.o
		mu.Lock()
		text := v.smt(o, 0)
		mu.Unlock()
		o.smt = text
		if dumpDir != "" && os.Getenv("GOCV_DUMPALL") != "" {
			dumpSMT(filepath.Join(dumpDir, sanitize(o.name())+fmt.Sprintf("_%d.smt2", o.seq)), text)
		}
		key := ""
		if cacheDir != "" {
			key = filepath.Join(cacheDir, fmt.Sprintf("%x", sha256.Sum256([]byte(text))))
			if _, err := os.Stat(key); err == nil {
				o.status, o.solver = "proved", "cache"
				if o.vacuity {
					o.status = "ok"
				}
				return
			}
		}
		if o.vacuity {
			a := race(text, 1, "z3-new")
			o.secs = a.secs
			o.solver = a.solver
			if a.res == "unsat" || a.res == "error" {
				o.status, o.output = "vacuous", a.out
			} else {
				o.status = "ok"
				if key != "" {
					os.WriteFile(key, nil, 0o644)
				}
			}
			return
		}
		mu.Lock()
		plain := v.smt(o, 0, true)
		mu.Unlock()
		a := raceOf(b.fast, entry{text, "z3-new-r0"}, entry{plain, "z3-new"})
		if a.res != "unsat" && a.res != "error" {
			a = raceOf(b.fast, entry{text, "z3-new"}, entry{plain, "z3-new-r0"})
			o.secs += a.secs
		}
		o.secs += a.secs
		if a.res != "unsat" && a.res != "error" && atomic.LoadInt32(&haveWitness) == 0 {
			t0 := time.Now()
			if sa, ok := v.split(o, b.fast, &mu); ok {
				a = sa
			}
			o.secs += time.Since(t0).Seconds()
		}
		if a.res != "unsat" && a.res != "error" {
			if atomic.LoadInt32(&haveWitness) == 0 && atomic.AddInt64(&slowUsed, 1) <= b.maxSlow {
				mu.Lock()
				text2 := v.smt(o, 1)
				mu.Unlock()
				ctx := time.Now()
				a2 := raceOf(b.slow, entry{text, "z3-new-r0"}, entry{text, "z3-new-arith2"}, entry{text, "z3-4.8"}, entry{text, "cvc5"}, entry{plain, "z3-new-arith2"}, entry{plain, "z3-4.8"})
				if a2.res != "unsat" {
					a2 = raceOf(b.slow, entry{text2, "z3-new"}, entry{text2, "z3-new-r0"}, entry{text2, "z3-new-arith2"}, entry{text2, "z3-4.8"})
				}
				if a2.res == "unsat" || a.res != "sat" {
					a = a2
				}
				o.secs += time.Since(ctx).Seconds()
			}
		}
		o.solver, o.output = a.solver, a.res
		if a.res == "unsat" {
			o.status = "proved"
			if key != "" {
				os.WriteFile(key, nil, 0o644)
			}
		} else {
			o.status = "unproved"
			if a.res == "error" {
				o.output = "error: " + trimLines(a.out, 5)
			}
			if dumpDir != "" {
				dumpSMT(filepath.Join(dumpDir, sanitize(o.name())+fmt.Sprintf("_%d.smt2", o.seq)), text)
			}
		}
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				run(j)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// split proves an obligation one path at a time: the cases are the conditions
// under which merged paths were joined.
func (v *Verifier) split(o *Obl, secs int, mu *sync.Mutex) (answer, bool) {
	var ors []*Term
	for i := len(o.facts) - 1; i >= 0 && len(ors) < 2; i-- {
		f := o.facts[i]
		if f.op == "or" && len(f.args) > 1 && len(f.args) <= 24 {
			ors = append(ors, f)
		}
	}
	if len(ors) == 0 {
		n := 0
		return v.splitImp(o, o.facts, o.goal, secs, mu, &n)
	}
	if len(ors) == 2 && len(ors[0].args)*len(ors[1].args) > 36 {
		ors = ors[:1]
	}
	cases := [][]*Term{nil}
	for _, f := range ors {
		var next [][]*Term
		for _, c := range cases {
			for _, d := range f.args {
				next = append(next, append(append([]*Term{}, c...), d))
			}
		}
		cases = next
	}
	if os.Getenv("GOCVDBG") != "" {
		fmt.Fprintf(os.Stderr, "split %s_%d into %d\n", o.name(), o.seq, len(cases))
	}
	var last answer
	for _, c := range cases {
		sub := *o
		sub.facts = append(append([]*Term{}, o.facts...), c...)
		mu.Lock()
		cst := &State{rng: map[*Term][2]*big.Int{}}
		for _, f := range c {
			cst.addFact(f, false)
		}
		memo := map[*Term]*Term{}
		for i, f := range o.facts {
			sub.facts[i] = cst.pickIte(f, memo)
		}
		sub.goal = cst.pickIte(o.goal, memo)
		text, plain := v.smt(&sub, 0), v.smt(&sub, 0, true)
		mu.Unlock()
		last = raceOf(secs, entry{text, "z3-new-r0"}, entry{plain, "z3-new"}, entry{plain, "z3-new-r0"})
		if last.res != "unsat" {
			if os.Getenv("GOCVDBG") != "" {
				fmt.Fprintf(os.Stderr, "split %s_%d fails\n", o.name(), o.seq)
			}
			return last, false
		}
	}
	last.solver += "-split"
	return last, true
}

// splitImp splits on the conditions under which checks of branches that were
// joined into one path apply.
func (v *Verifier) splitImp(o *Obl, facts []*Term, goal *Term, secs int, mu *sync.Mutex, leaves *int) (answer, bool) {
	var cond *Term
	mu.Lock()
	for _, f := range facts {
		if f.op != "imp" {
			continue
		}
		c := f.args[0]
		for c.op == "and" || c.op == "not" {
			c = c.args[0]
		}
		if (c.op == "eq" || c.op == "le" || c.op == "lt") && c.args[0].sort == "Int" {
			cond = c
			break
		}
	}
	mu.Unlock()
	if goal == tTrue {
		return answer{res: "unsat", solver: "split"}, true
	}
	if cond == nil || *leaves > 40 {
		if *leaves++; *leaves > 40 {
			return answer{res: "unknown"}, false
		}
		sub := *o
		sub.facts, sub.goal = facts, goal
		mu.Lock()
		text, plain := v.smt(&sub, 0), v.smt(&sub, 0, true)
		mu.Unlock()
		a := raceOf(secs, entry{text, "z3-new-r0"}, entry{plain, "z3-new"}, entry{plain, "z3-new-r0"})
		if os.Getenv("GOCVDBG") != "" {
			fmt.Fprintf(os.Stderr, "split %s_%d leaf %d: %s\n", o.name(), o.seq, *leaves, a.res)
		}
		a.solver += "-split"
		return a, a.res == "unsat"
	}
	var last answer
	for _, val := range []bool{true, false} {
		mu.Lock()
		lit := cond
		if !val {
			lit = mkNot(cond)
		}
		m := map[*Term]*Term{cond: mkBool(val), mkNot(cond): mkBool(!val)}
		memo := map[*Term]*Term{}
		var fs []*Term
		dead := false
		for _, f := range facts {
			g := substTerm(f, m, memo)
			if g == tFalse {
				dead = true
			}
			if g != tTrue {
				fs = append(fs, g)
			}
		}
		fs = append(fs, lit)
		g := substTerm(goal, m, memo)
		mu.Unlock()
		if dead {
			continue
		}
		a, ok := v.splitImp(o, fs, g, secs, mu, leaves)
		if !ok {
			return a, false
		}
		last = a
	}
	if last.res == "" {
		last = answer{res: "unsat", solver: "split"}
	}
	return last, true
}
