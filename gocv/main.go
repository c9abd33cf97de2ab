package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var repoDir = "/repo"
var verifDir = "/verif"

const pkgPath = "github.com/KarmaPenny/pdfparser/pdf"

func loadAll(pkg string, specDir, conDir string) (*Verifier, error) {
	all, _ := filepath.Glob(filepath.Join(verifDir, specDir, "*.go"))
	var specs []string
	for _, f := range all {
		if !strings.HasSuffix(f, "_harness.go") {
			specs = append(specs, f)
		}
	}
	sort.Strings(specs)
	cons, _ := filepath.Glob(filepath.Join(verifDir, conDir, "*.spec"))
	sort.Strings(cons)
	p, err := loadProg(repoDir, pkg, specs, nil)
	if err != nil {
		return nil, err
	}
	cs, err := loadContracts(cons)
	if err != nil {
		return nil, err
	}
	for k, c := range cs.m {
		if c.spec || c.trusted {
			continue
		}
		_ = k
	}
	v := newVerifier(p, cs)
	v.loadLocals(filepath.Join(verifDir, conDir, "locals.json"))
	return v, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv fn KEY... | check ID | snapshot")
		os.Exit(2)
	}
	if s := os.Getenv("GOCV_REPO"); s != "" {
		repoDir = s
	}
	if s := os.Getenv("GOCV_VERIF"); s != "" {
		verifDir = s
	}
	switch os.Args[1] {
	case "fn":
		v, err := loadAll(pkgPath, "spec", "contracts")
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		devRun(v, os.Args[2:])
	case "fnmain":
		v, err := loadAll(mainPath, "spec_main", "contracts_main")
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		devRun(v, os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2], os.Getenv("VERIF_TIER")))
	case "version":
		fmt.Println("gocv ready")
	case "snapshot":
		v, err := loadAll(pkgPath, "spec", "contracts")
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		v.saveLocals(filepath.Join(verifDir, "contracts", "locals.json"))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func (v *Verifier) gen(key string) *FuncResult {
	con := v.cs.m[key]
	if con != nil && con.spec {
		if fn := v.p.byKey[key]; fn != nil {
			return v.genSpec(fn)
		}
		return &FuncResult{key: key, undec: "no such specification function"}
	}
	return v.genFunc(key)
}

func devRun(v *Verifier, keys []string) {
	verbose := os.Getenv("V") != ""
	if len(keys) == 0 {
		for _, k := range sortedKeys(v.cs.m) {
			c := v.cs.m[k]
			if !c.trusted && !c.inlineAlways {
				keys = append(keys, k)
			}
		}
	}
	for _, k := range keys {
		r := v.gen(k)
		if r.undec != "" {
			fmt.Printf("%s: UNDECIDED %s\n", k, r.undec)
			continue
		}
		v.solveAll(r.obls, budget{2, 10, 40})
		n, bad := 0, 0
		tot := 0.0
		for _, o := range r.obls {
			tot += o.secs
			if o.secs > 3 {
				fmt.Printf("   slow %s_%d %s %.1fs\n", o.name(), o.seq, o.solver, o.secs)
			}
			if o.status == "proved" || o.status == "ok" {
				n++
			} else {
				bad++
				fmt.Printf("   %s %s%s at %s [%s %s %.1fs]\n", strings.ToUpper(o.status), o.name(), caseStr(o), o.where, o.solver, o.output, o.secs)
				fmt.Printf("      goal: %s\n", o.goal)
				if verbose {
					for _, f := range o.facts {
						fmt.Printf("      fact: %s\n", f)
					}
				}
			}
		}
		fmt.Printf("%s: %d/%d ok (%.1fs)\n", k, n, len(r.obls), tot)
	}
}

func caseStr(o *Obl) string {
	if o.caseID != "" {
		return " {" + o.caseID + "}"
	}
	return ""
}
