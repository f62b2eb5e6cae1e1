package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", defaultContracts(), "contracts directory")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.StringVar(&dumpDir, "dump", "", "dump failing queries here")
	only := flag.String("only", "", "verify only units whose name contains this")
	flag.BoolVar(&debugEval, "eval", false, "show invariant evaluation errors")
	noRobust := flag.Bool("norobust", false, "skip the second attempt")
	limit := flag.Int("limit", 700, "seconds")
	flag.BoolVar(&smoke, "smoke", false, "report the places no input reaches under the contracts")
	flag.IntVar(&tmoSolo, "solo", tmoSolo, "portfolio timeout ms")
	flag.Parse()
	args := flag.Args()
	if len(args) < 1 {
		fatal("usage: gvc check|dev|list ...")
	}
	deadline = time.Now().Add(time.Duration(*limit) * time.Second)
	db := loadSpecs(*dir)
	switch args[0] {
	case "keys":
		w := loadWorld(*repo)
		var ks []string
		for k := range w.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
	case "ssa":
		w := loadWorld(*repo)
		w.funcs[args[1]].WriteTo(os.Stdout)
	case "dev": // dev [Cxx|-] : verify and print
		w := loadWorld(*repo)
		var p *Property
		if len(args) > 1 && args[1] != "-" {
			p = db.Props[args[1]]
			if p == nil {
				fatal("no property %s", args[1])
			}
		}
		rs := verifyAll(w, db, p, *only, !*noRobust)
		report(rs)
	case "drv": // the concrete driver alone
		d := runDriver(*repo, filepath.Dir(*dir), args[1], "quick", "1", 10*time.Second)
		fmt.Printf("%s: %d evaluations %d distinct %s %.1fs\n", args[1], d.Evaluations, d.Distinct, d.Err, d.Sec)
		for _, v := range d.Violations {
			fmt.Printf("  %s: %s: %s\n", v.Class, v.Input, tail(v.Detail, 400))
		}
		if d.Err != "" {
			fmt.Println(tail(d.Log, 3000))
		}
	case "check":
		os.Exit(check(*repo, db, args[1]))
	default:
		fatal("unknown command %s", args[0])
	}
}

// every unit the property depends on
func verifyAll(w *World, db *SpecDB, p *Property, only string, robust bool) []*UnitResult {
	var mu sync.Mutex
	seen := map[UnitID]bool{}
	var res []*UnitResult
	var wg sync.WaitGroup
	var add func(id UnitID)
	unitSem := make(chan struct{}, 8)
	add = func(id UnitID) {
		mu.Lock()
		defer mu.Unlock()
		if seen[id] {
			return
		}
		seen[id] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			unitSem <- struct{}{}
			r := &UnitResult{ID: id}
			vc, err := buildLocked(w, db, id, p, false)
			if err != nil {
				r.Err = err.Error()
			} else {
				r.VC = vc
			}
			<-unitSem
			if vc != nil && err == nil {
				for k := range vc.usedContracts {
					addKey(w, db, k, add)
				}
				for l := range vc.lemmas {
					if l != vc.curLemma && !db.Lemmas[l].Axiom {
						add(UnitID{Kind: "lemma", Key: l})
					}
				}
				if only == "" || strings.Contains(id.String(), only) {
					solveUnit(w, db, id, p, r, robust)
				} else {
					vc.obls = nil
				}
			}
			mu.Lock()
			res = append(res, r)
			mu.Unlock()
		}()
	}
	if p != nil {
		for _, f := range p.Funcs {
			addKey(w, db, f, add)
		}
		for _, l := range p.Lemmas {
			add(UnitID{Kind: "lemma", Key: l})
		}
	} else {
		for k, c := range db.Contracts {
			if c.Kind != "extern" {
				addKey(w, db, k, add)
			}
		}
		for l := range db.Lemmas {
			if !db.Lemmas[l].Axiom {
				add(UnitID{Kind: "lemma", Key: l})
			}
		}
	}
	wg.Wait()
	sort.Slice(res, func(i, j int) bool { return res[i].ID.String() < res[j].ID.String() })
	return res
}

var buildMu sync.Mutex

func buildLocked(w *World, db *SpecDB, id UnitID, p *Property, robust bool) (*VC, error) {
	buildMu.Lock() // go/types and the SSA method tables are shared
	defer buildMu.Unlock()
	return buildUnit(w, db, id, p, robust)
}

func addKey(w *World, db *SpecDB, k string, add func(UnitID)) {
	c := db.Contracts[k]
	if c == nil {
		add(UnitID{Kind: "func", Key: k}) // reported as missing
		return
	}
	switch c.Kind {
	case "func":
		if !c.Inline {
			add(UnitID{Kind: "func", Key: k})
		}
	case "iface":
		for _, t := range w.impls {
			if w.method(t, lastName(k)) != nil {
				skip := false
				for _, cl := range c.Clauses {
					if cl.Kind == "except" && contains(cl.Names, typeName(t)) {
						skip = true
					}
				}
				if !skip {
					add(UnitID{Kind: "iface", Key: k, Impl: typeName(t)})
				}
			}
		}
	}
}

func (r *UnitResult) failed() []*Obl {
	var f []*Obl
	for _, o := range r.Obls {
		if o.Status != "unsat" {
			f = append(f, o)
		}
	}
	return f
}

func (r *UnitResult) collect() {
	r.Obls = nil
	r.Kept = 0
	for _, o := range r.VC.obls {
		if o.Cand < 0 {
			r.Obls = append(r.Obls, o)
		} else if !r.VC.cands[o.Cand].Measure && r.VC.cands[o.Cand].Alive && o.Status == "unsat" {
			r.Obls = append(r.Obls, o)
			r.Kept++
		}
	}
}

func solveUnit(w *World, db *SpecDB, id UnitID, p *Property, r *UnitResult, robust bool) {
	vc := r.VC
	t0 := time.Now()
	r.Dropped = vc.discharge()
	vc.finish()
	r.collect()
	if len(r.failed()) > 0 && robust && id.Kind != "lemma" && time.Now().Before(deadline) {
		vc2, err := buildLocked(w, db, id, p, true)
		if err == nil && (len(vc2.cands) != len(vc.cands) || len(vc2.usedContracts) != len(vc.usedContracts)) {
			r2 := &UnitResult{ID: id, VC: vc2, Robust: true}
			r2.Dropped = vc2.discharge()
			vc2.finish()
			r2.collect()
			if len(r2.failed()) == 0 {
				*r = *r2
				vc = vc2
			}
		}
	}
	if len(r.failed()) == 0 {
		r.Covers = vc.vacuous()
		if smoke {
			vc.smokeTest()
		}
		if r.Covers != "" {
			r.Obls = append(r.Obls, &Obl{Name: id.String() + "/cover", Kind: "cover", Status: "vacuous", Out: r.Covers})
		}
	}
	if vc.solverErr != "" {
		r.Obls = append(r.Obls, &Obl{Name: id.String() + "/solver-error", Kind: "error", Status: "error", Out: vc.solverErr})
	}
	r.SolverTime = time.Since(t0).Seconds()
}

// a second, unhurried attempt at the units that failed, one after another: a
// solver that ran out of time on a busy machine is no answer
func retry(w *World, db *SpecDB, p *Property, rs []*UnitResult) {
	oi, os, oa, ou := tmoInc, tmoSolo, tmoAuto, tmoUser
	defer func() { tmoInc, tmoSolo, tmoAuto, tmoUser = oi, os, oa, ou }()
	tmoInc, tmoSolo, tmoAuto, tmoUser = 2*oi, 2*os, 3*oa, 3*ou
	n := 0
	for _, r := range rs {
		if r.Err != "" || r.VC == nil || len(r.failed()) == 0 {
			continue
		}
		if n++; n > 4 || time.Now().After(deadline.Add(-150*time.Second)) {
			return
		}
		vc, err := buildLocked(w, db, r.ID, p, false)
		if err != nil {
			continue
		}
		r2 := &UnitResult{ID: r.ID, VC: vc, Retried: true}
		solveUnit(w, db, r.ID, p, r2, true)
		if len(r2.failed()) == 0 {
			*r = *r2
		} else {
			return
		}
	}
}

func report(rs []*UnitResult) {
	tot, bad := 0, 0
	for _, r := range rs {
		if r.Err != "" {
			fmt.Printf("ERROR %s: %s\n", r.ID, r.Err)
			bad++
			continue
		}
		f := r.failed()
		tot += len(r.Obls)
		bad += len(f)
		if len(r.Obls) == 0 {
			continue
		}
		s := "ok  "
		if len(f) > 0 {
			s = "FAIL"
		}
		rb := ""
		if r.Robust {
			rb = " (robust)"
		}
		fmt.Printf("%s %-50s obls=%d inv=%d %.1fs%s\n", s, r.ID, len(r.Obls), r.Kept, r.SolverTime, rb)
		for _, o := range f {
			fmt.Printf("      %s [%s] %s %.1fs %s\n", o.Name, o.Pos, o.Status, o.Time, strings.TrimSpace(o.Why+" "+firstLine(o.Out)))
		}
		if len(f) > 0 || verbose {
			for _, d := range r.Dropped {
				fmt.Printf("      dropped %s\n", d)
			}
			for k := range r.VC.noContract {
				fmt.Printf("      no contract: %s\n", k)
			}
		}
		if verbose {
			for _, o := range r.Obls {
				if o.Time > 1 {
					fmt.Printf("      slow %s %.1fs\n", o.Name, o.Time)
				}
			}
		}
	}
	fmt.Printf("total %d obligations, %d failing\n", tot, bad)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func defaultContracts() string {
	if d := os.Getenv("GVC_VERIF"); d != "" {
		return d + "/contracts"
	}
	return "/verif/contracts"
}
