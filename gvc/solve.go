package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

var (
	deadline  time.Time
	hardStop  time.Time // no solver runs beyond it: the check has to answer
	sem       = make(chan struct{}, 8)
	verbose   bool
	tmoInc    = 8000  // ms, incremental pass
	tmoSolo   = 45000 // ms, portfolio
	tmoAuto   = 1500
	tmoUser   = 6000
	solverSec struct {
		sync.Mutex
		t map[string]float64
	}
	dumpDir string
)

func addTime(s string, d float64) {
	solverSec.Lock()
	if solverSec.t == nil {
		solverSec.t = map[string]float64{}
	}
	solverSec.t[s] += d
	solverSec.Unlock()
}

const z3head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :model.compact false)\n"

func (vc *VC) declComps() string {
	var b strings.Builder
	b.WriteString("(declare-const next!0 Int)\n")
	for _, k := range vc.compOrd {
		fmt.Fprintf(&b, "(declare-const %s!0 %s)\n", sanitize(k), vc.comps[k])
	}
	return b.String()
}

func (vc *VC) head() string {
	if vc.headTxt == "" {
		vc.headTxt = vc.preamble()
		i := strings.Index(vc.headTxt, ";;GLOBALS")
		_ = i
		vc.headTxt = strings.Replace(vc.headTxt, ";;COMPS\n", vc.declComps(), 1)
	}
	return vc.headTxt
}

func (vc *VC) actLines() string {
	var b strings.Builder
	for _, c := range vc.cands {
		if c.Alive && !c.Measure {
			fmt.Fprintf(&b, "(assert %s)\n", c.Name)
		} else {
			fmt.Fprintf(&b, "(assert (not %s))\n", c.Name)
		}
	}
	return b.String()
}

type query struct {
	at    int
	guard string
	goal  string
	tmo   int
	done  func(res string, sec float64)
}

func actDeclIdx(items []string) {}

// run a list of queries (ordered by position) in one incremental z3 process
func (vc *VC) runInc(qs []*query, budget time.Duration) {
	n := (len(qs) + 5) / 6
	if n > 6 {
		n = 6
	}
	if n <= 1 {
		vc.runChunk(qs, budget)
		return
	}
	var mu sync.Mutex
	for _, q := range qs {
		f := q.done
		q.done = func(r string, d float64) {
			mu.Lock()
			defer mu.Unlock()
			f(r, d)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		part := qs[i*len(qs)/n : (i+1)*len(qs)/n]
		wg.Add(1)
		go func() {
			defer wg.Done()
			vc.runChunk(part, budget)
		}()
	}
	wg.Wait()
}

func (vc *VC) runChunk(qs []*query, budget time.Duration) {
	if len(qs) == 0 {
		return
	}
	var b bytes.Buffer
	b.WriteString(z3head)
	b.WriteString(vc.head())
	pos := 0
	acted := false
	for i, q := range qs {
		for pos < q.at {
			b.WriteString(vc.items[pos])
			b.WriteByte('\n')
			if strings.HasPrefix(vc.items[pos], "(declare-const act!c") {
				n := strings.Fields(vc.items[pos])[1]
				var id int
				fmt.Sscanf(n, "act!c%d", &id)
				if vc.cands[id].Alive && !vc.cands[id].Measure {
					fmt.Fprintf(&b, "(assert %s)\n", n)
				} else {
					fmt.Fprintf(&b, "(assert (not %s))\n", n)
				}
			}
			pos++
		}
		_ = acted
		fmt.Fprintf(&b, "(push)\n(set-option :timeout %d)\n", q.tmo)
		if q.guard != "true" {
			fmt.Fprintf(&b, "(assert %s)\n", q.guard)
		}
		b.WriteString(vc.negGoal(q.goal))
		fmt.Fprintf(&b, "(echo \"#%d\")\n(check-sat)\n(echo \"#end\")\n(pop)\n", i)
	}
	sem <- struct{}{}
	defer func() { <-sem }()
	if stopped() {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	if !hardStop.IsZero() {
		ctx, cancel = context.WithDeadline(ctx, hardStop)
	}
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-smt2", "-memory:4000")
	cmd.Stdin = &b
	pr, _ := cmd.StdoutPipe()
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		fatal("cannot run z3-new: %v", err)
	}
	cur := -1
	last := time.Now()
	buf := make([]byte, 65536)
	acc := ""
	for {
		n, err := pr.Read(buf)
		acc += string(buf[:n])
		for {
			j := strings.IndexByte(acc, '\n')
			if j < 0 {
				break
			}
			ln := strings.TrimSpace(acc[:j])
			acc = acc[j+1:]
			switch {
			case ln == "#end":
				cur = -1
			case strings.HasPrefix(ln, "#"):
				fmt.Sscanf(ln, "#%d", &cur)
				last = time.Now()
			case strings.HasPrefix(ln, "(error"):
				if strings.Contains(ln, "canceled") || strings.Contains(ln, "timeout") || strings.Contains(ln, "memory") {
					break
				}
				if vc.solverErr == "" {
					fmt.Fprintf(os.Stderr, "gvc: %s: solver error: %s\n", vc.unit, ln)
				}
				vc.solverErr = ln
			case cur >= 0 && (ln == "sat" || ln == "unsat" || ln == "unknown" || ln == "timeout"):
				d := time.Since(last).Seconds()
				qs[cur].done(ln, d)
				qs[cur].done = func(string, float64) {}
			}
		}
		if err != nil {
			break
		}
	}
	cmd.Wait()
	addTime("z3-new 5.3.2", time.Since(t0).Seconds())
}

// text of a stand-alone query
func (vc *VC) soloText(o *Obl, head string) string {
	var b strings.Builder
	b.WriteString(head)
	b.WriteString(vc.head())
	for i := 0; i < o.At; i++ {
		b.WriteString(vc.items[i])
		b.WriteByte('\n')
	}
	for _, c := range vc.cands {
		d := "(declare-const " + c.Name + " Bool)"
		if !strings.Contains(b.String(), d) {
			continue
		}
		if c.Alive && !c.Measure {
			fmt.Fprintf(&b, "(assert %s)\n", c.Name)
		} else {
			fmt.Fprintf(&b, "(assert (not %s))\n", c.Name)
		}
	}
	if o.Guard != "true" {
		fmt.Fprintf(&b, "(assert %s)\n", o.Guard)
	}
	b.WriteString(vc.negGoal(o.Goal))
	b.WriteString("(check-sat)\n")
	return b.String()
}

// the sorts of the terms that quantifiers in contracts are triggered by
func (vc *VC) noteTrig(v SV) {
	if vc.trigSort == nil {
		vc.trigSort = map[string]string{}
	}
	vc.trigSort[parseSexps(v.T)[0].String()] = v.Sort
}

// the negation of a goal: its leading universal quantifiers become constants,
// and the terms of their triggers are made available for matching
func (vc *VC) negGoal(goal string) string {
	if !strings.Contains(goal, "(forall (") {
		return "(assert (not " + goal + "))\n"
	}
	var b strings.Builder
	g := parseSexps(goal)[0]
	decl := map[string]bool{}
	for {
		if len(g.L) >= 3 && g.L[0].A == "=>" {
			for _, h := range g.L[1 : len(g.L)-1] {
				fmt.Fprintf(&b, "(assert %s)\n", h)
			}
			g = g.L[len(g.L)-1]
			continue
		}
		if len(g.L) == 3 && g.L[0].A == "forall" {
			for _, v := range g.L[1].L {
				fmt.Fprintf(&b, "(declare-const %s %s)\n", v.L[0], v.L[1])
			}
			g = g.L[2]
			if len(g.L) > 2 && g.L[0].A == "!" {
				for i := 2; i+1 < len(g.L); i += 2 {
					if g.L[i].A != ":pattern" {
						continue
					}
					for _, t := range g.L[i+1].L {
						s, ok := vc.trigSort[t.String()]
						if !ok || s == "" {
							continue
						}
						if s == "Ref" {
							s = "Int"
						}
						f := "gm!" + sanitize(strings.NewReplacer("(", "_", ")", "_", " ", "_").Replace(s))
						if !decl[f] {
							decl[f] = true
							fmt.Fprintf(&b, "(declare-fun %s (%s) Bool)\n", f, s)
						}
						fmt.Fprintf(&b, "(assert (%s %s))\n", f, t)
					}
				}
				g = g.L[1]
			}
			continue
		}
		break
	}
	fmt.Fprintf(&b, "(assert (not %s))\n", g)
	return b.String()
}

func stopped() bool {
	return !hardStop.IsZero() && time.Now().After(hardStop)
}

func runSolver(ctx context.Context, name string, args []string, text string) (string, string, float64) {
	t0 := time.Now()
	if stopped() {
		return "unknown", "the time of the check is used up", 0
	}
	if !hardStop.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, hardStop)
		defer cancel()
	}
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	d := time.Since(t0).Seconds()
	for _, ln := range strings.Split(out.String(), "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat", "sat", "unknown", "timeout":
			return strings.TrimSpace(ln), out.String(), d
		}
	}
	return "unknown", out.String(), d
}

// portfolio on one obligation
func (vc *VC) solo(o *Obl) {
	if time.Now().After(deadline) {
		if o.Status == "" {
			o.Status = "timeout"
		}
		o.Out += " (time budget of the check used up)"
		return
	}
	tmo := tmoSolo
	type job struct {
		name, label, head string
		args              []string
	}
	jobs := []job{
		{"z3-new", "z3-new 5.3.2", z3head, []string{"-in", "-smt2", fmt.Sprintf("-t:%d", tmo), "-memory:4000"}},
		{"z3-new", "z3-new 5.3.2", strings.Replace(z3head, "case_split 3", "case_split 1", 1) + "(set-option :smt.arith.solver 2)\n", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", tmo), "-memory:4000"}},
		{"z3-new", "z3-new 5.3.2", strings.Replace(z3head, "(set-option :smt.case_split 3)\n", "(set-option :smt.random_seed 7)\n(set-option :smt.qi.eager_threshold 50)\n", 1), []string{"-in", "-smt2", fmt.Sprintf("-t:%d", tmo), "-memory:4000"}},
		{"cvc5", "cvc5 1.1.2", "(set-logic ALL)\n", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo), "--no-cegqi", "--enum-inst-interleave=false"}},
		{"z3", "z3 4.8.12", strings.Replace(z3head, "(set-option :model.compact false)\n", "", 1), []string{"-in", "-smt2", fmt.Sprintf("-t:%d", tmo), "-memory:4000"}},
	}
	jobs[3].args = []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo)}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(tmo+5000)*time.Millisecond)
	defer cancel()
	type res struct {
		r, out, label string
		d             float64
	}
	ch := make(chan res, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- res{"cancelled", "", j.label, 0}
				return
			}
			r, out, d := runSolver(ctx, j.name, j.args, vc.soloText(o, j.head))
			addTime(j.label, d)
			ch <- res{r, out, j.label, d}
		}()
	}
	outs := ""
	st := ""
	for range jobs {
		r := <-ch
		o.Time += r.d
		if r.r == "unsat" {
			o.Status = "unsat"
			o.Solver = r.label
			o.Out = ""
			cancel()
			return
		}
		if r.r == "sat" && st == "" {
			st = "sat"
		}
		if len(r.out) > 400 {
			r.out = r.out[:400]
		}
		outs += fmt.Sprintf("[%s: %s %.1fs] %s\n", r.label, r.r, r.d, strings.TrimSpace(r.out))
	}
	if st == "" {
		st = "unknown"
	}
	o.Status = st
	o.Out = outs
}

func (vc *VC) houdini() (dropped []string) {
	for round := 0; round < 40; round++ {
		if round == 39 || time.Now().After(deadline) {
			for _, c := range vc.cands { // not a fixed point: nothing may be assumed
				c.Alive = false
			}
			vc.solverErr = "invariant inference did not reach a fixed point within its budget"
			return
		}
		// group the obligations of live candidates by position
		type grp struct {
			at    int
			guard string
			os    []*Obl
		}
		var gs []*grp
		idx := map[string]*grp{}
		for _, o := range vc.obls {
			if o.Cand < 0 || !vc.cands[o.Cand].Alive || vc.cands[o.Cand].Measure {
				continue
			}
			if o.Goal == "true" {
				o.Status = "unsat"
				o.Solver = "simplifier"
				continue
			}
			k := fmt.Sprint(o.At, "|", o.Guard)
			if round == 0 {
				k += "|" + o.Name + fmt.Sprint("|", o.Cand)
			}
			if idx[k] == nil {
				idx[k] = &grp{at: o.At, guard: o.Guard}
				gs = append(gs, idx[k])
			}
			idx[k].os = append(idx[k].os, o)
		}
		if len(gs) == 0 {
			return
		}
		// entry obligations have increasing positions although nothing but
		// other candidates' declarations lies between: merge by guard
		var merged []*grp
		for _, g := range gs {
			if n := len(merged); round > 0 && n > 0 && merged[n-1].guard == g.guard && g.at-merged[n-1].at <= 2*len(merged[n-1].os)+4 && onlyDecls(vc.items[merged[n-1].at:g.at]) {
				merged[n-1].os = append(merged[n-1].os, g.os...)
				merged[n-1].at = g.at
				continue
			}
			merged = append(merged, g)
		}
		gs = merged
		var qs []*query
		var failed []*grp
		for _, g := range gs {
			g := g
			var goals []string
			t := tmoAuto
			for _, o := range g.os {
				goals = append(goals, o.Goal)
				if vc.cands[o.Cand].User && !(vc.cands[o.Cand].Meta && o.Kind == "invariant-entry") {
					t = tmoUser
				}
			}
			ok := false
			qs = append(qs, &query{at: g.at, guard: g.guard, goal: and(goals...), tmo: t, done: func(r string, d float64) {
				ok = true
				if r == "unsat" {
					for _, o := range g.os {
						o.Status, o.Solver = "unsat", "z3-new 5.3.2"
						o.Time = d / float64(len(g.os))
					}
				} else {
					failed = append(failed, g)
				}
			}})
			_ = ok
		}
		answered := map[*grp]bool{}
		vc.runInc(qs, 240*time.Second)
		_ = answered
		done := map[*grp]bool{}
		for _, g := range failed {
			done[g] = true
		}
		for _, g := range gs {
			if !done[g] && g.os[0].Status != "unsat" {
				failed = append(failed, g)
			}
		}
		if len(failed) == 0 {
			return
		}
		qs = nil
		killed := 0
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, g := range failed {
			var gq []*query
			for _, o := range g.os {
				o := o
				t := tmoAuto
				if vc.cands[o.Cand].User && !(vc.cands[o.Cand].Meta && o.Kind == "invariant-entry") {
					t = tmoUser
				}
				o.Status = ""
				gq = append(gq, &query{at: g.at, guard: o.Guard, goal: o.Goal, tmo: t, done: func(r string, d float64) {
					o.Status = r
					o.Solver = "z3-new 5.3.2"
					o.Time = d
				}})
			}
			os := g.os
			wg.Add(1)
			go func() {
				defer wg.Done()
				vc.runInc(gq, 240*time.Second)
				// user candidates with an unknown result get a second chance alone
				for _, o := range os {
					if o.Status != "unsat" && o.Status != "sat" && vc.cands[o.Cand].User && vc.cands[o.Cand].Alive && time.Now().Before(deadline) && !(vc.cands[o.Cand].Meta && o.Kind == "invariant-entry") {
						r, _, d := runSolver(context.Background(), "z3-new", []string{"-in", "-smt2", fmt.Sprintf("-t:%d", 2*tmoUser)}, vc.soloText(o, z3head))
						if r == "unsat" {
							o.Status, o.Time = r, d
						}
					}
				}
				mu.Lock()
				defer mu.Unlock()
				for _, o := range os {
					if o.Status != "unsat" && vc.cands[o.Cand].Alive {
						vc.cands[o.Cand].Alive = false
						killed++
						if vc.cands[o.Cand].User || verbose {
							dropped = append(dropped, vc.cands[o.Cand].Loop+": "+vc.cands[o.Cand].Desc+" ("+o.Kind+" "+o.Status+")")
						}
						if dumpDir != "" && vc.cands[o.Cand].User {
							os_ := *o
							vc.dump(&os_)
						}
					}
				}
			}()
		}
		wg.Wait()
		if killed == 0 {
			return
		}
	}
	return
}

func onlyDecls(xs []string) bool {
	for _, x := range xs {
		if !strings.HasPrefix(x, "(declare-const act!c") {
			return false
		}
	}
	return true
}

func (vc *VC) dump(o *Obl) {
	os.MkdirAll(dumpDir, 0755)
	f := dumpDir + "/" + sanitize(strings.ReplaceAll(o.Name, " ", "_")) + ".smt2"
	if len(f) > 200 {
		f = f[:200] + ".smt2"
	}
	os.WriteFile(f, []byte(vc.soloText(o, z3head)), 0644)
}

// discharge every obligation of the unit
func (vc *VC) discharge() (dropped []string) {
	buildMu.Lock() // the signatures of the theories are computed and kept on demand
	vc.head()
	buildMu.Unlock()
	dropped = vc.houdini()
	// measures
	var qs []*query
	for _, o := range vc.obls {
		if o.Cand >= 0 && vc.cands[o.Cand].Measure {
			o := o
			qs = append(qs, &query{at: o.At, guard: o.Guard, goal: o.Goal, tmo: tmoAuto * 2, done: func(r string, d float64) {
				o.Status, o.Solver, o.Time = r, "z3-new 5.3.2", d
				if r != "unsat" {
					vc.cands[o.Cand].Alive = false
				}
			}})
		}
	}
	vc.runInc(qs, 120*time.Second)
	qs = nil
	for _, o := range vc.obls {
		o := o
		if o.Cand >= 0 {
			continue
		}
		if o.Kind == "termination" {
			o.Status = "unknown"
			for _, c := range o.Meas {
				ok := len(c.Obls) > 0 || true
				for _, x := range c.Obls {
					if x.Status != "unsat" {
						ok = false
					}
				}
				if ok {
					o.Status = "unsat"
					o.Solver = "z3-new 5.3.2"
					o.Out = c.Desc
					break
				}
			}
			if o.Status != "unsat" {
				o.Out = "no measure found that every iteration decreases"
			}
			continue
		}
		if o.Status == "unsat" || o.Why != "" && o.Guard == "true" {
			continue
		}
		qs = append(qs, &query{at: o.At, guard: o.Guard, goal: o.Goal, tmo: tmoInc, done: func(r string, d float64) {
			o.Status, o.Solver, o.Time = r, "z3-new 5.3.2", d
		}})
	}
	vc.runInc(qs, 400*time.Second)
	return
}

// second stage for what the incremental pass left open
func (vc *VC) finish() {
	var wg sync.WaitGroup
	n := 0
	for _, o := range vc.obls {
		if o.Cand >= 0 || o.Status == "unsat" || o.Kind == "termination" || o.Why != "" && o.Guard == "true" {
			continue
		}
		n++
		if n > 6 { // the unit has failed already: do not spend the budget on the rest
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			vc.solo(o)
			if dumpDir != "" && o.Status != "unsat" {
				vc.dump(o)
			}
		}()
	}
	wg.Wait()
}

// vacuity guard: the entry assumptions and some normal return must not be
// contradictory
func (vc *VC) vacuous() string {
	o := &Obl{At: vc.coverPre, Guard: "true", Goal: "false"}
	r, _, d := runSolver(context.Background(), "z3-new", []string{"-in", "-smt2", "-t:3000"}, vc.soloText(o, z3head))
	addTime("z3-new 5.3.2", d)
	if r == "unsat" {
		return "entry assumptions are contradictory"
	}
	if vc.cover != "" {
		o := &Obl{At: len(vc.items), Guard: vc.cover, Goal: "false"}
		r, _, d := runSolver(context.Background(), "z3-new", []string{"-in", "-smt2", "-t:3000"}, vc.soloText(o, z3head))
		addTime("z3-new 5.3.2", d)
		if r == "unsat" {
			return "no return of the function is reachable under its contract"
		}
	}
	return ""
}

var smoke bool

// for development: the points whose assumptions are contradictory, which is
// either code no input reaches or a contract that says too much
func (vc *VC) smokeTest() {
	last := map[string]*Obl{}
	var order []string
	for _, o := range vc.obls {
		if o.Cand >= 0 {
			continue
		}
		if p := last[o.Guard]; p == nil {
			order = append(order, o.Guard)
			last[o.Guard] = o
		} else if p.At <= o.At {
			last[o.Guard] = o
		}
	}
	for _, g := range order {
		p := last[g]
		o := &Obl{At: p.At, Guard: p.Guard, Goal: "false"}
		r, _, _ := runSolver(context.Background(), "z3-new", []string{"-in", "-smt2", "-t:2000"}, vc.soloText(o, z3head))
		if r == "unsat" {
			fmt.Printf("      unreachable: %s [%s]\n", p.Name, p.Pos)
		}
	}
}
