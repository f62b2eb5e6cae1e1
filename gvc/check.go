package main

// The registered check of one property: verify every unit the property rests
// on, run the concrete driver where it is needed, write the evidence file.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // "finding" or "fixed"
	Class    string `json:"class"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Input    string `json:"input,omitempty"`
}

type DriverViolation struct {
	Class  string `json:"class"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type DriverOut struct {
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct_nontrivial"`
	Rule        string            `json:"rule"`
	Samples     []string          `json:"samples"`
	Violations  []DriverViolation `json:"violations"`
	Err         string            `json:"-"`
	Log         string            `json:"-"`
	Sec         float64           `json:"-"`
}

func runDriver(repo, verif, prop, tier, seed string, limit time.Duration) *DriverOut {
	t0 := time.Now()
	out := &DriverOut{}
	defer func() { out.Sec = time.Since(t0).Seconds() }()
	src := filepath.Join(verif, "drivers", strings.ToLower(prop)+"_test.go")
	if _, err := os.Stat(src); err != nil {
		out.Err = "no driver"
		return out
	}
	tmp, err := os.MkdirTemp("", "gvc-driver-")
	if err != nil {
		out.Err = err.Error()
		return out
	}
	defer os.RemoveAll(tmp)
	// the repository's own tests are masked out: only the driver is compiled
	rep := map[string]string{
		filepath.Join(repo, "zz_gvc_common_test.go"):                    filepath.Join(verif, "drivers", "common_test.go"),
		filepath.Join(repo, "zz_gvc_"+strings.ToLower(prop)+"_test.go"): src,
	}
	old, _ := filepath.Glob(filepath.Join(repo, "*_test.go"))
	for _, f := range old {
		rep[f] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	res := filepath.Join(tmp, "out.json")
	ctx, cancel := context.WithTimeout(context.Background(), limit+90*time.Second)
	defer cancel()
	raceDrv := false
	if sb, err := os.ReadFile(src); err == nil && strings.Contains(string(sb), "gvc:race") {
		raceDrv = true
	}
	args := []string{"test", "-vet=off"}
	if raceDrv {
		args = append(args, "-race")
	}
	args = append(args, "-count=1", "-overlay", ovf, "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())+60), "-run", "^TestGVC$", ".")
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GVC_OUT="+res, "VERIF_SEED="+seed, "VERIF_TIER="+tier, fmt.Sprintf("GVC_SECONDS=%d", int(limit.Seconds())), "TMPDIR="+tmp, "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOMEMLIMIT=6GiB")
	if raceDrv {
		cmd.Env = append(cmd.Env, "GVC_RACE=1", "GORACE=halt_on_error=0 exitcode=0 history_size=2")
	}
	b, err := cmd.CombinedOutput()
	out.Log = string(b)
	j, rerr := os.ReadFile(res)
	if rerr == nil {
		rerr = json.Unmarshal(j, out)
	}
	if raceDrv {
		log := out.Log
		if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
			in := "unknown case"
			if j := strings.LastIndex(log[:i], "CASE "); j >= 0 {
				in = strings.SplitN(log[j+5:], "\n", 2)[0]
			}
			rep := log[i:]
			if len(rep) > 2500 {
				rep = rep[:2500]
			}
			out.Violations = append(out.Violations, DriverViolation{"race", in, rep})
		}
		if len(out.Log) > 4000 {
			out.Log = out.Log[:2000] + "\n...\n" + out.Log[len(out.Log)-2000:]
		}
	}
	if rerr != nil {
		out.Err = fmt.Sprintf("driver gave no result (%v)", err)
		if ctx.Err() != nil {
			out.Err = "driver timed out"
		} else if cur, err := os.ReadFile(res + ".cur"); err == nil && len(cur) > 2 {
			// the process died: the case under way is in shared memory
			n := int(cur[0])<<8 | int(cur[1])
			if n > 0 && n+2 <= len(cur) {
				log := out.Log
				if len(log) > 1500 {
					log = log[:1500]
				}
				out.Violations = append(out.Violations, DriverViolation{"crash", string(cur[2 : n+2]), log})
			}
		}
	}
	return out
}

func loadKnown(verif string) []Known {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fatal("known-findings.json: %v", err)
	}
	return ks
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func check(repo string, db *SpecDB, id string) int {
	t0 := time.Now()
	verif, _ := os.Getwd()
	if d := os.Getenv("GVC_VERIF"); d != "" {
		verif = d
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seedS := os.Getenv("VERIF_SEED")
	seed, err := strconv.Atoi(seedS)
	if err != nil {
		seed, seedS = 1, "1"
	}
	p := db.Props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	drvTime := 10 * time.Second
	if tier == "thorough" {
		tmoSolo = 120000
		deadline = time.Now().Add(3 * time.Hour)
		drvTime = 300 * time.Second
	} else {
		deadline = time.Now().Add(480 * time.Second)
		hardStop = time.Now().Add(600 * time.Second)
	}
	known := loadKnown(verif)
	freshIn := func(d *DriverOut) bool {
		if d == nil {
			return false
		}
		for _, v := range d.Violations {
			isKnown := false
			for _, k := range known {
				isKnown = isKnown || k.Kind == "finding" && k.Property == id && k.Class == v.Class
			}
			if !isKnown {
				return true
			}
		}
		return false
	}
	hasDriver := false
	if _, err := os.Stat(filepath.Join(verif, "drivers", strings.ToLower(id)+"_test.go")); err == nil {
		hasDriver = true
	}
	var drv *DriverOut
	if hasDriver {
		drv = runDriver(repo, verif, id, tier, seedS, drvTime)
	}
	found := freshIn(drv)
	if found && tier == "quick" {
		// a failing input is at hand: the verifier has to name the obligation
		// that fails, not to try everything that might prove it
		tmoSolo = 5000
		deadline = time.Now().Add(100 * time.Second)
	}
	w := loadWorld(repo)
	rs := verifyAll(w, db, p, "", !found)

	// totals
	var nObl, nOK, inv int
	var backend, kinds map[string]int
	var funcs, lemmas, trusted, theories map[string]bool
	var failed []*Obl
	var failUnit map[*Obl]*UnitResult
	var errs, robust, retried []string
	proofFailed := false
	totals := func() {
		nObl, nOK, inv = 0, 0, 0
		backend, kinds = map[string]int{}, map[string]int{}
		funcs, lemmas, trusted, theories = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
		failed, errs, robust, retried = nil, nil, nil, nil
		failUnit = map[*Obl]*UnitResult{}
		for _, r := range rs {
			if r.Err != "" {
				errs = append(errs, r.ID.String()+": "+r.Err)
				continue
			}
			if r.ID.Kind == "lemma" {
				lemmas[r.ID.Key] = true
			} else {
				funcs[r.ID.String()] = true
			}
			for k := range r.VC.inlined {
				funcs[k+" (inlined)"] = true
			}
			for k := range r.VC.trusted {
				trusted[k] = true
			}
			for k := range r.VC.noContract {
				trusted["no contract: every call to "+k+" may return anything and change anything it can reach"] = true
			}
			for t := range r.VC.theories {
				theories[t] = true
			}
			inv += r.Kept
			if r.Retried {
				retried = append(retried, r.ID.String())
			}
			if r.Robust {
				robust = append(robust, r.ID.String())
			}
			for _, o := range r.Obls {
				nObl++
				kinds[o.Kind]++
				if o.Status == "unsat" {
					nOK++
					backend[o.Solver]++
				} else {
					failed = append(failed, o)
					failUnit[o] = r
				}
			}
		}
		if nObl == 0 && len(errs) == 0 && len(p.Funcs)+len(p.Lemmas) > 0 {
			errs = append(errs, "no obligations were generated")
		}
		proofFailed = len(failed) > 0 || len(errs) > 0
	}
	totals()

	if proofFailed && !found && tier == "quick" {
		drv = runDriver(repo, verif, id, tier, seedS, 30*time.Second)
		found = freshIn(drv)
	}
	if proofFailed && !found && len(errs) == 0 {
		retry(w, db, p, rs)
		totals()
	}
	var newViol []DriverViolation
	knownSeen := map[string]bool{}
	if drv != nil {
		for _, v := range drv.Violations {
			isKnown := false
			for _, k := range known {
				if k.Kind == "finding" && k.Property == id && k.Class == v.Class {
					isKnown = true
					knownSeen[v.Class] = true
				}
			}
			if !isKnown {
				newViol = append(newViol, v)
			}
		}
	}
	for _, k := range known {
		if k.Kind == "finding" && k.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}

	rc := 0
	os.MkdirAll(filepath.Join(verif, "replay"), 0755)
	rp := filepath.Join("replay", id+".txt")
	violations := 0
	if proofFailed || len(newViol) > 0 {
		rc = 1
		violations = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n", id)
		for _, e := range errs {
			fmt.Fprintf(&b, "\nnot verifiable: %s\n", e)
		}
		for _, o := range failed {
			fmt.Fprintf(&b, "\nfailed obligation: %s\n  at %s, unit %s, status %s %s\n", o.Name, o.Pos, failUnit[o].ID, o.Status, o.Why)
			if o.Out != "" {
				fmt.Fprintf(&b, "  verifier output: %s\n", tail(o.Out, 1500))
			}
			for _, d := range failUnit[o].Dropped {
				fmt.Fprintf(&b, "  note: loop invariant no longer holds: %s\n", d)
			}
		}
		suffix := ""
		if len(newViol) > 0 {
			for _, v := range newViol {
				fmt.Fprintf(&b, "\nfailing input (class %s), replayed against the real code:\n  %s\n  %s\n", v.Class, v.Input, v.Detail)
			}
			fmt.Fprintf(&b, "\nrerun: cd /verif && VERIF_SEED=%s ./check.sh %s\n", seedS, id)
		} else {
			suffix = " no-failing-input-found"
			if drv != nil {
				fmt.Fprintf(&b, "\nthe concrete driver found no failing input in %d evaluations %s\n%s\n", drv.Evaluations, drv.Err, tail(drv.Log, 3000))
			}
		}
		os.WriteFile(filepath.Join(verif, rp), []byte(b.String()), 0644)
		for i, o := range failed {
			if i < 8 {
				fmt.Printf("failed: %s [%s] %s %s\n", o.Name, o.Pos, o.Status, o.Why)
			}
		}
		for _, e := range errs {
			fmt.Printf("failed: %s\n", e)
		}
		for i, v := range newViol {
			if i < 5 {
				fmt.Printf("failing input: %s: %s: %s\n", v.Class, tail(v.Input, 300), tail(v.Detail, 300))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rp, suffix)
	} else if drv != nil && drv.Err != "" && (hasDriver || len(p.Bounded) > 0) {
		// the bounded stand-in could not run: no answer for that part
		fmt.Printf("driver: %s\n%s\n", drv.Err, tail(drv.Log, 2000))
		rc = 1
		violations = 1
		os.WriteFile(filepath.Join(verif, rp), []byte("property "+id+"\nbounded stand-in did not complete: "+drv.Err+"\n"+drv.Log), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}

	// evidence
	for _, k := range known {
		if k.Property == id && k.Kind == "finding" {
			trusted["known finding excluded: "+k.What] = true
		}
	}
	level := "proof"
	if p.Level != "" {
		level = p.Level
	}
	cov := map[string]interface{}{
		"obligations":              nObl,
		"discharged":               nOK,
		"checker_cmd":              "./check.sh " + id,
		"trusted_base":             trustedBase(theories, trusted, db),
		"by_backend":               backend,
		"solver_seconds":           solverSec.t,
		"obligation_kinds":         kinds,
		"loop_invariants_used":     inv,
		"functions_under_contract": keysOf(funcs),
		"lemmas":                   keysOf(lemmas),
	}
	if len(robust) > 0 {
		cov["verified_with_internal_helpers_inlined"] = robust
	}
	if len(retried) > 0 {
		cov["verified_on_second_attempt"] = retried
	}
	if len(p.Bounded) > 0 {
		cov["bounded_functions_not_proved"] = p.Bounded
	}
	if drv != nil {
		cov["evaluations"] = drv.Evaluations
		cov["distinct_nontrivial"] = drv.Distinct
		cov["rule"] = drv.Rule
		cov["samples"] = drv.Samples
		cov["driver_seconds"] = drv.Sec
	}
	if level == "other" || level == "exploration" {
		cov["explanation"] = p.Note
	}
	if p.Note != "" {
		cov["note"] = p.Note
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptions(trusted), "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(jb, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d lemmas, %.1fs", id, nObl, nOK, len(funcs), len(lemmas), time.Since(t0).Seconds())
	if drv != nil {
		fmt.Printf("; driver %d evaluations %s", drv.Evaluations, drv.Err)
	}
	fmt.Println()
	return rc
}

func keysOf(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trustedBase(theories, trusted map[string]bool, db *SpecDB) []string {
	tb := []string{
		"gvc: the condition generator in /verif/gvc (Go SSA of golang.org/x/tools to SMT-LIB), its heap and byte-string axioms",
		"golang.org/x/tools/go/ssa and the Go compiler agree on the meaning of the source",
		"soundness of z3 5.3.2, z3 4.8.12 and cvc5 1.1.2",
	}
	for t := range theories {
		if th := db.Theories[t]; th != nil && strings.Contains(th.Raw, "(assert") {
			tb = append(tb, fmt.Sprintf("axioms of theory %q in contracts/%s", t, th.File))
		}
	}
	tb = append(tb, keysOf(trusted)...)
	sort.Strings(tb[3:])
	return tb
}

func assumptions(trusted map[string]bool) []string {
	a := []string{
		"integers are Go's fixed-width integers (wrapped), lengths and capacities are at most 2^48",
		"memory exhaustion and stack exhaustion are outside the model",
		"single-goroutine execution of the functions under contract, package-level variables that no code outside package initialisation assigns keep their initial value",
		"floats are uninterpreted values with IEEE comparison axioms; no rounding is modelled",
	}
	return append(a, keysOf(trusted)...)
}
