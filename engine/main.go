package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessCfg struct {
	Name      string   `json:"name"`
	QuickS    int      `json:"quick_s"`
	ThoroughS int      `json:"thorough_s"`
	Bounds    string   `json:"bounds"`
	Covers    []string `json:"covers"`
	Limit     int64    `json:"limit"`
	Retry     int      `json:"retry"`
	Race      bool     `json:"race"`
}

type checkCfg struct {
	Title       string       `json:"title"`
	Harnesses   []harnessCfg `json:"harnesses"`
	Outside     string       `json:"outside"`
	Assumptions []string     `json:"assumptions"`
}

type job struct {
	H     string  `json:"h"`
	Tier  int     `json:"tier"`
	In    []Input `json:"in"`
	Retry int     `json:"retry"`
}

type jobRes struct {
	Status string      `json:"status"` // ok assert panic assume
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
}

var (
	root   = flag.String("root", "/verif", "verif directory")
	id     = flag.String("id", "", "property")
	tier   = flag.String("tier", "quick", "quick or thorough")
	only   = flag.String("only", "", "run only this harness")
	native = flag.String("native", "", "native harness binary")
	nraces = flag.String("race", "", "native harness binary built with the race detector")
	nwork  = flag.Int("j", 8, "workers")
	budget = flag.Int("budget", 0, "override budget (s)")
	prof   = flag.String("prof", "", "cpu profile")
	verb   = flag.Bool("v", false, "verbose")
	dump   = flag.String("dump", "", "development: also write path models as native jobs to this directory")
	noev   = flag.Bool("noev", false, "no evidence")
)

// runNative runs jobs in the compiled harness. A crash or timeout of the process is attributed to the job when alone.
func runNative(bin string, jobs []job, timeout time.Duration) ([]jobRes, string, error) {
	dir, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "jobs.json")
	b, _ := json.Marshal(jobs)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, "", err
	}
	cmd := exec.Command(bin, in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Dir = dir
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nil, "timeout", nil
	}
	stderr := se.String()
	if strings.Contains(stderr, "WARNING: DATA RACE") {
		return nil, "race: " + stderr, nil
	}
	if err != nil {
		if len(stderr) > 4000 {
			stderr = stderr[:4000]
		}
		return nil, "crash: " + stderr, nil
	}
	var res []jobRes
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "RES ") {
			continue
		}
		var r jobRes
		if err := json.Unmarshal([]byte(l[4:]), &r); err != nil {
			return nil, "", err
		}
		res = append(res, r)
	}
	if len(res) != len(jobs) {
		return nil, "crash: " + fmt.Sprint(len(res), " results of ", len(jobs), " ", stderr), nil
	}
	return res, "", nil
}

// confirm replays a counterexample in the real code.
func confirm(v *Violation, tier int, h *harnessCfg) (bool, string) {
	bin := *native
	if v.Kind == "race" {
		if *nraces == "" {
			return false, "no race binary"
		}
		bin = *nraces
	}
	retry := 1
	for _, in := range v.Inputs {
		if in.Kind == "maporder" {
			retry = 60
		}
	}
	if h.Retry > retry {
		retry = h.Retry
	}
	if v.Kind == "race" {
		retry = 10
	}
	res, bad, err := runNative(bin, []job{{H: v.Harness, Tier: tier, In: v.Inputs, Retry: retry}}, 40*time.Second)
	if err != nil {
		return false, err.Error()
	}
	if v.Kind == "race" {
		if strings.HasPrefix(bad, "race:") {
			return true, "data race confirmed by the race detector"
		}
		if strings.Contains(bad, "concurrent map") {
			return true, "concurrent map access"
		}
		if bad == "" && (res[0].Status == "assert" || res[0].Status == "panic") {
			return true, res[0].Status + ": " + res[0].Msg
		}
		return false, "no race observed: " + bad
	}
	if bad == "timeout" {
		return true, "does not terminate (40 s)"
	}
	if bad != "" {
		l := bad
		if strings.Contains(bad, "stack overflow") || strings.Contains(bad, "stack exceeds") {
			l = "stack overflow"
		} else if len(l) > 300 {
			l = l[:300]
		}
		return true, l
	}
	r := res[0]
	if r.Status == "assert" || r.Status == "panic" {
		return true, r.Status + ": " + r.Msg
	}
	return false, r.Status
}

type hReport struct {
	cfg       harnessCfg
	x         *Explorer
	sh        *SolverShared
	wall      float64
	validated int
	mismatch  []string
	confirmed []*confirmedViol
	unconf    []string
}

type confirmedViol struct {
	v   *Violation
	how string
}

func main() {
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMaxStack(1 << 30)
	debug.SetMemoryLimit(20 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := mainCheck()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func fail(format string, a ...any) int {
	fmt.Printf("CHECK-ERROR: "+format+"\n", a...)
	return 2
}

// quickCap bounds the exploration of one quick check in seconds
const quickCap = 640

func mainCheck() int {
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	if err != nil {
		return fail("%v", err)
	}
	var cfgs map[string]*checkCfg
	if err := json.Unmarshal(b, &cfgs); err != nil {
		return fail("checks.json: %v", err)
	}
	cfg := cfgs[*id]
	if cfg == nil {
		return fail("no check %q", *id)
	}
	known := loadKnown(filepath.Join(*root, "known_findings.txt"), *id)
	P, err := loadProgram(filepath.Join(*root, "harness"), "./h")
	if err != nil {
		return fail("%v", err)
	}
	hp := P.prog.ImportedPackage("yarqlverif/harness/h")
	hp.Build()
	loadS := time.Since(t0).Seconds()
	t := 0
	if *tier == "thorough" {
		t = 1
	}
	var reps []*hReport
	for i := range cfg.Harnesses {
		hc := cfg.Harnesses[i]
		if *only != "" && hc.Name != *only {
			continue
		}
		if t == 0 && *budget == 0 {
			// the whole quick run stays below quickCap seconds, whatever the code under test does
			left := quickCap - int(time.Since(t0).Seconds())
			if left < 8 {
				left = 8
			}
			if hc.QuickS > left {
				hc.QuickS = left
			}
			// a violation is confirmed already and much time is gone: the verdict will not change
			if left < quickCap/2 && anyUnlisted(reps, known) {
				fmt.Printf("stopping after %d of %d harnesses: a violation is confirmed\n", len(reps), len(cfg.Harnesses))
				break
			}
		}
		r, err := runHarness(P, hp, hc, t)
		if err != nil {
			return fail("%v", err)
		}
		reps = append(reps, r)
	}
	viol := 0
	knownSeen := map[string]bool{}
	for _, r := range reps {
		for _, c := range r.confirmed {
			if k := known.match(c.v); k != "" {
				if !knownSeen[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, k)
				}
				knownSeen[k] = true
				continue
			}
			p := writeReplay(c, t, viol)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *id, p)
			fmt.Printf("  harness=%s kind=%s %s\n  at %s\n  native: %s\n", c.v.Harness, c.v.Kind, c.v.Msg, c.v.Stack, c.how)
			viol++
		}
	}
	wall := time.Since(t0).Seconds()
	if !*noev {
		writeEvidence(cfg, reps, t, wall, loadS, viol, known)
	}
	for _, r := range reps {
		x := r.x
		st := &r.sh.stats
		fmt.Printf("%s: paths=%d infeasible=%d forks=%d timedOut=%v unsupported=%d internal=%d unknown=%d queries=%d (sat %d unsat %d) cache=%d domain=%d asserts=%d/%d solver=%.1fs max=%.2fs wall=%.1fs validated=%d mismatch=%d viols=%d confirmed=%d maxsteps=%d setup=%d steps=%d vars=%d xchk=%d/%d audited=%d/%d\n", r.cfg.Name, x.paths, x.infeasible, x.forks, x.timedOut,
			sum(x.unsupported), sum(x.internal), sum(x.unknowns), st.queries, st.sat, st.unsat, st.cacheHits, st.domainHits, st.assertQueries, st.asserts, float64(st.solverNS)/1e9, float64(st.maxQueryNS)/1e9, r.wall, r.validated, len(r.mismatch), len(x.viols), len(r.confirmed), x.maxSteps, x.setupSteps, x.steps, x.maxVars, st.crossDisagree, st.crossChecked, st.auditsDone, st.audits)
		for _, k := range sortedKeys(x.unsupported) {
			fmt.Printf("  unsupported x%d: %s\n", x.unsupported[k], k)
		}
		for _, k := range sortedKeys(x.internal) {
			fmt.Printf("  internal x%d: %s\n", x.internal[k], k)
		}
		for _, k := range sortedKeys(x.unknowns) {
			fmt.Printf("  unknown x%d: %s\n", x.unknowns[k], k)
		}
		for _, k := range r.mismatch {
			fmt.Printf("  mismatch: %s\n", k)
		}
		for _, k := range r.unconf {
			fmt.Printf("  not reproduced natively: %s\n", k)
		}
		for _, c := range r.cfg.Covers {
			if x.covers[c] == 0 {
				fmt.Printf("  NOT COVERED: %s\n", c)
			}
		}
		if *verb {
			for _, k := range sortedKeys(x.covers) {
				fmt.Printf("  cover %s: %d\n", k, x.covers[k])
			}
			for _, k := range sortedKeys(x.partial) {
				fmt.Printf("  partial init %s: %s\n", k, x.partial[k])
			}
		}
	}
	if viol > 0 {
		return 1
	}
	for _, r := range reps {
		if r.x.paths == 0 {
			return fail("harness %s: no path completed (%s)", r.cfg.Name, r.x.setupErr)
		}
	}
	return 0
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func runHarness(P *Program, hp *ssa.Package, hc harnessCfg, t int) (*hReport, error) {
	run := hp.Func("Run_" + hc.Name)
	if run == nil {
		return nil, fmt.Errorf("harness function Run_%s not found", hc.Name)
	}
	setup := hp.Func("Setup_" + hc.Name)
	if setup == nil {
		// shared set-up named by the parameter type: Setup_<rest>
		if run.Signature.Params().Len() == 1 {
			for _, m := range hp.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "Setup_") && f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type().String() == run.Signature.Params().At(0).Type().String() {
					setup = f
				}
			}
			if setup == nil {
				return nil, fmt.Errorf("no set-up for %s", hc.Name)
			}
		}
	}
	start := time.Now()
	sh := newSolverShared(20000)
	sh.second = t == 1
	x := &Explorer{P: P, sh: sh, name: hc.Name, setup: setup, run: run, tier: t, workers: *nwork, limit: hc.Limit, wantSamples: 60}
	if t == 1 {
		x.wantSamples = 300
	}
	if *dump != "" {
		x.wantSamples = 400
	}
	if x.limit == 0 {
		x.limit = 30_000_000
	}
	s := hc.QuickS
	if t == 1 {
		s = hc.ThoroughS
		if s == 0 {
			s = hc.QuickS * 8
		}
	}
	if *budget > 0 {
		s = *budget
	}
	x.stopOn = 12
	x.explore(time.Duration(s) * time.Second)
	r := &hReport{cfg: hc, x: x, sh: sh}
	if *dump != "" {
		var js []job
		for _, s := range x.samples {
			js = append(js, job{H: hc.Name, Tier: t, In: s.Inputs, Retry: 1})
		}
		b, _ := json.Marshal(js)
		os.WriteFile(filepath.Join(*dump, hc.Name+".json"), b, 0o644)
	}
	if *native == "" {
		r.wall = time.Since(start).Seconds()
		for _, k := range sortedKeys(x.viols) {
			fmt.Printf("  candidate %s (%d) at %s in=%v\n", k, len(x.viols[k]), x.viols[k][0].Stack, x.viols[k][0].Inputs)
		}
		return r, nil
	}
	// the set-up itself failing is a finding: replay it
	if x.setupErr != "" {
		v := &Violation{Harness: hc.Name, Kind: "setup", Msg: "set-up failed: " + x.setupErr}
		if ok, how := confirm(v, t, &hc); ok {
			r.confirmed = append(r.confirmed, &confirmedViol{v, how})
		} else {
			r.unconf = append(r.unconf, v.Msg+" ("+how+")")
		}
	}
	// native replay of candidates: the shortest inputs of every message first
	var keys []string
	for k := range x.viols {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	tries := 0
	for _, k := range keys {
		vs := x.viols[k]
		sort.SliceStable(vs, func(i, j int) bool { return len(vs[i].Inputs) < len(vs[j].Inputs) })
		done := false
		last := ""
		for i, v := range vs {
			if i >= 6 || tries > 40 {
				break
			}
			tries++
			ok, how := confirm(v, t, &hc)
			last = how
			if ok {
				r.confirmed = append(r.confirmed, &confirmedViol{v, how})
				done = true
				break
			}
		}
		if !done {
			r.unconf = append(r.unconf, fmt.Sprintf("%s at %s (%s) inputs %s", k, vs[0].Stack, last, inStr(vs[0].Inputs)))
		}
	}
	// paths that left the supported fragment are replayed on their model
	r.validate(x.samples, t, true)
	r.validate(x.unsupSamples, t, false)
	r.wall = time.Since(start).Seconds()
	return r, nil
}

func inStr(in []Input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 60 {
			sb.WriteString("...")
			break
		}
		if x.Kind == "u8" && x.V >= 32 && x.V < 127 {
			fmt.Fprintf(&sb, "%s=%q ", x.Kind, rune(x.V))
		} else {
			fmt.Fprintf(&sb, "%s=%d ", x.Kind, x.V)
		}
	}
	return sb.String()
}

// validate runs path models in the compiled harness and compares what both observed.
func (r *hReport) validate(ss []Sample, t int, strict bool) {
	if len(ss) == 0 {
		return
	}
	jobs := make([]job, len(ss))
	for i, s := range ss {
		jobs[i] = job{H: r.cfg.Name, Tier: t, In: s.Inputs, Retry: 1}
	}
	res, bad, err := runNative(*native, jobs, 120*time.Second)
	if err != nil || (bad != "" && res == nil) {
		// isolate the offender
		for i := range jobs {
			r1, b1, e1 := runNative(*native, jobs[i:i+1], 40*time.Second)
			if e1 != nil {
				r.mismatch = append(r.mismatch, "native: "+e1.Error())
				return
			}
			if b1 != "" && r1 == nil {
				v := &Violation{Harness: r.cfg.Name, Kind: "native", Msg: "the real code crashes on a path model", Inputs: ss[i].Inputs}
				r.confirmed = append(r.confirmed, &confirmedViol{v, firstLine(b1)})
				return
			}
		}
		r.mismatch = append(r.mismatch, fmt.Sprint("native batch failed: ", err, firstLine(bad)))
		return
	}
	for i, nr := range res {
		switch nr.Status {
		case "ok":
			if !strict {
				continue
			}
			hasOrder := false
			for _, in := range ss[i].Inputs {
				hasOrder = hasOrder || in.Kind == "maporder"
			}
			if !hasOrder && !sameObs(nr.Obs, ss[i].Obs) {
				r.mismatch = append(r.mismatch, fmt.Sprintf("observations differ: native %v engine %v inputs %s", obsStr(nr.Obs), obsStr(ss[i].Obs), inStr(ss[i].Inputs)))
				continue
			}
			r.validated++
		case "assert", "panic":
			v := &Violation{Harness: r.cfg.Name, Kind: nr.Status, Msg: nr.Msg, Stack: "native run of a path model", Inputs: ss[i].Inputs}
			dup := false
			for _, c := range r.confirmed {
				if c.v.Msg == v.Msg {
					dup = true
				}
			}
			if !dup {
				r.confirmed = append(r.confirmed, &confirmedViol{v, nr.Status + ": " + nr.Msg})
			}
		default:
			if strict {
				r.mismatch = append(r.mismatch, "native status "+nr.Status+" "+nr.Msg+" inputs "+inStr(ss[i].Inputs))
			}
		}
	}
	if len(r.mismatch) > 20 {
		r.mismatch = r.mismatch[:20]
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func obsStr(o [][2]string) string {
	s := ""
	for _, x := range o {
		s += x[0] + "=" + unhex(x[1]) + ";"
	}
	return s
}

func unhex(h string) string {
	b := make([]byte, len(h)/2)
	for i := range b {
		fmt.Sscanf(h[2*i:2*i+2], "%02x", &b[i])
	}
	return fmt.Sprintf("%q", b)
}

func sameObs(a, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- known findings ----

type knownList struct{ ents [][3]string }

// lines: "finding: property=<id> harness=<h> msg=<assert message> :: <what fails>"
func loadKnown(path, id string) *knownList {
	k := &knownList{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		head, what := rest[:i], rest[i+4:]
		h, msg := "", ""
		if strings.HasPrefix(head, "harness=") {
			j := strings.Index(head, " msg=")
			if j < 0 {
				continue
			}
			h, msg = head[8:j], head[j+5:]
		}
		k.ents = append(k.ents, [3]string{h, msg, what})
	}
	return k
}

func (k *knownList) match(v *Violation) string {
	for _, e := range k.ents {
		if e[0] == v.Harness && e[1] == v.Msg {
			return e[2]
		}
	}
	return ""
}

func writeReplay(c *confirmedViol, t, n int) string {
	dir := filepath.Join(*root, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", *id, c.v.Harness, n))
	retry := 1
	for _, in := range c.v.Inputs {
		if in.Kind == "maporder" {
			retry = 60
		}
	}
	b, _ := json.MarshalIndent([]job{{H: c.v.Harness, Tier: t, In: c.v.Inputs, Retry: retry}}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// ---- evidence ----

func writeEvidence(cfg *checkCfg, reps []*hReport, t int, wall, loadS float64, viol int, known *knownList) {
	var samples []any
	var harn []any
	fnset := map[string]bool{}
	var states, trans, valid int64
	exhaustive := true
	stdFns := 0
	for _, r := range reps {
		x := r.x
		st := &r.sh.stats
		states += x.paths
		trans += x.forks
		valid += int64(r.validated)
		if x.timedOut || len(x.unsupported) > 0 || len(x.unknowns) > 0 || len(x.internal) > 0 {
			exhaustive = false
		}
		for i, s := range x.samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": x.name, "inputs": inStr(s.Inputs), "observed": obsStr(s.Obs)})
		}
		missing := []string{}
		for _, c := range r.cfg.Covers {
			if x.covers[c] == 0 {
				missing = append(missing, c)
			}
		}
		harn = append(harn, map[string]any{
			"harness": r.cfg.Name, "bounds": r.cfg.Bounds, "symbolic_paths": x.paths, "infeasible_paths": x.infeasible, "forks": x.forks,
			"complete_within_bounds": !x.timedOut && len(x.unsupported) == 0 && len(x.unknowns) == 0 && len(x.internal) == 0,
			"stopped_by_time_budget": x.timedOut, "paths_outside_supported_fragment": sum(x.unsupported), "solver_unknown": sum(x.unknowns),
			"instructions_executed": x.steps, "longest_path_instructions": x.maxSteps, "max_symbolic_variables": x.maxVars,
			"smt_queries": st.queries, "smt_sat": st.sat, "smt_unsat": st.unsat, "smt_unknown": st.unknown, "smt_cache_hits": st.cacheHits,
			"byte_domain_decisions": st.domainHits, "byte_domain_refutations_confirmed_by_smt": st.auditsDone, "assertions_reached": st.asserts, "assertions_needing_solver": st.assertQueries,
			"solver_seconds": round2(float64(st.solverNS) / 1e9), "slowest_query_seconds": round2(float64(st.maxQueryNS) / 1e9),
			"cross_checked_with_cvc5": st.crossChecked, "cross_check_disagreements": st.crossDisagree,
			"path_models_replayed_natively": r.validated, "replay_mismatches": r.mismatch, "unreproduced_candidates": r.unconf,
			"reached": x.covers, "not_reached": missing, "wall_s": round2(r.wall), "set_up_error": x.setupErr,
		})
	}
	// functions executed symbolically
	for _, r := range reps[:min(1, len(reps))] {
		r.x.P.fns.Range(func(k, v any) bool {
			fn := v.(*Fn)
			if fn.executed == 0 {
				return true
			}
			if strings.Contains(fn.name, "mjarkk/yarql") {
				fnset[strings.ReplaceAll(fn.name, "github.com/mjarkk/yarql", "yarql")] = true
			} else if !strings.Contains(fn.name, "yarqlverif") {
				stdFns++
			}
			return true
		})
	}
	var fns []string
	for f := range fnset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": seed, "level": "model_checking", "wall_s": round2(wall), "violations": viol,
		"assumptions": append([]string{
			"Go semantics as interpreted by the engine from x/tools/go/ssa (cross-checked by native replay of sampled path models)",
			"single goroutine per request; sync primitives are no-ops; the clock is a counter",
			"reflect, fmt, sort.Slice, json.Marshal, strconv.Format*/Append* and assembly routines are modelled (engine/reflect.go, engine/intrin.go, harness/models)",
		}, cfg.Assumptions...),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples, "exhaustive": exhaustive,
			"explanation":    "states = completed symbolic paths of the real code (each stands for all inputs satisfying its path condition); transitions = symbolic forks decided by the solver; traces_validated = path models replayed in the compiled code with equal observations",
			"outside_bounds": cfg.Outside, "functions_encoded": fns, "functions_encoded_count": len(fns), "other_functions_encoded": stdFns,
			"harnesses": harn, "load_seconds": round2(loadS), "solver": "z3 4.8.12 (main), z3 5.3.2 (fallback), cvc5 1.1.2 (cross-check)", "cores": runtime.NumCPU(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, *id+".json"), append(b, '\n'), 0o644)
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

var _ = atomic.AddInt64

// anyUnlisted: a confirmed violation that is not a listed finding is among the reports
func anyUnlisted(reps []*hReport, k *knownList) bool {
	for _, r := range reps {
		for _, c := range r.confirmed {
			if k.match(c.v) == "" {
				return true
			}
		}
	}
	return false
}
