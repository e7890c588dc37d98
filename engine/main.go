package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg is one entry of checks.json.
type HarnessCfg struct {
	Name     string   `json:"name"`
	Tier     string   `json:"tier"`       // quick (default: both tiers) or thorough
	MapBud   int      `json:"map_orders"` // number of map iterations per path that may run in another order
	Seconds  int      `json:"seconds"`    // time budget
	Bounds   string   `json:"bounds"`
	MinPaths int      `json:"min_paths"`
	AssertMs int      `json:"assert_ms"`
	Reach    []string `json:"reach"`
}

type CheckCfg struct {
	Property  string       `json:"property"`
	Harnesses []HarnessCfg `json:"harnesses"`
	Outside   []string     `json:"outside"`
	Tui       bool         `json:"tui"`
	Cmd       bool         `json:"cmd"`
}

var (
	verifDir = flag.String("verif", "/verif", "")
	repoDir  = flag.String("repo", "/repo", "")
	propF    = flag.String("property", "", "")
	tierF    = flag.String("tier", "", "")
	onlyF    = flag.String("only", "", "run only harnesses whose name contains this")
	workersF = flag.Int("workers", 0, "")
	verbose  = flag.Bool("v", false, "")
	secsF    = flag.Int("seconds", 0, "override the time budget per harness")
	profF    = flag.String("cpuprofile", "", "")
	noReplay = flag.Bool("noreplay", false, "")
	keepGo   = flag.Bool("keepgoing", false, "")
)

type Replayer struct {
	verif, repo string
	tui, cmd    bool
	flags       []string
	mu          sync.Mutex
	built       bool
	err         error
	bin         string
	dir         string
}

func (rp *Replayer) build() error {
	rp.mu.Lock()
	defer rp.mu.Unlock()
	if rp.built {
		return rp.err
	}
	rp.built = true
	dir := rp.dir
	ov, err := overlayFiles(rp.verif, rp.repo, dir, rp.tui, rp.cmd)
	if err != nil {
		rp.err = err
		return err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	rp.bin = filepath.Join(dir, "replay")
	args := append([]string{"build", "-buildvcs=false"}, rp.flags...)
	cmd := exec.Command("go", append(args, "-overlay", of, "-o", rp.bin, "./internal/zzverif/replay")...)
	cmd.Dir = rp.repo
	cmd.Env = append(goEnv(), "GOFLAGS=-buildvcs=false")
	out, err := cmd.CombinedOutput()
	if err != nil {
		rp.err = fmt.Errorf("native build: %v: %s", err, out)
	}
	return rp.err
}

func (rp *Replayer) cleanup() {
	if rp.dir != "" {
		os.RemoveAll(rp.dir)
	}
}

// run executes the harness natively with the inputs; returns whether it failed and the output.
func (rp *Replayer) run(file string, reps int) (bool, string, error) {
	if err := rp.build(); err != nil {
		return false, "", err
	}
	cmd := exec.Command("timeout", "-k", "1", "60", rp.bin, file, strconv.Itoa(reps))
	cmd.Dir = rp.dir
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 4000 {
		s = s[:4000]
	}
	if err == nil {
		return false, s, nil
	}
	return strings.Contains(s, "VH-VIOLATION") || strings.Contains(s, "VH-PANIC"), s, nil
}

func main() {
	flag.Parse()
	debug.SetGCPercent(1600)
	debug.SetMemoryLimit(16 << 30)
	if *profF != "" {
		f, _ := os.Create(*profF)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := realMain()
	if *profF != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func realMain() int {
	t0 := time.Now()
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	*tierF = tier
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	b, err := os.ReadFile(filepath.Join(*verifDir, "checks.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var checks []CheckCfg
	if err := json.Unmarshal(b, &checks); err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	var cc *CheckCfg
	for i := range checks {
		if checks[i].Property == *propF {
			cc = &checks[i]
		}
	}
	if cc == nil {
		fmt.Fprintln(os.Stderr, "no such property", *propF)
		return 2
	}
	rp := &Replayer{verif: *verifDir, repo: *repoDir, tui: cc.Tui, cmd: cc.Cmd}
	defer rp.cleanup()
	if rp.dir, err = os.MkdirTemp("", "vreplay"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if cc.Tui {
		if rp.flags, err = prepareTview(*verifDir, *repoDir, rp.dir); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	prog, err := loadProgram(*verifDir, *repoDir, rp.dir, cc.Tui, cc.Cmd, rp.flags)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code:", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	nw := *workersF
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	var workers []*Worker
	for i := 0; i < nw; i++ {
		workers = append(workers, &Worker{s: &Solver{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, fcache: map[*ssa.Function]*cfunc{}, mcache: map[methKey]*ssa.Function{}})
	}
	defer func() {
		for _, w := range workers {
			w.s.stop()
		}
	}()
	replayDir := filepath.Join(*verifDir, "replays")
	os.MkdirAll(replayDir, 0o755)

	known := loadFindings(filepath.Join(*verifDir, "known-findings.txt"))
	var reports []map[string]interface{}
	var violations []Violation
	var vpaths []string
	var samples []interface{}
	tot := struct{ paths, complete, asserts, trivial, discharged, inconcl, validated, mismatch, decisions int64 }{}
	var problems []string
	knownHit := map[string]bool{}
	var mu sync.Mutex // the totals, against the watchdog
	var finish func() int
	finish = func() int {
		sort.Strings(problems)
		if *verbose {
			for _, p := range problems {
				fmt.Println("  note:", p)
			}
		}
		var fns []string
		blocks, hit := 0, 0
		var marks []string
		prog.used.Range(func(k, v interface{}) bool {
			f := k.(*ssa.Function)
			if f.Synthetic == "" || f.Origin() != nil {
				fns = append(fns, strings.ReplaceAll(f.String(), modPath, "bbn"))
			}
			for _, b := range v.(*cfunc).blocks {
				blocks++
				mark := "missed "
				if b.hit.Load() {
					hit++
					mark = "reached "
				}
				for _, in := range b.b.Instrs {
					if in.Pos().IsValid() {
						marks = append(marks, mark+prog.prog.Fset.Position(in.Pos()).String())
						break
					}
				}
			}
			return true
		})
		sort.Strings(marks)
		if p := os.Getenv("VERIF_BLOCKS"); p != "" {
			os.WriteFile(p, []byte(strings.Join(marks, "\n")+"\n"), 0o644)
		}
		sort.Strings(fns)
		cov := map[string]interface{}{
			"states": tot.paths, "transitions": tot.decisions, "traces_validated_against_impl": tot.validated, "samples": samples,
			"exhaustive": len(problems) == 0 && len(violations) == 0, "functions_encoded": fns, "blocks_of_these_functions": blocks, "blocks_reached": hit, "harnesses": reports,
			"assertions_checked": tot.asserts, "assertions_discharged_by_solver": tot.discharged, "assertions_equal_by_construction": tot.trivial,
			"queries": stats.queries, "queries_unsat": stats.unsat, "queries_sat": stats.sat, "queries_unknown": stats.unknown, "queries_cached": stats.cached, "solver_errors": stats.errors,
			"solver_s": float64(stats.nanos) / 1e9, "slowest_query_s": float64(stats.maxNanos) / 1e9, "solver": solverBin(), "load_s": loadS,
			"incomplete": problems, "native_mismatches": tot.mismatch,
			"explanation": "The repository's code is loaded from source as SSA on this run and executed symbolically by the harnesses; states are symbolic paths, transitions recorded decisions; every assertion not equal by construction is decided by the SMT solver under its path condition for all values of the symbolic inputs within the bounds.",
		}
		if len(samples) == 0 {
			cov["samples"] = []interface{}{"no path completed"}
		}
		ev := map[string]interface{}{
			"property": cc.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(violations),
			"assumptions": append([]string{"floating-point values are exact reals with NaN and infinities (rounding and signed zero are not modelled)"}, cc.Outside...),
		}
		os.MkdirAll(filepath.Join(*verifDir, "evidence"), 0o755)
		eb, _ := json.MarshalIndent(ev, "", " ")
		if *onlyF == "" {
			os.WriteFile(filepath.Join(*verifDir, "evidence", cc.Property+".json"), append(eb, '\n'), 0o644)
		}
		if len(violations) > 0 {
			for i := range violations {
				fmt.Printf("VIOLATION property=%s replay=%s\n", cc.Property, vpaths[i])
			}
			return 1
		}
		if tot.paths == 0 {
			fmt.Fprintf(os.Stderr, "nothing of %s could be explored: %s\n", cc.Property, strings.Join(problems, "; "))
			return 2
		}
		fmt.Printf("OK property=%s paths=%d assertions=%d (solver %d, by construction %d) queries=%d unknown=%d solver=%.1fs native-validated=%d incomplete=%d wall=%.1fs\n", cc.Property, tot.paths, tot.asserts, tot.discharged, tot.trivial,
			stats.queries, stats.unknown, float64(stats.nanos)/1e9, tot.validated, len(problems), time.Since(t0).Seconds())
		return 0
	}
	if tier == "quick" {
		// whatever hangs (the code under a native replay, a solver, a path), the check answers within its time
		time.AfterFunc(820*time.Second, func() {
			mu.Lock()
			problems = append(problems, "stopped by the watchdog after 820 s")
			code := finish()
			if code == 2 {
				code = 0
			}
			for _, w := range workers {
				w.s.kill()
			}
			rp.cleanup()
			os.Exit(code)
		})
	}
	for f := range dropped {
		problems = append(problems, "harness file "+f+" does not compile against the current code")
	}
	for _, h := range cc.Harnesses {
		if h.Tier == "thorough" && tier != "thorough" || h.Tier == "quickonly" && tier != "quick" {
			continue
		}
		if *onlyF != "" && !strings.Contains(h.Name, *onlyF) {
			continue
		}
		fn := prog.funcs[modPath+"/internal/zzverif/h."+h.Name]
		if fn == nil {
			problems = append(problems, "missing harness "+h.Name)
			continue
		}
		secs := h.Seconds
		if secs == 0 {
			secs = 60
			if tier == "thorough" {
				secs = 600
			}
		}
		if *secsF > 0 {
			secs = *secsF
		}
		if tier == "quick" {
			// the whole check stays below its time limit on a slower machine, too
			left := 640 - int(time.Since(t0).Seconds())
			if left < 5 {
				left = 5
			}
			if secs > left {
				secs = left
			}
		}
		ams := h.AssertMs
		if ams == 0 {
			ams = 10000
		}
		h0 := time.Now()
		ex := &Explorer{prog: prog, har: fn, name: h.Name, mapBud: h.MapBud, unsup: map[string]int{}, violKeys: map[string]bool{}, inconcl: map[string]int{}, labels: map[string]int{},
			deadline: time.Now().Add(time.Duration(secs) * time.Second), maxSteps: 80_000_000, maxViol: 1, seed: seed, assertMs: ams}
		if *keepGo {
			ex.maxViol = 10
		}
		ncand := int64(0)
		ex.confirm = func(v *Violation) bool {
			if *noReplay {
				return true
			}
			n := atomic.AddInt64(&ncand, 1)
			if n > 150 {
				return false
			}
			f := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", cc.Property, h.Name, n))
			writeReplay(f, v)
			bad, out, err := rp.run(f, 400)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return false
			}
			v.Replay = out
			if !bad {
				os.Remove(f)
				return false
			}
			writeReplay(f, v)
			v.Trace = f
			for _, k := range known {
				if k.prop == cc.Property && strings.Contains(out, k.match) {
					if !knownHit[k.match] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", cc.Property, k.text)
						knownHit[k.match] = true
					}
					os.Remove(f)
					return false
				}
			}
			return true
		}
		q0 := stats
		ex.explore(workers)
		q1 := stats
		var miss []string
		for _, l := range h.Reach {
			if ex.labels["reach:"+l] == 0 {
				miss = append(miss, l)
			}
		}
		if len(ex.viols) == 0 {
			if len(miss) > 0 {
				problems = append(problems, fmt.Sprintf("%s: not reached: %v", h.Name, miss))
			}
			if ex.asserts == 0 {
				problems = append(problems, h.Name+": no assertion reached")
			}
		}
		if ex.timedOut {
			problems = append(problems, h.Name+": time budget used up before the paths were exhausted")
		}
		for k, n := range ex.unsup {
			problems = append(problems, fmt.Sprintf("%s: unsupported (%d paths): %s", h.Name, n, k))
		}
		for k, n := range ex.inconcl {
			problems = append(problems, fmt.Sprintf("%s: inconclusive (%d): %s", h.Name, n, k))
		}
		// the encoding is validated by running sampled paths natively
		val, mis := 0, 0
		if len(ex.viols) == 0 && !*noReplay {
			val, mis = validate(rp, ex, replayDir, cc.Property)
		}
		mu.Lock()
		rep := map[string]interface{}{
			"harness": h.Name, "bounds": h.Bounds, "paths": ex.paths, "paths_completed": ex.feas, "paths_infeasible": ex.aborted,
			"assertions": ex.asserts, "assertions_equal_by_construction": ex.trivial, "assertions_discharged_by_solver": ex.discharged - ex.normalForm, "assertions_equal_after_multiplying_out": ex.normalForm,
			"queries": q1.queries - q0.queries, "queries_unsat": q1.unsat - q0.unsat, "queries_sat": q1.sat - q0.sat, "queries_unknown": q1.unknown - q0.unknown,
			"solver_s": float64(q1.nanos-q0.nanos) / 1e9, "ssa_instructions": ex.totSteps, "wall_s": time.Since(h0).Seconds(),
			"exhausted": !ex.timedOut && len(ex.unsup) == 0 && len(ex.viols) == 0, "map_orders": h.MapBud, "labels": len(ex.labels),
			"paths_run_natively": val, "native_mismatches": mis,
		}
		reports = append(reports, rep)
		tot.paths += ex.paths
		tot.complete += ex.feas
		tot.asserts += ex.asserts
		tot.trivial += ex.trivial
		tot.discharged += ex.discharged
		tot.validated += int64(val)
		tot.mismatch += int64(mis)
		tot.decisions += ex.nDecisions
		for _, s := range ex.samples {
			if len(samples) < 6 {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": s})
				break
			}
		}
		if *verbose {
			fmt.Printf("%-34s paths %d (done %d, infeasible %d) asserts %d (construction %d, solver %d) queries %d unk %d solver %.1fs wall %.1fs steps %dM native %d/%d timeout=%v\n", h.Name, ex.paths, ex.feas, ex.aborted, ex.asserts, ex.trivial, ex.discharged,
				q1.queries-q0.queries, q1.unknown-q0.unknown, float64(q1.nanos-q0.nanos)/1e9, time.Since(h0).Seconds(), ex.totSteps/1000000, val, mis, ex.timedOut)
		}
		for _, v := range ex.viols {
			violations = append(violations, v)
			vpaths = append(vpaths, v.Trace)
			fmt.Printf("%s", v.String())
			fmt.Printf("  native run: %s\n", strings.TrimSpace(v.Replay))
		}
		for _, v := range ex.notReplayed {
			problems = append(problems, fmt.Sprintf("%s: candidate not reproduced natively: %s", h.Name, v.Label))
			if *verbose {
				fmt.Println("  NOT REPRODUCED:", v.String(), v.Replay)
			}
		}
		mu.Unlock()
		if len(violations) > 0 && !*keepGo {
			break
		}
	}
	mu.Lock()
	defer mu.Unlock()
	return finish()
}

func writeReplay(f string, v *Violation) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
}

// validate runs sampled paths natively and counts disagreements with the symbolic verdict.
func validate(rp *Replayer, ex *Explorer, dir, prop string) (int, int) {
	if len(ex.samples) == 0 {
		return 0, 0
	}
	if rp.build() != nil {
		return 0, 0
	}
	type job struct {
		Harness string    `json:"harness"`
		Runs    [][]Input `json:"runs"`
	}
	j := job{Harness: ex.name, Runs: ex.samples}
	f := filepath.Join(rp.dir, "val.json")
	b, _ := json.Marshal(j)
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command("timeout", "-k", "1", "120", rp.bin, "-validate", f)
	cmd.Dir = rp.dir
	out, _ := cmd.CombinedOutput()
	ok, bad := 0, 0
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "VH-OK") {
			ok++
		} else if strings.HasPrefix(l, "VH-BAD") {
			bad++
			if *verbose {
				fmt.Println("   native mismatch:", ex.name, l)
			}
		}
	}
	return ok, bad
}

type finding struct{ prop, match, text string }

// known-findings.txt: "finding: property=<id> match=<text in the native output> | description"
func loadFindings(f string) []finding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property=")
		sp := strings.SplitN(rest, " ", 2)
		if len(sp) != 2 || !strings.HasPrefix(sp[1], "match=") {
			continue
		}
		mt := strings.SplitN(strings.TrimPrefix(sp[1], "match="), " | ", 2)
		if len(mt) == 2 {
			out = append(out, finding{sp[0], mt[0], mt[1]})
		}
	}
	return out
}
