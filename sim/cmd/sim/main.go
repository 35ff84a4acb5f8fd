// Command sim runs the deterministic simulation of mk-lr: seeded search over
// histories, schedules and faults, one property at a time.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim/simrt"
)

// Prop is one property: how runs are generated and executed.
type Prop struct {
	ID       string
	Quick    int // runs
	Thorough int
	Gen      func(r *simrt.RNG, p *Plan)
	Exec     func(w *World) // runs all steps; raises *Violation
	Kinds    int            // key material created at start
	Own      []string       // operations whose failures this property reports
	Rule     string
	Real     []string
	Stub     []string
	Level    string
	Setup    bool                                          // the property promises that parameters, keys and evaluators can be made
	OwnSetup bool                                          // the executor creates the parties itself and reports set-up failures
	Custom   func(p *Plan, st *Stats, tracing bool) Result // replaces the world executor
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func strHash(s string) (h uint64) {
	h = 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return
}

func planFor(pr *Prop, seed uint64, i int, tier string) *Plan {
	p := &Plan{Property: pr.ID, Seed: simrt.Mix(seed, strHash(pr.ID), uint64(i)), Tier: tier}
	r := simrt.NewRNG(simrt.Mix(p.Seed, 0x9e1))
	pr.Gen(r, p)
	return p
}

// execute runs one plan to its end. It is a pure function of the plan and of
// the code under test.
func execute(p *Plan, st *Stats, tracing bool) (res Result) {
	pr := props[p.Property]
	ownOps = map[string]bool{}
	for _, o := range pr.Own {
		ownOps[o] = true
	}
	renew(p)
	if pr.Custom != nil {
		return pr.Custom(p, st, tracing)
	}
	return worldRun(pr, p, st, tracing)
}

func worldRun(pr *Prop, p *Plan, st *Stats, tracing bool) (res Result) {
	var w *World
	simrt.Run(func() {
		defer func() {
			if w != nil {
				res.Digest = w.log
				res.Obs = w.obs
				res.Trace = w.trace
				st.Steps += int64(w.step)
			}
			st.Yields += simrt.Yields()
			if e := recover(); e != nil {
				if v, ok := e.(*Violation); ok {
					res.V = v
					return
				}
				if s, is := e.(string); (pr.Setup || pr.ID == "C12") && w != nil && !(is && strings.HasPrefix(s, "harness:")) {
					// the simulator fell over an object the library returned
					res.V = &Violation{"malformed", fmt.Sprintf("step %d: a result of an operation cannot be examined: %v", w.step, e)}
					return
				}
				res.Err = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
		}()
		ok := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if s, is := e.(string); is && strings.HasPrefix(s, "harness:") {
						panic(e)
					}
					if pr.OwnSetup || pr.Setup {
						panic(&Violation{"refused:setup", fmt.Sprintf("parameters, keys, encryptors or evaluators cannot be created: %v", e)})
					}
					st.SetupFail++
					st.add("foreign-failure:setup")
					if os.Getenv("SIM_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "setup: %v\n%s\n", e, debug.Stack())
					}
				}
			}()
			w = newWorld(p, st, tracing)
			kinds := pr.Kinds
			if pr.ID == "C09" {
				kinds &^= p.Cfg.X
			}
			w.setup(kinds, !pr.OwnSetup)
			ok = true
		}()
		if !ok {
			return
		}
		pr.Exec(w)
	})
	return
}

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay|digest|plan ...")
		os.Exit(2)
	}
	startReset()
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "digest":
		digest(os.Args[2:])
	case "entchild":
		entchild(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// ------------------------------------------------------------------- worker

type found struct {
	Run  int   `json:"run"`
	Plan *Plan `json:"plan"`
	Raw  *Plan `json:"raw,omitempty"`  // before minimisation
	Past []int `json:"past,omitempty"` // runs the worker had executed before
}

type report struct {
	Stats *Stats `json:"stats"`
	Found *found `json:"found,omitempty"`
	Err   string `json:"err,omitempty"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	runs := fs.Int("runs", 1, "")
	capS := fs.Int("cap", 240, "")
	tier := fs.String("tier", "quick", "")
	prog := fs.String("progress", "", "")
	fs.Parse(args)
	pr := props[*prop]
	st := newStats()
	rep := report{Stats: st}
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	start := time.Now()
	var past []int
	for i := *from; i < *runs; i += *stride {
		if time.Since(start) > time.Duration(*capS)*time.Second {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		p := planFor(pr, *seed, i, *tier)
		res := execute(p, st, false)
		st.Runs++
		if len(st.Samples) < 1 && i >= 3**stride {
			b, _ := json.Marshal(p)
			st.Samples = append(st.Samples, string(b))
		}
		if res.Err != "" {
			rep.Err = fmt.Sprintf("run %d: %s", i, res.Err)
			break
		}
		if res.V != nil {
			p.Class, p.Message = res.V.Class, res.V.Msg
			m := minimise(p, res.V, 40*time.Second)
			rep.Found = &found{i, m, p, past}
			break
		}
		past = append(past, i)
	}
	st.Sites = simrt.SiteBits()
	st.MapRanges = simrt.MapRanges
	st.pack()
	b, _ := json.Marshal(rep)
	os.Stdout.Write(b)
	os.Stdout.Write([]byte("\n"))
}

// ----------------------------------------------------------------- minimiser

func reproduces(p *Plan, class string) bool {
	res := execute(p, newStats(), false)
	return res.V != nil && res.V.Class == class
}

// freshly replays a plan in a process of its own.
func freshly(self, file string, p *Plan) (same bool, out string) {
	if p.save(file) != nil {
		return false, ""
	}
	c := exec.Command(self, "replay", file)
	c.Env = append(os.Environ(), "GODEBUG=randautoseed=0")
	o, _ := c.CombinedOutput()
	return strings.Contains(string(o), "class="+p.Class+"\n"), string(o)
}

// isolate turns a violation that depends on what its process did before into a
// plan that reproduces it in a fresh process, and shrinks it there.
func isolate(self, file string, h *found, seed uint64, tier string) *Plan {
	if h.Raw == nil {
		return nil
	}
	end := time.Now().Add(120 * time.Second)
	p := h.Raw.clone()
	ok, _ := freshly(self, file, p)
	if !ok {
		p.Prelude = &Prelude{seed, tier, h.Past}
		if ok, _ = freshly(self, file, p); !ok {
			return nil
		}
		for n := 1; n < len(h.Past); n *= 2 {
			q := p.clone()
			q.Prelude = &Prelude{seed, tier, h.Past[len(h.Past)-n:]}
			if ok, _ := freshly(self, file, q); ok {
				p = q
				break
			}
		}
		for n := (len(p.Prelude.Runs) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(p.Prelude.Runs) && time.Now().Before(end); {
				q := p.clone()
				rs := append([]int(nil), p.Prelude.Runs[:i]...)
				q.Prelude = &Prelude{seed, tier, append(rs, p.Prelude.Runs[mini(i+n, len(p.Prelude.Runs)):]...)}
				if ok, _ := freshly(self, file, q); ok {
					p = q
				} else {
					i += n
				}
			}
		}
	}
	p = minimiseWith(p, &Violation{p.Class, p.Message}, time.Until(end), func(q *Plan, class string) bool {
		ok, _ := freshly(self, file, q)
		return ok
	})
	return p
}

// minimise shrinks the schedule, the steps, the faults and the configuration
// while the same class of violation persists.
func minimise(p *Plan, v *Violation, budget time.Duration) *Plan {
	best := minimiseWith(p, v, budget, reproduces)
	res := execute(best, newStats(), true)
	if res.V != nil {
		best.Class, best.Message, best.Trace = res.V.Class, res.V.Msg, res.Trace
	} else {
		best.Class, best.Message = v.Class, v.Msg
	}
	return best
}

func minimiseWith(p *Plan, v *Violation, budget time.Duration, reproduces func(*Plan, string) bool) *Plan {
	end := time.Now().Add(budget)
	class := v.Class
	best := p.clone()
	// turn a random schedule into an explicit one
	if best.Cfg.Workers > 0 && !best.Fixed {
		q := best.clone()
		res := execute(q, newStats(), false)
		if res.V != nil && res.V.Class == class {
			f := q.clone()
			f.Sched, f.Fixed = append([]simrt.Switch(nil), simrt.Recorded...), true
			if reproduces(f, class) {
				best = f
			}
		}
	}
	try := func(q *Plan) bool {
		if time.Now().After(end) {
			return false
		}
		if reproduces(q, class) {
			best = q
			return true
		}
		return false
	}
	shrinkSteps := func() {
		for n := (len(best.Steps) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(best.Steps) && time.Now().Before(end); {
				q := best.clone()
				j := mini(i+n, len(q.Steps))
				q.Steps = append(q.Steps[:i:i], q.Steps[j:]...)
				if !try(q) {
					i += n
				}
			}
		}
	}
	shrinkSched := func() {
		for n := (len(best.Sched) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(best.Sched) && time.Now().Before(end); {
				q := best.clone()
				j := mini(i+n, len(q.Sched))
				q.Sched = append(q.Sched[:i:i], q.Sched[j:]...)
				if !try(q) {
					i += n
				}
			}
		}
	}
	if best.Fixed {
		shrinkSched()
	}
	shrinkSteps()
	// faults and the configuration
	for i := range best.Steps {
		if best.Steps[i].Abort != 0 || best.Steps[i].Fault != "" {
			q := best.clone()
			q.Steps[i].Abort, q.Steps[i].Fault = 0, ""
			try(q)
		}
	}
	for _, f := range []func(c *Cfg){
		func(c *Cfg) { c.MapMode = 0 },
		func(c *Cfg) { c.Evals = 1 },
		func(c *Cfg) { c.SK = 0 },
		func(c *Cfg) {
			if len(c.IDs) > 1 {
				c.IDs = c.IDs[:1]
			}
		},
		func(c *Cfg) {
			if len(c.IDs) > 2 {
				c.IDs = c.IDs[:2]
			}
		},
		func(c *Cfg) {
			if c.LogN > 5 && c.Shape == "" {
				c.LogN, c.LogSlots = 5, mini(c.LogSlots, 4)
			}
		},
		func(c *Cfg) { c.LogSlots = c.LogN - 1 },
		func(c *Cfg) {
			if c.Shape == "" && c.QCount > 3 {
				c.QCount = 3
			}
		},
		func(c *Cfg) {
			if c.Shape == "" && c.PCount > 2 {
				c.PCount = 2
			}
		},
	} {
		q := best.clone()
		f(&q.Cfg)
		if fmt.Sprint(q.Cfg) != fmt.Sprint(best.Cfg) {
			try(q)
		}
	}
	if best.Fixed {
		shrinkSched()
	}
	shrinkSteps()
	return best
}

// -------------------------------------------------------------------- replay

func replay(args []string) int {
	p, err := loadPlan(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if props[p.Property] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", p.Property)
		return 2
	}
	if pre := p.Prelude; pre != nil {
		for _, i := range pre.Runs {
			execute(planFor(props[p.Property], pre.Seed, i, pre.Tier), newStats(), false)
		}
	}
	res := execute(p, newStats(), true)
	for _, t := range res.Trace {
		fmt.Println("  ", t)
	}
	if res.Err != "" {
		fmt.Fprintln(os.Stderr, res.Err)
		return 2
	}
	if res.V == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	fmt.Printf("replay: class=%s\nreplay: %s\n", res.V.Class, res.V.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Property, args[0])
	return 1
}

// digest prints one line per run; used to prove determinism.
func digest(args []string) {
	fs := flag.NewFlagSet("digest", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	runs := fs.Int("runs", 1, "")
	fs.Parse(args)
	for i := *from; i < *runs; i += *stride {
		p := planFor(props[*prop], *seed, i, "quick")
		res := execute(p, newStats(), false)
		fmt.Printf("%s %d %d %016x %x %v %s\n", *prop, *seed, i, res.Digest, simrt.SwitchHash, res.V, res.Err)
	}
}

// ----------------------------------------------------------------- coordinator

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	runs := fs.Int("runs", 0, "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	outDir := fs.String("out", "/verif/out", "")
	evDir := fs.String("evidence", "/verif/evidence", "")
	sites := fs.String("sites", "", "")
	known := fs.String("known", "/verif/known_findings.txt", "")
	build := fs.String("build", "", "")
	fs.Parse(args)
	pr := props[*prop]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	seed := envSeed()
	n, capS, hard := pr.Quick, 150, 420*time.Second
	if *tier == "thorough" {
		n, capS, hard = pr.Thorough, 3600, 2*time.Hour
	}
	if *runs > 0 {
		n = *runs
	}
	fmt.Printf("check property=%s tier=%s seed=%d runs=%d workers=%d\n", *prop, *tier, seed, n, *workers)
	start := time.Now()
	self, _ := os.Executable()
	os.MkdirAll(*outDir, 0o755)
	os.MkdirAll(*evDir, 0o755)
	tmp, err := os.MkdirTemp("", "sim-"+*prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	W := *workers
	if W > n {
		W = n
	}
	type done struct {
		i    int
		rep  *report
		err  error
		tail string
	}
	ch := make(chan done, W)
	var mu sync.Mutex
	var cmds []*exec.Cmd
	killed := false
	for i := 0; i < W; i++ {
		cmd := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-stride", fmt.Sprint(W),
			"-runs", fmt.Sprint(n), "-cap", fmt.Sprint(capS), "-tier", *tier, "-progress", filepath.Join(tmp, fmt.Sprintf("p%d", i)))
		cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0", "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=2500MiB")
		var errb strings.Builder
		cmd.Stderr = &limited{b: &errb}
		op, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, cmd)
		go func(i int) {
			rd := bufio.NewReaderSize(op, 1<<20)
			var rep *report
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 && line[0] == '{' {
					r := new(report)
					if json.Unmarshal(line, r) == nil && r.Stats != nil {
						rep = r
					}
				}
				if err != nil {
					break
				}
			}
			err := cmd.Wait()
			ch <- done{i, rep, err, errb.String()}
		}(i)
	}
	timer := time.AfterFunc(hard, func() {
		mu.Lock()
		killed = true
		mu.Unlock()
		for _, c := range cmds {
			c.Process.Kill()
		}
	})
	total := newStats()
	var hits []*found
	var trouble []string
	var deaths []int
	stopping := false
	for k := 0; k < W; k++ {
		d := <-ch
		if d.rep != nil {
			total.merge(d.rep.Stats)
			if d.rep.Err != "" {
				trouble = append(trouble, d.rep.Err)
			}
			if d.rep.Found != nil {
				hits = append(hits, d.rep.Found)
				if !stopping {
					stopping = true
					for j, c := range cmds {
						if j != d.i {
							c.Process.Kill()
						}
					}
				}
			}
			continue
		}
		if stopping {
			continue
		}
		mu.Lock()
		dead := killed
		mu.Unlock()
		if dead {
			trouble = append(trouble, "watchdog: a worker did not finish in time")
			continue
		}
		b, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("p%d", d.i)))
		run, err := strconv.Atoi(strings.TrimSpace(string(b)))
		if err != nil {
			trouble = append(trouble, fmt.Sprintf("worker %d died: %v %s", d.i, d.err, tailOf(d.tail)))
			continue
		}
		fmt.Printf("worker %d died in run %d: %v\n%s\n", d.i, run, d.err, tailOf(d.tail))
		deaths = append(deaths, run)
	}
	timer.Stop()
	// a run that takes the whole process down (a fatal runtime error): confirm alone
	sort.Ints(deaths)
	for _, run := range deaths {
		if len(hits) > 0 {
			break
		}
		p := planFor(pr, seed, run, *tier)
		p.Class = "process-death"
		p.Message = "the process running this plan is terminated by a fatal runtime error"
		f := filepath.Join(tmp, "death.json")
		p.save(f)
		if c := exec.Command(self, "replay", f); c.Run() != nil && c.ProcessState.ExitCode() != 1 {
			hits = append(hits, &found{Run: run, Plan: p})
		} else {
			trouble = append(trouble, fmt.Sprintf("run %d killed its worker once but not again", run))
		}
	}
	wall := time.Since(start).Seconds()
	code := 0
	violations := 0
	sort.Slice(hits, func(i, j int) bool { return hits[i].Run < hits[j].Run })
	for k, h := range hits {
		path := filepath.Join(*outDir, fmt.Sprintf("%s-%s-seed%d-run%d.json", *prop, *tier, seed, h.Run))
		h.Plan.Tier = *tier
		// the minimised file must fail the same way in a fresh process
		same, o := freshly(self, path, h.Plan)
		if h.Plan.Class == "process-death" {
			same = true
		}
		if !same {
			if q := isolate(self, path, h, seed, *tier); q != nil {
				q.Tier = *tier
				same, o = freshly(self, path, q)
				h.Plan = q
				q.Trace = strings.Split(strings.TrimRight(o, "\n"), "\n")
				q.save(path)
			}
		}
		if !same {
			fmt.Printf("the violation of run %d did not replay in a fresh process:\n%s\n%s\n", h.Run, h.Plan.Message, o)
			if k == len(hits)-1 {
				trouble = append(trouble, "replay mismatch")
				code = 2
			}
			continue
		}
		violations, code, trouble = 1, 1, nil
		pre := 0
		if h.Plan.Prelude != nil {
			pre = len(h.Plan.Prelude.Runs)
		}
		fmt.Printf("run %d (seed %d) class=%s steps=%d switches=%d prelude=%d\n", h.Run, h.Plan.Seed, h.Plan.Class, len(h.Plan.Steps), len(h.Plan.Sched), pre)
		fmt.Println("  ", h.Plan.Message)
		for _, t := range h.Plan.Trace {
			fmt.Println("   |", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		break
	}
	if code == 0 {
		if len(trouble) > 0 {
			code = 2
		} else if total.Runs == 0 || total.SetupFail*2 > total.Runs {
			trouble = append(trouble, fmt.Sprintf("only %d of %d runs could be set up", total.Runs-total.SetupFail, total.Runs))
			code = 2
		}
	}
	for i, t := range trouble {
		if i > 1 {
			break
		}
		fmt.Fprintln(os.Stderr, "ERROR:", t)
	}
	printKnown(*known, *prop)
	writeEvidence(pr, *evDir, *tier, seed, total, wall, violations, *sites, *build)
	fmt.Printf("runs=%d steps=%d yields=%d distinct=%d faults=%v wall=%.1fs exit=%d\n", total.Runs, total.Steps, total.Yields, len(total.Distinct), total.Faults, wall, code)
	if os.Getenv("SIM_VERBOSE") != "" {
		ks := make([]string, 0)
		for k := range total.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("   ", k, total.Counts[k])
		}
		fmt.Println("    ratio", total.Ratio)
	}
	return code
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tailOf(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// printKnown repeats the recorded, unrepaired findings of this property.
func printKnown(file, prop string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			fmt.Println("KNOWN-FINDING:", strings.TrimPrefix(l, "finding: "))
		}
	}
}

func writeEvidence(pr *Prop, dir, tier string, seed uint64, st *Stats, wall float64, violations int, sitesFile, build string) {
	nsites := 0
	instr := map[string]any{}
	if b, err := os.ReadFile(sitesFile); err == nil {
		var x struct {
			Sites          []string `json:"sites"`
			Go, Chan, Sync int
		}
		if json.Unmarshal(b, &x) == nil {
			nsites = len(x.Sites)
		}
	}
	instr["statements_instrumented"] = nsites
	instr["statements_executed"] = len(st.Sites)
	instr["map_iterations_ordered_by_simulator"] = st.MapRanges
	instr["build"] = build
	samples := []any{}
	for _, s := range st.Samples {
		var x any
		if json.Unmarshal([]byte(s), &x) == nil {
			samples = append(samples, x)
		}
		if len(samples) >= 2 {
			break
		}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall * 3600
	}
	cov := map[string]any{
		"evaluations":                  st.Runs,
		"distinct_nontrivial":          len(st.Distinct),
		"rule":                         pr.Rule,
		"samples":                      samples,
		"simulated_runs_per_hour":      int64(perHour),
		"steps_executed":               st.Steps,
		"simulated_time_in_statements": st.Yields,
		"faults_injected":              st.Faults,
		"context_switches":             st.Switches,
		"operation_counts":             st.Counts,
		"largest_error_over_bound":     st.Ratio,
		"instrumentation":              instr,
		"real_components":              pr.Real,
		"stub_components":              pr.Stub,
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": pr.Level, "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"the lattigo v2.3.0 ring and encoder are correct (they compute the oracle's decryption)",
			"ring degrees are reduced (16 to 2048) so that many histories fit in the budget; the code has no degree-dependent branch besides loop bounds",
			"yields and injected aborts fall between statements of mkrlwe and mkckks; calls into lattigo are atomic",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, pr.ID+".json"), append(b, '\n'), 0o644)
}
