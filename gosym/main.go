package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkCfg struct {
	Dir      string             `json:"dir"`      // harness/<dir>
	Prefix   string             `json:"prefix"`   // harness functions <Prefix>_*
	Quick    float64            `json:"quick"`    // seconds per harness
	Thorough float64            `json:"thorough"` // seconds per harness
	Inpkg    map[string]string  `json:"inpkg"`    // file in /repo -> file in harness/
	Replace  map[string]string  `json:"replace"`  // module -> stand-in in harness/
	Budget   map[string]float64 `json:"budget"`   // per harness, quick
	Samples  int                `json:"samples"`
	Assume   []string           `json:"assume"`
	Outside  string             `json:"outside"`
	Sched    bool               `json:"sched"` // schedules are part of the input
	MaxVio   int                `json:"maxvio"`
	Skip     []string           `json:"skip"`
}

type known struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`    // regexp on the assertion or panic text
	Where    string            `json:"where"`  // regexp on the call site
	Vector   map[string]string `json:"vector"` // name -> regexp on the value
	What     string            `json:"what"`
	Status   string            `json:"status"` // "open" or "fixed"
	Commit   string            `json:"commit"`
}

type jobOut struct {
	Status  string            `json:"status"`
	Msg     string            `json:"msg"`
	Observe map[string]string `json:"observe"`
	Missing []string          `json:"missing"`
	Filled  []draw            `json:"filled"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	var (
		verif    = flag.String("verif", "/verif", "")
		repo     = flag.String("repo", "/repo", "")
		only     = flag.String("only", "", "regexp of harnesses")
		budget   = flag.Float64("budget", 0, "seconds per harness")
		workers  = flag.Int("workers", 0, "")
		debug    = flag.Bool("debug", false, "")
		prof     = flag.String("prof", "", "")
		bounds   = flag.String("bounds", "", "name=n,...")
		replay   = flag.String("replay", "", "replay file")
		solver   = flag.String("solver", "z3-new", "")
		nonative = flag.Bool("nonative", false, "")
		verbose  = flag.Bool("v", false, "")
	)
	flag.Parse()
	id := flag.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	rdebug.SetGCPercent(400)
	rdebug.SetMemoryLimit(20 << 30)
	t0 := time.Now()
	var cfgs map[string]checkCfg
	readJSON(filepath.Join(*verif, "checks.json"), &cfgs)
	if *replay != "" {
		var v struct {
			Property string `json:"property"`
			Violation
		}
		readJSON(*replay, &v)
		cfg, ok := cfgs[v.Property]
		if !ok {
			fatal("replay file names no check")
		}
		c := &check{id: v.Property, cfg: cfg, verif: *verif, repo: *repo, tier: tier, seed: seed}
		c.gather()
		if err := c.buildNative(); err != nil {
			fatal("native build: %v", err)
		}
		defer c.cleanup()
		o := c.native(v.Harness, v.Vector, 20*time.Second, 1)
		if v.Kind == "race" {
			o = c.nativeRace(v.Harness, v.Vector)
		}
		fmt.Printf("%s: %s %s\n", v.Harness, o.Status, o.Msg)
		c.cleanup()
		if o.Status != "ok" && o.Status != "assume" {
			os.Exit(1)
		}
		return
	}
	cfg, ok := cfgs[id]
	if !ok {
		fatal("no check %q", id)
	}
	c := &check{id: id, cfg: cfg, verif: *verif, repo: *repo, tier: tier, seed: seed, verbose: *verbose}
	c.bounds = map[string]int{}
	for _, kv := range strings.Split(*bounds, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.Atoi(v)
			c.bounds[k] = n
		}
	}
	c.gather()
	natErr := make(chan error, 1)
	go func() {
		if *nonative {
			natErr <- nil
			return
		}
		natErr <- c.buildNative()
	}()
	opts := Options{Repo: *repo, Seed: seed, Tier: tier, StepLimit: 20_000_000, Preempt: 2, Workers: *workers,
		Solver: solverCmd(*solver), TimeoutMs: 20000, Debug: *debug, Bounds: c.bounds}
	if opts.Workers == 0 {
		opts.Workers = runtime.NumCPU()
	}
	opts.Modfile = c.modfile
	e, err := Load(opts, c.overlay, []string{c.pkg})
	if err != nil {
		c.cleanup()
		fatal("cannot load the code under test: %v", err)
	}
	defer e.Close()
	if err := <-natErr; err != nil {
		c.cleanup()
		fatal("native build: %v", err)
	}
	var names []string
	pre := cfg.Prefix
	if pre == "" {
		pre = id
	}
	re := regexp.MustCompile(*only)
	skip := map[string]bool{}
	for _, s := range cfg.Skip {
		skip[s] = true
	}
	for nm := range e.pkgs[c.pkg].Members {
		if strings.HasPrefix(nm, pre+"_") && re.MatchString(nm) && !skip[nm] {
			names = append(names, nm)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		c.cleanup()
		fatal("no harness %s_*", pre)
	}
	fmt.Printf("check %s tier=%s: loaded in %.1fs, %d harnesses\n", id, tier, time.Since(t0).Seconds(), len(names))
	var reports []*report
	for _, nm := range names {
		b := cfg.Quick
		if b == 0 {
			b = 40
		}
		if x, ok := cfg.Budget[nm]; ok {
			b = x
		}
		if tier == "thorough" {
			b = cfg.Thorough
			if b == 0 {
				b = 300
			}
		}
		if *budget > 0 {
			b = *budget
		}
		ns := cfg.Samples
		if ns == 0 {
			ns = 20
		}
		rep := c.runHarness(e, nm, time.Duration(b*float64(time.Second)), ns, *nonative)
		reports = append(reports, rep)
		if len(rep.bad) > 0 && tier == "quick" {
			break
		}
	}
	e.Close()
	c.cleanup()
	rc := c.conclude(e, reports, time.Since(t0))
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func solverCmd(s string) []string {
	switch s {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models"}
	}
	return []string{s, "-in", "-smt2"}
}

func readJSON(p string, v any) {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal("%s: %v", p, err)
	}
}

type check struct {
	id, verif, repo, tier string
	cfg                   checkCfg
	seed                  int64
	overlay               map[string][]byte
	replace               map[string]string
	pkg                   string
	tmp                   string
	modfile               string
	bin                   string
	raceBin               string // built with the race detector, when needed
	bounds                map[string]int
	verbose               bool
}

const modPath = "github.com/metafates/bento"

// gather lists the harness files that go over the repository.
func (c *check) gather() {
	c.overlay = map[string][]byte{}
	c.replace = map[string]string{}
	put := func(dst, src string) {
		b, err := os.ReadFile(src)
		if err != nil {
			fatal("%v", err)
		}
		c.overlay[filepath.Join(c.repo, dst)] = b
		c.replace[filepath.Join(c.repo, dst)] = src
	}
	put("internal/zzsym/zzsym.go", filepath.Join(c.verif, "harness/zzsym/zzsym.go"))
	addDir := func(d string) {
		fs, _ := filepath.Glob(filepath.Join(c.verif, "harness", d, "*.go"))
		for _, f := range fs {
			put("internal/zzh/"+d+"/"+filepath.Base(f), f)
		}
	}
	addDir(c.cfg.Dir)
	addDir("zzu")
	for dst, src := range c.cfg.Inpkg {
		put(dst, filepath.Join(c.verif, "harness", src))
	}
	c.pkg = modPath + "/internal/zzh/" + c.cfg.Dir
	tmp, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fatal("%v", err)
	}
	c.tmp = tmp
	if len(c.cfg.Replace) == 0 {
		return
	}
	mod, err := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(c.repo, "go.sum"))
	for m, d := range c.cfg.Replace {
		mod = append(mod, fmt.Sprintf("\nreplace %s => %s\n", m, filepath.Join(c.verif, "harness", d))...)
	}
	c.modfile = filepath.Join(tmp, "go.mod")
	os.WriteFile(c.modfile, mod, 0o644)
	os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644)
}

func (c *check) buildNative() error {
	tmp := c.tmp
	// the harness table
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tzzsym.Main(map[string]func(){\n", c.pkg, modPath+"/internal/zzsym")
	re := regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)
	for p, src := range c.overlay {
		if filepath.Dir(p) != filepath.Join(c.repo, "internal/zzh", c.cfg.Dir) {
			continue
		}
		for _, m := range re.FindAllSubmatch(src, -1) {
			fmt.Fprintf(&b, "\t\t%q: h.%s,\n", m[1], m[1])
		}
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	mainFile := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mainFile, b.Bytes(), 0o644); err != nil {
		return err
	}
	rep := map[string]string{filepath.Join(c.repo, "internal/zzmain/main.go"): mainFile}
	for k, v := range c.replace {
		rep[k] = v
	}
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	c.bin = filepath.Join(tmp, "zzmain")
	return c.build(c.bin)
}

func (c *check) build(bin string, flags ...string) error {
	args := append([]string{"build", "-overlay", filepath.Join(c.tmp, "overlay.json"), "-o", bin}, flags...)
	if c.modfile != "" {
		args = append(args, "-modfile="+c.modfile)
	}
	cmd := exec.Command("go", append(args, modPath+"/internal/zzmain")...)
	cmd.Dir = c.repo
	cmd.Env = goEnv()
	if len(flags) > 0 {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

func (c *check) cleanup() {
	if c.tmp != "" {
		os.RemoveAll(c.tmp)
	}
}

// native runs one vector against the compiled code.
func (c *check) native(fn string, vec []draw, limit time.Duration, reps int) jobOut {
	os := c.natives(fn, [][]draw{vec}, limit, reps, 0)
	return os[0]
}

// nativeRace runs one vector against the code compiled with the race detector.
func (c *check) nativeRace(fn string, vec []draw) jobOut {
	if c.raceBin == "" {
		c.raceBin = filepath.Join(c.tmp, "zzrace")
		if err := c.build(c.raceBin, "-race"); err != nil {
			return jobOut{Status: "ok", Msg: fmt.Sprint("no build with the race detector: ", err)}
		}
	}
	bin := c.bin
	c.bin = c.raceBin
	defer func() { c.bin = bin }()
	o := c.native(fn, vec, 60*time.Second, 50)
	if o.Status == "panic" && !strings.Contains(o.Msg, "DATA RACE") || o.Status == "hang" {
		o.Status = "ok"
	}
	return o
}

func (c *check) natives(fn string, vecs [][]draw, limit time.Duration, reps int, fill uint64) []jobOut {
	var in bytes.Buffer
	for _, v := range vecs {
		if v == nil {
			v = []draw{}
		}
		job := map[string]any{"fn": fn, "vector": v, "tier": c.tier, "bounds": c.bounds, "reps": reps}
		if fill != 0 {
			fill += 0x9e3779b97f4a7c15
			job["fill"], job["domains"] = fill|1, flatDomains()
		}
		j, _ := json.Marshal(job)
		in.Write(j)
		in.WriteByte('\n')
	}
	cmd := exec.Command(c.bin)
	cmd.Stdin = &in
	cmd.Dir = c.tmp
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	res := make([]jobOut, len(vecs))
	if err := cmd.Start(); err != nil {
		for i := range res {
			res[i] = jobOut{Status: "error", Msg: err.Error()}
		}
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	hang := false
	select {
	case werr = <-done:
	case <-time.After(limit):
		hang = true
		cmd.Process.Kill()
		<-done
	}
	dec := json.NewDecoder(&out)
	i := 0
	for ; i < len(res); i++ {
		if dec.Decode(&res[i]) != nil {
			break
		}
	}
	if i < len(res) {
		if hang {
			res[i] = jobOut{Status: "hang", Msg: fmt.Sprintf("still running after %s", limit)}
		} else if strings.Contains(errb.String(), "all goroutines are asleep") {
			res[i] = jobOut{Status: "hang", Msg: "all goroutines are asleep - deadlock"}
		} else {
			m := errb.String()
			if len(m) > 1500 {
				m = m[:1500]
			}
			res[i] = jobOut{Status: "panic", Msg: fmt.Sprintf("%v %s", werr, m)}
		}
		i++
		if i < len(res) {
			copy(res[i:], c.natives(fn, vecs[i:], limit, reps, fill))
		}
	}
	return res
}

type report struct {
	name       string
	run        *Run
	err        error
	wall       time.Duration
	bad        []*Violation // confirmed
	knownHits  []string
	unconf     []*Violation
	validated  int
	continued  int // runs of paths that the engine could not finish
	mismatches []string
	sampleOut  []any
	sol        solStats
}

type solStats struct {
	queries, sat, unsat, unknown int64
	time                         time.Duration
}

func (c *check) loadKnown() []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &ks); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return ks
}

func (k known) match(id string, v *Violation) bool {
	if k.Status != "open" || k.Property != id || k.Harness != "" && k.Harness != v.Harness || k.Kind != "" && k.Kind != v.Kind {
		return false
	}
	if k.Msg != "" && !regexp.MustCompile(k.Msg).MatchString(v.Msg) {
		return false
	}
	if k.Where != "" && !regexp.MustCompile(k.Where).MatchString(v.Site) {
		return false
	}
	for name, re := range k.Vector {
		ok := false
		for _, d := range v.Vector {
			if d.Name == name {
				ok = regexp.MustCompile(re).MatchString(strconv.FormatInt(d.Int, 10))
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (c *check) runHarness(e *Engine, name string, budget time.Duration, ns int, nonative bool) *report {
	t := time.Now()
	rep := &report{name: name}
	ks := c.loadKnown()
	var before solStats
	for _, m := range e.machines {
		before.add(m.sols[0])
		before.add(m.sols[1])
	}
	rep.run, rep.err = e.Explore(c.pkg, name, budget, ns, c.cfg.MaxVio, func(v *Violation) string {
		for _, k := range ks {
			if k.match(c.id, v) {
				return k.What
			}
		}
		return ""
	})
	for _, m := range e.machines {
		rep.sol.add(m.sols[0])
		rep.sol.add(m.sols[1])
	}
	rep.sol.sub(before)
	r := rep.run
	if r != nil && !nonative {
		for k := range r.knownHits {
			rep.knownHits = append(rep.knownHits, k)
		}
		sort.Strings(rep.knownHits)
		for _, v := range r.violations {
			reps := 1
			lim := 10 * time.Second
			sched := c.cfg.Sched || len(v.Sched) > 0 // the schedule is part of the counterexample
			if sched {
				reps = 200
				lim = 20 * time.Second
			}
			var o jobOut
			if v.Kind == "race" {
				o = c.nativeRace(name, v.Vector)
			} else {
				o = c.native(name, v.Vector, lim, reps)
			}
			switch o.Status {
			case "assert", "panic", "hang":
				v.Conf = true
				v.Native = o.Status + ": " + o.Msg
				rep.bad = append(rep.bad, v)
			default:
				v.Native = o.Status + ": " + o.Msg
				if (sched || v.Kind == "race") && o.Status == "ok" && v.Kind != "steps" {
					rep.bad = append(rep.bad, v) // the schedule is the counterexample
				} else {
					rep.unconf = append(rep.unconf, v)
				}
			}
			if len(rep.bad) >= 3 {
				break
			}
		}
		var vecs [][]draw
		for _, s := range r.samples {
			vecs = append(vecs, s.Vector)
		}
		if len(vecs) > 0 {
			outs := c.natives(name, vecs, 20*time.Second, 1, 0)
			for i, o := range outs {
				s := r.samples[i]
				d := ""
				if o.Status != "ok" {
					d = o.Status + ": " + o.Msg
				} else if c.cfg.Sched {
				} else {
					for _, k := range s.Order {
						if o.Observe[k] != s.Observe[k] {
							d += fmt.Sprintf("%s: engine %s, native %s; ", k, s.Observe[k], o.Observe[k])
						}
					}
				}
				if d == "" {
					rep.validated++
				} else {
					vb, _ := json.Marshal(s.Vector)
					rep.mismatches = append(rep.mismatches, d+" vector "+string(vb))
					if o.Status == "assert" || o.Status == "panic" || o.Status == "hang" {
						v := &Violation{Kind: o.Status, Msg: o.Msg, Vector: s.Vector, Harness: name, Conf: true, Native: d}
						hit := ""
						for _, k := range ks {
							if k.match(c.id, v) {
								hit = k.What
							}
						}
						if hit == "" {
							rep.bad = append(rep.bad, v)
						}
					}
				}
				if i < 3 {
					rep.sampleOut = append(rep.sampleOut, map[string]any{"harness": name, "vector": compact(s.Vector), "observe": s.Observe})
				}
			}
		}
	}
	if r != nil && !nonative && len(rep.bad) == 0 && len(r.cuts) > 0 {
		c.finishCuts(rep, r, ks)
	}
	rep.wall = time.Since(t)
	c.print(rep)
	return rep
}

func flatDomains() map[string][]int64 {
	m := map[string][]int64{}
	for k, rs := range domains {
		for _, r := range rs {
			m[k] = append(m[k], r[0], r[1])
		}
	}
	return m
}

// finishCuts runs the compiled code on from the model of each path that met a
// construct the engine cannot execute. It decides nothing, but a failure is one.
func (c *check) finishCuts(rep *report, r *Run, ks []known) {
	end := time.Now().Add(12 * time.Second)
	per, confirm := 16, 1
	if c.cfg.Sched {
		per, confirm = 8, 3
	}
	for round := uint64(1); round <= 24; round++ {
		for i := 0; i < len(r.cuts); i += per {
			if time.Now().After(end) || len(rep.bad) >= 3 {
				return
			}
			vecs := r.cuts[i:min(i+per, len(r.cuts))]
			outs := c.natives(rep.name, vecs, 20*time.Second, 1, round<<32+uint64(i)+uint64(c.seed)<<20)
		next:
			for k, o := range outs {
				rep.continued++
				if o.Status != "assert" && o.Status != "panic" {
					continue
				}
				vec := append(append([]draw{}, vecs[k]...), o.Filled...)
				for j := 0; j < confirm; j++ {
					if a := c.native(rep.name, vec, 20*time.Second, 1); a.Status != o.Status {
						continue next
					}
				}
				v := &Violation{Kind: o.Status, Msg: o.Msg, Vector: vec, Harness: rep.name, Conf: true, Native: "run on by the compiled code: " + o.Status + ": " + o.Msg}
				for _, x := range ks {
					if x.match(c.id, v) {
						continue next
					}
				}
				rep.bad = append(rep.bad, v)
				if len(rep.bad) >= 3 {
					return
				}
			}
		}
	}
}

func compact(v []draw) map[string]int64 {
	m := map[string]int64{}
	for _, d := range v {
		m[d.Name] = d.Int
	}
	return m
}

func (s *solStats) add(x *Solver) {
	if x == nil {
		return
	}
	s.queries += x.Queries
	s.sat += x.SatN
	s.unsat += x.UnsatN
	s.unknown += x.Unknowns
	s.time += x.Time
}
func (s *solStats) sub(o solStats) {
	s.queries -= o.queries
	s.sat -= o.sat
	s.unsat -= o.unsat
	s.unknown -= o.unknown
	s.time -= o.time
}

func (c *check) print(rep *report) {
	r := rep.run
	if rep.err != nil {
		fmt.Printf("  %s: ERROR %v\n", rep.name, rep.err)
	}
	if r == nil {
		return
	}
	st := "complete"
	if r.timedOut {
		st = "budget reached"
	} else if r.stop {
		st = "stopped"
	}
	var cov []string
	for k, n := range r.covers {
		cov = append(cov, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(cov)
	if porPrint {
		var x uint64
		for h := range r.prints {
			x ^= h
		}
		fmt.Printf("  %d classes of schedules, %x\n", len(r.prints), x)
	}
	fmt.Printf("  %s: %s; %d paths (%d cut by assumptions), %d asserts, %d queries (%d unsat, %d unknown) %.1fs solver, %d steps, depth %d, %d/%d traces validated, %.1fs; covers %v\n",
		rep.name, st, r.paths.Load(), r.abandoned.Load(), r.asserts.Load(), rep.sol.queries, rep.sol.unsat, r.unknowns.Load(), rep.sol.time.Seconds(),
		r.steps.Load(), r.maxDepth, rep.validated, len(r.samples), rep.wall.Seconds(), cov)
	if rep.continued > 0 {
		fmt.Printf("    %d paths not decided; %d runs of the compiled code from their models\n", r.cutN, rep.continued)
	}
	for _, s := range sortedKeys(r.issues) {
		fmt.Printf("    issue x%d: %s\n", r.issues[s], s)
	}
	for i, s := range rep.mismatches {
		if i < 5 {
			fmt.Printf("    MISMATCH %s\n", s)
		}
	}
	for _, v := range rep.unconf {
		b, _ := json.Marshal(v.Vector)
		fmt.Printf("    unconfirmed %s %q at %s: native %s; vector %s\n", v.Kind, v.Msg, v.Site, v.Native, b)
	}
	for _, v := range rep.bad {
		b, _ := json.Marshal(compact(v.Vector))
		fmt.Printf("    counterexample %s %q at %s: native %s; vector %s\n", v.Kind, v.Msg, v.Site, v.Native, b)
	}
	if c.verbose {
		for _, v := range r.violations {
			fmt.Printf("    engine violation %s %q at %s\n      %s\n", v.Kind, v.Msg, v.Site, strings.Join(v.Stack, "\n      "))
		}
		for i, s := range r.samples {
			if i < 5 {
				b, _ := json.Marshal(compact(s.Vector))
				fmt.Printf("    sample %s -> %v\n", b, s.Observe)
			}
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *check) conclude(e *Engine, reps []*report, wall time.Duration) int {
	var states, trans, queries, unsat, unknown, steps, asserts, cut int64
	var solT time.Duration
	validated := 0
	var samples []any
	vio := 0
	funcs := map[string]bool{}
	var hs []any
	exhaustive := true
	errd := false
	exit := 0
	var mism []string
	knownSeen := map[string]bool{}
	os.MkdirAll(filepath.Join(c.verif, "replay"), 0o755)
	for _, rep := range reps {
		r := rep.run
		if rep.err != nil {
			errd = true
		}
		if r == nil {
			continue
		}
		states += r.paths.Load()
		cut += r.abandoned.Load()
		trans += r.decisions.Load()
		steps += r.steps.Load()
		asserts += r.asserts.Load()
		queries += rep.sol.queries
		unsat += rep.sol.unsat
		unknown += r.unknowns.Load()
		solT += rep.sol.time
		validated += rep.validated
		samples = append(samples, rep.sampleOut...)
		mism = append(mism, rep.mismatches...)
		complete := !r.timedOut && !r.stop && len(r.issues) == 0 && r.unknowns.Load() == 0 && len(rep.unconf) == 0
		if !complete {
			exhaustive = false
		}
		hs = append(hs, map[string]any{"harness": rep.name, "complete_within_bounds": complete, "paths": r.paths.Load(), "cut_by_assumptions": r.abandoned.Load(),
			"bounds": r.bounds, "covers": r.covers, "assertions": r.asserts.Load(), "queries": rep.sol.queries, "unsat": rep.sol.unsat, "unknown": r.unknowns.Load(),
			"solver_s": round(rep.sol.time.Seconds()), "wall_s": round(rep.wall.Seconds()), "issues": r.issues, "unconfirmed": len(rep.unconf), "budget_reached": r.timedOut})
		for _, k := range rep.knownHits {
			if !knownSeen[k] {
				knownSeen[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
			}
		}
		for i, v := range rep.bad {
			vio++
			p := filepath.Join(c.verif, "replay", fmt.Sprintf("%s-%s-%d.json", c.id, rep.name, i))
			b, _ := json.MarshalIndent(struct {
				Property string `json:"property"`
				*Violation
				Tier string `json:"tier"`
			}{c.id, v, c.tier}, "", " ")
			os.WriteFile(p, b, 0o644)
			if exit == 0 {
				fmt.Printf("%s: %s %s (at %s)\n", rep.name, v.Kind, v.Msg, v.Site)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
			exit = 1
		}
	}
	e.funcs.Range(func(_, v any) bool {
		cf := v.(*cfunc)
		if cf.hit.Load() && !strings.Contains(cf.name, "/internal/zzh/") {
			funcs[strings.ReplaceAll(cf.name, modPath, "bento")] = true
		}
		return true
	})
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": round(wall.Seconds()), "violations": vio,
		"assumptions": append([]string{"SSA of the current /repo tree is executed symbolically by /verif/gosym; Unicode segmentation, fmt, regexp, sync and time are engine models; claims hold within the stated bounds only"}, c.cfg.Assume...),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": exhaustive,
			"explanation": "states: feasible symbolic paths executed to their end, each standing for every input satisfying its path condition; transitions: decided symbolic branches, values and choices; exhaustive: every harness ended with an empty work list, no undecided query and no unsupported construct, so the assertions hold for every input within the bounds",
			"harnesses":   hs, "functions_encoded": fl, "ssa_steps": steps, "assertions": asserts, "solver_queries": queries, "unsat": unsat, "unknown": unknown,
			"solver_s": round(solT.Seconds()), "paths_cut_by_assumptions": cut, "outside_bounds": c.cfg.Outside, "mismatches": mism,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if exit == 0 && errd {
		fmt.Println("check could not run")
		return 2
	}
	if exit == 0 {
		fmt.Printf("check %s: held on everything explored (%d paths, %d queries, %.1fs)\n", c.id, states, queries, wall.Seconds())
	}
	return exit
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }
