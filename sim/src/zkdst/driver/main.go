// Command driver is the check: it builds the simulation of the current /repo, searches seeds, minimises, reports.
//
//	driver check PROP        exit 0 held, 1 violation, 3 trouble of the check itself
//	driver replay FILE       rebuild and run a replay file; exit 1 when it reproduces
//	driver determinism PROP N   run N seeds repeatedly and compare the event logs
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Decision struct {
	Q    int64
	Pick uint32
}

type Plan struct {
	Prop    string            `json:"prop"`
	Seed    uint64            `json:"seed"`
	Policy  map[string]any    `json:"policy"`
	Decs    []Decision        `json:"decs,omitempty"`
	Ops     []json.RawMessage `json:"ops"`
	Binary  string            `json:"binary,omitempty"`
	Extra   map[string]int64  `json:"extra,omitempty"`
	Expect  string            `json:"expect,omitempty"`
	Comment string            `json:"comment,omitempty"`
}

type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Op     int    `json:"op"`
}

type Out struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	Status   string         `json:"status"`
	Info     string         `json:"info"`
	Viols    []Viol         `json:"viols"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Ops      int            `json:"ops"`
	Checks   int            `json:"checks"`
	Cases    []uint64       `json:"cases"`
	Samples  []string       `json:"samples"`
	Steps    int64          `json:"steps"`
	Switches int64          `json:"switches"`
	NDecs    int            `json:"ndecs"`
	IL       uint64         `json:"il"`
	Sites    int            `json:"sites"`
	Tasks    int            `json:"tasks"`
	SimNS    int64          `json:"simns"`
	Log      uint64         `json:"log"`
	Plan     *Plan          `json:"plan"`
	Decs     []Decision     `json:"decs"`

	fatal string
	bin   string
}

const (
	root    = "/verif"
	troub   = 3
	jobs    = 8
	perRun  = 150 * time.Second
	minTime = 60 * time.Second
)

// which binaries run a property, and in which proportion
type conf struct {
	bins  []string
	quick time.Duration
	deep  time.Duration
	fatal bool // a fatal error of the process violates this property
	level string
	rule  string
}

var confs = map[string]conf{}

func trouble(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check trouble: "+f+"\n", a...)
	cleanup()
	os.Exit(troub)
}

var work string

func cleanup() {
	if work != "" {
		os.RemoveAll(work)
	}
}

func env(gopath string) []string {
	var e []string
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "GO") {
			continue
		}
		e = append(e, v)
	}
	return append(e, "GO111MODULE=off", "GOFLAGS=", "GOWORK=off", "GOTOOLCHAIN=local", "GOPATH="+gopath)
}

func sh(e []string, dir string, name string, a ...string) (string, error) {
	c := exec.Command(name, a...)
	c.Env = e
	c.Dir = dir
	b, err := c.CombinedOutput()
	return string(b), err
}

// build makes the node binaries from the repository's working tree.
func build(bins []string) map[string]string {
	os.MkdirAll(filepath.Join(root, ".build"), 0o755)
	w, err := os.MkdirTemp(filepath.Join(root, ".build"), "run")
	if err != nil {
		trouble("%v", err)
	}
	work = w
	repo := os.Getenv("ZKDST_REPO")
	if repo == "" {
		repo = "/repo"
	}
	gp := filepath.Join(w, "gp")
	sim := filepath.Join(root, "sim")
	ins := filepath.Join(w, "instrument")
	if o, err := sh(env(sim), w, "go", "build", "-o", ins, "zkdst/instrument"); err != nil {
		trouble("building the instrumenter: %v\n%s", err, o)
	}
	if o, err := sh(env(sim), w, ins, repo, gp, "on"); err != nil {
		trouble("instrumenting %s: %v\n%s", repo, err, o)
	}
	res := map[string]string{}
	for _, b := range bins {
		if res[b] != "" {
			continue
		}
		out := filepath.Join(w, "node."+b)
		a := []string{"build", "-o", out}
		pkg := "zkdst/node"
		switch b {
		case "race":
			a = append(a, "-race")
		case "curve":
			pkg = "zkdst/curvenode"
		case "curverace":
			a = append(a, "-race")
			pkg = "zkdst/curvenode"
		}
		if o, err := sh(env(gp+":"+sim), w, "go", append(a, pkg)...); err != nil {
			trouble("building the simulation (%s): %v\n%s", b, err, o)
		}
		res[b] = out
	}
	return res
}

// child runs one simulated run in its own process.
func child(bin string, timeout time.Duration, a ...string) (*Out, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, a...)
	c.Env = append(env(""), "GODEBUG=cryptocustomrand=1,randautoseed=0", "GORACE=exitcode=0 halt_on_error=0 history_size=4", "GOMAXPROCS=2", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &limited{b: &se, n: 1 << 20}
	runtime.LockOSThread()
	err := c.Run()
	runtime.UnlockOSThread()
	if ctx.Err() != nil {
		return nil, fmt.Errorf("watchdog: %s %v ran for more than %v", bin, a, timeout)
	}
	if i := strings.LastIndex(so.String(), "\nZKDST "); i >= 0 && err == nil {
		o := &Out{}
		if e := json.Unmarshal([]byte(so.String()[i+7:]), o); e != nil {
			return nil, e
		}
		for i := range o.Viols {
			if o.Viols[i].Class == "race" {
				o.Viols[i].Detail += ": " + raceSummary(se.String())
			}
		}
		return o, nil
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 {
		t := se.String()
		for _, l := range strings.Split(t, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
				return &Out{Status: "fatal", fatal: l + " " + frame(t), Viols: []Viol{{"fatal", l + " " + frame(t), -1}}}, nil
			}
		}
	}
	return nil, fmt.Errorf("%s %v: %v\n%s", bin, a, err, tail(se.String()))
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

func frame(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "/github.com/mit-dci/zksigma/"); i >= 0 && strings.Contains(l, ".go:") {
			return "at " + strings.Fields(l[i+len("/github.com/mit-dci/zksigma/"):])[0]
		}
	}
	return ""
}

func raceSummary(s string) string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "/github.com/mit-dci/zksigma/"); i >= 0 && strings.Contains(l, ".go:") {
			r = append(r, strings.Fields(l[i+len("/github.com/mit-dci/zksigma/"):])[0])
		}
		if len(r) == 6 {
			break
		}
	}
	return strings.Join(r, " ")
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// ---- known findings ----

type known struct{ prop, class, substr, text string }

func loadKnown() (ks []known) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := known{text: strings.TrimPrefix(l, "finding: ")}
		for _, f := range strings.Split(k.text, " | ") {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = strings.TrimPrefix(f, "property=")
			case strings.HasPrefix(f, "class="):
				k.class = strings.TrimPrefix(f, "class=")
			case strings.HasPrefix(f, "detail~"):
				k.substr = strings.TrimPrefix(f, "detail~")
			}
		}
		if k.prop != "" && k.class != "" && k.substr != "" {
			ks = append(ks, k)
		}
	}
	return
}

func (k known) match(prop string, v Viol) bool {
	return k.prop == prop && k.class == v.Class && strings.Contains(v.Detail, k.substr)
}

// ---- the search ----

type agg struct {
	sync.Mutex
	runs, failed, checks, ops int
	bins                      map[string]int
	faults, probes            map[string]int
	cases                     map[uint64]bool
	ils                       map[uint64]bool
	samples                   []string
	steps, switches, simns    int64
	decs                      int64
	sites                     int
	tasks                     int
	status                    map[string]int
	bad                       []*Out
	trouble                   []string
}

func (a *agg) add(o *Out) {
	a.runs++
	a.bins[o.bin]++
	a.checks += o.Checks
	a.ops += o.Ops
	for k, v := range o.Faults {
		a.faults[k] += v
	}
	for k, v := range o.Probes {
		a.probes[k] += v
	}
	for _, c := range o.Cases {
		a.cases[c] = true
	}
	a.ils[o.IL] = true
	if len(a.samples) < 6 {
		for _, s := range o.Samples {
			if len(a.samples) < 6 {
				a.samples = append(a.samples, fmt.Sprintf("seed %d: %s", o.Seed, s))
			}
		}
	}
	a.steps += o.Steps
	a.switches += o.Switches
	a.simns += o.SimNS
	a.decs += int64(o.NDecs)
	if o.Sites > a.sites {
		a.sites = o.Sites
	}
	a.tasks += o.Tasks
	a.status[o.Status]++
}

func seedOf(base uint64, i int) uint64 { return mix(base*1000003+uint64(i)) >> 16 }

func search(prop string, cf conf, bins map[string]string, base uint64, tier string, budget time.Duration, ks []known, hits map[string]int) *agg {
	a := &agg{bins: map[string]int{}, faults: map[string]int{}, probes: map[string]int{}, cases: map[uint64]bool{}, ils: map[uint64]bool{}, status: map[string]int{}}
	start := time.Now()
	next := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				a.Lock()
				if stop || (time.Since(start) > budget && next >= 2*jobs) || len(a.trouble) > 2 {
					a.Unlock()
					return
				}
				i := next
				next++
				a.Unlock()
				seed := seedOf(base, i)
				bn := cf.bins[i%len(cf.bins)]
				o, err := child(bins[bn], perRun, "run", prop, strconv.FormatUint(seed, 10), tier)
				if err != nil { // once more, alone in its patience
					o, err = child(bins[bn], 3*perRun, "run", prop, strconv.FormatUint(seed, 10), tier)
				}
				a.Lock()
				if err != nil {
					a.trouble = append(a.trouble, err.Error())
					a.Unlock()
					continue
				}
				o.Seed, o.bin = seed, bn
				a.add(o)
				if o.Status == "fatal" && !cf.fatal {
					a.probes["process died (not this property)"]++
					o.Viols = nil
				}
				var left []Viol
				for _, v := range o.Viols {
					kn := false
					for _, k := range ks {
						if k.match(prop, v) {
							hits[k.text]++
							kn = true
						}
					}
					if !kn {
						left = append(left, v)
					}
				}
				o.Viols = left
				if len(left) > 0 {
					a.failed++
					a.bad = append(a.bad, o)
					if len(a.bad) >= 3 || time.Since(start) > budget/2 {
						stop = true
					}
				}
				a.Unlock()
			}
		}()
	}
	wg.Wait()
	return a
}

// ---- replay and minimisation ----

func writePlan(p *Plan, path string) {
	b, err := json.Marshal(p)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		trouble("%v", err)
	}
}

var planNo int
var planMu sync.Mutex

func try(p *Plan, bins map[string]string) *Out {
	planMu.Lock()
	planNo++
	path := filepath.Join(work, fmt.Sprintf("plan%d.json", planNo))
	planMu.Unlock()
	writePlan(p, path)
	defer os.Remove(path)
	o, err := child(bins[p.Binary], perRun, "replay", path)
	if err != nil {
		return nil
	}
	return o
}

func (o *Out) has(class string) *Viol {
	if o == nil {
		return nil
	}
	for i := range o.Viols {
		if o.Viols[i].Class == class {
			return &o.Viols[i]
		}
	}
	return nil
}

func clone(p *Plan) *Plan {
	q := *p
	q.Ops = append([]json.RawMessage(nil), p.Ops...)
	q.Decs = append([]Decision(nil), p.Decs...)
	q.Policy = map[string]any{}
	for k, v := range p.Policy {
		q.Policy[k] = v
	}
	return &q
}

// firstOf runs candidates in parallel and returns the first (in order) that still fails the same way.
func firstOf(cands []*Plan, class string, bins map[string]string) *Plan {
	for i := 0; i < len(cands); i += jobs {
		j := i + jobs
		if j > len(cands) {
			j = len(cands)
		}
		ok := make([]bool, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				ok[k-i] = try(cands[k], bins).has(class) != nil
			}(k)
		}
		wg.Wait()
		for k := range ok {
			if ok[k] {
				return cands[i+k]
			}
		}
	}
	return nil
}

func minimise(p *Plan, class string, bins map[string]string, deadline time.Time) *Plan {
	over := func() bool { return time.Now().After(deadline) }
	// operations
	for size := (len(p.Ops) + 1) / 2; size >= 1 && len(p.Ops) > 1 && !over(); {
		var cands []*Plan
		for at := 0; at < len(p.Ops); at += size {
			q := clone(p)
			end := at + size
			if end > len(p.Ops) {
				end = len(p.Ops)
			}
			q.Ops = append(q.Ops[:at:at], p.Ops[end:]...)
			if len(q.Ops) > 0 {
				cands = append(cands, q)
			}
		}
		if q := firstOf(cands, class, bins); q != nil {
			p = q
			if size > (len(p.Ops)+1)/2 {
				size = (len(p.Ops) + 1) / 2
			}
			continue
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
	}
	// arguments: smaller numbers
	for oi := 0; oi < len(p.Ops) && !over(); oi++ {
		var m map[string]any
		d := json.NewDecoder(bytes.NewReader(p.Ops[oi]))
		d.UseNumber()
		if d.Decode(&m) != nil {
			continue
		}
		ns, _ := m["n"].([]any)
		for k := range ns {
			n, err := strconv.ParseInt(fmt.Sprint(ns[k]), 10, 64)
			if err != nil || n == 0 {
				continue
			}
			var cands []*Plan
			for _, v := range []int64{0, 1, n / 2, n - 1} {
				if v == n || v > n && n > 0 {
					continue
				}
				ns[k] = v
				b, _ := json.Marshal(m)
				q := clone(p)
				q.Ops[oi] = b
				cands = append(cands, q)
			}
			ns[k] = n
			if q := firstOf(cands, class, bins); q != nil && !over() {
				p = q
				d := json.NewDecoder(bytes.NewReader(p.Ops[oi]))
				d.UseNumber()
				m = nil
				d.Decode(&m)
				ns, _ = m["n"].([]any)
			}
		}
	}
	// the schedule: none at all, or as few decisions as possible
	q := clone(p)
	q.Policy["explicit"], q.Decs = true, nil
	if try(q, bins).has(class) != nil {
		q.Comment = "no scheduling decision needed: tasks run until they block"
		return q
	}
	o := try(p, bins)
	if o == nil || len(o.Decs) == 0 {
		return p
	}
	q = clone(p)
	q.Policy["explicit"], q.Decs = true, o.Decs
	if try(q, bins).has(class) == nil {
		return p
	}
	p = q
	// cut the tail, then blank out decisions
	for lo, hi := 0, len(p.Decs); lo < hi && !over(); {
		mid := (lo + hi) / 2
		c := clone(p)
		c.Decs = c.Decs[:mid]
		if try(c, bins).has(class) != nil {
			hi = mid
			p = c
		} else {
			lo = mid + 1
		}
	}
	for size := (len(p.Decs) + 1) / 2; size >= 1 && !over(); {
		var cands []*Plan
		for at := 0; at < len(p.Decs); at += size {
			c := clone(p)
			end := at + size
			if end > len(c.Decs) {
				end = len(c.Decs)
			}
			c.Decs = append(c.Decs[:at:at], p.Decs[end:]...)
			cands = append(cands, c)
			if len(cands) >= 64 {
				break
			}
		}
		if c := firstOf(cands, class, bins); c != nil {
			p = c
			if size > (len(p.Decs)+1)/2 {
				size = (len(p.Decs) + 1) / 2
			}
			if len(p.Decs) == 0 {
				break
			}
			continue
		}
		if size == 1 {
			break
		}
		size = (size + 1) / 2
	}
	return p
}

// report confirms, minimises and writes the replay file. Empty result: not reproducible.
func report(prop, tier string, o *Out, bins map[string]string) (string, string) {
	p := o.Plan
	if p == nil {
		b, err := exec.Command(bins[o.bin], "plan", prop, strconv.FormatUint(o.Seed, 10), tier).Output()
		if err != nil {
			return "", "no plan: " + err.Error()
		}
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			return "", err.Error()
		}
	}
	p.Binary = o.bin
	class := o.Viols[0].Class
	var ok *Out
	for i := 0; i < 4 && ok == nil; i++ {
		if t := try(p, bins); t.has(class) != nil {
			ok = t
		}
	}
	if ok == nil {
		return "", fmt.Sprintf("seed %d: %s: %s did not come back on replay", o.Seed, class, o.Viols[0].Detail)
	}
	small := minimise(clone(p), class, bins, time.Now().Add(minTime))
	small.Expect = class
	// the replay file must fail the same way in fresh processes
	var last *Out
	good := 0
	for i := 0; i < 3; i++ {
		if t := try(small, bins); t.has(class) != nil {
			good++
			last = t
		}
	}
	if good < 3 {
		small = clone(p)
		small.Expect = class
		last = ok
	}
	v := last.has(class)
	small.Comment = strings.TrimSpace(small.Comment + " " + v.Class + ": " + v.Detail)
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", prop, o.Seed))
	b, _ := json.MarshalIndent(small, "", " ")
	os.WriteFile(path, b, 0o644)
	return path, fmt.Sprintf("%s: %s (seed %d, %d operation(s), %d scheduling decision(s))", v.Class, v.Detail, o.Seed, len(small.Ops), len(small.Decs))
}

func check(prop string) int {
	cf, ok := confs[prop]
	if !ok {
		trouble("unknown property %s", prop)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			base = uint64(n)
		}
	}
	budget := cf.quick
	if tier == "thorough" {
		budget = cf.deep
	}
	if s := os.Getenv("ZKDST_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	start := time.Now()
	fmt.Printf("property %s tier %s VERIF_SEED %d budget %v\n", prop, tier, base, budget)
	bins := build(cf.bins)
	built := time.Since(start)
	ks := loadKnown()
	hits := map[string]int{}
	t0 := time.Now()
	a := search(prop, cf, bins, base, tier, budget, ks, hits)
	searchT := time.Since(t0)
	exit := 0
	nv := 0
	var unrep []string
	for _, o := range a.bad {
		path, text := report(prop, tier, o, bins)
		if path == "" {
			unrep = append(unrep, text)
			continue
		}
		nv++
		fmt.Println(text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit = 1
		break // one minimised report is enough
	}
	evidence(prop, tier, base, cf, a, nv, searchT, time.Since(start), built)
	for t, n := range hits {
		_ = n
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, t)
	}
	if exit == 0 && len(a.trouble) > 0 {
		trouble("%s", strings.Join(a.trouble, "\n"))
	}
	if exit == 0 && a.runs > 0 && a.status["fatal"] == a.runs {
		trouble("every simulated process died before the property could be decided")
	}
	if exit == 0 && len(unrep) > 0 {
		trouble("violations that do not replay (nondeterminism outside the simulator):\n%s", strings.Join(unrep, "\n"))
	}
	fmt.Printf("property %s: %d runs, %d checks, %d distinct cases, %d distinct interleavings, %d violation(s), %.0f s\n", prop, a.runs, a.checks, len(a.cases), len(a.ils), nv, time.Since(start).Seconds())
	return exit
}

func evidence(prop, tier string, base uint64, cf conf, a *agg, nv int, searchT, wall, built time.Duration) {
	h := searchT.Hours()
	cov := map[string]any{
		"evaluations":         a.checks,
		"distinct_nontrivial": len(a.cases),
		"rule":                cf.rule,
		"samples":             a.samples,

		"simulated_runs":                  a.runs,
		"runs_per_binary":                 a.bins,
		"seeds_per_hour":                  int(float64(a.runs) / h),
		"operations":                      a.ops,
		"run_status":                      a.status,
		"runs_with_violation":             a.failed,
		"simulated_time_s":                float64(a.simns) / 1e9,
		"yield_points_executed":           a.steps,
		"scheduling_decisions":            a.decs,
		"task_switches":                   a.switches,
		"tasks":                           a.tasks,
		"distinct_interleavings":          len(a.ils),
		"interleaving_measure":            "hash of the sequence of (task switched to, source site at which the previous task was preempted)",
		"max_preemption_sites_in_one_run": a.sites,
		"faults_injected":                 a.faults,
		"probes":                          a.probes,
		"real_code":                       "all non-test Go code of /repo (root package, btcec, wire), rewritten mechanically so that statements, goroutines, channels, sync and time are scheduling points; math/big and crypto/* of the standard library unmodified",
		"stubs":                           "crypto/rand.Reader, goroutine scheduler, clock and timers, network, disk and reader/writer arguments belong to the simulator",
		"oracle":                          "independent reference implementation (zkdst/refzk: own group law, codecs, provers, verifiers)",
		"build_s":                         built.Seconds(),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": int64(base), "level": cf.level, "coverage": cov, "wall_s": wall.Seconds(), "violations": nv,
		"assumptions": []string{
			"standard library crypto and math/big are correct",
			"sampling, not enumeration: a clean batch is evidence, not proof",
		}}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		trouble("%v", err)
	}
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		trouble("%v", err)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		trouble("%v", err)
	}
	bins := build([]string{p.Binary})
	o, err := child(bins[p.Binary], perRun, "replay", path)
	if err != nil {
		trouble("%v", err)
	}
	for _, v := range o.Viols {
		fmt.Printf("%s: %s\n", v.Class, v.Detail)
	}
	fmt.Printf("event log %016x interleaving %016x\n", o.Log, o.IL)
	if o.has(p.Expect) != nil || (p.Expect == "" && len(o.Viols) > 0) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, path)
		return 1
	}
	fmt.Println("not reproduced on this tree")
	return 0
}

// determinism runs every seed several times at different parallelism and compares event logs.
func determinism(prop string, n int) int {
	cf := confs[prop]
	bins := build(cf.bins)
	type key struct {
		log, il, steps uint64
	}
	seen := make([]map[key]int, n)
	var mu sync.Mutex
	for _, par := range []int{8, 3, 16} {
		sem := make(chan bool, par)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			sem <- true
			go func(i int) {
				defer wg.Done()
				o, err := child(bins[cf.bins[i%len(cf.bins)]], perRun, "run", prop, strconv.FormatUint(seedOf(99, i), 10), "quick")
				<-sem
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					fmt.Println("trouble", err)
					return
				}
				if seen[i] == nil {
					seen[i] = map[key]int{}
				}
				seen[i][key{o.Log, o.IL, uint64(o.Steps)}]++
			}(i)
		}
		wg.Wait()
	}
	bad := 0
	for i, s := range seen {
		if len(s) != 1 {
			fmt.Println("seed", seedOf(99, i), "diverges:", s)
			bad++
		}
	}
	fmt.Printf("determinism %s: %d seeds x 3, %d diverging\n", prop, n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: driver check PROP | replay FILE | determinism PROP N")
		os.Exit(troub)
	}
	code := troub
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "determinism":
		n, _ := strconv.Atoi(os.Args[3])
		code = determinism(os.Args[2], n)
	case "list":
		var ks []string
		for k := range confs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		code = 0
	}
	cleanup()
	os.Exit(code)
}
