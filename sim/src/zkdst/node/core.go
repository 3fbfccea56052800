// Command node runs one simulated run: a plan of operations, one seed, one process.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"

	crand "crypto/rand"

	"zkdst/refzk"
	"zkdst/simrt"
)

// Op is one self-contained step of a plan.
type Op struct {
	T    string  `json:"t"`           // what to do
	K    string  `json:"k,omitempty"` // proof kind or sub-kind
	A    string  `json:"a,omitempty"` // attack, fault or variant
	C    int     `json:"c"`           // client task that runs it
	Seed uint64  `json:"seed"`
	N    []int64 `json:"n,omitempty"`
}

func (o *Op) n(i int) int64 {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

// Plan is a complete run: workload, faults and schedule.
type Plan struct {
	Prop    string           `json:"prop"`
	Seed    uint64           `json:"seed"`
	Policy  simrt.Policy     `json:"policy"`
	Decs    []simrt.Decision `json:"decs,omitempty"`
	Ops     []Op             `json:"ops"`
	Binary  string           `json:"binary,omitempty"`
	Extra   map[string]int64 `json:"extra,omitempty"`
	Expect  string           `json:"expect,omitempty"`
	Comment string           `json:"comment,omitempty"`
}

// Viol is a property violation.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	Op     int    `json:"op"`
}

// Out is what a run reports.
type Out struct {
	Prop     string           `json:"prop"`
	Seed     uint64           `json:"seed"`
	Status   string           `json:"status"`
	Info     string           `json:"info,omitempty"`
	Viols    []Viol           `json:"viols"`
	Faults   map[string]int   `json:"faults"`
	Probes   map[string]int   `json:"probes"`
	Ops      int              `json:"ops"`
	Checks   int              `json:"checks"`
	Cases    []uint64         `json:"cases"`
	Samples  []string         `json:"samples,omitempty"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	NDecs    int              `json:"ndecs"`
	IL       uint64           `json:"il"`
	Sites    int              `json:"sites"`
	Tasks    int              `json:"tasks"`
	SimNS    int64            `json:"simns"`
	Log      uint64           `json:"log"`
	Plan     *Plan            `json:"plan,omitempty"`
	Decs     []simrt.Decision `json:"decs,omitempty"`
}

// R is the only randomness of the harness.
type R struct {
	s  uint64
	sp int           // forgers: one choice in sp is a special value (0: never)
	mp []refzk.Point // earlier choices, to be met again
	ms []*big.Int
}

func (r *R) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}
func (r *R) n(k int) int            { return int(r.u64() % uint64(k)) }
func (r *R) p(num, den int) bool    { return r.n(den) < num }
func (r *R) pick(s []string) string { return s[r.n(len(s))] }
func (r *R) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64() >> 24)
	}
	return b
}
func (r *R) scalar() *big.Int {
	return new(big.Int).Mod(new(big.Int).SetBytes(r.bytes(40)), refzk.N)
}
func (r *R) nz() *big.Int {
	for {
		if s := r.scalar(); s.Sign() != 0 {
			return s
		}
	}
}

// Rec collects what one task observed; tasks never share one.
type Rec struct {
	viols   []Viol
	faults  map[string]int
	probes  map[string]int
	cases   []uint64
	samples []string
	checks  int
	ops     int
	log     uint64
	op      int
	masks   []mask
}

func newRec() *Rec {
	return &Rec{faults: map[string]int{}, probes: map[string]int{}, log: 14695981039346656037}
}

func (r *Rec) viol(class, f string, a ...interface{}) {
	d := fmt.Sprintf(f, a...)
	if len(d) > 600 {
		d = d[:600]
	}
	if len(r.viols) < 20 {
		r.viols = append(r.viols, Viol{class, d, r.op})
	}
	r.event("VIOL " + class)
}
func (r *Rec) fault(k string) { r.faults[k]++; r.event("fault " + k) }
func (r *Rec) probe(k string) { r.probes[k]++ }
func (r *Rec) event(s string) {
	for i := 0; i < len(s); i++ {
		r.log = (r.log ^ uint64(s[i])) * 1099511628211
	}
}

// kase records a distinct explored case and an event.
func (r *Rec) kase(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	r.cases = append(r.cases, h.Sum64())
	r.checks++
	r.event(s)
	if len(r.samples) < 3 {
		if len(s) > 300 {
			s = s[:300]
		}
		r.samples = append(r.samples, s)
	}
}

func (r *Rec) merge(o *Rec) {
	r.viols = append(r.viols, o.viols...)
	for k, v := range o.faults {
		r.faults[k] += v
	}
	for k, v := range o.probes {
		r.probes[k] += v
	}
	r.cases = append(r.cases, o.cases...)
	r.samples = append(r.samples, o.samples...)
	r.checks += o.checks
	r.ops += o.ops
	r.log = simrt.Mix(r.log, o.log)
	r.masks = append(r.masks, o.masks...)
}

// ---- entropy seam: crypto/rand.Reader ----

var errEntropy = errors.New("simulated entropy failure")

// Ent is the entropy source as one operation (and the workers it starts) sees it.
type Ent struct {
	Seed    uint64
	Steer   int // 0 random, n: one draw in n is an edge value
	Short   bool
	FailAt  int // index of the failing draw, -1 never
	Persist bool
	Queue   []*big.Int // the first 32-byte draws
	Kind    int        // 0 plain error, 1 EOF, 2 partial then error, 3 unexpected EOF
	Draws   int
	Bytes   int
	Fired   int
	Steered int
	Shorts  int
}

type entropy struct{}

var edge32 [12][32]byte

func initEdges() {
	put := func(i int, b *big.Int) { b.FillBytes(edge32[i][:]) }
	one := big.NewInt(1)
	put(0, new(big.Int))
	put(1, one)
	put(2, big.NewInt(2))
	put(3, new(big.Int).Sub(refzk.N, one))
	put(4, new(big.Int).Sub(refzk.N, big.NewInt(2)))
	put(5, refzk.N)
	put(6, new(big.Int).Sub(new(big.Int).Lsh(one, 256), one))
	put(7, new(big.Int).Lsh(one, 248))
	put(8, new(big.Int).Sub(new(big.Int).Lsh(one, 248), one))
	put(9, new(big.Int).Lsh(one, 128))
	put(10, new(big.Int).Rsh(refzk.N, 1))
	put(11, big.NewInt(255))
}

//go:norace
func (entropy) Read(p []byte) (int, error) {
	t := simrt.Cur()
	if t == nil {
		for i := range p {
			p[i] = byte(i*7 + 1)
		}
		return len(p), nil
	}
	if len(p) == 1 { // crypto/ecdsa may or may not ask for one byte: it must not move the stream
		p[0] = 0
		return 1, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	simrt.Yield()
	e := (*Ent)(t.Data)
	if e == nil {
		fill(p, t.Seed, &t.Ctr)
		return len(p), nil
	}
	d := e.Draws
	if e.FailAt >= 0 && (d == e.FailAt || (e.Persist && d > e.FailAt)) {
		e.Draws++
		e.Fired++
		switch e.Kind {
		case 1:
			return 0, io.EOF
		case 2:
			k := len(p) / 2
			fill(p[:k], simrt.Mix(t.Seed, e.Seed), &t.Ctr)
			return k, errEntropy
		case 3:
			return 0, io.ErrUnexpectedEOF
		}
		return 0, errEntropy
	}
	e.Draws++
	if d < len(e.Queue) && len(p) == 32 {
		e.Queue[d].FillBytes(p)
		e.Bytes += 32
		return 32, nil
	}
	if e.Steer > 0 && len(p) == 32 {
		t.Ctr++
		h := simrt.Mix(simrt.Mix(t.Seed, e.Seed), t.Ctr)
		if h%uint64(e.Steer) == 0 {
			k := (h >> 20) % uint64(len(edge32)+4)
			e.Steered++
			e.Bytes += 32
			if k < uint64(len(edge32)) {
				for i := range p {
					p[i] = edge32[k][i]
				}
				return 32, nil
			}
			fill(p, simrt.Mix(t.Seed, e.Seed), &t.Ctr)
			z := 1 + int(h>>40)%20
			for i := 0; i < z; i++ {
				if k%2 == 0 {
					p[i] = 0
				} else {
					p[31-i] = 0
				}
			}
			return 32, nil
		}
	}
	if e.Short && len(p) > 1 {
		t.Ctr++
		h := simrt.Mix(simrt.Mix(t.Seed, e.Seed), t.Ctr)
		if h%2 == 0 {
			k := 1 + int((h>>8)%uint64(len(p)-1))
			if k == len(p)-1 { // the rest must not look like a one-byte request
				k = len(p)
			}
			fill(p[:k], simrt.Mix(t.Seed, e.Seed), &t.Ctr)
			if k < len(p) {
				e.Shorts++
			}
			e.Bytes += k
			return k, nil
		}
	}
	fill(p, simrt.Mix(t.Seed, e.Seed), &t.Ctr)
	e.Bytes += len(p)
	return len(p), nil
}

//go:norace
func fill(p []byte, seed uint64, ctr *uint64) {
	var x uint64
	for i := range p {
		if i%8 == 0 {
			*ctr++
			x = simrt.Mix(seed, *ctr)
		}
		p[i] = byte(x)
		x >>= 8
	}
}

//go:norace
func use(e *Ent) { simrt.Reseed(e.Seed, unsafe.Pointer(e)) }

// with runs f with the given entropy source for this task and its workers.
func with(e *Ent, f func()) {
	use(e)
	f()
	simrt.Reseed(e.Seed^0xdead, nil)
}

// pan is a recovered panic.
type pan struct {
	v     interface{}
	stack string
}

func (p *pan) String() string {
	// the first library frame identifies the place
	where := ""
	for _, l := range strings.Split(p.stack, "\n") {
		if i := strings.Index(l, "/github.com/mit-dci/zksigma/"); i >= 0 && strings.Contains(l, ".go:") {
			where = strings.TrimSpace(l[i+len("/github.com/mit-dci/zksigma/"):])
			if j := strings.Index(where, " "); j > 0 {
				where = where[:j]
			}
			break
		}
	}
	return fmt.Sprintf("panic %v at %s", p.v, where)
}

// guard runs f and reports a panic of the code under test.
func guard(f func()) (p *pan) {
	defer func() {
		if v := recover(); v != nil {
			p = &pan{v, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// Client context of an operation.
type Ctx struct {
	*Rec
	Op  *Op
	rng R
	run *Run
}

// Run is the state of a simulated run.
type Run struct {
	plan    *Plan
	root    *Rec
	clients []*Rec
	state   interface{} // scenario's own
}

// spawn starts a helper task with its own recorder; join merges it.
type helper struct {
	t   *simrt.Task
	rec *Rec
}

func (c *Ctx) spawn(name string, seed uint64, f func(c *Ctx)) *helper {
	h := &helper{rec: newRec()}
	h.rec.op = c.Rec.op
	cc := &Ctx{Rec: h.rec, Op: c.Op, rng: R{s: seed}, run: c.run}
	h.t = simrt.Spawn(name, seed, func() { f(cc) })
	return h
}

func (c *Ctx) join(hs ...*helper) {
	for _, h := range hs {
		simrt.Join(h.t)
		c.Rec.merge(h.rec)
	}
}

type scenario struct {
	gen  func(r *R, tier string, p *Plan)
	pre  func(run *Run) // in the simulation, before the clients start
	op   func(c *Ctx)
	post func(run *Run) // in the simulation, after the clients are done
	end  func(run *Run, rec *Rec)
	pan  bool // a panic or crash of library code violates this property
	hang bool // a deadlock or step limit violates it
}

var scenarios = map[string]*scenario{}

func genPolicy(r *R) simrt.Policy {
	p := simrt.Policy{Seed: r.u64()}
	switch r.n(8) {
	case 0:
		p.Mode = 0
	case 1, 2, 3:
		p.Mode, p.MaxExp = 1, []int{4, 8, 12, 16, 18}[r.n(5)]
	case 4, 5:
		p.Mode, p.MaxExp, p.Burst = 2, []int{10, 14, 18}[r.n(3)], 4+r.n(40)
	default:
		p.Mode, p.MaxExp = 3, []int{6, 10, 14}[r.n(3)]
	}
	p.MaxDecs = []int{2000, 6000, 15000}[r.n(3)]
	return p
}

func makePlan(prop string, seed uint64, tier string) *Plan {
	s := scenarios[prop]
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(4)
	}
	h := fnv.New64a()
	h.Write([]byte(prop))
	r := &R{s: simrt.Mix(seed, h.Sum64())}
	p := &Plan{Prop: prop, Seed: seed, Extra: map[string]int64{}}
	p.Policy = genPolicy(r)
	if r.p(1, 10) {
		p.Extra["debug"] = 1
	}
	s.gen(r, tier, p)
	if simrt.Mix(seed, h.Sum64()+2)%4 == 0 {
		p.Extra["alias"] = 1
	}
	if m := longRun[prop]; m > 0 {
		lengthen(&R{s: simrt.Mix(seed, h.Sum64()+1)}, s, tier, p, m)
	}
	return p
}

// longRun says how many times longer a long history of the property is.
var longRun = map[string]int{"C01": 16, "C02": 16, "C03": 6, "C04": 4, "C05": 8, "C06": 40, "C07": 6, "C08": 12, "C10": 8, "C11": 1, "C12": 3, "C13": 40, "C14": 40, "C18": 12, "C19": 4, "C20": 5}

func costly(o Op) bool { return o.A == "crowd" || o.T == "grind" }

// lengthen makes some plans a long history, so that behaviour that depends on a count (a cache that fills, a pool that
// runs dry, a counter that wraps) is reached: more operations of the same mix, or of one sort only, and old ones again.
func lengthen(r *R, s *scenario, tier string, p *Plan, m int) {
	den := 24
	if p.Prop == "C18" { // what it is about
		den = 10
	}
	if !r.p(1, den) {
		return
	}
	p.Extra["long"] = 1
	p.Policy.StepCap = 5_000_000_000
	if p.Prop == "C11" {
		p.Extra["txs"] = int64(100 + r.n(400))
		return
	}
	n := len(p.Ops) * m
	nc := 1
	for _, o := range p.Ops {
		if o.C+1 > nc {
			nc = o.C + 1
		}
	}
	only := p.Ops[r.n(len(p.Ops))]
	mono := r.p(1, 2) && p.Prop != "C19" && !costly(only)
	if mono && only.K == refzk.Range {
		n /= 4
	}
	if mono {
		var k []Op
		for _, o := range p.Ops {
			if o.T == only.T && o.K == only.K {
				k = append(k, o)
			}
		}
		p.Ops = k
	}
	for try := 0; len(p.Ops) < n && try < 40*m; try++ {
		q := &Plan{Prop: p.Prop, Seed: p.Seed, Extra: map[string]int64{}}
		s.gen(r, tier, q)
		for _, o := range q.Ops {
			if mono && (o.T != only.T || o.K != only.K) || costly(o) {
				continue
			}
			o.C %= nc
			p.Ops = append(p.Ops, o)
			if p.Prop != "C08" && r.p(1, 8) { // there, the entropy is part of the operation
				if o := p.Ops[r.n(len(p.Ops))]; !costly(o) {
					p.Ops = append(p.Ops, o)
				}
			}
		}
	}
}

func runPlan(p *Plan) *Out {
	s := scenarios[p.Prop]
	run := &Run{plan: p, root: newRec()}
	nc := 1
	for _, o := range p.Ops {
		if o.C+1 > nc {
			nc = o.C + 1
		}
	}
	for i := 0; i < nc; i++ {
		run.clients = append(run.clients, newRec())
	}
	if p.Extra["alias"] != 0 {
		aliasing = true
		run.root.fault("equal arguments are one object")
	}
	if p.Extra["long"] != 0 {
		run.root.fault("long history")
	}
	pol := p.Policy
	if p.Extra["debug"] != 0 && flag.Lookup("debug1") != nil { // the library's diagnostics on
		log.SetOutput(blackhole{})
		flag.Set("debug1", "true")
		run.root.fault("diagnostics switched on")
	}
	res := simrt.Run(pol, p.Decs, p.Seed, func() {
		var ts []*simrt.Task
		if s.pre != nil {
			if pn := guard(func() { s.pre(run) }); pn != nil {
				run.root.viol("panic", "preparing the run: %s", pn)
				return
			}
		}
		for ci := 0; ci < nc; ci++ {
			ci := ci
			rec := run.clients[ci]
			ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d", ci), simrt.Mix(p.Seed, uint64(ci)), func() {
				for oi := range p.Ops {
					o := &p.Ops[oi]
					if o.C != ci {
						continue
					}
					rec.op = oi
					c := &Ctx{Rec: rec, Op: o, rng: R{s: o.Seed}, run: run}
					rec.event(fmt.Sprintf("op %d %s %s %s", oi, o.T, o.K, o.A))
					if pn := guard(func() { s.op(c) }); pn != nil {
						if s.pan {
							rec.viol("panic", "%s/%s/%s: %s", o.T, o.K, o.A, pn)
						} else {
							rec.probe("panic ignored here")
							rec.event(pn.String())
						}
					}
					rec.ops++
				}
			}))
		}
		for _, t := range ts {
			simrt.Join(t)
		}
		if s.post != nil {
			if pn := guard(func() { s.post(run) }); pn != nil {
				run.root.viol("panic", "after the clients: %s", pn)
			}
		}
	})
	out := &Out{Prop: p.Prop, Seed: p.Seed, Status: res.Status.String(), Info: res.Info, Steps: res.Steps, Switches: res.Switches,
		NDecs: res.Decs, IL: res.Hash, Sites: res.Sites, Tasks: res.Tasks, SimNS: res.Clock}
	root := run.root
	for _, r := range run.clients {
		root.merge(r)
	}
	if res.Status == simrt.StatusOK && s.end != nil {
		s.end(run, root)
	}
	switch res.Status {
	case simrt.StatusCrash:
		if s.pan {
			root.viol("crash", "%s", firstLine(res.Info))
		}
	case simrt.StatusDeadlock, simrt.StatusStepLimit:
		if s.hang || s.pan {
			root.viol("hang", "%s after %d steps: %s", res.Status, res.Steps, res.Info)
		}
	}
	if n := simrt.RaceErrors(); n > 0 {
		root.viol("race", "%d data race report(s), see stderr", n)
	}
	out.Viols, out.Faults, out.Probes, out.Ops, out.Checks = root.viols, root.faults, root.probes, root.ops, root.checks
	out.Cases, out.Log = root.cases, simrt.Mix(root.log, res.Hash)
	if len(root.samples) > 3 {
		root.samples = root.samples[:3]
	}
	out.Samples = root.samples
	return out
}

// blackhole takes the library's log lines.
type blackhole struct{}

func (blackhole) Write(p []byte) (int, error) { return len(p), nil }

func firstLine(s string) string {
	p := &pan{s, s}
	l := s
	if i := strings.IndexByte(s, '\n'); i > 0 {
		l = s[:i]
	}
	return l + " " + p.String()[strings.LastIndex(p.String(), " at "):]
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: node run PROP SEED TIER | node replay FILE")
		os.Exit(4)
	}
	setup()
	crand.Reader = entropy{}
	initEdges()
	var p *Plan
	switch os.Args[1] {
	case "run":
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		p = makePlan(os.Args[2], seed, os.Args[4])
	case "plan":
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		b, _ := json.Marshal(makePlan(os.Args[2], seed, os.Args[4]))
		fmt.Printf("%s\n", b)
		return
	case "replay", "again":
		var b []byte
		var err error
		if os.Args[1] == "again" {
			b, err = io.ReadAll(os.Stdin)
		} else {
			b, err = os.ReadFile(os.Args[2])
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		if scenarios[p.Prop] == nil {
			os.Exit(4)
		}
	default:
		os.Exit(4)
	}
	debug.SetGCPercent(400)
	out := runPlan(p)
	if len(out.Viols) > 0 {
		out.Plan = p
		if os.Args[1] == "replay" && !p.Policy.Explicit && p.Decs == nil {
			out.Decs = simrt.Recorded()
		}
	}
	b, _ := json.Marshal(out)
	fmt.Printf("\nZKDST %s\n", b)
}
