// Package simrt is the deterministic runtime under the instrumented library.
//
// Exactly one task (goroutine) runs at a time; it holds the baton. Every scheduling choice is taken from a
// Decision stream (seeded PRNG, or an explicit list when a trace is replayed). All bookkeeping lives in
// go:norace functions and fixed arrays, and the baton hand-off is hidden from the race detector, so that in
// a -race build the only happens-before edges are the ones the program itself creates.
package simrt

import (
	"fmt"
	"runtime/debug"
	"time"
	"unsafe"
)

const (
	maxTasks  = 1 << 14
	maxLive   = 4096
	maxRecord = 1 << 18
	Forever   = int64(1) << 60
	sliceMax  = int64(6_000_000) // a task that spins without blocking is preempted after this many yield points
)

// Waitable is something a task can block on.
type Waitable interface {
	SimReady(t *Task) bool
}

type Task struct {
	ID      int32
	Name    string
	Lib     bool // started by library code
	Owner   *Task
	Seed    uint64
	Data    unsafe.Pointer // harness attachment, inherited by library workers
	Ctr     uint64         // position in the entropy stream
	nspawn  uint64
	gate    chan struct{}
	wait    Waitable
	why     string
	done    bool
	started bool
	prio    uint32
	exitTok byte
	LibLive int32 // number of live library tasks owned (transitively) by this harness task
}

// Decision is one scheduling choice: which of the runnable tasks continues, and for how many yield points.
type Decision struct {
	Q    int64
	Pick uint32
}

// Policy describes how decisions are drawn.
type Policy struct {
	Mode     int    `json:"mode"` // 0 run-to-block, 1 log-uniform quanta, 2 bursts, 3 priorities with change points
	MaxExp   int    `json:"maxexp"`
	Burst    int    `json:"burst"`
	Seed     uint64 `json:"seed"`
	StepCap  int64  `json:"stepcap"`
	MaxDecs  int    `json:"maxdecs"`
	Explicit bool   `json:"explicit"`
}

type Status int

const (
	StatusOK Status = iota
	StatusDeadlock
	StatusStepLimit
	StatusCrash
)

func (s Status) String() string { return [...]string{"ok", "deadlock", "steplimit", "crash"}[s] }

var (
	active  bool
	cur     *Task
	budget  int64 = Forever
	quantum int64
	steps   int64

	tasks  [maxTasks]*Task
	nTasks int32
	live   [maxLive]*Task
	nLive  int32
	nHarn  int32
	runq   [maxLive]*Task
	orphan = &Task{Name: "init"}
	boot   [64]func() // goroutines started by package initialisation
	nBoot  int

	pol     Policy
	prng    uint64
	decIdx  int
	script  []Decision
	rec     [maxRecord]Decision
	nRec    int
	burst   int
	status  Status
	mainCh  = make(chan struct{})
	crashed string
	stuck   string

	switches  int64
	ilHash    uint64 = 14695981039346656037
	lastSite  uint32
	sitesSeen [1 << 16]uint8
	nSites    int

	clock  int64
	timers [2048]*Timer
	nTim   int32
	timSeq int64
)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix combines seeds.
func Mix(a, b uint64) uint64 { return mix(mix(a) ^ (b * 0xd6e8feb86659fd93)) }

//go:norace
func next64() uint64 {
	prng += 0x9e3779b97f4a7c15
	x := prng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Y is the yield point the instrumenter puts in front of statements.
//
//go:norace
func Y(site uint32) {
	budget--
	if budget < 0 {
		slow(site)
	}
}

//go:norace
func slow(site uint32) {
	if !active {
		budget = Forever
		return
	}
	lastSite = site
	reschedule(false)
}

// Yield is an explicit scheduling point used by seams (entropy, streams, network).
//
//go:norace
func Yield() {
	if !active {
		return
	}
	// A seam is an interesting place: give the scheduler a decision here with probability by policy.
	if pol.Mode == 0 {
		return
	}
	budget -= 16
	if budget < 0 {
		lastSite = 0
		reschedule(false)
	}
}

//go:norace
func decide(n int32) Decision {
	var d Decision
	if pol.Explicit {
		if decIdx < len(script) {
			d = script[decIdx]
		} else {
			d = Decision{Forever, 0}
		}
		decIdx++
		if d.Q <= 0 {
			d.Q = Forever
		}
		if n > 0 {
			d.Pick %= uint32(n)
		}
		return d
	}
	decIdx++
	r := next64()
	switch {
	case decIdx > pol.MaxDecs || pol.Mode == 0:
		d.Q = Forever
		d.Pick = uint32(r>>8) % uint32(n)
	case pol.Mode == 1:
		e := uint(next64() % uint64(pol.MaxExp+1))
		d.Q = int64(next64()%(uint64(1)<<e)) + 1
		d.Pick = uint32(r>>8) % uint32(n)
	case pol.Mode == 2:
		if burst > 0 {
			burst--
			d.Q = int64(next64()%4) + 1
		} else {
			if next64()%4 == 0 {
				burst = pol.Burst
			}
			d.Q = int64(next64()%(uint64(1)<<uint(pol.MaxExp))) + 1
		}
		d.Pick = uint32(r>>8) % uint32(n)
	default:
		best := int32(0)
		for i := int32(1); i < n; i++ {
			if runq[i].prio > runq[best].prio {
				best = i
			}
		}
		d.Pick = uint32(best)
		d.Q = int64(next64()%(uint64(1)<<uint(pol.MaxExp))) + 1
		if next64()%3 == 0 { // change point: the favoured task drops to the bottom
			runq[best].prio = uint32(next64() % 64)
		}
	}
	if nRec < maxRecord {
		rec[nRec] = d
		nRec++
	}
	return d
}

// reschedule gives the baton to the next task. blocked says that the caller cannot continue now.
//
//go:norace
func reschedule(blocked bool) {
	me := cur
	steps += quantum - budget
	if steps > pol.StepCap {
		stop(StatusStepLimit, "task "+me.Name)
	}
	nx := pickNext()
	if nx == nil {
		stop(StatusDeadlock, describe())
	}
	if nx == me {
		me.wait = nil
		return
	}
	switches++
	ilHash = (ilHash ^ uint64(nx.ID)) * 1099511628211
	ilHash = (ilHash ^ uint64(lastSite)) * 1099511628211
	if lastSite < uint32(len(sitesSeen)) && sitesSeen[lastSite] == 0 {
		sitesSeen[lastSite] = 1
		nSites++
	}
	cur = nx
	raceOff()
	nx.gate <- struct{}{}
	<-me.gate
	raceOn()
	me.wait = nil
}

var realWaits, jumps int

//go:norace
func pickNext() *Task {
	for {
		for nTim > 0 && timerDue() {
			fireTimers()
		}
		n := int32(0)
		for i := int32(0); i < nLive; i++ {
			t := live[i]
			if t.wait == nil || t.wait.SimReady(t) {
				runq[n] = t
				n++
			}
		}
		if n == 0 {
			if jumps < 20000 && fireTimers() {
				jumps++
				continue
			}
			// a channel that code outside the simulation will send on (a deadline of package context, say)
			if realWaits < 40 {
				realWaits++
				raceOff()
				time.Sleep(5 * time.Millisecond)
				raceOn()
				continue
			}
			return nil
		}
		jumps = 0
		d := decide(n)
		if d.Q > sliceMax {
			d.Q = sliceMax
		}
		quantum = d.Q
		budget = d.Q
		clock += 1000
		return runq[d.Pick]
	}
}

// stop ends the run: control goes back to Run, the calling task never continues.
//
//go:norace
func stop(s Status, info string) {
	status = s
	stuck = info
	active = false
	budget = Forever
	raceOff()
	mainCh <- struct{}{}
	select {}
}

//go:norace
func describe() string {
	s := ""
	for i := int32(0); i < nLive && i < 12; i++ {
		t := live[i]
		s += fmt.Sprintf("[%s lib=%v waits on %s] ", t.Name, t.Lib, t.why)
	}
	return s
}

// Park blocks the current task until w is ready.
//
//go:norace
func Park(w Waitable, why string) {
	if !active {
		for !w.SimReady(nil) {
			if nBoot == 0 {
				panic("simrt: blocking operation outside a simulation: " + why)
			}
			nBoot--
			boot[nBoot]()
		}
		return
	}
	cur.wait = w
	cur.why = why
	reschedule(true)
}

//go:norace
func newTask(name string, lib bool) *Task {
	if nTasks >= maxTasks || nLive >= maxLive {
		panic("simrt: too many tasks")
	}
	t := &Task{ID: nTasks, Name: name, Lib: lib, gate: make(chan struct{})}
	tasks[nTasks] = t
	nTasks++
	live[nLive] = t
	nLive++
	if !lib {
		nHarn++
	}
	if cur == nil && lib {
		t.Owner = orphan
		orphan.LibLive++
	}
	if cur != nil {
		cur.nspawn++
		t.Seed = mix(cur.Seed ^ mix(cur.nspawn))
		t.Data = cur.Data
		if lib {
			t.Owner = cur
			if cur.Lib {
				t.Owner = cur.Owner
			}
			t.Owner.LibLive++
		}
	}
	t.prio = 64 + uint32(mix(pol.Seed^uint64(t.ID)*0x5851f42d4c957f2d)>>40)
	return t
}

//go:norace
func taskExit(t *Task) {
	t.done = true
	if t.Lib {
		t.Owner.LibLive--
	}
	Release(unsafe.Pointer(&t.exitTok))
	j := int32(0)
	for i := int32(0); i < nLive; i++ {
		if live[i] != t {
			live[j] = live[i]
			j++
		}
	}
	live[j] = nil
	nLive = j
	steps += quantum - budget
	if !t.Lib {
		nHarn--
	}
	if nHarn == 0 {
		active = false
		budget = Forever
		raceOff()
		mainCh <- struct{}{}
		return
	}
	nx := pickNext()
	if nx == nil {
		status = StatusDeadlock
		stuck = describe()
		active = false
		budget = Forever
		raceOff()
		mainCh <- struct{}{}
		return
	}
	switches++
	ilHash = (ilHash ^ uint64(nx.ID)) * 1099511628211
	cur = nx
	raceOff()
	nx.gate <- struct{}{}
}

//go:norace
func taskCrash(t *Task, v interface{}) {
	crashed = fmt.Sprintf("panic in a goroutine started by the library: %v\n%s", v, debug.Stack())
	status = StatusCrash
	active = false
	budget = Forever
	raceOff()
	mainCh <- struct{}{}
	select {}
}

func runTask(t *Task, f func()) {
	raceOff()
	<-t.gate
	raceOn()
	if t.Lib {
		defer func() {
			if r := recover(); r != nil {
				taskCrash(t, r)
			}
			taskExit(t)
		}()
	} else {
		defer taskExit(t)
	}
	f()
}

// Go replaces the go statement in library code.
func Go(f func()) {
	if !isActive() {
		boot[nBoot] = f // package initialisation: runs when someone waits for it, or when the simulation starts
		nBoot++
		return
	}
	t := newTask("lib", true)
	go runTask(t, f)
	Y(0)
}

// GoBg starts a library task from a timer callback (no scheduling point).
func GoBg(f func()) { go runTask(newTask("timer", true), f) }

//go:norace
func isActive() bool { return active }

// Spawn starts a harness task.
func Spawn(name string, seed uint64, f func()) *Task {
	t := newTask(name, false)
	t.Seed = seed
	go runTask(t, f)
	return t
}

type joinWait struct{ t *Task }

//go:norace
func (j *joinWait) SimReady(*Task) bool { return j.t.done }

// Join waits for a task to end.
//
//go:norace
func Join(t *Task) {
	if !t.done {
		Park(&joinWait{t}, "join "+t.Name)
	}
	Acquire(unsafe.Pointer(&t.exitTok))
}

type quiesce struct{ t *Task }

//go:norace
func (q *quiesce) SimReady(*Task) bool { return q.t.LibLive == 0 }

// LibLive reports how many library workers started on behalf of the current task are still alive.
//
//go:norace
func LibLive() int { return int(cur.LibLive) }

// drainWait is ready when every library worker of the task has either ended or is blocked for good.
type drainWait struct{ t *Task }

//go:norace
func (d *drainWait) SimReady(*Task) bool {
	if d.t.LibLive == 0 {
		return true
	}
	for i := int32(0); i < nLive; i++ {
		t := live[i]
		if t.Lib && t.Owner == d.t && (t.wait == nil || t.wait.SimReady(t)) {
			return false
		}
	}
	return nTim == 0
}

// Drain lets the current task's library workers run until they end or block, and returns how many are stuck.
//
//go:norace
func Drain() int {
	if cur.LibLive != 0 {
		Park(&drainWait{cur}, "drain")
	}
	return int(cur.LibLive)
}

// Reseed gives the current task a new identity for everything derived from seeds.
//
//go:norace
func Reseed(seed uint64, data unsafe.Pointer) {
	if cur == nil {
		return
	}
	cur.Seed, cur.nspawn, cur.Ctr, cur.Data = seed, 0, 0, data
}

// Steps is the number of yield points executed so far.
//
//go:norace
func Steps() int64 { return steps + quantum - budget }

// Cur returns the running task.
//
//go:norace
func Cur() *Task { return cur }

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return active }

// Result of one simulation.
type Result struct {
	Status   Status
	Info     string
	Steps    int64
	Switches int64
	Decs     int
	Hash     uint64
	Sites    int
	Tasks    int
	Clock    int64
	Leaked   int
}

// Run executes root as the first harness task under the policy.
func Run(p Policy, explicit []Decision, seed uint64, root func()) Result {
	begin(p, explicit)
	for nBoot > 0 {
		nBoot--
		go runTask(newTask("boot", true), boot[nBoot])
	}
	t := newTask("root", false)
	t.Seed = seed
	go runTask(t, root)
	kick(t)
	Acquire(unsafe.Pointer(&t.exitTok))
	return finish()
}

//go:norace
func begin(p Policy, explicit []Decision) {
	realWaits, jumps = 0, 0
	if p.StepCap == 0 {
		p.StepCap = 2_000_000_000
		if RaceBuild {
			p.StepCap = 400_000_000
		}
	}
	if p.MaxDecs == 0 {
		p.MaxDecs = 60_000
	}
	if p.MaxExp == 0 {
		p.MaxExp = 12
	}
	pol = p
	prng = mix(p.Seed ^ 0x5ced)
	script = explicit
	pol.Explicit = p.Explicit || explicit != nil
	decIdx, nRec, burst = 0, 0, 0
	status, crashed, stuck = StatusOK, "", ""
	steps, switches = 0, 0
	nTasks, nLive, nHarn = 0, 0, 0
	cur = nil
	clock = 0
	nTim = 0
}

//go:norace
func kick(t *Task) {
	cur = t
	quantum, budget = sliceMax, sliceMax
	active = true
	raceOff()
	t.gate <- struct{}{}
	<-mainCh
	raceOn()
}

//go:norace
func finish() Result {
	info := stuck
	if crashed != "" {
		info = crashed
	}
	leaked := 0
	for i := int32(0); i < nLive; i++ {
		if live[i].Lib {
			leaked++
		}
	}
	return Result{status, info, steps, switches, decIdx, ilHash, nSites, int(nTasks), clock, leaked}
}

// Recorded returns the decisions of the last run.
func Recorded() []Decision {
	out := make([]Decision, nRec)
	copy(out, rec[:nRec])
	return out
}

// Now is the simulated clock in nanoseconds.
//
//go:norace
func Now() int64 { return clock }
