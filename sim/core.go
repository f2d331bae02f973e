//go:build go1.22

// Package zzsim is the deterministic simulator runtime. Exactly one task runs
// at any time; every switch, wake-up, select choice, map order, pool reuse,
// timer and random byte is decided by seeded (or replayed) decision streams.
package zzsim

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

const hugeGap = int64(1) << 40
const maxChunk = int64(1) << 22

// ctr is the number of cost units left before the next scheduling decision.
var ctr = hugeGap

// W is the running world, nil outside a simulation.
var W *World

// Y is a statement-level scheduling point, YL the light variant.
func Y(site int) {
	if ctr -= 8; ctr < 0 {
		slow(site)
	}
}
func YL(site int) {
	if ctr--; ctr < 0 {
		slow(site)
	}
}

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked
	tExited
)

type Task struct {
	id      int
	Name    string
	Group   int
	st      tstate
	wake    chan struct{}
	gone    chan struct{}
	fn      func()
	killed  bool
	waitOn  interface{} // object blocked on
	waitStr string
	granted bool
	pred    func() bool
	prio    int64
	held    []heldLock
	started bool
	site    int
	stall   int64 // clock until which the task is artificially stalled

	mapPtr   unsafe.Pointer // map access in progress
	mapWrite bool
	mapSite  int
}

type heldLock struct {
	obj  interface{ forceRelease(read bool) }
	read bool
}

// Failure is the first violation seen in a run.
type Failure struct {
	Class string // stable class used while shrinking and for known findings
	Msg   string
	Step  int64
}

type Config struct {
	Seed     uint64
	Replay   map[string][]uint32 // decision streams; nil = draw from the seed
	MaxUnits int64
	Verbose  bool
}

type World struct {
	cfg      Config
	tasks    []*Task
	live     []*Task
	cur      *Task
	done     chan struct{}
	over     bool
	fail     *Failure
	streams  map[string]*Stream
	sched    *Stream
	env      *Stream
	units    int64
	lastCtr  int64
	clock    int64
	Skew     int64
	timers   []*simTimer
	timerSeq int
	idle     int
	nTask    int
	evSeq    int64
	chans    map[uintptr]*hchan
	hash     uint64
	schash   uint64
	switches int64
	slowpts  int64
	Log      []string
	stats    map[string]int64
	// scheduling policy of this run
	gapMean    int64
	syncCost   int64
	pct        bool
	bias       int // percent chance to stay on the current task at a preemption point
	killing    bool
	mapBusy    int
	NoPoolDrop bool
}

// ---------------------------------------------------------------- streams

type Stream struct {
	name   string
	s0, s1 uint64
	replay []uint32
	isRep  bool
	pos    int
	Vals   []uint32
	Marks  []int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func newStream(name string, cfg *Config) *Stream {
	h := fnv.New64a()
	h.Write([]byte(name))
	x := cfg.Seed ^ h.Sum64()
	s := &Stream{name: name}
	s.s0, s.s1 = splitmix(&x), splitmix(&x)
	if cfg.Replay != nil {
		s.isRep = true
		s.replay = cfg.Replay[name]
	}
	return s
}

func (s *Stream) next() uint64 { // xoroshiro128+
	a, b := s.s0, s.s1
	res := a + b
	b ^= a
	s.s0 = ((a << 24) | (a >> 40)) ^ b ^ (b << 16)
	s.s1 = (b << 37) | (b >> 27)
	return res
}

func (s *Stream) uniform(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next() % uint64(n))
}

// draw records one decision in [0,n); gen supplies it when not replaying.
func (s *Stream) draw(n int, gen func() int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if s.isRep {
		if s.pos < len(s.replay) {
			v = int(s.replay[s.pos])
			if v >= n {
				v %= n
			}
		}
		s.pos++
	} else {
		v = gen()
	}
	s.Vals = append(s.Vals, uint32(v))
	return v
}

// ---------------------------------------------------------------- run

type Result struct {
	Fail      *Failure
	Streams   map[string][]uint32
	Marks     map[string][]int
	Hash      uint64
	SchedHash uint64
	Units     int64
	SlowPts   int64
	Switches  int64
	Clock     int64
	Tasks     int
	Stats     map[string]int64
	Log       []string
}

var worldSeq int

// Run executes main as task 0 of a fresh world and returns when it ended.
func Run(cfg Config, main func()) *Result {
	if W != nil {
		panic("zzsim: nested Run")
	}
	worldSeq++
	w := &World{cfg: cfg, done: make(chan struct{}), streams: map[string]*Stream{}, chans: map[uintptr]*hchan{},
		stats: map[string]int64{}, hash: 14695981039346656037, schash: 14695981039346656037}
	if w.cfg.MaxUnits == 0 {
		w.cfg.MaxUnits = 400_000_000
	}
	w.sched = w.stream("sched")
	w.env = w.stream("env")
	cfgS := w.stream("cfg")
	gaps := []int64{12, 24, 60, 160, 500, 2000, 10000, 60000}
	w.gapMean = gaps[cfgS.draw(len(gaps), func() int { return cfgS.uniform(len(gaps)) })]
	w.syncCost = []int64{8, 64, 400}[cfgS.draw(3, func() int { return cfgS.uniform(3) })]
	w.pct = cfgS.draw(3, func() int { return cfgS.uniform(3) }) == 2
	w.bias = []int{0, 0, 50, 85}[cfgS.draw(4, func() int { return cfgS.uniform(4) })]
	W = w
	t := w.newTask("main", 0, main)
	w.cur = t
	w.setGap()
	t.started = true
	t.wake <- struct{}{}
	<-w.done
	// tear down: let every remaining task unwind, one at a time
	w.killing = true
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.st == tExited {
			<-t.gone
			continue
		}
		t.killed = true
		w.cur = t
		ctr = 0
		t.wake <- struct{}{}
		<-t.gone
	}
	W = nil
	ctr = hugeGap
	r := &Result{Fail: w.fail, Streams: map[string][]uint32{}, Marks: map[string][]int{}, Hash: w.hash, SchedHash: w.schash,
		Units: w.units, SlowPts: w.slowpts, Switches: w.switches, Clock: w.clock, Tasks: w.nTask, Stats: w.stats, Log: w.Log}
	for n, s := range w.streams {
		r.Streams[n] = s.Vals
		r.Marks[n] = s.Marks
	}
	return r
}

func (w *World) stream(name string) *Stream {
	s := w.streams[name]
	if s == nil {
		s = newStream(name, &w.cfg)
		w.streams[name] = s
	}
	return s
}

func (w *World) newTask(name string, group int, fn func()) *Task {
	t := &Task{id: w.nTask, Name: name, Group: group, fn: fn, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	w.nTask++
	if w.pct {
		t.prio = int64(w.sched.draw(1<<16, func() int { return w.sched.uniform(1 << 16) })) + 1<<20
	}
	w.tasks = append(w.tasks, t)
	w.live = append(w.live, t)
	go t.run(w)
	return t
}

func (t *Task) run(w *World) {
	defer close(t.gone)
	<-t.wake
	normal := false
	defer func() {
		if !normal && !t.killed {
			if r := recover(); r != nil {
				if fs, ok := r.(failStop); ok {
					_ = fs
				} else {
					st := string(debug.Stack())
					w.failWith("panic", fmt.Sprintf("panic in task %s: %v\n%s", t.Name, r, trimStack(st)))
				}
			}
		} else if t.killed {
			recover()
		}
		t.exit(w)
	}()
	if !t.killed {
		t.fn()
		normal = true
	}
}

type failStop struct{}

// TrimStack keeps the frames of the code under test.
func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "go-common") && !strings.Contains(l, "zzsim") && !strings.HasPrefix(l, "\t") {
			j := strings.LastIndex(l, "(")
			if j > 0 {
				l = l[:j]
			}
			out = append(out, strings.TrimPrefix(l, "github.com/ThinkiumGroup/"))
			if len(out) >= 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (t *Task) exit(w *World) {
	for len(t.held) > 0 {
		h := t.held[len(t.held)-1]
		t.held = t.held[:len(t.held)-1]
		h.obj.forceRelease(h.read)
	}
	t.st = tExited
	for i, x := range w.live {
		if x == t {
			w.live = append(w.live[:i:i], w.live[i+1:]...)
			break
		}
	}
	if w.killing {
		return
	}
	if w.over {
		// a failure was recorded by this task: hand control to the runner
		select {
		case <-w.done:
		default:
			close(w.done)
		}
		return
	}
	if t.id == 0 {
		w.over = true
		close(w.done)
		return
	}
	w.resched(false, -1)
}

func (w *World) failWith(class, msg string) {
	if w.fail == nil && !w.killing {
		w.fail = &Failure{Class: class, Msg: msg, Step: w.units}
	}
	w.over = true
}

// Fail records a violation and stops the run. It does not return.
func Fail(class, format string, a ...interface{}) {
	w := W
	if w == nil {
		panic("zzsim.Fail outside a world: " + fmt.Sprintf(format, a...))
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	w.failWith(class, fmt.Sprintf(format, a...))
	runtime.Goexit()
}

// Failed reports whether the run already failed.
func Failed() bool { return W != nil && W.over }

func (w *World) setGap() {
	var g int64
	if w.sched.isRep {
		v := w.sched.draw(1<<31, nil)
		g = int64(v)
		if v == 0 {
			g = hugeGap
		}
	} else {
		v := w.sched.draw(1<<31, func() int {
			// geometric-ish: product of a uniform and an occasional stretch
			m := int(w.gapMean)
			x := 1 + w.sched.uniform(2*m)
			if w.sched.uniform(8) == 0 {
				x *= 1 + w.sched.uniform(20)
			}
			return x
		})
		g = int64(v)
	}
	w.lastCtr = g
	if g > maxChunk {
		g = maxChunk
		w.lastCtr = g
	}
	ctr = g
}

func (w *World) account() {
	used := w.lastCtr - ctr
	if used < 1 {
		used = 1
	}
	w.units += used
	w.clock += used * 10
	w.lastCtr = ctr
}

func (w *World) mix(v uint64) {
	w.hash ^= v
	w.hash *= 1099511628211
}

func slow(site int) {
	w := W
	if w == nil {
		ctr = hugeGap
		return
	}
	t := w.cur
	if t.killed {
		ctr, w.lastCtr = 0, 0
		runtime.Goexit()
	}
	if w.over {
		runtime.Goexit()
	}
	t.site = site
	w.account()
	w.slowpts++
	w.mix(uint64(site)<<8 | uint64(t.id))
	if w.units > w.cfg.MaxUnits {
		w.failWith("no-progress", fmt.Sprintf("step budget of %d units exhausted in task %s at %s\n%s", w.cfg.MaxUnits, t.Name, siteName(site), w.describe()))
		runtime.Goexit()
	}
	w.fireTimers()
	w.resched(true, site)
	w.setGap()
}

func siteName(i int) string {
	if i >= 0 && i < len(siteTable) {
		return siteTable[i]
	}
	return "?"
}

// SiteName exposes the table.
func SiteName(i int) string { return siteName(i) }

func (w *World) runnable(skip *Task) []*Task {
	var r []*Task
	for _, t := range w.live {
		if t == skip {
			continue
		}
		if t.st == tBlocked && t.pred != nil && (t.killed || t.pred()) {
			t.st = tRunnable
			t.pred = nil
		}
		if t.st == tRunnable && (t.stall <= w.clock || t.killed) {
			r = append(r, t)
		}
	}
	return r
}

// resched chooses the next task. canStay: the current task is runnable.
func (w *World) resched(canStay bool, site int) {
	cur := w.cur
	var next *Task
	for {
		if !canStay && w.over { // failure while blocked
			break
		}
		others := w.runnable(cur)
		curOK := cur.st == tRunnable && cur.stall <= w.clock
		cands := others
		if curOK {
			cands = append([]*Task{cur}, others...)
		}
		if len(cands) == 0 {
			if w.advance() {
				if cur.st == tBlocked && cur.pred != nil && cur.pred() {
					cur.st, cur.pred = tRunnable, nil
				}
				continue
			}
			w.failWith("deadlock", "no task can run and no timer is pending\n"+w.describe())
			break
		}
		next = cands[w.pick(cands, curOK)]
		break
	}
	if next == nil {
		// deadlock or failure: hand over to the runner
		select {
		case <-w.done:
		default:
			close(w.done)
		}
		if cur.st == tExited {
			return
		}
		<-cur.wake
		if cur.killed {
			runtime.Goexit()
		}
		return
	}
	if next == cur {
		return
	}
	w.switches++
	w.schash ^= uint64(site+1)<<16 | uint64(cur.id)<<8 | uint64(next.id)
	w.schash *= 1099511628211
	w.mix(uint64(next.id) + 77)
	w.cur = next
	next.started = true
	next.wake <- struct{}{}
	if cur.st == tExited {
		return
	}
	<-cur.wake
	if cur.killed {
		ctr, w.lastCtr = 0, 0
		runtime.Goexit()
	}
}

func (w *World) pick(c []*Task, curFirst bool) int {
	if len(c) == 1 {
		return 0
	}
	return w.sched.draw(len(c), func() int {
		if w.pct {
			if curFirst && w.sched.uniform(3) == 0 {
				// priority change point
				lo := c[0].prio
				for _, t := range w.live {
					if t.prio < lo {
						lo = t.prio
					}
				}
				c[0].prio = lo - 1
			}
			b := 0
			for i, t := range c {
				if t.prio > c[b].prio {
					b = i
				}
			}
			return b
		}
		if curFirst && w.bias > 0 && w.sched.uniform(100) < w.bias {
			return 0
		}
		return w.sched.uniform(len(c))
	})
}

func (w *World) describe() string {
	var b strings.Builder
	for _, t := range w.live {
		s := "runnable"
		if t.st == tBlocked {
			s = "blocked on " + t.waitStr
		}
		fmt.Fprintf(&b, "  task %d %s: %s (last at %s)\n", t.id, t.Name, s, siteName(t.site))
	}
	return b.String()
}

// block parks the current task until it is made runnable.
func (w *World) block(obj interface{}, what string) {
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	w.account()
	w.slowpts++
	w.mix(uint64(t.id) + 991)
	if w.units > w.cfg.MaxUnits {
		w.failWith("no-progress", "step budget exhausted\n"+w.describe())
		runtime.Goexit()
	}
	t.st = tBlocked
	t.waitOn = obj
	t.waitStr = what
	w.resched(false, t.site)
	t.waitOn = nil
	w.setGap()
}

func (w *World) wakeAll(obj interface{}) {
	for _, t := range w.live {
		if t.st == tBlocked && t.waitOn == obj {
			t.st = tRunnable
		}
	}
}

func (w *World) wakeTask(t *Task) {
	if t.st == tBlocked {
		t.st = tRunnable
	}
}

// syncPoint is a scheduling point before a synchronisation operation.
func syncPoint() {
	w := W
	if w == nil {
		return
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	if ctr -= w.syncCost; ctr < 0 {
		slow(w.cur.site)
	}
}

// Point is an explicit scheduling point for harness-owned components.
func Point() { syncPoint() }

// dying reports that the caller is being unwound.
func dying() bool { return W != nil && (W.cur.killed) }

// ---------------------------------------------------------------- harness API

// Go starts a task from rewritten code; it inherits the spawner's group.
func Go(site int, f func()) {
	w := W
	if w == nil {
		panic("zzsim: go statement outside a simulation at " + siteName(site))
	}
	if w.cur.killed {
		runtime.Goexit()
	}
	syncPoint()
	w.newTask("go@"+siteName(site), w.cur.Group, f)
	syncPoint()
}

// Spawn starts a named task in a group.
func Spawn(name string, group int, f func()) *Task {
	return W.newTask(name, group, f)
}

// WaitUntil blocks until pred holds. pred must be side-effect free.
func WaitUntil(what string, pred func() bool) {
	w := W
	if pred() {
		return
	}
	w.cur.pred = pred
	w.block(nil, what)
}

// Join waits for tasks to exit.
func Join(ts ...*Task) {
	WaitUntil("join", func() bool {
		for _, t := range ts {
			if t.st != tExited {
				return false
			}
		}
		return true
	})
}

func (t *Task) Exited() bool { return t.st == tExited }
func (t *Task) Killed() bool { return t.killed }

// Blocked reports what a task is blocked on ("" if it is not).
func (t *Task) Blocked() string {
	if t.st == tBlocked {
		return t.waitStr
	}
	return ""
}

// KillGroup kills every task of a group (a process crash). If the caller is in
// the group it does not return.
func KillGroup(g int) {
	w := W
	self := false
	for _, t := range w.live {
		if t.Group != g || t.killed {
			continue
		}
		t.killed = true
		t.pred = nil
		if t == w.cur {
			self = true
			continue
		}
		if t.st == tBlocked {
			t.st = tRunnable
		}
	}
	if self {
		runtime.Goexit()
	}
}

// GroupDown reports that no task of the group is alive.
func GroupDown(g int) bool {
	for _, t := range W.live {
		if t.Group == g {
			return false
		}
	}
	return true
}

// JoinGroup waits until no task of the group is alive.
func JoinGroup(g int) { WaitUntil("join group", func() bool { return GroupDown(g) }) }

// Quiesce lets every other task run until all are blocked or gone.
// It returns true if no other task can run.
func OthersBlocked() bool {
	return len(W.runnable(W.cur)) == 0
}

// Quiet waits until no other task is runnable (timers do not fire).
func Quiet() {
	w := W
	me := w.cur
	WaitUntil("quiet", func() bool {
		for _, t := range w.live {
			if t != me && t.st == tRunnable {
				return false
			}
			if t != me && t.st == tBlocked && t.pred != nil && t.waitStr != "quiet" && t.pred() {
				return false
			}
		}
		return true
	})
}

// CurGroup is the group of the running task.
func CurGroup() int { return W.cur.Group }

// Alive is false for tasks that were killed.
func Dead() bool { return W == nil || W.cur.killed }

// Choose draws a decision in [0,n) from a stream, uniformly. 0 is the simplest.
func Choose(stream string, n int) int {
	s := W.stream(stream)
	return s.draw(n, func() int { return s.uniform(n) })
}

// Chance is true with probability num/den; false is the simplest.
func Chance(stream string, num, den int) bool {
	s := W.stream(stream)
	return s.draw(2, func() int {
		if s.uniform(den) < num {
			return 1
		}
		return 0
	}) == 1
}

// More is Chance for loops; it also marks a span boundary for the shrinker.
func More(stream string, num, den int) bool {
	s := W.stream(stream)
	s.Marks = append(s.Marks, len(s.Vals))
	return Chance(stream, num, den)
}

// Weighted draws an index with the given weights.
func Weighted(stream string, ws ...int) int {
	s := W.stream(stream)
	return s.draw(len(ws), func() int {
		t := 0
		for _, x := range ws {
			t += x
		}
		k := s.uniform(t)
		for i, x := range ws {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
}

// Stamp returns the next global event sequence number.
func Stamp() int64 {
	W.evSeq++
	return W.evSeq
}

// Event mixes harness-observed data into the determinism hash and, when
// verbose, into the log.
func Event(format string, a ...interface{}) {
	w := W
	if w == nil || w.killing {
		return
	}
	s := hidePointers(fmt.Sprintf(format, a...))
	h := fnv.New64a()
	h.Write([]byte(s))
	w.mix(h.Sum64())
	if w.cfg.Verbose {
		w.Log = append(w.Log, fmt.Sprintf("[u%d t%d %s] %s", w.units, w.cur.id, w.cur.Name, s))
	}
}

// hidePointers replaces 0x... addresses, which differ between processes.
func hidePointers(s string) string {
	if !strings.Contains(s, "0x") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "0x") {
			j := i + 2
			for j < len(s) && strings.IndexByte("0123456789abcdef", s[j]) >= 0 {
				j++
			}
			if j-i >= 8 {
				b.WriteString("0x?")
				i = j
				continue
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// Stat adds to a per-run counter (fault kinds, probes).
func Stat(name string, n int64) {
	if W != nil && !W.killing {
		W.stats[name] += n
	}
}

// SetStat sets a counter to the max of its value and n.
func MaxStat(name string, n int64) {
	if W != nil && W.stats[name] < n {
		W.stats[name] = n
	}
}

// Units is the number of cost units consumed so far.
func Units() int64 { return W.units }

// Sites lists yield sites (for coverage of the site table).
func Sites() int { return len(siteTable) }

// StallCurrent makes the current task unschedulable for d of simulated time.
func StallCurrent(d time.Duration) {
	w := W
	w.cur.stall = w.clock + int64(d)
	Stat("fault.stall", 1)
	w.account()
	w.cur.st = tRunnable
	w.resched(false, w.cur.site)
	w.setGap()
}

// ---------------------------------------------------------------- time

type simTimer struct {
	at     int64
	seq    int
	fire   func()
	active bool
}

const timeBase = int64(1_600_000_000) * int64(time.Second)

func (w *World) addTimer(d time.Duration, f func()) *simTimer {
	if d < 0 {
		d = 0
	}
	w.timerSeq++
	t := &simTimer{at: w.clock + int64(d), seq: w.timerSeq, fire: f, active: true}
	w.timers = append(w.timers, t)
	sort.SliceStable(w.timers, func(i, j int) bool {
		if w.timers[i].at != w.timers[j].at {
			return w.timers[i].at < w.timers[j].at
		}
		return w.timers[i].seq < w.timers[j].seq
	})
	return t
}

func (w *World) fireTimers() {
	for len(w.timers) > 0 && w.timers[0].at <= w.clock {
		t := w.timers[0]
		w.timers = w.timers[1:]
		if t.active {
			t.active = false
			t.fire()
		}
	}
}

// advance jumps the clock to the next timer or stalled task.
func (w *World) advance() bool {
	at := int64(-1)
	for _, t := range w.live {
		if t.st == tRunnable && t.stall > w.clock && (at < 0 || t.stall < at) {
			at = t.stall
		}
	}
	for _, t := range w.timers {
		if t.active && (at < 0 || t.at < at) {
			at = t.at
			break
		}
	}
	if at < 0 {
		return false
	}
	w.idle++
	if w.idle > 20000 {
		w.failWith("no-progress", "only timers fire, no task makes progress\n"+w.describe())
		return true
	}
	if at > w.clock {
		w.clock = at
	}
	w.fireTimers()
	return true
}
