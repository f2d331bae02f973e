//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ThinkiumGroup/go-common/zzsim"
)

// Prop is one property with its simulated world.
type Prop struct {
	ID        string
	Run       func(r *R)
	Quick     int // runs
	Thorough  int
	QuickS    int // wall clock cap in seconds
	ThoroughS int
	Units     int64
	Rule      string
	Real      string
	Stub      string
	Assume    []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Quick == 0 {
		p.Quick = 20000
	}
	if p.Thorough == 0 {
		p.Thorough = p.Quick * 40
	}
	if p.QuickS == 0 {
		p.QuickS = 40
	}
	if p.ThoroughS == 0 {
		p.ThoroughS = 600
	}
	if p.Units == 0 {
		p.Units = 40_000_000
	}
	props[p.ID] = p
}

// R is the per-run harness context.
type R struct {
	Prop       string
	nontrivial bool
}

// Nontrivial marks the run as having exercised the property.
func (r *R) Nontrivial() { r.nontrivial = true }

type runOut struct {
	*zzsim.Result
	Nontrivial bool
}

func runSeed(prop string, idx int, vseed int64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, vseed, idx)
	return h.Sum64()
}

func runOne(p *Prop, cfg zzsim.Config) *runOut {
	resetGlobals()
	r := &R{Prop: p.ID}
	if cfg.MaxUnits == 0 {
		cfg.MaxUnits = p.Units
	}
	res := zzsim.Run(cfg, func() { p.Run(r) })
	if res.Stats["determinism.unordered_map"] > 0 {
		fmt.Fprintln(os.Stderr, "ERROR: a map with unorderable keys was iterated; the run is not repeatable")
		os.Exit(4)
	}
	return &runOut{res, r.nontrivial}
}

type failRec struct {
	Idx     int
	Class   string
	Msg     string
	Streams map[string][]uint32
	Marks   map[string][]int
	Hash    uint64
}

type batchRec struct {
	Runs       int
	Nontrivial int
	Units      int64
	Clock      int64
	Switches   int64
	SlowPts    int64
	Tasks      int64
	Stats      map[string]int64
	RunsWith   map[string]int64
	HashesNT   []uint64
	Sched      []uint64
	Hashes     map[int]uint64 // sampled, for the determinism self-check
	Samples    []string
	Known      map[string]int64
	Done       bool
	Capped     bool
}

func newBatch() *batchRec {
	return &batchRec{Stats: map[string]int64{}, RunsWith: map[string]int64{}, Hashes: map[int]uint64{}, Known: map[string]int64{}}
}

// ---------------------------------------------------------------- worker

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 0, "")
	seed := fs.Int64("seed", 1, "")
	deadline := fs.Float64("deadline", 1e9, "")
	sample := fs.Int("sample", 0, "emit the hash of every run whose index is below this")
	known := fs.String("known", "", "")
	fs.Parse(args)
	p := props[*prop]
	kn := loadKnown(*known, p.ID)
	limit := int64(1) << 60
	go func() {
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			if v, err := strconv.ParseInt(strings.TrimSpace(sc.Text()), 10, 64); err == nil {
				atomic.StoreInt64(&limit, v)
			}
		}
	}()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	t0 := time.Now()
	b := newBatch()
	emit := func(kind string, v interface{}) {
		j, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", kind, j)
		out.Flush()
	}
	last := time.Now()
	for i := *start; i < *count; i += *stride {
		if int64(i) >= atomic.LoadInt64(&limit) {
			break
		}
		if time.Since(t0).Seconds() > *deadline {
			b.Capped = true
			break
		}
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		ro := runOne(p, zzsim.Config{Seed: runSeed(p.ID, i, *seed), Verbose: i < 3})
		b.add(i, ro, *sample)
		if ro.Fail != nil {
			if k := kn.match(ro.Fail); k != "" {
				b.Known[k]++
				continue
			}
			emit("F", &failRec{i, ro.Fail.Class, ro.Fail.Msg, ro.Streams, ro.Marks, ro.Hash})
			break
		}
		if time.Since(last) > 2*time.Second {
			emit("B", b)
			b = newBatch()
			last = time.Now()
		}
	}
	b.Done = true
	emit("B", b)
}

func (b *batchRec) add(i int, ro *runOut, sample int) {
	b.Runs++
	b.Units += ro.Units
	b.Clock += ro.Clock
	b.Switches += ro.Switches
	b.SlowPts += ro.SlowPts
	b.Tasks += int64(ro.Tasks)
	for k, v := range ro.Stats {
		if strings.HasPrefix(k, "max.") {
			if b.Stats[k] < v {
				b.Stats[k] = v
			}
		} else {
			b.Stats[k] += v
		}
		b.RunsWith[k]++
	}
	if ro.Nontrivial {
		b.Nontrivial++
		b.HashesNT = append(b.HashesNT, ro.Hash)
	}
	b.Sched = append(b.Sched, ro.SchedHash)
	if i < sample {
		b.Hashes[i] = ro.Hash
	}
	if i < 3 {
		lg := ro.Log
		if len(lg) > 25 {
			lg = append(append([]string{}, lg[:25]...), fmt.Sprintf("... %d more events", len(ro.Log)-25))
		}
		b.Samples = append(b.Samples, fmt.Sprintf("run %d: %s", i, strings.Join(lg, " | ")))
	}
}

// ---------------------------------------------------------------- known findings

type knownEntry struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	Status   string `json:"status"` // open | fixed
	What     string `json:"what"`
}
type knownList []knownEntry

func loadKnown(path, prop string) knownList {
	var l knownList
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		var k knownEntry
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == prop && k.Status == "open" {
			l = append(l, k)
		}
	}
	return l
}
func (l knownList) match(f *zzsim.Failure) string {
	for _, k := range l {
		if k.Class == f.Class && strings.Contains(f.Msg, k.Contains) {
			return k.What
		}
	}
	return ""
}

// ---------------------------------------------------------------- check

type replayFile struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Tier     string              `json:"tier"`
	Seed     int64               `json:"verif_seed"`
	RunIndex int                 `json:"run_index"`
	RunSeed  uint64              `json:"run_seed"`
	Minimal  bool                `json:"minimised"`
	Hash     uint64              `json:"event_hash"`
	Streams  map[string][]uint32 `json:"decisions"`
	Log      []string            `json:"trace"`
}

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(code)
}

type wproc struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	mu    sync.Mutex
	last  int
	lastT time.Time
	done  bool
	errb  bytes.Buffer
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evPath := fs.String("evidence", "", "")
	known := fs.String("known", "", "")
	repDir := fs.String("replays", "", "")
	workers := fs.Int("workers", 8, "")
	runsOv := fs.Int("runs", 0, "")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		die(2, "unknown property %s", *prop)
	}
	t0 := time.Now()
	runs, cap := p.Quick, p.QuickS
	if *tier == "thorough" {
		runs, cap = p.Thorough, p.ThoroughS
	}
	if *runsOv > 0 {
		runs = *runsOv
	}
	const selfN = 48
	var mu sync.Mutex
	total := newBatch()
	seenNT, seenS := map[uint64]bool{}, map[uint64]bool{}
	hashes := map[int]uint64{}
	var fail *failRec
	var fatal *failRec
	mismatch := ""
	ws := make([]*wproc, 0)
	var wg sync.WaitGroup
	broken := ""
	setLimit := func(n int) {
		for _, w := range ws {
			w.mu.Lock()
			if !w.done {
				fmt.Fprintf(w.in, "%d\n", n)
				w.in.Flush()
			}
			w.mu.Unlock()
		}
	}
	startW := func(start, stride, count int, deadline float64, self bool) {
		cmd := exec.Command(os.Args[0], "worker", "-prop", p.ID, "-start", strconv.Itoa(start), "-stride", strconv.Itoa(stride),
			"-count", strconv.Itoa(count), "-seed", strconv.FormatInt(*seed, 10), "-deadline", fmt.Sprint(deadline), "-sample", strconv.Itoa(selfN), "-known", *known)
		w := &wproc{cmd: cmd, last: -1, lastT: time.Now()}
		ip, _ := cmd.StdinPipe()
		w.in = bufio.NewWriter(ip)
		op, _ := cmd.StdoutPipe()
		cmd.Stderr = &w.errb
		if err := cmd.Start(); err != nil {
			die(2, "start worker: %v", err)
		}
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(op, 1<<20)
			for {
				line, err := rd.ReadString('\n')
				if err != nil {
					break
				}
				switch line[0] {
				case 'S':
					n, _ := strconv.Atoi(strings.TrimSpace(line[2:]))
					w.mu.Lock()
					w.last, w.lastT = n, time.Now()
					w.mu.Unlock()
				case 'F':
					f := &failRec{}
					json.Unmarshal([]byte(line[2:]), f)
					mu.Lock()
					if fail == nil || f.Idx < fail.Idx {
						fail = f
					}
					n := fail.Idx
					mu.Unlock()
					setLimit(n)
				case 'B':
					b := newBatch()
					json.Unmarshal([]byte(line[2:]), b)
					mu.Lock()
					for i, h := range b.Hashes {
						if o, ok := hashes[i]; ok && o != h {
							mismatch = fmt.Sprintf("run %d: event hash %x in one process, %x in another", i, o, h)
						}
						hashes[i] = h
					}
					if !self {
						total.merge(b)
						for _, h := range b.HashesNT {
							seenNT[h] = true
						}
						for _, h := range b.Sched {
							seenS[h] = true
						}
					}
					if b.Done {
						w.mu.Lock()
						w.done = true
						w.mu.Unlock()
					}
					mu.Unlock()
				}
			}
			err := cmd.Wait()
			w.mu.Lock()
			ok := w.done
			w.done = true
			last := w.last
			w.mu.Unlock()
			if !ok && err != nil {
				mu.Lock()
				es := w.errb.String()
				if strings.Contains(es, "fatal error:") || strings.Contains(es, "goroutine stack exceeds") {
					fr := &failRec{Idx: last, Class: "fatal", Msg: firstLines(es, 3)}
					if fatal == nil || last < fatal.Idx {
						fatal = fr
					}
				} else {
					broken = fmt.Sprintf("worker died at run %d: %v\n%s", last, err, firstLines(es, 30))
				}
				mu.Unlock()
				setLimit(last)
			}
		}()
	}
	nw := *workers
	mu.Lock()
	for k := 0; k < nw; k++ {
		startW(k, nw, runs, float64(cap), false)
	}
	mu.Unlock()
	// determinism self-check: the first runs again, in differently sized worker sets
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			mu.Lock()
			for _, w := range ws {
				w.mu.Lock()
				if !w.done && time.Since(w.lastT) > 120*time.Second {
					broken = fmt.Sprintf("worker stuck in run %d", w.last)
					w.cmd.Process.Kill()
				}
				w.mu.Unlock()
			}
			mu.Unlock()
		}
	}()
	wg.Wait()
	if fail == nil && fatal == nil && broken == "" {
		mu.Lock()
		n := selfN
		if n > runs {
			n = runs
		}
		for k := 0; k < 3; k++ {
			startW(k, 3, n, 60, true)
		}
		mu.Unlock()
		wg.Wait()
	}
	close(stop)
	if fatal != nil && (fail == nil || fatal.Idx < fail.Idx) {
		fail = fatal
	}
	viol := 0
	code := 0
	if fail != nil {
		// reproduce and minimise in a fresh process
		os.MkdirAll(*repDir, 0755)
		path := filepath.Join(*repDir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *seed, fail.Idx))
		rf := &replayFile{Property: p.ID, Class: fail.Class, Message: fail.Msg, Tier: *tier, Seed: *seed, RunIndex: fail.Idx,
			RunSeed: runSeed(p.ID, fail.Idx, *seed), Hash: fail.Hash, Streams: fail.Streams}
		writeReplay(path, rf)
		if fail.Class != "fatal" {
			budget := "25"
			if *tier == "thorough" {
				budget = "120"
			}
			cmd := exec.Command(os.Args[0], "shrink", "-file", path, "-budget", budget)
			ob, err := cmd.CombinedOutput()
			if err != nil {
				fmt.Fprintf(os.Stderr, "note: minimisation stopped early: %v\n%s\n", err, firstLines(string(ob), 20))
			}
		}
		cmd := exec.Command(os.Args[0], "replay", "-quiet", path)
		ob, err := cmd.CombinedOutput()
		ee, isExit := err.(*exec.ExitError)
		if err == nil || !isExit || ee.ExitCode() != 1 {
			fmt.Printf("%s\n", firstLines(string(ob), 40))
			die(2, "violation %s found at run %d does not replay exactly (%v): %s", fail.Class, fail.Idx, err, fail.Msg)
		}
		rr := readReplay(path)
		fmt.Printf("property %s violated: [%s] %s\n", p.ID, rr.Class, rr.Message)
		for i, l := range rr.Log {
			if i > 60 {
				fmt.Printf("  ... %d more trace lines in the replay file\n", len(rr.Log)-i)
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		viol = 1
		code = 1
	} else if broken != "" {
		die(2, "%s", broken)
	} else if mismatch != "" {
		die(2, "simulation is not deterministic: %s", mismatch)
	}
	for k, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", p.ID, k, n)
	}
	for _, k := range loadKnown(*known, p.ID) {
		if total.Known[k.What] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
		}
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(*evPath, p, *tier, *seed, total, len(seenNT), len(seenS), len(hashes), wall, viol, runs)
	fmt.Printf("%s %s seed=%d: %d runs, %d non-trivial (%d distinct), %d distinct schedules, %.1fs, violations=%d\n", p.ID, *tier, *seed,
		total.Runs, total.Nontrivial, len(seenNT), len(seenS), wall, viol)
	os.Exit(code)
}

func (t *batchRec) merge(b *batchRec) {
	t.Runs += b.Runs
	t.Nontrivial += b.Nontrivial
	t.Units += b.Units
	t.Clock += b.Clock
	t.Switches += b.Switches
	t.SlowPts += b.SlowPts
	t.Tasks += b.Tasks
	for k, v := range b.Stats {
		if strings.HasPrefix(k, "max.") {
			if t.Stats[k] < v {
				t.Stats[k] = v
			}
			continue
		}
		t.Stats[k] += v
	}
	for k, v := range b.RunsWith {
		t.RunsWith[k] += v
	}
	for k, v := range b.Known {
		t.Known[k] += v
	}
	t.Samples = append(t.Samples, b.Samples...)
	t.Capped = t.Capped || b.Capped
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeEvidence(path string, p *Prop, tier string, seed int64, t *batchRec, distinct, scheds, selfRuns int, wall float64, viol, planned int) {
	if path == "" {
		return
	}
	faults := map[string]map[string]int64{}
	probes := map[string]map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = map[string]int64{"fired": v, "runs": t.RunsWith[k]}
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = map[string]int64{"hits": v, "runs": t.RunsWith[k]}
		default:
			other[k] = v
		}
	}
	sort.Strings(t.Samples)
	if len(t.Samples) > 3 {
		t.Samples = t.Samples[:3]
	}
	cov := map[string]interface{}{
		"evaluations": t.Runs, "distinct_nontrivial": distinct,
		"rule":                   "one evaluation is one simulated execution: a seed decides workload, schedule and faults. " + p.Rule + " Distinct = different hash over every scheduling decision and observed event.",
		"samples":                t.Samples,
		"runs_planned":           planned,
		"stopped_by_time_cap":    t.Capped,
		"runs_per_hour":          int64(float64(t.Runs) / wall * 3600),
		"simulated_time_s":       float64(t.Clock) / 1e9,
		"simulated_steps":        t.Units,
		"nontrivial_runs":        t.Nontrivial,
		"tasks_started":          t.Tasks,
		"scheduling_decisions":   t.SlowPts,
		"context_switches":       t.Switches,
		"distinct_interleavings": map[string]interface{}{"count": scheds, "measure": "distinct sequences of (code site, from-task, to-task) context switches"},
		"faults_injected":        faults,
		"probes":                 probes,
		"counters":               other,
		"determinism_recheck":    fmt.Sprintf("%d runs executed again in other processes with another worker count; event hashes equal", selfRuns),
		"real_code":              p.Real,
		"stubbed":                p.Stub,
	}
	ev := map[string]interface{}{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": append([]string{"scheduling points are statements of the packages under test and their synchronisation operations; memory is sequentially consistent",
			"a clean batch is evidence over the sampled executions, not a proof"}, p.Assume...),
		"wall_s": wall, "violations": viol}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(j, '\n'), 0644); err != nil {
		die(2, "evidence: %v", err)
	}
}

func writeReplay(path string, rf *replayFile) {
	j, _ := json.Marshal(rf)
	if err := os.WriteFile(path, append(j, '\n'), 0644); err != nil {
		die(2, "replay file: %v", err)
	}
}
func readReplay(path string) *replayFile {
	data, err := os.ReadFile(path)
	if err != nil {
		die(2, "%v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(data, rf); err != nil {
		die(2, "%v", err)
	}
	return rf
}

func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("quiet", false, "")
	fs.Parse(args)
	rf := readReplay(fs.Arg(0))
	p := props[rf.Property]
	if p == nil {
		die(2, "unknown property %q", rf.Property)
	}
	cfg := zzsim.Config{Seed: rf.RunSeed, Verbose: true}
	if rf.Class == "fatal" {
		// the process is expected to die: run it in a child
		if os.Getenv("ZZ_FATAL_CHILD") == "" {
			cmd := exec.Command(os.Args[0], "replay", fs.Arg(0))
			cmd.Env = append(os.Environ(), "ZZ_FATAL_CHILD=1")
			ob, err := cmd.CombinedOutput()
			if err != nil && strings.Contains(string(ob), "fatal error:") {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", firstLines(string(ob), 6), rf.Property, fs.Arg(0))
				os.Exit(1)
			}
			fmt.Println("the run no longer dies")
			os.Exit(0)
		}
	} else if rf.Streams != nil {
		cfg.Replay = rf.Streams
	}
	ro := runOne(p, cfg)
	if !*quiet {
		for _, l := range ro.Log {
			fmt.Println("  " + l)
		}
	}
	if ro.Fail == nil {
		fmt.Printf("replay of %s: no violation\n", rf.Property)
		os.Exit(0)
	}
	fmt.Printf("[%s] %s\n", ro.Fail.Class, ro.Fail.Msg)
	if ro.Fail.Class != rf.Class || (rf.Hash != 0 && ro.Hash != rf.Hash) {
		fmt.Printf("replay differs: recorded class %s hash %x, got %s %x\n", rf.Class, rf.Hash, ro.Fail.Class, ro.Hash)
		os.Exit(3)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
	os.Exit(1)
}

// ---------------------------------------------------------------- shrink

func trimZeros(v []uint32) []uint32 {
	for len(v) > 0 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

func cloneStreams(m map[string][]uint32) map[string][]uint32 {
	r := map[string][]uint32{}
	for k, v := range m {
		r[k] = append([]uint32(nil), v...)
	}
	return r
}

func shrinkMain(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	file := fs.String("file", "", "")
	budget := fs.Float64("budget", 25, "")
	fs.Parse(args)
	rf := readReplay(*file)
	p := props[rf.Property]
	t0 := time.Now()
	over := func() bool { return time.Since(t0).Seconds() > *budget }
	try := func(st map[string][]uint32) *runOut {
		ro := runOne(p, zzsim.Config{Seed: rf.RunSeed, Replay: st, MaxUnits: p.Units})
		if ro.Fail != nil && ro.Fail.Class == rf.Class {
			return ro
		}
		return nil
	}
	best := try(rf.Streams)
	if best == nil {
		die(3, "recorded decisions do not reproduce %s", rf.Class)
	}
	cur := cloneStreams(best.Streams)
	save := func() {
		ro := runOne(p, zzsim.Config{Seed: rf.RunSeed, Replay: cur, Verbose: true})
		if ro.Fail == nil || ro.Fail.Class != rf.Class {
			return
		}
		n := *rf
		n.Streams, n.Hash, n.Log, n.Message, n.Minimal = cur, ro.Hash, ro.Log, ro.Fail.Msg, true
		writeReplay(*file, &n)
	}
	save()
	accept := func(cand map[string][]uint32) bool {
		ro := try(cand)
		if ro == nil {
			return false
		}
		nw := map[string][]uint32{}
		for k, v := range ro.Streams {
			c := cand[k]
			if len(v) > len(c) {
				v = v[:len(c)]
			}
			nw[k] = trimZeros(append([]uint32(nil), v...))
		}
		// keep only if the normalised form still fails
		if r2 := try(nw); r2 != nil {
			cur, best = nw, r2
		} else {
			cur, best = cand, ro
		}
		return true
	}
	names := func() []string {
		var n []string
		for k := range cur {
			n = append(n, k)
		}
		sort.Slice(n, func(i, j int) bool {
			pr := map[string]int{"op": 0, "fault": 1, "sched": 2}
			a, ok := pr[n[i]]
			if !ok {
				a = 3
			}
			b, ok := pr[n[j]]
			if !ok {
				b = 3
			}
			if a != b {
				return a < b
			}
			return n[i] < n[j]
		})
		return n
	}
	for round := 0; round < 6 && !over(); round++ {
		before := total(cur)
		for _, n := range names() { // whole stream to zero
			if over() {
				break
			}
			if len(cur[n]) == 0 {
				continue
			}
			c := cloneStreams(cur)
			c[n] = nil
			if accept(c) {
				continue
			}
			for l := len(cur[n]) / 2; l > 0 && !over(); l /= 2 { // truncate the tail
				c := cloneStreams(cur)
				if l < len(c[n]) {
					c[n] = c[n][:len(c[n])-l]
					accept(c)
				}
			}
		}
		for _, n := range names() { // delete spans between marks
			for k := 8; k >= 1; k /= 2 {
				marks := best.Marks[n]
				for i := len(marks) - 1; i >= 0 && !over(); i-- {
					marks = best.Marks[n]
					if i >= len(marks) {
						continue
					}
					lo := marks[i]
					hi := len(cur[n])
					if i+k < len(marks) {
						hi = marks[i+k]
					}
					if lo >= len(cur[n]) {
						continue
					}
					if hi > len(cur[n]) {
						hi = len(cur[n])
					}
					if hi <= lo {
						continue
					}
					c := cloneStreams(cur)
					c[n] = append(append([]uint32(nil), c[n][:lo]...), c[n][hi:]...)
					accept(c)
				}
			}
		}
		for _, n := range names() { // delete and zero chunks
			if n == "cfg" {
				continue
			}
			for k := len(cur[n]) / 2; k >= 1 && !over(); k /= 2 {
				for i := 0; i+k <= len(cur[n]) && !over(); {
					c := cloneStreams(cur)
					c[n] = append(append([]uint32(nil), c[n][:i]...), c[n][i+k:]...)
					if accept(c) {
						continue
					}
					zero := true
					for j := i; j < i+k && j < len(cur[n]); j++ {
						zero = zero && cur[n][j] == 0
					}
					if !zero {
						c = cloneStreams(cur)
						for j := i; j < i+k; j++ {
							c[n][j] = 0
						}
						accept(c)
					}
					i += k
				}
			}
		}
		for _, n := range names() { // lower single values
			for i := 0; i < len(cur[n]) && i < 4000 && !over(); i++ {
				for i < len(cur[n]) && cur[n][i] > 1 {
					c := cloneStreams(cur)
					c[n][i] /= 2
					if !accept(c) {
						break
					}
				}
			}
		}
		if total(cur) >= before {
			break
		}
	}
	save()
}

func total(m map[string][]uint32) int {
	t := 0
	for _, v := range m {
		t += len(v) * 8
		for _, x := range v {
			if x != 0 {
				t++
			}
		}
	}
	return t
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		die(2, "usage: check|worker|replay|shrink|list")
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2:])
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "shrink":
		shrinkMain(os.Args[2:])
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}
