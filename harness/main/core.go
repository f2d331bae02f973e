//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/zzsim"
)

func init() {
	register(&Prop{ID: "P30", Run: runP30, Quick: 30000, QuickS: 18,
		Rule: "Non-trivial: at least three events were processed and the pool was stopped or had to queue.",
		Real: "common.RoutinePool and its workers", Stub: "goroutine scheduling, channels, sync primitives, clock"})
	register(&Prop{ID: "P31", Run: runP31, Quick: 30000, QuickS: 15,
		Rule: "Non-trivial: at least two callers overlapped or a callback failed.",
		Real: "common.AbstractService, ServiceStatus", Stub: "goroutine scheduling, sync primitives; the three callbacks, with injected failures"})
	register(&Prop{ID: "P32", Run: runP32, Quick: 30000, QuickS: 15,
		Rule: "Non-trivial: at least four operations including a deletion or overlapping clients.",
		Real: "common.NodeIDSet", Stub: "goroutine scheduling, sync primitives"})
	register(&Prop{ID: "P33", Run: runP33, Quick: 30000, QuickS: 15,
		Rule: "Non-trivial: at least two clients overlapped.",
		Real: "common.LruMap, common.LastBlockMap, golang-lru", Stub: "goroutine scheduling, sync primitives of common"})
	register(&Prop{ID: "P35", Run: runP35, Quick: 30000, QuickS: 15,
		Rule: "Non-trivial: at least two clients overlapped.",
		Real: "the address registry of package common", Stub: "goroutine scheduling, sync primitives"})
	register(&Prop{ID: "P41", Run: runP41, Quick: 30000, QuickS: 12,
		Rule: "Non-trivial: an entropy fault fired.",
		Real: "NodeID/Address/Seed generation, RandomBytes", Stub: "the entropy source, with injected errors and short reads"})
}

// ---------------------------------------------------------------- P30 routine pool

func runP30(r *R) {
	nw := 1 + n("cfg", 3)
	qs := n("cfg", 5)
	keyed := zzsim.Chance("cfg", 1, 2)
	type evt struct {
		id      int
		high    bool
		key     string
		call    int64
		ret     int64
		started int64
		ended   int64
		worker  string
	}
	var all []*evt
	active, endedOf := map[string]int{}, map[string]int{}
	nActive := 0
	running := false // between Start's call and Stop's return
	done := 0
	startAt := int64(0)
	free := map[string]int64{}
	queued := false
	nested := 0
	var pool *common.RoutinePool
	repost := zzsim.Chance("cfg", 1, 3)
	newEvt := func(high bool) *evt {
		e := &evt{id: len(all), high: high, key: []string{"", "a", "b"}[op(3)], call: zzsim.Stamp()}
		all = append(all, e)
		return e
	}
	send := func(e *evt) {
		high := e.high
		ev("post %d high=%t", e.id, high)
		if high {
			pool.PostHigher(e)
		} else {
			pool.PostLower(e)
		}
		e.ret = zzsim.Stamp()
	}
	post := func(high bool) { send(newEvt(high)) }
	handler := func(name string, x interface{}) {
		e := x.(*evt)
		now := zzsim.Stamp()
		if !running {
			fail("pool-runs-stopped", "event %d is processed by %s while the pool is stopped", e.id, name)
		}
		if e.started != 0 {
			fail("pool-duplicate", "event %d is processed twice", e.id)
		}
		e.started, e.worker = now, name
		since := free[name]
		if startAt > since {
			since = startAt
		}
		ev("start %d on %s", e.id, name)
		if !e.high {
			waiting := 0
			for _, h := range all {
				if h.high && h.started == 0 && h.ret != 0 && h.ret < since {
					waiting++
				}
			}
			if waiting > nw-1 {
				fail("pool-priority", "%s takes low priority event %d while %d high priority events were already waiting when it became free (%d workers)", name, e.id, waiting, nw)
			}
		}
		if nw == 1 {
			for _, o := range all {
				if o != e && o.high == e.high && o.started == 0 && o.ret != 0 && o.ret < e.call {
					fail("pool-order", "event %d overtakes event %d of the same queue", e.id, o.id)
				}
			}
		}
		nActive++
		if nActive > nw {
			fail("pool-too-many", "%d events are being processed by %d workers", nActive, nw)
		}
		active[e.key]++
		lo := active[e.key] + endedOf[e.key]
		kc := common.KeyCount()
		lo -= endedOf[e.key] // in the handler during the whole call
		if keyed && e.key != "" && (kc[e.key] < lo || kc[e.key] > nw) {
			fail("pool-keycount", "KeyCount[%s] = %d with %d events of the key in their handler, %d workers", e.key, kc[e.key], lo, nw)
		}
		if _, bad := kc[""]; bad {
			fail("pool-keycount", "KeyCount counts the empty key")
		}
		was := fmt.Sprint(sortedInts(kc))
		for i := op(3); i > 0; i-- {
			zzsim.Point()
		}
		if zzsim.Chance("fault", 1, 6) {
			stat("fault.slow_handler")
			zzsim.Sleep(time.Duration(1+n("fault", 500)) * time.Millisecond)
		}
		if is := fmt.Sprint(sortedInts(kc)); is != was {
			fail("pool-keycount-live", "a KeyCount result changed under its caller from %s to %s", was, is)
		}
		if repost && nested < 4 && opChance(1, 4) {
			nested++
			x := newEvt(opChance(1, 2))
			zzsim.Spawn("repost", 1, func() { send(x) })
		}
		active[e.key]--
		endedOf[e.key]++
		nActive--
		done++
		e.ended = zzsim.Stamp()
		free[name] = e.ended
		ev("end %d", e.id)
	}
	var kg func(interface{}) string
	if keyed {
		kg = func(x interface{}) string { return x.(*evt).key }
	}
	pool = common.NewRoutinePool("p", nw, qs, handler, kg)
	rival := func(f func()) { // f, or two calls of f at the same time
		if !opChance(1, 5) {
			f()
			return
		}
		t := zzsim.Spawn("rival", 1, f)
		f()
		zzsim.Join(t)
	}
	start := func() {
		running = true
		startAt = zzsim.Stamp()
		rival(pool.Start)
		ev("started")
	}
	stopped := false
	stop := func() {
		ev("stop")
		rival(func() {
			pool.Stop()
			if nActive != 0 {
				fail("pool-stop-early", "Stop returned while %d events are being processed", nActive)
			}
		})
		running = false
		stopped = true
		ev("stopped")
		stat("fault.pool_stop")
		q := 0
		for _, e := range all {
			if e.started == 0 && e.ret != 0 {
				q++
			}
		}
		if l := pool.HigherLen() + pool.LowerLen(); l < q {
			fail("pool-lost", "after Stop %d posted events are unprocessed but only %d are queued", q, l)
		}
		if len(common.KeyCount()) != 0 {
			fail("pool-keycount", "KeyCount = %v although nothing is being processed", sortedInts(common.KeyCount()))
		}
	}
	if opChance(3, 4) {
		start()
	}
	var ts []*zzsim.Task
	for c := 0; c < 1+op(3); c++ {
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("poster%d", c), 1, func() {
			for i := 0; more(4, 5) && i < 6; i++ {
				if opChance(1, 12) {
					if opChance(1, 2) {
						pool.PostHigher(nil)
					} else {
						pool.PostLower(nil)
					}
					continue
				}
				post(opChance(1, 2))
			}
		}))
	}
	if opChance(1, 2) {
		ts = append(ts, zzsim.Spawn("controller", 1, func() {
			for i := op(4); i >= 0; i-- {
				for j := op(12); j > 0; j-- {
					zzsim.Point()
				}
				if running {
					if opChance(1, 4) {
						pool.Start() // already started: no effect
						continue
					}
					stop()
					if opChance(1, 4) {
						pool.Stop() // already stopped: no effect
					}
					for j := op(10); j > 0; j-- {
						zzsim.Point()
					}
				} else {
					start()
				}
			}
			if !running {
				start()
			}
		}))
	} else if !running {
		for j := op(10); j > 0; j-- {
			zzsim.Point()
		}
		queued = true
		start()
	}
	zzsim.Join(ts...)
	zzsim.WaitUntil("all events processed", func() bool { return done == len(all) })
	if len(all) >= 3 && (stopped || queued) {
		r.Nontrivial()
	}
	stop()
	if pool.HigherLen()+pool.LowerLen() > 0 { // only ignored nil events may remain
		start()
		for i := 0; pool.HigherLen()+pool.LowerLen() > 0; i++ {
			if i > 2000 {
				fail("pool-stuck", "the running pool does not drain its queues")
			}
			zzsim.Sleep(time.Millisecond)
		}
		stop()
	}
	if done != len(all) {
		fail("pool-duplicate", "%d events posted, %d processed", len(all), done)
	}
}

func sortedInts(m map[string]int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- P31 service life cycle

var errCallback = errors.New("injected callback failure")

type changer struct{ i, s, c func() error }

func (c *changer) Initializer() error { return c.i() }
func (c *changer) Starter() error     { return c.s() }
func (c *changer) Closer() error      { return c.c() }

func runP31(r *R) {
	s := &common.AbstractService{}
	inside := 0
	calls, fails := map[string]int{}, map[string]int{}
	failed := false
	cb := func(name string) func() error {
		return func() error {
			inside++
			calls[name]++
			if inside > 1 {
				fail("service-overlap", "%s runs while another step is running", name)
			}
			for i := op(3); i > 0; i-- {
				zzsim.Point()
			}
			if zzsim.Chance("fault", 1, 12) {
				stat("fault.slow_callback")
				zzsim.Sleep(time.Second)
			}
			inside--
			if zzsim.Chance("fault", 1, 5) {
				stat("fault.callback_error")
				failed = true
				fails[name]++
				return errCallback
			}
			return nil
		}
	}
	nilFunc := -1
	switch n("cfg", 3) {
	case 0:
		s.SetChanger(&changer{cb("init"), cb("start"), cb("close")})
	case 1:
		s.InitFunc, s.StartFunc, s.CloseFunc = cb("init"), cb("start"), cb("close")
	default:
		s.InitFunc, s.StartFunc, s.CloseFunc = cb("init"), cb("start"), cb("close")
		nilFunc = n("cfg", 3)
		nil2(s, nilFunc)
	}
	h := &History{}
	out := func(err error) string {
		if err == nil {
			return "ok"
		}
		return err.Error()
	}
	nops := 0
	nc := 1 + op(3)
	var ts []*zzsim.Task
	for c := 0; c < nc; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(6, 7) && i < 8 && nops < 16; i++ {
				nops++
				switch op(3) {
				case 0:
					o := h.Call(c, "init", "")
					h.Return(o, out(s.Init()))
				case 1:
					o := h.Call(c, "start", "")
					h.Return(o, out(s.Start()))
				case 2:
					o := h.Call(c, "close", "")
					h.Return(o, out(s.Close()))
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if (nc > 1 && nops > 2) || failed {
		r.Nontrivial()
	}
	ran, told := map[string]int{}, map[string]int{}
	for _, o := range h.ops {
		if o.Out == "ok" || o.Out == errCallback.Error() {
			ran[o.Name]++
		}
		if o.Out == errCallback.Error() {
			told[o.Name]++
		}
	}
	for _, name := range []string{"init", "start", "close"} {
		if told[name] != fails[name] {
			fail("service-calls", "the callback of %s failed %d times and %d calls reported it", name, fails[name], told[name])
		}
	}
	for i, name := range []string{"init", "start", "close"} {
		if i != nilFunc && ran[name] != calls[name] {
			fail("service-calls", "%s succeeded or failed in its callback %d times but the callback ran %d times", name, ran[name], calls[name])
		}
	}
	one := func(s string) []string { return []string{s} }
	checkLin("service-not-linearizable", h, "created", func(st string, o *HOp) []string {
		cberr := o.Out == errCallback.Error()
		ok := o.Out == "ok"
		switch o.Name {
		case "init":
			switch st {
			case "created", "stopped":
				if ok {
					return one("initialized")
				}
				if cberr {
					return one(st) // a failed initialisation has not happened
				}
			case "initialized":
				if o.Out == common.ErrAlreadyInitialized.Error() {
					return one(st)
				}
			case "started":
				if o.Out == common.ErrAlreadyStarted.Error() {
					return one(st)
				}
			}
		case "start":
			if st == "initialized" {
				if ok || cberr { // a failed start can be closed
					return one("started")
				}
			} else if o.Out == common.ErrNeedInitialization.Error() {
				return one(st)
			}
		case "close":
			switch st {
			case "created", "initialized":
				if o.Out == common.ErrNotStarted.Error() {
					return one(st)
				}
			case "started":
				if ok || cberr {
					return one("stopped")
				}
			case "stopped":
				if o.Out == common.ErrAlreadyStopped.Error() {
					return one(st)
				}
			}
		}
		return nil
	})
	if opChance(1, 4) { // a copy is a service of its own in the same state, without callbacks
		before := fmt.Sprint(calls)
		c, st := s.Copy(), "created"
		switch out(s.Init()) { // what the original says about its state
		case common.ErrAlreadyStarted.Error():
			st = "started"
		case common.ErrAlreadyInitialized.Error():
			st = "initialized"
		}
		afterInit := fmt.Sprint(calls)
		ops := map[string][]func() error{"created": {c.Init, c.Start, c.Close}, "initialized": {c.Start, c.Close}, "started": {c.Close}}[st]
		for i, f := range ops {
			if err := f(); err != nil {
				fail("service-copy", "step %d of the copy of a service that is %s: %v", i, st, err)
			}
		}
		if g := fmt.Sprint(calls); g != afterInit || st != "created" && g != before {
			fail("service-copy", "a copy of a %s service ran callbacks of the original: %s, before %s", st, g, afterInit)
		}
	}
}

func nil2(s *common.AbstractService, i int) {
	*[]*func() error{&s.InitFunc, &s.StartFunc, &s.CloseFunc}[i] = nil
}

// ---------------------------------------------------------------- P32 node id set

func runP32(r *R) {
	ids := make([]*common.NodeID, 3+op(4))
	name := map[common.NodeID]string{}
	for i := range ids {
		ids[i] = new(common.NodeID)
		ids[i][op(3)*31] = byte(1 + op(3))
		ids[i][62] = byte(i + 1)
		name[*ids[i]] = fmt.Sprint(i)
	}
	rank := make([]int, len(ids)) // position of each id in sorted order
	ord := make([]int, len(ids))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return string(ids[ord[a]][:]) < string(ids[ord[b]][:]) })
	for i, x := range ord {
		rank[x] = i
	}
	sorted := func(st []string) []string {
		r := append([]string{}, st...)
		sort.Slice(r, func(a, b int) bool { return rank[r[a][0]-'0'] < rank[r[b][0]-'0'] })
		return r
	}
	var init []*common.NodeID
	var st0 []string
	for i := op(4); i > 0; i-- {
		x := op(len(ids))
		init = append(init, ids[x].Clone())
		s := fmt.Sprint(x)
		if !contains(st0, s) {
			st0 = append(st0, s)
		}
	}
	set := common.NewNodeIDSet(init...)
	st0 = sorted(st0)
	h := &History{}
	nc := 1 + op(3)
	nops, dels := 0, 0
	var ts []*zzsim.Task
	for c := 0; c < nc; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(6, 7) && i < 9 && nops < 18; i++ {
				nops++
				x := op(len(ids))
				id := ids[x].Clone()
				in := fmt.Sprint(x)
				switch zzsim.Weighted("op", 5, 4, 4, 4, 2, 3) {
				case 0:
					o := h.Call(c, "put", in)
					h.Return(o, fmt.Sprint(set.Put(id)))
				case 1:
					dels++
					o := h.Call(c, "del", in)
					set.Delete(id)
					h.Return(o, "")
				case 2:
					i := op(len(ids)+2) - 1
					o := h.Call(c, "at", fmt.Sprint(i))
					p, ok := set.Get(i)
					out := "-"
					if ok {
						out = name[*p]
					}
					h.Return(o, out)
				case 3:
					o := h.Call(c, "index", in)
					i, ok := set.GetIndex(id)
					out := "-"
					if ok {
						out = fmt.Sprint(i)
					}
					h.Return(o, out)
				case 4:
					o := h.Call(c, "len", "")
					h.Return(o, fmt.Sprint(set.Len()))
				case 5:
					o := h.Call(c, "ids", "")
					var out []string
					for _, x := range set.GetNodeIDs(0) {
						s, ok := name[x]
						if !ok {
							s = "?" + hx(x[:])
						}
						out = append(out, s)
					}
					h.Return(o, strings.Join(out, ","))
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nops >= 4 && (dels > 0 || nc > 1) {
		r.Nontrivial()
	}
	split := func(s string) []string {
		if s == "" {
			return nil
		}
		return strings.Split(s, ",")
	}
	checkLin("nodeidset-not-linearizable", h, strings.Join(st0, ","), func(state string, o *HOp) []string {
		st := split(state)
		pos := -1
		for i, x := range st {
			if x == o.In {
				pos = i
			}
		}
		same := []string{state}
		switch o.Name {
		case "put":
			if o.Out != fmt.Sprint(pos < 0) {
				return nil
			}
			if pos >= 0 {
				return same
			}
			return []string{strings.Join(append(append([]string{}, st...), o.In), ",")}
		case "del":
			if pos < 0 {
				return same
			}
			return []string{strings.Join(append(append([]string{}, st[:pos]...), st[pos+1:]...), ",")}
		case "at":
			var i int
			fmt.Sscan(o.In, &i)
			want := "-"
			if i >= 0 && i < len(st) {
				want = st[i]
			}
			if o.Out == want {
				return same
			}
		case "index":
			want := "-"
			if pos >= 0 {
				want = fmt.Sprint(pos)
			}
			if o.Out == want {
				return same
			}
		case "len":
			if o.Out == fmt.Sprint(len(st)) {
				return same
			}
		case "ids":
			s := strings.Join(sorted(st), ",")
			if o.Out == s {
				if s == state {
					return same
				}
				return []string{s, state} // sorting the set itself is not specified
			}
		}
		return nil
	})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- P33 bounded map, last block map

func runP33(r *R) {
	if n("cfg", 3) == 0 {
		p33last(r)
		return
	}
	size := 1 + n("cfg", 4)
	m := common.NewLruMap(size)
	nk := size + 1 + op(3)
	h := &History{}
	nc := 1 + op(3)
	nops := 0
	var ts []*zzsim.Task
	for c := 0; c < nc; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(6, 7) && i < 8 && nops < 16; i++ {
				nops++
				k := fmt.Sprintf("k%d", op(nk))
				switch zzsim.Weighted("op", 8, 5, 3, 2, 1) {
				case 0:
					v := fmt.Sprintf("v%d", nops)
					o := h.Call(c, "add", k+"="+v)
					h.Return(o, fmt.Sprint(m.Add(k, v)))
				case 1:
					o := h.Call(c, "get", k)
					out := "-"
					if v := m.Get(k); v != nil {
						out = v.(string)
					}
					h.Return(o, out)
				case 2:
					o := h.Call(c, "has", k)
					h.Return(o, fmt.Sprint(m.Contains(k)))
				case 3:
					o := h.Call(c, "rm", k)
					m.Remove(k)
					h.Return(o, "")
				case 4:
					o := h.Call(c, "clear", "")
					m.Clear()
					h.Return(o, "")
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nc > 1 && nops > 2 {
		r.Nontrivial()
	}
	// state: "k=v," from least to most recently used
	checkLin("lrumap-not-linearizable", h, "", func(state string, o *HOp) []string {
		var st []string
		if state != "" {
			st = strings.Split(state, ",")
		}
		k := strings.SplitN(o.In, "=", 2)[0]
		pos := -1
		for i, e := range st {
			if strings.HasPrefix(e, k+"=") && k != "" {
				pos = i
			}
		}
		without := func() []string {
			r := []string{}
			for i, e := range st {
				if i != pos {
					r = append(r, e)
				}
			}
			return r
		}
		switch o.Name {
		case "add":
			if o.Out != fmt.Sprint(pos < 0) {
				return nil
			}
			if pos >= 0 {
				return []string{state}
			}
			st = append(without(), o.In)
			if len(st) > size {
				st = st[1:]
			}
			return []string{strings.Join(st, ",")}
		case "get":
			want := "-"
			if pos >= 0 {
				want = st[pos][len(k)+1:]
				st = append(without(), st[pos])
			}
			if o.Out != want {
				return nil
			}
			return []string{strings.Join(st, ",")}
		case "has":
			if o.Out != fmt.Sprint(pos >= 0) {
				return nil
			}
			return []string{state}
		case "rm":
			return []string{strings.Join(without(), ",")}
		case "clear":
			return []string{""}
		}
		return nil
	})
}

func p33last(r *R) {
	var m *common.LastBlockMap
	global := zzsim.Chance("cfg", 1, 2)
	if global {
		m = &common.LastBlocks
	} else {
		m = &common.LastBlockMap{M: map[common.ChainID]common.Height{}}
	}
	h := &History{}
	nc := 1 + op(3)
	nops := 0
	show := func(x map[common.ChainID]common.Height) string {
		var l []string
		for k, v := range x {
			l = append(l, fmt.Sprintf("%d=%d", k, v))
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	var ts []*zzsim.Task
	for c := 0; c < nc; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(6, 7) && i < 8 && nops < 16; i++ {
				nops++
				k := common.ChainID(op(3))
				v := common.Height(op(6))
				in := fmt.Sprintf("%d=%d", k, v)
				switch zzsim.Weighted("op", 4, 7, 4, 3) {
				case 0:
					o := h.Call(c, "set", in)
					if global && opChance(1, 2) {
						common.WatchHeight(k, v)
					} else {
						m.Set(k, v)
					}
					h.Return(o, "")
				case 1:
					o := h.Call(c, "cas", in)
					h.Return(o, fmt.Sprint(m.CAS(k, v)))
				case 2:
					o := h.Call(c, "get", fmt.Sprintf("%d=", k))
					x, ok := m.Get(k)
					out := "-"
					if ok {
						out = fmt.Sprint(x)
					}
					h.Return(o, out)
				case 3:
					o := h.Call(c, "copy", "")
					cp := m.CopyMap()
					s := show(cp)
					h.Return(o, s)
					for j := op(6); j > 0; j-- {
						zzsim.Point()
					}
					if show(cp) != s {
						fail("lastblock-copy", "a copied map changed under its owner")
					}
					cp[99] = 1 // the copy belongs to the caller
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nc > 1 && nops > 2 {
		r.Nontrivial()
	}
	checkLin("lastblock-not-linearizable", h, "", func(state string, o *HOp) []string {
		st := map[string]int{}
		if state != "" {
			for _, e := range strings.Split(state, ",") {
				f := strings.SplitN(e, "=", 2)
				x := 0
				fmt.Sscan(f[1], &x)
				st[f[0]] = x
			}
		}
		f := strings.SplitN(o.In, "=", 2)
		v := 0
		if len(f) > 1 {
			fmt.Sscan(f[1], &v)
		}
		cur, has := st[f[0]]
		put := func() []string {
			st[f[0]] = v
			var l []string
			for k, x := range st {
				l = append(l, fmt.Sprintf("%s=%d", k, x))
			}
			sort.Strings(l)
			return []string{strings.Join(l, ",")}
		}
		switch o.Name {
		case "set":
			return put()
		case "cas":
			want := !has || cur < v
			if o.Out != fmt.Sprint(want) {
				return nil
			}
			if want {
				return put()
			}
			return []string{state}
		case "get":
			want := "-"
			if has {
				want = fmt.Sprint(cur)
			}
			if o.Out == want {
				return []string{state}
			}
		case "copy":
			if o.Out == state {
				return []string{state}
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- P35 address registry

func runP35(r *R) {
	addrs := make([]common.Address, 4)
	for i := range addrs {
		addrs[i][0], addrs[i][19] = 0xd0, byte(i+1)
	}
	h := &History{}
	nc := 1 + op(3)
	nops := 0
	pick := func() (string, []common.Address) {
		var in []string
		var as []common.Address
		for i := op(3); i >= 0; i-- {
			x := op(len(addrs))
			in = append(in, fmt.Sprint(x))
			as = append(as, addrs[x])
		}
		return strings.Join(in, ""), as
	}
	var ts []*zzsim.Task
	for c := 0; c < nc; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("client%d", c), 1, func() {
			for i := 0; more(6, 7) && i < 8 && nops < 16; i++ {
				nops++
				in, as := pick()
				a := as[0]
				ain := in[:1]
				switch zzsim.Weighted("op", 2, 3, 2, 3, 3, 3, 3) {
				case 0:
					o := h.Call(c, "reserve", in)
					common.RegisterReservedAddress(as...)
					h.Return(o, "")
				case 1:
					free := opChance(1, 2)
					nm := "contract"
					if free {
						nm = "freecontract"
					}
					o := h.Call(c, nm, in)
					common.RegisterSystemContract(free, as...)
					h.Return(o, "")
				case 2:
					o := h.Call(c, "nocheck", in)
					common.RegisterNoCheckAddress(as...)
					h.Return(o, "")
				case 3:
					o := h.Call(c, "isR", ain)
					h.Return(o, fmt.Sprint(a.IsReserved()))
				case 4:
					o := h.Call(c, "isS", ain)
					h.Return(o, fmt.Sprint(a.IsSystemContract()))
				case 5:
					o := h.Call(c, "isN", ain)
					h.Return(o, fmt.Sprint(a.NoCheck()))
				case 6:
					o := h.Call(c, "isG", ain)
					h.Return(o, fmt.Sprint(a.IsNoGas()))
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nc > 1 && nops > 2 {
		r.Nontrivial()
	}
	// the final state takes part in the history
	for i, a := range addrs {
		o := h.Call(0, "isR", fmt.Sprint(i))
		h.Return(o, fmt.Sprint(a.IsReserved()))
		o = h.Call(0, "isS", fmt.Sprint(i))
		h.Return(o, fmt.Sprint(a.IsSystemContract()))
		o = h.Call(0, "isN", fmt.Sprint(i))
		h.Return(o, fmt.Sprint(a.NoCheck()))
		o = h.Call(0, "isG", fmt.Sprint(i))
		h.Return(o, fmt.Sprint(a.IsNoGas()))
	}
	checkLin("registry-not-linearizable", h, "", func(state string, o *HOp) []string {
		has := func(x string) bool { return strings.Contains(state, x+";") }
		add := func(kinds string) []string {
			var l []string
			for _, e := range strings.Split(state, ";") {
				if e != "" {
					l = append(l, e)
				}
			}
			for _, i := range o.In {
				for _, k := range kinds {
					e := string(k) + string(i)
					if !contains(l, e) {
						l = append(l, e)
					}
				}
			}
			sort.Strings(l)
			return []string{strings.Join(l, ";") + ";"}
		}
		switch o.Name {
		case "reserve":
			return add("R")
		case "contract":
			return add("RS")
		case "freecontract":
			return add("RSG")
		case "nocheck":
			return add("RN")
		default:
			if o.Out == fmt.Sprint(has(o.Name[2:]+o.In)) {
				return []string{state}
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- P41 entropy failure

func runP41(r *R) {
	// the entropy source counts its bytes up from 1 and remembers its faults
	next := byte(0)
	fired := false
	zzsim.EntropyFault = func(p []byte) (int, error, bool) {
		take := len(p)
		var err error
		if zzsim.Chance("fault", 1, 4) && take > 1 {
			take = 1 + n("fault", take-1)
			stat("fault.entropy_short_read")
			r.Nontrivial()
		}
		if zzsim.Chance("fault", 1, 8) {
			take = n("fault", take)
			err = errInjected
			fired = true
			stat("fault.entropy_error")
			r.Nontrivial()
		}
		for i := 0; i < take; i++ {
			next++
			if next == 0 {
				next = 1
			}
			p[i] = next
		}
		return take, err, true
	}
	check := func(what string, b []byte, from byte) {
		for _, x := range b {
			from++
			if from == 0 {
				from = 1
			}
			if x != from {
				fail("entropy-predictable", "%s returned bytes that did not come from the entropy source: %x", what, b)
			}
		}
	}
	for i := 0; more(7, 8) && i < 12; i++ {
		fired = false
		from := next
		gen := func(what string, b []byte, f func() error) {
			was := append([]byte{}, b...)
			err := f()
			ev("%s -> %v", what, err)
			if err == nil {
				if fired {
					fail("entropy-predictable", "%s reported success although the entropy source failed", what)
				}
				check(what, b, from)
			} else if !eq(was, b) {
				fail("entropy-partial", "%s failed but changed its value from %x to %x", what, was, b)
			} else if !fired {
				fail("entropy-error", "%s: %v", what, err)
			}
		}
		switch op(6) {
		case 0:
			x := new(common.NodeID)
			gen("NodeID.Generate", x[:], x.Generate)
		case 1:
			x := new(common.Address)
			gen("Address.Generate", x[:], x.Generate)
		case 2:
			x := new(common.Seed)
			gen("Seed.Generate", x[:], x.Generate)
		case 3:
			var b []byte
			l := op(70)
			if pv := try(func() { b = common.RandomBytes(l) }); pv != nil {
				if !fired {
					fail("entropy-error", "RandomBytes panicked: %v", pv)
				}
				continue
			}
			if fired || len(b) != l {
				fail("entropy-predictable", "RandomBytes(%d) returned %x although the entropy source failed", l, b)
			}
			check("RandomBytes", b, from)
		case 4:
			var id *common.NodeID
			if pv := try(func() { id = common.GenerateNodeID() }); pv != nil {
				if !fired {
					fail("entropy-error", "GenerateNodeID panicked: %v", pv)
				}
				continue
			}
			if id == nil && fired {
				continue
			}
			if fired {
				fail("entropy-predictable", "GenerateNodeID returned %x although the entropy source failed", id[:8])
			}
			check("GenerateNodeID", id[:], from)
		case 5:
			var bs [][]byte
			c, l := op(3), op(20)
			if pv := try(func() { bs = common.RandomByteSlices(c, l) }); pv != nil {
				if !fired {
					fail("entropy-error", "RandomByteSlices panicked: %v", pv)
				}
				continue
			}
			if fired || len(bs) != c {
				fail("entropy-predictable", "RandomByteSlices returned %x although the entropy source failed", bs)
			}
			check("RandomByteSlices", common.ConcatenateBytes(bs), from)
		}
	}
}
