//go:build go1.22

package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/ThinkiumGroup/go-common/log"
	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/sirupsen/logrus"
)

// ---------------------------------------------------------------- P40 logging

func init() {
	register(&Prop{ID: "P40", Run: runP40, Quick: 30000, QuickS: 15,
		Rule: "Non-trivial: at least two tasks logged at least three records between them.",
		Real: "package log with its hook, logrus", Stub: "rotating log files and console (in memory, with injected write and open errors, stalls), goroutine scheduling, clock"})
}

type logSink struct {
	name     string
	recs     []string
	faulty   int // per-mille
	lost     int
	shortErr bool
	inWrite  bool
	shared   bool // written through several hooks
}

func (s *logSink) Write(p []byte) (int, error) {
	if s.inWrite && !s.shared {
		fail("log-overlap", "two records are written to %s at the same time", s.name)
	}
	s.inWrite = true
	rec := string(p)
	zzsim.Point()
	if zzsim.Chance("fault", 1, 30) {
		stat("fault.slow_write")
		zzsim.Sleep(20 * time.Millisecond)
	}
	s.inWrite = false
	if string(p) != rec {
		fail("log-buffer-reuse", "the record changed while it was written to %s: %q, %q", s.name, rec, p)
	}
	if s.faulty > 0 && zzsim.Chance("fault", s.faulty, 1000) {
		stat("fault.log_write_error")
		s.lost++
		if zzsim.Chance("fault", 1, 2) {
			return zzsim.Choose("fault", len(p)), errInjected
		}
		return 0, errInjected
	}
	s.recs = append(s.recs, rec)
	return len(p), nil
}

func runP40(r *R) {
	type recd struct {
		id, task   int
		level      int // 0 debug 1 info 2 warn 3 error
		fields     []string
		call, ret  int64
		onFile     int
		fileFaults bool
		sets       []string // fields set before the call
	}
	type ccRec struct {
		id, level int
		must      bool // the cash check log was ready before the call
	}
	var all []*recd
	var ccs []*ccRec
	ccReady := false
	var files []*logSink
	fileFault, consFault := 0, 0
	if zzsim.Chance("cfg", 1, 2) {
		fileFault = 150
	}
	if zzsim.Chance("cfg", 1, 4) {
		consFault = 150
	}
	openFault := zzsim.Chance("cfg", 1, 4)
	cons := &logSink{name: "console", faulty: consFault}
	zzsim.Stdout.W = cons
	opens := 0
	zzsim.RotateOpen = func(pattern string) (io.Writer, error) {
		opens++
		if openFault && opens > 1 && zzsim.Chance("fault", 1, 2) {
			stat("fault.log_open_error")
			return nil, errInjected
		}
		f := &logSink{name: pattern, faulty: fileFault}
		files = append(files, f)
		return f, nil
	}
	log.InitLog("/logs/node", []byte{1, 2, 3, 4, 5, 6, 7}[:n("cfg", 8)])
	checkLog := false
	nt := 1 + op(3)
	nrec := 0
	reinit := zzsim.Chance("cfg", 1, 4)
	cons.shared = reinit
	var setFields []string
	var fieldDone []bool
	ccLog := func() {
		e := &ccRec{id: len(ccs), level: op(4), must: ccReady}
		ccs = append(ccs, e)
		msg := fmt.Sprintf("{%d}", e.id)
		ev("cash record %d level %d", e.id, e.level)
		switch op(3) {
		case 0:
			[]func(...interface{}){log.CCDebug, log.CCInfo, log.CCWarn, log.CCError}[e.level](msg)
		case 1:
			[]func(string, ...interface{}){log.CCDebugf, log.CCInfof, log.CCWarnf, log.CCErrorf}[e.level]("{%d}", e.id)
		case 2:
			l := log.CCWithFields(logrus.Fields{"f7": "v7"})
			[]func(...interface{}){l.Debug, l.Info, l.Warn, l.Error}[e.level](msg)
		}
	}
	var ts []*zzsim.Task
	for c := 0; c < nt; c++ {
		c := c
		ts = append(ts, zzsim.Spawn(fmt.Sprintf("logger%d", c), 1, func() {
			for i := 0; more(7, 8) && i < 8 && nrec < 20; i++ {
				if reinit && opChance(1, 8) {
					pv := try(func() { log.InitLog("/logs/again", []byte{9}) })
					ev("reinit -> %v", pv)
					if pv != nil && !openFault {
						fail("log-init", "InitLog: %v", pv)
					}
					continue
				}
				if !reinit && opChance(1, 12) {
					f := fmt.Sprintf("sf%dx", len(setFields))
					setFields = append(setFields, f)
					k := len(setFields) - 1
					fieldDone = append(fieldDone, false)
					log.SetFields(logrus.Fields{f: 1})
					fieldDone[k] = true
					continue
				}
				if opChance(1, 10) {
					k := op(7)
					nid := []byte{1, 2, 3, 4, 5, 6}[:k:k]
					log.InitCheckLog("/logs/cash", nid)
					checkLog = true
					for _, f := range files {
						if strings.Contains(f.name, ".check.") {
							ccReady = true
						}
					}
					if !ccReady && !openFault {
						fail("log-init", "InitCheckLog opened no file")
					}
					ccLog()
					continue
				}
				if opChance(1, 8) {
					// before any initialisation, or after one that failed
					ccLog()
					continue
				}
				e := &recd{id: len(all), task: c, level: op(4)}
				done := append([]bool{}, fieldDone...)
				all = append(all, e)
				nrec++
				msg := fmt.Sprintf("<%d>", e.id)
				e.call = zzsim.Stamp()
				ev("log %d level %d", e.id, e.level)
				way := op(4)
				own := way < 2
				switch way {
				case 0:
					[]func(...interface{}){log.Debug, log.Info, log.Warn, log.Error}[e.level](msg)
				case 1:
					[]func(string, ...interface{}){log.Debugf, log.Infof, log.Warnf, log.Errorf}[e.level]("<%d>", e.id)
				case 2:
					var vs []interface{}
					for j := op(4); j >= 0; j-- {
						k := fmt.Sprintf("f%d", j)
						vs = append(vs, k, fmt.Sprintf("v%d", j))
						e.fields = append(e.fields, k)
					}
					l := log.WithField(vs...)
					[]func(...interface{}){l.Debug, l.Info, l.Warn, l.Error}[e.level](msg)
				case 3:
					var l logrus.FieldLogger
					if opChance(1, 2) {
						l = log.WithFields(logrus.Fields{"f0": "v0", "f1": "v1"})
						e.fields = []string{"f0", "f1"}
					}
					own = l == nil
					[]func(logrus.FieldLogger, string, ...interface{}){log.MustDebugf, log.MustInfof, log.MustWarnf, log.MustErrorf}[e.level](l, "<%d>", e.id)
				}
				e.ret = zzsim.Stamp()
				for k, d := range done {
					if d && own {
						e.sets = append(e.sets, setFields[k])
					}
				}
			}
		}))
	}
	zzsim.Join(ts...)
	if nt > 1 && len(all) > 2 {
		r.Nontrivial()
	}
	if checkLog {
		stat("probe.check_log")
	}
	count := func(s *logSink, id int) (c int, last string) {
		tok := fmt.Sprintf("<%d>", id)
		for _, x := range s.recs {
			k := strings.Count(x, tok)
			if k > 0 {
				last = x
			}
			c += k
		}
		return
	}
	fileLost := 0
	for _, f := range files {
		fileLost += f.lost
	}
	missF, missC := 0, 0
	for _, e := range all {
		total := 0
		for _, f := range files {
			c, rec := count(f, e.id)
			total += c
			for _, k := range e.fields {
				if c > 0 && !strings.Contains(rec, k+"\x1b[0m=v"+k[1:]) && !strings.Contains(rec, k+"=v"+k[1:]) {
					fail("log-field-lost", "record %d was logged with the fields %v but reads %q", e.id, e.fields, rec)
				}
			}
			for _, k := range e.sets {
				if c > 0 && !strings.Contains(rec, k) {
					fail("log-field-lost", "record %d was logged after the field %s was set but reads %q", e.id, k, rec)
				}
			}
			if c > 0 && !strings.HasSuffix(rec, "\n") {
				fail("log-record", "record %d has no end of line: %q", e.id, rec)
			}
			if c > 0 && !strings.Contains(strings.ToUpper(rec), []string{"DEBU", "INFO", "WARN", "ERRO"}[e.level]) {
				fail("log-level", "record %d of level %d reads %q", e.id, e.level, rec)
			}
		}
		if total > 1 {
			fail("log-duplicate", "record %d was written %d times", e.id, total)
		}
		if total == 0 {
			missF++
		}
		cc, _ := count(cons, e.id)
		if e.level == 0 && cc > 0 {
			fail("log-console", "debug record %d is on the console", e.id)
		}
		if cc > 1 {
			fail("log-duplicate", "record %d is on the console %d times", e.id, cc)
		}
		if e.level > 0 && cc == 0 {
			missC++
		}
	}
	if missF > fileLost {
		fail("log-lost", "%d of %d records are missing in the log files, %d writes failed", missF, len(all), fileLost)
	}
	if missC > cons.lost {
		fail("log-console", "%d records of level info and above are missing on the console, %d writes failed", missC, cons.lost)
	}
	missCC, ccLost := 0, 0
	for _, f := range files {
		if strings.Contains(f.name, ".check.") {
			ccLost += f.lost
		}
	}
	for _, e := range ccs {
		tok := fmt.Sprintf("{%d}", e.id)
		total := 0
		for _, f := range files {
			for _, x := range f.recs {
				k := strings.Count(x, tok)
				if k == 0 {
					continue
				}
				total += k
				if !strings.Contains(f.name, ".check.") {
					fail("cash-log", "the cash check record %d is in %s", e.id, f.name)
				}
				if !strings.Contains(strings.ToUpper(x), []string{"DEBU", "INFO", "WARN", "ERRO"}[e.level]) || !strings.HasSuffix(x, "\n") {
					fail("log-level", "cash check record %d of level %d reads %q", e.id, e.level, x)
				}
			}
		}
		if total > 1 {
			fail("log-duplicate", "cash check record %d was written %d times", e.id, total)
		}
		if total == 0 && e.must {
			missCC++
		}
	}
	if missCC > ccLost {
		fail("log-lost", "%d of %d records are missing in the cash check log, %d writes failed", missCC, len(ccs), ccLost)
	}
	// per task, and across tasks where one call returned before the other began, records are in order
	for _, f := range append(files, cons) {
		pos := map[int]int{}
		for i, x := range f.recs {
			for _, e := range all {
				if strings.Contains(x, fmt.Sprintf("<%d>", e.id)) {
					pos[e.id] = i
				}
			}
		}
		for _, a := range all {
			for _, b := range all {
				pa, oka := pos[a.id]
				pb, okb := pos[b.id]
				if oka && okb && a.ret < b.call && pa > pb {
					fail("log-order", "record %d was logged before record %d but follows it in %s", a.id, b.id, f.name)
				}
			}
		}
	}
}
