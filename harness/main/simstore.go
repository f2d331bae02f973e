//go:build go1.22

package main

import (
	"bytes"
	"io"
	"os"
	"sort"

	"github.com/ThinkiumGroup/go-common/zzsim"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Disk is a simulated set of directories holding goleveldb files. What was
// written survives a process kill; only what was synced surely survives a
// power cut.
type Disk struct {
	dirs                       map[string]*simDir
	writeErr, syncErr, readErr int // per-mille
	budget                     int
	fired                      int
	inject                     bool
	crashAt, ops               int // crash before the ops-th storage mutation
	onCrash                    func()
	onlyJournal                bool
}

type simFile struct {
	data   []byte
	synced int
}

type simDir struct {
	d      *Disk
	files  map[storage.FileDesc]*simFile
	meta   storage.FileDesc
	locked bool
}

func newDisk() *Disk {
	d := &Disk{dirs: map[string]*simDir{}, budget: -1}
	zzsim.SetHook("LDBOpenFile", func(path string, o *opt.Options) (*leveldb.DB, error) {
		return leveldb.Open(d.dir(path), o)
	})
	return d
}

func noDisk() {
	zzsim.SetHook("LDBOpenFile", func(path string, o *opt.Options) (*leveldb.DB, error) {
		return nil, os.ErrPermission
	})
}

func (d *Disk) dir(path string) *simDir {
	s := d.dirs[path]
	if s == nil {
		s = &simDir{d: d, files: map[storage.FileDesc]*simFile{}}
		d.dirs[path] = s
	}
	return s
}

// restart drops the locks held by the dead process.
func (d *Disk) restart() {
	for _, s := range d.dirs {
		s.locked = false
	}
}

// powerCut keeps of every file its synced part plus a random part of the rest.
func (d *Disk) powerCut() {
	stat("fault.power_cut")
	for _, p := range sortedKeys(d.dirs) {
		s := d.dirs[p]
		var fds []storage.FileDesc
		for fd := range s.files {
			fds = append(fds, fd)
		}
		sort.Slice(fds, func(i, j int) bool {
			if fds[i].Type != fds[j].Type {
				return fds[i].Type < fds[j].Type
			}
			return fds[i].Num < fds[j].Num
		})
		for _, fd := range fds {
			f := s.files[fd]
			if tail := len(f.data) - f.synced; tail > 0 {
				keep := f.synced + n("fault", tail+1)
				f.data = append([]byte{}, f.data[:keep]...)
				stat("fault.lost_tail")
			}
			f.synced = len(f.data)
		}
	}
	d.restart()
}

func (d *Disk) roll(permille int, what string) bool {
	if !d.inject || permille == 0 || d.budget == 0 {
		return false
	}
	if zzsim.Chance("fault", permille, 1000) {
		d.budget--
		d.fired++
		stat("fault." + what)
		ev("fault %s", what)
		return true
	}
	return false
}

// mutate is the crash point before a storage mutation.
func (d *Disk) mutate() {
	zzsim.Point()
	d.ops++
	if d.crashAt > 0 && d.ops >= d.crashAt {
		d.crashAt = 0
		stat("fault.crash")
		ev("crash at storage mutation %d", d.ops)
		d.onCrash()
	}
}

type simLock struct{ s *simDir }

func (l *simLock) Unlock() { l.s.locked = false }

func (s *simDir) Lock() (storage.Locker, error) {
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return &simLock{s}, nil
}
func (s *simDir) Log(string) {}
func (s *simDir) SetMeta(fd storage.FileDesc) error {
	s.d.mutate()
	if s.d.roll(s.d.syncErr, "setmeta_error") {
		return errInjected
	}
	s.meta = fd
	return nil
}
func (s *simDir) GetMeta() (storage.FileDesc, error) {
	if s.meta.Zero() {
		return s.meta, os.ErrNotExist
	}
	return s.meta, nil
}
func (s *simDir) List(ft storage.FileType) ([]storage.FileDesc, error) {
	var fds []storage.FileDesc
	for fd := range s.files {
		if fd.Type&ft != 0 {
			fds = append(fds, fd)
		}
	}
	sort.Slice(fds, func(i, j int) bool { return fds[i].Num < fds[j].Num })
	return fds, nil
}
func (s *simDir) Open(fd storage.FileDesc) (storage.Reader, error) {
	f := s.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	zzsim.Point()
	return &simReader{Reader: bytes.NewReader(f.data), d: s.d}, nil
}
func (s *simDir) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.d.mutate()
	if s.d.roll(s.d.writeErr, "create_error") {
		return nil, errInjected
	}
	f := &simFile{}
	s.files[fd] = f
	return &simWriter{d: s.d, f: f, journal: fd.Type == storage.TypeJournal}, nil
}
func (s *simDir) Remove(fd storage.FileDesc) error {
	s.d.mutate()
	if s.files[fd] == nil {
		return os.ErrNotExist
	}
	delete(s.files, fd)
	return nil
}
func (s *simDir) Rename(a, b storage.FileDesc) error {
	s.d.mutate()
	s.files[b] = s.files[a]
	delete(s.files, a)
	return nil
}
func (s *simDir) Close() error { return nil }

type simReader struct {
	*bytes.Reader
	d *Disk
}

func (r *simReader) Close() error { return nil }
func (r *simReader) ReadAt(p []byte, off int64) (int, error) {
	zzsim.Point()
	if r.d.roll(r.d.readErr, "read_error") {
		return 0, errInjected
	}
	return r.Reader.ReadAt(p, off)
}

type simWriter struct {
	d       *Disk
	f       *simFile
	journal bool
	closed  bool
}

func (w *simWriter) Write(p []byte) (int, error) {
	w.d.mutate()
	if (w.journal || !w.d.onlyJournal) && w.d.roll(w.d.writeErr, "write_error") {
		k := n("fault", len(p)+1) // a short write
		w.f.data = append(w.f.data, p[:k]...)
		return k, errInjected
	}
	if w.d.crashAt > 0 && w.d.ops+1 >= w.d.crashAt && len(p) > 1 && zzsim.Chance("fault", 1, 2) {
		// torn write: the process dies inside the write
		w.d.crashAt = 0
		k := n("fault", len(p))
		w.f.data = append(w.f.data, p[:k]...)
		stat("fault.torn_write")
		ev("crash inside a write, %d of %d bytes", k, len(p))
		w.d.onCrash()
	}
	w.f.data = append(w.f.data, p...)
	return len(p), nil
}
func (w *simWriter) Sync() error {
	zzsim.Point()
	if (w.journal || !w.d.onlyJournal) && w.d.roll(w.d.syncErr, "sync_error") {
		return errInjected
	}
	w.f.synced = len(w.f.data)
	return nil
}
func (w *simWriter) Close() error {
	if w.closed {
		return storage.ErrClosed
	}
	w.closed = true
	return nil
}

var _ io.Reader = (*simReader)(nil)
