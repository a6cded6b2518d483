package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	gosync "sync"
	"sync/atomic"
	"time"
	"unsafe"

	gostlsync "github.com/liyue201/gostl/utils/sync"
)

// The controlled scheduler: workers are goroutines of which exactly one runs at
// a time; it gives up control at every lock operation, in every callback and
// between operations, and the scheduler decides from the case's random stream
// who goes on. The containers' own lock is replaced by one with the same
// semantics (that of the lock found there) whose waiting the scheduler sees, so
// a deadlock is a state and not a timeout.

type ctlAbort struct{}

var lockerType = reflect.TypeOf((*gostlsync.Locker)(nil)).Elem()

// lockState is what the scheduler knows of one lock.
type lockState struct {
	name    string
	none    bool // a lock that does nothing
	writer  bool
	readers int
	waitW   int
}

type ctlWorker struct {
	id     int
	resume chan struct{}
	wait   *lockState // blocked on this lock, or nil
	waitW  bool
	done   bool
	prio   int
	where  string
	op     string
}

type ctl struct {
	t        *T
	r        *rand.Rand
	ws       []*ctlWorker
	cur      *ctlWorker
	evt      chan int
	aborting bool
	free     atomic.Bool
	policy   int
	changes  map[int]bool
	steps    int
	sig      uint64
	clock    atomic.Int64
	locks    map[any]*lockState
	nlocks   int
	switches int
	lockWait int
}

func newCtl(t *T) *ctl {
	c := &ctl{t: t, r: t.R, evt: make(chan int), locks: map[any]*lockState{}, policy: t.Intn(3), changes: map[int]bool{}}
	for i, n := 0, 1+t.Intn(4); i < n; i++ {
		c.changes[t.Intn(60)] = true
	}
	return c
}

// ctlLock stands in for a container's lock.
type ctlLock struct {
	c     *ctl
	s     *lockState
	inner gostlsync.Locker
}

// inject replaces the locks in the fields of the container at p; it reports
// false if there is none it understands.
func (c *ctl) inject(p any, name string) bool {
	v := reflect.ValueOf(p).Elem()
	if v.Kind() != reflect.Struct {
		return false
	}
	found := false
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != lockerType || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		inner := f.Interface().(gostlsync.Locker)
		if l, ok := inner.(*ctlLock); ok { // a container that shares a lock we put there
			_ = l
			found = true
			continue
		}
		var s *lockState
		switch l := inner.(type) {
		case *gosync.RWMutex:
			s = c.locks[l]
			if s == nil {
				s = &lockState{name: fmt.Sprintf("lock of %s", name)}
				c.locks[l] = s
				c.nlocks++
			}
		case gostlsync.FakeLocker, *gostlsync.FakeLocker:
			s = &lockState{name: "no lock", none: true}
		default:
			return false
		}
		f.Set(reflect.ValueOf(&ctlLock{c, s, inner}))
		found = true
	}
	return found
}

func (l *ctlLock) Lock()    { l.acquire(true) }
func (l *ctlLock) RLock()   { l.acquire(false) }
func (l *ctlLock) Unlock()  { l.release(true) }
func (l *ctlLock) RUnlock() { l.release(false) }

func (s *lockState) canEnter(write bool) bool {
	if s.none {
		return true
	}
	if write {
		return !s.writer && s.readers == 0
	}
	return !s.writer && s.waitW == 0
}

func (l *ctlLock) acquire(write bool) {
	c, s := l.c, l.s
	if c.free.Load() {
		l.real(write, true)
		return
	}
	if c.cur == nil { // outside the scheduled part
		if !s.canEnter(write) {
			panic(violation{fmt.Sprintf("an operation needs the %s, which is still held and will never be released", s.name)})
		}
		l.enter(write)
		return
	}
	c.yield("lock")
	if c.free.Load() {
		l.real(write, true)
		return
	}
	w := c.cur
	if !s.canEnter(write) {
		c.lockWait++
		w.wait, w.waitW = s, write
		if write {
			s.waitW++
		}
		c.yield("wait")
		if c.free.Load() {
			l.real(write, true)
			return
		}
		// the scheduler resumes a waiting worker only when it can enter
		if write {
			s.waitW--
		}
		w.wait = nil
	}
	l.enter(write)
}

func (l *ctlLock) enter(write bool) {
	if l.s.none {
		return
	}
	l.real(write, true)
	if write {
		l.s.writer = true
	} else {
		l.s.readers++
	}
}

// real mirrors the operation on the lock that was found in the container, so
// that going over to free running finds it in the right state.
func (l *ctlLock) real(write, enter bool) {
	switch {
	case write && enter:
		l.inner.Lock()
	case write:
		l.inner.Unlock()
	case enter:
		l.inner.RLock()
	default:
		l.inner.RUnlock()
	}
}

func (l *ctlLock) release(write bool) {
	c, s := l.c, l.s
	if c.free.Load() {
		l.real(write, false)
		return
	}
	if s.none {
		return
	}
	if write && !s.writer || !write && s.readers == 0 {
		if c.aborting {
			return
		}
		panic(violation{fmt.Sprintf("%s released in mode write=%v while not held that way (writer %v, %d readers)", s.name, write, s.writer, s.readers)})
	}
	if write {
		s.writer = false
	} else {
		s.readers--
	}
	l.real(write, false)
	if c.cur != nil && !c.aborting && c.r.IntN(2) == 0 {
		c.yield("unlocked")
	}
}

// yield hands control to the scheduler and returns when it is given back.
func (c *ctl) yield(where string) {
	if c.free.Load() {
		if where == "hook" {
			runtime.Gosched()
		}
		return
	}
	w := c.cur
	if w == nil {
		return
	}
	if c.aborting {
		panic(ctlAbort{})
	}
	w.where = where
	c.evt <- w.id
	<-w.resume
	if c.aborting {
		panic(ctlAbort{})
	}
}

// hook is what callbacks call.
func (c *ctl) hook() { c.yield("hook") }

// tick advances the logical clock of the history.
func (c *ctl) tick() int { return int(c.clock.Add(1)) }

// run executes the workers under the scheduler. It returns a description of the
// deadlock it ran into, or "".
func (c *ctl) run(bodies []func()) string {
	var wg gosync.WaitGroup
	var fmu gosync.Mutex
	var failed any
	for i := range bodies {
		w := &ctlWorker{id: i, resume: make(chan struct{}), where: "start", prio: c.r.IntN(1000)}
		c.ws = append(c.ws, w)
		wg.Add(1)
		go func(w *ctlWorker, body func()) {
			defer wg.Done()
			<-w.resume
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(ctlAbort); ok {
							return
						}
						fmu.Lock()
						if failed == nil {
							failed = r
						}
						fmu.Unlock()
					}
				}()
				if !c.aborting {
					body()
				}
			}()
			w.done = true
			if !c.free.Load() {
				c.evt <- w.id
			}
		}(w, bodies[i])
	}
	dead := ""
	last := -1
	stop := func() {
		// let every worker that is still parked run into its abort, one by one
		c.aborting = true
		for _, w := range c.ws {
			for !w.done {
				c.cur = w
				w.resume <- struct{}{}
				<-c.evt
			}
		}
		c.cur = nil
	}
	timer := time.NewTimer(time.Hour)
	defer timer.Stop()
sched:
	for {
		var can []*ctlWorker
		left := 0
		for _, w := range c.ws {
			if w.done {
				continue
			}
			left++
			if w.wait == nil || w.wait.canEnterFrom(w.waitW) {
				can = append(can, w)
			}
		}
		fmu.Lock()
		bad := failed != nil
		fmu.Unlock()
		if left == 0 {
			break
		}
		if bad {
			stop()
			break
		}
		if len(can) == 0 {
			var b strings.Builder
			for _, w := range c.ws {
				if !w.done {
					fmt.Fprintf(&b, "worker %d in %s waits for the %s (write %v; writer %v, %d readers); ", w.id, w.op, w.wait.name, w.waitW, w.wait.writer, w.wait.readers)
				}
			}
			dead = b.String()
			stop()
			break
		}
		w := c.choose(can, last)
		if w.id != last {
			c.switches++
		}
		last = w.id
		c.steps++
		c.sig = mix(c.sig, uint64(w.id+1)<<8|uint64(len(w.where)))
		c.cur = w
		w.resume <- struct{}{}
		timer.Reset(2 * time.Second)
		select {
		case <-c.evt:
		case <-timer.C:
			// the worker is blocked or busy outside the scheduler's sight: if the
			// library blocks on a lock we did not find, let everyone run freely
			if !blockedInLibrary() {
				select {
				case <-c.evt:
					continue sched
				case <-time.After(60 * time.Second):
				}
			}
			c.goFree(&wg)
			break sched
		}
	}
	c.cur = nil
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	return dead
}

// canEnterFrom is canEnter for a worker that is itself among the waiting.
func (s *lockState) canEnterFrom(write bool) bool {
	if s.none {
		return true
	}
	if write {
		return !s.writer && s.readers == 0
	}
	// a reader that waits behind a writer enters when no writer holds or awaits
	return !s.writer && s.waitW == 0
}

// goFree releases every worker to run on its own.
func (c *ctl) goFree(wg *gosync.WaitGroup) {
	c.free.Store(true)
	c.t.Count("cases that left the scheduler")
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for _, w := range c.ws {
		go func(w *ctlWorker) {
			for {
				select {
				case w.resume <- struct{}{}:
				case <-done:
					return
				}
			}
		}(w)
	}
	go func() {
		for {
			select {
			case <-c.evt:
			case <-done:
				return
			}
		}
	}()
	<-done
}

func blockedInLibrary() bool {
	for _, blk := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(blk, "liyue201/gostl") && (strings.Contains(blk, "[sync.") || strings.Contains(blk, "[semacquire")) {
			return true
		}
	}
	return false
}

func (c *ctl) choose(can []*ctlWorker, last int) *ctlWorker {
	if len(can) == 1 {
		return can[0]
	}
	switch c.policy {
	case 0: // uniform
		return can[c.r.IntN(len(can))]
	case 1: // stay with one worker for a while
		if c.r.IntN(4) > 0 {
			for _, w := range can {
				if w.id == last {
					return w
				}
			}
		}
		return can[c.r.IntN(len(can))]
	}
	// priorities with a few change points
	best := can[0]
	for _, w := range can {
		if w.prio > best.prio {
			best = w
		}
	}
	if c.changes[c.steps] {
		best.prio = -c.steps
	}
	return best
}
