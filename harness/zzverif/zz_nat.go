// Package zzverif is the runtime of the verification harnesses: native bodies, which replay
// a recorded witness under a cooperative scheduler that follows the recorded schedule.
package zzverif

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"unsafe"
)

type witness struct {
	ND        map[string]uint64 `json:"nd"`
	Sched     []int             `json:"sched"`
	TimeLimit int64             `json:"time_limit"`
}

var wit witness
var counts = map[string]int{}

// Main replays the witness named by ZZ_WITNESS on f.
func Main(f func()) {
	b, err := os.ReadFile(os.Getenv("ZZ_WITNESS"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &wit); err != nil {
		panic(err)
	}
	t := &thread{id: 0, wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	cur = t
	if len(wit.Sched) > 0 {
		pos = 1 // the engine's first entry grants the main goroutine
	}
	f()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	fmt.Printf("ZZ-ALLOC: %d\n", ms.TotalAlloc)
	fmt.Printf("ZZ-DONE diverged=%v\n", diverged)
	os.Exit(0)
}

func val(name string) uint64 {
	k := fmt.Sprintf("%s#%d", name, counts[name])
	counts[name]++
	return wit.ND[k]
}

func Byte(name string) byte                { return byte(val(name)) }
func ByteMax(name string, hi byte) byte    { return byte(val(name)) }
func U64(name string) uint64               { return val(name) }
func U32(name string) uint32               { return uint32(val(name)) }
func Bool(name string) bool                { return val(name) != 0 }
func IntRange(name string, lo, hi int) int { return lo + int(val(name)) }
func Choice(name string, n int) int        { return int(val(name)) }

func Assume(c bool) {
	if !c {
		fmt.Println("ZZ-ASSUME-FAILED")
		os.Exit(0)
	}
}

func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Fail(msg string) {
	fmt.Printf("ZZ-DIVERGED: %v\n", diverged)
	fmt.Println("ZZ-VIOLATION: " + msg)
	os.Exit(3)
}

func Kill() { Assume(false) }

func Cover(name string) { fmt.Println("ZZ-COVER: " + name) }

func OutStr(key, s string)        { fmt.Printf("ZZ-OUT: %s=%q\n", key, s) }
func OutInt(key string, v uint64) { fmt.Printf("ZZ-OUT: %s=%d\n", key, v) }
func Symbolic() bool              { return false }
func Fix(v uint64) uint64         { return v }
func Preempt(n int)               {}
func Timers(n int)                {}

func SameObject(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b)) && b0 < a0+uintptr(len(a))
}

func Alive(b []byte) bool { return true }

// ---- cooperative scheduler ----

type thread struct {
	id      int
	wake    chan struct{}
	ready   func() bool
	quiesce bool
	done    bool
}

type vtimer struct {
	at     int64
	period int64
	fire   func()
	id     int
}

var (
	threads  []*thread
	cur      *thread
	pos      int
	diverged bool
	now      int64
	timers   []vtimer
	timerIDs int
	regMu    sync.Mutex
)

func always() bool { return true }

func (t *thread) ok() bool { return !t.done && !t.quiesce && (t.ready == nil || t.ready()) }

func pick() *thread {
	for {
		any := false
		for _, t := range threads {
			if t.ok() {
				any = true
				break
			}
		}
		if !any {
			var q *thread
			for _, t := range threads {
				if !t.done && t.quiesce {
					q = t
					break
				}
			}
			if q != nil {
				pos++
				return q
			}
			if fireTimers() {
				continue
			}
			Fail("blocked forever")
		}
		if pos < len(wit.Sched) && !diverged {
			w := wit.Sched[pos]
			pos++
			if w == -1 {
				fireTimers()
				continue
			}
			if w >= 0 && w < len(threads) && threads[w].ok() {
				return threads[w]
			}
			diverged = true
			if os.Getenv("ZZ_TRACE") != "" {
				fmt.Println("ZZ-TRACE: diverged at", pos-1, "want", w)
			}
		}
		if cur.ok() {
			return cur
		}
		for k := 1; k <= len(threads); k++ {
			if t := threads[(cur.id+k)%len(threads)]; t.ok() {
				return t
			}
		}
	}
}

func point(ready func() bool) {
	raceOff()
	t := cur
	t.ready = ready
	n := pick()
	if n != t {
		cur = n
		n.wake <- struct{}{}
		<-t.wake
	}
	t.ready = nil
	t.quiesce = false
	raceOn()
	if os.Getenv("ZZ_TRACE") != "" {
		var pcs [12]uintptr
		k := runtime.Callers(2, pcs[:])
		fr := runtime.CallersFrames(pcs[:k])
		s := ""
		for {
			f, more := fr.Next()
			s += " < " + f.Function[strings.LastIndexByte(f.Function, '/')+1:]
			if !more {
				break
			}
		}
		fmt.Println("ZZ-TRACE:", pos-1, "thread", t.id, s)
	}
}

func retire(t *thread) {
	raceOff()
	t.done = true
	if t.id == 0 {
		return
	}
	n := pick()
	cur = n
	n.wake <- struct{}{}
	raceOn()
}

// Go starts a goroutine.
func Go(f func()) {
	t := &thread{id: len(threads), wake: make(chan struct{}, 1)}
	threads = append(threads, t)
	go func() {
		raceOff()
		<-t.wake
		raceOn()
		f()
		retire(t)
	}()
}

func fireTimers() bool {
	if len(timers) == 0 {
		return false
	}
	at := timers[0].at
	for _, r := range timers {
		if r.at < at {
			at = r.at
		}
	}
	if at > now {
		now = at
	}
	if wit.TimeLimit > 0 && now > wit.TimeLimit {
		Fail("still blocked at the virtual time limit")
	}
	rs := timers
	timers = nil
	for _, r := range rs {
		if r.at > now {
			timers = append(timers, r)
			continue
		}
		if r.fire != nil {
			r.fire()
		}
		if r.period > 0 {
			r.at += r.period
			timers = append(timers, r)
		}
	}
	return true
}

// AddTimer, StopTimer and ResetTimer serve package zztime.
func AddTimer(d, period int64, fire func()) int {
	if d < 0 {
		d = 0
	}
	timerIDs++
	timers = append(timers, vtimer{at: now + d, period: period, fire: fire, id: timerIDs})
	return timerIDs
}

// StopTimer removes a pending timer.
func StopTimer(id int) bool {
	for i, r := range timers {
		if r.id == id {
			timers = append(timers[:i:i], timers[i+1:]...)
			return true
		}
	}
	return false
}

// Sleep is time.Sleep in virtual time.
func Sleep(d int64) {
	if d <= 0 {
		return
	}
	until := now + d
	AddTimer(d, 0, nil)
	point(func() bool { return now >= until })
}

func Block(cell *uint32) { point(func() bool { return *cell != 0 }) }
func Yield()             { point(always) }

func Quiesce() {
	cur.quiesce = true
	point(nil)
}

func Live() int {
	n := 0
	for _, t := range threads {
		if !t.done {
			n++
		}
	}
	return n
}

func Now() int64      { return now }
func Advance(d int64) { now += d }

// Point is a scheduling point of package zsync and zatomic.
func Point(ready func() bool) {
	if ready == nil {
		ready = always
	}
	point(ready)
}

// ---- channels ----

var closedChans = map[unsafe.Pointer]bool{}
var recvq = map[unsafe.Pointer][]*rendezvous{}
var sendq = map[unsafe.Pointer][]*rendezvous{}

type rendezvous struct {
	v    any
	done bool
}

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func isClosed(p unsafe.Pointer) bool {
	regMu.Lock()
	defer regMu.Unlock()
	return closedChans[p]
}

// Close closes a channel.
func Close[T any](c chan T) {
	point(always)
	close(c)
	regMu.Lock()
	closedChans[chanPtr[T](c)] = true
	regMu.Unlock()
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the two-valued receive.
func Recv2[T any](c <-chan T) (T, bool) {
	p := chanPtr(c)
	if c != nil && cap(c) == 0 {
		r := &rendezvous{}
		recvq[p] = append(recvq[p], r)
		point(func() bool { return r.done || len(sendq[p]) > 0 || isClosed(p) })
		if !r.done {
			q := recvq[p]
			for i := range q {
				if q[i] == r {
					recvq[p] = append(q[:i:i], q[i+1:]...)
					break
				}
			}
			if len(sendq[p]) > 0 {
				s := sendq[p][0]
				sendq[p] = sendq[p][1:]
				s.done = true
				return s.v.(T), true
			}
			v, ok := <-c
			return v, ok
		}
		return r.v.(T), true
	}
	point(func() bool { return c != nil && (len(c) > 0 || isClosed(p)) })
	v, ok := <-c
	return v, ok
}

// Send sends on a channel.
func Send[T any](c chan<- T, v T) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if c != nil && cap(c) == 0 {
		s := &rendezvous{v: v}
		sendq[p] = append(sendq[p], s)
		point(func() bool { return s.done || len(recvq[p]) > 0 || isClosed(p) })
		if s.done {
			return
		}
		q := sendq[p]
		for i := range q {
			if q[i] == s {
				sendq[p] = append(q[:i:i], q[i+1:]...)
				break
			}
		}
		if isClosed(p) {
			panic("send on closed channel")
		}
		r := recvq[p][0]
		recvq[p] = recvq[p][1:]
		r.v, r.done = v, true
		return
	}
	point(func() bool { return c != nil && (len(c) < cap(c) || isClosed(p)) })
	c <- v
}

// SelCase describes one case of a select.
type SelCase struct {
	Ready func() bool
}

// R and S make the cases of Sel.
func R[T any](c <-chan T) SelCase {
	p := chanPtr(c)
	return SelCase{func() bool { return c != nil && (len(c) > 0 || isClosed(p)) }}
}

func S[T any](c chan<- T) SelCase {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	return SelCase{func() bool { return c != nil && (len(c) < cap(c) || isClosed(p)) }}
}

var selPick = map[*thread]int{}

// Sel waits until one case is ready (or not at all with a default) and picks one.
func Sel(deflt bool, cs ...SelCase) {
	point(func() bool {
		if deflt {
			return true
		}
		for _, c := range cs {
			if c.Ready() {
				return true
			}
		}
		return false
	})
	var ready []int
	for i, c := range cs {
		if c.Ready() {
			ready = append(ready, i)
		}
	}
	k := -1
	if len(ready) > 0 {
		k = ready[0]
		if len(ready) > 1 && pos < len(wit.Sched) && wit.Sched[pos] <= -2 {
			k = -wit.Sched[pos] - 2
			pos++
		}
	}
	selPick[cur] = k
}

// OnlyR and OnlyS disable the cases that were not picked.
func OnlyR[T any](i int, c <-chan T) <-chan T {
	if selPick[cur] == i {
		return c
	}
	return nil
}

func OnlyS[T any](i int, c chan<- T) chan<- T {
	if selPick[cur] == i {
		return c
	}
	return nil
}
