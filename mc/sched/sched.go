// Package sched is the controlled scheduler of the concurrency explorer.
//
// The instrumented copy of the code under test calls Point before every
// statement. The explorer decides which thread runs and for how many points;
// every other thread waits. The waiting is done without any operation the
// race detector knows as synchronisation, so that it sees the threads as
// unordered and reports every conflicting pair of accesses, whatever the
// schedule.
package sched

import (
	"runtime"
	"sync"
	"time"
)

func getg() uintptr

// G identifies the calling goroutine.
func G() uintptr { return getg() }

const maxThreads = 4

type thread struct {
	g       uintptr
	steps   int // points passed
	limit   int // stop before this point; <0: never
	run     bool
	paused  bool
	done    bool
	started bool
	record  bool
	trail   []int32
	_       [64]byte
}

var (
	threads [maxThreads]thread
	active  bool
	// Calls counts the points reached, to tell whether the code is instrumented.
	Calls int
)

// Tid is the index of the calling thread, -1 outside the explored threads.
//
//go:norace
func Tid() int {
	if !active {
		return -1
	}
	g := getg()
	for i := range threads {
		if threads[i].g == g {
			return i
		}
	}
	return -1
}

// Point is a scheduling point.
//
//go:norace
func Point(id int32) {
	if !active {
		return
	}
	i := Tid()
	if i < 0 {
		return
	}
	t := &threads[i]
	if t.record {
		t.trail = append(t.trail, id)
	}
	t.wait()
	t.steps++
}

//go:norace
func (t *thread) wait() {
	if t.limit < 0 || t.steps < t.limit {
		return
	}
	t.run = false
	t.paused = true
	for !t.run {
		runtime.Gosched()
	}
}

//go:norace
func (t *thread) begin(i int) {
	t.g = getg()
	t.started = true
	for !t.run {
		runtime.Gosched()
	}
}

//go:norace
func (t *thread) end() {
	t.g = 0
	t.done = true
}

// Seg runs a thread for N points from here, or to its end if N < 0.
type Seg struct{ T, N int }

// Report is what was seen of one run.
type Report struct {
	Steps   []int
	Trails  [][]int32
	Blocked int  // segments in which the thread got stuck before its time
	Stuck   bool // not every thread came to an end
}

// Run runs the bodies as threads under the plan. Threads not finished by the
// plan are then run to their end one after another.
//
//go:norace
func Run(bodies []func(), plan []Seg, record bool) Report {
	var wg sync.WaitGroup
	for i := range threads {
		threads[i] = thread{}
	}
	for i := range bodies {
		threads[i].record = record
		threads[i].limit = 0
	}
	active = true
	for i := range bodies {
		i, f := i, bodies[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer threads[i].end()
			threads[i].begin(i)
			f()
		}()
	}
	for i := range bodies {
		for !threads[i].started {
			runtime.Gosched()
		}
	}
	rep := Report{}
	for i := range bodies {
		plan = append(plan, Seg{i, -1})
	}
	for _, s := range plan {
		if !segment(s) {
			rep.Blocked++
		}
	}
	// whoever was blocked is let go with the others
	end := time.Now().Add(60 * time.Second)
	for i := range bodies {
		threads[i].limit = -1
		threads[i].run = true
	}
	for i := range bodies {
		for !threads[i].done {
			if time.Now().After(end) {
				rep.Stuck = true
				active = false
				return rep
			}
			runtime.Gosched()
		}
	}
	wg.Wait()
	active = false
	for i := range bodies {
		rep.Steps = append(rep.Steps, threads[i].steps)
		rep.Trails = append(rep.Trails, threads[i].trail)
	}
	return rep
}

//go:norace
func segment(s Seg) bool {
	t := &threads[s.T]
	if t.done {
		return true
	}
	if s.N < 0 {
		t.limit = -1
	} else {
		t.limit = t.steps + s.N
	}
	t.paused = false
	t.run = true
	last, since, n := t.steps, time.Now(), 0
	for !t.paused && !t.done {
		runtime.Gosched()
		if n++; n%256 == 0 {
			if t.steps != last {
				last, since = t.steps, time.Now()
			} else if time.Since(since) > time.Second {
				return false
			}
		}
	}
	return true
}
