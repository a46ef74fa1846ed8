package main

import (
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Paths of one function are explored by several workers. They share the term
// bank and all tables under one lock, which is released only while a solver
// process computes; every worker has solver processes of its own.

type pathPool struct {
	mu      sync.Mutex // the lock of this verification run
	workers []*parWorker
	active  int // workers that hold a state
	running int // worker goroutines
	fail    any
	cond    *sync.Cond
	parked  map[int][]*State // paths waiting at a block for others
	joins   *joinInfo
}
type parWorker struct {
	ex   *Exec
	work []*State
}

// slots bounds the workers of all functions together; an additional worker
// gives way when another function waits to be verified.
var slots = make(chan bool, parLimit())
var slotWaiters atomic.Int32

func takeSlot() {
	slotWaiters.Add(1)
	slots <- true
	slotWaiters.Add(-1)
}

func parLimit() int {
	if n, err := strconv.Atoi(os.Getenv("GOVC_PAR")); err == nil {
		return n
	}
	return 8
}

const parAfter = 4 * time.Second // single-threaded until then

// exploreAll runs the states to completion; sink receives the worker's executor.
func (ex *Exec) exploreAll(init []*State, sink func(*Exec, *State)) {
	pool := &pathPool{parked: map[int][]*State{}}
	var park func(*State) bool
	if ex.joinPaths {
		park = func(s *State) bool {
			f := s.top()
			if pool.joins == nil {
				pool.joins = newJoinInfo(f.fn)
			}
			k := pool.joins.order[f.block.Index]
			pool.parked[k] = append(pool.parked[k], s)
			return true
		}
	}
	pool.cond = sync.NewCond(&pool.mu)
	pool.mu.Lock()
	ex.sol.gil = &pool.mu
	if ex.sol2 != nil {
		ex.sol2.gil = &pool.mu
	}
	ex.pool = pool
	t0 := time.Now()
	main := &parWorker{ex: ex, work: append([]*State{}, init...)}
	pool.workers = []*parWorker{main}
	pool.running = 1
	var run func(w *parWorker)
	// next takes a state: own newest first, else the oldest of another worker.
	next := func(w *parWorker) *State {
		if n := len(w.work); n > 0 {
			s := w.work[n-1]
			w.work = w.work[:n-1]
			return s
		}
		var from *parWorker
		for _, o := range pool.workers {
			if len(o.work) > 0 && (from == nil || len(o.work) > len(from.work)) {
				from = o
			}
		}
		if from == nil {
			return nil
		}
		s := from.work[0]
		from.work = from.work[1:]
		return s
	}
	spawn := func() {
		if time.Since(t0) < parAfter {
			return
		}
		n := 0
		for _, o := range pool.workers {
			n += len(o.work)
		}
		if n < pool.running+1 {
			return
		}
		select {
		case slots <- true:
		default:
			return
		}
		we := *ex
		we.silent, we.depth, we.specDepth = 0, 0, 0
		we.skolems = append([]*Term{}, ex.skolems...)
		we.sol = NewSolver(ex.tb, ex.sol.name)
		we.sol.gil = &pool.mu
		we.sol2 = nil
		ex.helpers = append(ex.helpers, &we)
		w := &parWorker{ex: &we}
		pool.workers = append(pool.workers, w)
		pool.running++
		go func() {
			pool.mu.Lock()
			run(w)
			pool.mu.Unlock()
			<-slots
		}()
	}
	run = func(w *parWorker) {
		defer func() {
			if r := recover(); r != nil && pool.fail == nil {
				pool.fail = r
			}
			pool.running--
			pool.cond.Broadcast()
		}()
		for pool.fail == nil {
			if w != main && slotWaiters.Load() > 0 {
				return
			}
			s := next(w)
			if s == nil {
				if pool.active == 0 {
					if len(pool.parked) == 0 {
						return
					}
					first := -1
					for k := range pool.parked {
						if first < 0 || k < first {
							first = k
						}
					}
					group := pool.parked[first]
					delete(pool.parked, first)
					w.work = append(w.work, w.ex.joinAll(pool.joins, group)...)
					spawn()
					pool.cond.Broadcast()
					continue
				}
				pool.cond.Wait()
				continue
			}
			pool.active++
			more := func() []*State {
				defer func() { pool.active-- }()
				return w.ex.runState(s, func(d *State) { sink(w.ex, d) }, park)
			}()
			w.work = append(w.work, more...)
			if len(more) > 0 {
				spawn()
			}
			pool.cond.Broadcast()
		}
	}
	run(main)
	for pool.running > 0 {
		pool.cond.Wait()
	}
	ex.sol.gil = nil
	if ex.sol2 != nil {
		ex.sol2.gil = nil
	}
	ex.pool = nil
	pool.mu.Unlock()
	for _, h := range ex.helpers {
		for _, s := range []*Solver{h.sol, h.sol2} {
			if s != nil {
				s.Close()
			}
		}
	}
	if pool.fail != nil {
		panic(pool.fail)
	}
}
