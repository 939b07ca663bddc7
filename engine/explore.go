package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Sig     string
	Outcome *Outcome
	Stack   []string
	Count   int
	More    []*Outcome // further examples
}

type Result struct {
	Stats      Stats
	Findings   map[string]*Finding
	Samples    []*Outcome
	Queries    int64
	Sat        int64
	Unsat      int64
	Unknown    int64
	CacheHits  int64
	SolverTime time.Duration
	MaxQuery   time.Duration
	Wall       time.Duration
	Complete   bool
	Left       int
	Errors     []string
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Done += o.Done
	s.AssumeDead += o.AssumeDead
	s.Violations += o.Violations
	s.Unsupported += o.Unsupported
	s.Budget += o.Budget
	s.Cut += o.Cut
	s.Steps += o.Steps
	s.Asserts += o.Asserts
	s.AssertsFolded += o.AssertsFolded
	s.AssertQueries += o.AssertQueries
	s.Branches += o.Branches
	s.Forks += o.Forks
	s.UnknownBranches += o.UnknownBranches
	s.UnknownAsserts += o.UnknownAsserts
	s.Races += o.Races
	if s.Reach == nil {
		s.Reach = map[string]int64{}
		s.Reasons = map[string]int64{}
	}
	for k, v := range o.Reach {
		s.Reach[k] += v
	}
	for k, v := range o.Reasons {
		s.Reasons[k] += v
	}
}

type worklist struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  []*Item
	active int
	stop   bool
}

func explore(eng *Engine, fn *ssa.Function, nworkers int, deadline time.Time, maxFindings int, solverArgv []string, qTimeout int) (*Result, error) {
	start := time.Now()
	runDeadline = deadline
	wl := &worklist{items: []*Item{{}}}
	wl.cond = sync.NewCond(&wl.mu)
	res := &Result{Findings: map[string]*Finding{}, Complete: true}
	var rmu sync.Mutex
	var wg sync.WaitGroup
	workers := make([]*Worker, nworkers)
	for i := range workers {
		s, err := NewSolver(solverArgv, qTimeout)
		if err != nil {
			return nil, err
		}
		workers[i] = newWorker(i, eng, s)
	}
	if debugOn && os.Getenv("SYMLOG") != "" {
		f, _ := os.Create(os.Getenv("SYMLOG"))
		workers[0].solver.Log = f
	}
	nOK := 0
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				wl.mu.Lock()
				for len(wl.items) == 0 && wl.active > 0 && !wl.stop {
					wl.cond.Wait()
				}
				if wl.stop || len(wl.items) == 0 {
					wl.mu.Unlock()
					wl.cond.Broadcast()
					return
				}
				it := wl.items[len(wl.items)-1]
				wl.items = wl.items[:len(wl.items)-1]
				wl.active++
				wl.mu.Unlock()

				out, more := w.runPath(fn, it)

				wl.mu.Lock()
				wl.items = append(wl.items, more...)
				wl.active--
				if time.Now().After(deadline) {
					wl.stop = true
				}
				wl.mu.Unlock()
				wl.cond.Broadcast()

				rmu.Lock()
				switch out.Kind {
				case "violation", "budget":
					sig := out.Kind + ": " + out.Msg
					if out.Where != "" {
						sig += " @ " + out.Where
					}
					f := res.Findings[sig]
					if f == nil {
						f = &Finding{Sig: sig, Outcome: out}
						res.Findings[sig] = f
						if len(res.Findings) >= maxFindings {
							wl.mu.Lock()
							wl.stop = true
							wl.mu.Unlock()
						}
					} else if len(f.More) < 4 {
						f.More = append(f.More, out)
					}
					f.Count++
				case "ok":
					nOK++
					// keep a spread of samples
					if out.ObsOK && !out.Sched && len(out.Obs) > 0 {
						if len(res.Samples) < 12 {
							res.Samples = append(res.Samples, out)
						} else if nOK&(nOK-1) == 0 || nOK%997 == 0 {
							res.Samples[nOK%12] = out
						}
					}
				case "unsupported":
					if debugOn {
						fmt.Fprintln(os.Stderr, "UNSUPPORTED", out.Msg, strings.Join(out.Stack, " <- "), strings.Join(out.Trace, "\n"))
					}
				}
				rmu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	res.Left = len(wl.items)
	if wl.stop && (res.Left > 0) {
		res.Complete = false
	}
	for _, w := range workers {
		res.Stats.add(w.st)
		res.Queries += w.solver.Queries
		res.Sat += w.solver.SatN
		res.Unsat += w.solver.UnsatN
		res.Unknown += w.solver.UnknownN
		res.CacheHits += w.solver.CacheHit
		res.SolverTime += w.solver.Time
		if w.solver.MaxTime > res.MaxQuery {
			res.MaxQuery = w.solver.MaxTime
		}
		w.solver.Close()
	}
	res.Wall = time.Since(start)
	return res, nil
}

func (r *Result) sortedFindings() []*Finding {
	var out []*Finding
	for _, f := range r.Findings {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Sig < out[j].Sig })
	return out
}

func newWorker(i int, eng *Engine, s *Solver) *Worker {
	return &Worker{id: i, eng: eng, ctx: NewCtx(), solver: s, stdGlobals: map[*ssa.Global]*Value{}, stdInit: map[*ssa.Package]int{},
		constCache: map[*ssa.Const]Value{}, st: &Stats{Reach: map[string]int64{}, Reasons: map[string]int64{}},
		methCache: map[methKey]*ssa.Function{}, implCache: map[implKey]bool{}, fns: map[*ssa.Function]*fnInfo{}, clos: map[*ssa.Function]*Closure{}}
}
