//go:build verifsym

package vf

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

var Seed int64 = 1

// Report is the result of exploring one harness.
type Report struct {
	Harness    string           `json:"harness"`
	Props      []string         `json:"props"`
	Bounds     string           `json:"bounds"`
	Funcs      string           `json:"funcs"`
	Exhaustive bool             `json:"exhaustive"`
	Stats      Stats            `json:"stats"`
	Violations []*Witness       `json:"violations"`
	Undecided  map[string]int   `json:"undecided"`
	Samples    []*Witness       `json:"samples"`
	Reached    map[string]int64 `json:"reached"`
	Aborts     map[string]int64 `json:"aborts"`
	MissedMust []string         `json:"missed_must"`
	Counts     map[string]int   `json:"-"`
	Retry      bool             `json:"retry"`
	WallS      float64          `json:"wall_s"`
}

func e2n(r *Report, v *Witness) int { return r.Counts[v.Prop+"/"+v.Label+"/"+v.Known] }

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.PathsDone += o.PathsDone
	s.Infeasible += o.Infeasible
	s.Abandoned += o.Abandoned
	s.Unsupported += o.Unsupported
	s.Decisions += o.Decisions
	s.Forced += o.Forced
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Checks += o.Checks
	s.Undecided += o.Undecided
	s.Solver2 += o.Solver2
	s.Relaxed += o.Relaxed
	s.Fixed += o.Fixed
	s.Guessed += o.Guessed
	s.SolverNs += o.SolverNs
}

var (
	reps    []*Report
	outFile string
)

func writeReports() {
	if outFile != "" {
		if err := os.WriteFile(outFile, mustJSON(reps), 0o644); err != nil {
			panic(err)
		}
	}
}

// Flush ends the process, reporting what has been found.
func Flush(e *Explorer, why string) {
	e.mu.Lock()
	r := &Report{Harness: e.h.Name, Props: e.h.Props, Bounds: e.h.Bounds, Funcs: e.h.Funcs, Violations: e.viol, Undecided: e.und,
		Samples: nil, Retry: e.h.Retry, Counts: e.violKey, Reached: e.reached, Aborts: e.aborts}
	reps = append(reps, r)
	writeReports()
	os.Exit(0)
}

// Main is the entry point of the symbolic binary.
func Main() {
	run := flag.String("run", "", "comma separated harness names")
	tier := flag.String("tier", "quick", "")
	budget := flag.Float64("budget", 60, "seconds for all harnesses together")
	nw := flag.Int("workers", 8, "")
	out := flag.String("out", "", "")
	prop := flag.String("prop", "", "only the checks of this property")
	list := flag.Bool("list", false, "")
	branchMs := flag.Int("branchms", 3000, "")
	checkMs := flag.Int("checkms", 20000, "")
	depth := flag.Int("depth", 100000, "")
	flag.Int64Var(&Seed, "seed", 1, "")
	flag.Parse()
	if *list {
		for _, n := range Names() {
			h := harnesses[n]
			fmt.Println(n, strings.Join(h.Props, ","), h.ThoroughOnly)
		}
		return
	}
	outFile = *out
	names := strings.Split(*run, ",")
	workers := make([]*Worker, *nw)
	for i := range workers {
		workers[i] = newWorker(i)
		workersMu.Lock()
		workersByN[i] = workers[i]
		workersMu.Unlock()
	}
	start := time.Now()
	for i, n := range names {
		h := harnesses[n]
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", n)
			os.Exit(2)
		}
		left := *budget - time.Since(start).Seconds()
		share := left / float64(len(names)-i)
		reps = append(reps, explore(h, workers, *tier, share, *prop, *branchMs, *checkMs, *depth))
	}
	for _, w := range workers {
		w.stopSolver()
	}
	writeReports()
	if *out != "" {
		if profiling {
			profDump()
		}
	}
	if *out == "" || os.Getenv("VF_V") != "" {
		for _, r := range reps {
			fmt.Printf("%s exhaustive=%v wall=%.1fs paths=%d done=%d infeasible=%d decisions=%d queries=%d (sat %d unsat %d unknown %d) (fixed %d guess %d exact %d) solver=%.1fs checks=%d undecided=%v\n  aborts=%v\n  reached=%d missed=%v\n",
				r.Harness, r.Exhaustive, r.WallS, r.Stats.Paths, r.Stats.PathsDone, r.Stats.Infeasible, r.Stats.Decisions, r.Stats.Queries, r.Stats.Sat, r.Stats.Unsat, r.Stats.Unknown, r.Stats.Fixed, r.Stats.Guessed, r.Stats.Relaxed, float64(r.Stats.SolverNs)/1e9, r.Stats.Checks, r.Undecided, r.Aborts, len(r.Reached), r.MissedMust)
			seen := map[string]int{}
			for _, v := range r.Violations {
				k := v.Prop + v.Label
				seen[k]++
				if seen[k] == 1 {
					fmt.Printf("  VIOL x%d %s\n", e2n(r, v), mustJSON(v))
				}
			}
		}
	}
}

func explore(h *Harness, workers []*Worker, tier string, secs float64, prop string, branchMs, checkMs, depth int) *Report {
	t0 := time.Now()
	e := &Explorer{h: h, tier: tier, prop: prop, deadline: t0.Add(time.Duration(secs * float64(time.Second))), maxDepth: depth,
		branchMs: branchMs, checkMs: checkMs, violKey: map[string]int{}, und: map[string]int{}, reached: map[string]int64{},
		aborts: map[string]int64{}, stacks: make([][]*item, len(workers))}
	e.cond = sync.NewCond(&e.mu)
	e.stacks[0] = []*item{{}}
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				e.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for _, w := range workers {
		w := w
		w.ex = e
		w.st = Stats{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it := e.pop(w)
				if it == nil {
					return
				}
				if h.Setup != nil && w.envFor != h {
					w.env = h.Setup()
					w.envFor = h
				}
				w.runPath(it)
				e.done()
			}
		}()
	}
	wg.Wait()
	close(stopTick)
	r := &Report{Harness: h.Name, Props: h.Props, Bounds: h.Bounds, Funcs: h.Funcs, Violations: e.viol, Undecided: e.und,
		Samples: e.samples, Retry: h.Retry, Counts: e.violKey, Reached: e.reached, Aborts: e.aborts, WallS: time.Since(t0).Seconds()}
	for _, w := range workers {
		r.Stats.add(&w.st)
	}
	r.Exhaustive = !e.timedOut && !e.stop && e.aborts["depth"] == 0 && r.Stats.Unsupported == 0 && e.aborts["goexit"] == 0 && r.Stats.Undecided == 0 && e.aborts["nondeterministic"] == 0
	for _, m := range h.Must {
		if e.reached[m] == 0 {
			r.MissedMust = append(r.MissedMust, m)
		}
	}
	return r
}
