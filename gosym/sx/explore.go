package sx

import (
	"fmt"
	"sync"
	"time"

	"gosym/smt"
)

// HStat is what was explored for one harness.
type HStat struct {
	Name       string
	Paths      int64 // completed
	Pruned     int64 // assumption false
	Unsup      int64
	Aborted    int64
	StepLim    int64
	Viol       int64
	Decisions  int64
	Forced     int64
	Quick      int64
	Steps      int64
	Asserts    int64
	Proved     int64
	MaxDepth   int
	Complete   bool
	Covered    map[string]int64
	Incomplete map[string]int
	FirstEnd   time.Duration
	pending    int64
}

// Sample is one completed path kept for native validation.
type Sample struct {
	Harness string
	Vector  []uint64
	Obs     []string
	Outcome Outcome
	Msg     string
}

type Explorer struct {
	P        *Program
	Workers  int
	Deadline time.Time
	SolverTO int
	MaxSteps int
	// OnCandidate is called (serialised) for every counterexample; returning true stops exploration.
	OnCandidate func(h *Harness, v *Violation) bool
	SampleEvery func(h string, n int64) bool

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Item
	active   int
	idle     int
	stop     bool
	Stats    map[string]*HStat
	Samples  []Sample
	Funcs    map[string]bool
	Queries  int
	SatN     int
	UnsatN   int
	UnkN     int
	SolverT  time.Duration
	MaxQ     time.Duration
	TimedOut bool
	candMu   sync.Mutex
	solvers  []*smt.Solver
}

// halt ends the exploration: no further path starts and running solver queries are cut off. e.mu is held.
func (e *Explorer) halt() {
	e.stop = true
	e.cond.Broadcast()
	for _, s := range e.solvers {
		s.Stop()
	}
}

func (e *Explorer) Run(hs []*Harness) error {
	e.cond = sync.NewCond(&e.mu)
	e.Stats = map[string]*HStat{}
	e.Funcs = map[string]bool{}
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		e.Stats[h.Name] = &HStat{Name: h.Name, Covered: map[string]int64{}, Incomplete: map[string]int{}, pending: 1}
		e.queue = append(e.queue, Item{H: h})
	}
	var wg sync.WaitGroup
	errs := make(chan error, e.Workers)
	for i := 0; i < e.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := e.worker(); err != nil {
				errs <- err
				e.mu.Lock()
				e.halt()
				e.mu.Unlock()
			}
		}()
	}
	dl := time.AfterFunc(time.Until(e.Deadline), func() {
		e.mu.Lock()
		if !e.stop {
			e.TimedOut = true
			e.halt()
		}
		e.mu.Unlock()
	})
	wg.Wait()
	dl.Stop()
	for _, st := range e.Stats {
		st.Complete = st.pending == 0 && len(st.Incomplete) == 0 && st.Unsup == 0 && st.Aborted == 0 && st.StepLim == 0
	}
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

func (e *Explorer) worker() error {
	s, err := smt.NewSolver(e.SolverTO)
	if err != nil {
		return err
	}
	defer s.Close()
	e.mu.Lock()
	e.solvers = append(e.solvers, s)
	if e.stop {
		s.Stop()
	}
	e.mu.Unlock()
	m := NewMachine(e.P, s)
	if e.MaxSteps > 0 {
		m.MaxSteps = e.MaxSteps
	}
	var local []Item
	defer func() {
		e.mu.Lock()
		defer e.mu.Unlock()
		e.Queries += s.Queries
		e.SatN += s.SatN
		e.UnsatN += s.UnsatN
		e.UnkN += s.UnkN
		e.SolverT += s.Time
		if s.MaxTime > e.MaxQ {
			e.MaxQ = s.MaxTime
		}
		for k := range m.Funcs {
			e.Funcs[k] = true
		}
	}()
	active := false
	for {
		var it Item
		if len(local) == 0 {
			e.mu.Lock()
			if active {
				e.active--
				active = false
			}
			for len(e.queue) == 0 && e.active > 0 && !e.stop {
				e.idle++
				e.cond.Wait()
				e.idle--
			}
			if e.stop || len(e.queue) == 0 {
				e.cond.Broadcast()
				e.mu.Unlock()
				return nil
			}
			it = e.queue[len(e.queue)-1]
			e.queue = e.queue[:len(e.queue)-1]
			e.active++
			active = true
			e.mu.Unlock()
		} else {
			it = local[len(local)-1]
			local = local[:len(local)-1]
		}
		m.Refresh()
		m.NDecide, m.NForced, m.NQuick, m.NSteps, m.Asserts, m.Proved = 0, 0, 0, 0, 0, 0
		m.Incompl = map[string]int{}
		hn := it.H.Name
		e.mu.Lock()
		st := e.Stats[hn]
		want := e.SampleEvery == nil || e.SampleEvery(hn, st.Paths)
		e.mu.Unlock()
		res, kids := m.Run(&it, want)
		stop := false
		if res.Outcome == Violated && res.Viol != nil && e.OnCandidate != nil {
			e.candMu.Lock()
			e.mu.Lock()
			stopped := e.stop
			e.mu.Unlock()
			if !stopped {
				stop = e.OnCandidate(it.H, res.Viol)
			}
			e.candMu.Unlock()
		}
		e.mu.Lock()
		st.Decisions += m.NDecide
		st.Forced += m.NForced
		st.Quick += m.NQuick
		st.Steps += m.NSteps
		st.Asserts += m.Asserts
		st.Proved += m.Proved
		st.pending += int64(len(kids)) - 1
		if res.Depth > st.MaxDepth {
			st.MaxDepth = res.Depth
		}
		for k, n := range m.Incompl {
			st.Incomplete[k] += n
		}
		for k := range res.Covered {
			if res.Outcome == Done {
				st.Covered[k]++
			}
		}
		switch res.Outcome {
		case Done:
			st.Paths++
			if want && !res.Unordered {
				e.Samples = append(e.Samples, Sample{hn, res.Vector, res.Obs, Done, ""})
			}
		case AssumeFail, Infeasible:
			st.Pruned++
		case Unsupported:
			st.Unsup++
			st.Incomplete["unsupported: "+res.Msg]++
			e.addOdd(hn, res)
		case Aborted:
			st.Aborted++
			st.Incomplete["aborted: "+res.Msg]++
			e.addOdd(hn, res)
		case StepLimit:
			st.StepLim++
			st.Incomplete["budget: "+res.Msg]++
			e.addOdd(hn, res)
		case Violated:
			st.Viol++
		case Stopped:
			st.pending++ // not decided
		}
		if stop {
			e.halt()
		}
		if e.stop {
			e.mu.Unlock()
			return nil
		}
		local = append(local, kids...)
		if len(e.queue) < e.Workers && len(local) > 1 && e.idle > 0 {
			k := (len(local) + 1) / 2
			e.queue = append(e.queue, local[:k]...)
			local = append([]Item(nil), local[k:]...)
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

func (e *Explorer) addOdd(h string, r PathResult) {
	n := 0
	for _, s := range e.Samples {
		if s.Harness == h && s.Outcome != Done {
			n++
		}
	}
	if n < 40 {
		e.Samples = append(e.Samples, Sample{h, r.Vector, nil, r.Outcome, r.Msg})
	}
}

func (s *HStat) String() string {
	return fmt.Sprintf("%s: paths=%d pruned=%d unsup=%d aborted=%d steplim=%d viol=%d dec=%d forced=%d quick=%d asserts=%d proved=%d depth=%d complete=%v %v",
		s.Name, s.Paths, s.Pruned, s.Unsup, s.Aborted, s.StepLim, s.Viol, s.Decisions, s.Forced, s.Quick, s.Asserts, s.Proved, s.MaxDepth, s.Complete, s.Incomplete)
}
