package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"vs"
)

// Check is the machinery deciding one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   func(thorough bool) []*Scenario
	QuickSecs   int
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Artefact is a recorded violation.
type Artefact struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Scenario string            `json:"scenario"`
	Bound    string            `json:"bound"`
	Failure  *vs.Failure       `json:"failure"`
	Labels   map[string]string `json:"labels"`
	Log      []vs.Choice       `json:"choices"`
	Trace    []string          `json:"trace"`
}

func main() {
	id := flag.String("check", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	seed := flag.Int("seed", 1, "")
	prof := flag.String("prof", "", "cpu profile of one worker pass (development)")
	worker := flag.Bool("worker", false, "")
	replay := flag.String("replay", "", "")
	only := flag.String("only", "", "scenario name prefix (development)")
	secs := flag.Int("secs", 0, "time budget (development)")
	flag.Parse()
	debug.SetGCPercent(400)
	initGlobals()
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	c := checks[*id]
	if c == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("unknown check", *id, "known:", ids)
		os.Exit(3)
	}
	scns := c.Scenarios(*tier == "thorough")
	if *only != "" {
		var s2 []*Scenario
		for _, s := range scns {
			if strings.HasPrefix(s.Name, *only) {
				s2 = append(s2, s)
			}
		}
		scns = s2
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		for i := range scns {
			lv := levels(scns[i], *tier == "thorough")
			r := explore(scns, Work{Scn: i, Bound: lv[len(lv)-1], Millis: 5000})
			fmt.Println(scns[i].Name, r.Execs, r.Evals, r.Fail)
		}
		pprof.StopCPUProfile()
		return
	}
	if *worker {
		runWorker(scns)
		return
	}
	os.Exit(parent(c, scns, *tier, *verif, *seed, *secs, *only))
}

func runWorker(scns []*Scenario) {
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.NewFile(3, "out"), 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	busy := make(chan int, 1)
	idle := make(chan bool)
	go func() {
		// watchdog: an execution which takes no step for a long time is stuck outside the scheduler
		for scn := range busy {
			last, still := int64(-1), 0
			t := time.NewTicker(time.Second)
			for run := true; run; {
				select {
				case <-idle:
					run = false
				case <-t.C:
					if n := vs.Progress(); n != last {
						last, still = n, 0
					} else if still++; still >= 45 {
						buf := make([]byte, 1<<16)
						buf = buf[:runtime.Stack(buf, true)]
						enc.Encode(&Report{Scn: scn, Fail: &vs.Failure{Kind: "hang", Msg: "no step for 45 s\n" + string(buf)}, Log: vs.Current()})
						out.Flush()
						os.Exit(4)
					}
				}
			}
			t.Stop()
		}
	}()
	for {
		var w Work
		if dec.Decode(&w) != nil {
			return
		}
		busy <- w.Scn
		rep := explore(scns, w)
		idle <- true
		if enc.Encode(&rep) != nil || out.Flush() != nil {
			return
		}
	}
}

type proc struct {
	cmd *exec.Cmd
	enc *json.Encoder
	dec *json.Decoder
	in  *os.File
}

func startWorker(args []string) *proc {
	cmd := exec.Command(os.Args[0], args...)
	ri, wi, _ := os.Pipe()
	ro, wo, _ := os.Pipe()
	cmd.Stdin = ri
	cmd.ExtraFiles = []*os.File{wo}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fmt.Println("worker:", err)
		os.Exit(3)
	}
	ri.Close()
	wo.Close()
	return &proc{cmd, json.NewEncoder(wi), json.NewDecoder(bufio.NewReaderSize(ro, 1<<20)), wi}
}

func (p *proc) do(w Work, limit time.Duration) (Report, error) {
	var r Report
	if err := p.enc.Encode(&w); err != nil {
		return r, err
	}
	t := time.AfterFunc(limit, func() { p.cmd.Process.Kill() })
	err := p.dec.Decode(&r)
	t.Stop()
	return r, err
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type scnState struct {
	lv       int
	levels   []Bound
	pending  int
	done     int // levels completed
	finished bool
	execs    int64
	states   int64
	trans    int64
	evals    int64
	oc       map[uint64]struct{}
	threads  int
	maxlog   int
	sites    int
	secs     float64
}

func parent(c *Check, scns []*Scenario, tier, verif string, seed, secs int, only string) int {
	t0 := time.Now()
	limit := 200 * time.Second
	if c.QuickSecs > 0 {
		limit = time.Duration(c.QuickSecs) * time.Second
	}
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	if secs > 0 {
		limit = time.Duration(secs) * time.Second
	}
	deadline := t0.Add(limit)
	args := []string{"-check", c.ID, "-tier", tier, "-worker"}
	if only != "" {
		args = append(args, "-only", only)
	}
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	st := make([]*scnState, len(scns))
	var queue []Work
	for i, s := range scns {
		st[i] = &scnState{levels: levels(s, tier == "thorough"), oc: map[uint64]struct{}{}}
		st[i].pending = 1
		queue = append(queue, Work{Scn: i, Bound: st[i].levels[0]})
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	busy := 0
	var samples []string
	nt := map[uint64]struct{}{}
	type found struct {
		rep Report
		w   Work
	}
	var viol *found
	knownHits := map[string]bool{}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), c.ID)
	diverged := ""
	crash := ""
	stop := false
	timedOut := false
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					stop, timedOut = true, true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				// the scenario which has used least time so far goes first
				bi := len(queue) - 1
				for i := len(queue) - 1; i >= 0; i-- {
					if st[queue[i].Scn].secs < st[queue[bi].Scn].secs {
						bi = i
					}
				}
				w := queue[bi]
				queue = append(queue[:bi], queue[bi+1:]...)
				st[w.Scn].secs += 0.01
				busy++
				starving := len(queue) < nw
				mu.Unlock()
				w.Millis = 300
				if starving {
					w.Millis = 60
				}
				if p == nil {
					p = startWorker(args)
				}
				ts := time.Now()
				rep, err := p.do(w, time.Until(deadline)+10*time.Second)
				mu.Lock()
				busy--
				if err != nil {
					p.stop()
					p = nil
					if time.Now().After(deadline) {
						timedOut = true // a single long execution was cut off
					} else {
						viol = &found{Report{Scn: w.Scn, Fail: &vs.Failure{Kind: "died", Msg: "the process running the execution ended: " + err.Error()}, Log: w.Prefix}, w}
					}
					stop = true
					cond.Broadcast()
					mu.Unlock()
					return
				}
				s := st[w.Scn]
				s.execs += rep.Execs
				s.states += rep.States
				s.trans += rep.Trans
				s.evals += rep.Evals
				s.threads = max(s.threads, rep.Threads)
				s.maxlog = max(s.maxlog, rep.MaxLog)
				s.sites = rep.Sites
				s.secs += time.Since(ts).Seconds() - 0.01
				for _, o := range rep.Outcomes {
					s.oc[o] = struct{}{}
				}
				for _, o := range rep.Nontriv {
					nt[o] = struct{}{}
				}
				if rep.Sample != "" && len(samples) < 12 && s.lv < 3 && len(s.oc) < 40 {
					if len(rep.Sample) > 600 {
						rep.Sample = rep.Sample[:600] + "..."
					}
					samples = append(samples, rep.Sample)
				}
				if rep.Crash != "" {
					crash = rep.Crash
					stop = true
				}
				if rep.Diverged != "" {
					diverged = rep.Diverged
				}
				if rep.Fail != nil {
					if k := known.match(scns[w.Scn].Name, rep.Fail); k != "" {
						knownHits[k] = true
						// continue after the known failure: the rest of this subtree
						if pre, at := next(rep.Log, w.Fixed, w.Bound); pre != nil {
							_ = at
							rep.Left = append(rep.Left, Work{Scn: w.Scn, Bound: w.Bound, Prefix: pre, Fixed: w.Fixed})
						}
					} else if viol == nil {
						viol = &found{rep, w}
						stop = true
					}
				}
				queue = append(queue, rep.Left...)
				s.pending += len(rep.Left) - 1
				if s.pending == 0 {
					s.done++
					s.lv++
					if s.lv < len(s.levels) {
						s.pending = 1
						// breadth first over scenarios: new levels go to the front
						queue = append([]Work{{Scn: w.Scn, Bound: s.levels[s.lv]}}, queue...)
					} else {
						s.finished = true
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	exhaustive := !timedOut && diverged == "" && crash == "" && viol == nil
	var execs, states, trans, evals, outs int64
	var per []map[string]any
	for i, s := range st {
		execs += s.execs
		states += s.states
		trans += s.trans
		evals += s.evals
		outs += int64(len(s.oc))
		if !s.finished {
			exhaustive = false
		}
		b := "none"
		if s.done > 0 {
			b = s.levels[s.done-1].String()
			if scns[i].Cfg.NoSched {
				b = "all environment choices"
				if scns[i].D > 0 {
					b += fmt.Sprintf(", deviations<=%d", s.levels[s.done-1].D)
				}
			}
		}
		per = append(per, map[string]any{"scenario": scns[i].Name, "executions": s.execs, "states": s.states, "transitions": s.trans,
			"evaluations": s.evals, "distinct_outcomes": len(s.oc), "completed_bound": b, "finished": s.finished,
			"max_threads": s.threads, "max_choices": s.maxlog, "memory_sites": s.sites, "cpu_s": float64(int(s.secs*10)) / 10})
	}
	nviol := 0
	rc := 0
	if viol != nil {
		art, ok := confirm(c, scns, viol.rep, viol.w, args)
		if ok {
			os.MkdirAll(filepath.Join(verif, "replay"), 0o755)
			path := filepath.Join(verif, "replay", c.ID+".json")
			art.Tier = tier
			b, _ := json.MarshalIndent(art, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("%s [%s] %s: %s\n", c.ID, art.Scenario, art.Failure.Kind, firstLines(art.Failure.Msg, 30))
			for k, v := range art.Labels {
				fmt.Printf("  %s = %s\n", k, v)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			nviol, rc = 1, 1
		} else {
			fmt.Printf("note: a failure could not be reproduced and is not reported: [%s] %s\n", scns[viol.rep.Scn].Name, firstLines(viol.rep.Fail.Msg, 5))
			exhaustive = false
		}
	}
	if crash != "" && rc == 0 {
		fmt.Println("harness error:", crash)
		rc = 3
	}
	for k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	if diverged != "" {
		fmt.Println("note: diverging replay, exploration not complete:", diverged)
	}
	if timedOut {
		fmt.Println("note: time limit reached, completed bounds are in the evidence")
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": execs,
		"evaluations": execs + evals, "distinct_nontrivial": int64(len(nt)) + outs, "rule": c.Rule,
		"samples": samples, "exhaustive": exhaustive, "scenarios": per, "diverged": diverged, "timed_out": timedOut, "workers": nw,
	}
	if evals > 0 {
		cov["states"] = states + int64(len(nt))
		cov["transitions"] = trans + evals
	}
	ev := map[string]any{"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(append([]string(nil), commonAssumptions...), c.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": nviol}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d evaluations, %d distinct outcomes/cases, exhaustive=%v, %.1fs\n",
		c.ID, tier, execs, cov["states"], cov["transitions"], cov["evaluations"], cov["distinct_nontrivial"], exhaustive, time.Since(t0).Seconds())
	if os.Getenv("VERBOSE") != "" {
		for _, p := range per {
			fmt.Printf("   %-44v x=%-8v st=%-9v ev=%-8v oc=%-5v th=%-3v ch=%-4v sites=%-3v cpu=%-6v %v fin=%v\n", p["scenario"], p["executions"], p["states"], p["evaluations"], p["distinct_outcomes"], p["max_threads"], p["max_choices"], p["memory_sites"], p["cpu_s"], p["completed_bound"], p["finished"])
		}
	}
	return rc
}

var commonAssumptions = []string{
	"the code compiled is /repo's working tree rewritten by tools/instr so that goroutines, channels, locks, atomics, timers, contexts, map iteration and shared memory accesses go through the controlled scheduler; sequentially consistent memory",
	"gache and fastime are replaced by shims on the virtual clock (conformance with the real gache: scenario conformance of C16)",
	"bounds: see completed_bound per scenario; the space below each bound is enumerated completely when exhaustive is true",
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

// confirm re-runs the failing schedule in fresh processes.
func confirm(c *Check, scns []*Scenario, rep Report, w Work, args []string) (*Artefact, bool) {
	art := &Artefact{Property: c.ID, Scenario: scns[rep.Scn].Name, Bound: w.Bound.String(), Failure: rep.Fail, Labels: rep.Labels, Log: rep.Log}
	if rep.Fail.Kind == "hang" || rep.Fail.Kind == "died" {
		p := startWorker(args)
		defer p.stop()
		w.Millis = 300
		r, err := p.do(w, 300*time.Second)
		return art, err != nil || r.Fail != nil
	}
	for i := 0; i < 3; i++ {
		p := startWorker(args)
		r, err := p.do(Work{Scn: rep.Scn, Bound: w.Bound, Prefix: rep.Log, Once: true, Trace: i == 2}, 120*time.Second)
		p.stop()
		if err != nil || r.Fail == nil || r.Fail.Kind != rep.Fail.Kind {
			// the schedule alone does not reproduce it: repeat the whole subtree in a fresh process
			p := startWorker(args)
			defer p.stop()
			w.Millis = 20000
			r, err = p.do(w, 60*time.Second)
			return art, err == nil && r.Fail != nil && r.Fail.Kind == rep.Fail.Kind
		}
		art.Trace = r.Trace
	}
	return art, true
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var a Artefact
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Println(err)
		return 3
	}
	c := checks[a.Property]
	for i, s := range c.Scenarios(a.Tier == "thorough") {
		if s.Name == a.Scenario {
			prepare(i, s)
			x := vs.Run(&s.Cfg, a.Log, true, s.Body)
			for _, l := range x.Trace {
				fmt.Println(l)
			}
			for k, v := range x.Labels() {
				fmt.Printf("%s = %s\n", k, v)
			}
			if f := x.Failure(); f != nil {
				fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", f.Kind, f.Msg, a.Property, file)
				return 1
			}
			fmt.Println("no failure on this tree")
			return 0
		}
	}
	fmt.Println("scenario not found")
	return 3
}

// ---- known findings ---------------------------------------------------------

type knownList []knownFinding

type knownFinding struct{ scenario, text string }

// Lines: "known: property=<id> scenario=<name> match=<text in the failure message>"
func loadKnown(path, id string) knownList {
	var out knownList
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" scenario=")
		if !ok {
			continue
		}
		scn, m, ok := strings.Cut(rest, " match=")
		if ok && m != "" {
			out = append(out, knownFinding{scn, m})
		}
	}
	return out
}

func (k knownList) match(scn string, f *vs.Failure) string {
	for _, e := range k {
		if e.scenario == scn && strings.Contains(f.Msg, e.text) {
			return "[" + scn + "] " + e.text
		}
	}
	return ""
}
