package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"time"

	"vs"
)

// Scenario is a closed system: a driver body whose complete choice tree is enumerated below a bound.
type Scenario struct {
	Name string
	Cfg  vs.Config
	P    int // preemption bound (quick)
	D    int // deviation bound (quick)
	PT   int // preemption bound (thorough)
	DT   int // deviation bound (thorough)
	S    int // bound on non-default choices when the running goroutine blocks; <0: unbounded
	ST   int
	Body func(x *vs.Exec)
	// Thorough-only scenarios are skipped by the quick tier.
	Thorough bool
	Weight   int
}

// Bound of one exploration level.
type Bound struct{ P, D, S int }

func (b Bound) String() string {
	s := fmt.Sprintf("preemptions<=%d deviations<=%d", b.P, b.D)
	if b.S >= 0 {
		s += fmt.Sprintf(" switches<=%d", b.S)
	}
	return s
}

func levels(s *Scenario, thorough bool) []Bound {
	p, d, sw := s.P, s.D, s.S
	if thorough {
		if s.PT > p {
			p = s.PT
		}
		if s.DT > d {
			d = s.DT
		}
		if s.ST > sw && sw >= 0 || s.ST < 0 {
			sw = s.ST
		}
	}
	if s.Cfg.NoSched {
		p, sw = 0, 0
	}
	var out []Bound
	for i := 0; ; i++ {
		b := Bound{min(i, p), min(i, d), sw}
		if sw >= 0 {
			b.S = min(i, sw)
		}
		if len(out) > 0 && out[len(out)-1] == b {
			break
		}
		out = append(out, b)
		if i > 40 {
			break
		}
	}
	return out
}

// Work is a subtree: all executions that follow Prefix and differ from it only after position Fixed.
type Work struct {
	Scn    int         `json:"scn"`
	Bound  Bound       `json:"b"`
	Prefix []vs.Choice `json:"p"`
	Fixed  int         `json:"f"`
	Millis int         `json:"ms"`
	Trace  bool        `json:"tr"`
	Once   bool        `json:"once"`
}

// Report of a worker.
type Report struct {
	Scn      int               `json:"scn"`
	Execs    int64             `json:"x"`
	States   int64             `json:"st"`
	Trans    int64             `json:"t"`
	Evals    int64             `json:"e"`
	Nontriv  []uint64          `json:"nt"`
	Outcomes []uint64          `json:"oc"`
	Left     []Work            `json:"left"`
	Fail     *vs.Failure       `json:"fail"`
	Log      []vs.Choice       `json:"log"`
	Labels   map[string]string `json:"labels"`
	Trace    []string          `json:"trace"`
	Diverged string            `json:"div"`
	Sample   string            `json:"sample"`
	Threads  int               `json:"th"`
	MaxLog   int               `json:"ml"`
	Sites    int               `json:"sites"`
	Crash    string            `json:"crash"`
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func hashU64(s string) uint64 {
	h := hash64(s)
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	return h
}

var warmed = map[int]bool{}
var profiles = map[int][]bool{}
var profSites = map[int]int{}

func cost(log []vs.Choice) (p, d, s int) {
	for i := range log {
		if log[i].Sel != 0 {
			switch log[i].Kind {
			case 'p':
				p++
			case 'd':
				d++
			case 's':
				s++
			}
		}
	}
	return
}

// next finds the next prefix in depth-first order, changing only positions >= fixed.
func next(log []vs.Choice, fixed int, b Bound) ([]vs.Choice, int) {
	p, d, s := cost(log)
	for i := len(log) - 1; i >= fixed; i-- {
		c := &log[i]
		var cp, cd, cs int
		switch c.Kind {
		case 'p':
			cp = 1
		case 'd':
			cd = 1
		case 's':
			cs = 1
		}
		if c.Sel != 0 {
			p -= cp
			d -= cd
			s -= cs
		}
		if c.Sel+1 < c.N && p+cp <= b.P && d+cd <= b.D && (b.S < 0 || s+cs <= b.S) {
			np := append([]vs.Choice(nil), log[:i+1]...)
			np[i].Sel++
			return np, i
		}
	}
	return nil, -1
}

// split returns the untried sibling subtrees of log at positions >= fixed.
func split(log []vs.Choice, fixed int, w Work) []Work {
	var out []Work
	p, d, s := 0, 0, 0
	for i := range log {
		c := log[i]
		var cp, cd, cs int
		switch c.Kind {
		case 'p':
			cp = 1
		case 'd':
			cd = 1
		case 's':
			cs = 1
		}
		if i >= fixed && c.Sel+1 < c.N && p+cp <= w.Bound.P && d+cd <= w.Bound.D && (w.Bound.S < 0 || s+cs <= w.Bound.S) {
			for a := c.Sel + 1; a < c.N; a++ {
				np := append([]vs.Choice(nil), log[:i+1]...)
				np[i].Sel = a
				out = append(out, Work{Scn: w.Scn, Bound: w.Bound, Prefix: np, Fixed: i + 1})
			}
		}
		if c.Sel != 0 {
			p += cp
			d += cd
			s += cs
		}
	}
	return out
}

func prepare(scn int, s *Scenario) {
	if warmed[scn] {
		if s.Cfg.MemPoints {
			vs.SetActive(profiles[scn])
		}
		return
	}
	warmed[scn] = true
	cfg := s.Cfg
	cfg.MemPoints = false
	vs.Run(&cfg, nil, false, s.Body)
	if s.Cfg.MemPoints {
		vs.ResetProfile()
		cfg.Profile = true
		profileRuns(&cfg, s)
		n, _ := vs.UseProfile()
		profSites[scn] = n
		profiles[scn] = vs.ActiveSites()
	}
	vs.Run(&s.Cfg, nil, false, s.Body)
}

// profileRuns executes what tells which memory the threads share: every combination of free choices
// (breadth first, up to a limit), each by the default schedule and by some with one deviation, spread over
// its length.
func profileRuns(cfg *vs.Config, s *Scenario) {
	queue := [][]vs.Choice{nil}
	for n := 0; n < 240 && len(queue) > 0; n++ {
		pre := queue[0]
		queue = queue[1:]
		log := append([]vs.Choice(nil), vs.Run(cfg, pre, false, s.Body).Log...)
		var other []int
		for i := len(pre); i < len(log); i++ {
			c := log[i]
			if c.Kind != 'e' {
				if c.N > 1 {
					other = append(other, i)
				}
				continue
			}
			for a := 1; a < c.N && len(queue) < 240; a++ {
				np := append([]vs.Choice(nil), log[:i+1]...)
				np[i].Sel = a
				queue = append(queue, np)
			}
		}
		k := 3
		if n == 0 {
			k = 60
		}
		for j := 0; j < k && j < len(other); j++ {
			i := other[j*len(other)/min(k, len(other))]
			np := append([]vs.Choice(nil), log[:i+1]...)
			np[i].Sel = 1
			vs.Run(cfg, np, false, s.Body)
		}
	}
}

func explore(scns []*Scenario, w Work) (rep Report) {
	rep.Scn = w.Scn
	defer func() {
		if r := recover(); r != nil {
			rep.Crash = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	s := scns[w.Scn]
	prepare(w.Scn, s)
	rep.Sites = profSites[w.Scn]
	nt := map[uint64]struct{}{}
	oc := map[uint64]struct{}{}
	end := time.Now().Add(time.Duration(w.Millis) * time.Millisecond)
	pre, keep := w.Prefix, len(w.Prefix)
	for n := 0; ; n++ {
		x := vs.Run(&s.Cfg, pre, w.Trace, s.Body)
		rep.Execs++
		from := 0
		if keep > 0 && keep <= len(x.Log) {
			from = x.Log[keep-1].At
		}
		rep.States += int64(len(x.Log)-keep) + 1
		rep.Trans += int64(x.Steps - from)
		rep.Evals += x.EvalCount()
		for _, k := range x.Nontrivial() {
			if len(nt) < 300000 {
				nt[hash64(s.Name+k)] = struct{}{}
			}
		}
		if o := x.Outcomes(); len(o) > 0 && len(oc) < 300000 {
			oc[hash64(s.Name+fmt.Sprint(o))] = struct{}{}
		}
		if len(x.Log) > rep.MaxLog {
			rep.MaxLog = len(x.Log)
		}
		if x.Threads() > rep.Threads {
			rep.Threads = x.Threads()
		}
		if rep.Sample == "" && n >= 1 || w.Once {
			rep.Sample = fmt.Sprintf("%s: choices=%s outcomes=%v", s.Name, short(x.Log), x.Outcomes())
		}
		if x.Diverged() != "" {
			rep.Diverged = s.Name + ": " + x.Diverged()
			rep.Log = x.Log
			break
		}
		if f := x.Failure(); f != nil {
			rep.Fail, rep.Log, rep.Labels, rep.Trace = f, x.Log, x.Labels(), x.Trace
			break
		}
		if w.Once {
			break
		}
		if n&7 == 7 && time.Now().After(end) || n > 200000 {
			rep.Left = split(x.Log, w.Fixed, w)
			break
		}
		var at int
		pre, at = next(x.Log, w.Fixed, w.Bound)
		if pre == nil {
			break
		}
		keep = at + 1
		_ = at
	}
	for k := range nt {
		rep.Nontriv = append(rep.Nontriv, k)
	}
	for k := range oc {
		rep.Outcomes = append(rep.Outcomes, k)
	}
	return rep
}

func short(l []vs.Choice) string {
	s := ""
	for i, c := range l {
		if i >= 120 {
			s += "..."
			break
		}
		if c.Sel < 10 {
			s += string(rune('0' + c.Sel))
		} else {
			s += fmt.Sprintf("(%d)", c.Sel)
		}
	}
	return s
}
