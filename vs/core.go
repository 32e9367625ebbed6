// Package vs is a controlled scheduler: goroutines of instrumented code run as coroutines, one at a
// time; every synchronisation operation, channel operation, clock access, environment answer and
// (optionally) shared memory access is a point at which the explorer decides what happens next.
package vs

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Base is the start of virtual time.
var Base = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

type thread struct {
	id     int
	name   string
	body   func()
	next   func() (struct{}, bool)
	yield  func(struct{}) bool
	op     *op
	done   bool
	abort  bool
	prio   bool // idle-priority operation pending (Settle)
	parent int
	co     *coro
}

type coro struct {
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	t     *thread
}

type op struct {
	kind  string
	what  any         // object for traces
	en    func() bool // nil: always enabled
	cases []*selCase  // channel operations
	deflt bool
	done  bool // completed by partner (rendezvous)
	sel   int  // chosen case
	idle  bool
	yield bool
}

type abortT struct{}

// Choice is one recorded decision.
type Choice struct {
	Sel  int    `json:"s"`
	N    int    `json:"n"`
	Kind byte   `json:"k"` // 's' sched free, 'p' preemption possible, 'd' deviation, 'e' free environment
	Hash uint32 `json:"h"`
	At   int    `json:"t"` // step number
}

// Failure describes why an execution failed.
type Failure struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Exec is one execution under the scheduler.
type Exec struct {
	prefix   []Choice
	Log      []Choice
	threads  []*thread // not ended
	nthreads int
	now      int64
	timers   []*vtimer
	timerSeq int
	Steps    int
	hash     uint32
	cfg      *Config
	fail     *Failure
	failed   bool
	diverged string
	chans    map[uintptr]*chanState
	Trace    []string
	tracing  bool
	mainDone bool
	outcomes []string
	evals    int64
	nontriv  []string
	labels   map[string]string
	vals     map[string]any
	stamp    int
}

func (x *Exec) nextStamp() int { x.stamp++; return x.stamp }

// Config of an execution.
type Config struct {
	MemPoints bool // statement-level shared memory points are scheduling points
	NoSched   bool // sequential: thread scheduling is never branched on
	Profile   bool // record which memory is shared
	MapOrder  bool // map iteration order is a deviation choice
	SelOrder  bool // which ready select case is taken is a deviation choice
	FreeSched bool // branching on which thread runs next when the current one blocks (default true unless NoSched)
	Horizon   int  // maximal number of steps
}

var (
	cx   *Exec   // current execution
	cur  *thread // current thread
	pool []*coro
)

// Active reports whether the caller runs under the scheduler.
func Active() bool { return cx != nil && cur != nil }

// X returns the current execution (nil outside).
func X() *Exec { return cx }

func newCoro() *coro {
	c := &coro{}
	c.next, c.stop = iter.Pull(func(yield func(struct{}) bool) {
		c.yield = yield
		for {
			c.run()
			if !yield(struct{}{}) {
				return
			}
		}
	})
	return c
}

func (c *coro) run() {
	t := c.t
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortT); !ok && !t.abort {
				cx.setFail("panic", fmt.Sprintf("goroutine %q panicked: %v\n%s", t.name, r, trimStack(string(debug.Stack()))))
			}
		}
		t.done = true
	}()
	if t.abort {
		return
	}
	t.body()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	skip := true
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			skip = false
			i++
			continue
		}
		if skip {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *Exec) setFail(kind, msg string) {
	if x.fail == nil {
		x.fail = &Failure{kind, msg}
	}
	x.failed = true
}

func (x *Exec) newThread(name string, body func()) *thread {
	t := &thread{id: x.nthreads, name: name, body: body}
	x.nthreads++
	if cur != nil {
		t.parent = cur.id
	}
	var c *coro
	if n := len(pool); n > 0 {
		c = pool[n-1]
		pool = pool[:n-1]
	} else {
		c = newCoro()
	}
	c.t = t
	t.co = c
	t.op = &op{kind: "start"}
	x.threads = append(x.threads, t)
	return t
}

// resume lets t run until its next point.
func (x *Exec) resume(t *thread) {
	prev := cur
	cur = t
	t.co.next()
	cur = prev
	if t.done {
		pool = append(pool, t.co)
		t.co = nil
		for i, u := range x.threads {
			if u == t {
				x.threads = append(x.threads[:i], x.threads[i+1:]...)
				break
			}
		}
	}
}

// point publishes the pending operation o of the current thread and waits until the scheduler picks it.
func point(o *op) {
	t := cur
	if t.abort {
		panic(abortT{})
	}
	t.op = o
	o.enlist(1)
	t.co.yield(struct{}{})
	o.enlist(-1)
	if t.abort {
		panic(abortT{})
	}
}

// Point is a plain always-enabled scheduling point.
func Point(kind string) {
	if !Active() {
		return
	}
	point(&op{kind: kind})
}

// relPoint is used by releasing operations: during abort it neither blocks nor panics.
func relPoint(kind string, what any) {
	if !Active() || cur.abort {
		return
	}
	point(&op{kind: kind, what: what})
}

// Block waits until en() holds. It is a scheduling point even if it holds at once.
func Block(kind string, what any, en func() bool) {
	if !Active() {
		if en != nil && !en() {
			panic("vs: blocking operation outside the scheduler: " + kind)
		}
		return
	}
	point(&op{kind: kind, what: what, en: en})
}

// Yield is runtime.Gosched.
func Yield() {
	if !Active() {
		return
	}
	point(&op{kind: "yield", yield: true})
}

func (o *op) ready() bool {
	if o.done {
		return true
	}
	if o.cases != nil {
		if o.deflt {
			return true
		}
		for _, c := range o.cases {
			if c.ready() {
				return true
			}
		}
		return false
	}
	return o.en == nil || o.en()
}

func h32(h uint32, s string) uint32 {
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func h32i(h uint32, v int) uint32 {
	for i := 0; i < 2; i++ {
		h ^= uint32(byte(v))
		h *= 16777619
		v >>= 8
	}
	return h
}

// decide records and returns a choice among n alternatives.
func (x *Exec) decide(n int, kind byte) int {
	i := len(x.Log)
	sel := 0
	if i < len(x.prefix) {
		p := x.prefix[i]
		if p.N != n || p.Kind != kind || p.Hash != x.hash {
			if x.diverged == "" {
				x.diverged = fmt.Sprintf("choice %d: recorded n=%d kind=%c hash=%x, now n=%d kind=%c hash=%x", i, p.N, p.Kind, p.Hash, n, kind, x.hash)
			}
			x.setFail("diverged", x.diverged)
		} else {
			sel = p.Sel
		}
		if sel >= n {
			sel = 0
		}
	}
	x.Log = append(x.Log, Choice{sel, n, kind, x.hash, x.Steps})
	x.hash = h32i(x.hash, sel+1)
	return sel
}

// Choose is a free environment choice: every alternative is explored.
func (x *Exec) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	s := x.decide(n, 'e')
	x.checkAbort()
	return s
}

// Deviate is an environment choice whose alternatives other than 0 count as deviations.
func (x *Exec) Deviate(n int) int {
	if n <= 1 {
		return 0
	}
	s := x.decide(n, 'd')
	x.checkAbort()
	return s
}

func (x *Exec) checkAbort() {
	if x.failed && cur != nil {
		panic(abortT{})
	}
}

// Label attaches a named value to the execution (shown with violations).
func (x *Exec) Label(k, v string) { x.labels[k] = v }

// Failf reports a property violation and ends the execution.
func (x *Exec) Failf(format string, args ...any) {
	x.setFail("property", fmt.Sprintf(format, args...))
	if cur != nil {
		panic(abortT{})
	}
}

// Note adds a line to the trace if tracing is on.
func (x *Exec) Note(format string, args ...any) {
	if x.tracing {
		x.Trace = append(x.Trace, fmt.Sprintf("%12s  T%d  # %s", time.Duration(x.now), tid(), fmt.Sprintf(format, args...)))
	}
}

func tid() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Outcome records an observed outcome (for the distinct-outcome count).
func (x *Exec) Outcome(s string) { x.outcomes = append(x.outcomes, s) }

// Eval counts one evaluated case; key is its canonical form if it is non-trivial, "" otherwise.
func (x *Exec) Eval(key string) {
	progress.Add(1)
	x.evals++
	if key != "" {
		x.nontriv = append(x.nontriv, key)
	}
}

// Evals adds n evaluated cases without recording their form.
func (x *Exec) Evals(n int) { progress.Add(1); x.evals += int64(n) }

var progress atomic.Int64

// Progress counts steps and evaluations; it may be read from outside the scheduler.
func Progress() int64 { return progress.Load() }

// Current returns the running execution's choices (for a watchdog, when nothing makes progress).
func Current() []Choice {
	if x := cx; x != nil {
		return append([]Choice(nil), x.Log...)
	}
	return nil
}

// fairSteps bounds the steps a thread takes in a row, at one instant, before the others get a turn by default.
const fairSteps = 1000

func (x *Exec) loop() {
	var last *thread
	var en []*thread
	run, runAt := 0, x.now // steps of last in a row at one instant
	for !x.mainDone && !x.failed {
		if x.Steps >= x.cfg.Horizon {
			x.setFail("livelock", fmt.Sprintf("no end after %d steps\n%s", x.Steps, x.dump()))
			return
		}
		en = en[:0]
		lastEn, lastYield := false, false
		if last != nil && !last.done && !last.op.idle && last.op.ready() {
			if last.op.yield || run > fairSteps {
				lastYield = true
			} else {
				en = append(en, last)
				lastEn = true
			}
		}
		// without branching, the first candidate is taken
		if !(lastEn && x.cfg.NoSched) {
			for _, t := range x.threads {
				if t == last || t.done || t.op.idle {
					continue
				}
				if t.op.ready() {
					en = append(en, t)
					if x.cfg.NoSched && !lastYield {
						break
					}
				}
			}
		}
		if lastYield {
			// rotate: the yielding thread comes last
			for i := len(en); i > 1 && en[0].id < last.id; i-- {
				en = append(en[1:], en[0])
			}
			en = append(en, last)
		}
		if len(en) == 0 {
			for _, t := range x.threads {
				if !t.done && t.op.idle && t.op.ready() {
					en = append(en, t)
				}
			}
			if len(en) == 0 {
				if x.advance() {
					last = nil
					continue
				}
				x.setFail("deadlock", "no goroutine can run\n"+x.dump())
				return
			}
		}
		k := 0
		if len(en) > 1 && !x.cfg.NoSched {
			if lastEn {
				k = x.decide(len(en), 'p')
			} else {
				k = x.decide(len(en), 's')
			}
			if x.failed {
				return
			}
		}
		t := en[k]
		x.Steps++
		progress.Add(1)
		x.hash = h32(h32i(x.hash, t.id), t.op.kind)
		if t.op.cases != nil && !t.op.done {
			x.commit(t)
			if x.failed {
				return
			}
		}
		if x.tracing {
			x.Trace = append(x.Trace, fmt.Sprintf("%12s  T%d(%s)  %s", time.Duration(x.now), t.id, t.name, t.op.String()))
		}
		x.resume(t)
		if t == last && x.now == runAt {
			run++
		} else {
			run, runAt = 0, x.now
		}
		last = t
		if t.id == 0 && t.done {
			x.mainDone = true
		}
	}
}

func (o *op) String() string {
	s := o.kind
	if o.cases != nil {
		s += fmt.Sprintf(" case %d", o.sel)
	}
	if o.what != nil {
		if w, ok := o.what.(string); ok {
			s += " " + w
		}
	}
	return s
}

func (x *Exec) dump() string {
	var sb strings.Builder
	for _, t := range x.threads {
		if !t.done {
			fmt.Fprintf(&sb, "  T%d(%s): waiting at %s\n", t.id, t.name, t.op.String())
		}
	}
	return sb.String()
}

// advance moves virtual time to the next timer.
func (x *Exec) advance() bool {
	if len(x.timers) == 0 {
		return false
	}
	min := x.timers[0]
	for _, t := range x.timers[1:] {
		if t.when < min.when || (t.when == min.when && t.seq < min.seq) {
			min = t
		}
	}
	if min.when > x.now {
		x.now = min.when
	}
	x.fireDue()
	return true
}

func (x *Exec) fireDue() {
	var due []*vtimer
	for _, t := range x.timers {
		if t.when <= x.now {
			due = append(due, t)
		}
	}
	sort.Slice(due, func(i, j int) bool {
		if due[i].when != due[j].when {
			return due[i].when < due[j].when
		}
		return due[i].seq < due[j].seq
	})
	for _, t := range due {
		if t.period > 0 {
			// a slow receiver drops ticks; keep the cadence
			for t.when <= x.now {
				t.when += t.period
			}
			t.seq = x.timerSeq
			x.timerSeq++
		} else {
			x.removeTimer(t)
		}
		if t.fire != nil {
			t.fire()
		}
	}
}

// run executes body as thread 0 following prefix.
func (x *Exec) run(body func(*Exec)) {
	cx = x
	cur = nil
	resetGlobals()
	t := x.newThread("main", nil)
	t.body = func() { body(x) }
	x.loop()
	x.finish()
	cx = nil
	cur = nil
}

func (x *Exec) finish() {
	for len(x.threads) > 0 {
		t := x.threads[0]
		t.abort = true
		for n := 0; !t.done; n++ {
			if n > 1000 {
				panic("vs: goroutine does not unwind: " + t.name)
			}
			x.resume(t)
		}
	}
}

// Run performs one execution.
func Run(cfg *Config, prefix []Choice, trace bool, body func(*Exec)) *Exec {
	c := *cfg
	if c.Horizon == 0 {
		c.Horizon = 20000
	}
	x := &Exec{prefix: prefix, cfg: &c, hash: 2166136261, chans: map[uintptr]*chanState{}, tracing: trace, labels: map[string]string{}, vals: map[string]any{}}
	x.run(body)
	return x
}

func (x *Exec) Failure() *Failure         { return x.fail }
func (x *Exec) Diverged() string          { return x.diverged }
func (x *Exec) Outcomes() []string        { return x.outcomes }
func (x *Exec) EvalCount() int64          { return x.evals }
func (x *Exec) Nontrivial() []string      { return x.nontriv }
func (x *Exec) Labels() map[string]string { return x.labels }
func (x *Exec) Threads() int              { return x.nthreads }

// Go starts f as a new thread (the go statement).
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named thread.
func GoNamed(name string, f func()) {
	if cx == nil {
		panic("vs: go statement outside the scheduler")
	}
	if name == "" {
		_, file, line, _ := runtime.Caller(2)
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			if j := strings.LastIndexByte(file[:i], '/'); j >= 0 {
				i = j
			}
			file = file[i+1:]
		}
		name = fmt.Sprintf("%s:%d", file, line)
	}
	if cur != nil && cur.abort {
		return
	}
	cx.newThread(name, f)
	Point("go")
}

// Handle of a harness thread.
type Handle struct{ t *thread }

// Spawn starts a harness thread.
func (x *Exec) Spawn(name string, f func()) *Handle {
	t := x.newThread(name, f)
	return &Handle{t}
}

// Join waits for the thread.
func (h *Handle) Join() {
	Block("join", h.t.name, func() bool { return h.t.done })
}

// Done reports whether the thread has ended.
func (h *Handle) Done() bool { return h.t.done }

// Settle waits until no other thread can run at the current instant.
func (x *Exec) Settle() {
	point(&op{kind: "settle", idle: true})
}

// LiveThread describes a thread that has not ended.
type LiveThread struct {
	ID   int
	Name string
	Op   string
}

// Live lists threads other than the caller which have not ended.
func (x *Exec) Live() []LiveThread {
	var r []LiveThread
	for _, t := range x.threads {
		if !t.done && t != cur {
			r = append(r, LiveThread{t.id, t.name, t.op.String()})
		}
	}
	return r
}

// ---- package-level state -------------------------------------------------

var resets []func()

// RegisterReset registers a function which re-initialises a package's variables.
func RegisterReset(f func()) bool { resets = append(resets, f); return true }

func resetGlobals() {
	for _, f := range resets {
		f()
	}
}

// AddReset lets a harness or shim register its own per-execution initialisation.
func AddReset(f func()) { resets = append(resets, f) }

// Rel is the point of a releasing operation (never blocks; effect also happens while unwinding).
func Rel(kind string) { relPoint(kind, nil) }

// Aborting reports whether the current thread is being unwound.
func Aborting() bool { return cur != nil && cur.abort }

// ---- shared memory sites -----------------------------------------------------

type siteInfo struct {
	pkg  string
	r, w []int
}

type classInfo struct {
	name    string
	threads map[int]bool
	written bool
}

var (
	sites    []siteInfo
	classes  []*classInfo
	classIdx = map[string]int{}
	active   []bool
)

func classOf(pkg, s string) int {
	if strings.HasPrefix(s, "e:") || strings.HasPrefix(s, "d:") {
		pkg = ""
	}
	k := pkg + "|" + s
	if i, ok := classIdx[k]; ok {
		return i
	}
	classIdx[k] = len(classes)
	classes = append(classes, &classInfo{name: k, threads: map[int]bool{}})
	return len(classes) - 1
}

// Sites registers the memory access sites of a package.
func Sites(pkg string, desc []string) int {
	base := len(sites)
	for _, d := range desc {
		r, w, _ := strings.Cut(d, "\x02")
		var s siteInfo
		s.pkg = pkg
		for _, c := range strings.Split(r, "\x01") {
			if c != "" {
				s.r = append(s.r, classOf(pkg, c))
			}
		}
		for _, c := range strings.Split(w, "\x01") {
			if c != "" {
				s.w = append(s.w, classOf(pkg, c))
			}
		}
		sites = append(sites, s)
	}
	active = make([]bool, len(sites))
	return base
}

// M is a statement-level shared memory point.
func M(id int) {
	x := cx
	if x == nil || cur == nil || cur.abort {
		return
	}
	if x.cfg.Profile {
		if x.nthreads < 2 {
			return
		}
		s := &sites[id]
		for _, c := range s.r {
			classes[c].threads[cur.id] = true
		}
		for _, c := range s.w {
			classes[c].threads[cur.id] = true
			classes[c].written = true
		}
		return
	}
	if !x.cfg.MemPoints || !active[id] {
		return
	}
	point(&op{kind: "mem"})
}

// ResetProfile forgets the recorded memory profile.
func ResetProfile() {
	for _, c := range classes {
		c.threads = map[int]bool{}
		c.written = false
	}
}

// UseProfile activates the sites which touch memory that the profiled executions shared between
// goroutines and wrote. It returns the number of active sites and the names of the classes.
func UseProfile() (int, []string) {
	n := 0
	var names []string
	hot := make([]bool, len(classes))
	for i, c := range classes {
		if c.written && len(c.threads) > 1 {
			hot[i] = true
			names = append(names, c.name)
		}
	}
	for i, s := range sites {
		active[i] = false
		for _, c := range append(append([]int(nil), s.r...), s.w...) {
			if hot[c] {
				active[i] = true
			}
		}
		if active[i] {
			n++
		}
	}
	return n, names
}

// ActiveSites returns the active memory sites (after UseProfile).
func ActiveSites() []bool { return append([]bool(nil), active...) }

// SetActive activates the given memory sites.
func SetActive(a []bool) { copy(active, a) }

// Quiet runs f without branching: the default choice is taken everywhere.
func (x *Exec) Quiet(f func()) {
	c := *x.cfg
	x.cfg.NoSched, x.cfg.MemPoints, x.cfg.MapOrder, x.cfg.SelOrder = true, false, false, false
	f()
	h := x.cfg.Horizon
	p := x.cfg.Profile
	*x.cfg = c
	x.cfg.Horizon, x.cfg.Profile = h, p
}
