package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/kpango/gache"
	realgache "realgache"

	"vs"
	vctx "vs/context"
)

// cacheAPI is the part of the cache the library uses; both the real cache (instrumented, on the
// virtual clock) and the stand-in implement it.
type cacheAPI interface {
	Clear()
	Delete(string) (interface{}, bool)
	DeleteExpired(vctx.Context) uint64
	Get(string) (interface{}, bool)
	GetWithExpire(string) (interface{}, int64, bool)
	Set(string, interface{})
	SetWithExpire(string, interface{}, time.Duration)
	Len() int
	ToRawMap(vctx.Context) map[string]interface{}
	Write(vctx.Context, io.Writer) error
	Read(io.Reader) error
	Stop()
}

// confOp is one operation; it returns what can be observed.
type confOp struct {
	name string
	f    func(c cacheAPI) string
}

func confOps() []confOp {
	get := func(k string) confOp {
		return confOp{"get " + k, func(c cacheAPI) string { v, ok := c.Get(k); return fmt.Sprint(v, ok) }}
	}
	return []confOp{
		get("k1"), get("k2"),
		{"getexp k1", func(c cacheAPI) string { v, e, ok := c.GetWithExpire("k1"); return fmt.Sprint(v, e, ok) }},
		{"set k1", func(c cacheAPI) string { c.Set("k1", "a"); return "" }},
		{"setexp k1 2s", func(c cacheAPI) string { c.SetWithExpire("k1", "b", 2*time.Second); return "" }},
		{"setexp k2 4s", func(c cacheAPI) string { c.SetWithExpire("k2", "c", 4*time.Second); return "" }},
		{"setexp k1 0", func(c cacheAPI) string { c.SetWithExpire("k1", "d", 0); return "" }},
		{"setexp k2 <0", func(c cacheAPI) string { c.SetWithExpire("k2", "e", -time.Second); return "" }},
		{"delete k1", func(c cacheAPI) string { v, ok := c.Delete("k1"); return fmt.Sprint(v, ok) }},
		{"delexp", func(c cacheAPI) string { return fmt.Sprint(c.DeleteExpired(vctx.Background())) }},
		{"raw", func(c cacheAPI) string { return fmt.Sprint(c.ToRawMap(vctx.Background())) }},
		{"clear", func(c cacheAPI) string { c.Clear(); return "" }},
		{"write+read", func(c cacheAPI) string {
			var b bytes.Buffer
			err := c.Write(vctx.Background(), &b)
			err2 := c.Read(&b)
			return fmt.Sprint(err, err2)
		}},
	}
}

func cacheConformance(thorough bool) []*Scenario {
	// operation sequences
	mk := func(name string, started bool, depth, inner int) *Scenario {
		return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
			ops := confOps()
			adv := []time.Duration{time.Second, 2*time.Second + 1}
			n := len(ops) + len(adv)
			if started { // one shard per goroutine makes these slow, and they are in the other scenario
				n = 10
			}
			var pre []int
			for i := 0; i < depth-inner; i++ {
				pre = append(pre, x.Choose(n))
			}
			total := 1
			for i := 0; i < inner; i++ {
				total *= n
			}
			for k := 0; k < total; k++ {
				seq := append([]int(nil), pre...)
				for i, v := 0, k; i < inner; i++ {
					seq = append(seq, v%n)
					v /= n
				}
				ctx, cancel := vctx.WithCancel(vctx.Background())
				var log [2][]string
				hook := func(i int) func(vctx.Context, string) {
					return func(_ vctx.Context, k string) { log[i] = append(log[i], fmt.Sprint("hook ", k, " ", x.Elapsed())) }
				}
				a := gache.New(gache.WithDefaultExpiration(3 * time.Second))
				b := realgache.New(realgache.WithDefaultExpiration(3 * time.Second))
				if started {
					a.EnableExpiredHook().SetExpiredHook(hook(0)).StartExpired(ctx, 1500*time.Millisecond)
					b.EnableExpiredHook().SetExpiredHook(hook(1)).StartExpired(ctx, 1500*time.Millisecond)
					x.Settle()
				}
				caches := []cacheAPI{a, b}
				var story []string
				for _, s := range seq {
					if started && s >= 8 {
						story = append(story, adv[s-8].String())
						vs.Sleep(adv[s-8])
						x.Settle()
					} else if s >= len(ops) {
						story = append(story, adv[s-len(ops)].String())
						x.JumpBy(adv[s-len(ops)])
					} else {
						story = append(story, ops[s].name)
						var got [2]string
						for i, c := range caches {
							got[i] = ops[s].f(c)
							if started {
								x.Settle()
							}
							got[i] += fmt.Sprint(" len ", c.Len())
						}
						if got[0] != got[1] {
							x.Failf("cache stand-in answers %q, the real cache %q after %s", got[0], got[1], strings.Join(story, ", "))
						}
					}
					if started {
						for i := range log {
							sort.Strings(log[i])
						}
						if fmt.Sprint(log[0]) != fmt.Sprint(log[1]) {
							x.Failf("hooks of the cache stand-in %q, of the real cache %q after %s", log[0], log[1], strings.Join(story, ", "))
						}
					}
				}
				cancel()
				if started {
					x.Settle()
				}
				x.Evals(1)
			}
			x.Eval(fmt.Sprint(name, pre))
		}}
	}
	d1, d2 := 3, 4
	if thorough {
		d1, d2 = 5, 5
	}
	out := []*Scenario{mk("cache-sequences", false, d1, 2), mk("cache-sequences-started", true, d2, 2)}
	// concurrent operations on the real cache: every result is that of some order of the stand-in's
	// operations, which are indivisible
	ops := []struct {
		name string
		real func(c cacheAPI) string
	}{}
	for _, o := range confOps() {
		if strings.Contains(o.name, "k2") || o.name == "raw" || o.name == "write+read" || o.name == "delexp" || o.name == "clear" {
			continue
		}
		ops = append(ops, struct {
			name string
			real func(c cacheAPI) string
		}{o.name, o.f})
	}
	for _, expired := range []bool{false, true} {
		for _, fill := range []bool{false, true} {
			expired, fill := expired, fill
			if expired && !fill {
				continue
			}
			name := fmt.Sprintf("cache-concurrent-filled=%v-expired=%v", fill, expired)
			out = append(out, &Scenario{Name: name, Cfg: vs.Config{Horizon: 100000}, P: 2, PT: 3, S: -1, Body: func(x *vs.Exec) {
				var prog [3]int
				for i := range prog {
					prog[i] = x.Choose(len(ops))
				}
				setup := func(c cacheAPI) {
					if fill {
						c.SetWithExpire("k1", "old", time.Second)
					}
				}
				var real cacheAPI
				x.Quiet(func() { real = realgache.New(); setup(real) })
				var base time.Duration
				if expired {
					x.JumpBy(time.Second + 1)
				}
				_ = base
				var res [3]string
				h := x.Spawn("one", func() { res[0] = ops[prog[0]].real(real); res[1] = ops[prog[1]].real(real) })
				h2 := x.Spawn("two", func() { res[2] = ops[prog[2]].real(real) })
				h.Join()
				h2.Join()
				final := ops[0].real(real)
				ok := false
				var seen []string
				x.Quiet(func() {
					for _, order := range [][]int{{0, 1, 2}, {0, 2, 1}, {2, 0, 1}} {
						m := newCacheModel(fill, expired)
						var r [3]string
						for _, i := range order {
							r[i] = m.do(ops[prog[i]].name)
						}
						f := m.do(ops[0].name)
						got := fmt.Sprint(r, f)
						seen = append(seen, got)
						if norm(fmt.Sprint(res, final)) == norm(got) {
							ok = true
						}
					}
				})
				what := fmt.Sprintf("%s, %s || %s", ops[prog[0]].name, ops[prog[1]].name, ops[prog[2]].name)
				if !ok && !expired {
					x.Failf("real cache %s: results %q are not those of any order: %q", what, fmt.Sprint(res, final), seen)
				}
				if expired { // an expired value is never answered
					for _, s := range res {
						if strings.Contains(s, "old") {
							x.Failf("real cache %s: expired value answered: %q", what, res)
						}
					}
				}
				x.Outcome(what + fmt.Sprint(res, final))
				x.Eval(what)
			}})
		}
	}
	return out
}

func norm(s string) string { return s }

// cacheModel is the sequential meaning of the operations used concurrently (at one instant).
type cacheModel struct {
	v   string
	exp int64
	set bool
}

func newCacheModel(fill, expired bool) *cacheModel {
	m := &cacheModel{}
	if fill {
		m.v, m.set, m.exp = "old", true, vs.Now().Add(time.Second).UnixNano()
	}
	return m
}

func (m *cacheModel) do(op string) string {
	switch op {
	case "get k1":
		if m.set {
			return fmt.Sprint(m.v, true)
		}
		return fmt.Sprint(nil, false)
	case "getexp k1":
		if m.set {
			return fmt.Sprint(m.v, m.exp, true)
		}
		return fmt.Sprint(nil, int64(0), false)
	case "set k1":
		*m = cacheModel{"a", vs.Now().Add(30 * time.Second).UnixNano(), true}
	case "setexp k1 2s":
		*m = cacheModel{"b", vs.Now().Add(2 * time.Second).UnixNano(), true}
	case "setexp k1 0":
		*m = cacheModel{"d", 0, true}
	case "delete k1":
		s := fmt.Sprint(nil, false)
		if m.set {
			s = fmt.Sprint(m.v, true)
		}
		*m = cacheModel{}
		return s
	}
	return ""
}
