package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"vs"
	vc "vs/context"
)

func init() {
	register(&Check{
		ID:        "C22",
		Rule:      "cancellation at every instant of a grid over two refresh/retry/expiry cycles x server behaviour x way of reading the reports, and every interleaving (bounded preemptions) of a cancellation with the start, a tick, a running request, a retry and the expiry of documents; then: no goroutine left, reports end with the cancellation error and are closed, no request afterwards",
		Scenarios: c22,
	})
}

// c22daemon is anything that is started.
type c22daemon struct {
	name   string
	start  func(ctx vc.Context) <-chan error
	update func(ctx vc.Context) error
	net    *Net
}

const (
	c22period = time.Hour
	c22delay  = 10 * time.Second
)

// leftovers are the threads of the library which have not ended.
func leftovers(x *vs.Exec) []string {
	var l []string
	for _, t := range x.Live() {
		if strings.HasPrefix(t.Name, "h:") {
			continue
		}
		l = append(l, t.Name+" at "+t.Op)
	}
	return l
}

// c22reader reads until the stream is closed.
type c22reader struct {
	errs   []error
	closed bool
	h      *vs.Handle
}

func c22read(x *vs.Exec, ech <-chan error) *c22reader {
	r := &c22reader{}
	r.h = x.Spawn("h:reader", func() {
		for {
			e, ok := vs.Recv2(ech)
			if !ok {
				r.closed = true
				return
			}
			r.errs = append(r.errs, e)
		}
	})
	return r
}

// ended fails unless everything has ended finite time after the cancellation.
func (d *c22daemon) ended(x *vs.Exec, rd *c22reader, wait time.Duration) {
	vs.Sleep(wait)
	x.Settle()
	if l := leftovers(x); len(l) > 0 {
		x.Failf("%s: goroutines left %v after the cancellation: %v", d.name, wait, l)
	}
	if !rd.closed {
		x.Failf("%s: the stream is not closed %v after the cancellation", d.name, wait)
	}
	if n := len(rd.errs); n == 0 || !errors.Is(rd.errs[n-1], context.Canceled) && !strings.Contains(rd.errs[n-1].Error(), context.Canceled.Error()) {
		x.Failf("%s: the last report is not the cancellation: %v", d.name, rd.errs)
	}
	n := len(d.net.Reqs)
	vs.Sleep(10 * c22period)
	x.Settle()
	if len(d.net.Reqs) > n {
		x.Failf("%s: %d requests after everything ended", d.name, len(d.net.Reqs)-n)
	}
}

// c22make builds one of the refreshers or the authorizer. ans decides the answers (nil: the default).
func c22make(x *vs.Exec, kind string, exp time.Duration, ans func(kind, name string) *Ans) *c22daemon {
	per, del := c22period.String(), c22delay.String()
	switch kind {
	case rqPolicy:
		w := newPolWorld(x, polCfg{attempts: 1, delay: del, refresh: per, purge: "20m"},
			Doc{Domain: "d", Expires: exp, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}})
		w.answer = func(dom string, r *http.Request) *Ans { return ans(rqPolicy, dom) }
		return &c22daemon{kind, func(c vc.Context) <-chan error { return w.d.Start(c) }, func(c vc.Context) error { return w.d.Update(c) }, w.net}
	case rqPubkey:
		n := newNet(x, func(r *http.Request) *Ans {
			_, name := classify(r)
			if a := ans(rqPubkey, name); a != nil {
				return a
			}
			return ok200("keys", cachedBody("c22"+name, func() []byte { return pubkeyDoc(name, "ec1") }), "t")
		})
		d, err := pubkey.New(pubkey.WithAthenzURL(athenzURL), pubkey.WithHTTPClient(n.client()), pubkey.WithRefreshPeriod(per), pubkey.WithRetryDelay(del), pubkey.WithETagPurgePeriod("20m"))
		if err != nil {
			x.Failf("pubkey.New: %v", err)
		}
		return &c22daemon{kind, func(c vc.Context) <-chan error { return d.Start(c) }, func(c vc.Context) error { return d.Update(c) }, n}
	case rqJWK:
		n := newNet(x, func(r *http.Request) *Ans {
			_, name := classify(r)
			if a := ans(rqJWK, name); a != nil {
				return a
			}
			return c10body(r.URL.String(), "v1")
		})
		d, err := jwk.New(jwk.WithAthenzJwksURL(athenzURL), jwk.WithURLs([]string{jku1}), jwk.WithHTTPClient(n.client()), jwk.WithRefreshPeriod(per), jwk.WithRetryDelay(del))
		if err != nil {
			x.Failf("jwk.New: %v", err)
		}
		return &c22daemon{kind, func(c vc.Context) <-chan error { return d.Start(c) }, func(c vc.Context) error { return d.Update(c) }, n}
	}
	w := newAuthWorld(x, []Doc{{Domain: "d", Expires: exp, Pols: []P{{{"r", "a", "d:x", "ALLOW"}}}}},
		authz.WithPubkeyRefreshPeriod(per), authz.WithPubkeyRetryDelay(del), authz.WithPubkeyETagPurgePeriod("20m"),
		authz.WithPolicyRefreshPeriod(per), authz.WithPolicyRetryDelay(del), authz.WithPolicyRetryAttempts(1), authz.WithPolicyPurgePeriod("20m"),
		authz.WithJwkRefreshPeriod(per), authz.WithJwkRetryDelay(del), authz.WithCacheExp(40*time.Minute))
	w.answer = func(kind, name string, r *http.Request) *Ans { return ans(kind, name) }
	return &c22daemon{kind, func(c vc.Context) <-chan error { return w.a.Start(c) }, func(c vc.Context) error { return w.a.Init(c) }, w.net}
}

func c22(thorough bool) []*Scenario {
	kinds := []string{rqPolicy, rqPubkey, rqJWK, "authorizer"}
	modes := []string{"ok", "500", "transport error", "slow", "slow failure", "hang", "part fails", "garbage"}
	// instants of the two cycles at which something happens, and around them
	var grid []time.Duration
	for _, t := range []time.Duration{0, 10 * time.Minute, 20 * time.Minute, 30 * time.Minute, 40 * time.Minute, c22period, 80 * time.Minute, 2 * c22period} {
		for _, o := range []time.Duration{-1, 0, 1, time.Second, 5 * time.Second, 10 * time.Second, 10*time.Second + 1, 15 * time.Second, 20 * time.Second, 25 * time.Second, 30 * time.Second, 45 * time.Second} {
			if t+o >= 0 {
				grid = append(grid, t+o)
			}
		}
	}
	var out []*Scenario
	out = append(out, &Scenario{Name: "grid", Cfg: seqCfg, Body: func(x *vs.Exec) {
		kind := kinds[x.Choose(len(kinds))]
		mode := modes[x.Choose(len(modes))]
		exp := []time.Duration{1000 * day, 30 * time.Minute}[x.Choose(2)]
		how := []string{"update, start", "start", "update only", "update before with another context"}[x.Choose(4)]
		at := grid[x.Choose(len(grid))]
		x.Label("case", fmt.Sprintf("%s, server %s, documents expire after %v, %s, cancelled after %v", kind, mode, exp, how, at))
		active := false
		d := c22make(x, kind, exp, func(k, name string) *Ans {
			if !active {
				return nil
			}
			switch mode {
			case "500":
				return status(500)
			case "transport error":
				return netErr()
			case "slow failure":
				return &Ans{Status: 500, Delay: 12 * time.Second}
			case "hang":
				return &Ans{Hang: true}
			case "garbage":
				return ok200("garbage", []byte("{"), "")
			case "part fails":
				if name == "zms" || name == jku1 || name == "d" {
					return status(404)
				}
			}
			return nil
		})
		d.net.quiet = true
		if mode == "slow" {
			h := d.net.Handle
			d.net.Handle = func(r *http.Request) *Ans {
				a := *h(r)
				if active {
					a.Delay = 12 * time.Second
				}
				return &a
			}
		}
		ctx, cancel := withCancel()
		other, cancel2 := withCancel()
		defer cancel2()
		switch how {
		case "update, start":
			if err := d.update(ctx); err != nil {
				x.Failf("update: %v", err)
			}
		case "update before with another context":
			if err := d.update(other); err != nil {
				x.Failf("update: %v", err)
			}
		}
		active = true
		if how == "update only" {
			// a refresh that is cancelled ends
			done := false
			var err error
			t0 := x.Elapsed()
			x.Spawn("h:update", func() { err = d.update(ctx); done = true })
			vs.Sleep(at)
			cancel()
			vs.Sleep(5 * c22delay)
			x.Settle()
			if !done {
				x.Failf("%s: the refresh does not end after the cancellation", kind)
			}
			if l := leftovers(x); len(l) > 0 {
				x.Failf("%s: goroutines left after the cancellation: %v", kind, l)
			}
			if (mode == "hang") && err == nil {
				x.Failf("%s: the refresh succeeded without any answer", kind)
			}
			n := len(d.net.Reqs)
			vs.Sleep(10 * c22period)
			if len(d.net.Reqs) > n {
				x.Failf("%s: requests after the refresh ended", kind)
			}
			x.Eval(fmt.Sprint(kind, mode, exp, how, at, t0))
			return
		}
		rd := c22read(x, d.start(ctx))
		vs.Sleep(at)
		cancel()
		if how == "update before with another context" {
			cancel2()
		}
		// at most: a running refresh with its retries, the retry delay
		d.ended(x, rd, 6*c22delay)
		x.Eval(fmt.Sprint(kind, mode, exp, how, at))
	}})

	out = append(out, c22growth(kinds), c22slow(kinds), c22checks())

	// the cancellation interleaved with what happens at the same instant
	type moment struct {
		name string
		at   time.Duration
		mode string
		exp  time.Duration
		pre  bool
	}
	moments := []moment{
		{"start", 0, "ok", 1000 * day, false},
		{"tick", c22period, "ok", 1000 * day, false},
		{"tick of a failing refresh", c22period, "500", 1000 * day, false},
		{"failure queue", c22period + 10*time.Second, "500", 1000 * day, false},
		{"second retry", c22period + 20*time.Second, "500", 1000 * day, false},
		{"answer", c22period + 12*time.Second, "slow", 1000 * day, false},
		{"expiry", 40 * time.Minute, "ok", 30 * time.Minute, true},
		{"failing expiry", 40 * time.Minute, "500", 30 * time.Minute, true},
	}
	for _, kind := range kinds {
		kind := kind
		p := 1
		if kind == rqPolicy {
			p = 2
		}
		out = append(out, &Scenario{Name: "race-" + kind, Cfg: concCfg, P: p, PT: p + 1, D: 1, DT: 1, S: p, ST: p + 1, Body: func(x *vs.Exec) {
			m := moments[x.Choose(len(moments))]
			if m.pre && kind != rqPolicy || kind == "authorizer" && m.name != "start" && m.name != "tick" {
				return
			}
			x.Label("moment", m.name)
			active := false
			d := c22make(x, kind, m.exp, func(k, name string) *Ans {
				if !active || m.mode == "ok" {
					return nil
				}
				if m.mode == "slow" {
					return &Ans{Status: 404, Delay: 12 * time.Second}
				}
				return status(500)
			})
			d.net.quiet = kind == "authorizer"
			ctx, cancel := withCancel()
			if m.pre {
				x.Quiet(func() {
					if err := d.update(ctx); err != nil {
						x.Failf("update: %v", err)
					}
				})
			}
			active = true
			c := x.Spawn("h:canceller", func() {
				vs.Sleep(m.at)
				cancel()
			})
			rd := c22read(x, d.start(ctx))
			c.Join()
			x.Quiet(func() { d.ended(x, rd, 6*c22delay) })
			x.Eval(fmt.Sprint(m.name, len(rd.errs), len(d.net.Reqs)))
		}})
	}
	return out
}
