package main

import (
	"fmt"
	"time"

	"vs"
)

// concCfg explores thread interleavings including memory points, map order.
var concCfg = vs.Config{MemPoints: true, MapOrder: true, SelOrder: true}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "every interleaving (bounded preemptions, map orders) of the goroutines which load documents, evaluate roles and re-fetch expired documents; a case is one complete execution, distinct by the decisions it observed",
		Assumptions: []string{
			"documents of 1-3 policies, 1-2 roles, 1-2 domains; decisions queried for every role list of up to 3 roles",
		},
		Scenarios: c03,
	})
}

type query struct {
	dom   string
	roles []string
	act   string
	res   string
}

func (q query) String() string { return fmt.Sprintf("%s %v %s %s", q.dom, q.roles, q.act, q.res) }

// loadScenario loads docs under every interleaving and checks the queries afterwards.
func loadScenario(name string, p, pt int, qs []query, docs ...Doc) *Scenario {
	var as []A
	for _, d := range docs {
		as = append(as, d.Asserts()...)
	}
	return &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 2, DT: 3, S: 2, ST: 4, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{}, docs...)
		if err := w.d.Update(background()); err != nil {
			x.Failf("update failed: %v", err)
		}
		x.Quiet(func() {
			for _, q := range qs {
				got := w.check(background(), q.dom, q.roles, q.act, q.res)
				want := refDecide(as, q.dom, q.roles, q.act, q.res)
				if got != want {
					x.Failf("check %s: got %v, want %v", q, got, want)
				}
			}
			d, ord := dumpOf(w.d.GetPolicyCache(background()))
			x.Outcome(d)
			if !ord {
				x.Failf("allow assertion before a deny assertion")
			}
		})
	}}
}

// evalScenario evaluates one query under every interleaving of the role goroutines.
func evalScenario(name string, p, pt int, q query, docs ...Doc) *Scenario {
	var as []A
	for _, d := range docs {
		as = append(as, d.Asserts()...)
	}
	return &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 2, S: 3, ST: 5, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{}, docs...)
		w.mustUpdate()
		got := w.check(background(), q.dom, q.roles, q.act, q.res)
		want := refDecide(as, q.dom, q.roles, q.act, q.res)
		if got != want {
			x.Failf("check %s: got %v, want %v", q, got, want)
		}
		x.Outcome(fmt.Sprint(got))
	}}
}

func c03(thorough bool) []*Scenario {
	al := func(r, a, res string) A { return A{r, a, res, "ALLOW"} }
	de := func(r, a, res string) A { return A{r, a, res, "DENY"} }
	qa := []query{{"d", []string{"r"}, "a", "x"}, {"d", []string{"r", "s"}, "a", "x"}, {"d", []string{"s"}, "a", "x"}}
	doc := func(ps ...P) Doc { return Doc{Domain: "d", Expires: day, Pols: ps} }
	out := []*Scenario{
		loadScenario("load-allow-deny", 3, 4, qa, doc(P{al("r", "a", "d:x")}, P{de("r", "a", "d:x")})),
		loadScenario("load-deny-allow", 3, 4, qa, doc(P{de("r", "a", "d:x")}, P{al("r", "a", "d:x")})),
		loadScenario("load-pattern-deny", 3, 3, qa, doc(P{al("r", "a", "d:x"), al("s", "a", "d:x")}, P{de("r", "*", "d:*")})),
		loadScenario("load-three-policies", 2, 3, qa, doc(P{al("r", "a", "d:x")}, P{de("r", "a", "d:x")}, P{al("r", "a", "d:x")})),
		loadScenario("load-two-domains", 2, 3, append(qa, query{"e", []string{"r"}, "a", "x"}),
			doc(P{al("r", "a", "d:x")}), Doc{Domain: "e", Expires: day, Pols: []P{{de("r", "a", "e:x"), al("r", "*", "e:*")}}}),
		evalScenario("eval-allow-then-deny", 3, 3, query{"d", []string{"r", "s"}, "a", "x"}, doc(P{al("r", "a", "d:x"), de("s", "a", "d:x")})),
		evalScenario("eval-deny-then-allow", 3, 3, query{"d", []string{"s", "r"}, "a", "x"}, doc(P{al("r", "a", "d:x"), de("s", "a", "d:x")})),
		evalScenario("eval-three-roles", 2, 2, query{"d", []string{"r", "s", "t"}, "a", "x"}, doc(P{al("r", "a", "d:x"), al("s", "a", "d:x"), de("t", "a", "d:x")})),
		evalScenario("eval-same-role-twice", 2, 2, query{"d", []string{"r", "r"}, "a", "x"}, doc(P{al("r", "a", "d:x"), de("r", "b", "d:*")})),
		evalScenario("eval-no-match", 3, 3, query{"d", []string{"r", "u"}, "b", "x"}, doc(P{al("r", "a", "d:x"), de("r", "c", "d:*")})),
		evalScenario("eval-allowed-subset", 3, 3, query{"d", []string{"r", "s"}, "a", "x"}, doc(P{al("r", "a", "d:x"), al("s", "b", "d:x")})),
	}
	// An expired document is fetched again (by the purger, by checks meeting expired entries, by a
	// refresh) while checks run: a check sees the old document being gone (no match), or the complete
	// new one; never an allow without the deny.
	out = append(out,
		hookScenario("hook-check-check", 1, 3, "c"),
		hookScenario("hook-refresh", 2, 3, "u"),
	)
	return out
}

// hookScenario: the document in force expires; first checks trigger the re-fetch; concurrently ops run.
func hookScenario(name string, p, pt int, op string) *Scenario {
	old := Doc{Domain: "d", Expires: time.Hour, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"r", "b", "d:x", "ALLOW"}, {"s", "a", "d:x", "ALLOW"}}}}
	neu := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "*", "d:*", "ALLOW"}, {"r", "a", "d:x", "DENY"}, {"s", "a", "d:x", "ALLOW"}}}}
	return &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 1, S: 1, ST: 2, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{purge: "3h", margin: "1m"}, old)
		ctx, cancel := withCancel()
		x.Quiet(func() {
			if err := w.d.Update(ctx); err != nil {
				x.Failf("initial update failed: %v", err)
			}
			x.Settle()
		})
		w.publish(neu, "n")
		x.JumpBy(time.Hour + time.Minute) // expired, not yet purged
		one := func(roles ...string) {
			got := w.check(background(), "d", roles, "a", "x")
			want := refDecide(neu.Asserts(), "d", roles, "a", "x")
			x.Outcome(fmt.Sprint(roles, got))
			if got != want && got.Kind != "nomatch" {
				x.Failf("check %v while the expired document is being replaced: got %v, want %v or no match", roles, got, want)
			}
		}
		var hs []*vs.Handle
		hs = append(hs, x.Spawn("c1", func() { one("r") }))
		if op == "c" {
			hs = append(hs, x.Spawn("c2", func() { one("s", "r") }))
		} else {
			hs = append(hs, x.Spawn("u", func() {
				if err := w.d.Update(ctx); err != nil {
					x.Failf("refresh failed: %v", err)
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		x.Settle()
		x.Quiet(func() {
			for i := 0; i < 3; i++ {
				for _, roles := range [][]string{{"r"}, {"s"}, {"r", "s"}} {
					got := w.check(background(), "d", roles, "a", "x")
					want := refDecide(neu.Asserts(), "d", roles, "a", "x")
					if got != want && (i == 2 || got.Kind != "nomatch") {
						x.Failf("check %v after the new document is in force: got %v, want %v", roles, got, want)
					}
				}
				x.Settle()
			}
			cancel()
			x.Settle()
		})
	}}
}
