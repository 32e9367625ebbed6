package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C29",
		Rule:      "every document of up to 3 (thorough 4) assertions over an alphabet, loaded through the real path, dumped and compared with its assertions, decisions before and after; every history of refreshes, failures and clock advances up to the depth bound with a dump after each step; every interleaving (bounded preemptions) of dumps with refreshes, with expiry and with checks: each dump is one complete generation",
		Scenarios: c29,
	})
}

// c29dump renders a dump as role -> sorted "effect action resource" lines; ordered: denials first.
func c29dump(x *vs.Exec, m map[string]interface{}) map[string][]string {
	out := map[string][]string{}
	if m == nil {
		x.Failf("the dump is nil")
	}
	for role, v := range m {
		as, ok := v.([]*policy.Assertion)
		if !ok {
			x.Failf("dump of role %s is a %T", role, v)
		}
		if len(as) == 0 {
			x.Failf("dump of role %s without assertions", role)
		}
		allow := false
		for _, a := range as {
			e := "allow"
			if a.Effect != nil {
				e = "deny"
				if allow {
					x.Failf("dump of role %s: a denial behind an allowance", role)
				}
			} else {
				allow = true
			}
			out[role] = append(out[role], e+" "+a.Action+" "+a.ResourceDomain+":"+a.Resource)
		}
		sort.Strings(out[role])
	}
	return out
}

// c29want fails unless the dump is that of exactly these assertions. An allowance with the texts of a
// denial of the role may be left out, as may a repetition.
func c29want(x *vs.Exec, what string, m map[string]interface{}, as []A) {
	if s := c29diff(c29dump(x, m), as); s != "" {
		x.Failf("%s: %s", what, s)
	}
}

func c29diff(got map[string][]string, as []A) string {
	all := map[string]map[string]bool{}
	for _, a := range as {
		if all[a.Role] == nil {
			all[a.Role] = map[string]bool{}
		}
		e := "allow"
		if strings.EqualFold(a.Effect, "deny") {
			e = "deny"
		}
		all[a.Role][e+" "+a.Action+" "+a.Resource] = true
	}
	for role, l := range got {
		for i, t := range l {
			if !all[role][t] {
				return fmt.Sprintf("the dump shows %q for %s, which is not in force", t, role)
			}
			if i > 0 && l[i-1] == t {
				return fmt.Sprintf("the dump shows %q for %s twice", t, role)
			}
		}
	}
	for role, ts := range all {
		have := "\n" + strings.Join(got[role], "\n") + "\n"
		for t := range ts {
			rest, isAllow := strings.CutPrefix(t, "allow ")
			if !strings.Contains(have, "\n"+t+"\n") && !(isAllow && ts["deny "+rest]) {
				return fmt.Sprintf("the dump lacks %q of %s", t, role)
			}
		}
	}
	return ""
}

func c29(thorough bool) []*Scenario {
	var out []*Scenario
	n := 3
	acts := []string{"a", "A*"}
	if thorough {
		n = 4
	}
	var alpha []A
	for _, r := range []string{"r", "s"} {
		for _, a := range acts {
			for _, res := range []string{"d:x", "e:x,y:z"} {
				for _, e := range []string{"ALLOW", "Deny"} {
					alpha = append(alpha, A{r, a, res, e})
				}
			}
		}
	}
	var qs []query
	for _, rs := range [][]string{{"r"}, {"s"}, {"r", "s"}} {
		for _, a := range []string{"a", "ab"} {
			qs = append(qs, query{"d", rs, a, "x"})
		}
	}
	other := Doc{Domain: "e", Expires: day, Pols: []P{{{"r", "a", "e:x", "ALLOW"}}}}
	out = append(out, &Scenario{Name: "sets", Cfg: seqCfg, Body: func(x *vs.Exec) {
		k := x.Choose(n + 1)
		var first []int
		for i := 0; i < k && i < n-1; i++ {
			first = append(first, x.Choose(len(alpha)))
		}
		rest := 1
		for i := len(first); i < k; i++ {
			rest *= len(alpha)
		}
		for r := 0; r < rest; r++ {
			idx := append([]int(nil), first...)
			for q, i := r, len(first); i < k; i++ {
				idx = append(idx, q%len(alpha))
				q /= len(alpha)
			}
			var one, two Doc
			one = Doc{Domain: "d", Expires: day, Pols: []P{nil}}
			two = Doc{Domain: "d", Expires: day}
			for _, i := range idx {
				one.Pols[0] = append(one.Pols[0], alpha[i])
				two.Pols = append(two.Pols, P{alpha[i]})
			}
			x.Label("document", fmt.Sprint(one.Pols))
			for _, d := range []Doc{one, two} {
				if k < 2 && len(d.Pols) > 1 {
					continue
				}
				w := newPolWorld(x, polCfg{purge: "1000h"}, d, other)
				w.net.quiet = true
				if got := w.d.GetPolicyCache(background()); len(got) != 0 {
					x.Failf("a dump before any policies are loaded: %v", c29dump(x, got))
				}
				if err := w.d.Update(background()); err != nil {
					x.Failf("Update: %v", err)
				}
				all := append(d.Asserts(), other.Asserts()...)
				var before []Verdict
				for _, q := range qs {
					before = append(before, w.check(background(), q.dom, q.roles, q.act, q.res))
				}
				c29want(x, "dump", w.d.GetPolicyCache(background()), all)
				for i, q := range qs {
					got := w.check(background(), q.dom, q.roles, q.act, q.res)
					if want := refDecide(all, q.dom, q.roles, q.act, q.res); got != before[i] || got != want {
						x.Failf("check %s: %v, after a dump %v, want %v", q, before[i], got, want)
					}
				}
				c29want(x, "second dump", w.d.GetPolicyCache(background()), all)
				x.Evals(1)
			}
		}
		x.Eval(fmt.Sprint(k, first))
	}})

	// ---- sizes: many assertions of a role, many roles, many domains
	out = append(out, &Scenario{Name: "sizes", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := x.Choose(41)
		shape := x.Choose(3)
		var doms []string
		docs := map[string]Doc{}
		add := func(dom string, a A) {
			d, ok := docs[dom]
			if !ok {
				doms = append(doms, dom)
				d = Doc{Domain: dom, Expires: day}
			}
			if len(d.Pols) == 0 || len(d.Pols[len(d.Pols)-1]) == 7 {
				d.Pols = append(d.Pols, nil)
			}
			l := &d.Pols[len(d.Pols)-1]
			*l = append(*l, a)
			docs[dom] = d
		}
		for i := 0; i < n; i++ {
			eff := "ALLOW"
			if i%3 == 2 {
				eff = "DENY"
			}
			switch shape {
			case 0:
				add("d", A{"r", "a", fmt.Sprintf("d:x%d", i), eff})
			case 1:
				add("d", A{fmt.Sprintf("r%d", i), "a", fmt.Sprintf("d:x%d", i), eff})
			case 2:
				dom := fmt.Sprintf("d%d", i)
				add(dom, A{"r", "a", dom + ":x", eff})
				add(dom, A{"s", "a", dom + ":y", "ALLOW"})
			}
		}
		if len(doms) == 0 {
			doms, docs["d"] = []string{"d"}, Doc{Domain: "d", Expires: day}
		}
		var l []Doc
		var all []A
		for _, dom := range doms {
			l = append(l, docs[dom])
			all = append(all, docs[dom].Asserts()...)
		}
		w := newPolWorld(x, polCfg{purge: "1000h"}, l...)
		w.net.quiet = true
		w.mustUpdate()
		for rep := 0; rep < 2; rep++ {
			c29want(x, fmt.Sprintf("dump %d of %d entries of shape %d", rep, n, shape), w.d.GetPolicyCache(background()), all)
			for i := 0; i < n; i++ {
				q := query{"d", []string{"r"}, "a", fmt.Sprintf("x%d", i)}
				switch shape {
				case 1:
					q.roles = []string{fmt.Sprintf("r%d", i), "r0"}
				case 2:
					q = query{fmt.Sprintf("d%d", i), []string{"s", "r"}, "a", []string{"x", "y"}[i%2]}
				}
				if got, want := w.check(background(), q.dom, q.roles, q.act, q.res), refDecide(all, q.dom, q.roles, q.act, q.res); got != want {
					x.Failf("%d entries of shape %d: check %s after %d dumps: %v, want %v", n, shape, q, rep+1, got, want)
				}
			}
		}
		x.Eval(fmt.Sprint(n, shape))
	}})

	// ---- histories
	depth := 4
	if thorough {
		depth = 5
	}
	out = append(out, &Scenario{Name: "histories", Cfg: seqCfg, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{attempts: 1, delay: "1s", margin: "1s", purge: "47m", domains: []string{"d", "e"}})
		w.net.quiet = true
		t0 := x.Elapsed()
		type st struct {
			doc    *Doc // held by the daemon
			active *Doc
		}
		s := map[string]*st{"d": {}, "e": {}}
		ans := map[string]int{}
		ver := 0
		w.answer = func(dom string, r *http.Request) *Ans {
			switch ans[dom] {
			case 0, 1:
				d := verDoc(dom, ver, x.Elapsed()-0+30*time.Minute)
				if ans[dom] == 1 {
					d = verDoc(dom, ver, day)
				}
				if ver%2 == 1 {
					d.Pols = append(d.Pols, P{{"t", "b", dom + ":t", "ALLOW"}})
				}
				s[dom].doc = &d
				return ok200("doc", rawOf(d), "")
			}
			return status(503)
		}
		_ = t0
		trace := ""
		for i := 0; i < depth; i++ {
			step := x.Choose(7)
			switch step {
			case 6:
				trace += " +20m"
				vs.Sleep(20*time.Minute + time.Second)
			default:
				ver++
				c := []struct{ d, e int }{{0, 0}, {0, 1}, {1, 0}, {1, 2}, {2, 0}, {2, 2}}[step]
				ans["d"], ans["e"] = c.d, c.e
				fail := false
				trace += fmt.Sprint(" ", c)
				// the background refreshes of expired policies end with this context
				ctx, cancel := withCancel()
				err := w.d.Update(ctx)
				cancel()
				x.Settle()
				for _, dom := range []string{"d", "e"} {
					d := s[dom].doc
					if d == nil || ans[dom] == 2 && d.Expires <= x.Elapsed() {
						fail = true
					}
				}
				if (err != nil) != fail {
					x.Failf("history%s: Update: %v, failure expected: %v", trace, err, fail)
				}
				if err == nil {
					for _, dom := range []string{"d", "e"} {
						s[dom].active = s[dom].doc
					}
				}
			}
			x.Label("history", trace)
			var all []A
			for _, dom := range []string{"d", "e"} {
				if d := s[dom].active; d != nil && d.Expires > x.Elapsed() {
					all = append(all, d.Asserts()...)
				}
			}
			for rep := 0; rep < 2; rep++ {
				c29want(x, fmt.Sprintf("dump %d after%s", rep, trace), w.d.GetPolicyCache(background()), all)
				for _, dom := range []string{"d", "e"} {
					for v := 1; v <= ver; v++ {
						for _, a := range []string{"v", "deny"} {
							for _, roles := range [][]string{{"r"}, {"s"}, {"r", "s"}} {
								res := fmt.Sprint(a, v)
								got, want := w.check(background(), dom, roles, "a", res), refDecide(all, dom, roles, "a", res)
								if got != want {
									x.Failf("after%s and %d dumps: check of %v on %s:%s: %v, want %v", trace, rep+1, roles, dom, res, got, want)
								}
							}
						}
					}
				}
			}
			x.Evals(1)
		}
		x.Eval(trace)
	}})

	// ---- the authorizer
	out = append(out, &Scenario{Name: "authorizer", Cfg: seqCfg, Body: func(x *vs.Exec) {
		on := x.Choose(2) == 0
		opts := []authz.Option{}
		if !on {
			opts = append(opts, authz.WithDisablePolicyd())
		}
		d := verDoc("d", 1, 1000*day)
		w := newAuthWorld(x, []Doc{d}, opts...)
		c29want(x, "dump before Init", w.a.GetPolicyCache(background()), nil)
		w.init()
		q := areq{kind: "role", tok: c28role(), act: "a", res: "v1"}
		for i := 0; i < 3; i++ {
			var as []A
			if on {
				as = d.Asserts()
			}
			c29want(x, "dump of the authorizer", w.a.GetPolicyCache(background()), as)
			if _, err := q.do(w.a); err != nil {
				x.Failf("check: %v", err)
			}
			if i == 1 {
				d = verDoc("d", 1, 999*day)
				d.Pols = append(d.Pols, P{{"u", "a", "d:u", "Deny"}})
				w.publish(d)
				w.init()
			}
		}
		x.Eval(fmt.Sprint(on))
	}})

	// ---- races
	old := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:y", "ALLOW"}}}}
	neu := Doc{Domain: "d", Expires: day, Pols: []P{{{"s", "a", "d:x", "DENY"}, {"s", "a", "d:y", "ALLOW"}, {"u", "a", "d:x", "ALLOW"}}}}
	gen := func(x *vs.Exec, what string, m map[string]interface{}, gens ...[]A) int {
		got := c29dump(x, m)
		for i, g := range gens {
			if c29diff(got, g) == "" {
				return i
			}
		}
		x.Failf("%s shows none of the complete generations: %v", what, got)
		return -1
	}
	race := func(name string, p, pt, sw int, quiet bool, body func(x *vs.Exec, w *polWorld)) {
		out = append(out, &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 1, S: sw, ST: sw + 1, Body: func(x *vs.Exec) {
			w := newPolWorld(x, polCfg{attempts: 1, purge: "1000h"}, old)
			w.net.quiet = quiet
			w.mustUpdate()
			body(x, w)
		}})
	}
	race("refresh-dump", 1, 2, 4, true, func(x *vs.Exec, w *polWorld) {
		w.publish(neu, "")
		finished := false
		u := x.Spawn("refresh", func() {
			if err := w.d.Update(background()); err != nil {
				x.Failf("refresh failed: %v", err)
			}
			finished = true
		})
		c := x.Spawn("dump", func() {
			after := finished
			g := gen(x, "a dump during a refresh", w.d.GetPolicyCache(background()), old.Asserts(), neu.Asserts())
			if after && g == 0 {
				x.Failf("a dump after the refresh shows the earlier policies")
			}
			x.Outcome(fmt.Sprint(g))
		})
		u.Join()
		c.Join()
		x.Quiet(func() { gen(x, "the dump at the end", w.d.GetPolicyCache(background()), neu.Asserts()) })
	})
	race("refresh-two-dumps", 1, 2, 4, true, func(x *vs.Exec, w *polWorld) {
		w.publish(neu, "")
		u := x.Spawn("refresh", func() {
			if err := w.d.Update(background()); err != nil {
				x.Failf("refresh failed: %v", err)
			}
		})
		c := x.Spawn("dump", func() {
			g1 := gen(x, "a dump during a refresh", w.d.GetPolicyCache(background()), old.Asserts(), neu.Asserts())
			g2 := gen(x, "a dump during a refresh", w.d.GetPolicyCache(background()), old.Asserts(), neu.Asserts())
			if g2 < g1 {
				x.Failf("a later dump shows earlier policies")
			}
			x.Outcome(fmt.Sprint(g1, g2))
		})
		u.Join()
		c.Join()
	})
	race("failing-refresh-dump", 1, 2, 3, true, func(x *vs.Exec, w *polWorld) {
		bad := neu
		bad.Pols = append([]P{}, neu.Pols...)
		bad.Pols = append(bad.Pols, P{{"r", "a", "nodomain", "ALLOW"}})
		w.publish(bad, "")
		u := x.Spawn("refresh", func() {
			if err := w.d.Update(background()); err == nil {
				x.Failf("refresh reports success")
			}
		})
		c := x.Spawn("dump", func() {
			gen(x, "a dump during a failing refresh", w.d.GetPolicyCache(background()), old.Asserts())
		})
		u.Join()
		c.Join()
		x.Quiet(func() { gen(x, "the dump at the end", w.d.GetPolicyCache(background()), old.Asserts()) })
	})
	race("dump-check", 2, 2, 1, true, func(x *vs.Exec, w *polWorld) {
		a := x.Spawn("dump", func() {
			gen(x, "a dump", w.d.GetPolicyCache(background()), old.Asserts())
		})
		b := x.Spawn("dump2", func() {
			gen(x, "a dump", w.d.GetPolicyCache(background()), old.Asserts())
		})
		c := x.Spawn("check", func() {
			q := query{"d", []string{"r", "s"}, "a", "x"}
			if got, want := w.check(background(), q.dom, q.roles, q.act, q.res), refDecide(old.Asserts(), q.dom, q.roles, q.act, q.res); got != want {
				x.Failf("check during a dump: %v, want %v", got, want)
			}
		})
		a.Join()
		b.Join()
		c.Join()
	})
	// the policies of one domain expire, are purged and fetched again while dumped
	out = append(out, &Scenario{Name: "purge-dump", Cfg: concCfg, P: 1, PT: 1, D: 1, DT: 1, S: 2, ST: 4, Body: func(x *vs.Exec) {
		short := old
		short.Expires = 30 * time.Minute
		w := newPolWorld(x, polCfg{attempts: 1, purge: "1h", margin: "1s"}, short, other)
		w.net.quiet = true
		w.mustUpdate()
		w.publish(neu, "")
		x.Quiet(func() { vs.Sleep(59 * time.Minute) })
		both := func(d Doc) []A { return append(d.Asserts(), other.Asserts()...) }
		g := gen(x, "a dump after the expiry", w.d.GetPolicyCache(background()), other.Asserts(), both(neu))
		// the re-fetch begins, a dump meets it
		c := x.Spawn("dump", func() {
			d := gen(x, "a dump during the re-fetch", w.d.GetPolicyCache(background()), other.Asserts(), both(neu))
			x.Outcome(fmt.Sprint("during ", d))
		})
		x.Settle()
		c.Join()
		h := gen(x, "a second dump after the expiry", w.d.GetPolicyCache(background()), other.Asserts(), both(neu))
		if h < g {
			x.Failf("a later dump shows earlier policies")
		}
		x.Quiet(func() {
			vs.Sleep(2 * time.Hour)
			gen(x, "the dump after the purge", w.d.GetPolicyCache(background()), both(neu))
		})
		x.Outcome(fmt.Sprint(g, h))
	}})
	return append(out, genSizes(thorough, true))
}
