package main

import (
	"fmt"
	"strings"
	"time"

	"vs"
	vc "vs/context"
)

func init() {
	register(&Check{
		ID:        "C26",
		Rule:      "every interleaving (bounded preemptions) of a check over up to three roles, with allow and deny assertions in every placement, and a cancellation (and of two checks sharing the context, and with a refresh); every placement of a cancelled or expired context over longer role lists; reference interpreter; goroutines left afterwards",
		Scenarios: c26,
	})
}

// cancelOK fails unless the verdict is an error or the complete decision.
func cancelOK(x *vs.Exec, what string, got, want Verdict) {
	if got.Kind == "allow" && got != want {
		x.Failf("%s: got %v, the full decision is %v", what, got, want)
	}
	// a refusal for want of a matching assertion or by denial must be true as well, or an error
	if got.Kind == "deny" && want.Kind != "deny" {
		x.Failf("%s: denied, the full decision is %v", what, want)
	}
}

func c26(thorough bool) []*Scenario {
	al := func(r, a, res string) A { return A{r, a, res, "ALLOW"} }
	de := func(r, a, res string) A { return A{r, a, res, "DENY"} }
	doc := Doc{Domain: "d", Expires: day, Pols: []P{{
		al("allow", "a", "d:x"), al("allow2", "*", "d:*"), de("allow2", "b", "d:x"), de("deny", "a", "d:x"), al("deny", "a", "d:*"), al("none", "c", "d:x"),
		de("late", "b", "d:x"), de("late", "c", "d:x"), de("late", "a", "d:*"),
	}}}
	as := doc.Asserts()
	lists := [][]string{{"allow"}, {"deny"}, {"allow", "deny"}, {"deny", "allow"}, {"allow", "late"}, {"late", "allow"}, {"allow", "none"}, {"allow", "allow2"}, {"none", "none"}, {}}
	lists3 := [][]string{{"allow", "none", "deny"}, {"deny", "allow", "allow2"}, {"allow", "allow2", "late"}}
	var out []*Scenario
	race := func(name string, lists [][]string, checks, p, pt, s, st int, refresh bool) {
		out = append(out, &Scenario{Name: name, Cfg: concCfg, P: p, PT: pt, D: 1, DT: 1, S: s, ST: st, Body: func(x *vs.Exec) {
			roles := lists[x.Choose(len(lists))]
			x.Label("roles", fmt.Sprint(roles))
			w := newPolWorld(x, polCfg{purge: "1000h"}, doc)
			w.mustUpdate()
			ctx, cancel := withCancel()
			want := refDecide(as, "d", roles, "a", "x")
			var hs []*vs.Handle
			res := ""
			for i := 0; i < checks; i++ {
				i := i
				hs = append(hs, x.Spawn("h:check", func() {
					got := w.check(ctx, "d", roles, "a", "x")
					cancelOK(x, fmt.Sprintf("check %d", i), got, want)
					res += fmt.Sprint(got) + " "
				}))
			}
			hs = append(hs, x.Spawn("h:cancel", func() { cancel() }))
			if refresh {
				hs = append(hs, x.Spawn("h:refresh", func() {
					if err := w.d.Update(background()); err != nil {
						x.Failf("refresh: %v", err)
					}
				}))
			}
			for _, h := range hs {
				h.Join()
			}
			x.Quiet(func() {
				x.Settle()
				for _, l := range leftovers(x) {
					if !strings.Contains(l, "gache") {
						x.Failf("left after the check: %s", l)
					}
				}
				if got := w.check(background(), "d", roles, "a", "x"); got != want {
					x.Failf("later check: got %v, want %v", got, want)
				}
			})
			x.Eval(fmt.Sprint(roles, res))
		}})
	}
	race("two-roles", lists, 1, 2, 3, 2, 3, false)
	race("three-roles", lists3, 1, 2, 3, 2, 3, false)
	race("two-checks", lists[2:5], 2, 1, 2, 1, 2, false)
	race("refresh", lists[2:3], 1, 1, 2, 1, 2, true)

	// contexts which have ended before: every list over the roles up to the length
	out = append(out, &Scenario{Name: "ended-before", Cfg: seqCfg, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{purge: "1000h"}, doc)
		w.mustUpdate()
		names := []string{"allow", "allow2", "deny", "none", "late", "unknown"}
		deadline := x.Choose(2) == 1
		n := 1 + x.Choose(4)
		first := x.Choose(len(names))
		var ctx vc.Context
		if deadline {
			c, cancel := vc.WithTimeout(vc.Background(), time.Second)
			defer cancel()
			vs.Sleep(time.Second + 1)
			ctx = c
		} else {
			c, cancel := withCancel()
			cancel()
			ctx = c
		}
		for _, roles := range [][]string{nil, {}, {""}} {
			for _, q := range [][3]string{{"d", "a", "x"}, {"d", "", ""}, {"", "a", "x"}, {"e", "a", "x"}} {
				cancelOK(x, fmt.Sprint(roles, q), w.check(ctx, q[0], roles, q[1], q[2]), refDecide(as, q[0], roles, q[1], q[2]))
				if err := w.d.CheckPolicy(ctx, q[0], roles, q[1], q[2]); err == nil {
					x.Failf("%v: CheckPolicy(%v) accepts", q, roles)
				}
			}
		}
		idx := make([]int, n)
		idx[0] = first
		for {
			roles := make([]string, n)
			for i, k := range idx {
				roles[i] = names[k]
			}
			want := refDecide(as, "d", roles, "a", "x")
			cancelOK(x, fmt.Sprint(roles), w.check(ctx, "d", roles, "a", "x"), want)
			x.Settle()
			x.Eval(fmt.Sprint(roles, deadline))
			i := n - 1
			for ; i > 0; i-- {
				if idx[i]++; idx[i] < len(names) {
					break
				}
				idx[i] = 0
			}
			if i == 0 {
				break
			}
		}
		for _, l := range leftovers(x) {
			if !strings.Contains(l, "gache") {
				x.Failf("left after the checks: %s", l)
			}
		}
	}})

	// very many expired roles, checked one after another: every check returns
	out = append(out, &Scenario{Name: "many-expired", Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := []int{100, 5300}[x.Choose(2)]
		live := x.Choose(2) == 1
		how := x.Choose(3)
		p := P{}
		for i := 0; i < n; i++ {
			p = append(p, al(fmt.Sprint("r", i), "a", "d:x"))
		}
		desc := fmt.Sprintf("%d expired roles, context of the refresh live %v, %s", n, live, []string{"checked one by one", "over a purge", "dumped"}[how])
		x.Label("case", desc)
		w := newPolWorld(x, polCfg{purge: "20m", margin: "1m"}, Doc{Domain: "d", Expires: time.Hour, Pols: []P{p}})
		ctx, cancel := withCancel()
		if err := w.d.Update(ctx); err != nil {
			x.Failf("%s: update: %v", desc, err)
		}
		w.docs = nil // no further answers
		x.Settle()
		if !live {
			cancel()
		}
		if how == 1 {
			vs.Sleep(2 * time.Hour)
		} else {
			vs.Sleep(time.Hour + time.Second)
		}
		x.Settle()
		done := 0
		h := x.Spawn("h:checks", func() {
			if how == 2 {
				w.d.GetPolicyCache(background())
			}
			for ; done < n; done++ {
				if got := w.check(background(), "d", []string{fmt.Sprint("r", done)}, "a", "x"); got.Kind != "nomatch" {
					x.Failf("%s: expired role r%d: %v", desc, done, got)
				}
			}
		})
		vs.Sleep(10 * time.Minute)
		x.Settle()
		if !h.Done() {
			x.Failf("a check does not return with %s (%d checks did)", desc, done)
		}
		cancel()
		x.Eval(desc)
	}})

	// every credential, cold and warm: what a cancelled request was answered must not be remembered as more
	kinds := []string{"role", "access", "cert", "http"}
	for _, kind := range kinds {
		kind := kind
		out = append(out, &Scenario{Name: "authorizer-" + kind, Cfg: concCfg, P: 1, PT: 2, D: 1, DT: 1, S: 1, ST: 2, Body: func(x *vs.Exec) {
			roles := [][]string{{"allow", "deny"}, {"deny", "allow"}, {"allow", "allow2"}, {"late", "allow"}}[x.Choose(4)]
			warm := x.Choose(2) == 1
			x.Label("roles", fmt.Sprint(kind, roles, " warm ", warm))
			w := newAuthWorld(x, []Doc{doc})
			w.init()
			r := areq{kind: kind, act: "a", res: "x"}
			switch kind {
			case "cert":
				roles = roles[:1]
				r.crt = Crt{CN: "d:role." + roles[0]}.cert()
			case "role":
				t := RT{Domain: "d", Principal: "u", Roles: roles, Expires: time.Hour}
				r.tok = t.unsigned() + ";s=" + c14sign("ec1", t.unsigned())
			default:
				r.tok = octToken(AT{Aud: "d", Sub: "u", Scp: roles, Exp: time.Hour})
			}
			want := refDecide(as, "d", roles, "a", "x")
			try := func(ctx vc.Context, full bool) {
				p, err := r.doCtx(ctx, w.a)
				switch {
				case err == nil && want.Kind != "allow":
					x.Failf("accepted, the full decision is %v", want)
				case err == nil && kind != "cert":
					if got := roleSet(p.(interface{ AuthorizedRoles() []string }).AuthorizedRoles()); got != want.Roles {
						x.Failf("accepted with the roles %v, the full decision is %v", got, want)
					}
				case err != nil && full && want.Kind == "allow":
					x.Failf("rejected: %v", err)
				}
			}
			if warm {
				x.Quiet(func() { try(background(), true) })
			}
			ctx, cancel := withCancel()
			a := x.Spawn("h:check", func() { try(ctx, false) })
			c := x.Spawn("h:cancel", func() { cancel() })
			a.Join()
			c.Join()
			x.Quiet(func() { try(background(), true) })
			x.Eval(fmt.Sprint(roles, warm))
		}})
	}
	return out
}
