package main

import (
	"fmt"
	"strings"

	"vs"
)

var seqCfg = vs.Config{NoSched: true, Horizon: 200_000_000}

func init() {
	register(&Check{
		ID:        "C01",
		Rule:      "every document of up to 3 (thorough 4) assertions over an alphabet of roles x actions x resources x effects, in every order and every placement into policies, loaded through the real fetch/verify/simplify path; every listed request checked against a reference interpreter; a case is non-trivial when at least one assertion matches",
		Scenarios: c01,
	})
	register(&Check{
		ID:        "C02",
		Rule:      "every pattern and every string over the alphabet up to the length bound, as action, as resource and as domain, through load and check; reference: recursive glob matcher; non-trivial: pattern contains a wildcard or the strings match",
		Scenarios: c02,
	})
}

// policyCase loads the document and compares all queries.
func policyCase(x *vs.Exec, d Doc, qs []query) {
	w := newPolWorld(x, polCfg{}, d)
	w.net.quiet = true
	if err := w.d.Update(background()); err != nil {
		x.Label("document", fmt.Sprint(d))
		x.Failf("update failed: %v", err)
	}
	as := d.Asserts()
	n := 0
	for _, q := range qs {
		want := refDecide(as, q.dom, q.roles, q.act, q.res)
		got := w.check(background(), q.dom, q.roles, q.act, q.res)
		if got != want {
			x.Label("document", fmt.Sprint(d.Pols))
			x.Label("request", q.String())
			x.Failf("document %v request %s: got %v, want %v", d.Pols, q, got, want)
		}
		err := w.d.CheckPolicy(background(), q.dom, q.roles, q.act, q.res)
		if v := verdictOf(nil, err); v.Kind != want.Kind {
			x.Failf("document %v request %s: CheckPolicy says %v, want %v", d.Pols, q, v, want)
		}
		if want.Kind != "nomatch" {
			n++
		}
	}
	key := ""
	if n > 0 {
		key = fmt.Sprint(d.Pols)
	}
	x.Eval(key)
	x.Evals(2*len(qs) - 1)
}

// placements splits a list of assertions into policies in several ways.
func placements(l []A) [][]P {
	out := [][]P{{P(l)}}
	if len(l) > 1 {
		var each []P
		for _, a := range l {
			each = append(each, P{a})
		}
		out = append(out, each)
	}
	if len(l) > 2 {
		out = append(out, []P{P(l[:1]), P(l[1:])})
	}
	return out
}

func c01Scenario(name string, atoms []A, n int, qs []query, dom string) *Scenario {
	return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
		// number of assertions, then the first ones by choice; the last one in an inner loop
		k := x.Choose(n) + 1
		var l []A
		for i := 0; i < k-1; i++ {
			l = append(l, atoms[x.Choose(len(atoms))])
		}
		for _, a := range atoms {
			m := append(append([]A(nil), l...), a)
			for _, p := range placements(m) {
				policyCase(x, Doc{Domain: dom, Expires: day, Pols: p}, qs)
			}
		}
	}}
}

func atomsOf(roles, acts, ress, effs []string) []A {
	var out []A
	for _, r := range roles {
		for _, a := range acts {
			for _, s := range ress {
				for _, e := range effs {
					out = append(out, A{r, a, s, e})
				}
			}
		}
	}
	return out
}

func queriesOf(dom []string, roles [][]string, acts, ress []string) []query {
	var out []query
	for _, d := range dom {
		for _, r := range roles {
			for _, a := range acts {
				for _, s := range ress {
					out = append(out, query{d, r, a, s})
				}
			}
		}
	}
	return out
}

func c01(thorough bool) []*Scenario {
	eff := []string{"ALLOW", "DENY"}
	rl := [][]string{{"r"}, {"s"}, {"r", "s"}, {"s", "r"}, {"r", "s", "u"}}
	main := atomsOf([]string{"r", "s"}, []string{"a", "*"}, []string{"d:x", "d:*"}, eff)
	out := []*Scenario{
		c01Scenario("semantics", main, 3, queriesOf([]string{"d"}, rl, []string{"a", "b"}, []string{"x", "y"}), "d"),
		c01Scenario("domains-and-effects", atomsOf([]string{"r", "e:role.r"}, []string{"a"}, []string{"d:x", "e:x", "D:x", "d:d:x"}, []string{"allow", "deny", "", "Deny"}), 2,
			queriesOf([]string{"d", "e"}, [][]string{{"r"}, {"r", "r"}, {}}, []string{"a", "A"}, []string{"x", "d:x"}), "d"),
		// texts which contain the separators used internally
		c01Scenario("separators", atomsOf([]string{"r", "r,a"}, []string{"a", "a,d:x", "*"}, []string{"d:x", "d:x,d:y", "d:y"}, eff), 2,
			queriesOf([]string{"d"}, [][]string{{"r"}, {"r,a"}, {"r", "r,a"}}, []string{"a", "a,d:x"}, []string{"x", "y", "x,d:y"}), "d"),
		c01Scenario("separators2", atomsOf([]string{"r", "r:role.r", `r","a`}, []string{"a", `a","d:x`, "a:d:x"}, []string{"d:x", "d:d:x", `d:x","d:x`}, []string{"ALLOW"}), 2,
			queriesOf([]string{"d", "d:role.r"}, [][]string{{"r"}, {"r:role.r"}, {`r","a`}}, []string{"a", `a","d:x`, "a:d:x"}, []string{"x", "d:x", `x","d:x`}), "d"),
	}
	// roles whose names are prefixes or case variants of one another
	var near [][]string
	names := []string{"r", "rr", "r.r", "R"}
	for _, a := range names {
		near = append(near, []string{a})
		for _, b := range names {
			near = append(near, []string{a, b})
			for _, c := range names {
				near = append(near, []string{a, b, c})
			}
		}
	}
	out = append(out, c01Scenario("similar-roles", atomsOf(names, []string{"a"}, []string{"d:x", "d:y"}, eff), 2,
		queriesOf([]string{"d"}, near, []string{"a"}, []string{"x"}), "d"))
	if thorough {
		out = append(out, c01Scenario("similar-roles3", atomsOf(names, []string{"a"}, []string{"d:x", "d:y"}, eff), 3,
			queriesOf([]string{"d"}, near, []string{"a"}, []string{"x"}), "d"))
	}
	out = append(out, c01Sizes(thorough)...)
	out = append(out, c01similar(), c01many(thorough), c01effects(thorough), c01nulls())
	if thorough {
		out = append(out, c01Scenario("semantics4", main, 4, queriesOf([]string{"d"}, rl[1:], []string{"a", "b"}, []string{"x", "y"}), "d"))
	}
	return out
}

// c01Sizes: long role lists, many assertions per role, many policies, many roles; the deciding
// assertion or role at every position.
func c01Sizes(thorough bool) []*Scenario {
	longest := 40
	if thorough {
		longest = 140
	}
	lists := &Scenario{Name: "long-role-lists", Cfg: seqCfg, Body: func(x *vs.Exec) {
		w := newPolWorld(x, polCfg{}, Doc{Domain: "d", Expires: day, Pols: []P{{{"allow", "a", "d:x", "ALLOW"}, {"allow", "b", "d:x", "DENY"}, {"other", "a", "d:y", "ALLOW"}, {"more", "*", "d:*", "ALLOW"}, {"deny", "a", "d:*", "DENY"}}}})
		w.net.quiet = true
		w.mustUpdate()
		as := w.docs["d"].doc.Asserts()
		big := []int{48, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025}
		n := x.Choose(longest+len(big)) + 1
		if n > longest {
			n = big[n-longest-1]
		}
		edge := map[int]bool{0: true, 1: true, 15: true, 63: true, 64: true, n / 2: true, 127: true, 255: true, 256: true, n - 2: true, n - 1: true}
		for _, pair := range [][2]string{{"allow", "none"}, {"deny", "none"}, {"allow", "more"}, {"allow", "deny"}, {"deny", "more"}} {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if pair[1] == "none" && j != i || pair[1] != "none" && i == j {
						continue
					}
					if n > longest && !(edge[i] && (edge[j] && (i == 0 || i == n-1 || j == 0 || j == n-1) || i == j)) {
						continue
					}
					if n > 24 && n <= longest && j != i && i > 2 && j > 2 && i < n-3 && j < n-3 && i%8 > 1 && j%8 > 1 {
						continue
					}
					l := make([]string, n)
					for k := range l {
						l[k] = "other"
						if k%3 == 1 {
							l[k] = fmt.Sprint("unknown", k)
						}
					}
					l[i], l[j] = pair[0], pair[1]
					if pair[1] == "none" {
						l[j] = pair[0]
					}
					want := refDecide(as, "d", l, "a", "x")
					if got := w.check(background(), "d", l, "a", "x"); got != want {
						x.Label("roles", fmt.Sprint(l))
						x.Failf("list of %d roles, %s at %d and %s at %d: got %v, want %v", n, pair[0], i, pair[1], j, got, want)
					}
					if err := w.d.CheckPolicy(background(), "d", l, "a", "x"); verdictOf(nil, err).Kind != want.Kind {
						x.Failf("list of %d roles, %s at %d and %s at %d: CheckPolicy says %v, want %v", n, pair[0], i, pair[1], j, err, want)
					}
					x.Eval(fmt.Sprint(n, i, j, pair))
				}
			}
		}
	}}
	docs := &Scenario{Name: "large-documents", Cfg: seqCfg, Body: func(x *vs.Exec) {
		sizes := []int{1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 257}
		if thorough {
			sizes = append(sizes, 255, 256, 511, 512, 513, 1000, 1025)
		}
		n := sizes[x.Choose(len(sizes))]
		shape := x.Choose(4)
		at := func(i int, deciding string) Doc {
			d := Doc{Domain: "d", Expires: day}
			var one P
			for k := 0; k < n; k++ {
				a := A{"r", "a", fmt.Sprint("d:f", k), "ALLOW"}
				if shape == 1 || shape == 3 {
					a.Role = fmt.Sprint("r", k)
				}
				if k == i {
					a.Resource, a.Effect = "d:x", deciding
					if deciding == "DENY" {
						a.Resource = "d:*"
					}
				}
				if shape >= 2 {
					d.Pols = append(d.Pols, P{a})
				} else {
					one = append(one, a)
				}
			}
			if one != nil {
				d.Pols = []P{one}
			}
			return d
		}
		for i := 0; i < n; i++ {
			if n > 20 && i > 2 && i < n-3 && i%8 > 1 && i%8 < 7 || n > 100 && i > 2 && i < n-3 && i != 64 && i != 127 && i != 255 && i != 256 {
				continue
			}
			for _, e := range []string{"ALLOW", "DENY"} {
				role := "r"
				if shape == 1 || shape == 3 {
					role = fmt.Sprint("r", i)
				}
				policyCase(x, at(i, e), []query{{"d", []string{role}, "a", "x"}, {"d", []string{role}, "a", "y"}, {"d", []string{"r", "r0", role, fmt.Sprint("r", n-1)}, "a", fmt.Sprint("f", n-1)}, {"d", []string{"r", "r0", role, fmt.Sprint("r", n-1)}, "a", "x"}})
			}
		}
	}}
	return []*Scenario{lists, docs}
}

// ---- C02 ------------------------------------------------------------------------------

func words(alpha []string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, w := range last {
			for _, a := range alpha {
				nx = append(nx, w+a)
			}
		}
		out = append(out, nx...)
		last = nx
	}
	return out
}

func c02Scenario(name string, patAlpha []string, pl int, strAlpha []string, sl int, asAction bool) *Scenario {
	pats, strs := words(patAlpha, pl), words(strAlpha, sl)
	return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
		// one execution per pattern prefix of up to two symbols
		pre := ""
		for i := 0; i < 2; i++ {
			k := x.Choose(len(patAlpha) + 1)
			if k == len(patAlpha) {
				pre += "\x00"
				break
			}
			pre += patAlpha[k]
		}
		for _, p := range pats {
			if q, end := strings.CutSuffix(pre, "\x00"); end && p != q || !end && !strings.HasPrefix(p, pre) {
				continue
			}
			d := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", p, "d:fix", "ALLOW"}}}}
			if !asAction {
				d = Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "fix", "d:" + p, "ALLOW"}}}}
			}
			w := newPolWorld(x, polCfg{}, d)
			w.net.quiet = true
			if err := w.d.Update(background()); err != nil {
				x.Failf("pattern %q does not load: %v", p, err)
			}
			m := 0
			for _, s := range strs {
				act, res := s, "fix"
				if !asAction {
					act, res = "fix", s
				}
				_, err := w.d.CheckPolicyRoles(background(), "d", []string{"r"}, act, res)
				want := globMatch(p, s)
				if (err == nil) != want {
					x.Failf("pattern %q against %q: got %v, want match=%v", p, s, err, want)
				}
				if want {
					m++
				}
			}
			key := ""
			if m > 0 {
				key = p
			}
			x.Eval(key)
			x.Evals(len(strs) - 1)
		}
	}}
}

// c02Long: patterns and texts around a long common part, all in one process.
func c02Long(name string, asAction, thorough bool) *Scenario {
	lens := []int{7, 8, 15, 16, 23, 24, 31, 32, 33, 63, 64, 100, 127, 128, 200}
	if thorough {
		lens = append(lens, 255, 256, 257, 511, 512, 1000, 1024, 4096)
	}
	pats := words([]string{"a", "B", "*", "?"}, 2)
	strs := words([]string{"a", "b", "A", "c"}, 2)
	return &Scenario{Name: name, Cfg: seqCfg, Body: func(x *vs.Exec) {
		n := lens[x.Choose(len(lens))]
		shape := x.Choose(3)
		around := func(s string) string {
			common := strings.Repeat("xY", n)[:n]
			switch shape {
			case 0:
				return common + s
			case 1:
				return s + common
			}
			return common[:n/2] + s + common[n/2:]
		}
		for _, p := range pats {
			d := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", around(p), "d:fix", "ALLOW"}}}}
			if !asAction {
				d = Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "fix", "d:" + around(p), "ALLOW"}}}}
			}
			w := newPolWorld(x, polCfg{}, d)
			w.net.quiet = true
			w.mustUpdate()
			for _, s := range strs {
				act, res := around(s), "fix"
				if !asAction {
					act, res = "fix", around(s)
				}
				_, err := w.d.CheckPolicyRoles(background(), "d", []string{"r"}, act, res)
				if want := globMatch(around(p), around(s)); (err == nil) != want {
					x.Failf("pattern %q against %q: got %v, want match=%v", around(p), around(s), err, want)
				}
			}
			x.Eval(fmt.Sprint(n, shape, p))
			x.Evals(len(strs) - 1)
		}
	}}
}

func c02(thorough bool) []*Scenario {
	n := 4
	if thorough {
		n = 5
	}
	out := []*Scenario{
		c02Scenario("wild-action", []string{"a", "B", "*", "?"}, 4, []string{"a", "b", "A"}, n, true),
		c02Scenario("wild-resource", []string{"a", "B", "*", "?"}, 4, []string{"a", "b", "A"}, n, false),
		// every metacharacter, beside a wildcard, and in the checked text
		c02Scenario("meta-resource", []string{".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "*", "?", "a", ":", "-", ","}, 2, []string{".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "*", "?", "a", ":", "-", ","}, 2, false),
		c02Scenario("meta-action", []string{".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "*", "?", "a", ":", "d"}, 2, []string{".", "^", "$", "|", "[", "]", "+", "\\", "(", ")", "{", "}", "*", "?", "a", "aa", "1"}, 2, true),
		c02Scenario("meta-combined", []string{"a", ".", "*", "?", "|", "^", "$"}, 3, []string{"a", ".", "|", "$"}, 3, false),
		c02Scenario("repetition", []string{"a", "{", "2", "}", "[", "]", "+"}, 4, []string{"a", "2", "[", "{", "}"}, 3, false),
		// blanks and control characters stand for themselves, too
		c02Scenario("blanks-action", []string{" ", "\t", "a", "*", "?", "\u00a0"}, 3, []string{" ", "\t", "\r", "a", "\u00a0", "\x00"}, 3, true),
		c02Scenario("blanks-resource", []string{" ", "\t", "a", "/", "?", "*"}, 3, []string{" ", "\t", "\r", "a", "/", "\x00"}, 3, false),
		c02Runs(thorough),
		c02Long("long-action", true, thorough),
		c02Long("long-resource", false, thorough),
		c02Scenario("unicode-resource", []string{"é", "É", "?", "*", "ß", "a"}, 3, []string{"é", "É", "a", "e", "世"}, 3, false),
		c02Scenario("unicode", []string{"é", "É", "?", "*", "ß", "a"}, 3, []string{"é", "É", "a", "e", "世"}, 3, true),
		// the domain part, and texts with further colons
		{Name: "domain", Cfg: seqCfg, Body: func(x *vs.Exec) {
			parts := []string{"d", "D", "e", "", "*", "?", "d.x", "dd"}
			p := parts[x.Choose(len(parts))]
			for _, sep := range []string{"", ":"} {
				for _, r := range []string{"x", "x:y", "", "*", ":x"} {
					resrc := p + sep + r
					for _, eff := range []string{"ALLOW", "DENY"} {
						d := Doc{Domain: "d", Expires: day, Pols: []P{{{"r", "a", "d:keep", "ALLOW"}}, {{"r", "a", resrc, eff}}}}
						w := newPolWorld(x, polCfg{}, d)
						w.net.quiet = true
						err := w.d.Update(background())
						if bad := !strings.Contains(resrc, ":"); bad != (err != nil) {
							x.Failf("resource %q: load error %v, want rejected=%v", resrc, err, bad)
						}
						for _, q := range []string{"x", "x:y", "", ":x", "keep", "d:x", "y", "d"} {
							got := w.check(background(), "d", []string{"r"}, "a", q)
							want := refDecide(d.Asserts(), "d", []string{"r"}, "a", q)
							if err != nil {
								want = Verdict{Kind: "nomatch"}
							}
							if got != want {
								x.Failf("resource %q effect %s request %q: got %v want %v", resrc, eff, q, got, want)
							}
							x.Eval(resrc + eff)
						}
					}
				}
			}
		}},
	}
	return out
}
