package main

import (
	"fmt"
	"net/url"
	"strings"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C19",
		Rule:      "every rule over the field alphabets (validity at construction); every one- and two-rule set over the path, query and resource templates x every request over the segment and query alphabets; every map iteration order for rules with several placeholders; reference: independent parser, first-match search and single-pass substitution",
		Scenarios: c19,
	})
}

type refParam struct {
	text string
	hole bool
}

type refRule struct {
	segs  []refParam
	query map[string]refParam
}

func hole(s string) bool { return len(s) > 1 && s[0] == '{' && s[len(s)-1] == '}' }

// refParse is nil for an invalid rule.
func refParse(r authz.Rule) *refRule {
	if r.Method == "" || r.Action == "" || r.Resource == "" {
		return nil
	}
	if r.Path != "" && r.Path[0] != '/' {
		return nil
	}
	p, q, hasQ := strings.Cut(r.Path, "?")
	out := &refRule{query: map[string]refParam{}}
	names := map[string]bool{}
	add := func(s string) (refParam, bool) {
		if s == "{}" {
			return refParam{}, false
		}
		if hole(s) {
			if names[s] {
				return refParam{}, false
			}
			names[s] = true
		}
		return refParam{s, hole(s)}, true
	}
	for _, s := range strings.Split(p, "/") {
		x, ok := add(s)
		if !ok {
			return nil
		}
		out.segs = append(out.segs, x)
	}
	if hasQ {
		vals, err := url.ParseQuery(q)
		if err != nil {
			return nil
		}
		for k, v := range vals {
			if len(v) != 1 {
				return nil
			}
			x, ok := add(v[0])
			if !ok {
				return nil
			}
			out.query[k] = x
		}
	}
	return out
}

// refTranslate answers the translation; unspecified when the query of the request is malformed.
func refTranslate(rules []authz.Rule, method, path, query string) (act, res string, malformed bool) {
	q, err := url.ParseQuery(query)
	if err != nil {
		return method, path, true
	}
	segs := strings.Split(path, "/")
	for _, r := range rules {
		p := refParse(r)
		if !strings.EqualFold(r.Method, method) || len(segs) != len(p.segs) || len(q) != len(p.query) {
			continue
		}
		bind := map[string]string{}
		ok := true
		match := func(pat refParam, s string) {
			if pat.hole {
				bind[pat.text] = s
			} else if pat.text != s {
				ok = false
			}
		}
		for i, s := range segs {
			match(p.segs[i], s)
		}
		for k, v := range q {
			pat, known := p.query[k]
			if !known || len(v) != 1 {
				ok = false
				break
			}
			match(pat, v[0])
		}
		if !ok {
			continue
		}
		out, rest := "", r.Resource
	next:
		for rest != "" {
			for h, v := range bind {
				if strings.HasPrefix(rest, h) {
					out += v
					rest = rest[len(h):]
					continue next
				}
			}
			out += rest[:1]
			rest = rest[1:]
		}
		return r.Action, out, false
	}
	return method, path, false
}

func checkTranslate(x *vs.Exec, mr *authz.MappingRules, all map[string][]authz.Rule, dom, method, path, query string) {
	wa, wr, bad := refTranslate(all[dom], method, path, query)
	a, r, err := mr.Translate(dom, method, path, query)
	if bad {
		if err == nil && (a != method || r != path) {
			x.Failf("rules %+v: %s %s ? %s (malformed): got (%q,%q)", all[dom], method, path, query, a, r)
		}
		return
	}
	if err != nil || a != wa || r != wr {
		x.Failf("rules of %s %+v: %s %s ? %s: got (%q,%q,%v), want (%q,%q)", dom, strRules(all[dom]), method, path, query, a, r, err, wa, wr)
	}
}

func strRules(rs []authz.Rule) string {
	var l []string
	for _, r := range rs {
		l = append(l, fmt.Sprintf("%s %s -> %s %s", r.Method, r.Path, r.Action, r.Resource))
	}
	return strings.Join(l, "; ")
}

var c19paths = []string{"", "/", "/a", "/{x}", "/{x}/{y}", "/a/{x}", "/{x}/a", "/{x}?q={y}", "/?q=1", "/{x}?q=1&r={y}", "/a?q={y}&r={z}", "/a?q=", "/{x}/", "/a?q={x}", "/{x}/{y}?q={z}", "/{x}b", "/a?"}
var c19res = []string{"res", "{x}", "{y}{x}", "p:{x}:{y}:{x}", "{z}{y}", "{x", "{{x}}", "{X}", "{x}{z}{y}"}
var c19segs = []string{"", "a", "b", "{x}", "{y}", "{x}{y}", "%2F", "A", "{z}b", "a b"}
var c19queries = []string{"", "q=1", "q=a", "q=%7Bx%7D", "q={x}", "q={y}", "q=1&q=2", "q=1&r=2", "r={y}&q=1", "q={z}&r={x}", "r=1", "q", "q=", "q=%zz", "q=1;r=2", "Q=1", "q=1&r=%7By%7D", "&", "q=1&", "q=%2F"}

func c19(thorough bool) []*Scenario {
	var out []*Scenario
	// construction
	out = append(out, &Scenario{Name: "construction", Cfg: seqCfg, Body: func(x *vs.Exec) {
		paths := append([]string{"a", "a/", "{x}", "?q=1", "//", "/{}", "/{}/a", "/{x}/{x}", "/{x}/{y}/{x}", "/{x}?q={x}", "/a?q={x}&r={x}", "/a?q={}", "/a?q=1&q=1", "/a?q=1&q=2", "/a?q=%zz", "/a?q=1;r=2", "/a?q=1?r=2", "/a?q={x}&q={y}", "/ {x}", "/{x}a", "/a{x}", "/{", "/}", "/{x", "/{x}/b/{y}?q={z}&r={w}", "/{x}/b/{y}?q={z}&r={y}", "/a?q={x}&r=1&s={x}", "/a/?{x}=1"}, c19paths...)
		dom := []string{"", "d"}[x.Choose(2)]
		n := 0
		good := authz.Rule{Method: "get", Path: "/a", Action: "x", Resource: "y"}
		for _, m := range []string{"", "get"} {
			for _, a := range []string{"", "act"} {
				for _, r := range []string{"", "res"} {
					for _, p := range paths {
						bad := authz.Rule{Method: m, Path: p, Action: a, Resource: r}
						valid := refParse(bad) != nil && dom != ""
						for pos := 0; pos < 4; pos++ {
							rs := map[string][]authz.Rule{dom: {bad}}
							switch pos {
							case 1:
								rs[dom] = []authz.Rule{good, bad}
							case 2:
								rs[dom] = []authz.Rule{bad, good}
							case 3:
								rs["other"] = []authz.Rule{good}
							}
							for twice := 0; twice < 2; twice++ { // the same rules can be used again
								mr, err := authz.NewMappingRules(rs)
								if (err == nil) != valid || (mr != nil) != (err == nil) {
									x.Failf("domain %q rules %s: error %v, valid %v", dom, strRules(rs[dom]), err, valid)
								}
							}
							n++
						}
					}
				}
			}
		}
		if mr, err := authz.NewMappingRules(nil); err == nil || mr != nil {
			x.Failf("nil rules are accepted")
		}
		x.Evals(n)
		x.Eval(dom)
	}})
	requests := func(maxSeg int, f func(path, query string)) {
		var rec func(p string, n int)
		rec = func(p string, n int) {
			for _, q := range c19queries {
				f(p, q)
			}
			if n == 0 {
				return
			}
			for _, s := range c19segs {
				rec(p+"/"+s, n-1)
			}
		}
		rec("", maxSeg)
		for _, p := range []string{"a", "a/b", "x"} {
			f(p, "")
			f(p, "q=1")
		}
	}
	out = append(out, &Scenario{Name: "one-rule", Cfg: seqCfg, Body: func(x *vs.Exec) {
		p := c19paths[x.Choose(len(c19paths))]
		for _, r := range c19res {
			for _, m := range []string{"get", "GET", "Post"} {
				act := "act"
				if m == "get" {
					act = "do:{x}{y}" // placeholders count in resources only
				}
				rs := map[string][]authz.Rule{"d": {{Method: m, Path: p, Action: act, Resource: r}}}
				x.Label("rules", strRules(rs["d"]))
				mr, err := authz.NewMappingRules(rs)
				if err != nil {
					x.Failf("%v", err)
				}
				n := 0
				segs := 3
				if m != "get" && !thorough {
					segs = 2
				}
				requests(segs, func(path, query string) {
					for _, method := range []string{"get", "Get", "POST"} {
						n++
						checkTranslate(x, mr, rs, "d", method, path, query)
					}
				})
				checkTranslate(x, mr, rs, "e", "get", "/a", "")
				checkTranslate(x, mr, rs, "", "get", "/a", "")
				x.Evals(n)
				x.Eval(m + p + r)
			}
		}
	}})
	out = append(out, &Scenario{Name: "two-rules", Cfg: seqCfg, Body: func(x *vs.Exec) {
		p := c19paths[x.Choose(len(c19paths))]
		p2 := c19paths[x.Choose(len(c19paths))]
		for _, r := range []string{"one:{x}:{y}", "one:{z}"} {
			for _, m2 := range []string{"get", "post"} {
				rs := map[string][]authz.Rule{"d": {{Method: "get", Path: p, Action: "act1", Resource: r}, {Method: m2, Path: p2, Action: "act2", Resource: "two:{y}:{x}"}},
					"e": {{Method: "get", Path: p2, Action: "act3", Resource: r}}}
				x.Label("rules", strRules(rs["d"]))
				mr, err := authz.NewMappingRules(rs)
				if err != nil {
					x.Failf("%v", err)
				}
				n := 0
				requests(2, func(path, query string) {
					n++
					checkTranslate(x, mr, rs, "d", "GET", path, query)
					checkTranslate(x, mr, rs, "e", "get", path, query)
				})
				checkTranslate(x, mr, rs, "d", "post", "/a", "")
				x.Evals(n)
				x.Eval(p + p2 + r + m2)
			}
		}
	}})
	// every order in which maps can be iterated
	ord := seqCfg
	ord.MapOrder = true
	out = append(out, &Scenario{Name: "map-order", Cfg: ord, D: 5, DT: 12, Body: func(x *vs.Exec) {
		ps := []string{"/{x}/{y}", "/{x}?q={y}", "/a?q={x}&r={y}", "/{x}/{y}?q={z}", "/a?q={x}&r={y}&s={z}"}
		p := ps[x.Choose(len(ps))]
		res := []string{"{x}{y}", "{y}:{x}:{y}", "{x}{y}{z}", "{z}{x}"}[x.Choose(4)]
		vals := []string{"{x}", "{y}", "{z}", "a", "{", "x}", ""}
		if !thorough {
			vals = vals[:4]
		}
		v := []string{vals[x.Choose(len(vals))], vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]}
		fill := p
		for i, h := range []string{"{x}", "{y}", "{z}"} {
			fill = strings.Replace(fill, h, fmt.Sprintf("\x00%d", i), 1)
		}
		for i := range v {
			fill = strings.ReplaceAll(fill, fmt.Sprintf("\x00%d", i), v[i])
		}
		path, query, _ := strings.Cut(fill, "?")
		rs := map[string][]authz.Rule{"d": {{Method: "get", Path: p, Action: "act", Resource: res}}}
		x.Label("rules", strRules(rs["d"]))
		mr, err := authz.NewMappingRules(rs)
		if err != nil {
			x.Failf("%v", err)
		}
		checkTranslate(x, mr, rs, "d", "get", path, query)
		x.Eval(p + res + fill)
	}})
	out = append(out, c19similar(), c19many(thorough))
	// refused whatever the order
	out = append(out, &Scenario{Name: "construction-map-order", Cfg: ord, D: 8, DT: 12, Body: func(x *vs.Exec) {
		ps := []string{"/a?q={x}&r={x}", "/a?q={x}&r={x}&s={y}", "/a?q={x}&r=1&s={x}", "/{x}?q={y}&r={x}", "/a?q={}&r={x}", "/a?q=1&r={x}&s={}", "/a?q=1&r=1&r=2", "/a?q={x}&r={y}&s={z}", "/{x}?q={y}&r={z}"}
		p := ps[x.Choose(len(ps))]
		rs := map[string][]authz.Rule{"d": {{Method: "get", Path: p, Action: "act", Resource: "res"}}, "e": {{Method: "get", Path: "/a", Action: "act", Resource: "res"}}}
		_, err := authz.NewMappingRules(rs)
		if valid := refParse(rs["d"][0]) != nil; valid != (err == nil) {
			x.Failf("path %s: error %v, valid %v", p, err, valid)
		}
		x.Eval(p)
	}})
	return out
}
