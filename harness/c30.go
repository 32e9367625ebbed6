package main

import (
	"fmt"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C30",
		Rule:      "every pair (and chosen triples) of requests of a pool of role tokens, access tokens, certificates and HTTP requests with shared and different tokens, certificates, actions and resources, with cold, half warm and warm memory: every interleaving (bounded preemptions) of them, alone and with refreshes that change unrelated data; reference: outcome of each request in an authorizer of its own",
		Scenarios: c30,
	})
}

func c30docs(other bool) []Doc {
	e := Doc{Domain: "e", Expires: day, ZTSKey: "rsa1", ZMSKey: "rsa2", Pols: []P{{{"r", "a", "e:x", "ALLOW"}}}}
	if other {
		e.Pols = []P{{{"r", "a", "e:*", "DENY"}, {"q", "*", "e:x", "ALLOW"}}}
	}
	return []Doc{{Domain: "d", Expires: day, ZTSKey: "rsa1", ZMSKey: "rsa2", Pols: []P{{
		{"r", "a", "d:x", "ALLOW"}, {"s", "a", "d:x", "ALLOW"}, {"r", "b", "d:x", "DENY"}, {"s", "b", "d:x", "ALLOW"}, {"r", "ta", "d:p.y.1", "ALLOW"}, {"s", "ta", "d:p.y.2", "ALLOW"},
		{"r", "a", "d:p.x", "ALLOW"}, {"s", "a", "d:p.x", "ALLOW"}, {"r", "b", "d:p.x", "DENY"}, {"s", "b", "d:p.x", "ALLOW"},
	}}}, e}
}

func c30world(x *vs.Exec) *authWorld {
	tr, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "get", Path: "/y/{n}", Action: "ta", Resource: "y.{n}"}}})
	if err != nil {
		x.Failf("NewMappingRules: %v", err)
	}
	w := newAuthWorld(x, c30docs(false), authz.WithTranslator(tr), authz.WithResourcePrefix("p."),
		authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, true, "0s", "45m", true, map[string][]string{"one": {"c1", "c2"}, "two": {"c2", "two"}})))
	w.net.quiet = true
	w.pub["zms"] = cachedBody("c30zms", func() []byte { return pubkeyDoc("zms", "rsa2") })
	w.init()
	return w
}

// c30req is a request and how it must end.
type c30req struct {
	areq
	want string
}

func c30outcome(p authz.Principal, err error, r c30req) string {
	if err != nil {
		return "rejected"
	}
	if r.kind == "cert" {
		return "cert"
	}
	s := fmt.Sprint(p.Name(), " ", p.Roles(), " ", strings.Join(sorted(p.AuthorizedRoles()), ","))
	if c, ok := p.(authz.OAuthAccessToken); ok {
		s += " " + c.ClientID()
	}
	return s
}

func c30pool() []c30req {
	rt := func(p string, roles ...string) string {
		t := RT{Domain: "d", Principal: p, Roles: roles, Expires: 3 * time.Hour, Key: "rsa1"}
		return t.unsigned() + ";s=" + c14sign("rsa1", t.unsigned())
	}
	one, two := Crt{CN: "one", Raw: "one"}.cert(), Crt{CN: "two", Raw: "two"}.cert()
	at := func(p, client string, cnf string, roles ...string) string {
		return octToken(AT{Aud: "d", Sub: p, Client: client, Scp: roles, Exp: 3 * time.Hour, Iat: -time.Hour, Cnf: map[string]any{"x5t#S256": cnf}})
	}
	a1, a2, a3 := at("u", "c1", thumb(one), "r", "s"), at("v", "c2", thumb(two), "s"), at("w", "c2", thumb(one), "r")
	cr, cs := Crt{CN: "d:role.r"}.cert(), Crt{CN: "d:role.s"}.cert()
	pa, pb := Crt{CN: "one", Raw: "pa", URIs: []string{"spiffe://p/a"}}.cert(), Crt{CN: "two", Raw: "pb", URIs: []string{"spiffe://p/b"}}.cert()
	renewed := Crt{CN: "two", Raw: "renewed", NotBefore: -30 * time.Minute}.cert()
	proxied := func(p string, uris ...any) string {
		return octToken(AT{Aud: "d", Sub: p, Client: "c2", Scp: []string{"s"}, Exp: 3 * time.Hour, Iat: -time.Hour, Cnf: map[string]any{"proxy-principals#spiffe": uris}})
	}
	p1, p2 := proxied("pu", "spiffe://p/a"), proxied("pv", "spiffe://p/q", "spiffe://p/b")
	forged := rt("u", "r")
	forged = forged[:len(forged)-8] + "AAAAAAA-"
	return []c30req{
		{areq{kind: "role", tok: rt("u", "r"), act: "a", res: "x"}, "u [r] r"},
		{areq{kind: "role", tok: rt("u", "r"), act: "b", res: "x"}, "rejected"},
		{areq{kind: "role", tok: rt("v", "s", "t"), act: "b", res: "x"}, "v [s t] s"},
		{areq{kind: "role", tok: rt("v", "s", "t"), act: "get", res: "/y/2"}, "v [s t] s"},
		{areq{kind: "role", tok: rt("u", "r"), act: "get", res: "/y/1"}, "u [r] r"},
		{areq{kind: "role", tok: rt("u", "r"), act: "get", res: "/y/2"}, "rejected"},
		{areq{kind: "role", tok: forged, act: "a", res: "x"}, "rejected"},
		{areq{kind: "access", tok: a1, act: "a", res: "x", crt: one, crtName: "one"}, "u [r s] r,s c1"},
		{areq{kind: "access", tok: a1, act: "a", res: "x", crt: two, crtName: "two"}, "rejected"},
		{areq{kind: "access", tok: a1, act: "b", res: "x", crt: one, crtName: "one"}, "rejected"},
		{areq{kind: "access", tok: a2, act: "b", res: "x", crt: two, crtName: "two"}, "v [s] s c2"},
		{areq{kind: "access", tok: a3, act: "a", res: "x", crt: one, crtName: "one"}, "w [r] r c2"},
		{areq{kind: "http", tok: a1, role: rt("v", "s", "t"), act: "b", res: "x", crt: one, crtName: "one"}, "v [s t] s"},
		{areq{kind: "http", tok: a2, role: rt("u", "r"), act: "a", res: "x", crt: one, crtName: "one"}, "u [r] r"},
		{areq{kind: "cert", act: "a", res: "x", crt: cr, crtName: "r"}, "cert"},
		{areq{kind: "cert", act: "b", res: "x", crt: cs, crtName: "s"}, "cert"},
		{areq{kind: "cert", act: "b", res: "x", crt: cr, crtName: "r"}, "rejected"},
		{areq{kind: "access", tok: p1, act: "a", res: "x", crt: pa, crtName: "pa"}, "pu [s] s c2"},
		{areq{kind: "access", tok: p1, act: "a", res: "x", crt: pb, crtName: "pb"}, "rejected"},
		{areq{kind: "access", tok: p2, act: "a", res: "x", crt: pb, crtName: "pb"}, "pv [s] s c2"},
		{areq{kind: "access", tok: at("x", "two", "gone", "s"), act: "a", res: "x", crt: renewed, crtName: "renewed"}, "x [s] s two"},
		{areq{kind: "access", tok: at("x", "two", "gone", "s"), act: "a", res: "x", crt: two, crtName: "two"}, "rejected"},
	}
}

func c30(thorough bool) []*Scenario {
	var out []*Scenario
	pool := c30pool()
	// together runs the requests concurrently and returns how each ended.
	together := func(x *vs.Exec, w *authWorld, rs []c30req, more ...func()) {
		type res struct {
			p   authz.Principal
			err error
		}
		got := make([]res, len(rs))
		var ts []interface{ Join() }
		for i, r := range rs {
			i, r := i, r
			ts = append(ts, x.Spawn(fmt.Sprint("check", i), func() {
				got[i].p, got[i].err = r.do(w.a)
			}))
		}
		for i, f := range more {
			ts = append(ts, x.Spawn(fmt.Sprint("refresh", i), f))
		}
		for _, t := range ts {
			t.Join()
		}
		for i, r := range rs {
			if g, want := c30outcome(got[i].p, got[i].err, r), r.want; g != want {
				x.Failf("%v, concurrently: %s (%v), alone: %s", r, g, got[i].err, want)
			}
		}
		// and what they leave behind serves each of them as before
		x.Quiet(func() {
			for _, r := range rs {
				p, err := r.do(w.a)
				if g, want := c30outcome(p, err, r), r.want; g != want {
					x.Failf("%v, afterwards: %s (%v), alone: %s", r, g, err, want)
				}
			}
		})
	}
	warm := func(x *vs.Exec, w *authWorld, rs []c30req) {
		x.Quiet(func() {
			for _, r := range rs {
				p, err := r.do(w.a)
				if g := c30outcome(p, err, r); g != r.want {
					x.Failf("%v, before: %s, alone: %s", r, g, r.want)
				}
			}
		})
	}
	quick := map[int]bool{0: true, 2: true, 3: true, 5: true, 7: true, 10: true, 12: true, 14: true}
	var cases [][3]int
	for i := range pool {
		for j := i; j < len(pool); j++ {
			for mode := 0; mode < 3; mode++ {
				if thorough || mode == 0 && quick[i] && quick[j] || i == 0 && (j < 2 || j == 7) || i == 7 && (j == 7 || j == 8) || mode == 0 && (i == 17 && (j == 18 || j == 19) || i == 18 && j > 18 || i == 20 && j == 21) {
					cases = append(cases, [3]int{i, j, mode})
				}
			}
		}
	}
	out = append(out, &Scenario{Name: "alone", Cfg: seqCfg, Body: func(x *vs.Exec) {
		r := pool[x.Choose(len(pool))]
		w := c30world(x)
		for i := 0; i < 2; i++ {
			p, err := r.do(w.a)
			if g := c30outcome(p, err, r); g != r.want {
				x.Failf("%v, alone: %s (%v), want %s", r, g, err, r.want)
			}
		}
		x.Eval(r.String())
	}}, &Scenario{Name: "pairs", Cfg: concCfg, P: 1, PT: 2, D: 0, DT: 0, S: 1, ST: 2, Body: func(x *vs.Exec) {
		c := cases[x.Choose(len(cases))]
		i, j, mode := c[0], c[1], c[2] // memory cold, first warm, both warm
		rs := []c30req{pool[i], pool[j]}
		x.Label("case", fmt.Sprint(i, j, mode))
		w := c30world(x)
		warm(x, w, rs[:mode])
		together(x, w, rs)
		x.Outcome(rs[0].want + "/" + rs[1].want)
	}})
	tri := [][]int{{0, 1, 2}, {7, 8, 10}, {0, 12, 14}}
	if thorough {
		tri = append(tri, []int{3, 4, 5}, []int{12, 13, 10}, []int{0, 0, 6}, []int{7, 9, 8}, []int{0, 7, 14})
	}
	out = append(out, &Scenario{Name: "triples", Cfg: concCfg, P: 1, PT: 1, D: 0, DT: 0, S: 1, ST: 2, Body: func(x *vs.Exec) {
		t := tri[x.Choose(len(tri))]
		x.Label("case", fmt.Sprint(t))
		rs := []c30req{pool[t[0]], pool[t[1]], pool[t[2]]}
		w := c30world(x)
		together(x, w, rs)
	}})
	sel := []int{0, 12}
	modes := 1
	if thorough {
		modes = 2
		sel = append(sel, 1, 3, 7, 8, 10, 14)
	}
	out = append(out, &Scenario{Name: "refresh", Cfg: concCfg, P: 1, PT: 2, D: 0, DT: 0, S: 1, ST: 2, Body: func(x *vs.Exec) {
		r := pool[sel[x.Choose(len(sel))]]
		mode := x.Choose(modes)
		x.Label("case", fmt.Sprint(r, mode))
		w := c30world(x)
		warm(x, w, []c30req{r}[:mode])
		w.publish(c30docs(true)[1])
		w.pub["zts"] = cachedBody("c30zts", func() []byte { return pubkeyDoc("zts", "rsa1", "ec4") })
		w.jwks[athenzJWK] = cachedBody("c30jwk", func() []byte { return jwksDoc("ec4", "oct=oct:"+octSecret) })
		together(x, w, []c30req{r}, func() {
			if err := w.a.Init(background()); err != nil {
				x.Failf("refresh: %v", err)
			}
		})
	}})
	return out
}
