package main

import (
	"fmt"
	"net/http"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"

	"vs"
)

func init() {
	register(&Check{
		ID:        "C32",
		Rule:      "two authorizers in one process with the same server address, key ids, domains and role names but different data, and one setting given differently (every kind of setting): every sequence of publishing, loading, stopping, waiting and creating a third one, each followed by every request to both; every interleaving (bounded preemptions) of a request to one with a request to, or a refresh or stop of, the other; reference: each authorizer's own configuration and loaded data",
		Scenarios: c32,
	})
}

var (
	c32zts = []string{"ec1", "ec4", "rsa1", "ec3"}
	c32zms = []string{"ec2", "ec3", "ec1", "rsa2"}
)

// c32req is a request and whether authorizer w accepts it with the data of version ver loaded.
type c32req struct {
	areq
	hdr string // header of the role token of an http request
	ok  func(w, ver int) bool
}

func (r c32req) do(a authz.Authorizerd) (authz.Principal, error) {
	if r.hdr == "" {
		return r.areq.do(a)
	}
	q, _ := http.NewRequest("GET", "http://h/", nil)
	q.Header.Set(r.hdr, r.role)
	return a.Authorize(q.WithContext(background()), r.act, r.res)
}

// c32case is a setting given differently to the two authorizers.
type c32case struct {
	name string
	tags bool
	opts [2][]authz.Option
	doc  func(w int, d *Doc) // changes the document of an authorizer
	reqs []c32req
	// accepted changes the acceptance of the common requests
	accepted func(w, ver, tok, res int, kind string) bool
}

func c32role(t int, dom string) string {
	u := RT{Domain: dom, Principal: fmt.Sprint("ru", t), Roles: []string{"r"}, Expires: 100 * day, Key: "0"}.unsigned()
	return u + ";s=" + c14sign(c32zts[t], u)
}

func c32access(t int, a AT) string {
	a.Sub, a.Scp, a.Exp, a.Iat = fmt.Sprint("au", t), []string{"r"}, 100*day, -time.Hour
	if a.Aud == "" {
		a.Aud = "d"
	}
	a.Alg, a.Key, a.Kid = "HS256", "hmac:"+c32secret(t), "k"
	return a.build()
}

func c32secret(t int) string { return fmt.Sprintf("the secret of version %d, which is long enough", t) }

func c32cases() []c32case {
	x := func(u int) string { return fmt.Sprint("x", u) }
	var out []c32case
	add := func(c c32case) { out = append(out, c) }
	two := func(a, b authz.Option) [2][]authz.Option { return [2][]authz.Option{{a}, {b}} }
	add(c32case{name: "nothing"})
	add(c32case{name: "memory", opts: two(authz.WithCacheExp(time.Minute), authz.WithCacheExp(0))})
	add(c32case{name: "resource prefix", opts: [2][]authz.Option{{authz.WithResourcePrefix("p.")}, nil}, doc: func(w int, d *Doc) {
		if w == 0 {
			for i := range d.Pols[0] {
				d.Pols[0][i].Resource = "d:p." + d.Pols[0][i].Resource[2:]
			}
		}
	}})
	c := c32case{name: "role header", opts: two(authz.WithRoleAuthHeader("X-A"), authz.WithRoleAuthHeader("X-B"))}
	for t := 0; t < 4; t++ {
		for i, h := range []string{"X-A", "X-B", "Athenz-Role-Auth"} {
			i, t := i, t
			c.reqs = append(c.reqs, c32req{areq{kind: "http", role: c32role(t, "d"), act: "a", res: x(t)}, h, func(w, ver int) bool { return w == i && ver == t }})
		}
	}
	add(c)
	rules := func(res string) authz.Option {
		m, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "get", Path: "/q", Action: "a", Resource: res}, {Method: "get", Path: "/q/{n}", Action: "a", Resource: res + "{n}"}}})
		if err != nil {
			panic(err)
		}
		return authz.WithTranslator(m)
	}
	c = c32case{name: "translator", opts: two(rules("x"), rules("y"))}
	for t := 0; t < 4; t++ {
		t := t
		c.reqs = append(c.reqs, c32req{areq{kind: "access", tok: c32access(t, AT{}), act: "get", res: fmt.Sprint("/q/", t)}, "", func(w, ver int) bool { return w == 0 && ver == t }},
			c32req{areq{kind: "role", tok: c32role(t, "d"), act: "get", res: "/q"}, "", func(w, ver int) bool { return w == 1 && ver == t }})
	}
	c.doc = func(w int, d *Doc) { d.Pols = append(d.Pols, P{{"r", "a", "d:y", "ALLOW"}}) }
	add(c)
	ids := func(id string) authz.Option {
		return authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "", "", true, map[string][]string{"cn": {id}}))
	}
	c = c32case{name: "client ids", opts: two(ids("ida"), ids("idb")), accepted: func(w, ver, tok, res int, kind string) bool { return kind == "role" && ver == tok && ver == res }}
	for t := 0; t < 4; t++ {
		for i, id := range []string{"ida", "idb"} {
			i, t := i, t
			c.reqs = append(c.reqs, c32req{areq{kind: "access", tok: c32access(t, AT{Client: id}), act: "a", res: x(t), crt: Crt{CN: "cn", Raw: "cn"}.cert(), crtName: "cn"}, "", func(w, ver int) bool { return w == i && ver == t }})
		}
	}
	add(c)
	add(c32case{name: "policies", opts: [2][]authz.Option{nil, {authz.WithDisablePolicyd()}}, accepted: func(w, ver, tok, res int, kind string) bool { return ver == tok && (w == 1 || ver == res) }})
	c = c32case{name: "role certificates", opts: [2][]authz.Option{{authz.WithEnableRoleCert(), authz.WithRoleCertURIPrefix("athenz://a/")}, {authz.WithEnableRoleCert(), authz.WithRoleCertURIPrefix("athenz://b/")}}}
	for u := 0; u < 4; u++ {
		for i, p := range []string{"athenz://a/", "athenz://b/"} {
			i, u := i, u
			c.reqs = append(c.reqs, c32req{areq{kind: "cert", act: "a", res: x(u), crt: Crt{URIs: []string{p + "d/r"}}.cert(), crtName: p}, "", func(w, ver int) bool { return w == i && ver == u }})
		}
		u := u
		c.reqs = append(c.reqs, c32req{areq{kind: "cert", act: "a", res: x(u), crt: Crt{CN: "d:role.r"}.cert(), crtName: "CN"}, "", func(w, ver int) bool { return ver == u }})
	}
	add(c)
	c = c32case{name: "key-set URLs", opts: two(authz.WithJwkURLs([]string{jku1}), authz.WithJwkURLs([]string{jku2}))}
	for t := 0; t < 4; t++ {
		for i, u := range []string{jku1, jku2} {
			i, t := i, t
			c.reqs = append(c.reqs, c32req{areq{kind: "access", tok: c32access(t, AT{Jku: u}), act: "a", res: x(t)}, "", func(w, ver int) bool { return w == i && ver == t }})
		}
	}
	add(c)
	bind := func(on bool) authz.Option {
		return authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, on, "", "", false, nil))
	}
	add(c32case{name: "binding", opts: two(bind(true), bind(false)), accepted: func(w, ver, tok, res int, kind string) bool {
		return ver == tok && ver == res && (kind == "role" || w == 1)
	}})
	c = c32case{name: "domains", doc: func(w int, d *Doc) {
		if w == 1 {
			d.Domain = "e"
			for i := range d.Pols[0] {
				d.Pols[0][i].Resource = "e" + d.Pols[0][i].Resource[1:]
			}
		}
	}, accepted: func(w, ver, tok, res int, kind string) bool { return w == 0 && ver == tok && ver == res }}
	for t := 0; t < 4; t++ {
		t := t
		c.reqs = append(c.reqs, c32req{areq{kind: "access", tok: c32access(t, AT{Aud: "e"}), act: "a", res: x(t)}, "", func(w, ver int) bool { return w == 1 && ver == t }},
			c32req{areq{kind: "role", tok: c32role(t, "e"), act: "a", res: x(t)}, "", func(w, ver int) bool { return w == 1 && ver == t }})
	}
	add(c)
	add(c32case{name: "kinds", opts: [2][]authz.Option{{authz.WithDisableRoleToken()}, {authz.WithAccessTokenParam(authz.NewAccessTokenParam(false, false, "", "", false, nil)), authz.WithDisableJwkd()}},
		accepted: func(w, ver, tok, res int, kind string) bool {
			return ver == tok && ver == res && (kind == "role") == (w == 1)
		}})
	for i := range out {
		c := &out[i]
		c.tags = i%2 == 1
		for t := 0; t < 4; t++ {
			for _, u := range []int{t, t ^ 1} {
				for _, kind := range []string{"role", "access"} {
					t, u, kind := t, u, kind
					tok := c32role(t, "d")
					if kind == "access" {
						tok = c32access(t, AT{})
					}
					c.reqs = append(c.reqs, c32req{areq{kind: kind, tok: tok, act: "a", res: x(u)}, "", func(w, ver int) bool {
						if c.accepted != nil {
							return c.accepted(w, ver, t, u, kind)
						}
						return ver == t && ver == u
					}})
				}
			}
		}
	}
	return out
}

// c32world is one of the two authorizers.
type c32world struct {
	*authWorld
	i                 int
	published, loaded int
	c                 *c32case
	stopped           bool
	stop              func()
	rd                *c22reader
}

func (w *c32world) publishVersion(v int) {
	w.published = v
	d := Doc{Domain: "d", Expires: 1000 * day, ZTSKey: "0", ZMSKey: "0", Pols: []P{{{"r", "a", fmt.Sprint("d:x", v), "ALLOW"}, {"r", "b", "d:*", "DENY"}}}}
	if w.c.doc != nil {
		w.c.doc(w.i, &d)
	}
	tag := ""
	if w.c.tags {
		tag = fmt.Sprintf(`"tag %d"`, v/2) // the same tags by both servers
		w.pubTag["zts"], w.pubTag["zms"] = tag, tag
	}
	w.docs = map[string]*pubDoc{d.Domain: {d, cachedBody(fmt.Sprintf("c32 %d %+v", v, d), func() []byte {
		return d.sign(func(env, key, in string) string {
			if env == "zts" {
				return realSign(c32zts[v], in)
			}
			return realSign(c32zms[v], in)
		})
	}), tag}}
	w.pub["zts"] = cachedBody(fmt.Sprint("c32zts", v), func() []byte { return pubkeyDoc("zts", "0="+c32zts[v]) })
	w.pub["zms"] = cachedBody(fmt.Sprint("c32zms", v), func() []byte { return pubkeyDoc("zms", "0="+c32zms[v]) })
	set := cachedBody(fmt.Sprint("c32jwk", v), func() []byte { return jwksDoc("k=oct:" + c32secret(v)) })
	w.jwks = map[string][]byte{athenzJWK: set, jku1: set, jku2: set}
}

// refreshed is called when the authorizer has loaded what is published.
func (w *c32world) refreshed() { w.loaded = w.published }

func c32pair(x *vs.Exec, c *c32case) [2]*c32world {
	var ws [2]*c32world
	for i := range ws {
		w := &c32world{authWorld: newAuthServer(x), i: i, c: c}
		w.net.quiet = true
		w.publishVersion(i)
		dom := "d"
		if _, ok := w.docs["e"]; ok {
			dom = "e"
		}
		base := []authz.Option{authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(w.net.client()), authz.WithAthenzDomains(dom), authz.WithCacheExp(time.Minute),
			authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "", "", false, nil)), authz.WithDisableRoleCert(), authz.WithPolicyRetryAttempts(1), authz.WithPolicyRetryDelay("1s"),
			authz.WithPubkeyRefreshPeriod("1h"), authz.WithPolicyRefreshPeriod("1h"), authz.WithJwkRefreshPeriod("1h"), authz.WithPubkeyRetryDelay("1s"), authz.WithJwkRetryDelay("1s")}
		a, err := authz.New(append(base, c.opts[i]...)...)
		if err != nil {
			x.Failf("%v", err)
		}
		w.a = a
		ws[i] = w
	}
	return ws
}

// probe makes every request to both and compares.
func c32probe(x *vs.Exec, ws [2]*c32world, story string) {
	for _, r := range ws[0].c.reqs {
		for _, w := range ws {
			p, err := r.do(w.a)
			if ok := r.ok(w.i, w.loaded); ok != (err == nil) {
				x.Failf("%s: authorizer %d with version %d loaded: %v: %v, accepted alone: %v", story, w.i+1, w.loaded, r.areq, err, ok)
			}
			if err == nil && p != nil && r.kind != "cert" {
				want := fmt.Sprint("ru", w.loaded)
				if r.kind == "access" {
					want = fmt.Sprint("au", w.loaded)
				}
				if p.Name() != want {
					x.Failf("%s: authorizer %d: principal %s, want %s", story, w.i+1, p.Name(), want)
				}
			}
		}
	}
}

func c32(thorough bool) []*Scenario {
	cases := c32cases()
	depth := 3
	if thorough {
		depth = 4
	}
	ops := []string{"publish to 1", "publish to 2", "load 1", "load 2", "stop 1", "stop 2", "wait for a period", "create another"}
	out := []*Scenario{{Name: "sequences", Cfg: seqCfg, Body: func(x *vs.Exec) {
		ci := x.Choose(len(cases))
		c, first := &cases[ci], ci%2
		if thorough {
			first = x.Choose(2)
		}
		seq := make([]int, depth)
		for i := 0; i < depth-2; i++ {
			seq[i] = x.Choose(len(ops))
		}
		for k := 0; k < len(ops)*len(ops); k++ {
			seq[depth-2], seq[depth-1] = k/len(ops), k%len(ops)
			ws := c32pair(x, c)
			story := fmt.Sprintf("%s given differently, %d loaded first:", c.name, first+1)
			x.Label("sequence", story)
			for j := range ws {
				w := ws[(first+j)%2]
				w.init()
				w.refreshed()
				ctx, cancel := withCancel()
				w.stop = cancel
				w.rd = c22read(x, w.a.Start(ctx))
			}
			c32probe(x, ws, story)
			for _, o := range seq {
				story += " " + ops[o] + ","
				x.Label("sequence", story)
				switch w := ws[o%2]; {
				case o < 2:
					w.publishVersion(w.published ^ 2)
				case o < 4:
					if err := w.a.Init(background()); err != nil {
						x.Failf("%s: %v", story, err)
					}
					w.refreshed()
				case o < 6:
					w.stop()
					w.stopped = true
					x.Settle()
					if !w.rd.closed {
						x.Failf("%s: the stream of the stopped one is not closed", story)
					}
				case o == 6:
					vs.Sleep(time.Hour)
					for _, w := range ws {
						if !w.stopped {
							w.refreshed()
						}
					}
				default:
					o := newAuthServer(x)
					o.net.quiet = true
					if _, err := authz.New(authz.WithAthenzURL("http://other.example"), authz.WithHTTPClient(o.net.client()), authz.WithAthenzDomains("d", "e", "f"), authz.WithResourcePrefix("q."),
						authz.WithRoleAuthHeader("X-O"), authz.WithRoleCertURIPrefix("o://"), authz.WithJwkURLs([]string{"https://other.example/jwk"}), authz.WithCacheExp(time.Hour),
						authz.WithPolicyRefreshPeriod("7h"), authz.WithPubkeyRefreshPeriod("7h"), authz.WithJwkRefreshPeriod("7h"), authz.WithPubkeySysAuthDomain("other"),
						authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, true, "1h", "1h", true, map[string][]string{"cn": {"o"}}))); err != nil {
						x.Failf("%v", err)
					}
					x.Settle()
					if len(o.net.Reqs) > 0 {
						x.Failf("%s: requests while creating", story)
					}
				}
				vs.Sleep(2 * time.Minute) // what is remembered ends
				c32probe(x, ws, story)
			}
			for _, w := range ws {
				if !w.stopped && w.rd.closed {
					x.Failf("%s: the stream of %d is closed", story, w.i+1)
				}
				w.stop()
			}
			x.Settle()
			x.Eval(story)
		}
	}}}
	conc := func(name string, p, s int, body func(x *vs.Exec, ws [2]*c32world, sel []c32req) func()) {
		out = append(out, &Scenario{Name: name, Cfg: concCfg, P: p, S: s, PT: p + 1, ST: s + 1, Body: func(x *vs.Exec) {
			c := &cases[x.Choose(len(cases))]
			var sel []c32req // one of each kind which the first accepts and which the second would
			for w := 0; w < 2; w++ {
				seen := map[string]bool{}
				for _, r := range c.reqs {
					if r.ok(w, w) && !seen[r.kind] {
						seen[r.kind] = true
						sel = append(sel, r)
					}
				}
			}
			r := sel[x.Choose(len(sel))]
			x.Label("case", fmt.Sprintf("%s given differently, %v", c.name, r.areq))
			var ws [2]*c32world
			x.Quiet(func() {
				ws = c32pair(x, c)
				for _, w := range ws {
					w.init()
					w.refreshed()
				}
			})
			other := body(x, ws, sel)
			var err error
			a := x.Spawn("check of 1", func() { _, err = r.do(ws[0].a) })
			b := x.Spawn("other", other)
			a.Join()
			b.Join()
			if ok := r.ok(0, 0); ok != (err == nil) {
				x.Failf("%v: %v, accepted alone: %v", r.areq, err, ok)
			}
			x.Quiet(func() { c32probe(x, ws, "after "+name) })
			x.Outcome(fmt.Sprint(err == nil))
		}})
	}
	conc("requests-to-both", 1, 0, func(x *vs.Exec, ws [2]*c32world, sel []c32req) func() {
		r := sel[x.Choose(len(sel))]
		x.Label("second", r.areq.String())
		return func() {
			_, err := r.do(ws[1].a)
			if ok := r.ok(1, 1); ok != (err == nil) {
				x.Failf("second authorizer: %v: %v, accepted alone: %v", r.areq, err, ok)
			}
		}
	})
	conc("refresh-of-the-other", 0, 1, func(x *vs.Exec, ws [2]*c32world, sel []c32req) func() {
		ws[1].publishVersion(3)
		return func() {
			if err := ws[1].a.Init(background()); err != nil {
				x.Failf("refresh: %v", err)
			}
			ws[1].refreshed()
			x.Quiet(func() { vs.Sleep(2 * time.Minute) })
		}
	})
	return out
}
