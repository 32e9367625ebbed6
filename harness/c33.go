package main

import (
	"crypto/x509"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	authz "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/client"

	"vs"
	vc "vs/context"
)

func init() {
	register(&Check{
		ID:        "C33",
		Rule:      "a started authorizer x every kind of request and of refresh (alone, and every ordered pair of kinds), each repeated hundreds of times with ever new tokens, certificates, actions, resources, queries, keys, policies and tags, in rounds which end with a pause of the memory lifetime and more; the heap in use after the collection of garbage and the goroutines alive must not grow from round to round",
		Scenarios: c33,
	})
}

var c33show = os.Getenv("C33SHOW") != ""

const c33octets = "a secret shared by everybody here"

type c33world struct {
	*authWorld
	x   *vs.Exec
	ctx vc.Context // lives as long as the authorizer
	any bool       // whatever the decision
}

// c33op is something that can be repeated with ever new texts.
type c33op struct {
	name string
	cost int // repetitions are divided by it
	f    func(w *c33world, u string)
}

func c33sign(key, in string) string {
	s, err := getKey(key).signer.Sign(in)
	if err != nil {
		panic(err)
	}
	return s
}

func c33role(u, dom, key, kid string, exp time.Duration) string {
	t := RT{Domain: dom, Principal: u, Roles: []string{"r"}, Expires: exp, Key: kid}.unsigned()
	return t + ";s=" + c33sign(key, t)
}

func c33access(u string, a AT) string {
	a.Sub, a.Scp, a.Aud, a.Iat = u, []string{"r"}, "d", -time.Hour
	if a.Exp == 0 {
		a.Exp = 1000 * day
	}
	if a.Kid == "" {
		a.Kid = "k"
	}
	a.Alg, a.Key = "HS256", "hmac:"+c33octets
	return a.build()
}

// ask makes a request and fails if the answer is not the expected one.
func (w *c33world) ask(want bool, f func() error) {
	if err := f(); (err == nil) != want && !w.any {
		w.x.Failf("accepted expected %v, got %v", want, err)
	}
}

func (w *c33world) publishAll(u string, expires time.Duration) {
	d := Doc{Domain: "d", Expires: expires, ZTSKey: "0", ZMSKey: "0", Pols: []P{{{"r", "*", "d:*", "ALLOW"}, {"r", "denied*", "d:*", "DENY"}, {"r2", "denied*", "d:*", "DENY"}, {"r3", "denied*", "d:*", "DENY"}, {"r3", "*", "d:*", "ALLOW"}}}}
	zts, zms, set := []string{"0=ec1"}, []string{"0=ec2"}, []string{"k=oct:" + c33octets}
	if u != "" {
		for i := 0; i < 8; i++ {
			d.Pols = append(d.Pols, P{{fmt.Sprint("role", i, u), "do" + u, "d:x" + u, "ALLOW"}, {fmt.Sprint("role", i, u), "do" + u, "d:y" + u, "DENY"}})
			zts, zms, set = append(zts, fmt.Sprint(i, u, "=ec3")), append(zms, fmt.Sprint(i, u, "=ec4")), append(set, fmt.Sprint(i, u, "=oct:", c33octets, i))
		}
	}
	if u == "" {
		u = "first"
	}
	w.docs["d"] = &pubDoc{d, d.sign(func(env, key, in string) string {
		if env == "zts" {
			return c33sign("ec1", in)
		}
		return c33sign("ec2", in)
	}), `"` + u + `"`}
	w.pub["zts"], w.pub["zms"] = pubkeyDoc("zts", zts...), pubkeyDoc("zms", zms...)
	w.pubTag["zts"], w.pubTag["zms"] = u, u
	w.jwks = map[string][]byte{athenzJWK: jwksDoc(set...), jku1: jwksDoc(set...)}
}

func c33ops() []c33op {
	var out []c33op
	add := func(name string, cost int, f func(w *c33world, u string)) { out = append(out, c33op{name, cost, f}) }
	access := func(name string, want bool, mk func(u string) (tok, act, res string, crt Crt)) {
		add(name, 1, func(w *c33world, u string) {
			tok, act, res, crt := mk(u)
			c := crt.cert()
			if crt.CN == "" {
				c = nil
			}
			w.ask(want, func() error { _, err := w.a.AuthorizeAccessToken(w.ctx, tok, act, res, c); return err })
		})
	}
	fixed := c33access("fixed", AT{})
	access("access token accepted", true, func(u string) (string, string, string, Crt) { return c33access(u, AT{}), "a", "x", Crt{} })
	access("access token denied", false, func(u string) (string, string, string, Crt) { return c33access(u, AT{}), "denied", "x", Crt{} })
	access("access token expired", false, func(u string) (string, string, string, Crt) {
		return c33access(u, AT{Exp: -time.Minute}), "a", "x", Crt{}
	})
	access("access token forged", false, func(u string) (string, string, string, Crt) {
		return c33access(u, AT{})[3:], "a", "x", Crt{}
	})
	access("access token signature", false, func(u string) (string, string, string, Crt) {
		t := c33access(u, AT{})
		return t[:len(t)-43] + strings.Repeat("A", 43), "a", "x", Crt{}
	})
	access("access token key id", false, func(u string) (string, string, string, Crt) {
		return c33access(u, AT{Kid: "k" + u}), "a", "x", Crt{}
	})
	access("access token key-set URL", false, func(u string) (string, string, string, Crt) {
		return c33access(u, AT{Jku: "https://other.example/" + u}), "a", "x", Crt{}
	})
	access("access token listed key-set URL", true, func(u string) (string, string, string, Crt) {
		return c33access(u, AT{Jku: jku1}), "a", "x", Crt{}
	})
	access("access token certificate", true, func(u string) (string, string, string, Crt) {
		return fixed, "a", "x", Crt{CN: "c" + u, Issuer: "i" + u, Raw: u, URIs: []string{"spiffe://" + u}}
	})
	access("access token bound", true, func(u string) (string, string, string, Crt) {
		c := Crt{CN: "cn", Issuer: "i", Raw: u}
		return c33access(u, AT{Client: "id", Cnf: map[string]any{"x5t#S256": thumb(c.cert())}}), "a", "x", c
	})
	access("access token bound to an address", true, func(u string) (string, string, string, Crt) {
		c := Crt{CN: "cn", Raw: u, URIs: []string{"spiffe://" + u}}
		return c33access(u, AT{Client: "id", Cnf: map[string]any{"proxy-principals#spiffe": []string{"spiffe://" + u}}}), "a", "x", c
	})
	access("access token action", true, func(u string) (string, string, string, Crt) { return fixed, "a" + u, "x", Crt{} })
	access("access token resource", true, func(u string) (string, string, string, Crt) { return fixed, "a", "x" + u, Crt{} })
	access("access token action denied", false, func(u string) (string, string, string, Crt) { return fixed, "denied" + u, "x" + u, Crt{} })
	role := func(name string, want bool, mk func(u string) (tok, act, res string)) {
		add(name, 2, func(w *c33world, u string) {
			tok, act, res := mk(u)
			w.ask(want, func() error { _, err := w.a.AuthorizeRoleToken(w.ctx, tok, act, res); return err })
		})
	}
	rfixed := c33role("fixed", "d", "ec1", "0", 1000*day)
	role("role token accepted", true, func(u string) (string, string, string) {
		return c33role(u, "d", "ec1", "0", 1000*day), "a", "x"
	})
	role("role token denied", false, func(u string) (string, string, string) {
		return c33role(u, "d", "ec1", "0", 1000*day), "denied", "x"
	})
	add("role token denied by several roles", 2, func(w *c33world, u string) {
		t := RT{Domain: "d", Principal: u, Roles: []string{"r", "r2", "r3"}, Expires: 1000 * day, Key: "0"}.unsigned()
		w.ask(false, func() error {
			_, err := w.a.AuthorizeRoleToken(w.ctx, t+";s="+c33sign("ec1", t), "denied", "x")
			return err
		})
	})
	role("role token domain", false, func(u string) (string, string, string) {
		return c33role(u, "d"+u, "ec1", "0", 1000*day), "a", "x"
	})
	role("role token key", false, func(u string) (string, string, string) {
		return c33role(u, "d", "ec3", "0", 1000*day), "a", "x"
	})
	role("role token key id", false, func(u string) (string, string, string) {
		return c33role(u, "d", "ec1", "0"+u, 1000*day), "a", "x"
	})
	role("role token expired", false, func(u string) (string, string, string) {
		return c33role(u, "d", "ec1", "0", -time.Minute), "a", "x"
	})
	role("role token malformed", false, func(u string) (string, string, string) { return "v=Z1;" + u + "=" + u, "a", "x" })
	role("role token resource", true, func(u string) (string, string, string) { return rfixed, "a", "x" + u })
	add("role certificate", 1, func(w *c33world, u string) {
		c := []*x509.Certificate{Crt{CN: "d:role.r", Raw: u, URIs: []string{"athenz://role/d/x" + u, "athenz://role/e" + u + "/y"}}.cert()}
		w.ask(true, func() error { return w.a.VerifyRoleCert(w.ctx, c, "a"+u, "x"+u) })
	})
	add("role certificate refused", 1, func(w *c33world, u string) {
		c := []*x509.Certificate{Crt{CN: "d:role.x" + u, Raw: u}.cert()}
		w.ask(false, func() error { return w.a.VerifyRoleCert(background(), c, "a"+u, "x"+u) })
	})
	add("request", 2, func(w *c33world, u string) {
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/" + u, RawQuery: "q=" + u}, Header: http.Header{"Authorization": {"Bearer " + c33access(u, AT{})}, "Athenz-Role-Auth": {u}}}
		w.ask(true, func() error { _, err := w.a.Authorize(r.WithContext(w.ctx), "a", "x"); return err })
	})
	add("request translated", 2, func(w *c33world, u string) {
		r := &http.Request{Method: "GET", URL: &url.URL{Path: "/" + u, RawQuery: "q=" + u}, Header: http.Header{"Authorization": {"Bearer " + fixed}}}
		w.ask(true, func() error { _, err := w.a.Authorize(r.WithContext(background()), "get", "/t/"+u); return err })
	})
	add("cancelled", 1, func(w *c33world, u string) {
		ctx, cancel := withCancel()
		cancel()
		w.a.AuthorizeAccessToken(ctx, c33access(u, AT{}), "a", "x", nil)
	})
	add("context with time limit", 1, func(w *c33world, u string) {
		ctx, cancel := withCancel()
		w.ask(true, func() error { _, err := w.a.AuthorizeAccessToken(ctx, c33access(u, AT{}), "a", "x", nil); return err })
		cancel()
	})
	init := func(w *c33world, want bool) {
		ctx, cancel := withCancel()
		w.ask(want, func() error { return w.a.Init(ctx) })
		cancel()
	}
	add("refresh of everything", 20, func(w *c33world, u string) {
		w.publishAll(u, 1000*day)
		init(w, true)
	})
	add("refresh by the period", 20, func(w *c33world, u string) {
		w.publishAll(u, 1000*day)
		vs.Sleep(time.Hour)
	})
	add("nothing new", 20, func(w *c33world, u string) { init(w, true) })
	add("refresh with the context of the process", 20, func(w *c33world, u string) {
		w.publishAll(u, 1000*day)
		w.ask(true, func() error { return w.a.Init(w.ctx) })
	})
	add("context which never ends", 1, func(w *c33world, u string) {
		w.ask(true, func() error {
			_, err := w.a.AuthorizeAccessToken(background(), c33access(u, AT{}), "a", "x", nil)
			return err
		})
	})
	add("policies expire", 20, func(w *c33world, u string) {
		w.publishAll(u, w.x.Elapsed()+10*time.Minute)
		init(w, true)
		vs.Sleep(20 * time.Minute)
		w.publishAll("", 1000*day)
		init(w, true)
	})
	for _, k := range []string{rqPubkey, rqPolicy, rqJWK} {
		k := k
		add("failing refresh "+k, 20, func(w *c33world, u string) {
			w.publishAll(u, 1000*day)
			w.answer = func(kind, name string, r *http.Request) *Ans {
				if kind == k {
					return &Ans{Status: 500, Body: []byte(u), Hdr: map[string]string{"ETag": u}}
				}
				return nil
			}
			ctx, cancel := withCancel()
			w.a.Init(ctx)
			cancel()
			w.answer = nil
			w.publishAll("", 1000*day)
			init(w, true)
		})
		add("broken "+k, 20, func(w *c33world, u string) {
			w.answer = func(kind, name string, r *http.Request) *Ans {
				if kind == k {
					return ok200("", []byte(`{"`+u+`":["`+u), u)
				}
				return nil
			}
			ctx, cancel := withCancel()
			w.a.Init(ctx)
			cancel()
			w.answer = nil
			init(w, true)
		})
	}
	add("long failure", 20, func(w *c33world, u string) {
		w.answer = func(kind, name string, r *http.Request) *Ans { return netErr() }
		vs.Sleep(2 * time.Hour)
		w.answer = nil
		vs.Sleep(time.Hour)
	})
	add("dump", 1, func(w *c33world, u string) { w.a.GetPolicyCache(w.ctx) })
	return out
}

// c33configs are settings besides the common ones.
var c33configs = []struct {
	name string
	opts func(w *c33world) []authz.Option
}{
	{"usual settings", func(w *c33world) []authz.Option { return nil }},
	{"client ids and binding", func(w *c33world) []authz.Option {
		return []authz.Option{authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, true, "1h", "1h", true, map[string][]string{"cn": {"id"}}))}
	}},
	{"no policies", func(w *c33world) []authz.Option { return []authz.Option{authz.WithDisablePolicyd()} }},
	{"retrying transport, prefix", func(w *c33world) []authz.Option {
		rt, err := client.NewExponentialRoundTripper(w.net, 5, 3, time.Minute)
		if err != nil {
			w.x.Failf("%v", err)
		}
		return []authz.Option{authz.WithHTTPClient(&http.Client{Transport: rt}), authz.WithResourcePrefix("x")}
	}},
	{"long memory", func(w *c33world) []authz.Option { return []authz.Option{authz.WithCacheExp(3 * time.Minute)} }},
	{"no memory", func(w *c33world) []authz.Option { return []authz.Option{authz.WithCacheExp(0)} }},
}

func c33run(x *vs.Exec, cfg int, sel []c33op, rep int) {
	m, err := authz.NewMappingRules(map[string][]authz.Rule{"d": {{Method: "get", Path: "/t/{n}?q={m}", Action: "a", Resource: "{n}{m}"}}})
	if err != nil {
		x.Failf("%v", err)
	}
	w := &c33world{authWorld: newAuthServer(x), x: x, any: cfg != 0}
	w.net.quiet = true
	w.publishAll("", 1000*day)
	w.a, err = authz.New(append([]authz.Option{authz.WithAthenzURL(athenzURL), authz.WithHTTPClient(w.net.client()), authz.WithAthenzDomains("d"), authz.WithCacheExp(time.Minute), authz.WithTranslator(m),
		authz.WithAccessTokenParam(authz.NewAccessTokenParam(true, false, "", "", false, nil)), authz.WithEnableRoleCert(), authz.WithPolicyRetryAttempts(1), authz.WithPolicyRetryDelay("1m"),
		authz.WithPubkeyRefreshPeriod("1h"), authz.WithPolicyRefreshPeriod("1h"), authz.WithJwkRefreshPeriod("1h"), authz.WithPolicyPurgePeriod("30m"), authz.WithPubkeyETagPurgePeriod("30m"),
		authz.WithPubkeyRetryDelay("1m"), authz.WithJwkRetryDelay("1m"), authz.WithJwkURLs([]string{jku1})}, c33configs[cfg].opts(w)...)...)
	if err != nil {
		x.Failf("%v", err)
	}
	w.init()
	ctx, stop := withCancel()
	w.ctx = ctx
	ech := w.a.Start(ctx)
	x.Spawn("h:reader", func() {
		for {
			if _, ok := vs.Recv2(ech); !ok {
				return
			}
		}
	})
	n := 0
	pause := 5 * time.Minute // the lifetime is a minute, what has ended is removed twice a minute
	for _, o := range sel {
		if o.cost > 2 {
			pause = 3 * time.Hour
		}
	}
	round := func() (int64, int) {
		for i := 0; i < rep; i++ {
			for _, o := range sel {
				if i%o.cost == 0 {
					n++
					u := fmt.Sprintf("%010d", n)
					if o.cost > 2 {
						u += strings.Repeat("z", 600)
					}
					o.f(w, u)
				}
			}
			w.net.Reqs, w.net.Bodies = nil, nil
		}
		w.publishAll("", 1000*day)
		w.a.Init(ctx)
		vs.Sleep(pause)
		x.Settle()
		w.net.Reqs, w.net.Bodies = nil, nil
		h, t := x.Collect()
		x.Evals(1)
		return int64(h), t
	}
	// the first round fills what is needed for the work itself
	round()
	// Now and then something of the harness or the runtime grows once: only growth in several rounds
	// of each of three successive windows counts.
	var all []string
	grown := func() string {
		h0, t0 := round()
		rise, steps, more := int64(0), 0, 0
		for r := 0; r < 4; r++ {
			h, t := round()
			d := h - h0
			rise += d
			if d > 1500 {
				steps++
			}
			more += t - t0
			all = append(all, fmt.Sprint(d))
			h0, t0 = h, t
		}
		switch {
		case more > 0:
			return "the number of goroutines"
		case rise > 8000 && steps > 1:
			return "the memory in use"
		}
		return ""
	}
	g := grown()
	if g != "" && grown() == g && grown() == g {
		x.Failf("%s grows with the number of repetitions", g)
	}
	if c33show {
		fmt.Fprintf(os.Stderr, "%d %-50s %v\n", cfg, sel[0].name, all)
	}
	stop()
	x.Settle()
}

func c33(thorough bool) []*Scenario {
	ops := c33ops()
	var requests, refreshes []c33op
	for _, o := range ops {
		if o.cost > 2 {
			refreshes = append(refreshes, o)
		} else {
			requests = append(requests, o)
		}
	}
	out := []*Scenario{{Name: "kinds", Cfg: seqCfg, Body: func(x *vs.Exec) {
		o := ops[x.Choose(len(ops))]
		x.Label("repeated", o.name)
		c33run(x, 0, []c33op{o}, 500)
		x.Eval(o.name)
	}}, {Name: "settings", Cfg: seqCfg, Body: func(x *vs.Exec) {
		c := 1 + x.Choose(len(c33configs)-1)
		i := x.Choose(len(refreshes) + 1)
		sel := append([]c33op{}, requests...)
		name := "every request"
		if i > 0 {
			sel = append([]c33op{refreshes[i-1]}, requests...)
			name += ", " + sel[0].name
		}
		x.Label("repeated", name+", "+c33configs[c].name)
		c33run(x, c, sel, 100)
		x.Eval(name + c33configs[c].name)
	}}}
	if !thorough {
		return out
	}
	out = append(out, &Scenario{Name: "pairs", Cfg: seqCfg, Body: func(x *vs.Exec) {
		a, b := ops[x.Choose(len(ops))], ops[x.Choose(len(ops))]
		x.Label("repeated", a.name+", "+b.name)
		c33run(x, 0, []c33op{a, b}, 200)
		x.Eval(a.name + b.name)
	}})
	return out
}
